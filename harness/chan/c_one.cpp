#include "one.hpp"
namespace ch {
template stlab::receiver<CV> merge_one<CV>(Node&, stlab::executor_t, const std::vector<stlab::receiver<CV>*>&);
}
