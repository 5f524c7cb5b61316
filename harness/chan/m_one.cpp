#include "one.hpp"
namespace ch {
template stlab::receiver<MV> merge_one<MV>(Node&, stlab::executor_t, const std::vector<stlab::receiver<MV>*>&);
}
