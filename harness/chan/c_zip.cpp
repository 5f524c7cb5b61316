#include "zip.hpp"
namespace ch {
template stlab::receiver<CV> merge_zip<CV>(Node&, stlab::executor_t, const std::vector<stlab::receiver<CV>*>&);
}
