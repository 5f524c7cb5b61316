#include "zip.hpp"
namespace ch {
template stlab::receiver<MV> merge_zip<MV>(Node&, stlab::executor_t, const std::vector<stlab::receiver<MV>*>&);
}
