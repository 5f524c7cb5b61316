#include "ops.hpp"
namespace ch {
std::unique_ptr<OpsBase> ops_copy(World& w) { return std::make_unique<Ops<CV>>(w); }
} // namespace ch
