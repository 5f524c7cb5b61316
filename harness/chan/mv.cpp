#include "ops.hpp"
namespace ch {
std::unique_ptr<OpsBase> ops_move(World& w) { return std::make_unique<Ops<MV>>(w); }
} // namespace ch
