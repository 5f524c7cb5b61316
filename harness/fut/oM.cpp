#include "machine.hpp"
namespace fm {
template <> void attach_out<OM>(AttachReq& q) { attach_out_impl<OM>(q); }
template <> void make_out<OM>(MakeReq& q) { make_out_impl<OM>(q); }
} // namespace fm
