#include "machine.hpp"
namespace fm {
template <> void attach_out<OV>(AttachReq& q) { attach_out_impl<OV>(q); }
template <> void make_out<OV>(MakeReq& q) { make_out_impl<OV>(q); }
} // namespace fm
