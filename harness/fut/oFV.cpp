#include "machine.hpp"
namespace fm {
template <> void attach_out<OFV>(AttachReq& q) { attach_out_impl<OFV>(q); }
template <> void make_out<OFV>(MakeReq& q) { make_out_impl<OFV>(q); }
} // namespace fm
