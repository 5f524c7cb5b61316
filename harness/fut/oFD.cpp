#include "machine.hpp"
namespace fm {
template <> void attach_out<OFD>(AttachReq& q) { attach_out_impl<OFD>(q); }
template <> void make_out<OFD>(MakeReq& q) { make_out_impl<OFD>(q); }
} // namespace fm
