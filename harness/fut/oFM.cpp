#include "machine.hpp"
namespace fm {
template <> void attach_out<OFM>(AttachReq& q) { attach_out_impl<OFM>(q); }
template <> void make_out<OFM>(MakeReq& q) { make_out_impl<OFM>(q); }
} // namespace fm
