#include "machine.hpp"
namespace fm {
template <> void attach_out<OD>(AttachReq& q) { attach_out_impl<OD>(q); }
template <> void make_out<OD>(MakeReq& q) { make_out_impl<OD>(q); }
} // namespace fm
