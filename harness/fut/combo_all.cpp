#include "combo_fn.hpp"
namespace fm {
template <class R, class... T>
future<R> all_go(ComboReq& q) {
    return [&]<std::size_t... I>(std::index_sequence<I...>) {
        return stlab::when_all(ex(q.exec), WFn<R>(q.node), std::move(href<T>(q.in[I]))...);
    }(std::index_sequence_for<T...>{});
}
void real_all(ComboReq& q, Handle& dst) {
    if (q.sig > 2) return real_all2(q, dst);
    switch (q.sig) {
            case 0:
                if (q.out == OV)
                    dst.v = all_go<Val, Val, Val>(q);
                else if (q.out == OM)
                    dst.m = all_go<Mov, Val, Val>(q);
                else
                    dst.d = all_go<void, Val, Val>(q);
                break;
            case 1: dst.v = all_go<Val, Val>(q); break;
            default: dst.v = all_go<Val, Val, Mov>(q); break;
    }
}
} // namespace fm
