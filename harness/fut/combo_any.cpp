#include "combo_fn.hpp"
namespace fm {
template <class R, class... T>
future<R> any_go(ComboReq& q) {
    return [&]<std::size_t... I>(std::index_sequence<I...>) {
        return stlab::when_any(ex(q.exec), WFn<R>(q.node), std::move(href<T>(q.in[I]))...);
    }(std::index_sequence_for<T...>{});
}
void real_any(ComboReq& q, Handle& dst) {
        switch (q.sig) {
            case 0:
                if (q.out == OV)
                    dst.v = any_go<Val, Val, Val>(q);
                else if (q.out == OM)
                    dst.m = any_go<Mov, Val, Val>(q);
                else
                    dst.d = any_go<void, Val, Val>(q);
                break;
            case 1: dst.v = any_go<Val, Val>(q); break;
            case 2: dst.v = any_go<Val, Val, Val, Val>(q); break;
            case 3: dst.v = any_go<Val, void, void>(q); break;
            case 4: dst.v = any_go<Val, void, void, void>(q); break;
            case 5: dst.v = any_go<Val, Mov, Mov>(q); break;
            default: dst.v = any_go<Val, Val, Val, Val, Val, Val, Val, Val, Val, Val>(q); break;
        }
}
} // namespace fm
