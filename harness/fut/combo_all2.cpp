#include "combo_fn.hpp"
namespace fm {
template <class R, class... T>
future<R> all_go(ComboReq& q) {
    return [&]<std::size_t... I>(std::index_sequence<I...>) {
        return stlab::when_all(ex(q.exec), WFn<R>(q.node), std::move(href<T>(q.in[I]))...);
    }(std::index_sequence_for<T...>{});
}
void real_all2(ComboReq& q, Handle& dst) {
    switch (q.sig) {
            case 3: dst.v = all_go<Val, void, void>(q); break;
            case 4: dst.v = all_go<Val, void, Val, void>(q); break;
            case 5: dst.v = all_go<Val, Mov, void, Val>(q); break;
            case 6: dst.v = all_go<Val, Val, Val, Val>(q); break;
            case 7: dst.v = all_go<Val, Val, void, Mov, Val>(q); break;
            default: dst.v = all_go<Val, Val, void, Val, Val, Mov, void, Val, Val, void, Val>(q); break;
    }
}
} // namespace fm
