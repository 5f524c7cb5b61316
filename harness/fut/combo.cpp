#include "combo_fn.hpp"
namespace fm {
std::vector<Ty> all_sig(int s) {
    switch (s) {
        case 0: return {TV, TV};
        case 1: return {TV};
        case 2: return {TV, TM};
        case 3: return {TD, TD};
        case 4: return {TD, TV, TD};
        case 5: return {TM, TD, TV};
        case 6: return {TV, TV, TV};
        case 7: return {TV, TD, TM, TV};
        default: return {TV, TD, TV, TV, TM, TD, TV, TV, TD, TV};
    }
}
std::vector<Ty> any_sig(int s) {
    switch (s) {
        case 0: return {TV, TV};
        case 1: return {TV};
        case 2: return {TV, TV, TV};
        case 3: return {TD, TD};
        case 4: return {TD, TD, TD};
        case 5: return {TM, TM};
        default: return {TV, TV, TV, TV, TV, TV, TV, TV, TV};
    }
}

template <class R, class T>
auto range_go(ComboReq& q) {
    std::vector<future<T>> v;
    for (auto& x : q.in) v.push_back(std::move(href<T>(x)));
    auto f = q.kind == ALL_R ? stlab::when_all(ex(q.exec), WFn<R>(q.node), std::make_pair(v.begin(), v.end())) :
                               stlab::when_any(ex(q.exec), WFn<R>(q.node), std::make_pair(v.begin(), v.end()));
    if constexpr (std::is_same_v<T, Val>)
        for (auto& x : v)
            if (!x.valid()) g->error("when_all/when_any moved from the futures of a copyable range");
    return f;
}
template <class T>
void range_r(ComboReq& q, Handle& dst) {
    switch (q.out) {
        case OV: dst.v = range_go<Val, T>(q); break;
        case OM: dst.m = range_go<Mov, T>(q); break;
        case OD: dst.d = range_go<void, T>(q); break;
        default:
            if constexpr (std::is_same_v<T, Val>) dst.v = range_go<future<Val>, T>(q);
    }
}

void real_combo(ComboReq& q, Handle& dst) {
    if (q.kind == ALL_T) return real_all(q, dst);
    if (q.kind == ANY_T) return real_any(q, dst);
        switch (q.sig) {
            case 0: range_r<Val>(q, dst); break;
            case 1: range_r<Mov>(q, dst); break;
            default: range_r<void>(q, dst); break;
        }
}
} // namespace fm
