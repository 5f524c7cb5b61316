#pragma once
#include "machine.hpp"
namespace ch {
template <class V, class F>
auto attach(stlab::receiver<V>& r, F f, stlab::executor_t e, stlab::executor_t e2, int b, int form) {
    using stlab::executor;
    using stlab::operator&;
    using BS = stlab::buffer_size;
    auto sb = [&](int x) { return BS{static_cast<std::size_t>(x)}; };
    switch (form) {
    case 1: return r | (executor{e} & std::move(f));
    case 2: return r | (std::move(f) & executor{e});
    case 3: return r | (sb(b) & std::move(f));
    case 4: return r | (std::move(f) & sb(b));
    case 5: return r | (executor{e} & std::move(f) & sb(b));
    case 6: return r | (std::move(f) & executor{e} & sb(b));
    case 7: return r | (sb(b) & (executor{e} & std::move(f)));
    case 8: return r | (sb(b) & (std::move(f) & executor{e}));
    case 9: return r | (sb(b) & executor{e} & std::move(f));
    case 10: return r | (executor{e} & sb(b) & std::move(f));
    case 11: return r | (std::move(f) & (sb(b) & executor{e}));
    case 12: return r | (std::move(f) & (executor{e} & sb(b)));
    case 13: return r | (std::move(f) & sb(b) & executor{e});
    case 14: return r | (sb(b) & std::move(f) & executor{e});
    case 15: { // named executor, and a later annotation replaces an earlier one
        const executor x{e};
        return r | (x & sb(b + 2) & std::move(f) & sb(b));
    }
    case 16: {
        executor x{e};
        const executor y{e2};
        return r | (y & sb(b) & std::move(f) & std::move(x));
    }
    case 17: {
        const executor x{e};
        return r | (sb(b) & x & std::move(f));
    }
    case 18: {
        const executor x{e};
        return r | (std::move(f) & (sb(b) & x));
    }
    case 19: {
        const executor x{e};
        return r | (std::move(f) & (x & sb(b)));
    }
    case 20: {
        executor x{e};
        return r | (sb(b) & (x & std::move(f)));
    }
    case 21: {
        executor x{e};
        return r | (std::move(f) & x & sb(b));
    }
    default: return r | std::move(f);
    }
}

template <class V, class F, class R>
R attach_as(stlab::receiver<V>& r, F f, stlab::executor_t e, stlab::executor_t e2, int b, int form) {
    return attach<V>(r, std::move(f), std::move(e), std::move(e2), b, form);
}
#define CH_ATT(V, R, ...) \
    template stlab::receiver<R> attach_as<V, __VA_ARGS__, stlab::receiver<R>>(stlab::receiver<V>&, __VA_ARGS__, stlab::executor_t, stlab::executor_t, int, int);
} // namespace ch
