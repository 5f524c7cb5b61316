// U02: tuple and index sequence algorithms
#include "pbt.hpp"

#include <algorithm>
#include <array>
#include <atomic>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <typeinfo>
#include <utility>
#include <vector>

#include <stlab/config.hpp>

#include <stlab/concurrency/tuple_algorithm.hpp>
#include <stlab/functional.hpp>
#include <stlab/utility.hpp>

namespace {

std::string show(const std::vector<int>& v) {
    std::string s = "[";
    for (int e : v) s += std::to_string(e) + " ";
    return s + "]";
}

// ------------------------------------------------------------------ U02
// finds it in the library's public or detail namespace
namespace lookup {
using namespace stlab;
using namespace stlab::STLAB_VERSION_NAMESPACE()::detail;
} // namespace lookup

struct Counted {
    int v = 0;
    int* copies = nullptr;
    Counted() = default;
    Counted(int x, int* cp) : v(x), copies(cp) {}
    Counted(const Counted& o) : v(o.v), copies(o.copies) {
        if (copies) ++*copies;
    }
    Counted(Counted&& o) noexcept : v(o.v), copies(o.copies) { o.v = -1; }
    Counted& operator=(const Counted& o) {
        v = o.v;
        copies = o.copies;
        if (copies) ++*copies;
        return *this;
    }
    Counted& operator=(Counted&& o) noexcept {
        v = o.v;
        copies = o.copies;
        o.v = -1;
        return *this;
    }
};

template <int N, class Seq = std::make_index_sequence<N>>
struct TupN;
template <int N, std::size_t... I>
struct TupN<N, std::index_sequence<I...>> {
    template <std::size_t>
    using T = Counted;
    using type = std::tuple<T<I>...>;
    static type make(const std::vector<int>& v, int* cp) { return type{Counted(v[I], cp)...}; }
};

template <int N>
void u02_runtime(pbt::Case& c) {
    int copies = 0;
    std::vector<int> v;
    for (int i = 0; i < N; ++i) v.push_back(c.src.range(0, 9));
    auto t = TupN<N>::make(v, &copies);
    // find
    int thr = c.src.range(0, 10);
    std::vector<int> seen;
    std::size_t r = stlab::tuple_find(t, [&](const Counted& e) {
        seen.push_back(e.v);
        return e.v >= thr;
    });
    std::size_t e = 0;
    std::vector<int> eseen;
    while (e < v.size()) {
        eseen.push_back(v[e]);
        if (v[e] >= thr) break;
        ++e;
    }
    PBT_LOG(c, "tuple " << show(v) << " find >= " << thr << " -> " << r);
    if (N == 0)
        PBT_CHECK(c, r >= 1, "tuple_find on an empty tuple returned a valid index");
    else
        PBT_CHECK(c, r == e, "tuple_find(" << show(v) << ", >=" << thr << ") = " << r << ", expected " << e);
    PBT_CHECK(c, seen == eseen, "tuple_find looked at " << show(seen) << " of " << show(v));
    // for_each, mutating
    seen.clear();
    stlab::tuple_for_each(t, [&](Counted& x) {
        seen.push_back(x.v);
        x.v += 100;
    });
    PBT_CHECK(c, seen == v, "tuple_for_each visited " << show(seen) << " of " << show(v));
    for (auto& x : v) x += 100;
    auto content = [&] {
        std::vector<int> o;
        stlab::tuple_for_each(t, [&](Counted& x) { o.push_back(x.v); });
        return o;
    };
    PBT_CHECK(c, content() == v, "tuple_for_each worked on copies");
    // get_i
    std::size_t idx = c.src.draw(N + 3);
    int calls = 0;
    int g = stlab::get_i(t, idx, [&](Counted& x) {
        ++calls;
        return x.v * 2;
    }, -7);
    PBT_CHECK(c, g == (idx < v.size() ? v[idx] * 2 : -7), "get_i(" << show(v) << ", " << idx << ") = " << g);
    PBT_CHECK(c, calls == (idx < v.size() ? 1 : 0), "get_i called its function " << calls << " times");
    // get_i with a move-only default and result
    auto up = stlab::get_i(t, idx, [](Counted& x) { return std::make_unique<int>(x.v); }, std::make_unique<int>(-9));
    PBT_CHECK(c, up && *up == (idx < v.size() ? v[idx] : -9), "get_i with a move-only default");
    // void_i
    std::size_t idx2 = c.src.draw(N + 3);
    calls = 0;
    stlab::void_i(t, idx2, [&](Counted& x) {
        ++calls;
        x.v += 1000;
    });
    if (idx2 < v.size()) v[idx2] += 1000;
    PBT_CHECK(c, calls == (idx2 < v.size() ? 1 : 0), "void_i called its function " << calls << " times for index " << idx2 << " of " << N);
    PBT_CHECK(c, content() == v, "void_i(" << idx2 << ") changed " << show(content()) << ", expected " << show(v));
    PBT_CHECK(c, copies == 0, "tuple elements were copied");
    // apply on a voidless tuple passes every element in order
    std::vector<int> got;
    bool rv = true;
    stlab::apply_ignore_placeholders(
        [&](auto&&... a) {
            (got.push_back(a.v), ...);
            ((rv = rv && std::is_rvalue_reference_v<decltype(a)>), ...);
        },
        std::move(t));
    PBT_CHECK(c, rv, "apply does not pass on the elements of a temporary tuple as such");
    PBT_CHECK(c, got == v, "apply passed " << show(got) << " instead of " << show(v));
}

// void / int / string / move-only patterns, enumerated at compile time: digit i of P (base 3)
struct MO {
    std::unique_ptr<int> p;
};
template <int D>
using Elem = std::conditional_t<D == 0, void, std::conditional_t<D == 1, int, MO>>;
constexpr int digit(int p, int i) {
    while (i--) p /= 3;
    return p % 3;
}
template <class T>
constexpr int kind_of() {
    return std::is_same_v<T, int> ? 1 : std::is_same_v<T, MO> ? 2 : std::is_same_v<T, stlab::placeholder> ? 0 : 9;
}
template <class T>
struct kinds_of_tuple;
template <class... T>
struct kinds_of_tuple<std::tuple<T...>> {
    static std::vector<int> get() { return {kind_of<T>()...}; }
};
template <class T>
struct kinds_of_otuple;
template <class... T>
struct kinds_of_otuple<std::tuple<std::optional<T>...>> {
    static std::vector<int> get() { return {kind_of<T>()...}; }
};

template <int Len, int P, class Seq = std::make_index_sequence<Len>>
struct Pat;
template <int Len, int P, std::size_t... I>
struct Pat<Len, P, std::index_sequence<I...>> {
    using voidless = stlab::voidless_tuple<Elem<digit(P, I)>...>;
    using holders = stlab::placeholder_tuple<Elem<digit(P, I)>...>;
    using oholders = stlab::optional_placeholder_tuple<Elem<digit(P, I)>...>;
    template <class Tup>
    using select = stlab::index_sequence_transform_t<std::make_index_sequence<Len>,
                                                     stlab::remove_placeholder<Tup>::template function>;
    static std::vector<int> digits() { return {digit(P, I)...}; }

    template <std::size_t K>
    static void fill(oholders& o, const std::vector<int>& v) {
        constexpr int d = digit(P, K);
        if constexpr (d == 0)
            std::get<K>(o) = stlab::placeholder{};
        else if constexpr (d == 1)
            std::get<K>(o) = v[K];
        else
            std::get<K>(o) = MO{std::make_unique<int>(v[K])};
    }
    template <std::size_t K>
    static void fill(holders& o, const std::vector<int>& v, int) {
        constexpr int d = digit(P, K);
        if constexpr (d == 1)
            std::get<K>(o) = v[K];
        else if constexpr (d == 2)
            std::get<K>(o) = MO{std::make_unique<int>(v[K])};
    }
    static void run(pbt::Case& c) {
        std::vector<int> d = digits(), nv;
        std::vector<int> v, ev;
        for (int i = 0; i < Len; ++i) {
            v.push_back(c.src.range(0, 99));
            if (d[std::size_t(i)]) {
                nv.push_back(d[std::size_t(i)]);
                ev.push_back(v.back());
            }
        }
        PBT_LOG(c, "pattern " << show(d) << " values " << show(v));
        PBT_CHECK(c, kinds_of_tuple<voidless>::get() == nv, "voidless_tuple of pattern " << show(d));
        PBT_CHECK(c, kinds_of_tuple<holders>::get() == d, "placeholder_tuple of pattern " << show(d));
        PBT_CHECK(c, kinds_of_otuple<oholders>::get() == d, "optional_placeholder_tuple of pattern " << show(d));
        auto val = [](auto& x) {
            if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int>)
                return x;
            else
                return x.p ? *x.p : -1;
        };
        {
            oholders o;
            (fill<I>(o, v), ...);
            std::vector<int> got, gk;
            bool rv = true;
            int r = lookup::apply_optional_indexed<select<oholders>>(
                [&](auto&&... a) {
                    (got.push_back(val(a)), ...);
                    (gk.push_back(kind_of<std::decay_t<decltype(a)>>()), ...);
                    ((rv = rv && std::is_rvalue_reference_v<decltype(a)>), ...);
                    // take the values
                    [[maybe_unused]] auto keep = std::make_tuple(std::move(a)...);
                    return 17;
                },
                std::move(o));
            PBT_CHECK(c, r == 17, "result of apply_optional_indexed");
            PBT_CHECK(c, got == ev && gk == nv, "apply_optional_indexed of pattern " << show(d) << " passed " << show(got) << " expected " << show(ev));
            PBT_CHECK(c, rv, "apply_optional_indexed does not move its values");
        }
        {
            holders o;
            (fill<I>(o, v, 0), ...);
            std::vector<int> got;
            int calls = 0;
            stlab::apply_indexed<select<holders>>(
                [&](auto&... a) {
                    ++calls;
                    (got.push_back(val(a)), ...);
                },
                o);
            PBT_CHECK(c, calls == 1 && got == ev, "apply_indexed of pattern " << show(d) << " passed " << show(got) << " expected " << show(ev));
            got.clear();
            bool rv = true;
            int r = stlab::apply_indexed<select<holders>>(
                [&](auto&&... a) {
                    (got.push_back(val(a)), ...);
                    ((rv = rv && std::is_rvalue_reference_v<decltype(a)>), ...);
                    [[maybe_unused]] auto keep = std::make_tuple(std::forward<decltype(a)>(a)...);
                    return 18;
                },
                std::move(o));
            PBT_CHECK(c, r == 18 && got == ev, "apply_indexed of a temporary tuple of pattern " << show(d) << " passed " << show(got) << " expected " << show(ev));
            PBT_CHECK(c, rv, "apply_indexed does not pass on the elements of a temporary tuple as such");
        }
    }
};
using PatFn = void (*)(pbt::Case&);
template <int Len, std::size_t... P>
void add_pats(std::vector<PatFn>& t, std::index_sequence<P...>) {
    (t.push_back(&Pat<Len, int(P)>::run), ...);
}
const std::vector<PatFn>& pats() {
    static std::vector<PatFn> t = [] {
        std::vector<PatFn> t;
        add_pats<1>(t, std::make_index_sequence<3>{});
        add_pats<2>(t, std::make_index_sequence<9>{});
        add_pats<3>(t, std::make_index_sequence<27>{});
        add_pats<4>(t, std::make_index_sequence<81>{});
        // longer ones: some of the 3^7 and 3^12
        add_pats<7>(t, std::index_sequence<0, 1093, 2186, 729, 1458, 2178, 8, 700, 1201, 1999, 366, 1717>{});
        add_pats<12>(t, std::index_sequence<0, 265720, 531440, 177147, 354294, 6, 123456, 400000, 333333, 290017, 59049, 500001>{});
        return t;
    }();
    return t;
}

// index sequences: transform with a function that drops, keeps and duplicates elements
template <std::size_t N>
struct Tri {
    using type = std::conditional_t<N % 3 == 0, std::index_sequence<>,
                                    std::conditional_t<N % 3 == 1, std::index_sequence<N>, std::index_sequence<N + 50, N>>>;
};
template <class S>
struct seq_vec;
template <std::size_t... I>
struct seq_vec<std::index_sequence<I...>> {
    static std::vector<int> get() { return {int(I)...}; }
};
template <class S>
void u02_seq(pbt::Case& c) {
    auto v = seq_vec<S>::get();
    auto& arr = stlab::index_sequence_to_array<S>::value;
    PBT_CHECK(c, std::vector<int>(arr.begin(), arr.end()) == v, "index_sequence_to_array of " << show(v));
    std::vector<int> e;
    for (int x : v) {
        if (x % 3 == 1) e.push_back(x);
        if (x % 3 == 2) {
            e.push_back(x + 50);
            e.push_back(x);
        }
    }
    PBT_CHECK(c, (seq_vec<stlab::index_sequence_transform_t<S, Tri>>::get() == e), "index_sequence_transform of " << show(v));
    using C = stlab::index_sequence_cat_t<S, std::index_sequence<8, 9>>;
    std::vector<int> ec = v;
    ec.push_back(8);
    ec.push_back(9);
    PBT_CHECK(c, seq_vec<C>::get() == ec, "index_sequence_cat of " << show(v));
}

void u02_misc(pbt::Case& c) {
    // for_each_argument: every argument once, in order, as an lvalue
    int a = c.src.range(0, 99), b = c.src.range(0, 99), d = c.src.range(0, 99);
    std::vector<int> got;
    stlab::for_each_argument([&](int& x) { got.push_back(x++); }, a, b, d);
    PBT_CHECK(c, (got == std::vector<int>{a - 1, b - 1, d - 1}), "for_each_argument visited " << show(got));
    got.clear();
    stlab::for_each_argument([&](const auto& x) { got.push_back(int(x)); }, 1, 2L, short(3));
    PBT_CHECK(c, (got == std::vector<int>{1, 2, 3}), "for_each_argument visited " << show(got));
    // move_if, move, copy
    int copies = 0;
    Counted x(a, &copies);
    Counted keep = stlab::move_if<false>(x);
    PBT_CHECK(c, copies == 1 && x.v == a && keep.v == a, "move_if<false> did not leave its argument");
    Counted mv = stlab::move_if<true>(x);
    PBT_CHECK(c, copies == 1 && x.v == -1 && mv.v == a, "move_if<true> did not move");
    Counted mm = stlab::move(mv);
    PBT_CHECK(c, copies == 1 && mv.v == -1 && mm.v == a, "move did not move");
    Counted cc = stlab::copy(mm);
    PBT_CHECK(c, copies == 2 && mm.v == a && cc.v == a, "copy did not copy");
    PBT_CHECK(c, (std::is_same_v<decltype(stlab::move_if<true>(x)), Counted&&> && std::is_same_v<decltype(stlab::move_if<false>(std::move(x))), Counted&>), "type of move_if");
    // unwrap
    int z = d;
    std::reference_wrapper<int> rw(z);
    const std::reference_wrapper<int> crw(z);
    const int cz = b;
    PBT_CHECK(c, &stlab::unwrap(z) == &z && &stlab::unwrap(rw) == &z && &stlab::unwrap(crw) == &z && &stlab::unwrap(cz) == &cz, "unwrap refers to another object");
    PBT_CHECK(c, (stlab::is_reference_wrapper_v<std::reference_wrapper<int>> && !stlab::is_reference_wrapper_v<int> &&
                  std::is_same_v<stlab::unwrap_reference_t<std::reference_wrapper<int>>, int> && std::is_same_v<stlab::unwrap_reference_t<std::string>, std::string>), "reference wrapper traits");
}

PBT_PROP(U02, "every tuple size, index and void pattern counts; tuple of at least one element") {
    c.nontrivial = true;
    switch (c.src.weighted({6, 8, 1, 1})) {
    case 0: {
        int n = c.src.range(0, 8);
        switch (n) {
        case 0: u02_runtime<0>(c); break;
        case 1: u02_runtime<1>(c); break;
        case 2: u02_runtime<2>(c); break;
        case 3: u02_runtime<3>(c); break;
        case 4: u02_runtime<4>(c); break;
        case 5: u02_runtime<5>(c); break;
        case 6: u02_runtime<6>(c); break;
        case 7: u02_runtime<11>(c); break;
        default: u02_runtime<20>(c); break;
        }
        c.nontrivial = n >= 1;
        c.tag("find, for_each, get_i, void_i");
        break;
    }
    case 1: {
        auto& t = pats();
        t[c.src.draw(t.size())](c);
        c.tag("void patterns");
        break;
    }
    case 2:
        switch (c.src.draw(8)) {
        case 0: u02_seq<std::index_sequence<>>(c); break;
        case 1: u02_seq<std::index_sequence<0>>(c); break;
        case 2: u02_seq<std::index_sequence<2>>(c); break;
        case 3: u02_seq<std::index_sequence<1, 2>>(c); break;
        case 4: u02_seq<std::index_sequence<5, 0, 4>>(c); break;
        case 5: u02_seq<std::index_sequence<4, 3, 2, 1>>(c); break;
        case 6: u02_seq<std::make_index_sequence<7>>(c); break;
        default: u02_seq<std::index_sequence<2, 2, 1, 9, 10, 11, 0, 8, 8>>(c); break;
        }
        c.tag("index sequences");
        break;
    default:
        u02_misc(c);
        c.tag("helpers");
        break;
    }
}

} // namespace
