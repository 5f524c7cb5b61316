// U01: reversal algorithms and node list primitives
#include "pbt.hpp"

#include <algorithm>
#include <array>
#include <atomic>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <typeinfo>
#include <utility>
#include <vector>

#include <stlab/config.hpp>

#include <stlab/algorithm/reverse.hpp>
#include <stlab/iterator/set_next.hpp>

namespace {

// ------------------------------------------------------------------ U01
// A singly linked node list with its own iterator.
struct Node {
    int v = 0;
    Node* next = nullptr;
};
struct NodeIt {
    using iterator_category = std::forward_iterator_tag;
    using value_type = int;
    using difference_type = std::ptrdiff_t;
    using pointer = int*;
    using reference = int&;
    Node* p = nullptr;
    int& operator*() const { return p->v; }
    NodeIt& operator++() {
        p = p->next;
        return *this;
    }
    NodeIt operator++(int) {
        auto t = *this;
        ++*this;
        return t;
    }
    friend bool operator==(NodeIt a, NodeIt b) { return a.p == b.p; }
    friend bool operator!=(NodeIt a, NodeIt b) { return a.p != b.p; }
};
// A doubly linked variant: set_next keeps both directions.
struct DNode {
    int v = 0;
    DNode* next = nullptr;
    DNode* prev = nullptr;
};
struct DNodeIt {
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = int;
    using difference_type = std::ptrdiff_t;
    using pointer = int*;
    using reference = int&;
    DNode* p = nullptr;
    int& operator*() const { return p->v; }
    DNodeIt& operator++() {
        p = p->next;
        return *this;
    }
    DNodeIt operator++(int) {
        auto t = *this;
        ++*this;
        return t;
    }
    DNodeIt& operator--() {
        p = p->prev;
        return *this;
    }
    DNodeIt operator--(int) {
        auto t = *this;
        --*this;
        return t;
    }
    friend bool operator==(DNodeIt a, DNodeIt b) { return a.p == b.p; }
    friend bool operator!=(DNodeIt a, DNodeIt b) { return a.p != b.p; }
};
} // namespace

namespace stlab {
inline namespace STLAB_VERSION_NAMESPACE() {
namespace unsafe {
template <>
struct set_next_fn<NodeIt> {
    void operator()(const NodeIt& x, const NodeIt& y) const { x.p->next = y.p; }
};
template <>
struct set_next_fn<DNodeIt> {
    void operator()(const DNodeIt& x, const DNodeIt& y) const {
        x.p->next = y.p;
        y.p->prev = x.p;
    }
};
} // namespace unsafe
} // namespace STLAB_VERSION_NAMESPACE()
} // namespace stlab

namespace {

template <class It>
struct NodeRange {
    using iterator = It;
    It f, l;
    It begin() const { return f; }
    It end() const { return l; }
    It begin() { return f; }
    It end() { return l; }
};

std::string show(const std::vector<int>& v) {
    std::string s = "[";
    for (int e : v) s += std::to_string(e) + " ";
    return s + "]";
}

std::vector<int> gen_seq(pbt::Case& c, int maxn) {
    int n = c.src.range(0, maxn);
    std::vector<int> v;
    for (int i = 0; i < n; ++i) v.push_back(c.src.range(0, 99));
    return v;
}

template <class Cont>
void u01_value_algorithms(pbt::Case& c, const std::vector<int>& v) {
    // reverse
    Cont x(v.begin(), v.end());
    std::vector<int> e(v.rbegin(), v.rend());
    stlab::reverse(x);
    PBT_CHECK(c, std::vector<int>(x.begin(), x.end()) == e, "reverse of " << show(v));
    // reverse_copy, from const and non-const ranges
    const Cont y(v.begin(), v.end());
    std::vector<int> out{-1};
    stlab::reverse_copy(y, std::back_inserter(out));
    std::vector<int> e2{-1};
    e2.insert(e2.end(), e.begin(), e.end());
    PBT_CHECK(c, out == e2, "reverse_copy of const " << show(v));
    Cont z(v.begin(), v.end());
    out = {-1};
    stlab::reverse_copy(z, std::back_inserter(out));
    PBT_CHECK(c, out == e2 && std::equal(z.begin(), z.end(), v.begin(), v.end()), "reverse_copy of " << show(v));
    // reverse_until on a subrange
    int n = int(v.size());
    int a = c.src.range(0, n), b = a + c.src.range(0, n - a), m = a + c.src.range(0, b - a);
    Cont w(v.begin(), v.end());
    auto f = std::next(w.begin(), a), l = std::next(w.begin(), b), mi = std::next(w.begin(), m);
    auto r = stlab::reverse_until(f, mi, l);
    // reference: swap pairs from both ends until one side reaches m
    int k = std::min(m - a, b - m);
    std::vector<int> ew = v;
    for (int i = 0; i < k; ++i) std::swap(ew[std::size_t(a + i)], ew[std::size_t(b - 1 - i)]);
    PBT_LOG(c, "reverse_until a=" << a << " m=" << m << " b=" << b << " of " << show(v));
    PBT_CHECK(c, std::vector<int>(w.begin(), w.end()) == ew,
              "reverse_until(" << a << "," << m << "," << b << ") of " << show(v) << " gave " << show({w.begin(), w.end()}));
    PBT_CHECK(c, std::distance(w.begin(), r.first) == a + k && std::distance(w.begin(), r.second) == b - k,
              "reverse_until returned [" << std::distance(w.begin(), r.first) << "," << std::distance(w.begin(), r.second) << ")");
    PBT_CHECK(c, r.first == mi || r.second == mi, "neither end of the returned range is m");
    // completing the reversal gives the whole range reversed
    std::reverse(r.first, r.second);
    std::reverse(ew.begin() + a + k, ew.begin() + b - k);
    PBT_CHECK(c, std::vector<int>(w.begin(), w.end()) == ew, "reverse_until then reverse");
}

template <class It, class N>
void u01_nodes(pbt::Case& c, const std::vector<int>& v) {
    int n = int(v.size());
    // nodes 0..n-1, a sentinel n, and a second list used as "end" for reverse_append
    std::vector<N> a(std::size_t(n) + 1), b(std::size_t(n) + 2);
    auto link = [&](std::vector<N>& x) {
        for (std::size_t i = 0; i + 1 < x.size(); ++i) {
            x[i].next = &x[i + 1];
            if constexpr (requires { x[i].prev; }) x[i + 1].prev = &x[i];
        }
    };
    link(a);
    link(b);
    for (int i = 0; i < n; ++i) a[std::size_t(i)].v = v[std::size_t(i)];
    for (std::size_t i = 0; i < b.size(); ++i) b[i].v = 1000 + int(i);
    auto at = [](std::vector<N>& x, int i) { return It{&x[std::size_t(i)]}; };
    auto collect = [&](It f, It l) {
        std::vector<N*> r;
        std::size_t guard = 0;
        for (; f != l; ++f) {
            if (!f.p || ++guard > 500) PBT_FAIL(c, "the resulting node range never reaches its end");
            r.push_back(f.p);
        }
        return r;
    };
    int f = c.src.range(0, n), l = f + c.src.range(0, n - f);
    std::vector<N*> orig;
    for (auto& e : a) orig.push_back(e.next);
    int how = c.src.range(0, 6);
    PBT_LOG(c, "nodes n=" << n << " f=" << f << " l=" << l << " how=" << how);
    std::vector<N*> expect;
    for (int i = l - 1; i >= f; --i) expect.push_back(&a[std::size_t(i)]);
    std::vector<N*> got;
    auto others = [&] {
        for (int i = 0; i <= n; ++i)
            if (i < f || i >= l) PBT_CHECK(c, a[std::size_t(i)].next == orig[std::size_t(i)], "a node outside the range was relinked");
        for (int i = 0; i < n; ++i) PBT_CHECK(c, a[std::size_t(i)].v == v[std::size_t(i)], "a value was changed");
    };
    if (how == 0) {
        It r = stlab::unsafe::reverse_nodes(at(a, f), at(a, l));
        got = collect(r, at(a, l));
        PBT_CHECK(c, got == expect, "reverse_nodes gave another sequence");
        others();
    } else if (how == 1) {
        NodeRange<It> rg{at(a, f), at(a, l)};
        It r = stlab::unsafe::reverse_nodes(rg);
        got = collect(r, at(a, l));
        PBT_CHECK(c, got == expect, "reverse_nodes(range) gave another sequence");
        others();
    } else if (how == 2 || how == 3) {
        int e = c.src.range(0, int(b.size()) - 1);
        It r{};
        if (how == 2)
            r = stlab::unsafe::reverse_append(at(a, f), at(a, l), at(b, e));
        else {
            NodeRange<It> rg{at(a, f), at(a, l)};
            r = stlab::unsafe::reverse_append(rg, at(b, e));
        }
        got = collect(r, at(b, e));
        PBT_CHECK(c, got == expect, "reverse_append gave another sequence");
        others();
        auto tail = collect(at(b, e), It{});
        PBT_CHECK(c, int(tail.size()) == int(b.size()) - e, "the appended part was changed");
    } else if (how == 4) {
        // splice_node_range(location, first, last): b[first..last] (inclusive) goes after location
        if (n == 0) return;
        int loc = c.src.range(0, n - 1);
        int bf = c.src.range(0, int(b.size()) - 2), bl = bf + c.src.range(0, int(b.size()) - 2 - bf);
        stlab::unsafe::splice_node_range(at(a, loc), at(b, bf), at(b, bl));
        std::vector<N*> e;
        for (int i = 0; i <= loc; ++i) e.push_back(&a[std::size_t(i)]);
        for (int i = bf; i <= bl; ++i) e.push_back(&b[std::size_t(i)]);
        for (int i = loc + 1; i < n; ++i) e.push_back(&a[std::size_t(i)]);
        got = collect(at(a, 0), at(a, n));
        PBT_CHECK(c, got == e, "splice_node_range gave another sequence");
    } else if (how == 5) {
        if (n < 2) return;
        int loc = c.src.range(0, n - 2);
        stlab::unsafe::skip_next_node(at(a, loc));
        std::vector<N*> e;
        for (int i = 0; i < n; ++i)
            if (i != loc + 1) e.push_back(&a[std::size_t(i)]);
        got = collect(at(a, 0), at(a, n));
        PBT_CHECK(c, got == e, "skip_next_node gave another sequence");
    } else {
        if constexpr (requires { a[0].prev; }) {
            if (n < 3) return;
            int loc = c.src.range(1, n - 2);
            stlab::unsafe::skip_node(at(a, loc));
            std::vector<N*> e;
            for (int i = 0; i < n; ++i)
                if (i != loc) e.push_back(&a[std::size_t(i)]);
            got = collect(at(a, 0), at(a, n));
            PBT_CHECK(c, got == e, "skip_node gave another sequence");
        }
    }
    if constexpr (requires { a[0].prev; }) {
        // the links agree in both directions along the result (from its second node on)
        for (std::size_t i = 1; i < got.size(); ++i) PBT_CHECK(c, got[i]->prev == got[i - 1], "prev link disagrees with next link");
    }
}

PBT_PROP(U01, "sequence of at least 3 elements") {
    auto v = gen_seq(c, c.src.chance(1, 6) ? 150 : 24);
    c.nontrivial = v.size() >= 3;
    switch (c.src.draw(5)) {
    case 0:
        u01_value_algorithms<std::vector<int>>(c, v);
        c.tag("vector");
        break;
    case 1:
        u01_value_algorithms<std::list<int>>(c, v);
        c.tag("list");
        break;
    case 2: {
        // built-in arrays
        int arr[6];
        std::vector<int> s;
        for (auto& e : arr) {
            e = c.src.range(0, 99);
            s.push_back(e);
        }
        std::vector<int> out;
        stlab::reverse_copy(arr, std::back_inserter(out));
        std::reverse(s.begin(), s.end());
        PBT_CHECK(c, out == s, "reverse_copy of an array");
        stlab::reverse(arr);
        PBT_CHECK(c, std::equal(std::begin(arr), std::end(arr), s.begin()), "reverse of an array");
        c.tag("array");
        break;
    }
    case 3:
        u01_nodes<NodeIt, Node>(c, v);
        c.tag("singly linked nodes");
        break;
    default:
        u01_nodes<DNodeIt, DNode>(c, v);
        c.tag("doubly linked nodes");
        break;
    }
}

} // namespace
