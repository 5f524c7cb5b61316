#pragma once
#include "combo.hpp"
namespace fm {

// function given to when_all and when_any
template <class R>
struct WFn {
    Tok t;
    int node;
    explicit WFn(int i) : t(i), node(i) {}
    static void one(Event& e, std::size_t& i, const Val& v) { g->check_in(e, i++, v.v, "the combinator function of node"); }
    static void one(Event& e, std::size_t& i, const Mov& v) { g->check_in(e, i++, v.v, "the combinator function of node"); }
    template <class T>
    static void one(Event& e, std::size_t& i, const std::vector<T>& v) {
        for (auto& x : v) one(e, i, x);
    }
    static void one(Event& e, std::size_t&, const std::size_t& k) {
        if (e.index != int(k)) {
            std::ostringstream o;
            o << "the combinator function of node " << e.id << " received index " << k << ", expected " << e.index;
            g->error(o.str());
        }
        e.index = -1;
    }
    template <class... A>
    R operator()(A&&... a) const {
        Event* e = g->expect(E_INVOKE, node, "the combinator function of node");
        if (t.id != node) g->error("a function object was called after it was moved from or destroyed");
        if (e) {
            std::size_t i = 0;
            (one(*e, i, a), ...);
            if (i != e->args.size()) g->error("combinator function called with " + std::to_string(i) + " values, expected " + std::to_string(e->args.size()));
            if (e->index >= 0) g->error("combinator function was not given an index");
            if (t.id % 2) (steal(std::forward<A>(a)), ...);
            g->do_acts(*e, nullptr);
        }
        return prod<R>::go(e);
    }
};

void real_all(ComboReq& q, Handle& dst);
void real_all2(ComboReq& q, Handle& dst);
void real_any(ComboReq& q, Handle& dst);
void real_range(ComboReq& q, Handle& dst);
} // namespace fm
