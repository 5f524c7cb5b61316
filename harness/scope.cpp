// U03: scope
#include "pbt.hpp"

#include <algorithm>
#include <array>
#include <atomic>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <typeinfo>
#include <utility>
#include <vector>

#include <stlab/config.hpp>

#include <stlab/scope.hpp>

namespace {

// ------------------------------------------------------------------ U03
struct ScopeLog {
    std::vector<std::string> ev;
    int throw_at = -1; // which constructor call throws
    int live = 0;
};
ScopeLog* g_sl;
struct ScopeThrow {};
struct FnThrow {
    int v;
};
template <int Tag>
struct Res {
    std::string desc;
    void enter() {
        if (g_sl->throw_at == Tag) throw ScopeThrow{};
        ++g_sl->live;
        g_sl->ev.push_back("+" + std::to_string(Tag) + desc);
    }
    Res() { enter(); }
    explicit Res(int a) : desc("(" + std::to_string(a) + ")") { enter(); }
    Res(int& a, const std::string& b) : desc("(" + std::to_string(a) + "," + b + ")") {
        a += 1;
        enter();
    }
    Res(std::unique_ptr<int> p, std::string&& s, int k) : desc("(" + std::to_string(*p) + "," + s + "," + std::to_string(k) + ")") {
        std::string t = std::move(s);
        enter();
    }
    Res(const Res&) = delete;
    ~Res() {
        --g_sl->live;
        g_sl->ev.push_back("-" + std::to_string(Tag) + desc);
    }
};
struct Result {
    std::unique_ptr<int> p;
    explicit Result(int v) : p(std::make_unique<int>(v)) { g_sl->ev.push_back("=" + std::to_string(v)); }
    Result(Result&&) = default;
};

struct ScopeGen {
    pbt::Case& c;
    std::vector<std::string> exp;
    bool throws = false; // expected: an exception is travelling
    int depth = 0;
    int fresh = 0;

    // Performs a nest of scopes; fills exp by its own rules.
    Result nest(int level) {
        int how = c.src.range(0, 3);
        int val = c.src.range(0, 99);
        bool deeper = level < 3 && c.src.chance(1, 2);
        bool fn_throws = c.src.chance(1, 5);
        int tag = level;
        PBT_LOG(c, "level " << level << " how " << how << " value " << val << (deeper ? " nested" : "") << (fn_throws ? " throws" : ""));
        std::string desc;
        int a = val;
        std::string s = "s" + std::to_string(val);
        if (how == 1) desc = "(" + std::to_string(val) + ")";
        if (how == 2) desc = "(" + std::to_string(val) + "," + s + ")";
        if (how == 3) desc = "(" + std::to_string(val) + "," + s + ",4)";
        bool ctor_throws = g_sl->throw_at == tag;
        depth = std::max(depth, level + 1);
        if (!ctor_throws) exp.push_back("+" + std::to_string(tag) + desc);
        // the expectation continues inside f, which runs while the resource is alive
        int calls = 0;
        int live_in = -1;
        auto f = [&]() -> Result {
            ++calls;
            live_in = g_sl->live;
            g_sl->ev.push_back("f" + std::to_string(tag));
            exp.push_back("f" + std::to_string(tag));
            if (deeper) {
                Result r = nest(level + 1);
                if (fn_throws) throw FnThrow{val};
                return r;
            }
            if (fn_throws) throw FnThrow{val};
            exp.push_back("=" + std::to_string(val));
            return Result(val);
        };
        auto after = [&] {
            if (!ctor_throws) exp.push_back("-" + std::to_string(tag) + desc);
        };
        auto go = [&]() -> Result {
            switch (tag) {
            case 0: return call<0>(how, a, s, val, f);
            case 1: return call<1>(how, a, s, val, f);
            case 2: return call<2>(how, a, s, val, f);
            default: return call<3>(how, a, s, val, f);
            }
        };
        try {
            Result r = go();
            after();
            PBT_CHECK(c, calls == 1, "scope called its function " << calls << " times");
            PBT_CHECK(c, live_in == level + 1, "resource not alive during the call");
            PBT_CHECK(c, !ctor_throws && !fn_throws, "an exception was lost");
            if (how == 2) PBT_CHECK(c, a == val + 1, "reference argument was not passed by reference");
            return r;
        } catch (ScopeThrow&) {
            after();
            PBT_CHECK(c, ctor_throws ? calls == 0 : calls == 1, "function call count after a throwing constructor");
            throw;
        } catch (FnThrow& e) {
            after();
            PBT_CHECK(c, calls == 1, "function call count after an exception");
            throw;
        }
    }
    template <int Tag, class F>
    Result call(int how, int& a, std::string& s, int val, F& f) {
        bool rv = c.src.flip();
        switch (how) {
        case 0: return rv ? stlab::scope<Res<Tag>>(F(f)) : stlab::scope<Res<Tag>>(f);
        case 1: return rv ? stlab::scope<Res<Tag>>(val, F(f)) : stlab::scope<Res<Tag>>(a, f);
        case 2: return rv ? stlab::scope<Res<Tag>>(a, std::as_const(s), F(f)) : stlab::scope<Res<Tag>>(a, s, f);
        default: return stlab::scope<Res<Tag>>(std::make_unique<int>(val), std::move(s), 4, f);
        }
    }
};

PBT_PROP(U03, "scopes nested at least two deep, or a throwing step, or a mutex case") {
    ScopeLog sl;
    g_sl = &sl;
    if (c.src.chance(1, 3)) {
        // mutex: locked exactly while f runs
        std::mutex m;
        auto free_now = [&] {
            bool r = false;
            std::thread([&] {
                r = m.try_lock();
                if (r) m.unlock();
            }).join();
            return r;
        };
        bool thr = c.src.flip();
        int how = c.src.range(0, 3);
        int val = c.src.range(0, 9);
        bool locked = false;
        PBT_LOG(c, "mutex how " << how << (thr ? " throws" : ""));
        auto f = [&]() -> int {
            locked = !free_now();
            if (thr) throw FnThrow{val};
            return val;
        };
        int r = -1;
        bool caught = false;
        try {
            if (how == 0)
                r = stlab::scope<std::lock_guard<std::mutex>>(m, f);
            else if (how == 1)
                r = stlab::scope<std::unique_lock<std::mutex>>(m, std::move(f));
            else if (how == 2)
                r = stlab::scope<std::scoped_lock<std::mutex>>(m, f);
            else {
                m.lock();
                r = stlab::scope<std::lock_guard<std::mutex>>(m, std::adopt_lock, f);
            }
        } catch (FnThrow& e) {
            caught = e.v == val;
        }
        PBT_CHECK(c, locked, "the mutex was not held while the function ran");
        PBT_CHECK(c, free_now(), "the mutex was not released");
        PBT_CHECK(c, caught == thr && (thr || r == val), "wrong result or exception");
        c.nontrivial = true;
        c.tag("mutex");
        return;
    }
    if (c.src.chance(1, 4)) sl.throw_at = c.src.range(0, 3);
    ScopeGen g{c};
    bool thrown = false;
    try {
        Result r = g.nest(0);
        PBT_CHECK(c, r.p, "the result was lost");
        std::string last;
        for (auto& e : sl.ev)
            if (e[0] == '=') last = e;
        PBT_CHECK(c, last == "=" + std::to_string(*r.p), "another result was returned");
    } catch (ScopeThrow&) {
        thrown = true;
    } catch (FnThrow&) {
        thrown = true;
    }
    PBT_CHECK(c, sl.live == 0, "resources are still alive");
    std::string a, b;
    for (auto& e : sl.ev) a += e + " ";
    for (auto& e : g.exp) b += e + " ";
    PBT_CHECK(c, a == b, "events " << a << " expected " << b);
    c.nontrivial = g.depth >= 2 || thrown;
    c.tag(thrown ? "throwing" : "returning");
}

} // namespace
