// F01 - F12, concurrent part: futures under concurrency.  A generated program of several threads attaches to, completes, copies, drops, detaches
// and awaits futures of one graph; the controlled scheduler picks the interleaving.  The model computes for every
// node of the graph the set of outcomes it may have and whether it must run.
#include "det.hpp"

#include <array>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/utility.hpp>
#include <stlab/pre_exit.hpp>

namespace {

// results are copyable or (concfutm.cpp) move-only
constexpr bool kMove = MOVE_ONLY;

pbt::Case* g_c;

struct Err {
    int id;
};

struct Out {
    char k; // v value, e error, b broken promise
    int v;
    bool operator<(const Out& o) const { return k != o.k ? k < o.k : v < o.v; }
};
std::string show(const Out& o) {
    return o.k == 'v' ? std::to_string(o.v) : o.k == 'e' ? "error " + std::to_string(o.v) : "broken promise";
}
std::string show(const std::set<Out>& s) {
    std::string r;
    for (auto& o : s) r += (r.empty() ? "" : " or ") + show(o);
    return r;
}

enum Kind { ROOT, ASYNC, THEN, RECOVER, REDUCE, CORO, ALL2, ANY2, ALLR, ANYR };
const char* kname[] = {"root", "async", "then", "recover", "reduce", "coroutine", "when_all", "when_any", "when_all range", "when_any range"};

struct Node {
    Kind kind = ROOT;
    std::vector<int> in;
    int cap = -1; // node returned by the function of a reduction
    int exec = 0;
    bool throws = false;
    bool broken = false; // root task is dropped
    std::set<Out> outs;
    bool kept = false;
    // observed, written under Quiet
    int runs = 0;
    std::int64_t ran_at = 0;
    int live = 0;
    bool weird = false;
};
std::vector<Node> g_n;
int g_val_live;

int fmap(int x, int node) { return (x * 3 + node * 17 + 1) % 1000003; }

// function objects count their instances
struct Tok {
    int node;
    explicit Tok(int n) : node(n) { add(1); }
    Tok(const Tok& o) : node(o.node) { add(1); }
    Tok(Tok&& o) noexcept : node(o.node) { add(1); }
    ~Tok() { add(-1); }
    void add(int d) {
        det::Quiet q;
        g_n[std::size_t(node)].live += d;
    }
    Tok& operator=(const Tok&) = delete;
};

// A value whose storage takes part in race and lifetime checking
struct Val {
    int v;
    std::unique_ptr<int> p;
    explicit Val(int x = -1) : v(x), p(std::make_unique<int>(x)) { cnt(1); }
#if MOVE_ONLY
    Val(const Val& o) = delete;
    Val& operator=(const Val& o) = delete;
#else
    Val(const Val& o) : v(o.v), p(std::make_unique<int>(*o.p)) { cnt(1); }
    Val& operator=(const Val& o) {
        v = o.v;
        p = std::make_unique<int>(*o.p);
        return *this;
    }
#endif
    Val(Val&& o) noexcept : v(o.v), p(std::move(o.p)) {
        o.v = -777;
        cnt(1);
    }
    Val& operator=(Val&& o) noexcept {
        v = o.v;
        p = std::move(o.p);
        if (this != &o) o.v = -777;
        return *this;
    }
    ~Val() { cnt(-1); }
    void cnt(int d) {
        det::Quiet q;
        g_val_live += d;
    }
    int get() const { return p && *p == v ? v : -999; }
};
using Fut = stlab::future<Val>;

// another handle of the same result; a move-only result has one only
template <class F>
F dup(F& x) {
    if constexpr (kMove)
        return std::move(x);
    else
        return stlab::copy(x);
}

void check_value(int node, int x, const char* who) {
    det::Quiet q;
    if (!g_n[std::size_t(node)].outs.count({'v', x}))
        PBT_FAIL(*g_c, who << " sees value " << x << " of node " << node << ", possible: " << show(g_n[std::size_t(node)].outs));
}
Out classify(const std::exception_ptr& e) {
    try {
        std::rethrow_exception(e);
    } catch (const Err& x) {
        return {'e', x.id};
    } catch (const stlab::future_error& f) {
        return {'b', 0};
    } catch (...) {
    }
    return {'?', 0};
}
void check_error(int node, const std::exception_ptr& e, const char* who) {
    Out o = classify(e);
    det::Quiet q;
    if (!g_n[std::size_t(node)].outs.count(o)) PBT_FAIL(*g_c, who << " sees " << show(o) << " of node " << node << ", possible: " << show(g_n[std::size_t(node)].outs));
}

std::set<int> g_q_workers;
void ran(int node, int exec) {
    det::Quiet q;
    Node& n = g_n[std::size_t(node)];
    n.ran_at = det::now_ns();
    if (++n.runs > 1) PBT_FAIL(*g_c, "the function of node " << node << " runs a second time");
    if (exec == 1 && !g_q_workers.count(det::self_id())) PBT_FAIL(*g_c, "the function of node " << node << " does not run on its executor");
}

struct RootFn {
    Tok t;
    Val operator()() const {
        ran(t.node, -1);
        if (g_n[std::size_t(t.node)].throws) throw Err{t.node};
        return Val(t.node * 1000);
    }
};
struct ThenFn {
    Tok t;
    int in, exec;
    template <class X>
    Val operator()(X&& y) const {
        ran(t.node, exec);
        auto give = [&](const Val& x) {
            check_value(in, x.get(), "a continuation");
            if (g_n[std::size_t(t.node)].throws) throw Err{t.node};
            return Val(fmap(x.get(), t.node));
        };
        if constexpr (!std::is_lvalue_reference_v<X> && !std::is_const_v<X>)
            if (t.node % 2) return give(Val(std::move(y))); // as with a parameter by value
        return give(y);
    }
};
struct RecoverFn {
    Tok t;
    int in, exec;
    Val operator()(Fut&& f) const {
        ran(t.node, exec);
        if (!f.is_ready()) DET_CHECK(*g_c, false, "recover is called with a future that is not ready");
        int v = 50;
        if (auto e = f.exception())
            check_error(in, e, "a recover function");
        else {
            auto x = std::move(f).get_try();
            DET_CHECK(*g_c, x, "a ready future has neither value nor exception");
            v = x->get();
            check_value(in, v, "a recover function");
        }
        if (g_n[std::size_t(t.node)].throws) throw Err{t.node};
        return Val(fmap(v, t.node));
    }
};
struct ReduceFn {
    Tok t;
    int in, exec;
    mutable Fut inner;
    ReduceFn(int node, int i, int e, Fut f) : t(node), in(i), exec(e), inner(std::move(f)) {}
    Fut operator()(const Val& x) const {
        ran(t.node, exec);
        check_value(in, x.get(), "a continuation");
        return std::move(inner);
    }
};
Fut coro(int node, int in, Fut f) {
    Val x = co_await std::move(f);
    ran(node, -1);
    check_value(in, x.get(), "a coroutine");
    if (g_n[std::size_t(node)].throws) throw Err{node};
    co_return Val(fmap(x.get(), node));
}
struct AllFn {
    Tok t;
    int exec;
    Val body(const std::vector<int>& x) const {
        ran(t.node, exec);
        const Node& n = g_n[std::size_t(t.node)];
        int s = 0;
        DET_CHECK(*g_c, x.size() == n.in.size(), "when_all calls its function with " << x.size() << " values");
        for (std::size_t i = 0; i < x.size(); ++i) {
            check_value(n.in[i], x[i], "a when_all function");
            s = s * 31 + x[i];
        }
        if (n.throws) throw Err{t.node};
        return Val(fmap(s, t.node));
    }
    Val operator()(const Val& a, const Val& b) const { return body({a.get(), b.get()}); }
    Val operator()(const std::vector<Val>& v) const {
        std::vector<int> x;
        for (auto& e : v) x.push_back(e.get());
        return body(x);
    }
};
struct AnyFn {
    Tok t;
    int exec;
    Val operator()(const Val& a, std::size_t i) const {
        ran(t.node, exec);
        const Node& n = g_n[std::size_t(t.node)];
        DET_CHECK(*g_c, i < n.in.size(), "when_any passes index " << i);
        check_value(n.in[i], a.get(), "a when_any function");
        if (n.throws) throw Err{t.node};
        return Val(fmap(a.get() * 7 + int(i), t.node));
    }
};

// an executor with its own worker threads
struct QExec {
    std::mutex m;
    std::condition_variable cv;
    std::deque<stlab::task<void() noexcept>> q;
    bool stop = false;
    std::vector<std::thread> w;
    void push(stlab::task<void() noexcept> t) {
        {
            std::unique_lock<std::mutex> l(m);
            q.push_back(std::move(t));
        }
        cv.notify_one();
    }
    void run() {
        {
            det::Quiet qq;
            g_q_workers.insert(det::self_id());
        }
        while (true) {
            stlab::task<void() noexcept> t;
            {
                std::unique_lock<std::mutex> l(m);
                while (q.empty() && !stop) cv.wait(l);
                if (q.empty()) return;
                t = std::move(q.front());
                q.pop_front();
            }
            t();
        }
    }
    void start(int n) {
        for (int i = 0; i < n; ++i) w.emplace_back([this] { run(); });
    }
    void end() {
        {
            std::unique_lock<std::mutex> l(m);
            stop = true;
        }
        cv.notify_all();
        for (auto& e : w) e.join();
        w.clear();
    }
};
QExec* g_q;

stlab::executor_t ex(int e) {
    switch (e) {
    case 0: return stlab::immediate_executor;
    case 1: return [](stlab::task<void() noexcept> t) { g_q->push(std::move(t)); };
    default: return stlab::default_executor;
    }
}

enum OpK { COMPLETE, ATTACH, COPY, DROP, DETACH, DETACHF, QUERY, AWAIT, AWAIT_FOR, PAUSE };
struct Op {
    OpK k;
    int a = 0, b = 0, d = 0;
    int node = -1;
    bool rv = false;
    int exec = 0;
    int style = 0;
    std::int64_t ns = 0;
    int* calls = nullptr; // of the function given to detach
};
constexpr int S = 4;

// What a harness exercises most
struct Focus {
    //                      async then recover reduce coroutine when_all when_any when_all-range when_any-range
    unsigned kinds[9] = {1, 6, 3, 2, 2, 2, 2, 1, 1};
    unsigned attach = 10, copy = 2, drop = 3, detach = 1, detachf = 1, query = 2, wait = 1;
    unsigned broken = 6, throws = 4; // one root in that many
};

struct Program {
    int nthreads = 2;
    std::vector<std::vector<Op>> ops;
    std::vector<std::array<int, S>> init;  // node in each slot at the start
    std::vector<std::array<int, S>> final_; // and at the end
    bool use_q = false, use_pool = false;
};

std::set<Out> map_then(int in, int node) {
    std::set<Out> r;
    for (auto& o : g_n[std::size_t(in)].outs)
        if (o.k != 'v')
            r.insert(o);
        else if (g_n[std::size_t(node)].throws)
            r.insert({'e', node});
        else
            r.insert({'v', fmap(o.v, node)});
    return r;
}
void compute(int node) {
    Node& n = g_n[std::size_t(node)];
    switch (n.kind) {
    case ROOT:
        if (n.broken) {
            n.outs = {{'b', 0}};
            break;
        }
        [[fallthrough]];
    case ASYNC: n.outs = {n.throws ? Out{'e', node} : Out{'v', node * 1000}}; break;
    case THEN:
    case CORO: n.outs = map_then(n.in[0], node); break;
    case RECOVER:
        for (auto& o : g_n[std::size_t(n.in[0])].outs) n.outs.insert(n.throws ? Out{'e', node} : Out{'v', fmap(o.k == 'v' ? o.v : 50, node)});
        break;
    case REDUCE:
        for (auto& o : g_n[std::size_t(n.in[0])].outs)
            if (o.k != 'v')
                n.outs.insert(o);
            else
                for (auto& p : g_n[std::size_t(n.cap)].outs) n.outs.insert(p);
        break;
    case ALL2:
    case ALLR: {
        std::set<int> sums{0};
        for (int i : n.in) {
            std::set<int> next;
            for (auto& o : g_n[std::size_t(i)].outs)
                if (o.k == 'v')
                    for (int s : sums) next.insert(s * 31 + o.v);
                else
                    n.outs.insert(o);
            sums = next;
        }
        for (int s : sums) n.outs.insert(n.throws ? Out{'e', node} : Out{'v', fmap(s, node)});
        break;
    }
    case ANY2:
    case ANYR: {
        bool all_may_fail = true;
        for (std::size_t i = 0; i < n.in.size(); ++i) {
            bool may = false;
            for (auto& o : g_n[std::size_t(n.in[i])].outs)
                if (o.k == 'v')
                    n.outs.insert(n.throws ? Out{'e', node} : Out{'v', fmap(o.v * 7 + int(i), node)});
                else
                    may = true;
            all_may_fail &= may;
        }
        if (all_may_fail)
            for (int i : n.in)
                for (auto& o : g_n[std::size_t(i)].outs)
                    if (o.k != 'v') n.outs.insert(o);
        break;
    }
    }
}

void keep(int node) {
    Node& n = g_n[std::size_t(node)];
    if (n.kept) return;
    n.kept = true;
    bool sure = true;
    if (n.kind == ANY2 || n.kind == ANYR) sure = false;
    if (n.kind == ALL2 || n.kind == ALLR)
        for (int i : n.in)
            for (auto& o : g_n[std::size_t(i)].outs) sure &= o.k == 'v';
    if (!sure) return;
    for (int i : n.in) keep(i);
    bool vin = !n.in.empty();
    if (n.kind == REDUCE)
        for (auto& o : g_n[std::size_t(n.in[0])].outs) vin &= o.k == 'v';
    if (n.cap >= 0 && vin) keep(n.cap);
}

Program generate(pbt::Case& c, const Focus& fo) {
    auto& s = c.src;
    g_n.clear();
    Program p;
    p.nthreads = s.range(2, 4);
    int nroots = kMove ? s.range(2, 6) : s.range(1, 3);
    p.use_q = s.chance(1, 2);
    p.use_pool = s.chance(1, 5);
    auto pick_exec = [&] {
        int e = int(s.weighted({4, 3, 2}));
        if (e == 1 && !p.use_q) e = 0;
        if (e == 2 && !p.use_pool) e = 0;
        return e;
    };
    for (int r = 0; r < nroots; ++r) {
        Node n;
        n.kind = ROOT;
        n.throws = s.chance(1, fo.throws);
        n.broken = s.chance(1, fo.broken);
        n.exec = pick_exec();
        g_n.push_back(n);
        compute(r);
    }
    p.ops.resize(std::size_t(p.nthreads));
    p.init.resize(std::size_t(p.nthreads));
    p.final_.resize(std::size_t(p.nthreads));
    std::vector<std::vector<int>> completes(static_cast<std::size_t>(p.nthreads));
    for (int r = 0; r < nroots; ++r) completes[s.draw(std::uint64_t(p.nthreads))].push_back(r);
    if (kMove) {
        for (auto& e : p.init) e.fill(-1);
        for (int r = 0; r < nroots; ++r) {
            auto& slots = p.init[s.draw(std::uint64_t(p.nthreads))];
            for (auto& e : slots)
                if (e < 0) {
                    e = r;
                    break;
                }
        }
    }
    for (int t = 0; t < p.nthreads; ++t) {
        auto& ops = p.ops[std::size_t(t)];
        auto& slot = p.init[std::size_t(t)];
        if (!kMove)
            for (auto& e : slot) e = s.chance(2, 3) ? int(s.draw(std::uint64_t(nroots))) : -1;
        auto cur = slot;
        int n = s.range(0, int(s.weighted({6, 2})) ? 9 : 5);
        auto& comp = completes[std::size_t(t)];
        std::size_t ci = 0;
        auto any_slot = [&](int other_than = -1) -> int {
            std::vector<int> v;
            for (int i = 0; i < S; ++i)
                if (cur[std::size_t(i)] >= 0 && i != other_than) v.push_back(i);
            return v.empty() ? -1 : v[s.draw(v.size())];
        };
        bool waited = false;
        for (int k = 0; k < n + int(comp.size()); ++k) {
            Op o{};
            if (ci < comp.size() && (s.flip() || k >= n)) {
                o.k = COMPLETE;
                o.a = comp[ci++];
                ops.push_back(o);
                continue;
            }
            bool may_wait = ci == comp.size();
            int a = any_slot();
            o.k = OpK(s.weighted({0, fo.attach, fo.copy, fo.drop, fo.detach, fo.detachf, fo.query, may_wait ? fo.wait : 0u, may_wait ? fo.wait : 0u, 1 + fo.wait / 3}));
            auto moves = [&](bool x) { return kMove || x; };
            if (o.k == PAUSE) {
                o.ns = s.range(0, 30) * (s.chance(1, 8) ? 1700000000LL : 100);
                ops.push_back(o);
                continue;
            }
            o.d = int(s.draw(S));
            o.a = a;
            if (o.k == ATTACH) {
                Node nd;
                nd.exec = pick_exec();
                nd.throws = s.chance(1, 6);
                nd.kind = Kind(1 + s.weighted({fo.kinds[0], fo.kinds[1], fo.kinds[2], fo.kinds[3], fo.kinds[4], fo.kinds[5], fo.kinds[6], fo.kinds[7], fo.kinds[8]}));
                o.rv = moves(s.flip());
                int id = int(g_n.size());
                if (nd.kind != ASYNC && a < 0) continue;
                if (nd.kind == THEN || nd.kind == RECOVER || nd.kind == CORO) nd.in = {cur[std::size_t(a)]};
                if (nd.kind == CORO) o.rv = true;
                if (nd.kind == CORO) nd.exec = -1;
                if (nd.kind == REDUCE) {
                    o.b = any_slot(kMove ? a : -1);
                    if (o.b < 0) continue;
                    nd.in = {cur[std::size_t(a)]};
                    nd.cap = cur[std::size_t(o.b)]; // a copy of that handle
                    nd.throws = false;
                }
                if (nd.kind >= ALL2) {
                    o.b = any_slot(kMove ? a : -1);
                    if (o.b < 0) continue;
                    nd.in = {cur[std::size_t(a)], cur[std::size_t(o.b)]};
                    o.rv = o.rv && a != o.b;
                }
                g_n.push_back(nd);
                compute(id);
                if (g_n.back().outs.size() > 6) { // keep the sets small
                    g_n.pop_back();
                    continue;
                }
                o.node = id;
                o.exec = nd.exec;
                o.style = int(s.draw(4));
                if (o.rv && nd.kind != ASYNC) {
                    cur[std::size_t(a)] = -1;
                    if (nd.kind >= ALL2 || (kMove && nd.kind == REDUCE)) cur[std::size_t(o.b)] = -1;
                }
                cur[std::size_t(o.d)] = id;
            } else {
                if (a < 0) continue;
                if (o.k == COPY) {
                    o.rv = moves(s.flip());
                    int x = cur[std::size_t(a)];
                    if (o.rv && o.d != a) cur[std::size_t(a)] = -1;
                    if (o.rv && o.d == a) continue;
                    cur[std::size_t(o.d)] = x;
                } else if (o.k == DROP) {
                    cur[std::size_t(a)] = -1;
                } else if (o.k == DETACH) {
                    o.rv = s.flip();
                    keep(cur[std::size_t(a)]);
                    if (o.rv) cur[std::size_t(a)] = -1;
                } else if (o.k == DETACHF) {
                    o.rv = moves(s.flip());
                    o.node = cur[std::size_t(a)];
                    keep(o.node);
                    if (o.rv) cur[std::size_t(a)] = -1;
                } else if (o.k == AWAIT) {
                    o.rv = moves(s.flip());
                    o.node = cur[std::size_t(a)];
                    o.style = int(s.draw(3));
                    keep(o.node);
                    if (o.rv) cur[std::size_t(a)] = -1;
                    waited = true;
                } else if (o.k == AWAIT_FOR) {
                    o.rv = moves(s.flip());
                    o.node = cur[std::size_t(a)];
                    o.ns = s.range(0, 40) * (s.chance(1, 8) ? 900000000LL : 100);
                    if (s.chance(1, 8)) { // for ever, or nearly
                        o.ns = INT64_MAX - s.range(0, 1) * s.range(0, 9000);
                        keep(o.node);
                    }
                    o.style = int(s.draw(3));
                    if (kMove && o.style == 0) cur[std::size_t(a)] = -1; // dropped after a timeout
                    waited = true;
                } else if (o.k == QUERY)
                    o.node = cur[std::size_t(a)];
            }
            ops.push_back(o);
        }
        (void)waited;
        p.final_[std::size_t(t)] = cur;
        for (int i : cur)
            if (i >= 0) keep(i);
    }
    return p;
}

template <class F, class Fn>
F then_lvalue(F& x, stlab::executor_t e, Fn f) {
    if constexpr (kMove)
        return std::move(x).then(std::move(e), std::move(f));
    else
        return x.then(std::move(e), std::move(f));
}
template <class F, class Fn>
F recover_lvalue(F& x, stlab::executor_t e, Fn f) {
    if constexpr (kMove)
        return std::move(x).recover(std::move(e), std::move(f));
    else
        return x.recover(std::move(e), std::move(f));
}

template <class F>
void check_ready(F& f, int node, const char* who, bool last = false) {
    if (auto e = f.exception())
        check_error(node, e, who);
    else {
        if constexpr (kMove) {
            if (!last) return; // reading it would take it
            auto x = std::move(f).get_try();
            DET_CHECK(*g_c, x, who << ": a ready future has neither a value nor an exception");
            check_value(node, x->get(), who);
        } else {
            auto x = f.get_try();
            DET_CHECK(*g_c, x, who << ": a ready future has neither a value nor an exception");
            check_value(node, x->get(), who);
        }
    }
}

void run(pbt::Case& c, const Focus& fo) {
    g_c = &c;
    g_val_live = 0;
    g_q_workers.clear();
    Program p = generate(c, fo);
    std::deque<int> detach_calls;
    for (auto& t : p.ops)
        for (auto& o : t)
            if (o.k == DETACHF) o.calls = &detach_calls.emplace_back(0);
    int qn = p.use_q ? c.src.range(1, 2) : 0;
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(c.src.range(1, 3));

    if (c.logging) {
        PBT_LOG(c, "roots:");
        for (std::size_t i = 0; i < g_n.size(); ++i)
            if (g_n[i].kind == ROOT) PBT_LOG(c, "  node " << i << " gives " << show(g_n[i].outs));
        for (int t = 0; t < p.nthreads; ++t) {
            PBT_LOG(c, "thread " << t << ": handles of nodes " << p.init[std::size_t(t)][0] << " " << p.init[std::size_t(t)][1] << " " << p.init[std::size_t(t)][2] << " " << p.init[std::size_t(t)][3]);
            for (auto& o : p.ops[std::size_t(t)]) {
                static const char* nm[] = {"complete root", "attach", "copy", "drop", "detach", "detach with a function", "query", "await", "await_for", "pause"};
                std::ostringstream d;
                d << "   " << nm[o.k];
                if (o.k == COMPLETE)
                    d << " " << o.a;
                else if (o.k == ATTACH) {
                    const Node& n = g_n[std::size_t(o.node)];
                    d << " node " << o.node << " = " << kname[n.kind] << (n.throws ? " (throws)" : "") << " on executor " << n.exec << " of nodes";
                    for (int i : n.in) d << " " << i;
                    if (n.cap >= 0) d << " returning node " << n.cap;
                    d << (o.rv ? " (moved)" : "") << " into slot " << o.d << "; gives " << show(n.outs) << (n.kept ? "" : "; result may be dropped");
                } else
                    d << " slot " << o.a << (o.rv ? " (moved)" : "") << " to " << o.d << " ns " << o.ns;
                PBT_LOG(c, d.str());
            }
        }
    }

    det::go(c, cfg, [&] {
        QExec q;
        g_q = &q;
        q.start(qn);
        {
            std::vector<stlab::packaged_task<>> tasks;
            std::vector<std::vector<std::array<Fut, S>>> dummy;
            std::vector<std::array<Fut, S>> slots(static_cast<std::size_t>(p.nthreads));
            {
                std::vector<Fut> roots;
                for (std::size_t i = 0; i < g_n.size() && g_n[i].kind == ROOT; ++i) {
                    auto pr = stlab::package<Val()>(ex(g_n[i].exec), RootFn{Tok(int(i))});
                    tasks.push_back(std::move(pr.first));
                    roots.push_back(std::move(pr.second));
                }
                for (std::size_t t = 0; t < slots.size(); ++t)
                    for (std::size_t i = 0; i < S; ++i)
                        if (p.init[t][i] >= 0) slots[t][i] = dup(roots[std::size_t(p.init[t][i])]);
            }
            auto thread_body = [&](std::size_t t) {
                auto& h = slots[t];
                for (auto& o : p.ops[t]) {
                    auto take = [&](int sl) -> Fut { return o.rv ? std::move(h[std::size_t(sl)]) : dup(h[std::size_t(sl)]); };
                    switch (o.k) {
                    case COMPLETE:
                        if (!g_n[std::size_t(o.a)].broken) tasks[std::size_t(o.a)]();
                        tasks[std::size_t(o.a)] = {};
                        break;
                    case ATTACH: {
                        const Node& n = g_n[std::size_t(o.node)];
                        Fut r;
                        bool own = o.style < 2; // executor of the parent or an explicit one: all nodes are given explicitly
                        (void)own;
                        switch (n.kind) {
                        case ASYNC: r = stlab::async(ex(n.exec), RootFn{Tok(o.node)}); break;
                        case THEN: {
                            ThenFn f{Tok(o.node), n.in[0], n.exec};
                            auto& x = h[std::size_t(o.a)];
                            if (o.style == 0)
                                r = o.rv ? std::move(x).then(ex(n.exec), std::move(f)) : dup(x).then(ex(n.exec), std::move(f));
                            else if (o.style == 1)
                                r = o.rv ? std::move(x) | (stlab::executor{ex(n.exec)} & std::move(f)) : dup(x) | (stlab::executor{ex(n.exec)} & std::move(f));
                            else if (o.rv)
                                r = std::move(x).then(ex(n.exec), std::move(f));
                            else
                                r = then_lvalue(x, ex(n.exec), std::move(f));
                            break;
                        }
                        case RECOVER: {
                            RecoverFn f{Tok(o.node), n.in[0], n.exec};
                            auto& x = h[std::size_t(o.a)];
                            if (o.rv)
                                r = std::move(x).recover(ex(n.exec), std::move(f));
                            else if (o.style & 1)
                                r = recover_lvalue(x, ex(n.exec), std::move(f));
                            else
                                r = dup(x).recover(ex(n.exec), std::move(f));
                            break;
                        }
                        case REDUCE: {
                            Fut inner = dup(h[std::size_t(o.b)]);
                            ReduceFn f(o.node, n.in[0], n.exec, std::move(inner));
                            auto& x = h[std::size_t(o.a)];
                            if (o.rv)
                                r = std::move(x).then(ex(n.exec), std::move(f));
                            else
                                r = dup(x).then(ex(n.exec), std::move(f));
                            break;
                        }
                        case CORO: r = coro(o.node, n.in[0], std::move(h[std::size_t(o.a)])); break;
                        case ALL2: r = stlab::when_all(ex(n.exec), AllFn{Tok(o.node), n.exec}, take(o.a), take(o.b)); break;
                        case ANY2: r = stlab::when_any(ex(n.exec), AnyFn{Tok(o.node), n.exec}, take(o.a), take(o.b)); break;
                        default: {
                            std::vector<Fut> v;
                            v.push_back(take(o.a));
                            v.push_back(take(o.b));
                            auto rg = std::make_pair(v.begin(), v.end());
                            if (n.kind == ALLR)
                                r = stlab::when_all(ex(n.exec), AllFn{Tok(o.node), n.exec}, rg);
                            else
                                r = stlab::when_any(ex(n.exec), AnyFn{Tok(o.node), n.exec}, rg);
                        }
                        }
                        h[std::size_t(o.d)] = std::move(r);
                        break;
                    }
                    case COPY:
                        if (o.rv)
                            h[std::size_t(o.d)] = std::move(h[std::size_t(o.a)]);
                        else {
                            Fut x(dup(h[std::size_t(o.a)]));
                            h[std::size_t(o.d)] = std::move(x);
                        }
                        break;
                    case DROP: h[std::size_t(o.a)] = Fut(); break;
                    case DETACH:
                        if (o.rv)
                            std::move(h[std::size_t(o.a)]).detach();
                        else
                            h[std::size_t(o.a)].detach();
                        if (o.rv) h[std::size_t(o.a)] = Fut();
                        break;
                    case DETACHF: {
                        auto fn = [nd = o.node, calls = o.calls, &c](Fut&& f) {
                            {
                                det::Quiet q;
                                PBT_CHECK(c, ++*calls == 1, "the function given to detach runs a second time");
                            }
                            DET_CHECK(c, f.is_ready(), "the function given to detach gets a future that is not ready");
                            check_ready(f, nd, "the function given to detach", true);
                        };
                        if (o.rv)
                            std::move(h[std::size_t(o.a)]).detach(fn);
                        else
                            dup(h[std::size_t(o.a)]).detach(fn);
                        if (o.rv) h[std::size_t(o.a)] = Fut();
                        break;
                    }
                    case QUERY: {
                        Fut& x = h[std::size_t(o.a)];
                        DET_CHECK(c, x.valid(), "a handle lost its state");
                        bool r = x.is_ready();
                        if (r)
                            check_ready(x, o.node, "a query");
                        else if (!kMove) {
                            try {
                                auto v = x.get_try();
                                if (v) check_value(o.node, v->get(), "get_try");
                            } catch (...) {
                                check_error(o.node, std::current_exception(), "get_try");
                            }
                        }
                        break;
                    }
                    case AWAIT: {
                        try {
                            if constexpr (!kMove)
                                if (!o.rv && o.style == 2) { // the deprecated form that copies for the caller
                                    Val v = stlab::await(std::as_const(h[std::size_t(o.a)]));
                                    check_value(o.node, v.get(), "await");
                                    break;
                                }
                            Fut x = take(o.a);
                            Val v = o.style == 0 ? stlab::blocking_get(std::move(x)) : stlab::await(std::move(x));
                            check_value(o.node, v.get(), "await");
                        } catch (...) {
                            check_error(o.node, std::current_exception(), "await");
                        }
                        break;
                    }
                    case AWAIT_FOR: {
                        auto d = std::chrono::nanoseconds(o.ns);
                        auto t0 = std::chrono::steady_clock::now();
                        const std::int64_t end = o.ns > INT64_MAX / 2 ? INT64_MAX : det::now_ns() + o.ns;
                        // When time passes only while no thread can run, a result that is there before the end ends the wait.
                        auto in_time = [&] {
                            det::Quiet q;
                            const Node& n = g_n[std::size_t(o.node)];
                            if (!cfg.eager_time && o.ns > 0 && n.runs == 1 && n.kind != REDUCE && det::now_ns() >= end && n.ran_at < end)
                                PBT_FAIL(c, "the wait for node " << o.node << " lasted until its timeout, although the result was there " << end - n.ran_at << " ns before");
                        };
                        if (o.style == 0) {
                            // blocking_get: an optional, empty after a timeout
                            Fut x = dup(h[std::size_t(o.a)]);
                            try {
                                auto v = stlab::blocking_get(std::move(x), d);
                                if (v) {
                                    in_time();
                                    check_value(o.node, v->get(), "blocking_get");
                                } else
                                    DET_CHECK(c, std::chrono::steady_clock::now() - t0 >= d, "blocking_get timed out too early");
                            } catch (...) {
                                check_error(o.node, std::current_exception(), "blocking_get");
                            }
                            break;
                        }
                        Fut r;
                        if constexpr (!kMove)
                            if (!o.rv && o.style == 1 && o.ns % 200) // the deprecated form that copies for the caller
                                r = stlab::await_for(std::as_const(h[std::size_t(o.a)]), d);
                        if (!r.valid()) {
                            Fut x = o.rv ? std::move(h[std::size_t(o.a)]) : dup(h[std::size_t(o.a)]);
                            r = o.style == 1 ? stlab::await_for(std::move(x), d) : stlab::blocking_get_for(std::move(x), d);
                        }
                        DET_CHECK(c, r.valid(), "await_for returned a future without state");
                        if (r.is_ready()) {
                            in_time();
                            check_ready(r, o.node, "await_for");
                        } else
                            DET_CHECK(c, std::chrono::steady_clock::now() - t0 >= d, "await_for gave up before its timeout");
                        h[std::size_t(o.a)] = std::move(r);
                        break;
                    }
                    case PAUSE: std::this_thread::sleep_for(std::chrono::nanoseconds(o.ns)); break;
                    }
                }
            };
            std::vector<std::thread> th;
            for (std::size_t t = 1; t < slots.size(); ++t) th.emplace_back([&, t] { thread_body(t); });
            thread_body(0);
            for (auto& e : th) e.join();
            tasks.clear();
            det::settle();
            for (std::size_t t = 0; t < slots.size(); ++t)
                for (std::size_t i = 0; i < S; ++i) {
                    int nd = p.final_[t][i];
                    Fut& f = slots[t][i];
                    DET_CHECK(c, f.valid() == (nd >= 0), "slot " << i << " of thread " << t << (nd >= 0 ? " lost its future" : " unexpectedly holds a future"));
                    if (nd < 0) continue;
                    DET_CHECK(c, f.is_ready(), "node " << nd << " never becomes ready (thread " << t << " slot " << i << ")");
                    check_ready(f, nd, "the final check", true);
                }
            {
                det::Quiet qq;
                for (int k : detach_calls) PBT_CHECK(c, k == 1, "the function given to detach ran " << k << " times");
                for (std::size_t i = 0; i < g_n.size(); ++i) {
                    const Node& n = g_n[i];
                    if (!n.kept) continue;
                    bool must = true, may = true;
                    if (n.kind == ROOT)
                        must = may = !n.broken;
                    else if (n.kind == THEN || n.kind == REDUCE || n.kind == CORO) {
                        must = true;
                        may = false;
                        for (auto& o : g_n[std::size_t(n.in[0])].outs) (o.k == 'v' ? may : must) = o.k == 'v';
                    } else if (n.kind == ALL2 || n.kind == ALLR) {
                        for (int k : n.in) {
                            bool v = false;
                            for (auto& o : g_n[std::size_t(k)].outs) {
                                must &= o.k == 'v';
                                v |= o.k == 'v';
                            }
                            may &= v;
                        }
                    } else if (n.kind == ANY2 || n.kind == ANYR) {
                        must = false;
                        may = false;
                        for (int k : n.in) {
                            bool all = true;
                            for (auto& o : g_n[std::size_t(k)].outs) {
                                all &= o.k == 'v';
                                may |= o.k == 'v';
                            }
                            must |= all;
                        }
                    }
                    PBT_CHECK(c, n.runs <= (may ? 1 : 0), "the function of node " << i << " (" << kname[n.kind] << ") ran although its input has no value");
                    PBT_CHECK(c, !must || n.runs == 1, "the function of node " << i << " (" << kname[n.kind] << ") never ran");
                }
            }
            slots.clear();
        }
        det::settle();
        q.end();
        stlab::pre_exit();
        {
            det::Quiet qq;
            for (std::size_t i = 0; i < g_n.size(); ++i) PBT_CHECK(c, g_n[i].live == 0, g_n[i].live << " instances of the function of node " << i << " (" << kname[g_n[i].kind] << ") are left");
            PBT_CHECK(c, g_val_live == 0, g_val_live << " values are left");
        }
    });
    auto st = det::stats();
    std::size_t nops = 0;
    for (auto& o : p.ops) nops += o.size();
    c.nontrivial = st.preemptions >= 2 && nops >= 4;
    for (auto& o : p.ops)
        for (auto& e : o) {
            if (e.k == ATTACH) c.tag(kname[g_n[std::size_t(e.node)].kind]);
            if (e.k == AWAIT) c.tag("await");
            if (e.k == AWAIT_FOR) c.tag("await_for");
            if (e.k == DETACH) c.tag("detach");
        }
    c.tag("schedule points", st.points);
    c.tag("preemptions", st.preemptions);
    if (p.use_pool) c.tag("with the task pool");
}

#define RULE "at least 4 operations in 2 to 4 threads and at least 2 preemptions"
#define FUT(NAME_, ...)              \
    PBT_PROP_FORKED(NAME_, RULE) {   \
        static const Focus f = [] {  \
            Focus f;                 \
            __VA_ARGS__;             \
            return f;                \
        }();                         \
        run(c, f);                   \
    }
#if MOVE_ONLY
FUT(F01m, )
FUT(F02m, f.kinds[0] = 4, f.kinds[2] = 5, f.query = 5)
FUT(F03m, f.broken = 2, f.throws = 8)
FUT(F04m, f.drop = 9, f.detach = 2)
FUT(F05m, f.detach = 6, f.detachf = 6)
FUT(F06m, f.kinds[3] = 10, f.drop = 4)
FUT(F07m, f.kinds[5] = 9, f.kinds[7] = 6, f.throws = 3)
FUT(F08m, f.kinds[6] = 9, f.kinds[8] = 6, f.throws = 2)
FUT(F10m, f.wait = 5)
FUT(F11m, )
FUT(F12m, f.kinds[4] = 12)
#else
FUT(F01t, )
FUT(F02t, f.kinds[0] = 4, f.kinds[2] = 5, f.query = 5)
FUT(F03t, f.broken = 2, f.throws = 8)
FUT(F04t, f.drop = 9, f.detach = 2)
FUT(F05t, f.detach = 6, f.detachf = 6)
FUT(F06t, f.kinds[3] = 10, f.drop = 4)
FUT(F07t, f.kinds[5] = 9, f.kinds[7] = 6, f.throws = 3)
FUT(F08t, f.kinds[6] = 9, f.kinds[8] = 6, f.throws = 2)
FUT(F10t, f.wait = 5)
FUT(F11t, )
FUT(F12t, f.kinds[4] = 12)
#endif

} // namespace
