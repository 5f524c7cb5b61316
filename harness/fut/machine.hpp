// Model-based machine for futures: a pure model of the ownership and completion graph predicts, for
// every operation, the exact sequence of user-visible calls ("events"); the real library is then run
// and every call it makes into user code is checked against the next predicted event.  After each
// operation all handles, packaged tasks, executor queues and captured tokens are compared.
#pragma once
#include "../pbt.hpp"

#include <stlab/concurrency/executor_base.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/ready_future.hpp>
#include <stlab/concurrency/utility.hpp>

#include <deque>
#include <memory>
#include <optional>
#include <vector>

namespace fm {

using stlab::future;
using stlab::packaged_task;
using Task = stlab::task<void() noexcept>;

constexpr int kPoison = -777;
constexpr int kBroken = -1; // exception id of a broken promise
constexpr int kNoState = -2;

extern long live_vals;

struct Val {
    int v = 0;
    Val() { ++live_vals; }
    explicit Val(int x) : v(x) { ++live_vals; }
    Val(const Val& x) : v(x.v) { ++live_vals; }
    Val(Val&& x) noexcept : v(x.v) {
        x.v = kPoison;
        ++live_vals;
    }
    Val& operator=(const Val& x) {
        v = x.v;
        return *this;
    }
    Val& operator=(Val&& x) noexcept {
        if (this != &x) {
            v = x.v;
            x.v = kPoison;
        }
        return *this;
    }
    ~Val() {
        v = -888;
        --live_vals;
    }
};

struct Mov {
    int v = 0;
    Mov() { ++live_vals; }
    explicit Mov(int x) : v(x) { ++live_vals; }
    Mov(const Mov&) = delete;
    Mov& operator=(const Mov&) = delete;
    Mov(Mov&& x) noexcept : v(x.v) {
        x.v = kPoison;
        ++live_vals;
    }
    Mov& operator=(Mov&& x) noexcept {
        if (this != &x) {
            v = x.v;
            x.v = kPoison;
        }
        return *this;
    }
    ~Mov() {
        v = -888;
        --live_vals;
    }
};

struct Exc {
    int id;
};

// Captured by every function object given to the library: knows which node it belongs to.
struct Tok {
    int id = -1;
    Tok() = default;
    explicit Tok(int i) : id(i) { add(1); }
    Tok(const Tok&) = delete;
    Tok& operator=(const Tok&) = delete;
    Tok(Tok&& x) noexcept : id(x.id) { x.id = -1; }
    Tok& operator=(Tok&& x) noexcept {
        if (this != &x) {
            add(-1);
            id = x.id;
            x.id = -1;
        }
        return *this;
    }
    ~Tok() {
        add(-1);
        id = -1;
    }
    void add(int d);
};

enum Ty { TV, TM, TD };
enum Out { OV, OM, OD, OFV, OFM, OFD, kOuts };
inline Ty out_ty(Out o) { return Ty(int(o) % 3); }
inline bool out_red(Out o) { return o >= OFV; }
enum Kind { K_ASYNC, K_PACK, K_THEN, K_RECOVER, K_READY, K_W, K_ARG, K_HOLD, K_CORO };
enum Combo { ALL_T, ALL_R, ANY_T, ANY_R };

struct Res {
    int st = 0; // 0 pending, 1 value, 2 exception
    int v = 0;
    bool operator==(const Res& r) const { return st == r.st && (st == 0 || v == r.v); }
};
inline std::ostream& operator<<(std::ostream& o, const Res& r) {
    if (r.st == 0) return o << "pending";
    if (r.st == 1) return o << "value " << r.v;
    if (r.v == kBroken) return o << "broken promise";
    return o << "exception " << r.v;
}

struct Handle {
    int node = -1;
    Ty ty = TV;
    future<Val> v;
    future<Mov> m;
    future<void> d;
};

struct PtSlot {
    int node = -1; // -1: empty
    int args = 0;  // 0: (), 1: (Val), 2: (Mov)
    bool used = false;
    packaged_task<> p0;
    packaged_task<Val> p1;
    packaged_task<Mov> p2;
    packaged_task<Val, Mov> p3;
};

enum ContKind { C_NODE, C_DETACH, C_CORO, C_NULL };
struct Cont {
    ContKind kind;
    int id;
};

struct Node {
    Kind kind = K_ASYNC;
    Ty ty = TV;
    bool reduced = false;
    int exec = 0;
    int parent = -1;
    int ctx = -1, idx = 0;
    int holder = -1; // K_HOLD: the node whose result is forwarded
    int hold = -1;   // reduced node: its K_HOLD node
    Res res;
    bool fn_held = false;
    bool has_tok = false;
    bool invoked = false;
    int handles = 0;
    int pin = 0;
    bool detached = false;
    bool dead = false;
    bool taken = false; // its function moved the parent future away
    Out out = OV;
    int cap = -1; // node of a packaged task its function captured
    int args = 0;
    int a0 = 0, a1 = 0;
    int depth = 0;
    std::vector<Cont> conts;
};

struct Ctx {
    Combo kind{};
    int w = -1;
    int pin = 0;
    std::vector<int> r;
    std::vector<char> hold;
    std::vector<int> arg;
    std::vector<Ty> argty;
    std::size_t remaining = 0;
    bool single = false;
    Res exc;
    int index = -1;
};

struct Coro {
    int node = -1;
    int steps = 0;
    bool done = false;
};

enum ActKind { A_RESET, A_PT, A_STASH_COPY, A_STASH_MOVE, A_THEN };
struct Act {
    ActKind kind;
    int a = 0, b = 0, c = 0, d = 0;
};
enum InnerKind { I_NONE, I_COPY, I_MOVE, I_READY, I_EXC, I_BROKEN, I_ASYNC };

enum EvKind { E_INVOKE, E_DETACH, E_CORO, E_RESUMED };
struct Event {
    EvKind kind;
    int id; // node, detach id or coroutine id
    Res in;
    std::vector<int> args; // values of a combinator's function
    int index = -1;
    std::vector<Act> acts;
    Res out;
    bool rethrow = false;
    InnerKind inner = I_NONE;
    int islot = -1, inode = -1, iexec = 0;
    // coroutine step: 0 return/throw, 1 await copy, 2 await move ; E_RESUMED: out.st==2 -> propagate
    int step = 0;
};

struct Profile {
    unsigned make = 10, pack = 8, ready = 4, then = 16, recover = 10, run = 16, drop = 3, pt = 10, handle = 14,
             detach = 3, detachf = 3, combo = 0, coro = 0, acts = 6;
    unsigned reduce = 4; // of 16
    unsigned cap = 4;    // of 16: functions that capture a packaged task
    unsigned mv = 5;     // weight of move-only of 16
};

constexpr int kSlots = 14;
constexpr int kPts = 4;
constexpr int kExecs = 3; // 0 is the immediate executor
constexpr int kMaxNodes = 60;

struct AttachReq {
    int node;
    bool recover, rvalue, has_exec, op, pair_rev;
    int exec;
    Handle* src;
    Handle* dst;
};
struct MakeReq {
    int node;
    int args;
    int a0, a1;
    int exec;
    Handle* dst;
    PtSlot* pt; // null: async
    packaged_task<>* cap = nullptr;
};

template <Out O>
void attach_out(AttachReq&);
template <Out O>
void make_out(MakeReq&);

struct Machine;
extern Machine* g;

stlab::executor_t ex(int e);

struct Machine {
    pbt::Case& c;
    Profile pf;
    std::deque<Node> n;
    std::deque<Ctx> ctx;
    std::deque<Coro> co;
    bool busy[kSlots] = {};
    bool pbusy[kPts] = {};
    std::vector<int> tok_live;   // by token id = node id
    std::vector<int> det_live;   // detach tokens
    std::vector<int> det_node;   // node a detach callback waits on
    std::vector<char> det_done;
    std::vector<int> coro_live;
    std::vector<char> coro_done;
    Handle h[kSlots];
    PtSlot pt[kPts];
    std::deque<Task> q[kExecs];
    std::deque<int> mq[kExecs]; // model queues: node ids
    std::deque<Event> ev;
    std::size_t evpos = 0;
    std::string err;
    int next_v = 1;
    long checks = 0;
    // statistics
    int n_cb = 0, n_cancel = 0, n_pendattach = 0, n_broken = 0, n_exc = 0, n_red = 0, n_comb = 0, n_det = 0, n_coro = 0;
    int action_depth = 0;
    int cap_node = -1;
    bool ambiguous = false;
    int n_cap = 0;

    explicit Machine(pbt::Case& cc, Profile p) : c(cc), pf(p) {
        g = this;
    }
    ~Machine();

    void error(const std::string& s) {
        if (err.empty()) err = s;
    }

    // ---------------------------------------------------------------- model: liveness
    bool ctx_alive(int k) const { return ctx[k].pin > 0 || (alive(ctx[k].w) && n[ctx[k].w].fn_held); }
    bool alive(int i) const {
        const Node& x = n[i];
        if (x.pin > 0 || x.handles > 0) return true;
        if (x.res.st == 0) {
            if (x.detached) return true;
            for (auto& k : x.conts)
                if (k.kind == C_DETACH || k.kind == C_CORO) return true;
        }
        if (x.kind == K_HOLD && n[x.holder].hold == i && alive(x.holder)) return true;
        if (x.kind == K_ARG && ctx[x.ctx].hold[x.idx] && ctx_alive(x.ctx)) return true;
        for (int j = i + 1; j < int(n.size()); ++j)
            if (n[j].parent == i && n[j].fn_held && !n[j].taken && alive(j)) return true;
        return false;
    }

    // ---------------------------------------------------------------- model: execution
    int new_node(Kind k, Ty t, int exec, int parent) {
        Node x;
        x.kind = k;
        x.ty = t;
        x.exec = exec;
        x.parent = parent;
        if (parent >= 0) x.depth = n[parent].depth + 1;
        n.push_back(x);
        tok_live.push_back(0);
        return int(n.size()) - 1;
    }
    int fresh() { return next_v++; }

    void submit(int i) {
        if (n[i].exec == 0)
            run_task(i);
        else
            mq[n[i].exec].push_back(i);
    }
    void complete(int i, Res r) {
        if (n[i].res.st) return;
        n[i].res = r;
        if (r.st == 2) ++n_exc;
        std::vector<Cont> k;
        k.swap(n[i].conts);
        for (auto& e : k) {
            if (e.kind == C_NODE)
                submit(e.id);
            else if (e.kind == C_DETACH)
                call_detach(e.id, i);
            else if (e.kind == C_CORO)
                resume(e.id, i);
        }
    }
    // The function of node i is destroyed; a captured task breaks its promise.
    void release_fn(int i) {
        n[i].fn_held = false;
        int p = n[i].cap;
        n[i].cap = -1;
        if (p >= 0) {
            cap_node = -1;
            ++n_cap;
            drop_task(p);
        }
        reap();
    }
    // At most one function that captures a task exists at a time; notice its death.
    // When other nodes that depend on the captured task die in the same instant the order of the two is
    // not part of any property: such (rare) cases are abandoned.
    void reap() {
        if (cap_node < 0) return;
        bool hit = n[cap_node].fn_held && !alive(cap_node);
        int target = n[cap_node].cap;
        for (int i = 0; i < int(n.size()); ++i) {
            if (n[i].dead || alive(i)) continue;
            n[i].dead = true;
            if (hit && i != cap_node && depends(i, target)) ambiguous = true;
        }
        if (hit) release_fn(cap_node);
    }
    struct Abandon {};
    void drop_task(int i, Res r = Res{2, kBroken}) {
        if (n[i].invoked || n[i].res.st || !alive(i)) return;
        ++n[i].pin;
        if (r.v == kBroken) ++n_broken;
        complete(i, r);
        release_fn(i);
        --n[i].pin;
        reap();
    }
    void call_detach(int d, int i);
    void resume(int k, int i);
    void advance(int k);
    void run_task(int i);
    void attach_cont(int i, Cont k) {
        if (n[i].res.st == 0) {
            n[i].conts.push_back(k);
            if (k.kind != C_NULL) ++n_pendattach;
        } else if (k.kind == C_NODE)
            submit(k.id);
        else if (k.kind == C_DETACH)
            call_detach(k.id, i);
    }
    // stash: 0 no, 1 the function received the future of node `in` (self is the node called, or -1)
    void model_acts(Event& e, int self, int in);
    void model_result(Event& e, int self, bool recover);
    bool depends(int i, int on) const;
    void finish_coro(int k, Res r);

    // ---------------------------------------------------------------- events of the real run
    Event* expect(EvKind k, int id, const char* what) {
        if (evpos >= ev.size() || ev[evpos].kind != k || ev[evpos].id != id) {
            std::ostringstream o;
            o << what << " " << id << " was called when the model expects "
              << (evpos < ev.size() ? "a call of " + std::to_string(ev[evpos].id) : std::string("no call"));
            error(o.str());
            return nullptr;
        }
        ++n_cb;
        return &ev[evpos++];
    }
    void check_in(const Event& e, std::size_t i, int v, const char* what) {
        if (i >= e.args.size() || e.args[i] != v) {
            std::ostringstream o;
            o << what << " " << e.id << " received value " << v << " as argument " << i << ", expected "
              << (i < e.args.size() ? std::to_string(e.args[i]) : std::string("no such argument"));
            error(o.str());
        }
    }
    void do_acts(const Event& e, Handle* stash);

    // ---------------------------------------------------------------- operations
    int pick_slot_full(int ty = -1) {
        int k[kSlots], m = 0;
        for (int i = 0; i < kSlots; ++i)
            if (h[i].node >= 0 && !busy[i] && (ty < 0 || h[i].ty == ty)) k[m++] = i;
        return m ? k[c.src.draw(m)] : -1;
    }
    int pick_slot_empty() {
        int k[kSlots], m = 0;
        for (int i = 0; i < kSlots; ++i)
            if (h[i].node < 0 && !busy[i]) k[m++] = i;
        return m ? k[c.src.draw(m)] : -1;
    }
    Out pick_out() {
        int t = int(c.src.weighted({7, pf.mv, 4}));
        bool red = c.src.chance(pf.reduce, 16);
        return Out(t + (red ? 3 : 0));
    }
    int pick_exec() { return int(c.src.weighted({2, 3, 3})); }
    bool room() const { return int(n.size()) < kMaxNodes; }

    void op_make(bool pack);
    void op_ready();
    void op_attach(bool recover, int fan = -1);
    void op_fan();
    void op_run();
    void op_drop();
    void op_pt();
    void op_handle();
    void op_detach(bool f);
    void op_combo();
    void op_coro();
    void step();
    void settle(const char* what);
    void run_program();
    void clear_slot_model(int i) {
        if (h[i].node >= 0) --n[h[i].node].handles;
        h[i].node = -1;
        bool b = busy[i];
        busy[i] = true; // functions run by the death of this future must leave the slot alone
        reap();
        busy[i] = b;
    }
    // used inside functions
    void set_slot(int i, int node, Ty t) {
        h[i].node = node;
        h[i].ty = t;
    }
};

// ---------------------------------------------------------------------------------------- real side
inline int exc_id(const std::exception_ptr& p) {
    try {
        std::rethrow_exception(p);
    } catch (const Exc& e) {
        return e.id;
    } catch (const stlab::future_error& e) {
        return e.code() == stlab::future_error_codes::broken_promise ? kBroken : kNoState;
    } catch (...) {
        return -99;
    }
}

template <class T>
struct ty_of;
template <>
struct ty_of<Val> : std::integral_constant<Ty, TV> {};
template <>
struct ty_of<Mov> : std::integral_constant<Ty, TM> {};
template <>
struct ty_of<void> : std::integral_constant<Ty, TD> {};

template <class T>
future<T>& href(Handle& x) {
    if constexpr (std::is_same_v<T, Val>)
        return x.v;
    else if constexpr (std::is_same_v<T, Mov>)
        return x.m;
    else
        return x.d;
}

template <Out O>
struct out_type;
template <>
struct out_type<OV> {
    using type = Val;
    using red = Val;
};
template <>
struct out_type<OM> {
    using type = Mov;
    using red = Mov;
};
template <>
struct out_type<OD> {
    using type = void;
    using red = void;
};
template <>
struct out_type<OFV> {
    using type = future<Val>;
    using red = Val;
};
template <>
struct out_type<OFM> {
    using type = future<Mov>;
    using red = Mov;
};
template <>
struct out_type<OFD> {
    using type = future<void>;
    using red = void;
};

template <class T>
future<T> ready_fut(int v, int e) {
    if constexpr (std::is_void_v<T>)
        return stlab::make_ready_future(ex(e));
    else
        return stlab::make_ready_future(T(v), ex(e));
}
inline std::exception_ptr exc(int id) {
    if (id == kBroken) return std::make_exception_ptr(stlab::future_error(stlab::future_error_codes::broken_promise));
    return std::make_exception_ptr(Exc{id});
}

future<Val> inner_async_v(const Event& e);
future<Mov> inner_async_m(const Event& e);
future<void> inner_async_d(const Event& e);

// produce the result a function was predicted to give
template <class R>
struct produce {
    static R go(Event*) { return R(0); }
};
template <class R>
R produce_value(Event* e) {
    if (e && e->out.st == 2) throw Exc{e->out.v};
    if constexpr (!std::is_void_v<R>) return R(e ? e->out.v : 0);
}
template <class T>
future<T> produce_future(Event* e) {
    if (!e) return stlab::make_exceptional_future<T>(exc(kNoState), stlab::immediate_executor);
    if (e->out.st == 2) throw Exc{e->out.v};
    switch (e->inner) {
        case I_COPY:
            if constexpr (!std::is_same_v<T, Mov>) return href<T>(g->h[e->islot]);
            break;
        case I_MOVE: return std::move(href<T>(g->h[e->islot]));
        case I_READY: return ready_fut<T>(e->out.v, e->iexec);
        case I_EXC: return stlab::make_exceptional_future<T>(exc(e->out.v), ex(e->iexec));
        case I_BROKEN: return stlab::future_with_broken_promise<T>(ex(e->iexec));
        case I_ASYNC:
            if constexpr (std::is_same_v<T, Val>)
                return inner_async_v(*e);
            else if constexpr (std::is_same_v<T, Mov>)
                return inner_async_m(*e);
            else
                return inner_async_d(*e);
        default: break;
    }
    return stlab::make_exceptional_future<T>(exc(kNoState), stlab::immediate_executor);
}
template <class R>
struct prod {
    static R go(Event* e) { return produce_value<R>(e); }
};
template <class T>
struct prod<future<T>> {
    static future<T> go(Event* e) { return produce_future<T>(e); }
};

// Takes what it is given, as a function with parameters by value does
template <class X>
void steal(X&& x) {
    if constexpr (!std::is_lvalue_reference_v<X> && !std::is_const_v<X> && std::is_move_constructible_v<X>) [[maybe_unused]]
        auto y = std::move(x);
}

inline int val_of(const Val& x) { return x.v; }
inline int val_of(const Mov& x) { return x.v; }

// function given to async, package and then
template <class R>
struct Fn {
    Tok t;
    int node;
    packaged_task<> cap;
    explicit Fn(int i) : t(i), node(i) {}
    template <class... A>
    R operator()(A&&... a) {
        Event* e = g->expect(E_INVOKE, node, "the function of node");
        if (t.id != node) g->error("a function object was called after it was moved from or destroyed");
        if (e) {
            if (sizeof...(A) != e->args.size()) g->error("function called with the wrong number of arguments");
            std::size_t i = 0;
            (g->check_in(*e, i++, val_of(a), "the function of node"), ...);
            (void)i;
            if (t.id % 2) (steal(std::forward<A>(a)), ...);
            g->do_acts(*e, nullptr);
        }
        return prod<R>::go(e);
    }
};

template <class T>
void check_ready_input(Event& e, future<T>& p, const char* what) {
    if (!p.valid() || !p.is_ready()) {
        g->error(std::string(what) + " " + std::to_string(e.id) + " received a future that is not ready");
        return;
    }
    Res r;
    if (auto x = p.exception())
        r = {2, exc_id(x)};
    else {
        r.st = 1;
        if constexpr (std::is_same_v<T, Val>) {
            auto o = std::as_const(p).get_try();
            r.v = o ? o->v : -1234;
        } else
            r.v = e.in.v;
    }
    if (!(r == e.in)) {
        std::ostringstream o;
        o << what << " " << e.id << " received " << r << ", expected " << e.in;
        g->error(o.str());
    }
}
// consume the value of a move-only future handed to a recover function
template <class T>
void consume(Event& e, future<T>& p) {
    if constexpr (std::is_same_v<T, Mov>) {
        if (e.in.st != 1 || !p.valid() || !p.is_ready() || p.exception()) return;
        if (e.step == 1) {
            auto o = std::move(p).get_try();
            g->check_in(e, 0, o ? o->v : -1234, "the recover function of node");
        } else {
            auto o = std::move(p).get_ready();
            g->check_in(e, 0, o.v, "the recover function of node");
        }
    } else if constexpr (std::is_same_v<T, Val>) {
        if (e.in.st != 1 || !p.valid() || !p.is_ready() || p.exception()) return;
        if (e.step == 1) {
            auto o = std::move(p).get_ready();
            g->check_in(e, 0, o.v, "the recover function of node");
        }
    }
}

template <class R, class T>
struct RecFn {
    Tok t;
    int node;
    explicit RecFn(int i) : t(i), node(i) {}
    R operator()(future<T>&& p) {
        Event* e = g->expect(E_INVOKE, node, "the recover function of node");
        if (t.id != node) g->error("a function object was called after it was moved from or destroyed");
        if (e) {
            check_ready_input(*e, p, "the recover function of node");
            Handle s;
            bool st = false, mv = false;
            for (auto& a : e->acts) {
                if (a.kind == A_STASH_COPY) st = true;
                if (a.kind == A_STASH_MOVE) mv = true;
            }
            if (st)
                if constexpr (!std::is_same_v<T, Mov>) href<T>(s) = p;
            std::exception_ptr in = e->in.st == 2 && p.valid() && p.is_ready() ? p.exception() : nullptr;
            if (!mv)
                consume(*e, p);
            else
                href<T>(s) = std::move(p);
            g->do_acts(*e, &s);
            if (e->rethrow && in) std::rethrow_exception(in);
        }
        return prod<R>::go(e);
    }
};

template <Out O, class T>
void attach_in(AttachReq& q) {
    using R = typename out_type<O>::type;
    future<T>& s = href<T>(*q.src);
    auto& d = href<typename out_type<O>::red>(*q.dst);
    auto go = [&](auto f) {
        constexpr bool rec = std::is_same_v<decltype(f), RecFn<R, T>>;
        using F = decltype(f);
        auto rv = [&](auto&& fut) {
            using S = decltype(fut);
            if (q.op) {
                if (!q.has_exec) {
                    if constexpr (rec)
                        d = std::forward<S>(fut) ^ std::move(f);
                    else
                        d = std::forward<S>(fut) | std::move(f);
                } else {
                    stlab::executor_task_pair<F> p = q.pair_rev ? (stlab::executor{ex(q.exec)} & std::move(f)) :
                                                                  (std::move(f) & stlab::executor{ex(q.exec)});
                    if constexpr (rec)
                        d = std::forward<S>(fut) ^ std::move(p);
                    else
                        d = std::forward<S>(fut) | std::move(p);
                }
            } else {
                if constexpr (rec) {
                    if (q.has_exec)
                        d = std::forward<S>(fut).recover(ex(q.exec), std::move(f));
                    else
                        d = std::forward<S>(fut).recover(std::move(f));
                } else {
                    if (q.has_exec)
                        d = std::forward<S>(fut).then(ex(q.exec), std::move(f));
                    else
                        d = std::forward<S>(fut).then(std::move(f));
                }
            }
        };
        if constexpr (std::is_same_v<T, Mov>)
            rv(std::move(s));
        else {
            if (q.rvalue)
                rv(std::move(s));
            else
                rv(std::as_const(s));
        }
    };
    if (q.recover)
        go(RecFn<R, T>(q.node));
    else
        go(Fn<R>(q.node));
}

template <Out O>
void attach_out_impl(AttachReq& q) {
    switch (q.src->ty) {
        case TV: attach_in<O, Val>(q); break;
        case TM: attach_in<O, Mov>(q); break;
        case TD: attach_in<O, void>(q); break;
    }
}

template <Out O>
void make_out_impl(MakeReq& q) {
    using R = typename out_type<O>::type;
    auto& d = href<typename out_type<O>::red>(*q.dst);
    Fn<R> f(q.node);
    if (q.cap) f.cap = std::move(*q.cap);
    if (!q.pt) {
        switch (q.args) {
            case 0: d = stlab::async(ex(q.exec), std::move(f)); break;
            case 1: d = stlab::async(ex(q.exec), std::move(f), Val(q.a0)); break;
            case 2: d = stlab::async(ex(q.exec), std::move(f), Mov(q.a0)); break;
            default: {
                Val lv(q.a0);
                d = stlab::async(ex(q.exec), std::move(f), lv, Mov(q.a1));
                if (lv.v != q.a0) g->error("async moved from an lvalue argument");
            }
        }
    } else {
        if (q.args == 0) {
            auto p = stlab::package<R()>(ex(q.exec), std::move(f));
            q.pt->p0 = std::move(p.first);
            d = std::move(p.second);
        } else if (q.args == 1) {
            auto p = stlab::package<R(Val)>(ex(q.exec), std::move(f));
            q.pt->p1 = std::move(p.first);
            d = std::move(p.second);
        } else if (q.args == 2) {
            auto p = stlab::package<R(Mov)>(ex(q.exec), std::move(f));
            q.pt->p2 = std::move(p.first);
            d = std::move(p.second);
        } else {
            auto p = stlab::package<R(Val, Mov)>(ex(q.exec), std::move(f));
            q.pt->p3 = std::move(p.first);
            d = std::move(p.second);
        }
    }
}

} // namespace fm
