#include "machine.hpp"
#include "combo.hpp"

namespace fm {

long live_vals = 0;
Machine* g = nullptr;

void Tok::add(int d) {
    if (id < 0 || !g) return;
    g->tok_live[id] += d;
}

stlab::executor_t ex(int e) {
    if (e == 0) return stlab::immediate_executor;
    return [e](Task t) { g->q[e].push_back(std::move(t)); };
}

// ------------------------------------------------------------------------------------------ model
bool Machine::depends(int i, int on) const {
    if (i == on) return true;
    const Node& x = n[i];
    if (x.parent >= 0 && depends(x.parent, on)) return true;
    if (x.hold >= 0 && depends(x.hold, on)) return true;
    if (x.kind == K_W)
        for (int r : ctx[x.ctx].r)
            if (depends(r, on)) return true;
    if (x.kind == K_CORO && x.res.st == 0)
        for (int j = 0; j < int(n.size()); ++j)
            for (auto& k : n[j].conts)
                if (k.kind == C_CORO && co[k.id].node == i && depends(j, on)) return true;
    return false;
}

void Machine::model_acts(Event& e, int self, int in) {
    if (!c.src.chance(pf.acts, 32) || action_depth > 3) return;
    ++action_depth;
    int k = 1 + int(c.src.draw(2));
    bool stashed = false;
    for (int s = 0; s < k; ++s) {
        switch (c.src.weighted({4, 4, 4, 4})) {
            case 0: {
                int i = pick_slot_full();
                if (i < 0) break;
                e.acts.push_back({A_RESET, i, int(h[i].ty)});
                clear_slot_model(i);
                break;
            }
            case 1: {
                int j = int(c.src.draw(kPts));
                if (pt[j].node < 0 || pt[j].used || pbusy[j]) break;
                int v = fresh();
                e.acts.push_back({A_PT, j, v, pt[j].args});
                pt[j].used = true;
                n[pt[j].node].a0 = n[pt[j].node].a1 = v;
                run_task(pt[j].node);
                break;
            }
            case 2: {
                int i = pick_slot_full(TV), d = pick_slot_empty();
                if (i < 0 || d < 0 || !room()) break;
                int p = h[i].node;
                int x = new_node(K_THEN, TV, int(c.src.weighted({2, 3, 3})), p);
                n[x].fn_held = n[x].has_tok = true;
                n[x].handles = 1;
                e.acts.push_back({A_THEN, i, d, x, n[x].exec});
                busy[d] = true;
                set_slot(d, x, TV);
                attach_cont(p, {C_NODE, x});
                busy[d] = false;
                break;
            }
            default: {
                if (in < 0 || stashed) break;
                int d = pick_slot_empty();
                if (d < 0) break;
                bool mv = n[in].ty == TM || self < 0 || c.src.flip();
                stashed = true;
                e.acts.push_back({mv ? A_STASH_MOVE : A_STASH_COPY, d, int(n[in].ty)});
                ++n[in].handles;
                if (mv && self >= 0) n[self].taken = true;
                set_slot(d, in, n[in].ty);
                e.step = 2; // leave the input alone
            }
        }
    }
    --action_depth;
}

// decide what the function returns; for reduced results also where the inner future comes from
void Machine::model_result(Event& e, int self, bool recover) {
    Node& x = n[self];
    std::size_t w = c.src.weighted({12, 3, recover && e.in.st == 2 ? 3u : 0u});
    if (w == 1) {
        e.out = {2, fresh()};
        return;
    }
    if (w == 2) {
        e.rethrow = true;
        e.out = e.in;
        return;
    }
    int v = x.ty == TD ? 0 : fresh();
    e.out = {1, v};
    if (!x.reduced) return;
    ++n_red;
    std::size_t ik = c.src.weighted({4, 4, 5, 2, 1, 5});
    e.iexec = pick_exec();
    e.inner = I_READY;
    if (ik == 0 || ik == 1) {
        int s = pick_slot_full(x.ty);
        if (s >= 0 && !depends(h[s].node, self)) {
            e.inner = (ik == 0 && x.ty != TM) ? I_COPY : I_MOVE;
            e.islot = s;
            e.inode = h[s].node;
            if (e.inner == I_COPY)
                ++n[e.inode].handles;
            else
                h[s].node = -1; // the reference travels with the returned future
        }
    } else if (ik == 3)
        e.inner = I_EXC;
    else if (ik == 4)
        e.inner = I_BROKEN;
    else if (ik == 5 && room()) {
        e.inner = I_ASYNC;
        e.inode = new_node(K_ASYNC, x.ty, e.iexec, -1);
        Node& y = n[e.inode];
        y.fn_held = y.has_tok = true;
        y.handles = 1;
        y.depth = x.depth + 1;
        submit(e.inode);
    }
    if (e.inner == I_READY || e.inner == I_EXC || e.inner == I_BROKEN) {
        e.inode = new_node(K_READY, x.ty, e.iexec, -1);
        n[e.inode].handles = 1;
        if (e.inner == I_READY)
            n[e.inode].res = {1, v};
        else if (e.inner == I_EXC) {
            e.out = {1, fresh()};
            n[e.inode].res = {2, e.out.v};
        } else
            n[e.inode].res = {2, kBroken};
    }
}

void Machine::run_task(int i) {
    if (n[i].invoked || n[i].res.st || !alive(i)) {
        if (!n[i].invoked && !n[i].res.st) ++n_cancel;
        return;
    }
    Node& x = n[i];
    ++x.pin;
    x.invoked = true;
    Res in = x.parent >= 0 ? n[x.parent].res : Res{1, 0};
    if (x.kind == K_HOLD) {
        if (alive(x.holder)) complete(x.holder, in);
        complete(i, Res{1, 0});
        release_fn(i);
        --x.pin;
        reap();
        return;
    }
    if (x.kind == K_ARG) {
        Ctx& k = ctx[x.ctx];
        if (ctx_alive(x.ctx)) {
            ++k.pin;
            bool run = false;
            bool err = in.st == 2;
            switch (k.kind) {
                case ALL_T:
                    if (k.exc.st) break;
                    if (err) {
                        for (auto& hh : k.hold) hh = 0;
                        k.exc = in;
                        run = true;
                    } else {
                        k.arg[x.idx] = in.v;
                        run = --k.remaining == 0;
                    }
                    break;
                case ALL_R:
                    if (err) {
                        if (k.single) break;
                        for (std::size_t j = 0; j < k.hold.size(); ++j)
                            if (int(j) != x.idx) k.hold[j] = 0;
                        k.single = true;
                        k.exc = in;
                        run = true;
                    } else {
                        k.arg[x.idx] = in.v;
                        run = --k.remaining == 0;
                    }
                    break;
                case ANY_T:
                case ANY_R:
                    if (err) {
                        if (--k.remaining == 0) {
                            k.exc = in;
                            run = true;
                        }
                    } else if (k.index < 0) {
                        if (k.kind == ANY_R)
                            for (std::size_t j = 0; j < k.hold.size(); ++j)
                                if (int(j) != x.idx) k.hold[j] = 0;
                        k.index = x.idx;
                        k.arg[0] = in.v;
                        run = true;
                    }
                    break;
            }
            reap();
            if (run) run_task(k.w);
            --k.pin;
            reap();
        }
        complete(i, Res{1, 0});
        release_fn(i);
        --x.pin;
        reap();
        return;
    }
    // a user function
    Res out;
    bool called = true;
    ev.push_back(Event{});
    Event& e = ev.back();
    e.kind = E_INVOKE;
    e.id = i;
    e.in = in;
    if (x.kind == K_THEN) {
        if (in.st == 2)
            called = false;
        else if (n[x.parent].ty != TD)
            e.args.push_back(in.v);
    } else if (x.kind == K_RECOVER) {
        if (in.st == 1 && n[x.parent].ty != TD) e.args.push_back(in.v);
    } else if (x.kind == K_W) {
        Ctx& k = ctx[x.ctx];
        if (k.exc.st) {
            called = false;
            in = k.exc;
        } else if (k.kind == ALL_T || k.kind == ALL_R) {
            for (std::size_t j = 0; j < k.arg.size(); ++j)
                if (k.argty[j] != TD) e.args.push_back(k.arg[j]);
        } else {
            if (k.argty[0] != TD) e.args.push_back(k.arg[0]);
            e.index = k.index;
        }
    } else {
        if (x.args == 1 || x.args == 2) e.args.push_back(x.a0);
        if (x.args == 3) {
            e.args.push_back(x.a0);
            e.args.push_back(x.a1);
        }
    }
    if (!called) {
        ev.pop_back();
        out = in;
        complete(i, out);
    } else {
        e.step = x.kind == K_RECOVER ? int(c.src.draw(2)) : 0;
        model_acts(e, i, x.kind == K_RECOVER ? x.parent : -1);
        model_result(e, i, x.kind == K_RECOVER);
        if (x.reduced && e.out.st == 1) {
            // forward the inner result
            int hn = new_node(K_HOLD, TD, 0, e.inode);
            n[hn].holder = i;
            n[hn].fn_held = true;
            ++n[hn].pin;
            --n[e.inode].handles;
            attach_cont(e.inode, {C_NODE, hn});
            n[i].hold = hn;
            --n[hn].pin;
            reap();
        } else
            complete(i, e.out);
    }
    release_fn(i);
    --n[i].pin;
    reap();
}

void Machine::call_detach(int d, int i) {
    ev.push_back(Event{});
    Event& e = ev.back();
    e.kind = E_DETACH;
    e.id = d;
    e.in = n[i].res;
    det_done[d] = 1;
    ++n[i].pin;
    model_acts(e, -1, i);
    --n[i].pin;
    reap();
}

void Machine::finish_coro(int k, Res r) {
    if (alive(co[k].node) || n[co[k].node].ty == TD) { // the frame of a void coroutine holds its own future
        ++n[co[k].node].pin;
        complete(co[k].node, r);
        --n[co[k].node].pin;
        reap();
    }
    coro_done[k] = 1;
}

void Machine::resume(int k, int i) {
    ev.push_back(Event{});
    Event& e = ev.back();
    e.kind = E_RESUMED;
    e.id = k;
    e.in = n[i].res;
    if (e.in.st == 2 && c.src.flip()) {
        e.out = e.in;
        finish_coro(k, e.in);
        return;
    }
    advance(k);
}

void Machine::advance(int k) {
    for (;;) {
        ev.push_back(Event{});
        Event& e = ev.back();
        e.kind = E_CORO;
        e.id = k;
        model_acts(e, -1, -1);
        int s = co[k].steps > 0 ? pick_slot_full() : -1;
        --co[k].steps;
        if (s < 0 || depends(h[s].node, co[k].node)) {
            e.step = 0;
            if (c.src.chance(1, 4))
                e.out = {2, fresh()};
            else
                e.out = {1, n[co[k].node].ty == TD ? 0 : fresh()};
            finish_coro(k, e.out);
            return;
        }
        e.islot = s;
        e.inode = h[s].node;
        e.index = int(h[s].ty);
        e.step = (h[s].ty == TM || c.src.flip()) ? 2 : 1;
        int i = e.inode;
        ++n[i].pin;
        if (e.step == 2) clear_slot_model(s);
        if (n[i].res.st == 0) {
            attach_cont(i, {C_CORO, k});
            --n[i].pin;
            return;
        }
        // ready: no suspension
        ev.push_back(Event{});
        Event& r = ev.back();
        r.kind = E_RESUMED;
        r.id = k;
        r.in = n[i].res;
        if (r.in.st == 2 && c.src.flip()) {
            r.out = r.in;
            --n[i].pin;
            reap();
            finish_coro(k, r.in);
            return;
        }
        --n[i].pin;
        reap();
    }
}

// ------------------------------------------------------------------------------------------- real
void Machine::do_acts(const Event& e, Handle* st) {
    for (auto& a : e.acts) switch (a.kind) {
            case A_RESET:
                if (a.b == TV)
                    h[a.a].v.reset();
                else if (a.b == TM)
                    h[a.a].m.reset();
                else
                    h[a.a].d.reset();
                break;
            case A_PT:
                if (a.c == 0)
                    pt[a.a].p0();
                else if (a.c == 1)
                    pt[a.a].p1(Val(a.b));
                else if (a.c == 2)
                    pt[a.a].p2(Mov(a.b));
                else
                    pt[a.a].p3(Val(a.b), Mov(a.b));
                break;
            case A_THEN: h[a.b].v = std::as_const(h[a.a].v).then(ex(a.d), Fn<Val>(a.c)); break;
            case A_STASH_COPY:
            case A_STASH_MOVE:
                if (st) {
                    if (a.b == TV)
                        h[a.a].v = std::move(st->v);
                    else if (a.b == TM)
                        h[a.a].m = std::move(st->m);
                    else
                        h[a.a].d = std::move(st->d);
                }
                break;
        }
}

future<Val> inner_async_v(const Event& e) { return stlab::async(ex(e.iexec), Fn<Val>(e.inode)); }
future<Mov> inner_async_m(const Event& e) { return stlab::async(ex(e.iexec), Fn<Mov>(e.inode)); }
future<void> inner_async_d(const Event& e) { return stlab::async(ex(e.iexec), Fn<void>(e.inode)); }

struct DTok {
    int d;
    explicit DTok(int x) : d(x) { ++g->det_live[d]; }
    DTok(DTok&& x) noexcept : d(x.d) { x.d = -1; }
    DTok(const DTok&) = delete;
    ~DTok() {
        if (d >= 0 && g) --g->det_live[d];
    }
};
template <class T>
struct DetFn {
    DTok t;
    int d;
    explicit DetFn(int x) : t(x), d(x) {}
    void operator()(future<T>&& p) {
        Event* e = g->expect(E_DETACH, d, "detach callback");
        if (!e) return;
        check_ready_input(*e, p, "detach callback");
        Handle s;
        for (auto& a : e->acts)
            if (a.kind == A_STASH_MOVE) href<T>(s) = std::move(p);
        g->do_acts(*e, &s);
    }
};
template <class T>
void real_detach(int s, int d) {
    std::move(href<T>(g->h[s])).detach(DetFn<T>(d));
}

// ------------------------------------------------------------------------------------- coroutines
struct CTok {
    int k;
    explicit CTok(int x) : k(x) { ++g->coro_live[k]; }
    CTok(const CTok&) = delete;
    ~CTok() {
        if (g) --g->coro_live[k];
    }
};
static bool resumed(int k, Res r) {
    Event* e = g->expect(E_RESUMED, k, "the continuation of coroutine");
    if (!e) return false;
    if (!(r == e->in)) {
        std::ostringstream o;
        o << "co_await in coroutine " << k << " gave " << r << ", expected " << e->in;
        g->error(o.str());
    }
    return e->out.st == 2;
}
// One step of a coroutine: await the future named by the event; sets `prop` when the exception is to escape.
#define CORO_BODY(RET)                                                                           \
    CTok tok(k);                                                                                 \
    for (;;) {                                                                                   \
        Event* e = g->expect(E_CORO, k, "a step of coroutine");                                  \
        if (!e) {                                                                                \
            RET(0);                                                                              \
        }                                                                                        \
        g->do_acts(*e, nullptr);                                                                 \
        if (e->step == 0) {                                                                      \
            if (e->out.st == 2) throw Exc{e->out.v};                                             \
            RET(e->out.v);                                                                       \
        }                                                                                        \
        Res r;                                                                                   \
        std::exception_ptr x;                                                                    \
        bool mv = e->step == 2;                                                                  \
        int s = e->islot;                                                                        \
        try {                                                                                    \
            if (e->index == TV) {                                                                \
                Val z = co_await (mv ? std::move(g->h[s].v) : stlab::copy(g->h[s].v));           \
                r = {1, z.v};                                                                    \
            } else if (e->index == TM) {                                                         \
                Mov z = co_await std::move(g->h[s].m);                                           \
                r = {1, z.v};                                                                    \
            } else {                                                                             \
                co_await (mv ? std::move(g->h[s].d) : stlab::copy(g->h[s].d));                   \
                r = {1, 0};                                                                      \
            }                                                                                    \
        } catch (...) {                                                                          \
            x = std::current_exception();                                                        \
            r = {2, exc_id(x)};                                                                  \
        }                                                                                        \
        if (resumed(k, r) && x) std::rethrow_exception(x);                                       \
    }
#define RET_T(v) co_return T(v)
#define RET_V(v) co_return
template <class T>
future<T> coro_t(int k) {
    CORO_BODY(RET_T)
}
static future<void> coro_d(int k) { CORO_BODY(RET_V) }

// ------------------------------------------------------------------------------------- operations
void Machine::op_make(bool pack) {
    int d = pick_slot_empty();
    if (d < 0 || !room()) return;
    int j = -1;
    if (pack) {
        for (int k = 0; k < kPts; ++k)
            if (pt[k].node < 0) j = k;
        if (j < 0) return;
    }
    Out o = pick_out();
    int e = pick_exec();
    int i = new_node(pack ? K_PACK : K_ASYNC, out_ty(o), e, -1);
    Node& x = n[i];
    x.reduced = out_red(o);
    x.fn_held = x.has_tok = true;
    x.handles = 1;
    x.args = int(c.src.draw(4));
    x.a0 = fresh();
    x.a1 = fresh();
    PBT_LOG(c, "slot " << d << " = " << (pack ? "package" : "async") << " node " << i << " out " << o << " args " << x.args << " exec " << e);
    set_slot(d, i, x.ty);
    busy[d] = true;
    MakeReq q{i, x.args, x.a0, x.a1, e, &h[d], pack ? &pt[j] : nullptr};
    packaged_task<> cap;
    if (cap_node < 0 && c.src.chance(pf.cap, 16))
        for (int k = 0; k < kPts; ++k)
            if (k != j && pt[k].node >= 0 && !pt[k].used && pt[k].args == 0) {
                PBT_LOG(c, "    captures the task of node " << pt[k].node);
                x.cap = pt[k].node;
                cap_node = i;
                cap = std::move(pt[k].p0);
                q.cap = &cap;
                pt[k].node = -1;
                break;
            }
    if (pack) {
        pt[j].node = i;
        pt[j].args = x.args;
        pt[j].used = false;
    } else
        submit(i);
    busy[d] = false;
    switch (o) {
        case OV: make_out<OV>(q); break;
        case OM: make_out<OM>(q); break;
        case OD: make_out<OD>(q); break;
        case OFV: make_out<OFV>(q); break;
        case OFM: make_out<OFM>(q); break;
        default: make_out<OFD>(q); break;
    }
}

void Machine::op_ready() {
    int d = pick_slot_empty();
    if (d < 0 || !room()) return;
    Ty t = Ty(c.src.weighted({7, pf.mv, 4}));
    int e = pick_exec();
    int w = int(c.src.weighted({6, 3, 2}));
    int i = new_node(K_READY, t, e, -1);
    n[i].handles = 1;
    n[i].res = w == 0 ? Res{1, t == TD ? 0 : fresh()} : w == 1 ? Res{2, fresh()} : Res{2, kBroken};
    set_slot(d, i, t);
    PBT_LOG(c, "slot " << d << " = ready node " << i << " type " << t << ": " << n[i].res);
    auto go = [&]<class T>(std::type_identity<T>) {
        href<T>(h[d]) = w == 0 ? ready_fut<T>(n[i].res.v, e) :
                        w == 1 ? stlab::make_exceptional_future<T>(exc(n[i].res.v), ex(e)) :
                                 stlab::future_with_broken_promise<T>(ex(e));
    };
    if (t == TV)
        go(std::type_identity<Val>{});
    else if (t == TM)
        go(std::type_identity<Mov>{});
    else
        go(std::type_identity<void>{});
}

// Many continuations of one future: those attached while it was pending and later.
void Machine::op_fan() {
    int s = pick_slot_full();
    if (s < 0 || h[s].ty == TM) return;
    int k = c.src.range(5, 12);
    while (k-- && h[s].node >= 0) {
        op_attach(c.src.chance(1, 4), s);
        settle("then of a fan");
    }
}

void Machine::op_attach(bool recover, int fan) {
    int s = fan >= 0 ? fan : pick_slot_full(), d = pick_slot_empty();
    if (s < 0 || !room()) return;
    Out o = pick_out();
    int p = h[s].node;
    AttachReq q{};
    q.recover = recover;
    q.rvalue = n[p].ty == TM || (fan < 0 && c.src.flip());
    q.has_exec = c.src.flip();
    q.op = c.src.flip();
    q.pair_rev = c.src.flip();
    q.exec = pick_exec();
    if (d < 0) {
        if (!q.rvalue) return;
        d = s;
    }
    int i = new_node(recover ? K_RECOVER : K_THEN, out_ty(o), q.has_exec ? q.exec : n[p].exec, p);
    Node& x = n[i];
    x.reduced = out_red(o);
    x.fn_held = x.has_tok = true;
    x.handles = 1;
    q.node = i;
    PBT_LOG(c, "slot " << d << " = node " << i << " out " << o << " " << (recover ? "recover" : "then") << " of slot " << s << " node " << p
                       << (q.rvalue ? " (moved)" : "") << " exec " << x.exec);
    Ty st = h[s].ty;
    if (q.rvalue) clear_slot_model(s);
    set_slot(d, i, x.ty);
    busy[d] = true;
    attach_cont(p, {C_NODE, i});
    busy[d] = false;
    Handle src, dst;
    src.ty = st;
    src.v = std::move(h[s].v);
    src.m = std::move(h[s].m);
    src.d = std::move(h[s].d);
    // operate on the slot itself unless it is also the destination
    Handle* sp = &src;
    if (s != d) {
        h[s].v = std::move(src.v);
        h[s].m = std::move(src.m);
        h[s].d = std::move(src.d);
        sp = &h[s];
    }
    Ty keep = sp->ty;
    sp->ty = st;
    q.src = sp;
    q.dst = &dst;
    switch (o) {
        case OV: attach_out<OV>(q); break;
        case OM: attach_out<OM>(q); break;
        case OD: attach_out<OD>(q); break;
        case OFV: attach_out<OFV>(q); break;
        case OFM: attach_out<OFM>(q); break;
        default: attach_out<OFD>(q); break;
    }
    if (sp != &src) sp->ty = keep;
    if (x.ty == TV)
        h[d].v = std::move(dst.v);
    else if (x.ty == TM)
        h[d].m = std::move(dst.m);
    else
        h[d].d = std::move(dst.d);
}

void Machine::op_run() {
    int tot = 0;
    for (int e = 1; e < kExecs; ++e) tot += int(mq[e].size());
    if (!tot) return;
    int k = int(c.src.draw(tot));
    for (int e = 1; e < kExecs; ++e) {
        if (k >= int(mq[e].size())) {
            k -= int(mq[e].size());
            continue;
        }
        int i = mq[e][k];
        mq[e].erase(mq[e].begin() + k);
        PBT_LOG(c, "run queued task of node " << i << " on executor " << e);
        run_task(i);
        Task t = std::move(q[e][k]);
        q[e].erase(q[e].begin() + k);
        std::move(t)();
        return;
    }
}

void Machine::op_drop() {
    int tot = 0;
    for (int e = 1; e < kExecs; ++e) tot += int(mq[e].size());
    if (!tot) return;
    int k = int(c.src.draw(tot));
    for (int e = 1; e < kExecs; ++e) {
        if (k >= int(mq[e].size())) {
            k -= int(mq[e].size());
            continue;
        }
        int i = mq[e][k];
        if (n[i].kind == K_ARG) return; // see known-findings.json
        mq[e].erase(mq[e].begin() + k);
        PBT_LOG(c, "executor " << e << " discards the task of node " << i);
        drop_task(i);
        Task t = std::move(q[e][k]);
        q[e].erase(q[e].begin() + k);
        return;
    }
}

void Machine::op_pt() {
    int j = int(c.src.draw(kPts));
    if (pt[j].node < 0) return;
    PtSlot& p = pt[j];
    int i = p.node;
    switch (c.src.weighted({8, 3, 3, 2, 3, 2})) {
        case 0: { // invoke (again)
            int v = fresh();
            PBT_LOG(c, "invoke task of node " << i);
            int w = fresh();
            if (!p.used) n[i].a0 = v, n[i].a1 = w;
            bool u = p.used;
            p.used = true;
            pbusy[j] = true;
            if (!u) run_task(i);
            pbusy[j] = false;
            if (p.args == 0)
                p.p0();
            else if (p.args == 1)
                p.p1(Val(v));
            else if (p.args == 2)
                p.p2(Mov(v));
            else
                p.p3(Val(v), Mov(w));
            break;
        }
        case 1: {
            int x = fresh();
            PBT_LOG(c, "set_exception " << x << " on task of node " << i);
            bool u = p.used;
            p.used = true;
            pbusy[j] = true;
            if (!u) drop_task(i, Res{2, x});
            pbusy[j] = false;
            if (p.args == 0)
                p.p0.set_exception(exc(x));
            else if (p.args == 1)
                p.p1.set_exception(exc(x));
            else if (p.args == 2)
                p.p2.set_exception(exc(x));
            else
                p.p3.set_exception(exc(x));
            break;
        }
        case 2: {
            PBT_LOG(c, "destroy task of node " << i);
            p.node = -1;
            if (!p.used) drop_task(i);
            pbusy[j] = true;
            if (p.args == 0)
                auto z = std::move(p.p0);
            else if (p.args == 1)
                auto z = std::move(p.p1);
            else if (p.args == 2)
                auto z = std::move(p.p2);
            else
                auto z = std::move(p.p3);
            pbusy[j] = false;
            break;
        }
        case 3: { // assign an empty task over it
            PBT_LOG(c, "reset task of node " << i);
            p.node = -1;
            if (!p.used) drop_task(i);
            if (p.args == 0)
                p.p0 = packaged_task<>();
            else if (p.args == 1)
                p.p1 = packaged_task<Val>();
            else if (p.args == 2)
                p.p2 = packaged_task<Mov>();
            else
                p.p3 = packaged_task<Val, Mov>();
            break;
        }
        case 4: { // move over another one, or into an empty place
            int k = int(c.src.draw(kPts));
            if (k == j || (pt[k].node >= 0 && pt[k].args != p.args)) return;
            PBT_LOG(c, "move task of node " << i << " over task of node " << pt[k].node);
            int old = pt[k].node;
            bool ou = pt[k].used;
            pt[k].node = i;
            pt[k].args = p.args;
            pt[k].used = p.used;
            p.node = -1;
            pbusy[j] = pbusy[k] = true;
            if (old >= 0 && !ou) drop_task(old);
            pbusy[j] = pbusy[k] = false;
            if (p.args == 0)
                pt[k].p0 = std::move(p.p0);
            else if (p.args == 1)
                pt[k].p1 = std::move(p.p1);
            else if (p.args == 2)
                pt[k].p2 = std::move(p.p2);
            else
                pt[k].p3 = std::move(p.p3);
            break;
        }
        default: { // hand it to an executor
            if (p.args != 0 || p.used) return;
            int e = 1 + int(c.src.draw(kExecs - 1));
            PBT_LOG(c, "queue task of node " << i << " on executor " << e);
            p.node = -1;
            mq[e].push_back(i);
            q[e].push_back(Task([z = std::move(p.p0)]() mutable noexcept { z(); }));
        }
    }
}

template <class T>
static void real_get(Machine& m, int s, const Res& r, bool try_) {
    future<T>& f = href<T>(m.h[s]);
    Res got;
    try {
        if constexpr (std::is_void_v<T>) {
            if (try_)
                got = std::move(f).get_try() ? Res{1, 0} : Res{};
            else {
                std::move(f).get_ready();
                got = {1, 0};
            }
        } else {
            if (try_) {
                auto o = std::move(f).get_try();
                got = o ? Res{1, o->v} : Res{};
            } else {
                T z = std::move(f).get_ready();
                got = {1, z.v};
            }
        }
    } catch (...) {
        got = {2, exc_id(std::current_exception())};
    }
    if (!(got == r)) {
        std::ostringstream o;
        o << (try_ ? "get_try" : "get_ready") << " on an rvalue of node " << m.h[s].node << " gave " << got << ", expected " << r;
        m.error(o.str());
    }
}

void Machine::op_handle() {
    int s = pick_slot_full();
    if (s < 0) return;
    Handle& a = h[s];
    switch (c.src.weighted({5, 4, 3, 5, 5, 2, 2})) {
        case 0: { // copy
            int d = pick_slot_empty();
            if (d < 0 || a.ty == TM) return;
            PBT_LOG(c, "slot " << d << " = copy of slot " << s << " node " << a.node);
            set_slot(d, a.node, a.ty);
            ++n[a.node].handles;
            if (c.src.flip()) {
                if (a.ty == TV)
                    h[d].v = a.v;
                else
                    h[d].d = a.d;
            } else {
                if (a.ty == TV)
                    h[d].v = future<Val>(a.v);
                else
                    h[d].d = future<void>(a.d);
            }
            break;
        }
        case 1: { // move / copy assignment over whatever is there
            int d = int(c.src.draw(kSlots));
            if (h[d].node >= 0 && h[d].ty != a.ty) return;
            bool cp = a.ty != TM && c.src.flip();
            if (d == s && !cp) return;
            PBT_LOG(c, "slot " << d << (cp ? " = slot " : " = move of slot ") << s << " node " << a.node << " over node " << h[d].node);
            int old = h[d].node;
            set_slot(d, a.node, a.ty);
            ++n[a.node].handles;
            if (old >= 0) --n[old].handles;
            busy[s] = busy[d] = true;
            reap();
            busy[s] = busy[d] = false;
            if (!cp) {
                --n[a.node].handles;
                a.node = -1;
            }
            if (a.ty == TV) {
                if (cp)
                    h[d].v = std::as_const(a.v);
                else
                    h[d].v = std::move(a.v);
            } else if (a.ty == TM)
                h[d].m = std::move(a.m);
            else {
                if (cp)
                    h[d].d = std::as_const(a.d);
                else
                    h[d].d = std::move(a.d);
            }
            break;
        }
        case 2: { // swap
            int d = pick_slot_full(a.ty);
            PBT_LOG(c, "swap slots " << s << " and " << d);
            std::swap(a.node, h[d].node);
            if (c.src.flip()) {
                swap(a.v, h[d].v);
                swap(a.m, h[d].m);
                swap(a.d, h[d].d);
            } else {
                a.v.swap(h[d].v);
                a.m.swap(h[d].m);
                a.d.swap(h[d].d);
            }
            break;
        }
        case 3: { // drop
            PBT_LOG(c, "reset slot " << s << " node " << a.node);
            clear_slot_model(s);
            bool as = c.src.flip();
            if (a.ty == TV) {
                if (as)
                    a.v = future<Val>();
                else
                    a.v.reset();
            } else if (a.ty == TM) {
                if (as)
                    a.m = future<Mov>();
                else
                    a.m.reset();
            } else {
                if (as)
                    a.d = future<void>();
                else
                    a.d.reset();
            }
            break;
        }
        case 4: { // read as rvalue; the handle is given up when it was ready
            Res r = n[a.node].res;
            bool t = !r.st || c.src.flip();
            PBT_LOG(c, "rvalue " << (t ? "get_try" : "get_ready") << " of slot " << s << " node " << a.node);
            if (a.ty == TV)
                real_get<Val>(*this, s, r, t);
            else if (a.ty == TM)
                real_get<Mov>(*this, s, r, t);
            else
                real_get<void>(*this, s, r, t);
            if (r.st) {
                clear_slot_model(s);
                a.v.reset();
                a.m.reset();
                a.d.reset();
            }
            break;
        }
        case 5: { // lvalue get_try of a pending move-only future must not disturb it
            if (a.ty != TM || n[a.node].res.st) return;
            if (std::as_const(a.m).get_try()) error("get_try of a pending future returned a value");
            break;
        }
        default: { // move construct and back
            PBT_LOG(c, "move slot " << s << " out and back");
            future<Val> v(std::move(a.v));
            future<Mov> m(std::move(a.m));
            future<void> d(std::move(a.d));
            if (a.v.valid() || a.m.valid() || a.d.valid()) error("a moved-from future is still valid");
            a.v = std::move(v);
            a.m = std::move(m);
            a.d = std::move(d);
        }
    }
}

void Machine::op_detach(bool f) {
    int s = pick_slot_full();
    if (s < 0) return;
    int i = h[s].node;
    const Ty ty = h[s].ty;
    ++n_det;
    if (!f) {
        PBT_LOG(c, "detach() slot " << s << " node " << i);
        if (n[i].res.st == 0) n[i].detached = true;
        if (h[s].ty == TV)
            h[s].v.detach();
        else if (h[s].ty == TM)
            h[s].m.detach();
        else
            h[s].d.detach();
        return;
    }
    int d = int(det_live.size());
    det_live.push_back(0);
    det_node.push_back(i);
    det_done.push_back(0);
    PBT_LOG(c, "detach(callback " << d << ") slot " << s << " node " << i);
    ++n[i].pin;
    clear_slot_model(s);
    attach_cont(i, {C_DETACH, d});
    --n[i].pin;
    if (ty == TV) {
        auto t = std::move(h[s].v);
        std::move(t).detach(DetFn<Val>(d));
    } else if (ty == TM) {
        auto t = std::move(h[s].m);
        std::move(t).detach(DetFn<Mov>(d));
    } else {
        auto t = std::move(h[s].d);
        std::move(t).detach(DetFn<void>(d));
    }
}

void Machine::op_coro() {
    int d = pick_slot_empty();
    if (d < 0 || !room()) return;
    Ty t = Ty(c.src.weighted({6, pf.mv, 4}));
    int i = new_node(K_CORO, t, 0, -1);
    int k = int(co.size());
    co.push_back({i, int(c.src.draw(4)), false});
    coro_live.push_back(0);
    coro_done.push_back(0);
    n[i].handles = 1;
    set_slot(d, i, t);
    PBT_LOG(c, "slot " << d << " = coroutine " << k << " node " << i << " type " << t);
    busy[d] = true;
    advance(k);
    busy[d] = false;
    ++n_coro;
    if (t == TV) {
        auto f = coro_t<Val>(k);
        h[d].v = std::move(f);
    } else if (t == TM) {
        auto f = coro_t<Mov>(k);
        h[d].m = std::move(f);
    } else {
        auto f = coro_d(k);
        h[d].d = std::move(f);
    }
}

void Machine::op_combo() {
    int d = pick_slot_empty();
    if (d < 0 || !room()) return;
    ComboReq q;
    q.kind = Combo(c.src.draw(4));
    q.exec = pick_exec();
    std::vector<Ty> ty;
    if (q.kind == ALL_T) {
        q.sig = int(c.src.draw(kAllSigs));
        ty = all_sig(q.sig);
    } else if (q.kind == ANY_T) {
        q.sig = int(c.src.draw(kAnySigs));
        ty = any_sig(q.sig);
    } else {
        q.sig = int(c.src.weighted({6, 3, 3}));
        ty.assign(c.src.chance(1, 8) ? 6 + c.src.draw(15) : c.src.draw(6), Ty(q.sig));
    }
    Ty rt = Ty(c.src.weighted({8, 2, 2}));
    bool red = (q.kind == ALL_R || q.kind == ANY_R) && q.sig == 0 && c.src.chance(1, 6);
    if (red) rt = TV;
    if ((q.kind == ALL_T || q.kind == ANY_T) && q.sig != 0) rt = TV;
    q.out = Out(int(rt) + (red ? 3 : 0));
    // inputs
    std::vector<int> in(ty.size());
    q.in.resize(ty.size());
    std::string s;
    for (std::size_t i = 0; i < ty.size(); ++i) {
        int sl = c.src.chance(7, 8) ? pick_slot_full(ty[i]) : -1;
        q.in[i].ty = ty[i];
        if (sl >= 0) {
            in[i] = h[sl].node;
            bool mv = ty[i] == TM || c.src.flip();
            if (ty[i] == TV)
                q.in[i].v = mv ? std::move(h[sl].v) : h[sl].v;
            else if (ty[i] == TM)
                q.in[i].m = std::move(h[sl].m);
            else
                q.in[i].d = mv ? std::move(h[sl].d) : h[sl].d;
            if (mv)
                h[sl].node = -1;
            else
                ++n[in[i]].handles;
        } else {
            int x = in[i] = new_node(K_READY, ty[i], 0, -1);
            n[x].handles = 1;
            n[x].res = c.src.chance(3, 4) ? Res{1, ty[i] == TD ? 0 : fresh()} : Res{2, fresh()};
            auto go = [&]<class T>(std::type_identity<T>) {
                href<T>(q.in[i]) = n[x].res.st == 1 ? ready_fut<T>(n[x].res.v, 0) :
                                                      stlab::make_exceptional_future<T>(exc(n[x].res.v), ex(0));
            };
            if (ty[i] == TV)
                go(std::type_identity<Val>{});
            else if (ty[i] == TM)
                go(std::type_identity<Mov>{});
            else
                go(std::type_identity<void>{});
        }
        s += " " + std::to_string(in[i]);
    }
    static const char* names[] = {"when_all tuple", "when_all range", "when_any tuple", "when_any range"};
    int w = new_node(K_W, rt, q.exec, -1);
    PBT_LOG(c, "slot " << d << " = " << names[q.kind] << " node " << w << " of nodes" << s << " exec " << q.exec);
    ++n_comb;
    q.node = w;
    n[w].reduced = red;
    n[w].handles = 1;
    set_slot(d, w, rt);
    busy[d] = true;
    if (ty.empty() && q.kind == ANY_R) {
        n[w].kind = K_READY;
        n[w].res = {2, kBroken};
    } else {
        int k = int(ctx.size());
        ctx.emplace_back();
        Ctx& x = ctx[k];
        x.kind = q.kind;
        x.w = w;
        x.pin = 1;
        x.remaining = ty.size();
        x.hold.assign(ty.size(), 0);
        x.arg.assign(std::max<std::size_t>(1, q.kind == ALL_T || q.kind == ALL_R ? ty.size() : 1), 0);
        x.argty = ty;
        if (ty.empty()) x.arg.clear();
        n[w].ctx = k;
        n[w].fn_held = n[w].has_tok = true;
        if (ty.empty())
            submit(w);
        bool keep = (q.kind == ALL_R || q.kind == ANY_R) && !ty.empty() && ty[0] == TV; // the other ranges are moved from
        for (std::size_t i = 0; i < ty.size(); ++i) {
            int r = new_node(K_ARG, TD, q.exec, in[i]);
            n[r].ctx = k;
            n[r].idx = int(i);
            n[r].fn_held = true;
            ++n[r].pin;
            x.r.push_back(r);
            ++n[in[i]].pin;
            if (!keep) --n[in[i]].handles;
            attach_cont(in[i], {C_NODE, r});
            --n[in[i]].pin;
            x.hold[i] = 1;
            --n[r].pin;
            reap();
        }
        --x.pin;
        reap();
        if (keep)
            for (std::size_t i = 0; i < ty.size(); ++i) --n[in[i]].handles;
        reap();
    }
    busy[d] = false;
    if (n[w].kind == K_READY)
        for (int i : in) --n[i].handles;
    reap();
    Handle dst;
    real_combo(q, dst);
    if (rt == TV)
        h[d].v = std::move(dst.v);
    else if (rt == TM)
        h[d].m = std::move(dst.m);
    else
        h[d].d = std::move(dst.d);
}

// ------------------------------------------------------------------------------------ comparison
void Machine::settle(const char* what) {
    ++checks;
    if (ambiguous) throw Abandon{};
    if (cap_node >= 0) reap();
    if (err.empty() && evpos != ev.size()) {
        std::ostringstream o;
        o << (ev[evpos].kind == E_INVOKE ? "the function of node " : ev[evpos].kind == E_DETACH ? "detach callback " : "coroutine ") << ev[evpos].id
          << " was not called when the model expects it";
        error(o.str());
    }
    ev.clear();
    evpos = 0;
    if (!err.empty()) PBT_FAIL(c, "after " << what << ": " << err);
    for (int e = 1; e < kExecs; ++e)
        PBT_CHECK(c, q[e].size() == mq[e].size(),
                  "after " << what << ": executor " << e << " holds " << q[e].size() << " tasks, expected " << mq[e].size());
    for (int i = 0; i < int(n.size()); ++i) {
        int want = n[i].has_tok && n[i].fn_held && alive(i) ? 1 : 0;
        PBT_CHECK(c, tok_live[i] == want,
                  "after " << what << ": " << tok_live[i] << " instances of the function of node " << i << " exist, expected " << want);
    }
    for (std::size_t d = 0; d < det_live.size(); ++d)
        PBT_CHECK(c, det_live[d] == (det_done[d] ? 0 : 1), "after " << what << ": detach callback " << d << " has " << det_live[d] << " instances");
    for (std::size_t k = 0; k < coro_live.size(); ++k)
        PBT_CHECK(c, coro_live[k] == (coro_done[k] ? 0 : 1), "after " << what << ": coroutine " << k << " has " << coro_live[k] << " frames, done "
                                                                      << int(coro_done[k]));
    for (int j = 0; j < kPts; ++j) {
        bool want = pt[j].node < 0 || pt[j].used || !alive(pt[j].node);
        bool got = true;
        if (pt[j].node < 0)
            got = pt[j].p0.canceled() && pt[j].p1.canceled() && pt[j].p2.canceled() && pt[j].p3.canceled();
        else
            got = pt[j].args == 0 ? pt[j].p0.canceled() : pt[j].args == 1 ? pt[j].p1.canceled() : pt[j].args == 2 ? pt[j].p2.canceled() : pt[j].p3.canceled();
        PBT_CHECK(c, got == want, "after " << what << ": task of node " << pt[j].node << " reports canceled=" << got << ", expected " << want);
    }
    for (int i = 0; i < kSlots; ++i) {
        Handle& a = h[i];
        auto one = [&]<class T>(std::type_identity<T>) {
            future<T>& f = href<T>(a);
            const bool mine = a.node >= 0 && a.ty == ty_of<T>::value;
            PBT_CHECK(c, f.valid() == mine, "after " << what << ": slot " << i << " valid=" << f.valid() << ", expected " << mine);
            if (!mine) {
                PBT_CHECK(c, !f.is_ready(), "an empty future is ready");
                return;
            }
            Res want = n[a.node].res, got;
            PBT_CHECK(c, f.is_ready() == (want.st != 0),
                      "after " << what << ": future of node " << a.node << " is_ready=" << f.is_ready() << ", expected " << want);
            if (want.st) {
                auto x = f.exception();
                auto d = f.error(); // the deprecated spelling
                PBT_CHECK(c, d.has_value() == bool(x) && (!d || *d == x), "after " << what << ": future of node " << a.node << ": error() does not agree with exception()");
                PBT_CHECK(c, bool(x) == (want.st == 2), "after " << what << ": future of node " << a.node << " has exception=" << bool(x) << ", expected " << want);
                if (x) {
                    got = {2, exc_id(x)};
                    PBT_CHECK(c, got == want, "after " << what << ": future of node " << a.node << " holds " << got << ", expected " << want);
                    return;
                }
            }
            if constexpr (std::is_same_v<T, Val>) {
                auto o = std::as_const(f).get_try();
                got = o ? Res{1, o->v} : Res{};
                PBT_CHECK(c, got == want, "after " << what << ": future of node " << a.node << " holds " << got << ", expected " << want);
                if (o && (checks & 1)) {
                    Val z = std::as_const(f).get_ready();
                    PBT_CHECK(c, z.v == want.v, "after " << what << ": get_ready of node " << a.node << " gave " << z.v << ", expected " << want);
                }
            } else if constexpr (std::is_void_v<T>) {
                PBT_CHECK(c, std::as_const(f).get_try() == (want.st == 1), "after " << what << ": get_try of void node " << a.node);
            }
        };
        one(std::type_identity<Val>{});
        one(std::type_identity<Mov>{});
        one(std::type_identity<void>{});
        if (i) {
            Handle& b = h[i - 1];
            if (a.ty == b.ty && a.node >= 0 && b.node >= 0) {
                bool eq = a.ty == TV ? a.v == b.v : a.ty == TM ? a.m == b.m : a.d == b.d;
                PBT_CHECK(c, eq == (a.node == b.node), "operator== of futures");
            }
        }
    }
}

void Machine::step() {
    const char* what = "";
    switch (c.src.weighted({pf.run, pf.make, pf.pack, pf.then, pf.recover, pf.ready, pf.handle, pf.pt, pf.drop, pf.detach, pf.detachf, pf.combo, pf.coro})) {
        case 0: what = "run"; op_run(); break;
        case 1: what = "async"; op_make(false); break;
        case 2: what = "package"; op_make(true); break;
        case 3:
            what = "then";
            c.src.chance(1, 24) ? op_fan() : op_attach(false);
            break;
        case 4: what = "recover"; op_attach(true); break;
        case 5: what = "ready future"; op_ready(); break;
        case 6: what = "handle operation"; op_handle(); break;
        case 7: what = "packaged task operation"; op_pt(); break;
        case 8: what = "discard"; op_drop(); break;
        case 9: what = "detach()"; op_detach(false); break;
        case 10: what = "detach(f)"; op_detach(true); break;
        case 11: what = "when_all/when_any"; op_combo(); break;
        default: what = "coroutine"; op_coro(); break;
    }
    settle(what);
}

void Machine::run_program() {
    int ops = c.src.range(3, 40);
    for (int i = 0; i < ops; ++i) step();
    if (c.src.flip()) {
        // run everything that is queued
        for (int k = 0; k < 400 && mq[1].size() + mq[2].size(); ++k) {
            op_run();
            settle("run");
        }
    }
    // give everything up in a random order
    pf.acts = 0;
    pf.combo = pf.coro = 0;
    for (int round = 0; round < 4; ++round) {
        for (int s = 0; s < kSlots; ++s) {
            int i = int((s + c.src.draw(kSlots)) % kSlots);
            if (h[i].node < 0) continue;
            clear_slot_model(i);
            h[i].v.reset();
            h[i].m.reset();
            h[i].d.reset();
            settle("drop of a future");
        }
        for (int s = 0; s < kSlots; ++s)
            if (h[s].node >= 0) {
                clear_slot_model(s);
                h[s].v.reset();
                h[s].m.reset();
                h[s].d.reset();
            }
        settle("drop of a future");
        for (int j = 0; j < kPts; ++j)
            if (pt[j].node >= 0) {
                int i = pt[j].node;
                pt[j].node = -1;
                if (!pt[j].used) drop_task(i);
                {
                    auto a = std::move(pt[j].p0);
                }
                {
                    auto a = std::move(pt[j].p1);
                }
                {
                    auto a = std::move(pt[j].p2);
                }
                {
                    auto a = std::move(pt[j].p3);
                }
                settle("destruction of a task");
            }
        while (mq[1].size() + mq[2].size()) {
            for (int e = 1; e < kExecs; ++e) {
                if (mq[e].empty()) continue;
                int i = mq[e].front();
                mq[e].pop_front();
                bool run = n[i].kind == K_ARG;
                if (run)
                    run_task(i);
                else
                    drop_task(i);
                Task t = std::move(q[e].front());
                q[e].pop_front();
                if (run) std::move(t)();
                t = Task();
                settle("discard");
            }
        }
    }
    for (auto d : det_done) PBT_CHECK(c, d, "a detach callback was never called (model)");
    for (auto k : coro_done) PBT_CHECK(c, k, "a coroutine never finished (model)");
    for (int i = 0; i < int(n.size()); ++i) PBT_CHECK(c, tok_live[i] == 0, "function of node " << i << " leaked");
    PBT_CHECK(c, live_vals == 0, live_vals << " values are still alive after all futures and tasks are gone");
    if (n_pendattach) c.tag("attached while pending");
    if (n_cancel) c.tag("cancelled task run");
    if (n_exc) c.tag("exception");
    if (n_broken) c.tag("broken promise");
    if (n_red) c.tag("reduced");
    if (n_comb) c.tag("when_all/when_any");
    if (n_det) c.tag("detach");
    if (n_coro) c.tag("coroutine");
    if (n_cap) c.tag("captured task destroyed");
    c.tag("user calls", n_cb);
}

Machine::~Machine() {
    // also when a case failed or was abandoned: callbacks see no expected event and do nothing
    ev.clear();
    evpos = 0;
    for (int round = 0; round < 6; ++round) {
        for (auto& x : h) {
            auto v = std::move(x.v);
            auto m = std::move(x.m);
            auto d = std::move(x.d);
        }
        for (auto& p : pt) {
            auto a = std::move(p.p0);
            auto b = std::move(p.p1);
            auto z = std::move(p.p2);
            auto y = std::move(p.p3);
        }
        for (int e = 0; e < kExecs; ++e)
            while (!q[e].empty()) {
                Task t = std::move(q[e].front());
                q[e].pop_front();
                if (round < 3) std::move(t)();
            }
    }
    live_vals = 0;
    g = nullptr;
}

} // namespace fm

using namespace fm;

static void run(pbt::Case& c, Profile p, const char* need) {
    Machine m(c, p);
    try {
        m.run_program();
    } catch (Machine::Abandon) {
        c.tag("abandoned: simultaneous deaths");
    }
    int k = m.n_cb >= 3 && m.n_pendattach >= 1;
    std::string w = need;
    if (w == "cancel") k = k && m.n_cancel;
    if (w == "broken") k = k && m.n_broken;
    if (w == "detach") k = k && m.n_det;
    if (w == "reduced") k = k && m.n_red;
    if (w == "combo") k = k && m.n_comb;
    if (w == "coro") k = k && m.n_coro;
    if (w == "exc") k = k && m.n_exc;
    c.nontrivial = k;
}

PBT_PROP(F01, "at least 3 user functions called, a continuation attached to a pending future and an exception raised") {
    Profile p;
    p.detach = p.detachf = 1;
    p.drop = 1;
    run(c, p, "exc");
}
PBT_PROP(F02, "at least 3 user functions called and a continuation attached to a pending future") {
    Profile p;
    p.then = 22;
    p.combo = 3;
    p.acts = 10;
    run(c, p, "");
}
PBT_PROP(F03, "at least 3 user functions called and a promise broken") {
    Profile p;
    p.drop = 8;
    p.pt = 16;
    p.combo = 1;
    run(c, p, "broken");
}
PBT_PROP(F04, "at least 3 user functions called and a cancelled task executed") {
    Profile p;
    p.handle = 26;
    p.pt = 12;
    p.combo = 5;
    run(c, p, "cancel");
}
PBT_PROP(F05, "at least 3 user functions called and a detach") {
    Profile p;
    p.detach = 8;
    p.detachf = 10;
    p.combo = 3;
    run(c, p, "detach");
}
PBT_PROP(F06, "at least 3 user functions called and a future returned from a function") {
    Profile p;
    p.reduce = 11;
    p.combo = 2;
    run(c, p, "reduced");
}
PBT_PROP(F07, "at least 3 user functions called and a when_all/when_any built") {
    Profile p;
    p.combo = 14;
    p.cap = 11;
    p.pack = 12;
    p.reduce = 1;
    run(c, p, "combo");
}
PBT_PROP(F08, "at least 3 user functions called and a when_all/when_any built") {
    Profile p;
    p.combo = 14;
    p.drop = 6;
    p.ready = 8;
    p.cap = 11;
    p.pack = 12;
    p.reduce = 1;
    run(c, p, "combo");
}
PBT_PROP(F09, "at least 3 user functions called and a continuation attached to a pending future") {
    Profile p;
    p.mv = 8;
    p.handle = 24;
    p.combo = 3;
    run(c, p, "");
}
PBT_PROP(F12, "at least 3 user calls and a coroutine") {
    Profile p;
    p.coro = 16;
    p.combo = 2;
    run(c, p, "coro");
}
