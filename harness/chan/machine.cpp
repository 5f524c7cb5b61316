#include "ops.hpp"

#include <algorithm>

namespace ch {

World* g = nullptr;

std::string show(const Item& i) {
    return (i.err ? "error " : "value ") + std::to_string(i.node) + "." + std::to_string(i.seq);
}
static const char* kname(Kind k) {
    static const char* n[] = {"source", "generator", "fn", "process", "process-", "function_process", "sink", "zip", "zip process", "round robin", "unordered"};
    return n[k];
}
static std::string nm(const Node& n) { return std::string(kname(n.kind)) + " #" + std::to_string(n.id); }

stlab::executor_t World::executor(int e) {
    if (immediate(e))
        return [this, e](auto&& t) {
            auto x = std::forward<decltype(t)>(t);
            cur.push_back(e);
            x();
            cur.pop_back();
        };
    return [this, e](auto&& t) { ex[std::size_t(e)].emplace_back(std::forward<decltype(t)>(t)); };
}

// ------------------------------------------------------------------ called by processes
bool World::next_is_error(const Node& n, std::size_t i) {
    Node& up = nodes[std::size_t(n.ups[i])];
    return ensure_out(up.id, n.pos[i]) && up.outs[n.pos[i]].err;
}

// The item exists, possibly after passing on the errors a function process must already have seen.
bool World::ensure_out(int id, std::size_t idx) {
    Node& up = nodes[std::size_t(id)];
    while (up.outs.size() <= idx && up.functor() && started(id) && forward(up)) {}
    return up.outs.size() > idx;
}

// A function process passes an error on in the place of its result.
bool World::forward(Node& n) {
    if (n.kind == K_ZIP) {
        int err = -1;
        for (std::size_t i = 0; i < n.ups.size(); ++i) {
            if (!ensure_out(n.ups[i], n.pos[i])) return false;
            if (err < 0 && next_is_error(n, i)) err = int(i);
        }
        if (err < 0) return false;
        n.outs.push_back(nodes[std::size_t(n.ups[std::size_t(err)])].outs[n.pos[std::size_t(err)]]);
        for (auto& p : n.pos) ++p;
        return true;
    }
    if (n.kind == K_UN) return false; // errors are not generated upstream of unordered merges
    std::size_t i = n.kind == K_RR ? n.rr : 0;
    if (!next_is_error(n, i)) return false;
    n.outs.push_back(nodes[std::size_t(n.ups[i])].outs[n.pos[i]]);
    ++n.pos[i];
    if (n.kind == K_RR) n.rr = (n.rr + 1) % n.ups.size();
    return true;
}

void World::take(Node& n, std::size_t i, const Item& got) {
    Node& up = nodes[std::size_t(n.ups[i])];
    if (!ensure_out(up.id, n.pos[i])) {
        bad(nm(n) + " was given " + show(got) + ", but " + nm(up) + " has not produced that much");
        return;
    }
    const Item& want = up.outs[n.pos[i]];
    if (!(want == got)) bad(nm(n) + " was given " + show(got) + " instead of " + show(want) + " (item " + std::to_string(n.pos[i]) + " of " + nm(up) + ")");
    ++n.pos[i];
    ++consumed;
}

void World::consume_value(Node& n, const std::vector<Item>& got) {
    if (c.logging) {
        std::string t;
        for (auto& x : got) t += " " + show(x);
        PBT_LOG(c, "      " << nm(n) << " <-" << t);
    }
    if (n.functor() && n.kind != K_UN)
        while (forward(n)) {}
    if (n.skips_errors())
        while (next_is_error(n, 0)) ++n.pos[0];
    if (n.kind == K_ZIP || n.kind == K_ZIPAY) {
        for (std::size_t i = 0; i < got.size(); ++i) take(n, i, got[i]);
    } else if (n.kind == K_RR) {
        take(n, n.rr, got[0]);
        n.rr = (n.rr + 1) % n.ups.size();
    } else if (n.kind == K_UN) {
        for (std::size_t i = 0; i < n.ups.size(); ++i)
            if (ensure_out(n.ups[i], n.pos[i]) && nodes[std::size_t(n.ups[i])].outs[n.pos[i]] == got[0]) {
                ++n.pos[i];
                ++consumed;
                return;
            }
        bad(nm(n) + " was given " + show(got[0]) + ", which is not the next item of any of its inputs");
    } else
        take(n, 0, got[0]);
}

void World::consume_error(Node& n, const Item& got) {
    PBT_LOG(c, "      " << nm(n) << " <- " << show(got));
    if (n.kind == K_ZIPAY) {
        bool seen = false;
        for (std::size_t i = 0; i < n.ups.size(); ++i) {
            bool e = next_is_error(n, i);
            if (e && !seen) {
                seen = true;
                take(n, i, got);
            } else if (ensure_out(n.ups[i], n.pos[i]))
                ++n.pos[i];
            else
                bad(nm(n) + " was given " + show(got) + " before all of its inputs had an item");
        }
        if (!seen) bad(nm(n) + " was given " + show(got) + " but none of its inputs has an error next");
        return;
    }
    take(n, 0, got);
}

Item World::produce(Node& n) {
    Item i{false, n.id, int(n.outs.size())};
    if (n.throw_mod && n.throw_where == 0 && (i.seq + n.k) % n.throw_mod == 0) i.err = true;
    n.outs.push_back(i);
    PBT_LOG(c, "      " << nm(n) << " -> " << show(i));
    if (i.err) throw PErr{i.node, i.seq};
    return i;
}

void World::enter(Node& n, const char* what) {
    ++n.calls;
    if (n.in_call) bad(nm(n) + " was entered (" + what + ") while it was already running");
    ++n.in_call;
    if (cur.empty())
        bad(nm(n) + " was called outside of its executor");
    else if (cur.back() != n.ex)
        bad(nm(n) + " ran on executor " + std::to_string(cur.back()) + " instead of " + std::to_string(n.ex));
    if (!started(n.id)) bad(nm(n) + " ran (" + what + ") before its receiver was set ready");
}
void World::leave(Node& n) { --n.in_call; }

void World::interleave() {
    if (quiet || depth >= 3 || budget <= 0) return;
    if (!c.src.chance(1, 5)) return;
    ++depth;
    if (c.src.chance(1, 3) && nested_op)
        nested_op();
    else if (!idle())
        step();
    --depth;
}

void ay_await(Node& n, const std::vector<Item>& in) {
    Enter e(n, "await");
    if (n.pending) g->bad(nm(n) + ": await was called while its state is yield");
    if (n.closed) g->bad(nm(n) + ": await was called after close");
    g->consume_value(n, in);
    g->interleave();
    ++n.count;
    if (n.throw_mod && n.throw_where == 1 && n.count % n.throw_mod == 0) {
        Item i{true, n.id, int(n.outs.size())};
        n.outs.push_back(i);
        PBT_LOG(g->c, "      " << nm(n) << " -> " << show(i) << " from await");
        throw PErr{i.node, i.seq};
    }
    if (n.mode == 0)
        n.pending = n.count % n.k == 0 ? 1 : 0;
    else
        n.pending = n.k;
}
Item ay_yield(Node& n) {
    Enter e(n, "yield");
    if (n.pending <= 0)
        g->bad(nm(n) + ": yield was called while its state is await");
    else
        --n.pending;
    g->interleave();
    return g->produce(n);
}
stlab::process_state_scheduled ay_state(const Node& n) {
    return n.pending > 0 ? stlab::yield_immediate : stlab::await_forever;
}
void ay_close(Node& n) {
    Enter e(n, "close");
    PBT_LOG(g->c, "      " << nm(n) << " closes");
    if (n.closed) g->bad(nm(n) + ": close was called twice");
    if (n.pending) g->bad(nm(n) + ": close was called while its state is yield");
    g->in_close = true;
    bool end = g->inputs_ended(n) || g->inputs_ended_but_errors(n);
    g->in_close = false;
    if (!end) g->bad(nm(n) + ": close was called while more values are coming");
    n.closed = true;
    n.pending = n.flush;
    g->interleave();
}
void ay_error(Node& n, std::exception_ptr p) {
    Enter e(n, "set_error");
    if (n.closed) g->bad(nm(n) + ": set_error was called after close");
    if (n.pending) g->bad(nm(n) + ": set_error was called while its state is yield");
    Item i{true, -1, -1};
    try {
        if (p) std::rethrow_exception(p);
        g->bad(nm(n) + " was given a null exception");
    } catch (const PErr& x) {
        i = Item{true, x.node, x.seq};
    } catch (...) {
        g->bad(nm(n) + " was given an exception nobody threw");
    }
    g->consume_error(n, i);
    g->interleave();
    n.pending = n.on_error;
}

// ------------------------------------------------------------------ model
bool World::alive(int id) const {
    if (ops->has_handle(id)) return true;
    for (auto& k : nodes[std::size_t(id)].kids)
        if (alive(k.first)) return true;
    return false;
}
bool World::started(int id) const {
    for (auto& r : ops->ri)
        if (r.node == id && !r.ready && !r.is_void) return false;
    return true;
}
bool World::inputs_ended(const Node& n) {
    if (n.ups.empty()) return false;
    for (int u : n.ups)
        if (!ended(u)) return false;
    auto left = [&](std::size_t i) { return nodes[std::size_t(n.ups[i])].outs.size() > n.pos[i]; };
    if (n.kind == K_RR) return !left(n.rr);
    bool any = false, all = true;
    for (std::size_t i = 0; i < n.ups.size(); ++i) {
        bool l = left(i);
        any = any || l;
        all = all && l;
    }
    if (n.kind == K_ZIP || n.kind == K_ZIPAY) return !all;
    return !any;
}
bool World::ended(int id) {
    const Node& n = nodes[std::size_t(id)];
    if (!started(id) || (!in_close && full_kid(n))) return false;
    if (n.kind == K_SRC) {
        for (auto& s : ops->si)
            if (s.node == id) return false;
        return true;
    }
    if (n.kind == K_GEN) return false;
    if (n.has_close()) return n.closed && !n.pending;
    return inputs_ended(n) && !n.pending;
}
std::size_t World::max_pos(const Node& n) {
    std::size_t m = 0;
    for (auto& k : n.kids) m = std::max(m, nodes[std::size_t(k.first)].pos[std::size_t(k.second)]);
    return m;
}
// Delivered for certain.
bool World::has_item(const Node& n, std::size_t i, int deep) {
    const Node& up = nodes[std::size_t(n.ups[i])];
    if (up.outs.size() <= n.pos[i]) return false;
    if (up.kind != K_SRC) return true;
    if (n.pos[i] < max_pos(up)) return true;
    return started(up.id) && !full_kid(up, deep + 1);
}
bool World::can_take(const Node& n, std::size_t i, int deep) {
    if (deep > 4 || !started(n.id) || full_kid(n, deep + 1)) return false;
    if (n.kind == K_ZIP || n.kind == K_ZIPAY) {
        for (std::size_t j = 0; j < n.ups.size(); ++j)
            if (j != i && !has_item(n, j, deep + 1)) return false;
    }
    if (n.kind == K_RR) return n.rr == i;
    return true;
}
std::size_t World::qlen(const Node& n, std::pair<int, int> kid) {
    std::size_t p = nodes[std::size_t(kid.first)].pos[std::size_t(kid.second)];
    return n.outs.size() > p ? n.outs.size() - p : 0;
}
bool World::full_kid(const Node& n, int deep) {
    if (deep > 5) return true;
    for (auto& k : n.kids) {
        const Node& kid = nodes[std::size_t(k.first)];
        if (kid.buf > 0 && alive(kid.id) && qlen(n, k) >= std::size_t(kid.buf) && !can_take(kid, std::size_t(k.second), deep + 1)) return true;
    }
    return false;
}
bool World::avail(const Node& n) {
    if (n.ups.empty()) return false;
    if (n.kind == K_RR) return has_item(n, n.rr, 0);
    bool any = false, all = true;
    for (std::size_t i = 0; i < n.ups.size(); ++i) {
        bool h = has_item(n, i, 0);
        any = any || h;
        all = all && h;
    }
    return n.kind == K_ZIP || n.kind == K_ZIPAY ? all : any;
}
bool World::work(const Node& n) {
    if (n.kind == K_SRC) return false;
    if (n.pending) return true;
    if (avail(n)) return true;
    return n.has_close() && !n.closed && inputs_ended(n);
}
void World::check_bounds() {
    for (auto& n : nodes)
        for (auto& k : n.kids) {
            const Node& kid = nodes[std::size_t(k.first)];
            if (!kid.buf || !alive(kid.id)) continue;
            if (opt.errors && (kid.kind == K_ZIP || kid.kind == K_RR)) continue; // errors they pass on are not observed
            std::size_t q = qlen(n, k), lim = std::size_t(kid.buf) + (kid.kind == K_FP ? 1 : 0);
            if (n.kind == K_SRC) {
                std::size_t p = kid.pos[std::size_t(k.second)], m = max_pos(n);
                q = m > p ? m - p : 0;
            }
            // errors at the front may have been passed on already
            for (std::size_t i = kid.pos[std::size_t(k.second)]; q && !kid.has_set_error() && n.outs[i].err; ++i) --q;
            if (q > lim) bad(std::to_string(q) + " values wait in front of " + nm(kid) + ", whose buffer size is " + std::to_string(kid.buf));
        }
}
// Nothing is queued: sources have delivered, and errors have been passed on or dropped, as far as the
// buffers allow.
void World::settle_errors() {
    std::map<int, std::size_t> given;
    for (auto& n : nodes)
        if (n.kind == K_SRC) given[n.id] = max_pos(n);
    auto room = [&](const Node& n, std::size_t made) {
        for (auto& k : n.kids) {
            const Node& kid = nodes[std::size_t(k.first)];
            std::size_t p = kid.pos[std::size_t(k.second)];
            if (kid.buf > 0 && alive(kid.id) && made >= p + std::size_t(kid.buf)) return false;
        }
        return true;
    };
    auto front = [&](const Node& n, std::size_t i) -> const Item* {
        const Node& up = nodes[std::size_t(n.ups[i])];
        std::size_t made = up.kind == K_SRC ? given[up.id] : up.outs.size();
        return n.pos[i] < made ? &up.outs[n.pos[i]] : nullptr;
    };
    for (bool again = true; again;) {
        again = false;
        for (auto& n : nodes) {
            if (!alive(n.id) || !started(n.id)) continue;
            if (n.kind == K_SRC) {
                while (given[n.id] < n.outs.size() && room(n, given[n.id])) {
                    ++given[n.id];
                    again = true;
                }
                continue;
            }
            if (n.ups.empty() || !room(n, n.outs.size())) continue;
            if (n.skips_errors()) {
                const Item* f = front(n, 0);
                if (f && f->err) {
                    ++n.pos[0];
                    again = true;
                }
            } else if (n.functor() && n.kind != K_UN) {
                bool err = false, all = true;
                for (std::size_t i = 0; i < n.ups.size(); ++i) {
                    if (n.kind == K_RR && i != n.rr) continue;
                    const Item* f = front(n, i);
                    all = all && f;
                    err = err || (f && f->err);
                }
                if (all && err && forward(n)) again = true;
            }
        }
    }
}
// The same, supposing that errors next for processes which pass them on or drop them are gone already.
bool World::inputs_ended_but_errors(const Node& n) {
    struct Save {
        std::size_t outs;
        std::vector<std::size_t> pos;
        std::size_t rr;
    };
    std::vector<Save> save;
    for (auto& u : nodes) save.push_back({u.outs.size(), u.pos, u.rr});
    for (auto& u : nodes) {
        if (u.ups.empty() || u.in_call || !started(u.id)) continue;
        if (u.functor())
            while (forward(u)) {}
        if (u.skips_errors())
            while (next_is_error(u, 0)) ++u.pos[0];
    }
    bool r = inputs_ended(n);
    for (std::size_t i = 0; i < nodes.size(); ++i) {
        nodes[i].outs.resize(save[i].outs, Item{});
        nodes[i].pos = save[i].pos;
        nodes[i].rr = save[i].rr;
    }
    return r;
}
void World::check_quiescent(bool final) {
    check();
    settle_errors();
    for (auto& n : nodes) {
        if (!alive(n.id)) {
            if (n.objects && !n.is_ref) bad(nm(n) + " was not destroyed although no handle refers to it");
            continue;
        }
        if (!started(n.id) || n.kind == K_SRC) continue;
        if (full_kid(n)) continue;
        if (work(n))
            bad(nm(n) + " is stalled: nothing is queued, " +
                (n.pending ? std::string("it has a value to yield") : avail(n) ? std::string("its input has a value") : std::string("its input has ended but close was not called")));
        if (!n.is_ref && n.objects && ended(n.id)) bad(nm(n) + " has ended but its process was not destroyed");
    }
    (void)final;
    check();
}
bool World::idle() const {
    for (auto& q : ex)
        if (!q.empty()) return false;
    return true;
}
bool World::step() {
    std::vector<int> cand;
    for (std::size_t e = 0; e < ex.size(); ++e)
        if (!ex[e].empty()) cand.push_back(int(e));
    if (cand.empty()) return false;
    int e = cand[c.src.draw(cand.size())];
    auto& q = ex[std::size_t(e)];
    std::size_t i = q.size() > 1 && c.src.chance(1, 3) ? c.src.draw(q.size()) : 0;
    auto t = std::move(q[i]);
    q.erase(q.begin() + long(i));
    PBT_LOG(c, std::string(std::size_t(depth) * 2, ' ') << "    run on executor " << e);
    cur.push_back(e);
    t();
    t = stlab::task<void() noexcept>{};
    cur.pop_back();
    --budget;
    if (cur.empty()) {
        dropped_nested = false;
        check_bounds();
        check();
    }
    return true;
}
void World::drain() {
    int limit = 20000;
    while (step()) {
        check();
        if (--limit == 0) PBT_FAIL(c, "the executors never run dry");
    }
}

// ------------------------------------------------------------------ the program
struct Machine {
    pbt::Case& c;
    Opt o;
    World w;
    std::unique_ptr<OpsBase> ops;
    int max_src = 2;

    Machine(pbt::Case& cc, Opt opt, bool move_only) : c(cc), o(opt), w(cc, opt) {
        g = &w;
        ops = move_only ? ops_move(w) : ops_copy(w);
        w.ops = ops.get();
        w.ex.resize(std::size_t(c.src.range(1, 3)));
        w.nested_op = [this] { nested(); };
    }
    ~Machine() {
        // handles, then tasks, in a failed case
        w.quiet = true;
        w.nested_op = nullptr;
        ops.reset();
        w.ex.clear();
        g = nullptr;
    }

    int pick_ex() {
        return int(c.src.draw(w.ex.size() + (o.immediate ? 1 : 0)));
    }

    void add_source() {
        int e = pick_ex();
        int id = ops->source(e);
        PBT_LOG(c, "  source #" << id << " on executor " << e);
    }
    void gen_behaviour(Node& n) {
        n.k = c.src.range(1, 3);
        n.mode = int(c.src.draw(2));
        for (int u : n.ups) n.gain = std::max(n.gain, w.nodes[std::size_t(u)].gain);
        if (n.kind == K_UN || n.kind == K_RR) {
            n.gain = 0;
            for (int u : n.ups) n.gain += w.nodes[std::size_t(u)].gain;
        }
        if (n.stateful() && n.mode) n.gain *= n.k;
        if (n.gain > 12 && n.stateful() && n.mode) n.mode = 0, n.gain /= n.k;
        n.flush = n.has_close() ? int(c.src.draw(3)) : 0;
        if (o.errors && c.src.chance(1, 2)) {
            n.throw_mod = c.src.range(2, 4);
            n.throw_where = int(c.src.draw(2));
            if (!n.stateful()) n.throw_where = 0;
        }
        n.on_error = int(c.src.draw(2));
    }
    bool attachable(int h) {
        auto& r = ops->ri[std::size_t(h)];
        if (!r.live || r.node < 0 || r.ready || r.is_void) return false;
        Node& n = w.nodes[std::size_t(r.node)];
        if (w.dropped_nested) return false;
        if (!ops->copyable() || !o.splits) return n.kids.empty();
        return n.kids.size() < std::size_t(o.max_kids);
    }
    void attach(int h) {
        Node n;
        std::vector<Kind> ks{K_FN, K_SINK};
        if (o.process) {
            ks.push_back(K_AY);
            ks.push_back(K_AYN);
            ks.push_back(K_AY);
            if (ops->copyable()) ks.push_back(K_FP);
        }
        n.kind = ks[c.src.draw(ks.size())];
        n.is_ref = (n.kind == K_FN || n.kind == K_SINK || n.kind == K_AY) && c.src.chance(1, 5);
        int up = ops->ri[std::size_t(h)].node;
        int form = o.annotate ? int(c.src.draw(22)) : c.src.flip() ? 5 : 0;
            n.ex = form_has_ex(form) ? pick_ex() : w.nodes[std::size_t(up)].ex;
        int ex2 = pick_ex();
        n.buf = !form_has_buf(form) ? 1 : o.max_buf > 4 && c.src.chance(1, 6) ? c.src.range(8, 20) : int(c.src.draw(std::uint64_t(o.max_buf) + 1));
        n.ups = {up};
        gen_behaviour(n);
        int nh = ops->attach(h, n, form, ex2, n.buf);
        Node& m = w.nodes.back();
        m.is_void = m.kind == K_SINK;
        (void)nh;
        PBT_LOG(c, "  attach " << nm(m) << (m.is_ref ? " by reference" : "") << " to #" << up << ", annotation form " << form << ", executor " << m.ex << ", buffer " << m.buf
                               << (m.stateful() ? std::string(", ") + (m.mode ? "expands to " : "one for every ") + std::to_string(m.k) + ", flushes " + std::to_string(m.flush) : std::string())
                               << (m.throw_mod ? ", throws every " + std::to_string(m.throw_mod) : std::string()));
    }
    bool clean(int id) { // no errors come out of it
        Node& n = w.nodes[std::size_t(id)];
        if (n.throw_mod) return false;
        if (n.kind == K_SRC) return !o.errors;
        for (int u : n.ups)
            if (!clean(u)) return false;
        return true;
    }
    void merge() {
        std::vector<int> hs;
        for (std::size_t i = 0; i < ops->ri.size(); ++i)
            if (attachable(int(i))) hs.push_back(int(i));
        if (hs.empty()) return;
        std::size_t k = c.src.chance(1, 3) ? std::size_t(std::array{3, 3, 4, 6}[c.src.draw(4)]) : 2;
        std::vector<int> in;
        for (std::size_t i = 0; i < k; ++i) {
            int h = hs[c.src.draw(hs.size())];
            for (int x : in)
                if (ops->ri[std::size_t(x)].node == ops->ri[std::size_t(h)].node && (!ops->copyable() || !o.splits)) return;
            in.push_back(h);
        }
        Node n;
        std::vector<Kind> ks{K_ZIP};
        bool ok = true;
        for (int h : in) ok = ok && clean(ops->ri[std::size_t(h)].node);
        if (ok) ks.push_back(K_UN);
        if (ops->copyable()) ks.push_back(K_RR);
        if (k == 2 && o.process) {
            ks.push_back(K_ZIPAY); // the other strategies do not drive await/yield processes
        }
        n.kind = ks[c.src.draw(ks.size())];
        n.form = int(c.src.draw(3));
        n.ex = pick_ex();
        for (int h : in) n.ups.push_back(ops->ri[std::size_t(h)].node);
        gen_behaviour(n);
        if (n.gain > 12) return;
        n.ups.clear();
        ops->merge(in, n);
        Node& m = w.nodes.back();
        std::string t;
        for (int u : m.ups) t += " #" + std::to_string(u);
        PBT_LOG(c, "  " << nm(m) << " of" << t << " on executor " << m.ex);
    }
    void send() {
        std::vector<int> hs;
        for (std::size_t i = 0; i < ops->si.size(); ++i)
            if (ops->si[i].live) hs.push_back(int(i));
        if (hs.empty() || w.dropped_nested) return;
        int h = hs[c.src.draw(hs.size())];
        int id = ops->si[std::size_t(h)].node;
        bool err = o.errors && c.src.chance(1, 5);
        if (id < 0 || !w.alive(id)) { // sending into nothing has no effect
            ops->send(h, Item{false, 0, -1});
            return;
        }
        Node& n = w.nodes[std::size_t(id)];
        int cnt = c.src.chance(1, 16) ? c.src.range(4, 30) : c.src.range(1, 3);
        for (int i = 0; i < cnt; ++i) {
            if (ops->si[std::size_t(h)].node != id || !w.alive(id) || w.dropped_nested) return; // changed by what ran meanwhile
            Item it{err && i == 0, id, int(n.outs.size())};
            n.outs.push_back(it);
            PBT_LOG(c, "  send " << show(it) << (ops->si.size() > 1 ? " through sender " + std::to_string(h) : std::string()));
            if (it.err)
                ops->send_error(h, PErr{it.node, it.seq});
            else
                ops->send(h, it);
        }
    }
    void ready() {
        std::vector<int> hs;
        for (std::size_t i = 0; i < ops->ri.size(); ++i)
            if (ops->ri[i].live && ops->ri[i].node >= 0 && (!ops->ri[i].ready || (w.cur.empty() && c.src.chance(1, 8)))) hs.push_back(int(i));
        if (hs.empty()) return;
        int h = hs[c.src.draw(hs.size())];
        set_ready(h);
    }
    void set_ready(int h) {
        PBT_LOG(c, "  set_ready of #" << ops->ri[std::size_t(h)].node << " through receiver " << h);
        ops->ri[std::size_t(h)].ready = true;
        ops->ri[std::size_t(h)].busy = true; // it is not used by what that runs
        ops->ready(h);
        ops->ri[std::size_t(h)].busy = false;
    }
    void close() {
        std::vector<int> hs;
        for (std::size_t i = 0; i < ops->si.size(); ++i)
            if (ops->si[i].live) hs.push_back(int(i));
        if (hs.empty()) return;
        int h = hs[c.src.draw(hs.size())];
        PBT_LOG(c, "  close sender " << h << " of #" << ops->si[std::size_t(h)].node);
        close(h);
    }
    void close(int h) {
        ops->si[std::size_t(h)].node = -1;
        ops->si[std::size_t(h)].live = false; // it is not used by what that runs
        ops->close(h);
        ops->si[std::size_t(h)].live = true;
    }
    void drop_receiver(int h) {
        PBT_LOG(c, "  destroy receiver " << h << " of #" << ops->ri[std::size_t(h)].node);
        ops->ri[std::size_t(h)].live = false;
        ops->ri[std::size_t(h)].node = -1;
        w.dropped_nested = true;
        ops->r_op(5, h, h);
        if (w.cur.empty()) w.dropped_nested = false;
    }
    void sender_op() {
        std::vector<int> hs;
        for (std::size_t i = 0; i < ops->si.size(); ++i)
            if (ops->si[i].live) hs.push_back(int(i));
        if (hs.empty()) return;
        auto& si = ops->si;
        int s = hs[c.src.draw(hs.size())], d = hs[c.src.draw(hs.size())];
        int op = int(c.src.draw(8));
        if (op == 5) {
            PBT_LOG(c, "  destroy sender " << s);
            si[std::size_t(s)] = {false, -1};
            ops->s_op(5, s, s);
        } else if (op == 0 || op == 1 || op == 7) {
            if ((op == 0 && !ops->copyable()) || si.size() > 10) return;
            d = int(si.size());
            int node = si[std::size_t(s)].node;
            PBT_LOG(c, "  sender " << d << (op == 0 ? " copied" : op == 1 ? " moved" : " default constructed, not") << " from " << s);
            ops->s_op(op, d, s);
            si[std::size_t(d)] = {true, op == 7 ? -1 : node};
            if (op == 1) si[std::size_t(s)].node = -1;
        } else {
            if (s == d) return;
            if (op == 2 && !ops->copyable()) return;
            PBT_LOG(c, "  sender " << d << (op == 2 ? " copy assigned from " : op == 3 ? " move assigned from " : " swapped with ") << s);
            auto& a = si[std::size_t(d)];
            auto& b = si[std::size_t(s)];
            if (op == 2)
                a.node = b.node;
            else if (op == 3) {
                a.node = b.node;
                b.node = -1;
            } else
                std::swap(a.node, b.node);
            ops->s_op(op, d, s);
        }
        c.tag("sender handle operation");
        check_senders();
    }
    void check_senders() {
        auto& si = ops->si;
        if (w.dropped_nested) return;
        for (std::size_t i = 0; i < si.size(); ++i) {
            if (!si[i].live) continue;
            bool open = si[i].node >= 0 && w.alive(si[i].node);
            int f = ops->s_free(int(i));
            if (open != (f >= 0)) w.bad("sender " + std::to_string(i) + (open ? " lost its channel" : " is closed but still refers to a channel"));
            if (f > 1) w.bad("free_buffer of a sender is larger than the buffer");
            std::size_t j = i ? i - 1 : 0;
            if (si[j].live) {
                int a = open ? si[i].node : -1, b = si[j].node >= 0 && w.alive(si[j].node) ? si[j].node : -1;
                if (ops->s_same(int(i), int(j)) != (a == b)) w.bad("comparison of senders is wrong");
            }
        }
    }
    void receiver_op() {
        auto& ri = ops->ri;
        std::vector<int> hs;
        for (std::size_t i = 0; i < ri.size(); ++i)
            if (ri[i].live && !ri[i].busy) hs.push_back(int(i));
        if (hs.empty()) return;
        int s = hs[c.src.draw(hs.size())], d = hs[c.src.draw(hs.size())];
        int op = int(c.src.draw(8));
        auto& S = ri[std::size_t(s)];
        bool nested = !w.cur.empty();
        if (op == 5) {
            drop_receiver(s);
        } else if (op == 0 || op == 1 || op == 7) {
            if (ri.size() > 24) return;
            d = int(ri.size());
            auto v = S;
            PBT_LOG(c, "  receiver " << d << (op == 0 ? " copied" : op == 1 ? " moved" : " default constructed, not") << " from " << s << " (#" << S.node << (S.ready ? ", ready)" : ")"));
            ops->r_op(op, d, s);
            if (op == 7) v.node = -1, v.ready = false;
            ri[std::size_t(d)] = v;
            if (op == 1) ri[std::size_t(s)].node = -1;
        } else {
            auto& D = ri[std::size_t(d)];
            if (s == d || S.is_void != D.is_void) return;
            PBT_LOG(c, "  receiver " << d << " (#" << D.node << ")" << (op == 2 ? " copy assigned from " : op == 3 ? " move assigned from " : " swapped with ") << s << " (#" << S.node << (S.ready ? ", ready)" : ")"));
            if (op == 2)
                D.node = S.node, D.ready = S.ready;
            else if (op == 3) {
                D.node = S.node, D.ready = S.ready;
                S.node = -1;
            } else {
                std::swap(S.node, D.node);
                std::swap(S.ready, D.ready);
            }
            w.dropped_nested = w.dropped_nested || op <= 3;
            ops->r_op(op, d, s);
            if (!nested) w.dropped_nested = false;
        }
        c.tag("receiver handle operation");
        check_receivers();
    }
    void check_receivers() {
        auto& ri = ops->ri;
        int last = -1;
        for (std::size_t i = 0; i < ri.size(); ++i) {
            if (!ri[i].live || ri[i].busy) continue;
            if (ri[i].node >= 0) {
                if (ops->r_is_ready(int(i)) != ri[i].ready) w.bad("ready() of a receiver is wrong");
                if (!ri[i].is_void && ri[i].ready && ops->r_pipe_error(int(i)) != 2) w.bad("attaching to a ready receiver did not throw process_already_running");
            } else if (!ri[i].is_void && ops->r_pipe_error(int(i)) != 1)
                w.bad("attaching to an empty receiver did not throw broken_channel");
            if (last >= 0 && ri[std::size_t(last)].is_void == ri[i].is_void && ops->r_same(int(i), last) != (ri[i].node == ri[std::size_t(last)].node)) w.bad("comparison of receivers is wrong");
            last = int(i);
        }
    }
    void nested() {
        PBT_LOG(c, "    meanwhile:");
        switch (c.src.weighted({4, 1, 1, o.handles ? 1u : 0u, o.handles ? 1u : 0u})) {
        case 0: send(); break;
        case 1: ready(); break;
        case 2: close(); break;
        case 3: sender_op(); break;
        default: receiver_op();
        }
    }

    void generator() {
        Node n;
        n.kind = K_GEN;
        n.ex = pick_ex();
        n.k = 1;
        n.pending = c.src.chance(1, 5) ? c.src.range(13, 40) : c.src.range(1, 12);
        if (o.errors && c.src.chance(1, 3)) n.throw_mod = c.src.range(2, 4);
        ops->generator(n, 0, 0);
        PBT_LOG(c, "  generator #" << w.nodes.back().id << " of " << n.pending << " values on executor " << n.ex);
    }

    void run() {
        add_source();
        int srcs = 1;
        int limit = c.src.range(5, 120);
        int i = 0;
        while (i < limit) {
            ++i;
            if (!c.src.more(60, 61)) break;
            bool room = int(w.nodes.size()) < o.max_nodes;
            switch (c.src.weighted({room ? 8u : 0u, 10, 16, 5, 1, room && o.merges ? 6u : 0u, room && (o.merges || o.handles) && srcs < 3 ? 2u : 0u, o.drops ? 1u : 0u, o.handles ? 4u : 0u, o.handles ? 4u : 0u, room && o.gens ? 2u : 0u})) {
            case 0: {
                std::vector<int> hs;
                for (std::size_t j = 0; j < ops->ri.size(); ++j)
                    if (attachable(int(j))) hs.push_back(int(j));
                if (!hs.empty()) attach(o.max_kids > 4 && c.src.flip() ? hs[0] : hs[hs.size() - 1 - c.src.draw(hs.size())]);
                break;
            }
            case 1: send(); break;
            case 2: {
                int k = c.src.range(1, 4);
                while (k-- && w.step()) {}
                break;
            }
            case 3: ready(); break;
            case 4:
                if (c.src.chance(1, 3)) close();
                break;
            case 5: merge(); break;
            case 6:
                add_source();
                ++srcs;
                break;
            case 7: {
                std::vector<int> hs;
                for (std::size_t j = 0; j < ops->ri.size(); ++j)
                    if (ops->ri[j].live && !ops->ri[j].busy) hs.push_back(int(j));
                if (!hs.empty()) drop_receiver(hs[c.src.draw(hs.size())]);
                break;
            }
            case 8: sender_op(); break;
            case 9: receiver_op(); break;
            default: generator();
            }
            w.check();
            if (w.idle()) {
                w.check_quiescent(false);
                w.check_bounds();
            }
        }
        PBT_LOG(c, "  -- everything is run");
        w.budget = 300;
        w.drain();
        w.check_quiescent(false);
        PBT_LOG(c, "  -- everything is set ready and run");
        for (std::size_t h = 0; h < ops->ri.size(); ++h)
            if (ops->ri[h].live && ops->ri[h].node >= 0 && !ops->ri[h].ready) set_ready(int(h));
        w.drain();
        w.check_quiescent(false);
        PBT_LOG(c, "  -- every sender is closed and everything is run");
        for (std::size_t h = 0; h < ops->si.size(); ++h)
            if (ops->si[h].live && ops->si[h].node >= 0) {
                close(int(h));
            }
        w.drain();
        w.check_quiescent(true);
        PBT_LOG(c, "  -- every handle is dropped");
        w.quiet = true;
        for (std::size_t h = 0; h < ops->ri.size(); ++h)
            if (ops->ri[h].live) {
                ops->ri[h].live = false;
                ops->ri[h].node = -1;
                ops->r_op(5, int(h), int(h));
                if (c.src.chance(1, 3)) w.step();
            }
        w.drain();
        w.check_quiescent(true);
        ops->clear();
        int objs = 0;
        for (auto& n : w.nodes) objs += n.objects;
        PBT_CHECK(c, objs == 0, objs << " process objects are still alive after all handles are gone");
        PBT_CHECK(c, w.values == 0, w.values << " values are still alive after all handles are gone");
        stats();
    }
    void stats() {
        int called = 0;
        for (auto& n : w.nodes) {
            if (n.calls) ++called;
            if (n.calls) c.tag(kname(n.kind));
            if (n.closed) c.tag("closed a process");
        }
        c.tag("items consumed", std::uint64_t(w.consumed));
        c.nontrivial = w.consumed >= 4 && called >= 2;
    }
};

static void go(pbt::Case& c, Opt o) {
    bool mv = c.src.chance(1, 4);
    PBT_LOG(c, (mv ? "move-only values" : "copyable values"));
    Machine m(c, o, mv);
    m.run();
}
} // namespace ch

using ch::Opt;
#define RULE "two or more processes were called and four or more items were consumed"
PBT_PROP(C01, RULE) {
    Opt o;
    o.splits = false;
    o.annotate = false;
    o.immediate = true;
    ch::go(c, o);
}
PBT_PROP(C02, RULE) {
    Opt o;
    o.annotate = false;
    o.drops = true;
    o.immediate = true;
    o.max_nodes = 10;
    if (c.src.chance(1, 4)) o.max_kids = 9, o.max_nodes = 14;
    ch::go(c, o);
}
PBT_PROP(C03, RULE) {
    Opt o;
    o.immediate = true;
    o.merges = true;
    o.annotate = false;
    o.max_nodes = 10;
    ch::go(c, o);
}
PBT_PROP(C04, RULE) {
    Opt o;
    o.immediate = true;
    o.handles = true;
    o.annotate = false;
    o.merges = c.src.flip();
    o.drops = true;
    ch::go(c, o);
}
PBT_PROP(C05, RULE) {
    Opt o;
    o.immediate = true;
    o.gens = true;
    o.max_buf = 6;
    o.merges = c.src.flip();
    ch::go(c, o);
}
PBT_PROP(C06, RULE) {
    Opt o;
    o.immediate = true;
    o.errors = true;
    o.annotate = false;
    o.merges = c.src.flip();
    o.gens = true;
    ch::go(c, o);
}
PBT_PROP(C07, RULE) {
    Opt o;
    o.immediate = true;
    o.max_nodes = 6;
    ch::go(c, o);
}
PBT_PROP(C08, RULE) {
    Opt o;
    o.process = true;
    o.immediate = true;
    o.merges = c.src.chance(1, 3);
    o.errors = c.src.chance(1, 3);
    o.annotate = false;
    ch::go(c, o);
}
