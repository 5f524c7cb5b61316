// C09: channel graphs used by several threads, their processes on thread pools, under the controlled scheduler.
//
// Oracle: as for the sequential channel harness, each edge of the graph is checked on its own - the consumer is given
// what the producer gave, in order, exactly once - together with the protocol of a process (one thread at a time, the
// right call for its state), the bound of the buffers, progress when nothing runs any more, and release.
#include "det.hpp"

#include <algorithm>
#include <condition_variable>
#include <deque>
#include <functional>
#include <limits>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/channel.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/pre_exit.hpp>

namespace {

pbt::Case* g_c;

struct Workers { // threads that take work first in, first out or last in, first out
    std::mutex m;
    std::condition_variable cv;
    std::deque<stlab::task<void() noexcept>> q;
    std::vector<std::thread> th;
    bool done = false, lifo = false;
    void start(int n) {
        for (int i = 0; i < n; ++i)
            th.emplace_back([this] {
                while (true) {
                    stlab::task<void() noexcept> t;
                    {
                        std::unique_lock<std::mutex> l(m);
                        while (q.empty() && !done) cv.wait(l);
                        if (q.empty()) return;
                        if (lifo) {
                            t = std::move(q.back());
                            q.pop_back();
                        } else {
                            t = std::move(q.front());
                            q.pop_front();
                        }
                    }
                    t();
                }
            });
    }
    void put(stlab::task<void() noexcept> t) {
        {
            std::lock_guard<std::mutex> l(m);
            q.push_back(std::move(t));
        }
        cv.notify_one();
    }
    void stop() {
        {
            std::lock_guard<std::mutex> l(m);
            done = true;
        }
        cv.notify_all();
        for (auto& e : th) e.join();
        th.clear();
        q.clear();
    }
};

// ------------------------------------------------------------------ model
enum Kind { SRC, FN, AY, TAY, SINK, ZIP, RR, UN, NKIND };
const char* kname(Kind k) {
    static const char* n[] = {"source", "function", "process", "timed process", "sink", "zip", "round robin", "unordered"};
    return n[k];
}
struct Sent {
    int thread = 0;
    std::uint64_t begin = 0, end = 0;
    bool seen = false;
};
struct Node {
    int id = 0;
    Kind kind = SRC;
    int ex = 0; // 0 pool, 1 workers, 2 serial queue, 3 immediate
    int buf = 1;
    std::vector<int> ups;
    std::vector<std::pair<int, int>> kids;
    int k = 1;      // accumulates k values
    int expand = 0; // and gives that many for them
    int flush = 0;  // given when the input ends
    bool waits = false, lates = false; // timed: gives what it has after so long without a value; gives it so long after it could
    std::int64_t wait = 0, late = 0;   // (less than 0: at once)
    std::int64_t busy = 0;
    bool dropped = false; // its receiver went away early
    int depth = 0;
    // observed
    std::vector<int> outs; // numbers of the values given; of a source, what its consumers saw
    std::vector<std::size_t> pos;
    std::size_t rr = 0;
    std::vector<Sent> sent; // source
    bool started = false, closed = false;
    int in_call = 0;
    int objects = 0;
    int count = 0, pending = 0;
    std::int64_t since = 0;
    int senders = 0;
};
std::deque<Node> g_n;
std::uint64_t g_clock;
bool g_all_sent; // no send is under way
unsigned g_now;  // looks at what must happen without a time passing
int g_values;
std::string nm(const Node& n) { return std::string(kname(n.kind)) + " #" + std::to_string(n.id); }
std::string g_bad; // the library catches what processes throw
void bad(const std::string& m) {
    if (g_bad.empty()) g_bad = m;
    PBT_FAIL(*g_c, m);
}

struct V {
    int node, seq;
    std::shared_ptr<std::unique_ptr<int>> p;
    void count(int d) {
        det::Quiet q;
        g_values += d;
    }
    V(int n, int s) : node(n), seq(s), p(std::make_shared<std::unique_ptr<int>>(std::make_unique<int>(n * 100 + s))) { count(1); }
    V(const V& o) : node(o.node), seq(o.seq), p(o.p) { count(1); }
    V(V&& o) noexcept : node(o.node), seq(o.seq), p(std::move(o.p)) { count(1); }
    V& operator=(const V& o) = default;
    V& operator=(V&& o) noexcept = default;
    V() : node(-1), seq(-1) { count(1); }
    ~V() { count(-1); }
    void check() const {
        if (!p || **p != node * 100 + seq) bad("a process was given a value that had been moved from");
    }
};

void take(Node& n, std::size_t i, const V& v) {
    Node& up = g_n[std::size_t(n.ups[i])];
    if (v.node != up.id) bad(nm(n) + " was given a value of #" + std::to_string(v.node) + " where one of " + nm(up) + " was due");
    std::size_t& p = n.pos[i];
    if (p < up.outs.size()) {
        if (up.outs[p] != v.seq) bad(nm(n) + " was given value " + std::to_string(v.seq) + " of " + nm(up) + " instead of " + std::to_string(up.outs[p]));
    } else if (up.kind == SRC) {
        Sent& s = up.sent[std::size_t(v.seq)];
        if (!s.begin) bad(nm(n) + " was given a value that was not sent");
        if (s.seen) bad(nm(n) + " was given value " + std::to_string(v.seq) + " of " + nm(up) + " again, or out of order");
        for (std::size_t k = 0; k < up.sent.size(); ++k) {
            Sent& o = up.sent[k];
            if (!o.seen && o.end && o.end < s.begin) bad(nm(n) + " was given value " + std::to_string(v.seq) + " of " + nm(up) + " before value " + std::to_string(k) + ", which was sent before it");
        }
        s.seen = true;
        up.outs.push_back(v.seq);
    } else
        bad(nm(n) + " was given value " + std::to_string(v.seq) + " of " + nm(up) + ", which has not given so much");
    ++p;
}
bool alive(int id);
std::size_t waiting(const Node& n, std::pair<int, int> k) {
    std::size_t p = g_n[std::size_t(k.first)].pos[std::size_t(k.second)];
    return n.outs.size() > p ? n.outs.size() - p : 0;
}
int produce(Node& n) {
    int s = int(n.outs.size());
    n.outs.push_back(s);
    DET_LOG(*g_c, "      " << nm(n) << " -> " << s);
    for (auto& k : n.kids) {
        Node& kid = g_n[std::size_t(k.first)];
        // one value may have been taken from the buffer and not have arrived
        if (kid.buf && alive(kid.id) && waiting(n, k) > std::size_t(kid.buf) + 1)
            bad(std::to_string(waiting(n, k)) + " values wait in front of " + nm(kid) + ", whose buffer size is " + std::to_string(kid.buf));
    }
    return s;
}

struct Enter {
    Node& n;
    Enter(Node& x, const char* what) : n(x) {
        det::Quiet q;
        if (n.in_call) bad(nm(n) + " was entered (" + what + ") while another thread is in it");
        if (!n.started) bad(nm(n) + " ran before its receiver was set ready");
        ++n.in_call;
    }
    ~Enter() {
        det::Quiet q;
        --n.in_call;
    }
};
struct Obj { // identity of the process object, with memory of its own
    int node;
    std::unique_ptr<int> own;
    explicit Obj(int n) : node(n), own(std::make_unique<int>(n)) { count(1); }
    Obj(Obj&& o) noexcept : node(o.node), own(std::move(o.own)) { o.node = -1; }
    Obj(const Obj&) = delete;
    ~Obj() {
        if (node >= 0) count(-1);
    }
    void count(int d) {
        det::Quiet q;
        g_n[std::size_t(node)].objects += d;
    }
    Node& n() const {
        if (node < 0 || *own != node) bad("a process object was used after it was moved from");
        *own = node;
        return g_n[std::size_t(node)];
    }
};
void busy(Node& n) {
    det::point();
    if (n.busy) std::this_thread::sleep_for(std::chrono::nanoseconds(n.busy));
}
struct Fn {
    Obj o;
    V operator()(V v) {
        Node& n = o.n();
        Enter e(n, "call");
        v.check();
        {
            det::Quiet q;
            if (n.kind == UN) {
                std::size_t i = 0;
                while (i < n.ups.size() && n.ups[i] != v.node) ++i;
                if (i == n.ups.size()) bad(nm(n) + " was given a value from nowhere");
                take(n, i, v);
            } else if (n.kind == RR) {
                take(n, n.rr, v);
                n.rr = (n.rr + 1) % n.ups.size();
            } else
                take(n, 0, v);
        }
        busy(n);
        det::Quiet q;
        return V(n.id, produce(n));
    }
};
struct ZipFn {
    Obj o;
    V operator()(V a, V b) {
        Node& n = o.n();
        Enter e(n, "call");
        a.check();
        b.check();
        {
            det::Quiet q;
            take(n, 0, a);
            take(n, 1, b);
        }
        busy(n);
        det::Quiet q;
        return V(n.id, produce(n));
    }
};
struct Sink {
    Obj o;
    void operator()(V v) {
        Node& n = o.n();
        Enter e(n, "call");
        v.check();
        {
            det::Quiet q;
            take(n, 0, v);
            DET_LOG(*g_c, "      " << nm(n) << " <- " << v.seq);
        }
        busy(n);
    }
};
bool inputs_ended(const Node& n);
struct Ay {
    Obj o;
    int count = 0, pending = 0; // what the process itself keeps: seen by the race detector
    bool due = false;
    Ay(Obj x) : o(std::move(x)) {}
    void await(V v) {
        Node& n = o.n();
        Enter e(n, "await");
        v.check();
        {
            det::Quiet q;
            if (n.pending) bad(nm(n) + ": await while its state is yield");
            if (n.closed) bad(nm(n) + ": await after close");
            take(n, 0, v);
            DET_LOG(*g_c, "      " << nm(n) << " <- " << v.seq);
        }
        busy(n);
        if (++count == n.k) {
            pending = n.expand;
            count = 0;
        }
        det::Quiet q;
        n.count = count;
        n.pending = pending;
        n.since = det::now_ns();
    }
    V yield() {
        Node& n = o.n();
        Enter e(n, "yield");
        bool timed = false;
        {
            det::Quiet q;
            if (pending == 0) {
                if (!n.waits || count == 0)
                    bad(nm(n) + ": yield while its state is await");
                else if (det::now_ns() < n.since + std::max<std::int64_t>(n.wait, 0))
                    bad(nm(n) + ": yield " + std::to_string(n.since + n.wait - det::now_ns()) + " ns before its time");
                timed = true;
            } else if (n.lates && det::now_ns() < n.since + std::max<std::int64_t>(n.late, 0))
                bad(nm(n) + ": yield " + std::to_string(n.since + n.late - det::now_ns()) + " ns before its time");
        }
        busy(n);
        if (timed)
            count = 0;
        else
            --pending;
        det::Quiet q;
        n.count = count;
        n.pending = pending;
        n.since = det::now_ns();
        if (timed) g_c->tag("yields after a time without values");
        return V(n.id, produce(n));
    }
    stlab::process_state_scheduled state() const {
        Node& n = o.n();
        if (pending) return n.lates ? stlab::process_state_scheduled{stlab::process_state::yield, std::chrono::nanoseconds(n.late)} : stlab::yield_immediate;
        if (n.waits && count) return {stlab::process_state::await, std::chrono::nanoseconds(n.wait)};
        return stlab::await_forever;
    }
    void close() {
        Node& n = o.n();
        Enter e(n, "close");
        {
            det::Quiet q;
            if (n.closed) bad(nm(n) + ": close was called twice");
            if (n.pending) bad(nm(n) + ": close while its state is yield");
            if (!inputs_ended(n)) bad(nm(n) + ": close while more values are coming");
            DET_LOG(*g_c, "      " << nm(n) << " closes");
        }
        busy(n);
        pending = n.flush + (count ? 1 : 0);
        count = 0;
        det::Quiet q;
        n.closed = true;
        n.count = 0;
        n.pending = pending;
        n.since = det::now_ns();
    }
};

// ------------------------------------------------------------------ what must be so when nothing runs
bool alive(int id) {
    const Node& n = g_n[std::size_t(id)];
    if (n.kind == SINK) return !n.dropped;
    for (auto& k : n.kids)
        if (alive(k.first)) return true;
    return false;
}
std::size_t made(const Node& n) {
    if (n.kind != SRC) return n.outs.size();
    std::size_t m = 0;
    for (auto& s : n.sent) m += s.begin != 0;
    return m;
}
bool full_kid(const Node& n) {
    for (auto& k : n.kids) {
        const Node& kid = g_n[std::size_t(k.first)];
        std::size_t p = kid.pos[std::size_t(k.second)];
        if (kid.buf && alive(kid.id) && made(n) >= p + std::size_t(kid.buf)) return true;
    }
    return false;
}
std::size_t max_pos(const Node& n) {
    std::size_t m = 0;
    for (auto& k : n.kids) m = std::max(m, g_n[std::size_t(k.first)].pos[std::size_t(k.second)]);
    return m;
}
bool has_item(const Node& n, std::size_t i) {
    const Node& up = g_n[std::size_t(n.ups[i])];
    if (made(up) <= n.pos[i]) return false;
    if (up.kind != SRC) return true;
    return n.pos[i] < max_pos(up) || (up.started && !full_kid(up));
}
bool avail(const Node& n) {
    if (n.kind == RR) return has_item(n, n.rr);
    bool any = false, all = true;
    for (std::size_t i = 0; i < n.ups.size(); ++i) {
        bool h = has_item(n, i);
        any = any || h;
        all = all && h;
    }
    return n.kind == ZIP ? all : any;
}
bool ended(const Node& n);
bool inputs_ended(const Node& n) {
    for (int u : n.ups)
        if (!ended(g_n[std::size_t(u)])) return false;
    auto left = [&](std::size_t i) { return made(g_n[std::size_t(n.ups[i])]) > n.pos[i]; };
    if (n.kind == RR) return !left(n.rr);
    bool any = false, all = true;
    for (std::size_t i = 0; i < n.ups.size(); ++i) {
        any = any || left(i);
        all = all && left(i);
    }
    return n.kind == ZIP ? !all : !any;
}
bool g_quiet; // nothing is on its way
bool ended(const Node& n) {
    if (g_quiet && full_kid(n)) return false; // its end is behind values it cannot deliver
    if (n.kind == SRC) return n.senders == 0;
    if (n.kind == AY || n.kind == TAY) return n.closed && !n.pending;
    return inputs_ended(n) && !n.pending;
}
void check_quiet(const char* when) {
    det::Quiet q;
    g_quiet = true;
    for (auto& n : g_n) {
        if (n.kind == SRC || !alive(n.id) || full_kid(n)) continue;
        std::string why;
        if (n.pending)
            why = "it has a value to give";
        else if (avail(n))
            why = "its input has a value";
        else if ((n.kind == AY || n.kind == TAY) && !n.closed && inputs_ended(n))
            why = "its input has ended and close was not called";
        else if (n.waits && n.count)
            why = "the time it waits for another value has passed";
        if (!why.empty()) bad(nm(n) + " is stalled " + when + ": " + why);
        if (n.objects && ended(n)) bad(nm(n) + " has ended and its process was not destroyed " + when);
    }
    g_quiet = false;
}

// nothing can run, and the time has not moved on since: only what waits for a time is left
void check_now(const char* when) {
    det::Quiet q;
    for (auto& n : g_n)
        if (n.in_call || !n.started) return; // it sleeps, and others may wait for it; or it is not ready
    g_quiet = true;
    for (auto& n : g_n) {
        if (n.kind == SRC || !alive(n.id) || full_kid(n)) continue;
        std::string why;
        if (n.pending)
            why = n.lates ? "" : "it has a value to give";
        else if (avail(n))
            why = "its input has a value";
        if (!why.empty()) bad(nm(n) + " is stalled " + when + ": " + why);
    }
    g_quiet = false;
    ++g_now;
}

// ------------------------------------------------------------------ programs
struct Act {
    int k; // 0 send, 1 pause, 2 drop a receiver, 3 copy and drop a sender, 4 wait until nothing can run before a time passes
    int a = 0;
    std::int64_t ns = 0;
};
using Snd = stlab::sender<V>;
struct Opt {
    bool timed = false;
};

void run_channels(pbt::Case& c, const Opt& opt) {
    auto& s = c.src;
    g_c = &c;
    g_n.clear();
    g_clock = 0;
    g_bad.clear();
    g_values = 0;
    g_all_sent = false;
    g_now = 0;
    // the graph: trees that merges may join, so that bounded buffers cannot block each other
    std::vector<int> open; // nodes that give values
    std::vector<int> tree; // source of each node
    int nsrc = s.range(1, 3), total = nsrc + s.range(1, 7);
    auto add = [&](Kind k) -> Node& {
        g_n.emplace_back();
        Node& n = g_n.back();
        n.id = int(g_n.size()) - 1;
        n.kind = k;
        n.ex = int(s.weighted({4, 3, 1, 1}));
        n.buf = s.chance(1, 3) ? 1 : s.range(0, 4);
        if (k == SRC) n.buf = 0;
        if (s.chance(1, 5)) n.busy = s.range(1, 6) * 100;
        tree.push_back(n.id);
        return n;
    };
    for (int i = 0; i < nsrc; ++i) open.push_back(add(SRC).id);
    std::vector<int> set(static_cast<std::size_t>(nsrc));
    for (int i = 0; i < nsrc; ++i) set[std::size_t(i)] = i;
    std::function<int(int)> root = [&](int x) { return tree[std::size_t(x)] == x ? x : root(tree[std::size_t(x)]); };
    for (int i = nsrc; i < total; ++i) {
        int a = open[s.draw(open.size())];
        int b = open[s.draw(open.size())];
        Kind k;
        if (nsrc > 1 && root(a) != root(b) && s.chance(1, 2))
            k = Kind(ZIP + int(s.draw(3)));
        else
            k = Kind(s.weighted({0, 3, opt.timed ? 1u : 3u, opt.timed ? 5u : 0u, 3}));
        Node& n = add(k);
        n.ups = {a};
        if (k >= ZIP) {
            n.ups.push_back(b);
            tree[std::size_t(root(b))] = root(a);
        }
        tree[std::size_t(n.id)] = root(a);
        for (std::size_t j = 0; j < n.ups.size(); ++j) g_n[std::size_t(n.ups[j])].kids.push_back({n.id, int(j)});
        n.pos.assign(n.ups.size(), 0);
        if (k >= ZIP) n.buf = 1; // not given for merges
        if (k == AY || k == TAY) {

            n.k = s.range(1, 3);
            n.expand = s.chance(1, 3) ? s.range(1, 3) : 1;
            n.flush = s.range(0, 2);
        }
        if (k == TAY) {
            auto at_once = [&] { return s.flip() ? std::numeric_limits<std::int64_t>::min() : std::int64_t(s.range(-1, 0)) * 100; };
            n.waits = s.chance(3, 4);
            n.wait = s.chance(1, 5) ? at_once() : s.range(1, 20) * (s.chance(1, 6) ? 2500000000 : 100);
            n.lates = s.chance(1, 3);
            n.late = s.chance(1, 5) ? at_once() : s.range(1, 8) * (s.chance(1, 6) ? 2500000000 : 100);
        }
        if (k != SINK) open.push_back(n.id);
    }
    // what has no consumer gets one
    for (std::size_t i = 0; i < g_n.size(); ++i)
        if (g_n[i].kind != SINK && g_n[i].kids.empty()) {
            Node& n = add(SINK);
            n.ups = {int(i)};
            g_n[i].kids.push_back({n.id, 0});
            n.pos.assign(1, 0);
        }
    for (auto& n : g_n)
        for (int u : n.ups) n.depth = std::max(n.depth, g_n[std::size_t(u)].depth + 1);
    int nt = s.range(1, 3);
    std::vector<std::vector<Act>> acts(static_cast<std::size_t>(nt));
    int nsend = 0;
    std::vector<int> sinks;
    for (auto& n : g_n)
        if (n.kind == SINK) sinks.push_back(n.id);
    bool drops = sinks.size() > 1 && s.chance(1, 3);
    std::vector<int> droppable(sinks.begin(), sinks.end());
    for (auto& v : acts) {
        int k = s.range(1, 8);
        for (int i = 0; i < k; ++i) {
            Act a{};
            switch (s.weighted({8, 2, drops && !droppable.empty() ? 1u : 0u, 1})) {
            case 0:
                a.a = s.range(0, nsrc - 1);
                ++nsend;
                break;
            case 1:
                a.k = 1;
                a.ns = s.range(0, 20) * (opt.timed && s.chance(1, 8) ? 1500000000LL : 100);
                break;
            case 2: {
                a.k = 2;
                std::size_t j = s.draw(droppable.size());
                a.a = droppable[j];
                droppable.erase(droppable.begin() + std::ptrdiff_t(j));
                break;
            }
            default:
                a.k = 3;
                a.a = s.range(0, nsrc - 1);
                if (opt.timed && &v == &acts[0] && s.chance(1, 2)) a.k = 4;
            }
            v.push_back(a);
        }
    }
    // thread 0 may build while the others send; each thread lets go of its senders at its end or later
    bool early = s.chance(1, 2), close_early = s.chance(1, 2);
    // or each thread attaches some of the sinks, and gives up a copy of each receiver on its own
    bool par = nt > 1 && s.chance(1, 3);
    if (par) early = false;
    std::vector<std::size_t> ready_at(static_cast<std::size_t>(nt));
    for (std::size_t t = 0; par && t < ready_at.size(); ++t) ready_at[t] = s.draw(acts[t].size() + 1);
    bool forms = s.chance(1, 2);
    int nw = s.range(1, 3);
    bool lifo = s.chance(1, 4);
    std::vector<int> ready_order;
    for (std::size_t i = 0; i < g_n.size(); ++i)
        if (g_n[i].kind != SINK) ready_order.insert(ready_order.begin() + std::ptrdiff_t(s.draw(ready_order.size() + 1)), int(i));
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(s.range(1, 4));
    if (c.logging) {
        static const char* ex[] = {"pool", "workers", "serial queue", "immediate"};
        PBT_LOG(c, "cores " << cfg.cores << ", " << nw << " workers" << (lifo ? " (last in, first out)" : "") << (early ? ", threads send while the graph is built" : "") << (par ? ", each thread attaches sinks" : "") << (close_early ? ", closed at once" : ""));
        for (auto& n : g_n) {
            std::ostringstream o;
            for (int u : n.ups) o << " #" << u;
            if (n.kind == AY || n.kind == TAY) o << ", gives " << n.expand << " for " << n.k << " and " << n.flush << " at the end";
            if (n.waits) o << ", waits " << n.wait << " ns";
            if (n.lates) o << ", gives after " << n.late << " ns";
            if (n.busy) o << ", works " << n.busy << " ns";
            PBT_LOG(c, nm(n) << " on " << ex[n.ex] << ", buffer " << n.buf << " <-" << o.str());
        }
        for (std::size_t t = 0; t < acts.size(); ++t) {
            std::ostringstream o;
            for (auto& a : acts[t]) {
                static const char* k[] = {" send to #", " pause ", " drop the receiver of #", " copy a sender of #", " look"};
                o << k[a.k];
                if (a.k != 4) o << (a.k == 1 ? a.ns : a.a);
            }
            PBT_LOG(c, "thread " << t << ":" << o.str());
        }
    }
    Workers w;
    w.lifo = lifo;
    det::go(c, cfg, [&] {
        {
            std::vector<stlab::serial_queue_t> queues;
            auto executor = [&](int e) -> stlab::executor_t {
                switch (e) {
                case 0: return stlab::default_executor;
                case 1: return [&w](stlab::task<void() noexcept> t) { w.put(std::move(t)); };
                case 2: queues.emplace_back(stlab::default_executor, queues.size() % 2 ? stlab::schedule_mode::all : stlab::schedule_mode::single); return queues.back().executor();
                default: return stlab::immediate_executor;
                }
            };
            w.start(nw);
            std::vector<stlab::executor_t> exs;
            for (auto& n : g_n) exs.push_back(executor(n.ex));
            std::vector<std::vector<std::optional<stlab::receiver<V>>>> copies(static_cast<std::size_t>(nt));
            std::vector<int> unready(g_n.size(), nt);
            std::vector<std::vector<Snd>> snd(static_cast<std::size_t>(nt)); // by thread and source
            std::vector<std::optional<stlab::receiver<V>>> rcv(g_n.size());
            std::vector<std::optional<stlab::receiver<void>>> sink(g_n.size());
            for (int i = 0; i < nsrc; ++i) {
                auto p = stlab::channel<V>(exs[std::size_t(i)]);
                rcv[std::size_t(i)] = std::move(p.second);
                for (int t = 1; t < nt; ++t) snd[std::size_t(t)].push_back(p.first);
                snd[0].push_back(std::move(p.first));
                g_n[std::size_t(i)].senders = nt;
            }
            using stlab::operator&;
            auto attach_sink = [&](Node& n, stlab::receiver<V>& up) {
                auto i = std::size_t(n.id);
                sink[i] = up | (stlab::executor{exs[i]} & Sink{Obj(n.id)} & stlab::buffer_size{std::size_t(n.buf)});
            };
            auto build = [&] {
                for (std::size_t i = std::size_t(nsrc); i < g_n.size(); ++i) {
                    Node& n = g_n[i];
                    {
                        det::Quiet q;
                        n.started = n.kind == SINK;
                    }
                    auto& up = *rcv[std::size_t(n.ups[0])];
                    auto& e = exs[i];
                    auto x = [&] { return stlab::executor{e}; };
                    auto bs = [&] { return stlab::buffer_size{std::size_t(n.buf)}; };
                    switch (n.kind) {
                    case FN:
                        if (forms)
                            rcv[i] = up | (x() & Fn{Obj(n.id)} & bs());
                        else
                            rcv[i] = up | (bs() & x() & Fn{Obj(n.id)});
                        break;
                    case AY:
                    case TAY: rcv[i] = up | (x() & Ay{Obj(n.id)} & bs()); break;
                    case SINK:
                        if (!par) attach_sink(n, up);
                        break;
                    case ZIP: rcv[i] = stlab::merge_channel<stlab::zip_with_t>(e, ZipFn{Obj(n.id)}, up, *rcv[std::size_t(n.ups[1])]); break;
                    case RR: rcv[i] = stlab::merge_channel<stlab::round_robin_t>(e, Fn{Obj(n.id)}, up, *rcv[std::size_t(n.ups[1])]); break;
                    default: rcv[i] = stlab::merge_channel<stlab::unordered_t>(e, Fn{Obj(n.id)}, up, *rcv[std::size_t(n.ups[1])]);
                    }
                }
            };
            auto set_ready = [&] {
                for (int i : ready_order) {
                    {
                        det::Quiet q;
                        g_n[std::size_t(i)].started = true;
                    }
                    if (forms) rcv[std::size_t(i)]->set_ready();
                    rcv[std::size_t(i)].reset(); // nobody else can attach
                }
            };
            std::mutex built_m;
            std::condition_variable built_cv;
            bool built = false;
            int attaching = nt;
            auto own_ready = [&](std::size_t t) {
                for (int i : ready_order) {
                    {
                        det::Quiet q;
                        if (--unready[std::size_t(i)] == 0) g_n[std::size_t(i)].started = true;
                    }
                    auto& r = copies[t][std::size_t(i)];
                    if (forms && (t + std::size_t(i)) % 2) r->set_ready();
                    r.reset();
                }
            };
            auto own_attach = [&](std::size_t t) {
                for (auto& n : g_n)
                    if (n.kind == SINK && n.id % nt == int(t)) {
                        auto& up = *copies[t][std::size_t(n.ups[0])];
                        if (n.id % 2) {
                            auto copy = up;
                            attach_sink(n, copy);
                        } else
                            attach_sink(n, up);
                    }
                std::lock_guard<std::mutex> l(built_m);
                if (--attaching == 0) {
                    built = true;
                    built_cv.notify_all();
                }
            };
            auto body = [&](std::size_t t) {
                if (par) own_attach(t);
                std::size_t step = 0;
                for (auto& a : acts[t]) {
                    if (par && step++ == ready_at[t]) own_ready(t);
                    switch (a.k) {
                    case 0: {
                        Node& n = g_n[std::size_t(a.a)];
                        int seq;
                        {
                            det::Quiet q;
                            seq = int(n.sent.size());
                            n.sent.push_back({int(t), ++g_clock, 0, false});
                        }
                        DET_LOG(c, "      thread " << t << " sends " << seq << " to #" << a.a);
                        snd[t][std::size_t(a.a)](V(a.a, seq));
                        det::Quiet q;
                        n.sent[std::size_t(seq)].end = ++g_clock;
                        break;
                    }
                    case 1:
                        if (a.ns)
                            std::this_thread::sleep_for(std::chrono::nanoseconds(a.ns));
                        else
                            det::point();
                        break;
                    case 2: {
                        if (t || par) {
                            std::unique_lock<std::mutex> l(built_m);
                            built_cv.wait(l, [&] { return built; });
                        }
                        {
                            det::Quiet q;
                            g_n[std::size_t(a.a)].dropped = true;
                        }
                        sink[std::size_t(a.a)].reset();
                        break;
                    }
                    case 4:
                        det::settle();
                        check_now("while it waits for a time");
                        break;
                    default: {
                        Snd x(snd[t][std::size_t(a.a)]);
                        det::point();
                        Snd y(std::move(x));
                        x = y;
                    }
                    }
                }
                if (par && step == ready_at[t]) own_ready(t);
                if (close_early) {
                    for (std::size_t i = 0; i < snd[t].size(); ++i) {
                        {
                            det::Quiet q;
                            --g_n[i].senders;
                        }
                        if (i % 2)
                            snd[t][i].close();
                        else
                            snd[t][i] = Snd();
                    }
                }
            };
            std::vector<std::thread> th;
            if (!early) build();
            if (par) {
                for (auto& v : copies) v = rcv;
                for (auto& x : rcv) x.reset();
            } else if (!early) {
                set_ready();
                built = true;
            }
            for (std::size_t t = 1; t < acts.size(); ++t) th.emplace_back([&, t] { body(t); });
            if (early) {
                build();
                set_ready();
                {
                    std::lock_guard<std::mutex> l(built_m);
                    built = true;
                }
                built_cv.notify_all();
            }
            body(0);
            for (auto& e : th) e.join();
            det::settle();
            check_now("before any more time has passed");
            det::settle(true);
            check_quiet("when everything is quiet");
            for (auto& v : snd)
                for (std::size_t i = 0; i < v.size(); ++i) {
                    if (!close_early) {
                        det::Quiet q;
                        --g_n[i].senders;
                    }
                    v[i] = Snd();
                }
            det::settle(true);
            check_quiet("after the last sender has gone");
            rcv.clear();
            copies.clear();
            for (std::size_t i = 0; i < sink.size(); ++i) {
                {
                    det::Quiet q;
                    g_n[i].dropped = true;
                }
                sink[i].reset();
            }
            snd.clear();
            exs.clear();
            queues.clear();
            det::settle(true);
        }
        w.stop();
        (void)stlab::detail::pts();
        stlab::pre_exit();
        det::Quiet q;
        for (auto& n : g_n) PBT_CHECK(c, n.objects == 0, "the process of " << nm(n) << " is left");
        PBT_CHECK(c, g_values == 0, g_values << " values are left");
    });
    std::size_t consumed = 0;
    for (auto& n : g_n)
        for (auto p : n.pos) consumed += p;
    c.nontrivial = det::stats().preemptions >= 3 && consumed >= 4 && nsend >= 3;
    c.tag("nodes", g_n.size());
    c.tag("values sent", std::uint64_t(nsend));
    c.tag("values given to processes", consumed);
    for (auto& n : g_n) c.tag(kname(n.kind));
    if (early) c.tag("sending while the graph is built");
    if (par) c.tag("attaching from several threads");
    if (drops) c.tag("receivers dropped while sending");
    if (g_now > 1) c.tag("looked at before the time passes");
    c.tag("preemptions", det::stats().preemptions);
}
PBT_PROP_FORKED(C09, "at least 3 values sent, 4 given to processes, and 3 preemptions") {
    run_channels(c, {});
}
PBT_PROP_FORKED(C08T, "at least 3 values sent, 4 given to processes, and 3 preemptions") {
    Opt o;
    o.timed = true;
    run_channels(c, o);
}

} // namespace
