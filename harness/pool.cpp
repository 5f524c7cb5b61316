// E01, E02, E05, E06: the task pool and pre_exit, under the controlled scheduler.
#include "det.hpp"

#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/pre_exit.hpp>

namespace {

pbt::Case* g_c;

// ------------------------------------------------------------------ programs of tasks
enum Step { SUBMIT, ASYNC, WAIT, PAUSE, WAIT_FOR, CONT };
struct Action {
    Step k;
    int node = -1; // task submitted or waited for
    std::int64_t ns = 0;
};
struct Task {
    int prio = 1;   // 0 high, 1 default, 2 low
    int parent = -1;
    bool fut = false;
    bool cont = false; // a continuation attached with then
    std::vector<Action> acts;
    // observed, under Quiet
    int runs = 0;
    bool running = false;
    int live = 0;
};
std::vector<Task> g_t;
std::vector<std::vector<Action>> g_ext; // what the threads outside the pool do
std::set<int> g_ext_ids;
int g_waits;
bool g_in_pool_only;

struct Tok {
    int t;
    explicit Tok(int x) : t(x) { add(1); }
    Tok(const Tok& o) : t(o.t) { add(1); }
    Tok(Tok&& o) noexcept : t(o.t) { add(1); }
    ~Tok() { add(-1); }
    void add(int d) {
        det::Quiet q;
        g_t[std::size_t(t)].live += d;
    }
    Tok& operator=(const Tok&) = delete;
};

struct Payload { // storage that takes part in race and lifetime checking
    std::unique_ptr<int> p;
    explicit Payload(int x) : p(std::make_unique<int>(x)) {}
};

using Fut = stlab::future<int>;
struct Futs { // futures of one thread or task
    std::vector<std::pair<int, Fut>> v;
};

void perform(const std::vector<Action>& acts, Futs& f);

struct Body {
    Tok tok;
    std::shared_ptr<Payload> pay;
    explicit Body(int t) : tok(t), pay(std::make_shared<Payload>(t * 3 + 1)) {}
    int operator()() const noexcept {
        {
            det::Quiet q;
            Task& t = g_t[std::size_t(tok.t)];
            if (++t.runs > 1) PBT_FAIL(*g_c, "task " << tok.t << " runs a second time");
            if (g_ext_ids.count(det::self_id())) PBT_FAIL(*g_c, "task " << tok.t << " runs on a thread that is not one of the pool's");
            t.running = true;
        }
        det::point();
        Futs f;
        perform(g_t[std::size_t(tok.t)].acts, f);
        {
            det::Quiet q;
            g_t[std::size_t(tok.t)].running = false;
        }
        return *pay->p;
    }
};
struct VoidBody {
    Body b;
    void operator()() const noexcept { (void)b(); }
};

void submit(int node) {
    VoidBody b{Body(node)};
    switch (g_t[std::size_t(node)].prio) {
    case 0: stlab::high_executor(std::move(b)); break;
    case 1: stlab::default_executor(std::move(b)); break;
    default: stlab::low_executor(std::move(b));
    }
}
stlab::executor_t executor_of(int node) {
    switch (g_t[std::size_t(node)].prio) {
    case 0: return stlab::high_executor;
    case 1: return stlab::default_executor;
    default: return stlab::low_executor;
    }
}
Fut async_(int node) {
    Body b(node);
    switch (g_t[std::size_t(node)].prio) {
    case 0: return stlab::async(stlab::high_executor, std::move(b));
    case 1: return stlab::async(stlab::default_executor, std::move(b));
    default: return stlab::async(stlab::low_executor, std::move(b));
    }
}
void perform(const std::vector<Action>& acts, Futs& f) {
    auto take = [&](int node) -> Fut {
        for (auto i = f.v.begin(); i != f.v.end(); ++i)
            if (i->first == node) {
                Fut r = std::move(i->second);
                f.v.erase(i);
                return r;
            }
        det::fail("harness: no such future");
    };
    for (auto& a : acts) switch (a.k) {
        case SUBMIT: submit(a.node); break;
        case ASYNC: f.v.emplace_back(a.node, async_(a.node)); break;
        case CONT: { // replaces the future of a.node by that of a continuation
            int pre = int(a.ns);
            Fut x = take(pre);
            f.v.emplace_back(a.node, std::move(x).then(executor_of(a.node), [b = Body(a.node)](int) noexcept { return b(); }));
            break;
        }
        case WAIT: {
            int v = stlab::await(take(a.node));
            DET_CHECK(*g_c, v == a.node * 3 + 1, "await gives " << v << " for task " << a.node);
            break;
        }
        case WAIT_FOR: {
            Fut x = take(a.node);
            auto t0 = std::chrono::steady_clock::now();
            Fut y = stlab::await_for(std::move(x), std::chrono::nanoseconds(a.ns));
            if (!y.is_ready()) DET_CHECK(*g_c, std::chrono::steady_clock::now() - t0 >= std::chrono::nanoseconds(a.ns), "await_for gave up early");
            f.v.emplace_back(a.node, std::move(y));
            break;
        }
        case PAUSE:
            if (a.ns)
                std::this_thread::sleep_for(std::chrono::nanoseconds(a.ns));
            else
                det::point();
        }
    // futures still held are detached: their tasks must run
    for (auto& e : f.v) e.second.detach();
}

struct Params {
    int max_tasks = 14;
    int max_waits = 0;
    bool pauses = true;
    bool pusher = false;
};

std::string show(const std::vector<Action>& v) {
    std::ostringstream s;
    for (auto& a : v) {
        static const char* n[] = {"submit", "async", "wait", "pause", "wait_for", "continue"};
        s << " " << n[a.k];
        if (a.node >= 0) s << " " << a.node;
        if (a.k == CONT) s << " after " << a.ns;
        if (a.ns && a.k != CONT) s << " (" << a.ns << " ns)";
    }
    return s.str();
}

// fills in what a thread or a task does; tasks it creates are generated in turn
void generate(pbt::Src& s, const Params& p, std::vector<Action>& out, int self, int depth) {
    int n = depth == 0 ? s.range(1, 6) : s.range(0, 3);
    std::vector<int> futs;
    for (int i = 0; i < n; ++i) {
        Action a{};
        bool room = int(g_t.size()) < p.max_tasks && depth < 5;
        std::vector<std::uint32_t> w = {room ? 5u : 0u, room && p.max_waits ? 4u : room ? 1u : 0u, futs.empty() || g_waits >= p.max_waits ? 0u : 5u, p.pauses ? 2u : 1u,
                                        futs.empty() || g_waits >= p.max_waits ? 0u : 2u, room && !futs.empty() ? 1u : 0u};
        unsigned sum = 0;
        for (auto x : w) sum += x;
        std::uint64_t r = s.draw(sum);
        int k = 0;
        while (r >= w[std::size_t(k)]) r -= w[std::size_t(k++)];
        a.k = Step(k);
        switch (a.k) {
        case SUBMIT:
        case ASYNC:
        case CONT: {
            int id = int(g_t.size());
            g_t.emplace_back();
            g_t.back().prio = int(s.weighted({2, 4, 2}));
            g_t.back().parent = self;
            g_t.back().fut = a.k != SUBMIT;
            a.node = id;
            if (a.k == CONT) {
                std::size_t j = s.draw(futs.size());
                a.ns = futs[j];
                futs[j] = id;
                g_t[std::size_t(id)].cont = true;
            }
            if (a.k == ASYNC) futs.push_back(id);
            std::vector<Action> sub;
            generate(s, p, sub, id, depth + 1);
            g_t[std::size_t(id)].acts = sub;
            break;
        }
        case WAIT: {
            std::size_t j = s.draw(futs.size());
            a.node = futs[j];
            futs.erase(futs.begin() + std::ptrdiff_t(j));
            ++g_waits;
            break;
        }
        case WAIT_FOR:
            a.node = futs[s.draw(futs.size())];
            a.ns = s.range(0, 20) * 100;
            ++g_waits;
            break;
        case PAUSE: a.ns = p.pauses ? s.range(0, 10) * 100 : 0; break;
        }
        out.push_back(a);
    }
}

void log_program(pbt::Case& c, const det::Config& cfg) {
    PBT_LOG(c, "cores " << cfg.cores);
    for (std::size_t i = 0; i < g_ext.size(); ++i) PBT_LOG(c, "thread " << i << ":" << show(g_ext[i]));
    for (std::size_t i = 0; i < g_t.size(); ++i) PBT_LOG(c, "task " << i << " (priority " << g_t[i].prio << "):" << show(g_t[i].acts));
}
void draw_program(pbt::Case& c, const Params& p, int min_threads) {
    g_c = &c;
    g_t.clear();
    g_t.reserve(64);
    g_ext.clear();
    g_ext_ids.clear();
    g_waits = 0;
    int n = c.src.range(min_threads, 3);
    g_ext.resize(std::size_t(n));
    for (auto& e : g_ext) {
        if (p.pusher && &e != &g_ext[0]) break;
        generate(c.src, p, e, -1, 0);
    }
    for (std::size_t i = 1; p.pusher && i < g_ext.size(); ++i) {
        // a thread that keeps submitting small tasks
        int k = c.src.range(1, 8);
        for (int j = 0; j < k; ++j) {
            if (c.src.chance(1, 4)) g_ext[i].push_back({PAUSE, -1, c.src.range(0, 5) * 100});
            g_ext[i].push_back({SUBMIT, int(g_t.size()), 0});
            g_t.emplace_back();
            g_t.back().prio = c.src.range(0, 2);
        }
    }
}
struct Ext {
    std::vector<std::thread> th;
    std::vector<Futs> futs;
    Ext() : futs(g_ext.size()) {
        {
            det::Quiet q;
            g_ext_ids.insert(det::self_id());
        }
        for (std::size_t i = 1; i < g_ext.size(); ++i)
            th.emplace_back([this, i] {
                {
                    det::Quiet q;
                    g_ext_ids.insert(det::self_id());
                }
                perform(g_ext[i], futs[i]);
            });
        perform(g_ext[0], futs[0]);
    }
    void join() {
        for (auto& e : th) e.join();
        th.clear();
    }
};
void check_all_ran(pbt::Case& c, const char* when) {
    det::Quiet q;
    for (std::size_t i = 0; i < g_t.size(); ++i) {
        PBT_CHECK(c, g_t[i].runs == 1, "task " << i << " has run " << g_t[i].runs << " times " << when);
        PBT_CHECK(c, !g_t[i].running, "task " << i << " is still running " << when);
    }
}
void check_released(pbt::Case& c) {
    det::Quiet q;
    for (std::size_t i = 0; i < g_t.size(); ++i) PBT_CHECK(c, g_t[i].live == 0, g_t[i].live << " instances of the function of task " << i << " are left");
}
unsigned count_of(unsigned cores) { return std::max(1u, std::max(1u, cores) - 1); }
unsigned limit_of(unsigned cores) { return std::max(9u, std::max(1u, cores) * 4 + 1); }

void finish(pbt::Case& c) {
    auto st = det::stats();
    c.nontrivial = st.preemptions >= 2 && g_t.size() >= 3;
    c.tag("tasks", g_t.size());
    c.tag("waits", std::uint64_t(g_waits));
    c.tag("preemptions", st.preemptions);
    c.tag("schedule points", st.points);
    c.tag("threads", det::threads_created());
}

// ------------------------------------------------------------------ E01, E06
void run_pool(pbt::Case& c, const Params& p) {
    draw_program(c, p, 1);
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(c.src.range(0, 4));
    if (c.logging) log_program(c, cfg);
    det::go(c, cfg, [&] {
        {
            Ext e;
            e.join();
            det::settle(true);
            check_all_ran(c, "when everything is quiet");
        }
        unsigned pool = det::threads_created() - unsigned(g_ext.size());
        DET_CHECK(c, pool <= limit_of(cfg.cores), "the pool has " << pool << " threads, its limit is " << limit_of(cfg.cores));
        DET_CHECK(c, pool <= count_of(cfg.cores) + unsigned(g_waits), "the pool has " << pool << " threads after " << g_waits << " waits");
        stlab::pre_exit();
        check_all_ran(c, "after pre_exit");
        check_released(c);
    });
    finish(c);
}
PBT_PROP_FORKED(E01, "at least 3 tasks and at least 2 preemptions") {
    Params p;
    p.max_waits = c.src.chance(1, 3) ? 5 : 0;
    p.pusher = c.src.chance(1, 4);
    p.max_tasks = 16;
    run_pool(c, p);
}
// Tasks on the pool wait for results of tasks that other threads submit later.
void run_late(pbt::Case& c) {
    auto& s = c.src;
    g_c = &c;
    g_t.clear();
    g_t.reserve(64);
    g_ext.clear();
    g_ext_ids.clear();
    int nw = s.range(1, 5);     // tasks that wait
    int nl = s.range(1, 4);     // tasks waited for
    int nx = s.range(0, 4);     // others
    g_waits = nw;
    int ne = s.range(1, 3);
    struct W {
        int late, prio;
        std::int64_t ns;
    };
    std::vector<W> w;
    std::vector<std::int64_t> pause;
    for (int i = 0; i < nw; ++i) w.push_back({s.range(0, nl - 1), s.range(0, 2), s.chance(1, 3) ? s.range(0, 10) * 100 : 0});
    for (int i = 0; i < nl + nx; ++i) {
        g_t.emplace_back();
        g_t.back().prio = s.range(0, 2);
    }
    // order in which the threads outside submit: waiters w, then late tasks and others
    struct E {
        char k;
        int i;
        std::int64_t ns;
    };
    std::vector<std::vector<E>> ext(static_cast<std::size_t>(ne));
    auto put = [&](char k, int i) { ext[s.draw(ext.size())].push_back({k, i, s.chance(1, 4) ? s.range(0, 20) * 100 : 0}); };
    for (int i = 0; i < nw; ++i) put('w', i);
    for (int i = 0; i < nx; ++i) put('x', nl + i);
    for (int i = 0; i < nl; ++i) put('l', i);
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(s.range(1, 4));
    if (c.logging) {
        PBT_LOG(c, "cores " << cfg.cores);
        for (std::size_t t = 0; t < ext.size(); ++t) {
            std::ostringstream o;
            for (auto& e : ext[t]) {
                if (e.ns) o << " pause " << e.ns << ",";
                if (e.k == 'w')
                    o << " submit a task that waits for task " << w[std::size_t(e.i)].late << ",";
                else
                    o << " submit task " << e.i << " (priority " << g_t[std::size_t(e.i)].prio << "),";
            }
            PBT_LOG(c, "thread " << t << ":" << o.str());
        }
    }
    int done = 0;
    det::go(c, cfg, [&] {
        {
            std::vector<stlab::packaged_task<>> task;
            std::vector<Fut> fut;
            for (int i = 0; i < nl; ++i) {
                auto p = stlab::package<int()>(stlab::immediate_executor, Body(i));
                task.push_back(std::move(p.first));
                fut.push_back(std::move(p.second));
            }
            auto body = [&](std::size_t t) {
                {
                    det::Quiet q;
                    g_ext_ids.insert(det::self_id());
                }
                for (auto& e : ext[t]) {
                    if (e.ns) std::this_thread::sleep_for(std::chrono::nanoseconds(e.ns));
                    if (e.k == 'w') {
                        const W& x = w[std::size_t(e.i)];
                        auto f = [&done, x, f = fut[std::size_t(x.late)]]() mutable noexcept {
                            if (x.ns) std::this_thread::sleep_for(std::chrono::nanoseconds(x.ns));
                            int v = stlab::await(std::move(f));
                            DET_CHECK(*g_c, v == x.late * 3 + 1, "await gives " << v << " for task " << x.late);
                            det::Quiet q;
                            ++done;
                        };
                        if (x.prio == 0)
                            stlab::high_executor(std::move(f));
                        else if (x.prio == 1)
                            stlab::default_executor(std::move(f));
                        else
                            stlab::low_executor(std::move(f));
                    } else if (e.k == 'l')
                        executor_of(e.i)([p = std::move(task[std::size_t(e.i)])]() mutable noexcept { p(); });
                    else
                        submit(e.i);
                }
            };
            std::vector<std::thread> th;
            for (std::size_t t = 1; t < ext.size(); ++t) th.emplace_back([&, t] { body(t); });
            body(0);
            for (auto& e : th) e.join();
            det::settle(true);
            check_all_ran(c, "when everything is quiet");
            DET_CHECK(c, done == nw, done << " of " << nw << " waits have ended when everything is quiet");
        }
        stlab::pre_exit();
        check_released(c);
    });
    finish(c);
    c.tag("waits for tasks submitted later");
}
PBT_PROP_FORKED(E01L, "at least 3 tasks and at least 2 preemptions") { run_late(c); }
PBT_PROP_FORKED(E06, "at least 3 tasks and at least 2 preemptions") {
    Params p;
    p.pusher = c.src.chance(1, 2);
    p.max_waits = 7; // a thread is left for the tasks waited for, whatever the number of cores
    run_pool(c, p);
}

// Rounds of waits that begin while every other thread of the pool is idle: they need no more threads than there are.
int wait_chain(int depth, int prio) {
    det::settle();
    if (!depth) return 1;
    auto f = [depth, prio] { return wait_chain(depth - 1, prio) + 1; };
    auto r = prio == 0 ? stlab::async(stlab::high_executor, f) : prio == 1 ? stlab::async(stlab::default_executor, f) : stlab::async(stlab::low_executor, f);
    return stlab::await(std::move(r));
}
void run_rounds(pbt::Case& c) {
    auto& s = c.src;
    g_c = &c;
    struct Round {
        int depth, waits, prio, small;
    };
    std::vector<Round> rs;
    int nr = s.range(2, 8), most = 0, waits = 0;
    for (int i = 0; i < nr; ++i) {
        Round r{};
        r.depth = s.chance(1, 3) ? s.range(1, 4) : 1;
        r.waits = s.range(1, 3);
        r.prio = s.range(0, 2);
        r.small = s.chance(1, 2) ? s.range(0, 6) : 0;
        most = std::max(most, r.depth);
        waits += r.depth * r.waits;
        rs.push_back(r);
    }
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(s.range(1, 6));
    if (c.logging) {
        PBT_LOG(c, "cores " << cfg.cores);
        for (auto& r : rs) PBT_LOG(c, "round: " << r.small << " small tasks, then a task that waits " << r.waits << " times, " << r.depth << " deep, priority " << r.prio);
    }
    int runs = 0, ended = 0;
    det::go(c, cfg, [&] {
        int small = 0;
        for (auto& r : rs) {
            for (int k = 0; k < r.small; ++k, ++small)
                stlab::default_executor([&runs]() noexcept {
                    det::Quiet q;
                    ++runs;
                });
            det::settle(true);
            stlab::default_executor([&ended, r]() noexcept {
                for (int k = 0; k < r.waits; ++k) {
                    int v = wait_chain(r.depth, r.prio);
                    DET_CHECK(*g_c, v == r.depth + 1, "a chain of " << r.depth << " waits gives " << v);
                }
                det::Quiet q;
                ++ended;
            });
            det::settle(true);
        }
        det::Quiet q;
        DET_CHECK(c, ended == int(rs.size()), ended << " of " << rs.size() << " waiting tasks have ended when everything is quiet");
        DET_CHECK(c, runs == small, runs << " of " << small << " tasks have run when everything is quiet");
        // A thread that was notified for a task somebody else has taken may not be idle again yet.
        unsigned n = count_of(cfg.cores), need = most > 1 ? std::max(n, unsigned(most) + 3) : std::max(n, n == 1 ? 2u : 3u);
        unsigned pool = det::threads_created() - 1;
        DET_CHECK(c, pool <= std::min(need, limit_of(cfg.cores)), "the pool has " << pool << " threads although at most " << most << " of its tasks waited at a time and every wait began while the other threads were idle");
    });
    c.nontrivial = waits >= 3;
    c.tag("waits", std::uint64_t(waits));
    c.tag("threads", det::threads_created());
    c.tag("preemptions", det::stats().preemptions);
}
PBT_PROP_FORKED(E06R, "at least 3 waits") { run_rounds(c); }

// More tasks wait for what a thread outside of the pool gives than the pool may have threads: it grows up to its limit,
// and everything runs once the first results are there.
void run_flood(pbt::Case& c) {
    auto& s = c.src;
    g_c = &c;
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(s.range(0, 5));
    const int limit = int(limit_of(cfg.cores));
    const int waits = s.chance(1, 2) ? s.range(1, limit - 1) : s.range(limit, 3 * limit);
    struct G {
        int result, prio;
    };
    const int nres = s.range(1, 3), small = s.range(0, 12);
    std::vector<G> g;
    for (int i = 0; i < waits; ++i) g.push_back({s.range(0, nres - 1), s.range(0, 2)});
    const bool quiet = s.chance(2, 3);
    PBT_LOG(c, "cores " << cfg.cores << ", " << waits << " tasks wait for " << nres << " results from outside of the pool" << (quiet ? ", which come when everything else is quiet" : "") << "; " << small << " other tasks");
    int ended = 0, runs = 0;
    det::go(c, cfg, [&] {
        std::vector<stlab::packaged_task<>> task;
        std::vector<Fut> fut;
        for (int i = 0; i < nres; ++i) {
            auto p = stlab::package<int()>(stlab::immediate_executor, [i] { return i * 5 + 2; });
            task.push_back(std::move(p.first));
            fut.push_back(std::move(p.second));
        }
        for (auto& e : g) {
            auto f = [&ended, r = e.result, f = fut[std::size_t(e.result)]]() mutable noexcept {
                int v = stlab::await(std::move(f));
                DET_CHECK(*g_c, v == r * 5 + 2, "await gives " << v << " instead of " << r * 5 + 2);
                det::Quiet q;
                ++ended;
            };
            if (e.prio == 0)
                stlab::high_executor(std::move(f));
            else if (e.prio == 1)
                stlab::default_executor(std::move(f));
            else
                stlab::low_executor(std::move(f));
        }
        for (int k = 0; k < small; ++k)
            stlab::default_executor([&runs]() noexcept {
                det::Quiet q;
                ++runs;
            });
        fut.clear();
        if (quiet) det::settle();
        {
            det::Quiet q;
            if (quiet && waits < limit) DET_CHECK(c, runs == small, "with " << waits << " tasks waiting " << runs << " of " << small << " tasks have run, although the pool may have " << limit << " threads");
            if (quiet) DET_CHECK(c, ended == 0, ended << " waits have ended without a result");
        }
        for (auto& t : task) t();
        task.clear();
        det::settle(true);
        det::Quiet q;
        DET_CHECK(c, ended == waits, ended << " of " << waits << " waiting tasks have ended when everything is quiet");
        DET_CHECK(c, runs == small, runs << " of " << small << " tasks have run when everything is quiet");
        int pool = int(det::threads_created()) - 1;
        DET_CHECK(c, pool <= limit, "the pool has " << pool << " threads, its limit is " << limit);
        DET_CHECK(c, pool <= int(count_of(cfg.cores)) + waits, "the pool has " << pool << " threads after " << waits << " waits");
        if (waits >= limit) g_c->tag("more waits than threads");
    });
    c.nontrivial = waits >= 3;
    c.tag("waits", std::uint64_t(waits));
    c.tag("threads", det::threads_created());
    c.tag("preemptions", det::stats().preemptions);
}
PBT_PROP_FORKED(E06F, "at least 3 waits") { run_flood(c); }

// ------------------------------------------------------------------ E02
struct Job {
    int prio = 1;
    std::uint64_t sub_begin = 0, sub_end = 0, start = 0, end = 0;
    std::int64_t ns = 0;
    std::vector<int> sub; // jobs it submits
};
std::vector<Job> g_j;
std::uint64_t g_clock;
std::uint64_t tick() {
    det::Quiet q;
    return ++g_clock;
}
void submit_job(int i);
struct JobFn {
    int i;
    void operator()() const noexcept {
        {
            det::Quiet q;
            Job& j = g_j[std::size_t(i)];
            if (j.start) PBT_FAIL(*g_c, "job " << i << " runs a second time");
            j.start = ++g_clock;
        }
        if (g_j[std::size_t(i)].ns) std::this_thread::sleep_for(std::chrono::nanoseconds(g_j[std::size_t(i)].ns));
        for (int k : g_j[std::size_t(i)].sub) submit_job(k);
        g_j[std::size_t(i)].end = tick();
    }
};
void submit_job(int i) {
    g_j[std::size_t(i)].sub_begin = tick();
    switch (g_j[std::size_t(i)].prio) {
    case 0: stlab::high_executor(JobFn{i}); break;
    case 1: stlab::default_executor(JobFn{i}); break;
    default: stlab::low_executor(JobFn{i});
    }
    g_j[std::size_t(i)].sub_end = tick();
}
PBT_PROP_FORKED(E02, "at least 4 tasks were waiting at the same time") {
    auto& s = c.src;
    g_c = &c;
    g_clock = 0;
    g_j.clear();
    int nthreads = s.range(1, 3);
    int n = s.range(2, 24);
    g_j.resize(std::size_t(n) + 1);
    std::vector<std::vector<int>> ext(static_cast<std::size_t>(nthreads));
    int bias = s.range(0, 3); // one of the priorities may dominate
    for (int i = 1; i <= n; ++i) {
        Job& j = g_j[std::size_t(i)];
        j.prio = bias < 3 && s.chance(1, 3) ? bias : s.range(0, 2);
        if (s.chance(1, 3)) j.ns = s.range(1, 10) * 100;
        int by = i > 1 && s.chance(1, 5) ? s.range(1, i - 1) : 0;
        if (by)
            g_j[std::size_t(by)].sub.push_back(i);
        else
            ext[s.draw(ext.size())].push_back(i);
    }
    bool blocker = s.chance(2, 3);
    std::vector<std::vector<std::int64_t>> pause(ext.size());
    for (std::size_t t = 0; t < ext.size(); ++t)
        for (std::size_t k = 0; k < ext[t].size(); ++k) pause[t].push_back(s.chance(1, 6) ? s.range(1, 10) * 100 : 0);
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(s.range(1, 2));
    int earlier = s.chance(1, 8) ? s.range(1, 600) : 0; // tasks the pool has run before: the order must not depend on how many
    if (earlier) PBT_LOG(c, earlier << " tasks run before");
    if (c.logging) {
        PBT_LOG(c, "cores " << cfg.cores << (blocker ? ", the worker is busy while the tasks are submitted" : ""));
        for (std::size_t t = 0; t < ext.size(); ++t) {
            std::ostringstream o;
            for (std::size_t k = 0; k < ext[t].size(); ++k) o << " " << ext[t][k] << (pause[t][k] ? "(pause)" : "");
            PBT_LOG(c, "thread " << t << " submits" << o.str());
        }
        for (std::size_t i = 1; i < g_j.size(); ++i) {
            std::ostringstream o;
            for (int k : g_j[i].sub) o << " " << k;
            PBT_LOG(c, "task " << i << " priority " << g_j[i].prio << " sleeps " << g_j[i].ns << " submits" << o.str());
        }
    }
    unsigned waiting = 0;
    det::go(c, cfg, [&] {
        for (int i = 0; i < earlier;) {
            for (int k = 0; k < 50 && i < earlier; ++k, ++i) stlab::low_executor([]() noexcept {});
            det::settle(true);
        }
        std::mutex m;
        std::condition_variable cv;
        bool open = !blocker, in = !blocker;
        if (blocker) {
            stlab::default_executor([&]() noexcept {
                std::unique_lock<std::mutex> l(m);
                in = true;
                cv.notify_all();
                while (!open) cv.wait(l);
            });
            std::unique_lock<std::mutex> l(m);
            while (!in) cv.wait(l);
        }
        auto body = [&](std::size_t t) {
            for (std::size_t k = 0; k < ext[t].size(); ++k) {
                if (pause[t][k]) std::this_thread::sleep_for(std::chrono::nanoseconds(pause[t][k]));
                submit_job(ext[t][k]);
            }
        };
        std::vector<std::thread> th;
        for (std::size_t t = 1; t < ext.size(); ++t) th.emplace_back([&, t] { body(t); });
        body(0);
        for (auto& e : th) e.join();
        if (blocker) {
            std::unique_lock<std::mutex> l(m);
            g_j[0].end = tick();
            open = true;
            cv.notify_all();
        }
        det::settle(true);
        {
            det::Quiet q;
            std::vector<int> order;
            for (std::size_t i = 1; i < g_j.size(); ++i) {
                PBT_CHECK(c, g_j[i].start && g_j[i].end, "task " << i << " never ran");
                order.push_back(int(i));
            }
            std::sort(order.begin(), order.end(), [](int a, int b) { return g_j[std::size_t(a)].start < g_j[std::size_t(b)].start; });
            std::uint64_t prev_end = blocker ? g_j[0].end : 0;
            for (std::size_t k = 0; k < order.size(); ++k) {
                const Job& x = g_j[std::size_t(order[k])];
                PBT_CHECK(c, x.start > prev_end, "two tasks run at the same time on a pool of one thread");
                unsigned w = 1;
                for (std::size_t l = k + 1; l < order.size(); ++l) { // those that start later
                    const Job& y = g_j[std::size_t(order[l])];
                    if (y.sub_end > prev_end) continue; // was not surely waiting when x was taken
                    ++w;
                    PBT_CHECK(c, x.prio <= y.prio, "task " << order[k] << " of priority " << x.prio << " is taken while task " << order[l] << " of priority " << y.prio << " waits");
                    PBT_CHECK(c, x.prio < y.prio || !(y.sub_end < x.sub_begin), "task " << order[k] << " is taken before task " << order[l] << " of the same priority, which was submitted earlier");
                }
                waiting = std::max(waiting, w);
                prev_end = x.end;
            }
        }
        stlab::pre_exit();
    });
    c.nontrivial = waiting >= 4;
    c.tag("most tasks waiting", waiting);
    if (earlier >= 200) c.tag("after 200 or more tasks");
    c.tag(blocker ? "submitted while the worker is busy" : "submitted while the worker runs");
    c.tag("preemptions", det::stats().preemptions);
}

// ------------------------------------------------------------------ E05
constexpr int NH = 8;
struct Handler {
    std::vector<int> registers; // handlers it registers
    std::vector<int> again;     // registrations that follow its own
    std::vector<Action> acts;   // work it gives to the pool (only handlers that run before the pool ends)
    int calls = 0;
};
std::vector<Handler> g_h;
std::vector<int> g_model; // the stack of handlers; -1 is the pool
std::vector<int> g_called;
bool g_pre_exit_running;
void register_handler(int i);
void call_handler(int i) {
    {
        det::Quiet q;
        Handler& h = g_h[std::size_t(i)];
        PBT_CHECK(*g_c, g_pre_exit_running, "a handler is called outside pre_exit");
        PBT_CHECK(*g_c, ++h.calls == 1, "handler " << i << " is called twice");
        while (!g_model.empty() && g_model.back() == -1) { // the pool ended in between
            g_model.pop_back();
            check_all_ran(*g_c, "after the pool's handler");
        }
        PBT_CHECK(*g_c, !g_model.empty() && g_model.back() == i, "handler " << i << " is called, the newest is " << (g_model.empty() ? -2 : g_model.back()));
        g_model.pop_back();
        g_called.push_back(i);
    }
    Futs f;
    perform(g_h[std::size_t(i)].acts, f);
    for (int k : g_h[std::size_t(i)].registers) register_handler(k);
}
template <int I>
void handler() noexcept {
    call_handler(I);
}
// Two functions that are registered any number of times, and are called once for each.
int g_again[2], g_again_calls[2];
void call_again(int k) {
    det::Quiet q;
    PBT_CHECK(*g_c, g_pre_exit_running, "a handler is called outside pre_exit");
    while (!g_model.empty() && g_model.back() == -1) {
        g_model.pop_back();
        check_all_ran(*g_c, "after the pool's handler");
    }
    PBT_CHECK(*g_c, !g_model.empty() && g_model.back() == 100 + k, "the handler registered repeatedly is called, the newest is " << (g_model.empty() ? -2 : g_model.back()));
    g_model.pop_back();
    ++g_again_calls[k];
}
void again0() noexcept { call_again(0); }
void again1() noexcept { call_again(1); }
void register_handler(int i) {
    static const stlab::pre_exit_handler t[NH] = {handler<0>, handler<1>, handler<2>, handler<3>, handler<4>, handler<5>, handler<6>, handler<7>};
    {
        det::Quiet q;
        g_model.push_back(i);
    }
    stlab::at_pre_exit(t[i]);
    for (int k : g_h[std::size_t(i)].again) {
        {
            det::Quiet q;
            g_model.push_back(100 + k);
            ++g_again[k];
        }
        stlab::at_pre_exit(k ? again1 : again0);
    }
}
PBT_PROP_FORKED(E05, "at least 2 handlers and 2 tasks, or one handler that registers another") {
    auto& s = c.src;
    Params p;
    p.max_tasks = 10;
    p.max_waits = 4;
    draw_program(c, p, 1);
    g_h.assign(NH, {});
    g_model.clear();
    g_called.clear();
    g_pre_exit_running = false;
    int nh = s.range(0, NH);
    bool use_pool = s.chance(3, 4);
    if (!use_pool) {
        g_t.clear();
        for (auto& e : g_ext) e.clear();
    }
    int before = use_pool ? s.range(0, nh) : nh; // handlers registered before the pool exists
    std::vector<int> pre, post;
    std::vector<int> order;
    for (int i = 0; i < nh; ++i) {
        std::vector<int> parents;
        for (int k = 0; k < i; ++k)
            if (true) parents.push_back(k);
        if (!parents.empty() && s.chance(1, 3))
            g_h[std::size_t(parents[s.draw(parents.size())])].registers.push_back(i);
        else if (i < before)
            pre.push_back(i);
        else
            post.push_back(i);
    }
    g_again[0] = g_again[1] = g_again_calls[0] = g_again_calls[1] = 0;
    for (int i = 0; i < nh; ++i)
        if (s.chance(1, 4))
            for (int k = s.chance(1, 8) ? s.range(1, 80) : s.range(1, 3); k > 0; --k) g_h[std::size_t(i)].again.push_back(int(s.draw(2)));
    std::set<int> early(pre.begin(), pre.end()); // these run after the pool's end, so do those they register
    for (int i = 0; i < nh; ++i)
        if (early.count(i))
            for (int k : g_h[std::size_t(i)].registers) early.insert(k);
    if (use_pool)
        for (int i : post)
            if (s.chance(1, 3)) generate(s, p, g_h[std::size_t(i)].acts, -1, 1);
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(s.range(0, 4));
    if (c.logging) {
        log_program(c, cfg);
        for (int i = 0; i < nh; ++i) {
            std::ostringstream o;
            for (int k : g_h[std::size_t(i)].registers) o << " " << k;
            if (!g_h[std::size_t(i)].again.empty()) o << ", followed by " << g_h[std::size_t(i)].again.size() << " repeated ones";
            PBT_LOG(c, "handler " << i << (early.count(i) ? " (before the pool)" : "") << ": registers" << o.str() << ", does" << show(g_h[std::size_t(i)].acts));
        }
    }
    det::go(c, cfg, [&] {
        for (int i : pre) register_handler(i);
        if (use_pool) {
            (void)stlab::detail::pts();
            det::Quiet q;
            g_model.push_back(-1);
        }
        {
            Ext e;
            for (int i : post) register_handler(i);
            e.join();
        }
        g_pre_exit_running = true;
        stlab::pre_exit();
        g_pre_exit_running = false;
        {
            det::Quiet q;
            for (int k = 0; k < 2; ++k) PBT_CHECK(c, g_again_calls[k] == g_again[k], "a handler registered " << g_again[k] << " times was called " << g_again_calls[k] << " times");
            for (int i = 0; i < nh; ++i) PBT_CHECK(c, g_h[std::size_t(i)].calls == 1, "handler " << i << " was called " << g_h[std::size_t(i)].calls << " times");
        }
        {
            det::Quiet q;
            for (std::size_t i = 0; i < g_t.size(); ++i) PBT_CHECK(c, !g_t[i].running, "task " << i << " is still running after pre_exit");
            // tasks submitted before pre_exit began, or by its handlers
            for (auto& v : g_ext)
                for (auto& a : v)
                    if (a.k == SUBMIT || a.k == ASYNC) PBT_CHECK(c, g_t[std::size_t(a.node)].runs == 1, "task " << a.node << " was submitted before pre_exit and has run " << g_t[std::size_t(a.node)].runs << " times");
            for (auto& h : g_h)
                for (auto& a : h.acts)
                    if (a.k == SUBMIT || a.k == ASYNC) PBT_CHECK(c, g_t[std::size_t(a.node)].runs == 1, "task " << a.node << " was submitted by a handler and has run " << g_t[std::size_t(a.node)].runs << " times");
        }
        det::settle();
        check_released(c);
    });
    bool nested = false;
    for (auto& h : g_h) nested |= !h.registers.empty();
    c.nontrivial = (nh >= 2 && g_t.size() >= 2) || nested;
    c.tag("handlers", std::uint64_t(nh));
    if (g_again[0] > 1 || g_again[1] > 1) c.tag("handlers registered repeatedly");
    if (g_again[0] + g_again[1] > 30) c.tag("more than 30 handlers");
    c.tag("tasks", g_t.size());
    if (nested) c.tag("handlers that register handlers");
    c.tag("preemptions", det::stats().preemptions);
}

} // namespace
