// E03: serial queues under the controlled scheduler.
#include "det.hpp"

#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/executor_base.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/pre_exit.hpp>

namespace {

pbt::Case* g_c;

// Where the queues run: the pool, the caller, or a set of workers that take work in an order of their own
struct Workers {
    std::mutex m;
    std::condition_variable cv;
    std::deque<stlab::task<void() noexcept>> q;
    std::vector<std::thread> th;
    bool done = false, lifo = false;
    void start(int n) {
        for (int i = 0; i < n; ++i)
            th.emplace_back([this] {
                while (true) {
                    stlab::task<void() noexcept> t;
                    {
                        std::unique_lock<std::mutex> l(m);
                        while (q.empty() && !done) cv.wait(l);
                        if (q.empty()) return;
                        if (lifo) {
                            t = std::move(q.back());
                            q.pop_back();
                        } else {
                            t = std::move(q.front());
                            q.pop_front();
                        }
                    }
                    t();
                }
            });
    }
    void put(stlab::task<void() noexcept> t) {
        {
            std::lock_guard<std::mutex> l(m);
            q.push_back(std::move(t));
        }
        cv.notify_one();
    }
    void stop() {
        {
            std::lock_guard<std::mutex> l(m);
            done = true;
        }
        cv.notify_all();
        for (auto& e : th) e.join();
    }
};
Workers* g_w;

struct Job {
    int queue = 0;
    int how = 0;       // 0 executor, 1 async through the queue, 2 through a copy of the executor kept elsewhere, 3 async and await later
    bool throws = false;
    int gate = -1;     // waits for that job
    std::int64_t pause = 0, ns = 0;
    std::vector<int> sub;
    // observed
    std::uint64_t sub_begin = 0, sub_end = 0, start = 0, end = 0;
    int item = -1;
    int live = 0;
};
struct Item { // one call of the underlying executor by a queue
    int queue;
    std::uint64_t start = 0;
    int jobs = 0;
    int live = 0;
};
struct Queue {
    stlab::schedule_mode mode = stlab::schedule_mode::single;
    int ex = 0; // 0 pool, 1 low, 2 high, 3 workers, 4 immediate, 5 delayed
    std::int64_t delay = 0;
    int drop_after = -1; // the queue object goes away when that many jobs were submitted by thread 0
    int running = -1;
};
std::vector<Job> g_j;
std::vector<Queue> g_q;
std::deque<Item> g_items;
std::vector<std::optional<stlab::serial_queue_t>>* g_sq;
std::vector<std::function<void(stlab::task<void() noexcept>)>>* g_se;
std::vector<stlab::future<int>>* g_f; // by job, for gates
std::vector<std::pair<int, stlab::future<int>>>* g_kept;
std::mutex* g_m;
std::uint64_t g_clock;
thread_local int t_item = -1;

std::uint64_t tick() {
    det::Quiet q;
    return ++g_clock;
}
struct Tok {
    int* live;
    explicit Tok(int* x) : live(x) { add(1); }
    Tok(const Tok& o) : live(o.live) { add(1); }
    Tok(Tok&& o) noexcept : live(o.live) { add(1); }
    ~Tok() { add(-1); }
    void add(int d) {
        det::Quiet q;
        *live += d;
    }
    Tok& operator=(const Tok&) = delete;
};
void submit(int i);
void release_gate(int i);
struct Body {
    int i;
    Tok tok;
    std::shared_ptr<std::unique_ptr<int>> pay;
    explicit Body(int x) : i(x), tok(&g_j[std::size_t(x)].live), pay(std::make_shared<std::unique_ptr<int>>(std::make_unique<int>(x * 7 + 2))) {}
    int run(bool may_throw) const {
        Job& j = g_j[std::size_t(i)];
        {
            det::Quiet q;
            if (j.start) PBT_FAIL(*g_c, "task " << i << " runs a second time");
            Queue& k = g_q[std::size_t(j.queue)];
            if (k.running >= 0) PBT_FAIL(*g_c, "tasks " << k.running << " and " << i << " of queue " << j.queue << " run at the same time");
            k.running = i;
            j.start = ++g_clock;
            j.item = t_item;
            if (t_item >= 0) ++g_items[std::size_t(t_item)].jobs;
        }
        det::point();
        if (j.ns) std::this_thread::sleep_for(std::chrono::nanoseconds(j.ns));
        int v = **pay;
        if (j.gate >= 0) {
            int saved = t_item;
            int w = stlab::await(std::move((*g_f)[std::size_t(i)]));
            t_item = saved;
            DET_CHECK(*g_c, w == j.gate, "gate");
        }
        int saved = t_item; // an immediate executor runs other queues' tasks inside this one
        for (int k : j.sub) submit(k);
        t_item = saved;
        { std::lock_guard<std::mutex> l(*g_m); } // who ends the program knows that the tasks have ended
        {
            det::Quiet q;
            g_q[std::size_t(j.queue)].running = -1;
            j.end = ++g_clock;
        }
        release_gate(i);
        if (j.throws && may_throw) throw std::runtime_error("task");
        return v;
    }
};
struct VoidBody {
    Body b;
    void operator()() const noexcept { (void)b.run(false); }
};
std::vector<stlab::packaged_task<int>>* g_open; // by job: opens its gates

std::vector<int>* g_is_gate;
void release_gate(int i) {
    stlab::packaged_task<int> p = std::move((*g_open)[std::size_t(i)]);
    if ((*g_is_gate)[std::size_t(i)] >= 0) p(int(i));
}

struct Keep { // keeps the shared functions alive
    Body b;
    int operator()(int x) const {
        DET_CHECK(*g_c, x == 5, "argument " << x);
        return b.run(true);
    }
};
void submit(int i) {
    Job& j = g_j[std::size_t(i)];
    if (j.pause) std::this_thread::sleep_for(std::chrono::nanoseconds(j.pause));
    auto& q = (*g_sq)[std::size_t(j.queue)];
    auto& e = (*g_se)[std::size_t(j.queue)];
    j.sub_begin = tick();
    // only thread 0 destroys queue objects, and only queues all of whose tasks it submits itself
    if (!q || j.how == 2)
        e(VoidBody{Body(i)});
    else if (j.how == 0)
        q->executor()(VoidBody{Body(i)});
    else {
        auto f = (*q)(Keep{Body(i)}, 5);
        j.sub_end = tick();
        if (j.how == 1)
            f.detach();
        else {
            std::lock_guard<std::mutex> l(*g_m);
            g_kept->emplace_back(i, std::move(f));
        }
        return;
    }
    j.sub_end = tick();
}

void underlying(int q, stlab::task<void() noexcept> t) {
    Queue& k = g_q[std::size_t(q)];
    int id;
    {
        det::Quiet qq;
        id = int(g_items.size());
        g_items.push_back({q});
    }
    struct Run {
        stlab::task<void() noexcept> t;
        int id;
        Tok tok;
        void operator()() noexcept {
            int saved = t_item;
            t_item = id;
            {
                det::Quiet qq;
                if (g_items[std::size_t(id)].start) PBT_FAIL(*g_c, "the executor runs its task twice");
                g_items[std::size_t(id)].start = ++g_clock;
            }
            t();
            t_item = saved;
        }
    };
    Run r{std::move(t), id, Tok(&g_items[std::size_t(id)].live)};
    switch (k.ex) {
    case 0: stlab::default_executor(std::move(r)); break;
    case 1: stlab::low_executor(std::move(r)); break;
    case 2: stlab::high_executor(std::move(r)); break;
    case 3: g_w->put(std::move(r)); break;
    case 4: r(); break;
    default: stlab::execute_delayed(std::chrono::nanoseconds(k.delay), stlab::default_executor)(std::move(r));
    }
}

PBT_PROP_FORKED(E03, "at least 4 tasks, two of them submitted to one queue by different threads or from tasks") {
    auto& s = c.src;
    g_c = &c;
    g_clock = 0;
    g_j.clear();
    g_q.clear();
    g_items.clear();
    int nt = s.range(1, 3), nq = s.range(1, 3), n = s.range(2, 18);
    const bool bulk = s.chance(1, 12); // many tasks pile up behind the first of each queue
    if (bulk) {
        n = s.range(20, 320);
        nq = s.range(1, 2);
    }
    int nw = s.range(1, 3);
    bool lifo = s.chance(1, 4);
    for (int i = 0; i < nq; ++i) {
        Queue q;
        q.mode = s.chance(1, 2) ? stlab::schedule_mode::all : stlab::schedule_mode::single;
        q.ex = int(s.weighted({3, 1, 1, 4, 1, 1}));
        if (q.ex == 5) q.delay = s.range(0, 3) * 100;
        g_q.push_back(q);
    }
    g_j.resize(std::size_t(n));
    std::vector<std::vector<int>> ext(static_cast<std::size_t>(nt));
    std::vector<int> by(std::size_t(n), -1); // thread, or -1 - task
    int gates = 0;
    for (int i = 0; i < n; ++i) {
        Job& j = g_j[std::size_t(i)];
        j.queue = s.range(0, nq - 1);
        j.how = int(s.weighted({4, 1, 2, 2}));
        j.throws = (j.how == 1 || j.how == 3) && s.chance(1, 4);
        if (bulk) {
            j.queue = i < nq ? i : j.queue;
            if (i < nq) j.ns = 40000;
            else if (s.chance(1, 20)) j.ns = s.range(1, 8) * 100;
        } else {
            if (s.chance(1, 3)) j.ns = s.range(1, 8) * 100;
            if (s.chance(1, 5)) j.pause = s.range(1, 10) * 100;
        }
        if (i > 0 && s.chance(1, bulk ? 40 : 5)) {
            int p = s.range(0, i - 1);
            g_j[std::size_t(p)].sub.push_back(i);
            by[std::size_t(i)] = -2 - p;
        } else {
            int t = s.range(0, nt - 1);
            ext[std::size_t(t)].push_back(i);
            by[std::size_t(i)] = t;
        }
    }
    // gates: a task waits for one of another queue that an outside thread has submitted.  The tasks waited for are in
    // queues of higher index, so that there are no cycles, and there is a thread more than there are gates.
    std::vector<int> gate_of(std::size_t(n), -1);
    bool imm = false;
    for (auto& q : g_q) imm |= q.ex == 4;
    if (!imm && s.chance(1, 2))
        for (int i = 0; i < n; ++i) {
            Job& j = g_j[std::size_t(i)];
            if (gates >= 3 || !s.chance(1, 3)) continue;
            int k = s.range(0, n - 1);
            if (g_j[std::size_t(k)].queue > j.queue && by[std::size_t(k)] >= 0 && gate_of[std::size_t(k)] < 0) {
                j.gate = k;
                gate_of[std::size_t(k)] = i;
                ++gates;
            }
        }
    nw += gates;
    // queue objects that go away early: queues used by thread 0 only
    for (int q = 0; q < nq; ++q) {
        bool mine = true;
        int cnt = 0;
        for (int i = 0; i < n; ++i)
            if (g_j[std::size_t(i)].queue == q) {
                mine &= by[std::size_t(i)] == 0;
                ++cnt;
            }
        if (mine && cnt && s.chance(1, 2)) g_q[std::size_t(q)].drop_after = s.range(0, cnt);
    }
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(s.range(1, 4));
    if (c.logging) {
        static const char* ex[] = {"pool", "low", "high", "workers", "immediate", "delayed"};
        PBT_LOG(c, "cores " << cfg.cores << ", " << nw << " workers" << (lifo ? " (last in, first out)" : ""));
        for (int q = 0; q < nq; ++q)
            PBT_LOG(c, "queue " << q << ": " << (g_q[std::size_t(q)].mode == stlab::schedule_mode::all ? "all" : "single") << " on " << ex[g_q[std::size_t(q)].ex]
                                << (g_q[std::size_t(q)].drop_after >= 0 ? ", destroyed after its task number " + std::to_string(g_q[std::size_t(q)].drop_after) : ""));
        for (int t = 0; t < nt; ++t) {
            std::ostringstream o;
            for (int k : ext[std::size_t(t)]) o << " " << k;
            PBT_LOG(c, "thread " << t << " submits" << o.str());
        }
        for (int i = 0; i < n; ++i) {
            Job& j = g_j[std::size_t(i)];
            std::ostringstream o;
            if (j.gate >= 0) o << ", waits for " << j.gate;
            if (!j.sub.empty()) o << ", submits";
            for (int k : j.sub) o << " " << k;
            if (j.throws) o << ", throws";
            static const char* how[] = {"executor", "async, detached", "kept executor", "async, kept"};
            PBT_LOG(c, "task " << i << ": queue " << j.queue << " (" << how[j.how] << ")" << (j.ns ? ", sleeps" : "") << o.str());
        }
    }
    Workers workers;
    std::mutex m;
    std::vector<std::optional<stlab::serial_queue_t>> sq;
    std::vector<std::function<void(stlab::task<void() noexcept>)>> se;
    std::vector<stlab::future<int>> gf(static_cast<std::size_t>(n));
    std::vector<stlab::packaged_task<int>> open(static_cast<std::size_t>(n));
    std::vector<std::pair<int, stlab::future<int>>> kept;
    g_w = &workers;
    g_m = &m;
    g_sq = &sq;
    g_se = &se;
    g_f = &gf;
    g_open = &open;
    g_kept = &kept;
    g_is_gate = &gate_of;
    bool two_args = s.chance(1, 2);
    workers.lifo = lifo;
    det::go(c, cfg, [&] {
        for (int i = 0; i < n; ++i)
            if (g_j[std::size_t(i)].gate >= 0) {
                auto p = stlab::package<int(int)>(stlab::immediate_executor, [](int x) { return x; });
                open[std::size_t(g_j[std::size_t(i)].gate)] = std::move(p.first);
                gf[std::size_t(i)] = std::move(p.second);
            }
        for (int q = 0; q < nq; ++q) {
            auto f = [q](stlab::task<void() noexcept> t) { underlying(q, std::move(t)); };
            if (g_q[std::size_t(q)].mode == stlab::schedule_mode::single && !two_args)
                sq.emplace_back(stlab::serial_queue_t(f));
            else
                sq.emplace_back(stlab::serial_queue_t(f, g_q[std::size_t(q)].mode));
            se.emplace_back(sq.back()->executor());
        }
        workers.start(nw);
        std::vector<int> count(std::size_t(nq), 0);
        auto body = [&](int t) {
            for (int k : ext[std::size_t(t)]) {
                submit(k);
                int q = g_j[std::size_t(k)].queue;
                if (t == 0 && g_q[std::size_t(q)].drop_after == ++count[std::size_t(q)]) sq[std::size_t(q)].reset();
            }
        };
        std::vector<std::thread> th;
        for (int t = 1; t < nt; ++t) th.emplace_back([&, t] { body(t); });
        for (int q = 0; q < nq; ++q)
            if (g_q[std::size_t(q)].drop_after == 0) sq[std::size_t(q)].reset();
        body(0);
        for (auto& e : th) e.join();
        det::settle(true);
        {
            det::Quiet q;
            for (int i = 0; i < n; ++i) PBT_CHECK(c, g_j[std::size_t(i)].end != 0, "task " << i << (g_j[std::size_t(i)].start ? " has not ended" : " has not run") << " when everything is quiet");
        }
        { std::lock_guard<std::mutex> l(m); }
        sq.clear();
        se.clear();
        workers.stop();
        for (auto& e : kept) {
            bool threw = false;
            int v = 0;
            try {
                v = stlab::await(std::move(e.second));
            } catch (const std::runtime_error&) {
                threw = true;
            }
            DET_CHECK(c, threw == g_j[std::size_t(e.first)].throws && (threw || v == e.first * 7 + 2), "the future of task " << e.first << " holds " << (threw ? "an exception" : std::to_string(v)));
        }
        kept.clear();
        gf.clear();
        open.clear();
        (void)stlab::detail::pts();
        stlab::pre_exit();
        det::Quiet q;
        for (int i = 0; i < n; ++i) {
            Job& a = g_j[std::size_t(i)];
            PBT_CHECK(c, a.live == 0, a.live << " instances of the function of task " << i << " are left");
            PBT_CHECK(c, a.start > a.sub_begin, "task " << i << " ran before it was submitted");
            for (int k = 0; k < n; ++k) {
                Job& b = g_j[std::size_t(k)];
                if (i != k && a.queue == b.queue && a.sub_end < b.sub_begin) PBT_CHECK(c, a.end < b.start, "task " << k << " runs before task " << i << ", which was submitted before it to the same queue");
            }
        }
        for (std::size_t id = 0; id < g_items.size(); ++id) {
            Item& it = g_items[id];
            PBT_CHECK(c, it.start && it.live == 0, "a task the queue gave to its executor was not run or not released");
            PBT_CHECK(c, it.jobs > 0, "queue " << it.queue << " went to its executor for nothing");
            if (g_q[std::size_t(it.queue)].mode == stlab::schedule_mode::single) {
                PBT_CHECK(c, it.jobs == 1, "in single mode, " << it.jobs << " tasks ran without returning to the executor");
                continue;
            }
            std::uint64_t first = 0;
            for (auto& j : g_j)
                if (j.item == int(id) && (!first || j.start < first)) first = j.start;
            for (int i = 0; i < n; ++i) {
                Job& j = g_j[std::size_t(i)];
                if (j.queue != it.queue) continue;
                if (j.item == int(id)) PBT_CHECK(c, j.sub_begin < first, "in all mode, task " << i << " was submitted while a batch was running and ran in it");
                if (j.sub_end < it.start && j.end > it.start) PBT_CHECK(c, j.item == int(id), "in all mode, task " << i << " was queued and did not run with the batch");
            }
        }
    });
    bool mixed = false;
    for (int i = 0; i < n; ++i)
        for (int k = 0; k < i; ++k) mixed |= g_j[std::size_t(i)].queue == g_j[std::size_t(k)].queue && by[std::size_t(i)] != by[std::size_t(k)];
    c.nontrivial = n >= 4 && mixed;
    if (n >= 100) c.tag("100 or more tasks");
    c.tag("tasks", std::uint64_t(n));
    if (gates) c.tag("with tasks that wait for other queues");
    for (auto& q : g_q) {
        c.tag(q.mode == stlab::schedule_mode::all ? "all mode" : "single mode");
        if (q.drop_after >= 0) c.tag("queue destroyed early");
    }
    c.tag("preemptions", det::stats().preemptions);
}

} // namespace
