// E04: the system timer, execute_at and execute_delayed, in virtual time under the controlled scheduler.
#include "det.hpp"

#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/executor_base.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/system_timer.hpp>
#include <stlab/pre_exit.hpp>

namespace {

using clk = std::chrono::steady_clock;
using ns = std::chrono::nanoseconds;
pbt::Case* g_c;

enum Way { DIRECT, EXEC, ASYNC, THEN };
struct Item {
    Way way = DIRECT;
    int ex = -1;      // delayed executor used
    int unit = 0;     // how a direct delay is written
    std::int64_t d = 0;
    std::int64_t pause_before = 0, pause_in = 0;
    std::vector<int> sub; // items scheduled when this one runs
    int fut_of = -1;      // THEN: continues that one
    // observed
    std::int64_t lo = 0, hi = 0; // due time is within [lo, hi]
    std::uint64_t sched_end = 0, start = 0, end = 0;
    std::int64_t start_ns = 0;
    int runs = 0, thread = -1, by = -1, live = 0;
    bool scheduled = false;
    bool far = false; // so late that the clock has no time for it: it must not run
};
struct Delayed {
    std::int64_t d = 0;
    int under = 0; // 0 immediate, 1 pool, 2 low, 3 high
    int made = 0;  // execute_at, execute_delayed, the deprecated one
    std::int64_t drift = 0; // time that passed while it was made
    int calls = 0;
    stlab::executor_t e;
};
std::vector<Item> g_i;
std::vector<Delayed> g_d;
std::uint64_t g_clock;
stlab::detail::system_timer* g_local; // the timer object used instead of the global one
bool g_ended;
std::mutex* g_done; // who ends a program knows that its tasks have ended

std::uint64_t tick() { return ++g_clock; }

struct Tok {
    int t;
    explicit Tok(int x) : t(x) { add(1); }
    Tok(const Tok& o) : t(o.t) { add(1); }
    Tok(Tok&& o) noexcept : t(o.t) { add(1); }
    ~Tok() { add(-1); }
    void add(int d) {
        det::Quiet q;
        g_i[std::size_t(t)].live += d;
    }
    Tok& operator=(const Tok&) = delete;
};
void schedule(int i);
struct Body {
    Tok tok;
    std::shared_ptr<std::unique_ptr<int>> pay;
    explicit Body(int i) : tok(i), pay(std::make_shared<std::unique_ptr<int>>(std::make_unique<int>(i))) {}
    int operator()() const noexcept {
        Item& it = g_i[std::size_t(tok.t)];
        {
            det::Quiet q;
            if (g_ended) PBT_FAIL(*g_c, "item " << tok.t << " starts after the end of its timer");
            if (++it.runs > 1) PBT_FAIL(*g_c, "item " << tok.t << " runs a second time");
            it.start = tick();
            it.start_ns = det::now_ns();
            it.thread = det::self_id();
        }
        det::point();
        if (it.pause_in) std::this_thread::sleep_for(ns(it.pause_in));
        int v = **pay;
        for (int k : it.sub) schedule(k);
        { std::lock_guard<std::mutex> l(*g_done); }
        det::Quiet q;
        it.end = tick();
        return v;
    }
};
struct VoidBody {
    Body b;
    void operator()() const noexcept { (void)b(); }
};

template <class D>
void direct(D d, int i) {
    if (g_local)
        (*g_local)(d, VoidBody{Body(i)});
    else
        stlab::system_timer(d, VoidBody{Body(i)});
}
void schedule(int i) {
    Item& it = g_i[std::size_t(i)];
    if (it.pause_before) std::this_thread::sleep_for(ns(it.pause_before));
    {
        det::Quiet q;
        it.by = det::self_id();
        it.scheduled = true;
        if (it.far)
            it.lo = INT64_MAX;
        else
            it.lo = det::now_ns() + it.d - (it.ex >= 0 ? g_d[std::size_t(it.ex)].drift : 0);
    }
    switch (it.way) {
    case DIRECT:
        if (it.far) switch (it.unit) {
            case 0: direct(ns(INT64_MAX - it.d), i); return;
            case 1: direct(std::chrono::hours(std::chrono::hours::max()), i); return;
            case 2: direct(std::chrono::milliseconds(INT64_MAX / 1000000 - it.d), i); return;
            default: direct(std::chrono::minutes(INT64_MAX / 60000000000 + 1), i); return;
            }
        switch (it.unit) {
        case 0: direct(ns(it.d), i); break;
        case 1: direct(std::chrono::microseconds(it.d / 1000), i); break;
        case 2: direct(std::chrono::milliseconds(it.d / 1000000), i); break;
        default:
            if (g_local)
                (*g_local)(clk::now() + ns(it.d), VoidBody{Body(i)});
            else
                stlab::system_timer(clk::now() + ns(it.d), stlab::task<void() noexcept>(VoidBody{Body(i)}));
        }
        break;
    case EXEC: g_d[std::size_t(it.ex)].e(VoidBody{Body(i)}); break;
    case ASYNC: {
        auto f = stlab::async(g_d[std::size_t(it.ex)].e, Body(i));
        if (it.fut_of >= 0) { // a continuation on another delayed executor; due a delay after the result
            Item& k = g_i[std::size_t(it.fut_of)];
            {
                det::Quiet q;
                k.scheduled = true;
                k.by = det::self_id();
            }
            auto r = std::move(f).then(g_d[std::size_t(k.ex)].e, [b = Body(it.fut_of)](int) noexcept { return b(); });
            r.detach();
        } else
            f.detach();
        break;
    }
    case THEN: break;
    }
    det::Quiet q;
    it.hi = det::now_ns() + it.d;
    it.sched_end = tick();
}
void make(Delayed& d) {
    int* calls = &d.calls;
    stlab::executor_t under;
    switch (d.under) {
    case 0: under = stlab::immediate_executor; break;
    case 1: under = stlab::default_executor; break;
    case 2: under = stlab::low_executor; break;
    default: under = stlab::high_executor;
    }
    auto rec = [calls, under](auto&& f) {
        {
            det::Quiet q;
            ++*calls;
        }
        under(std::forward<decltype(f)>(f));
    };
    switch (d.made) {
    case 0: d.e = stlab::execute_at(ns(d.d), rec); break;
    case 2: { // the time point is turned into the delay that is left
        auto t0 = det::now_ns();
        d.e = stlab::execute_at(clk::now() + ns(d.d), rec);
        d.drift = det::now_ns() - t0;
        break;
    }
    default:
        if (d.d % 1000 == 0)
            d.e = stlab::execute_delayed(std::chrono::microseconds(d.d / 1000), rec);
        else
            d.e = stlab::execute_delayed(ns(d.d), rec);
    }
}

std::int64_t draw_delay(pbt::Src& s, bool positive = false) {
    switch (s.weighted({1, 5, 3, 1})) {
    case 0: return positive ? 100 : 0;
    case 1: return s.range(1, 12) * 100;
    case 2: return s.range(1, 4) * 1000;
    default: return positive ? 1000000 : s.range(-5, 0) * 100;
    }
}

PBT_PROP_FORKED(E04, "at least 3 items with at least 2 different due times") {
    auto& s = c.src;
    g_c = &c;
    g_clock = 0;
    g_i.clear();
    g_d.clear();
    g_local = nullptr;
    g_ended = false;
    bool local = s.chance(1, 3);   // a timer object of its own, destroyed at the end
    bool cut = local && s.chance(1, 2); // destroyed while items are still due
    int nd = local ? 0 : s.range(1, 3);
    for (int i = 0; i < nd; ++i) {
        Delayed d;
        d.d = draw_delay(s);
        d.under = s.chance(1, 2) ? 0 : s.range(0, 3);
        d.made = s.range(0, 2);
        g_d.push_back(d);
    }
    int n = s.range(1, 14);
    int nt = s.range(1, 3);
    bool pauses = s.chance(1, 3);
    std::vector<std::vector<int>> ext(static_cast<std::size_t>(nt));
    g_i.resize(std::size_t(n));
    for (int i = 0; i < n; ++i) {
        Item& it = g_i[std::size_t(i)];
        if (nd && s.chance(3, 5)) {
            it.way = s.chance(1, 3) ? ASYNC : EXEC;
            it.ex = s.range(0, nd - 1);
            it.d = g_d[std::size_t(it.ex)].d;
        } else {
            it.d = draw_delay(s);
            if (local && s.chance(1, 8)) {
                it.far = true;
                it.d = s.range(0, 3);
                it.unit = s.range(0, 3);
            } else
                it.unit = it.d % 1000 ? (s.chance(1, 4) ? 3 : 0) : it.d % 1000000 ? s.range(0, 1) : s.range(0, 2);
        }
        if (s.chance(1, 4)) it.pause_before = s.range(1, 10) * 100;
        if (pauses && s.chance(1, 5)) it.pause_in = s.range(1, 10) * 100;
        // a continuation of an earlier asynchronous item?
        if (it.way == EXEC && i > 0) {
            int k = s.range(0, i - 1);
            if (s.chance(1, 2) && g_i[std::size_t(k)].way == ASYNC && g_i[std::size_t(k)].fut_of < 0) {
                g_i[std::size_t(k)].fut_of = i;
                it.way = THEN;
                it.pause_before = 0;
                continue;
            }
        }
        std::size_t by = i > 0 && s.chance(1, 4) ? s.draw(std::uint64_t(i)) : std::size_t(i);
        if (by < std::size_t(i) && !g_i[by].far)
            g_i[by].sub.push_back(i);
        else
            ext[s.draw(ext.size())].push_back(i);
    }
    std::int64_t cut_after = s.range(0, 20) * 100;
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(s.range(1, 3));
    if (c.logging) {
        PBT_LOG(c, "cores " << cfg.cores << (local ? cut ? ", a timer of its own, destroyed early" : ", a timer of its own" : ""));
        for (std::size_t i = 0; i < g_d.size(); ++i) {
            static const char* u[] = {"immediate", "default", "low", "high"};
            PBT_LOG(c, "delayed executor " << i << ": " << g_d[i].d << " ns then " << u[g_d[i].under]);
        }
        for (std::size_t t = 0; t < ext.size(); ++t) {
            std::ostringstream o;
            for (int k : ext[t]) o << " " << k;
            PBT_LOG(c, "thread " << t << " schedules" << o.str());
        }
        for (std::size_t i = 0; i < g_i.size(); ++i) {
            Item& it = g_i[i];
            static const char* w[] = {"timer", "executor", "async", "continuation"};
            std::ostringstream o;
            for (int k : it.sub) o << " " << k;
            PBT_LOG(c, "item " << i << ": " << w[it.way] << (it.ex >= 0 ? " " + std::to_string(it.ex) : "") << (it.far ? " delay for ever, less " : " delay ") << it.d << (it.pause_before ? " scheduled after a pause of " + std::to_string(it.pause_before) : "")
                                << (it.pause_in ? " sleeps " + std::to_string(it.pause_in) : "") << " then schedules" << o.str() << (it.fut_of >= 0 ? " continued by " + std::to_string(it.fut_of) : ""));
        }
    }
    std::mutex done;
    g_done = &done;
    det::go(c, cfg, [&] {
        {
            std::unique_ptr<stlab::detail::system_timer> own;
            if (local) {
                own = std::make_unique<stlab::detail::system_timer>();
                g_local = own.get();
            }
            for (auto& d : g_d) make(d);
            std::vector<std::thread> th;
            auto body = [&](std::size_t t) {
                for (int k : ext[t]) schedule(k);
            };
            for (std::size_t t = 1; t < ext.size(); ++t) th.emplace_back([&, t] { body(t); });
            body(0);
            for (auto& e : th) e.join();
            if (cut)
                det::sleep_ns(cut_after);
            else
                det::settle(true);
            own.reset();
            g_ended = local;
            det::settle(true);
        }
        { std::lock_guard<std::mutex> l(done); }
        stlab::pre_exit();
        det::Quiet q;
        for (std::size_t i = 0; i < g_i.size(); ++i) {
            Item& it = g_i[i];
            if (it.far)
                PBT_CHECK(c, it.runs == 0, "item " << i << " ran, far too early");
            else if (!cut)
                PBT_CHECK(c, it.runs == 1, "item " << i << " has run " << it.runs << " times");
            if (it.runs && it.way != THEN) PBT_CHECK(c, it.start_ns >= it.lo, "item " << i << " ran " << it.lo - it.start_ns << " ns early");
            if (it.runs && it.ex >= 0 && it.d == 0 && it.way == EXEC && g_d[std::size_t(it.ex)].under == 0 && g_d[std::size_t(it.ex)].drift == 0)
                PBT_CHECK(c, it.thread == it.by && it.end < it.sched_end, "item " << i << " has no delay and did not run at once");
            PBT_CHECK(c, it.live == 0, it.live << " instances of the function of item " << i << " are left");
        }
        for (std::size_t i = 0; i < g_i.size(); ++i)
            for (std::size_t k = 0; k < g_i.size(); ++k) {
                Item &a = g_i[i], &b = g_i[k];
                auto timed = [](Item& x) { return x.scheduled && !x.far && x.way != THEN && (x.ex < 0 || (g_d[std::size_t(x.ex)].under == 0 && x.d != 0 && g_d[std::size_t(x.ex)].drift == 0)); };
                if (i == k || !timed(a) || !timed(b)) continue;
                // a is due before b, and was there before b was due
                if (a.hi < b.lo && a.hi - a.d < b.lo && b.runs) PBT_CHECK(c, a.runs && a.start < b.start, "item " << i << " is due before item " << k << " and runs after it");
            }
        // continuations: not before the delay after the result
        for (std::size_t i = 0; i < g_i.size(); ++i) {
            Item& it = g_i[i];
            if (it.fut_of < 0 || !it.runs) continue;
            Item& k = g_i[std::size_t(it.fut_of)];
            PBT_CHECK(c, k.runs == 1 && k.start_ns >= it.start_ns + it.pause_in + k.d - g_d[std::size_t(k.ex)].drift, "continuation " << it.fut_of << " runs early");
        }
        // nothing is held back: time passes only while nothing can run
        bool sleeps = false;
        for (auto& it : g_i) sleeps |= it.pause_in != 0 || !it.sub.empty();
        if (!cfg.eager_time && !sleeps && !cut)
            for (std::size_t i = 0; i < g_i.size(); ++i) {
                Item& it = g_i[i];
                if (it.way != THEN && !it.far) PBT_CHECK(c, it.start_ns <= std::max(it.hi, it.hi - it.d), "item " << i << " ran " << it.start_ns - std::max(it.hi, it.hi - it.d) << " ns late");
            }
        for (std::size_t i = 0; i < g_d.size(); ++i) {
            int want = 0;
            for (auto& it : g_i) want += it.ex == int(i);
            PBT_CHECK(c, g_d[i].calls == want, "delayed executor " << i << " was used " << want << " times and passed on " << g_d[i].calls);
        }
        g_d.clear();
    });
    std::vector<std::int64_t> due;
    for (auto& it : g_i) due.push_back(it.lo);
    std::sort(due.begin(), due.end());
    due.erase(std::unique(due.begin(), due.end()), due.end());
    c.nontrivial = n >= 3 && due.size() >= 2;
    c.tag("items", std::uint64_t(n));
    if (local) c.tag("timer object of its own");
    if (cut) c.tag("destroyed early");
    for (auto& it : g_i)
        if (it.far) c.tag("due in the far future");
    for (auto& it : g_i) {
        if (it.way == THEN) c.tag("continuations");
        if (it.ex >= 0) c.tag("through a delayed executor");
    }
    c.tag("preemptions", det::stats().preemptions);
}

} // namespace
