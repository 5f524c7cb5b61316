// F07x, F08x: when_all and when_any over inputs of several types (bool, void, move-only and mixed), completed by
// several threads while the combination is made, under the controlled scheduler.
//
// Oracle: each input is completed once, by a value, an exception or the loss of its task.  The order in which two
// inputs are completed is known when one completion (or the combination itself) ends before the other begins; what
// is delivered must agree with every order known this way.  (A combination takes note of its inputs in tasks given
// to its executor: on the pool their order is not that of the completions.)
#include "det.hpp"

#include <condition_variable>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/pre_exit.hpp>

namespace {

pbt::Case* g_c;
std::string g_bad;
int g_values, g_calls;
std::uint64_t g_clock;
void bad(const std::string& m) {
    if (g_bad.empty()) g_bad = m;
    PBT_FAIL(*g_c, m);
}
struct Err {
    int i;
};
struct Mo { // move-only
    int i = -1;
    std::unique_ptr<int> p;
    static void count(int d) {
        det::Quiet q;
        g_values += d;
    }
    Mo() { count(1); }
    explicit Mo(int x) : i(x), p(std::make_unique<int>(x)) { count(1); }
    Mo(Mo&& o) noexcept : i(o.i), p(std::move(o.p)) { count(1); }
    Mo& operator=(Mo&& o) noexcept = default;
    ~Mo() { count(-1); }
};
struct In {
    int how = 0; // 0 value, 1 throws, 2 its task is lost
    bool bit = false;
    int thread = 0;
    std::uint64_t begin = 0, end = 0;
    int runs = 0;
};
std::vector<In> g_in;
std::uint64_t g_made_begin, g_made_end;
std::uint64_t lo(int i) { return std::max(g_in[std::size_t(i)].begin, g_made_begin); }
std::uint64_t hi(int i) { return std::max(g_in[std::size_t(i)].end, g_made_end); }

void body(int i) {
    In& x = g_in[std::size_t(i)];
    {
        det::Quiet q;
        if (++x.runs > 1) bad("input " + std::to_string(i) + " runs twice");
    }
    det::point();
    if (x.how == 1) throw Err{i};
}
int code(bool b) { return b; }
int code(const Mo& m) {
    if (!m.p || *m.p != m.i) bad("a value was given that had been moved from");
    return m.i;
}
int code(int x) { return x; }
void call() {
    det::point();
    det::Quiet q;
    if (++g_calls > 1) bad("the function of the combination is called a second time");
}
struct Pair { // an input and the task that completes it
    std::optional<stlab::packaged_task<>> t;
};
template <class T>
T value(int i) {
    if constexpr (std::is_same_v<T, bool>)
        return g_in[std::size_t(i)].bit;
    else if constexpr (std::is_same_v<T, Mo>)
        return Mo(i);
    else if constexpr (!std::is_void_v<T>)
        return T(i);
}
template <class T>
stlab::future<T> input(std::vector<Pair>& ts, int i) {
    auto p = stlab::package<T()>(stlab::immediate_executor, [i]() -> T {
        body(i);
        return value<T>(i);
    });
    ts[std::size_t(i)].t.emplace(std::move(p.first));
    return std::move(p.second);
}

// what the function of the combination saw
struct Seen {
    std::vector<int> v;
    int index = -1;
};
Seen* g_seen;
void see(int x) {
    det::Quiet q;
    g_seen->v.push_back(x);
}

template <class... T>
struct AllFn {
    int operator()(T... v) const {
        call();
        (see(code(v)), ...);
        return 7;
    }
};
void run_comb(pbt::Case& c, bool any) {
    auto& s = c.src;
    g_c = &c;
    g_bad.clear();
    g_values = g_calls = 0;
    g_clock = 0;
    g_in.clear();
    Seen seen;
    g_seen = &seen;
    int shape = any ? s.range(0, 5) : s.range(0, 6);
    bool range = shape < 3;
    int n = range ? s.range(2, 12) : any ? 3 : shape == 3 ? 4 : shape == 4 ? 3 : 2;
    int nt = s.range(1, 3);
    int failing = int(s.weighted({2, 2, 1})); // none, some, most
    for (int i = 0; i < n; ++i) {
        In x;
        if (failing) x.how = s.chance(failing == 1 ? 1 : 5, failing == 1 ? 4 : 6) ? (s.chance(1, 4) ? 2 : 1) : 0;
        x.bit = s.flip();
        x.thread = s.range(0, nt - 1);
        g_in.push_back(x);
    }
    std::vector<std::vector<int>> todo(static_cast<std::size_t>(nt));
    for (int i = 0; i < n; ++i) {
        auto& v = todo[std::size_t(g_in[std::size_t(i)].thread)];
        v.insert(v.begin() + std::ptrdiff_t(s.draw(v.size() + 1)), i);
    }
    int early = s.chance(1, 2) ? s.range(0, n) : 0; // inputs completed before the combination is made
    bool pool = s.flip();
    bool drop = s.chance(1, 10); // nobody wants the result
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(s.range(1, 3));
    static const char* sn[] = {"range of bool", "range of void", "range of move-only", "tuple", "tuple", "tuple", "tuple"};
    if (c.logging) {
        PBT_LOG(c, (any ? "when_any" : "when_all") << " over a " << sn[shape] << " of " << n << (pool ? " on the pool" : " on the immediate executor") << (drop ? ", result dropped" : ""));
        for (std::size_t t = 0; t < todo.size(); ++t) {
            std::string o;
            static const char* how[] = {" ", " (throws) ", " (lost) "};
            for (int i : todo[t]) o += " " + std::to_string(i) + how[g_in[std::size_t(i)].how];
            PBT_LOG(c, "thread " << t << " completes" << o);
        }
    }
    det::go(c, cfg, [&] {
        {
            std::vector<Pair> ts(static_cast<std::size_t>(n));
            std::mutex m;
            std::condition_variable cv;
            int have = 0, done = 0; // inputs that exist, that are completed
            auto complete = [&](int i) {
                In& x = g_in[std::size_t(i)];
                {
                    det::Quiet q;
                    x.begin = ++g_clock;
                }
                auto& t = ts[std::size_t(i)].t;
                if (x.how == 2)
                    t.reset();
                else
                    (*t)();
                t.reset();
                {
                    det::Quiet q;
                    x.end = ++g_clock;
                }
                {
                    std::lock_guard<std::mutex> l(m);
                    ++done;
                }
                cv.notify_all();
            };
            auto thread = [&](std::size_t t) {
                for (int i : todo[t]) {
                    {
                        std::unique_lock<std::mutex> l(m);
                        cv.wait(l, [&] { return have > i; });
                    }
                    complete(i);
                }
            };
            std::vector<std::thread> th;
            stlab::executor_t e = pool ? stlab::executor_t(stlab::default_executor) : stlab::executor_t(stlab::immediate_executor);
            // inputs exist before the combination does; threads complete them meanwhile
            auto go = [&] {
                {
                    std::lock_guard<std::mutex> l(m);
                    have = n;
                }
                cv.notify_all();
                {
                    std::unique_lock<std::mutex> l(m);
                    cv.wait(l, [&] { return done >= early; });
                }
                det::Quiet q;
                g_made_begin = ++g_clock;
            };
            for (std::size_t t = 0; t < todo.size(); ++t) th.emplace_back([&, t] { thread(t); });
            std::optional<stlab::future<int>> r;
            struct Ex {
                stlab::executor_t e;
                void operator()(stlab::task<void() noexcept> t) const { e(std::move(t)); }
            };
            auto tuple_all = [&] {
                switch (shape) {
                case 3: {
                    auto a = input<int>(ts, 0);
                    auto b = input<void>(ts, 1);
                    auto d = input<Mo>(ts, 2);
                    auto f = input<bool>(ts, 3);
                    go();
                    return stlab::when_all(Ex{e}, [](int x, Mo y, bool z) { return AllFn<int, const Mo&, bool>()(x, y, z); }, std::move(a), std::move(b), std::move(d), std::move(f));
                }
                case 4: {
                    auto a = input<void>(ts, 0);
                    auto b = input<void>(ts, 1);
                    auto d = input<bool>(ts, 2);
                    go();
                    return stlab::when_all(Ex{e}, AllFn<bool>(), std::move(a), std::move(b), std::move(d));
                }
                case 5: {
                    auto a = input<void>(ts, 0);
                    auto b = input<void>(ts, 1);
                    go();
                    return stlab::when_all(Ex{e}, AllFn<>(), std::move(a), std::move(b));
                }
                default: {
                    auto a = input<Mo>(ts, 0);
                    auto b = input<int>(ts, 1);
                    go();
                    return stlab::when_all(Ex{e}, [](Mo x, int y) { return AllFn<const Mo&, int>()(x, y); }, std::move(a), std::move(b));
                }
                }
            };
            auto ranged = [&](auto tag) {
                using T = typename decltype(tag)::type;
                std::vector<stlab::future<T>> in;
                for (int i = 0; i < n; ++i) in.push_back(input<T>(ts, i));
                go();
                auto rg = std::make_pair(in.begin(), in.end());
                auto idx = [](std::size_t k) {
                    det::Quiet q;
                    g_seen->index = int(k);
                };
                if constexpr (std::is_void_v<T>) {
                    if (any)
                        r = stlab::when_any(Ex{e}, [idx](std::size_t k) { call(); idx(k); return 7; }, rg);
                    else
                        r = stlab::when_all(Ex{e}, [] { call(); return 7; }, rg);
                } else {
                    if (any)
                        r = stlab::when_any(Ex{e}, [idx](T v, std::size_t k) { call(); see(code(v)); idx(k); return 7; }, rg);
                    else
                        r = stlab::when_all(
                            Ex{e},
                            [](const std::vector<T>& v) {
                                call();
                                for (std::size_t i = 0; i < v.size(); ++i) {
                                    if constexpr (std::is_same_v<T, bool>)
                                        see(v[i] ? 1 : 0);
                                    else
                                        see(code(v[i]));
                                }
                                return 7;
                            },
                            rg);
                }
            };
            auto tuple_any = [&](auto tag) {
                using T = typename decltype(tag)::type;
                auto a = input<T>(ts, 0);
                auto b = input<T>(ts, 1);
                auto d = input<T>(ts, 2);
                go();
                auto idx = [](std::size_t k) {
                    det::Quiet q;
                    g_seen->index = int(k);
                };
                if constexpr (std::is_void_v<T>)
                    r = stlab::when_any(Ex{e}, [idx](std::size_t k) { call(); idx(k); return 7; }, std::move(a), std::move(b), std::move(d));
                else
                    r = stlab::when_any(Ex{e}, [idx](T v, std::size_t k) { call(); see(code(v)); idx(k); return 7; }, std::move(a), std::move(b), std::move(d));
            };
            switch (shape) {
            case 0: ranged(std::type_identity<bool>()); break;
            case 1: ranged(std::type_identity<void>()); break;
            case 2: ranged(std::type_identity<Mo>()); break;
            default:
                if (!any)
                    r = tuple_all();
                else if (shape == 3)
                    tuple_any(std::type_identity<bool>());
                else if (shape == 4)
                    tuple_any(std::type_identity<void>());
                else
                    tuple_any(std::type_identity<Mo>());
            }
            {
                det::Quiet q;
                g_made_end = ++g_clock;
            }
            int result = 0;
            if (drop) {
                det::point();
                r.reset();
            } else {
                try {
                    result = stlab::await(std::move(*r)) == 7 ? 1 : -1;
                } catch (const Err& x) {
                    result = 100 + x.i;
                } catch (const stlab::future_error& x) {
                    result = x.code() == stlab::future_error_codes::broken_promise ? 2 : -1;
                }
                r.reset();
            }
            for (auto& t : th) t.join();
            det::settle();
            ts.clear();
            (void)stlab::detail::pts();
            det::Quiet q;
            std::vector<int> ok, failed;
            for (int i = 0; i < n; ++i) {
                (g_in[std::size_t(i)].how ? failed : ok).push_back(i);
            }
            auto nm = [](int i) { return "input " + std::to_string(i); };
            auto err_is = [&](int i) { return g_in[std::size_t(i)].how == 1 ? result == 100 + i : result == 2; };
            if (drop) {
                if (g_calls && !any && !failed.empty()) bad("the function of the combination was called although an input failed");
            } else if (!any) {
                if (failed.empty()) {
                    if (result != 1 || g_calls != 1) bad("every input has a value, and the result is " + std::to_string(result) + " after " + std::to_string(g_calls) + " calls");
                } else {
                    if (g_calls) bad("the function of the combination was called although an input failed");
                    bool fits = false;
                    for (int i : failed) {
                        if (!err_is(i)) continue;
                        bool first = true;
                        for (int k : failed) first = first && (pool || !(hi(k) < lo(i)));
                        fits = fits || first;
                    }
                    if (!fits) bad("the result (" + std::to_string(result) + ") is not the exception of the first input that failed");
                }
            } else {
                if (ok.empty()) {
                    if (g_calls) bad("the function of the combination was called although every input failed");
                    bool fits = false;
                    for (int i : failed) {
                        if (!err_is(i)) continue;
                        bool last = true;
                        for (int k : failed) last = last && (pool || !(hi(i) < lo(k)));
                        fits = fits || last;
                    }
                    if (!fits) bad("the result (" + std::to_string(result) + ") is not the exception of the last input that failed");
                } else if (result != 1 || g_calls != 1)
                    bad("an input succeeded, and the result is " + std::to_string(result) + " after " + std::to_string(g_calls) + " calls");
            }
            if (g_calls && any) {
                int i = seen.index;
                if (i < 0 || i >= n || g_in[std::size_t(i)].how) bad("the index given, " + std::to_string(i) + ", is not that of an input that succeeded");
                for (int k : ok)
                    if (!pool && hi(k) < lo(i)) bad(nm(i) + " was given although " + nm(k) + " succeeded before it");
                bool isvoid = shape == 1 || shape == 4;
                int want = shape == 0 || shape == 3 ? int(g_in[std::size_t(i)].bit) : i;
                if (isvoid ? !seen.v.empty() : seen.v != std::vector<int>{want}) bad("the value given is not that of " + nm(i));
            }
            if (g_calls && !any) {
                std::vector<int> want;
                auto bit = [](int i) { return int(g_in[std::size_t(i)].bit); };
                switch (shape) {
                case 0:
                    for (int i = 0; i < n; ++i) want.push_back(bit(i));
                    break;
                case 1: break;
                case 2:
                    for (int i = 0; i < n; ++i) want.push_back(i);
                    break;
                case 3: want = {0, 2, bit(3)}; break;
                case 4: want = {bit(2)}; break;
                case 5: break;
                default: want = {0, 1};
                }
                if (seen.v != want) bad("the values given are not those of the inputs in their order");
            }
        }
        stlab::pre_exit();
        det::Quiet q;
        PBT_CHECK(c, g_values == 0, g_values << " values are left");
    });
    c.nontrivial = n >= 3 && nt >= 2 && det::stats().preemptions >= 3;
    c.tag(sn[shape]);
    if (failing) c.tag("with failing inputs");
    if (drop) c.tag("result dropped");
    c.tag("inputs", std::uint64_t(n));
    c.tag("preemptions", det::stats().preemptions);
}
PBT_PROP_FORKED(F07x, "at least 3 inputs completed by at least 2 threads, and 3 preemptions") { run_comb(c, false); }
PBT_PROP_FORKED(F08x, "at least 3 inputs completed by at least 2 threads, and 3 preemptions") { run_comb(c, true); }

} // namespace
