// C06, C09: errors, throwing stages and move-only values in chains used by several threads, under the controlled scheduler.
//
// Oracle: what each thread sends is mapped by each stage of a chain (a stage may throw, which makes an error of the
// value; a process with set_error may turn an error into a value again), so for each thread the end of the chain must
// see exactly the mapped list, in order; every branch of a split sees the values of all threads in the same order.
#include "det.hpp"

#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include <stlab/concurrency/channel.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/pre_exit.hpp>

namespace {

pbt::Case* g_c;
int g_values, g_objects;
std::string g_bad;
void bad(const std::string& m) {
    if (g_bad.empty()) g_bad = m;
    PBT_FAIL(*g_c, m);
}

template <bool Copyable>
struct Val {
    int thread = -1, seq = -1, hops = 0;
    std::conditional_t<Copyable, std::shared_ptr<int>, std::unique_ptr<int>> p;
    static void count(int d) {
        det::Quiet q;
        g_values += d;
    }
    Val() { count(1); }
    Val(int t, int s) : thread(t), seq(s), p(std::make_unique<int>(t * 1000 + s)) { count(1); }
    Val(const Val& o) requires Copyable : thread(o.thread), seq(o.seq), hops(o.hops), p(o.p) { count(1); }
    Val(Val&& o) noexcept : thread(o.thread), seq(o.seq), hops(o.hops), p(std::move(o.p)) { count(1); }
    Val& operator=(const Val& o) requires Copyable = default;
    Val& operator=(Val&& o) noexcept = default;
    ~Val() { count(-1); }
    void check() const {
        if (!p || *p != thread * 1000 + seq) bad("a process was given a value that had been moved from");
    }
};
struct Err {
    int thread, seq, stage;
};

struct Stage {
    int kind = 0; // 0 function, 1 process that turns errors into values, 2 process that only counts errors
    int every = 0; // throws for values with (thread + seq) % every == every - 1
    bool in_yield = false; // a process throws in yield instead of await
    std::int64_t late = -1; // a process asks to yield so much later
    int ex = 0, buf = 1;
    bool hit(int t, int s) const { return every && (t + s) % every == every - 1; }
};
struct Item {
    int thread, seq, err; // err: -1 a value, else the stage (100: sent as an error)
};
struct Branch {
    std::vector<Stage> st;
    std::deque<int> in_call;
    std::vector<Item> got;
    bool drops_errors = false; // some stage takes errors and gives nothing for them
    int closes = 0, end_objects = 0;
    int ex = 0, buf = 1;
};
std::vector<Branch> g_b;

struct Enter {
    int& n;
    Enter(Branch& b, std::size_t i) : n(b.in_call[i]) {
        det::Quiet q;
        if (n) bad("a process was entered while another thread is in it");
        ++n;
    }
    ~Enter() {
        det::Quiet q;
        --n;
    }
};
struct Obj {
    bool mine = true;
    std::unique_ptr<int> own = std::make_unique<int>(0);
    int* n;
    explicit Obj(int* c = &g_objects) : n(c) { add(1); }
    Obj(Obj&& o) noexcept : mine(std::exchange(o.mine, false)), own(std::move(o.own)), n(o.n) {}
    Obj(const Obj&) = delete;
    ~Obj() {
        if (mine) add(-1);
    }
    void add(int d) {
        det::Quiet q;
        *n += d;
    }
    void use() { ++*own; } // seen by the race detector
};

template <class T>
struct Fn {
    Branch* b;
    std::size_t i;
    Obj o;
    T operator()(T v) {
        Enter e(*b, i);
        det::point();
        o.use();
        v.check();
        if (b->st[i].hit(v.thread, v.seq)) throw Err{v.thread, v.seq, int(i)};
        ++v.hops;
        return v;
    }
};
template <class T>
struct Pass { // gives what it was given, and a value for an error
    Branch* b;
    std::size_t i;
    Obj o;
    std::optional<T> have;
    bool fail = false;
    std::int64_t since = 0;
    Pass(Branch* x, std::size_t n) : b(x), i(n) {}
    void await(T v) {
        Enter e(*b, i);
        det::point();
        o.use();
        v.check();
        if (have) bad("await while the state is yield");
        since = det::now_ns();
        if (b->st[i].hit(v.thread, v.seq)) {
            if (!b->st[i].in_yield) throw Err{v.thread, v.seq, int(i)};
            fail = true;
        }
        have = std::move(v);
    }
    void set_error(std::exception_ptr p) {
        Enter e(*b, i);
        det::point();
        o.use();
        if (have) bad("set_error while the state is yield");
        since = det::now_ns();
        try {
            std::rethrow_exception(p);
        } catch (const Err& x) {
            if (b->st[i].kind == 1) have = T(x.thread, x.seq);
        } catch (...) {
            bad("set_error was given an exception nobody threw");
        }
    }
    T yield() {
        Enter e(*b, i);
        det::point();
        o.use();
        if (!have) bad("yield while the state is await");
        if (det::now_ns() < since + b->st[i].late) bad("yield before its time");
        T r = std::move(*have);
        have.reset();
        if (std::exchange(fail, false)) throw Err{r.thread, r.seq, int(i)};
        return r;
    }
    stlab::process_state_scheduled state() const {
        if (!have) return stlab::await_forever;
        auto& st = b->st[i];
        return st.late < 0 ? stlab::yield_immediate : stlab::process_state_scheduled{stlab::process_state::yield, std::chrono::nanoseconds(st.late)};
    }
};
template <class T>
struct End {
    Branch* b;
    Obj o;
    explicit End(Branch* x) : b(x), o(&x->end_objects) {}
    void add(Item i) {
        det::Quiet q;
        DET_LOG(*g_c, "      branch " << (b - g_b.data()) << " <- thread " << i.thread << " #" << i.seq << (i.err < 0 ? "" : " error of stage " + std::to_string(i.err)));
        b->got.push_back(i);
    }
    void await(T v) {
        Enter e(*b, b->st.size());
        o.use();
        v.check();
        add({v.thread, v.seq, -1});
    }
    void set_error(std::exception_ptr p) {
        Enter e(*b, b->st.size());
        o.use();
        try {
            std::rethrow_exception(p);
        } catch (const Err& x) {
            add({x.thread, x.seq, x.stage});
        } catch (...) {
            bad("set_error was given an exception nobody threw");
        }
    }
    void close() {
        Enter e(*b, b->st.size());
        det::Quiet q;
        ++b->closes;
    }
    int yield() { return 0; }
    stlab::process_state_scheduled state() const { return stlab::await_forever; }
};

// what must arrive of an item sent; false: nothing
bool mapped(const Branch& b, int t, int s, bool sent_err, Item& r) {
    int err = sent_err ? 100 : -1;
    for (std::size_t i = 0; i < b.st.size(); ++i) {
        auto& st = b.st[i];
        if (err >= 0) {
            if (st.kind == 1) err = -1;
            if (st.kind == 2) return false;
        } else if (st.hit(t, s))
            err = int(i);
    }
    r = {t, s, err};
    return true;
}

template <class T>
void run_chains(pbt::Case& c, bool copyable) {
    auto& s = c.src;
    g_c = &c;
    g_bad.clear();
    g_values = g_objects = 0;
    g_b.clear();
    int nb = copyable ? s.range(1, 2) : 1, nt = s.range(1, 3);
    bool errors = s.chance(3, 4);
    g_b.resize(std::size_t(nb));
    int sex = int(s.weighted({4, 3, 1, 1}));
    for (auto& b : g_b) {
        int k = s.range(0, 3);
        for (int i = 0; i < k; ++i) {
            Stage st;
            st.kind = int(s.weighted({3, 1, 1}));
            st.every = errors && s.chance(1, 2) ? s.range(2, 4) : 0;
            if (st.kind && s.chance(1, 3)) st.late = s.range(0, 8) * 100;
            st.in_yield = s.chance(1, 2);
            st.ex = int(s.weighted({4, 3, 1, 1}));
            st.buf = s.range(0, 3);
            b.st.push_back(st);
        }
        b.ex = int(s.weighted({4, 3, 1, 1}));
        b.buf = s.range(0, 3);
        b.in_call.assign(b.st.size() + 1, 0);
    }
    std::vector<std::vector<int>> acts(static_cast<std::size_t>(nt)); // 0 value, 1 error, 2 pause
    for (auto& a : acts) {
        int k = s.range(1, 6);
        for (int i = 0; i < k; ++i) a.push_back(int(s.weighted({6, errors ? 2u : 0u, 1})));
    }
    bool late = s.chance(1, 3); // threads send while the graph is built
    int nw = s.range(1, 3);
    det::Config cfg = det::draw_config(c);
    cfg.cores = unsigned(s.range(1, 4));
    if (c.logging) {
        static const char* ex[] = {"pool", "workers", "serial queue", "immediate"};
        static const char* kn[] = {"function", "process (values for errors)", "process (drops errors)"};
        PBT_LOG(c, "cores " << cfg.cores << ", " << nw << " workers, " << (copyable ? "copyable" : "move-only") << " values, source on " << ex[sex] << (late ? ", threads send while the graph is built" : ""));
        for (auto& b : g_b) {
            PBT_LOG(c, "branch");
            for (auto& st : b.st) PBT_LOG(c, "  " << kn[st.kind] << " on " << ex[st.ex] << ", buffer " << st.buf << (st.every ? ", throws for one in " + std::to_string(st.every) + (st.kind && st.in_yield ? " in yield" : "") : "") << (st.late >= 0 ? ", gives after " + std::to_string(st.late) + " ns" : ""));
            PBT_LOG(c, "  end on " << ex[b.ex] << ", buffer " << b.buf);
        }
        for (std::size_t t = 0; t < acts.size(); ++t) {
            std::string o;
            for (int a : acts[t]) o += a == 0 ? " send" : a == 1 ? " send an error" : " pause";
            PBT_LOG(c, "thread " << t << ":" << o);
        }
    }
    int sent = 0;
    std::vector<std::vector<bool>> is_err(acts.size());
    for (std::size_t t = 0; t < acts.size(); ++t)
        for (int x : acts[t])
            if (x < 2) {
                is_err[t].push_back(x == 1);
                ++sent;
            }
    std::mutex wm;
    std::condition_variable wcv;
    std::deque<stlab::task<void() noexcept>> wq;
    bool wdone = false;
    det::go(c, cfg, [&] {
        std::vector<std::thread> workers;
        for (int i = 0; i < nw; ++i)
            workers.emplace_back([&] {
                while (true) {
                    stlab::task<void() noexcept> t;
                    {
                        std::unique_lock<std::mutex> l(wm);
                        while (wq.empty() && !wdone) wcv.wait(l);
                        if (wq.empty()) return;
                        t = std::move(wq.front());
                        wq.pop_front();
                    }
                    t();
                }
            });
        {
            std::vector<stlab::serial_queue_t> queues;
            auto executor = [&](int e) -> stlab::executor_t {
                switch (e) {
                case 0: return stlab::default_executor;
                case 1:
                    return [&](stlab::task<void() noexcept> t) {
                        {
                            std::lock_guard<std::mutex> l(wm);
                            wq.push_back(std::move(t));
                        }
                        wcv.notify_one();
                    };
                case 2: queues.emplace_back(stlab::default_executor, queues.size() % 2 ? stlab::schedule_mode::all : stlab::schedule_mode::single); return queues.back().executor();
                default: return stlab::immediate_executor;
                }
            };
            using stlab::operator&;
            // senders of move-only values cannot be copied: the threads share one
            std::vector<std::shared_ptr<stlab::sender<T>>> snd(static_cast<std::size_t>(nt));
            std::vector<stlab::receiver<int>> ends(g_b.size());
            auto ch = stlab::channel<T>(executor(sex));
            if constexpr (std::is_copy_constructible_v<T>)
                for (int t = 1; t < nt; ++t) snd[std::size_t(t)] = std::make_shared<stlab::sender<T>>(ch.first);
            snd[0] = std::make_shared<stlab::sender<T>>(std::move(ch.first));
            for (auto& x : snd)
                if (!x) x = snd[0];
            auto build = [&] {
                for (std::size_t j = 0; j < g_b.size(); ++j) {
                    Branch& b = g_b[j];
                    std::vector<stlab::receiver<T>> chain; // set ready last, from the end or from the start
                    for (std::size_t i = 0; i < b.st.size(); ++i) {
                        auto& st = b.st[i];
                        auto& up = chain.empty() ? ch.second : chain.back();
                        auto e = stlab::executor{executor(st.ex)};
                        auto bs = stlab::buffer_size{std::size_t(st.buf)};
                        chain.push_back(st.kind == 0 ? up | (std::move(e) & Fn<T>{&b, i, Obj()} & std::move(bs)) : up | (std::move(e) & Pass<T>(&b, i) & std::move(bs)));
                    }
                    auto& up = chain.empty() ? ch.second : chain.back();
                    ends[j] = up | (stlab::executor{executor(b.ex)} & End<T>(&b) & stlab::buffer_size{std::size_t(b.buf)});
                    ends[j].set_ready();
                    if (j % 2)
                        while (!chain.empty()) chain.pop_back();
                    for (auto& r : chain) r.set_ready();
                }
                ch.second.set_ready();
                ch.second = {};
            };
            auto body = [&](std::size_t t) {
                int n = 0;
                for (int a : acts[t]) switch (a) {
                    case 0: (*snd[t])(T(int(t), n++)); break;
                    case 1: (*snd[t])(std::make_exception_ptr(Err{int(t), n++, 100})); break;
                    default: det::point();
                    }
                snd[t].reset();
            };
            std::vector<std::thread> th;
            if (!late) build();
            for (std::size_t t = 1; t < acts.size(); ++t) th.emplace_back([&, t] { body(t); });
            if (late) build();
            body(0);
            for (auto& e : th) e.join();
            det::settle(true);
            {
                det::Quiet q;
                for (std::size_t j = 0; j < g_b.size(); ++j) {
                    Branch& b = g_b[j];
                    std::vector<std::size_t> at(acts.size());
                    std::vector<std::vector<Item>> want(acts.size());
                    std::size_t total = 0;
                    for (std::size_t t = 0; t < acts.size(); ++t) {
                        int n = 0;
                        for (int a : acts[t]) {
                            Item it{};
                            if (a < 2 && mapped(b, int(t), n++, a == 1, it)) want[t].push_back(it);
                        }
                        total += want[t].size();
                    }
                    for (auto& x : b.got) {
                        auto& w = want[std::size_t(x.thread)];
                        auto& i = at[std::size_t(x.thread)];
                        if (i >= w.size() || w[i].seq != x.seq || w[i].err != x.err)
                            bad("branch " + std::to_string(j) + " was given #" + std::to_string(x.seq) + " of thread " + std::to_string(x.thread) + (x.err < 0 ? " as a value" : " as an error of stage " + std::to_string(x.err)) + (i < w.size() ? " where #" + std::to_string(w[i].seq) + (w[i].err < 0 ? " as a value" : " as an error of stage " + std::to_string(w[i].err)) + " was due" : " and nothing more was due"));
                        ++i;
                    }
                    if (b.got.size() != total) bad("branch " + std::to_string(j) + " was given " + std::to_string(b.got.size()) + " of " + std::to_string(total));
                    if (b.closes != 1) bad("branch " + std::to_string(j) + " was closed " + std::to_string(b.closes) + " times");
                    if (b.end_objects) bad("the process at the end of branch " + std::to_string(j) + " is not destroyed although its stream has ended");
                }
                if (g_b.size() == 2) { // the same order in both
                    std::vector<std::pair<int, int>> o[2];
                    for (int j = 0; j < 2; ++j)
                        for (auto& x : g_b[std::size_t(j)].got) {
                            Item it{};
                            if (mapped(g_b[std::size_t(1 - j)], x.thread, x.seq, is_err[std::size_t(x.thread)][std::size_t(x.seq)], it)) o[j].push_back({x.thread, x.seq});
                        }
                    if (o[0].size() == o[1].size() && o[0] != o[1]) bad("the branches of a split were given the values in different orders");
                }
            }
            ends.clear();
            snd.clear();
            queues.clear();
            det::settle(true);
        }
        {
            std::lock_guard<std::mutex> l(wm);
            wdone = true;
        }
        wcv.notify_all();
        for (auto& t : workers) t.join();
        (void)stlab::detail::pts();
        stlab::pre_exit();
        det::Quiet q;
        PBT_CHECK(c, g_objects == 0, g_objects << " processes are left");
        PBT_CHECK(c, g_values == 0, g_values << " values are left");
    });
    std::size_t got = 0, errs = 0;
    for (auto& b : g_b) {
        got += b.got.size();
        for (auto& x : b.got) errs += x.err >= 0;
    }
    c.nontrivial = det::stats().preemptions >= 3 && got >= 3;
    c.tag("items sent", std::uint64_t(sent));
    c.tag("items at the end", got);
    c.tag("errors at the end", errs);
    c.tag(copyable ? "copyable" : "move-only");
    c.tag("preemptions", det::stats().preemptions);
}
PBT_PROP_FORKED(C06c, "at least 3 items arrived at the end, and 3 preemptions") {
    if (c.src.flip())
        run_chains<Val<true>>(c, true);
    else
        run_chains<Val<false>>(c, false);
}

} // namespace
