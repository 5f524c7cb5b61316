// C01, C03, C04, C06 with values of several types: chains that change the type, zip and zip_with over different types,
// channels fed by other channels (receiver | sender).
//
// Oracle: every stream is a list of results (a value or an error); each stage maps lists to lists, so what the last stage
// must have seen is computed from what was sent.
#include "pbt.hpp"

#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>

#include <stlab/config.hpp>

#include <stlab/concurrency/channel.hpp>
#include <stlab/concurrency/immediate_executor.hpp>

namespace {

int g_live;
struct Token { // counts the process objects
    std::shared_ptr<int> p = std::make_shared<int>(0);
};
struct Mo { // move-only
    int v = -1;
    explicit Mo(int x) : v(x) { ++g_live; }
    Mo() { ++g_live; }
    Mo(Mo&& x) noexcept : v(std::exchange(x.v, -2)) { ++g_live; }
    Mo(const Mo&) = delete;
    Mo& operator=(Mo&& x) noexcept {
        v = std::exchange(x.v, -2);
        return *this;
    }
    ~Mo() { --g_live; }
};
struct Err {
    int src, seq;
};

std::string text(int v) { return "a value too long to be stored in place " + std::to_string(v); }
int untext(const std::string& s) {
    auto n = s.rfind(' ');
    return n == std::string::npos || s.size() < 20 ? -3 : std::stoi(s.substr(n + 1));
}
int num(int v) { return v; }
int num(const std::string& s) { return untext(s); }
int num(const Mo& m) { return m.v; }
template <class T>
T make(int v) {
    if constexpr (std::is_same_v<T, std::string>)
        return text(v);
    else
        return T(v);
}

// a result in a stream: the numbers it is made of, or the error (source, seq)
struct Res {
    bool err = false;
    std::vector<int> v;
    bool operator==(const Res&) const = default;
};
std::string show(const Res& r) {
    std::string s = r.err ? "error" : "";
    for (int x : r.v) s += " " + std::to_string(x);
    return s;
}
using Stream = std::vector<Res>;

struct Run {
    pbt::Case& c;
    std::deque<stlab::task<void() noexcept>> q[3];
    int live_objects = 0;
    explicit Run(pbt::Case& x) : c(x) {}
    stlab::executor_t ex(int i) {
        if (i == 3) return stlab::immediate_executor;
        return [this, i](auto&& f) { q[i].push_back(std::forward<decltype(f)>(f)); };
    }
    stlab::executor_t any() { return ex(c.src.range(0, 3)); }
    bool step() {
        std::vector<int> k;
        for (int i = 0; i != 3; ++i)
            if (!q[i].empty()) k.push_back(i);
        if (k.empty()) return false;
        int i = k[c.src.draw(k.size())];
        auto f = std::move(q[i].front());
        q[i].pop_front();
        f();
        return true;
    }
    void drain() {
        int n = 0;
        while (step())
            PBT_CHECK(c, ++n <= 20000, "the executors never run out of tasks");
    }
};

// One source with handles; the program sends to it
struct SrcBase {
    int id = 0;
    Stream sent;
    bool open = true, zip = false;
    virtual ~SrcBase() = default;
    virtual void send(int v) = 0;
    virtual void error(int v) = 0;
    virtual void close() = 0;
    virtual void ready() = 0;
    bool is_ready = false;
};
template <class T>
struct Source : SrcBase {
    stlab::sender<T> s;
    stlab::receiver<T> r;
    Source(Run& u, int i) {
        id = i;
        std::tie(s, r) = stlab::channel<T>(u.any());
    }
    void send(int v) override {
        sent.push_back({false, {v}});
        s(make<T>(v));
    }
    void error(int v) override {
        sent.push_back({true, {id, v}});
        s(std::make_exception_ptr(Err{id, v}));
    }
    void close() override {
        s.close();
        open = false;
    }
    void ready() override {
        if (!is_ready) r.set_ready();
        is_ready = true;
    }
};

// The end of a pipeline: a process that records values and errors
template <class T>
struct Rec {
    struct State {
        Stream got;
        int closes = 0, objects = 0;
        Run* u;
        int takes = 0;
    };
    State* st;
    bool mine = true, pending = false;
    explicit Rec(State& s) : st(&s) { ++st->objects; }
    Rec(Rec&& x) noexcept : st(x.st), mine(std::exchange(x.mine, false)), pending(x.pending) {}
    Rec(const Rec&) = delete;
    ~Rec() {
        if (mine) --st->objects;
    }
    static Res res(const T& t) {
        Res r;
        if constexpr (requires { std::get<0>(t); })
            std::apply([&](auto&... x) { (r.v.push_back(num(x)), ...); }, t);
        else
            r.v.push_back(num(t));
        return r;
    }
    void await(T t) {
        st->got.push_back(res(t));
        pending = false;
    }
    void set_error(std::exception_ptr e) {
        try {
            std::rethrow_exception(e);
        } catch (const Err& x) {
            st->got.push_back({true, {x.src, x.seq}});
        } catch (...) {
            st->got.push_back({true, {-9, -9}});
        }
    }
    void close() { ++st->closes; }
    int yield() { return 0; }
    stlab::process_state_scheduled state() const { return stlab::await_forever; }
};

template <class R, class P>
auto attach(Run& u, R& r, P&& p) {
    using stlab::operator&;
    int f = u.c.src.range(0, 3);
    switch (f) {
    case 0: return r | std::forward<P>(p);
    case 1: return r | (stlab::buffer_size{u.c.src.draw(4)} & std::forward<P>(p));
    case 2: return r | (stlab::executor{u.any()} & std::forward<P>(p));
    default: return r | (stlab::buffer_size{u.c.src.draw(4)} & stlab::executor{u.any()} & std::forward<P>(p));
    }
}

void prefix(pbt::Case& c, const Stream& got, const Stream& want, bool all) {
    std::size_t i = 0;
    for (; i != got.size(); ++i) {
        PBT_CHECK(c, i < want.size(), "result " << i << " is one too many:" << show(got[i]));
        PBT_CHECK(c, got[i] == want[i], "result " << i << " is" << show(got[i]) << " instead of" << show(want[i]));
    }
    if (all) PBT_CHECK(c, i == want.size(), "only " << i << " of " << want.size() << " results arrived although nothing is queued any more");
}

// Sends, runs and closes at random; check() is called after each step
template <class Ready, class Check>
void drive(Run& u, std::vector<SrcBase*> in, Ready late_ready, Check check, bool errors) {
    auto& c = u.c;
    int n = c.src.range(2, 30), v = 0;
    bool later = false;
    for (int i = 0; i != n && c.src.more(40, 41); ++i) {
        auto& s = *in[c.src.draw(in.size())];
        switch (c.src.weighted({10, errors ? 2u : 0u, 12, 1, 2, 1})) {
        case 0:
            if (s.open) {
                PBT_LOG(c, "  send " << v << " to source " << s.id);
                s.send(v++);
            }
            break;
        case 1:
            if (s.open) {
                PBT_LOG(c, "  send error " << v << " to source " << s.id);
                s.error(v++);
                c.tag("error sent");
            }
            break;
        case 2: {
            int k = c.src.range(1, 4);
            while (k-- && u.step()) {}
            break;
        }
        case 3:
            if (s.open && c.src.chance(1, 4)) {
                PBT_LOG(c, "  close source " << s.id);
                s.close();
            }
            break;
        case 4:
            PBT_LOG(c, "  set_ready of source " << s.id);
            s.ready();
            break;
        default:
            if (!later) {
                PBT_LOG(c, "  set_ready of the other receivers");
                later = true;
                late_ready();
            }
        }
        check(false, false);
    }
    PBT_LOG(c, "  everything is set ready and run");
    if (!later) late_ready();
    for (auto s : in) s->ready();
    u.drain();
    check(true, false);
    if (in[0]->zip && c.src.chance(3, 4)) {
        std::size_t most = 0;
        for (auto s : in) most = std::max(most, s->sent.size());
        PBT_LOG(c, "  the shorter inputs are filled up");
        for (auto s : in)
            while (s->open && s->sent.size() < most) s->send(v++);
    }
    PBT_LOG(c, "  everything is closed and run");
    for (auto s : in)
        if (s->open) s->close();
    u.drain();
    check(true, true);
}

Stream zipped(const std::vector<const Stream*>& in) {
    Stream r;
    for (std::size_t i = 0;; ++i) {
        Res x;
        for (auto s : in) {
            if (i >= s->size()) return r;
            auto& e = (*s)[i];
            if (x.err) continue;
            if (e.err)
                x = e; // the first input that holds an error
            else
                x.v.insert(x.v.end(), e.v.begin(), e.v.end());
        }
        r.push_back(x);
    }
}

template <class T>
void finish(pbt::Case& c, typename Rec<T>::State& st, std::size_t want, bool ended, const std::vector<SrcBase*>& in) {
    bool open = true;
    for (auto s : in) open = open && s->open;
    // Values left over in front of a zip keep the stages before it suspended: no end is due then.
    for (auto s : in)
        if (s->sent.size() != in[0]->sent.size()) ended = ended && !in[0]->zip;
    if (ended) {
        PBT_CHECK(c, st.closes == 1, "close was called " << st.closes << " times at the end of the stream");
        PBT_CHECK(c, st.objects == 0, "the last process is not destroyed although its stream has ended");
    } else if (open)
        PBT_CHECK(c, st.closes == 0, "close was called before the end of the stream");
    if (want >= 4) c.nontrivial = true;
}

template <class T>
auto passing(Run& u, stlab::receiver<T>& r, int stages) {
    // functions that hand the value on
    for (int i = 0; i != stages; ++i) {
        auto next = attach(u, r, [](T x) { return x; });
        r.set_ready();
        r = std::move(next);
    }
}

template <class A, class B>
void zip2(pbt::Case& c, int form, bool errors) {
    Run u(c);
    Source<A> a(u, 0);
    Source<B> b(u, 1);
    using T = std::tuple<A, B>;
    typename Rec<T>::State st{};
    {
        auto ra = attach(u, a.r, [](A x) { return x; });
        auto rb = attach(u, b.r, [](B x) { return x; });
        auto z = form == 0 ? stlab::zip(u.any(), ra, rb) : stlab::zip_with(u.any(), [](A x, B y) { return T(std::move(x), std::move(y)); }, ra, rb);
        auto end = attach(u, z, Rec<T>(st));
        z.set_ready();
        end.set_ready();
        a.zip = true;
        PBT_LOG(c, (form ? "zip_with" : "zip") << " of two sources of different types");
        drive(u, {&a, &b}, [&] { ra.set_ready(); rb.set_ready(); }, [&](bool all, bool ended) {
            auto want = zipped({&a.sent, &b.sent});
            prefix(c, st.got, want, all);
            finish<T>(c, st, want.size(), ended, {&a, &b});
        }, errors);
    }
    u.drain();
}
template <class A, class B, class D>
void zip3(pbt::Case& c, int form, bool errors) {
    Run u(c);
    Source<A> a(u, 0);
    Source<B> b(u, 1);
    Source<D> d(u, 2);
    using T = std::tuple<A, B, D>;
    typename Rec<T>::State st{};
    {
        auto rb = attach(u, b.r, [](B x) { return x; });
        auto z = form == 0 ? stlab::zip(u.any(), a.r, rb, d.r) :
                             stlab::zip_with(u.any(), [](A x, B y, D w) { return T(std::move(x), std::move(y), std::move(w)); }, a.r, rb, d.r);
        auto end = attach(u, z, Rec<T>(st));
        z.set_ready();
        end.set_ready();
        a.zip = true;
        PBT_LOG(c, (form ? "zip_with" : "zip") << " of three sources of different types");
        drive(u, {&a, &b, &d}, [&] { rb.set_ready(); }, [&](bool all, bool ended) {
            auto want = zipped({&a.sent, &b.sent, &d.sent});
            prefix(c, st.got, want, all);
            finish<T>(c, st, want.size(), ended, {&a, &b, &d});
        }, errors);
    }
    u.drain();
}

// int -> string -> move-only -> pair -> int, some stages throw
void chain(pbt::Case& c, bool errors) {
    Run u(c);
    Source<int> a(u, 0);
    typename Rec<int>::State st{};
    int bad1 = errors ? c.src.range(2, 5) : 1000, bad2 = errors ? c.src.range(2, 5) : 1000;
    {
        auto r1 = attach(u, a.r, [=](int x) -> std::string {
            if (x % bad1 == bad1 - 1) throw Err{10, x};
            return text(x);
        });
        auto r2 = attach(u, r1, [](std::string s) { return Mo(untext(s)); });
        auto r3 = attach(u, r2, [](Mo m) { return std::make_pair(text(m.v), Mo(m.v + 1)); });
        auto r4 = attach(u, r3, [=](std::pair<std::string, Mo> p) -> int {
            int x = untext(p.first);
            if (p.second.v != x + 1) return -5;
            if (x % bad2 == bad2 - 1) throw Err{11, x};
            return x * 2;
        });
        auto end = attach(u, r4, Rec<int>(st));
        PBT_LOG(c, "a chain int, string, move-only, pair, int" << (errors ? ", with throwing stages" : ""));
        r4.set_ready();
        r2.set_ready();
        end.set_ready();
        drive(u, {&a}, [&] { r3.set_ready(); r1.set_ready(); }, [&](bool all, bool ended) {
            Stream want;
            for (auto& e : a.sent) {
                if (e.err)
                    want.push_back(e);
                else if (int x = e.v[0]; x % bad1 == bad1 - 1)
                    want.push_back({true, {10, x}});
                else if (x % bad2 == bad2 - 1)
                    want.push_back({true, {11, x}});
                else
                    want.push_back({false, {2 * x}});
            }
            prefix(c, st.got, want, all);
            finish<int>(c, st, want.size(), ended, {&a});
        }, errors);
    }
    u.drain();
}

// two channels piped into the sender of a third one, which also has a sender of its own
template <class T>
void pipe(pbt::Case& c) {
    Run u(c);
    Source<T> a(u, 0), b(u, 1), m(u, 2);
    typename Rec<T>::State st{};
    bool two = std::is_copy_constructible_v<T>;
    {
        stlab::receiver<void> ha, hb;
        int own = 0; // how many values the sink may have got from m's own sender
        (void)own;
        auto ra = attach(u, a.r, [](T x) { return x; });
        if constexpr (std::is_copy_constructible_v<T>) {
            ha = ra | m.s;
            auto copy = m.s;
            hb = b.r | std::move(copy);
        } else {
            auto p = std::make_shared<stlab::sender<T>>(std::move(m.s));
            ha = ra | [p](T x) { (*p)(std::move(x)); };
        }
        auto end = attach(u, m.r, Rec<T>(st));
        end.set_ready();
        PBT_LOG(c, (two ? "two channels" : "a channel") << " sending into another one");
        std::vector<SrcBase*> in{&a};
        if (two) in.push_back(&b), in.push_back(&m);
        auto check = [&](bool all, bool ended) {
            // each input's values in its own order, all of them in the end
            std::map<int, int> from;
            for (auto s : in)
                for (auto& e : s->sent) from[e.v[0]] = s->id;
            std::map<int, Stream> by;
            for (auto& e : st.got) {
                PBT_CHECK(c, !e.err && from.count(e.v[0]), "something that was not sent arrived:" << show(e));
                by[from[e.v[0]]].push_back(e);
            }
            std::size_t n = 0;
            for (auto s : in) {
                prefix(c, by[s->id], s->sent, all);
                n += s->sent.size();
            }
            finish<T>(c, st, n, ended, in);
        };
        drive(u, in, [&] { ra.set_ready(); m.ready(); }, check, false);
    }
    u.drain();
}

// One source split into branches whose functions take the value in different ways; some of them take it apart.
int by_pointer(std::string s) {
    auto x = std::move(s);
    return untext(x) * 8 + 4;
}
struct Stealing {
    int operator()(std::string&& s) {
        std::string x = std::move(s);
        return untext(x) * 8 + 5;
    }
};
struct ByRefAwait {
    int v = -1;
    bool have = false;
    void await(const std::string& s) {
        v = untext(s) * 8 + 6;
        have = true;
    }
    void set_error(std::exception_ptr) {
        v = -4;
        have = true;
    }
    int yield() {
        have = false;
        return v;
    }
    stlab::process_state_scheduled state() const { return have ? stlab::yield_immediate : stlab::await_forever; }
};
void branches(pbt::Case& c, bool errors) {
    Run u(c);
    Source<std::string> a(u, 0);
    using St = Rec<int>::State;
    std::deque<St> st;
    Stealing by_ref;
    {
        std::vector<int> kinds;
        std::deque<stlab::receiver<int>> r;
        std::deque<stlab::receiver<int>> e;
        int n = c.src.range(2, 7);
        for (int i = 0; i != n; ++i) {
            int k = c.src.range(0, 9);
            kinds.push_back(k);
            switch (k) {
            case 0: r.push_back(attach(u, a.r, [](const std::string& s) { return untext(s) * 8; })); break;
            case 1: r.push_back(attach(u, a.r, [n = 0](std::string s) mutable { ++n; auto x = std::move(s); return untext(x) * 8 + 1; })); break;
            case 2: r.push_back(attach(u, a.r, [](auto&& s) { auto x = std::forward<decltype(s)>(s); return untext(x) * 8 + 2; })); break;
            case 3: r.push_back(attach(u, a.r, [](std::string_view s) { return untext(std::string(s)) * 8 + 3; })); break;
            case 4: r.push_back(attach(u, a.r, &by_pointer)); break;
            case 5: r.push_back(attach(u, a.r, Stealing{})); break;
            case 6: r.push_back(attach(u, a.r, ByRefAwait{})); break;
            case 7: r.push_back(attach(u, a.r, std::function<int(const std::string&)>([](const std::string& s) { return untext(s) * 8 + 7; }))); break;
            case 8: r.push_back(attach(u, a.r, stlab::function_process<int(std::string)>([](std::string s) { auto x = std::move(s); return untext(x) * 8; }))); break;
            default: r.push_back(attach(u, a.r, std::ref(by_ref)));
            }
            st.emplace_back();
            e.push_back(attach(u, r.back(), Rec<int>(st.back())));
        }
        std::string t;
        for (int k : kinds) t += " " + std::to_string(k);
        PBT_LOG(c, "a split of strings into functions of the forms" << t);
        for (auto& x : e) x.set_ready();
        for (int i = 0; i != n; ++i)
            if (c.src.flip()) r[std::size_t(i)].set_ready();
        drive(u, {&a}, [&] {
            for (auto& x : r)
                if (!x.ready()) x.set_ready();
        }, [&](bool all, bool ended) {
            for (std::size_t i = 0; i != kinds.size(); ++i) {
                static const int add[] = {0, 1, 2, 3, 4, 5, 6, 7, 0, 5};
                int k = kinds[i];
                Stream want;
                for (auto& x : a.sent) {
                    if (!x.err)
                        want.push_back({false, {x.v[0] * 8 + add[k]}});
                    else if (k == 6)
                        want.push_back({false, {-4}});
                    else if (k != 8)
                        want.push_back(x);
                }
                prefix(c, st[i].got, want, all);
                finish<int>(c, st[i], want.size(), ended, {&a});
            }
        }, errors);
    }
    u.drain();
}

void shape(pbt::Case& c, int s) {
    bool errors = c.src.chance(1, 3);
    int form = c.src.range(0, 1);
    g_live = 0;
    switch (s) {
    case 0: zip2<int, std::string>(c, form, errors); break;
    case 1: zip2<Mo, int>(c, form, errors); break;
    case 2: zip2<std::string, std::string>(c, form, errors); break;
    case 3: zip3<int, std::string, Mo>(c, form, errors); break;
    case 4: zip3<int, int, std::string>(c, form, errors); break;
    case 5: chain(c, errors); break;
    case 6: pipe<std::string>(c); break;
    case 7: pipe<int>(c); break;
    case 9: branches(c, errors); break;
    default: pipe<Mo>(c);
    }
    PBT_CHECK(c, g_live == 0, g_live << " values are still alive after all handles are gone");
}

} // namespace

#define RULE "at least four results reached the end of the pipeline"
PBT_PROP(C01x, RULE) { shape(c, c.src.flip() ? 5 : 6 + c.src.range(0, 2)); }
PBT_PROP(C02x, RULE) { shape(c, 9); }
PBT_PROP(C03x, RULE) { shape(c, c.src.range(0, 4)); }
