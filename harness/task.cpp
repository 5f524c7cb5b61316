// T01: stlab::task against a reference model, with identity tracking of every callable.
#include "pbt.hpp"

#include <stlab/concurrency/task.hpp>

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

namespace {

pbt::Case* g_c;

// ---------------------------------------------------------------- tracked callables
struct Reg {
    std::map<const void*, int> live; // address of the object -> id, 0 when moved from
    std::map<int, int> valid;        // id -> instances that hold it
    int next = 1;
    int copies = 0;
    bool copy_throws = false;
    void reset() {
        live.clear();
        valid.clear();
        next = 1;
        copies = 0;
        copy_throws = false;
    }
    void born(const void* p, int id) {
        if (live.count(p)) g_c->fail("a callable was constructed over a live one");
        live[p] = id;
        if (id) ++valid[id];
    }
    int id(const void* p) {
        auto i = live.find(p);
        if (i == live.end()) g_c->fail("use of a callable that does not exist (any more)");
        return i->second;
    }
    void died(const void* p) {
        int i = id(p);
        if (i) --valid[i];
        live.erase(p);
    }
};
Reg g_r;
int g_wrong; // set by noexcept code instead of throwing

struct CopyThrow {};
struct CallThrow {
    int id, arg;
};

// What a call is expected to see and do
struct Arg { // by value argument: counts copies, is poisoned when moved from
    int v;
    int copies = 0;
    explicit Arg(int x) : v(x) {}
    Arg(const Arg& o) : v(o.v), copies(o.copies + 1) {}
    Arg(Arg&& o) noexcept : v(o.v), copies(o.copies) { o.v = -1; }
    Arg& operator=(const Arg&) = delete;
};

struct Tok {
    int id;
    int calls = 0;
    Tok() : id(0) {}
};

template <int Pad, int Al, bool CopyOk>
struct __attribute__((packed)) alignas(Al) Fn {
    int id;
    int calls = 0;
    unsigned char pad[Pad];

    explicit Fn(int i) : id(i) {
        fill();
        g_r.born(this, id);
        al();
    }
    Fn(Fn&& o) noexcept {
        if (!g_r.live.count(&o)) {
            g_wrong = 1;
            id = 0;
            return;
        }
        id = o.id;
        calls = o.calls;
        std::memcpy(pad, o.pad, Pad);
        if (id) --g_r.valid[id];
        g_r.live[&o] = 0;
        o.id = 0;
        o.calls = -1;
        std::memset(o.pad, 0xdd, Pad);
        if (g_r.live.count(this)) g_wrong = 2;
        g_r.live[this] = id;
        if (id) ++g_r.valid[id];
        if (address() % Al) g_wrong = 3;
    }
    Fn(const Fn& o) requires CopyOk {
        if (g_r.copy_throws) throw CopyThrow{};
        ++g_r.copies;
        id = o.id;
        calls = o.calls;
        std::memcpy(pad, o.pad, Pad);
        g_r.born(this, id);
        al();
    }
    Fn& operator=(const Fn&) = delete;
    ~Fn() {
        auto i = g_r.live.find(this);
        if (i == g_r.live.end()) {
            g_wrong = 4;
            return;
        }
        if (i->second) --g_r.valid[i->second];
        g_r.live.erase(i);
    }
    void fill() {
        for (int k = 0; k < Pad; ++k) pad[k] = static_cast<unsigned char>(id * 7 + k);
    }
    bool intact() const {
        for (int k = 0; k < Pad; ++k)
            if (pad[k] != static_cast<unsigned char>(id * 7 + k)) return false;
        return true;
    }
    std::uintptr_t address() const { // the compiler takes the alignment for granted
        auto p = reinterpret_cast<std::uintptr_t>(this);
        asm volatile("" : "+r"(p));
        return p;
    }
    void al() const {
        if (address() % Al) g_c->fail("callable is misaligned");
    }
    long run(int a, int& out) {
        if (g_r.id(this) != id || !id) g_c->fail("called an object that was moved from");
        if (!intact()) g_c->fail("the callable's state was damaged");
        al();
        ++calls;
        out += a;
        return id * 1000L + a * 10 + calls % 10;
    }
    long operator()(Arg x, int& out, std::unique_ptr<int> u) {
        if (x.copies) g_c->fail("a by-value argument was copied more than necessary");
        long r = run(x.v, out) + *u * 100000L;
        if (x.v == 7) throw CallThrow{id, x.v};
        return r;
    }
    int& operator()(int& r, int&& rr) {
        int o = 0;
        run(rr, o);
        r += calls;
        rr = -5;
        return r;
    }
    long operator()(int x) noexcept {
        int o = 0;
        return run(x, o);
    }
    std::unique_ptr<int> operator()(std::string s, const std::string& t) {
        int o = 0;
        run(int(s.size() + t.size()), o);
        return std::make_unique<int>(id + int(s.size()));
    }
};

// ---------------------------------------------------------------- one task variable of the model
enum class St { empty, held, husk };
struct MT {
    St st = St::empty;
    int id = 0;     // identity of the callable, 0 for plain functions
    int kind = -1;  // which type
    int calls = 0;
};

int g_plain_calls;
template <class Sig>
struct Plain;

using SigA = long(Arg, int&, std::unique_ptr<int>);
using SigB = int&(int&, int&&);
using SigC = long(int) noexcept;
using SigD = std::unique_ptr<int>(std::string, const std::string&);

long plainA(Arg x, int& out, std::unique_ptr<int> u) {
    ++g_plain_calls;
    out += x.v;
    if (x.v == 7) throw CallThrow{-1, 7};
    return x.v * 10 + *u * 100000L;
}
int& plainB(int& r, int&& rr) {
    ++g_plain_calls;
    r += rr;
    rr = -5;
    return r;
}
long plainC(int x) noexcept {
    ++g_plain_calls;
    return x * 10;
}
std::unique_ptr<int> plainD(std::string s, const std::string& t) {
    ++g_plain_calls;
    return std::make_unique<int>(int(s.size() + t.size()));
}

template <class Sig>
struct Tr;
template <>
struct Tr<SigA> {
    static constexpr auto plain = &plainA;
    using Fp = long (*)(Arg, int&, std::unique_ptr<int>);
    using Sf = std::function<SigA>;
    static constexpr bool nx = false;
};
template <>
struct Tr<SigB> {
    static constexpr auto plain = &plainB;
    using Fp = int& (*)(int&, int&&);
    using Sf = std::function<SigB>;
    static constexpr bool nx = false;
};
template <>
struct Tr<SigC> {
    static constexpr auto plain = &plainC;
    using Fp = long (*)(int) noexcept;
    using Sf = std::function<long(int)>;
    static constexpr bool nx = true;
};
template <>
struct Tr<SigD> {
    static constexpr auto plain = &plainD;
    using Fp = std::unique_ptr<int> (*)(std::string, const std::string&);
    using Sf = std::function<SigD>;
    static constexpr bool nx = false;
};

// callable types by kind
template <int K>
struct Kind;
#define KIND(K, P, A, C)                  \
    template <>                           \
    struct Kind<K> {                      \
        using type = Fn<P, A, C>;         \
        static constexpr bool copy = C;   \
    };
KIND(0, 1, 1, true)    // small
KIND(1, 8, 16, false)  // max aligned, move only
KIND(2, 40, 1, true)   // as large as the buffer in the task
KIND(3, 41, 1, true)   // one more than the buffer
KIND(4, 40, 1, false)  // as large as the buffer, move only
KIND(5, 4, 32, false)  // over-aligned
KIND(6, 240, 8, true)  // large
KIND(7, 12, 1, false)  // small, move only
KIND(8, 40, 8, true)   // as large as the buffer, pointer aligned
KIND(9, 100, 64, true) // large and over-aligned
constexpr int kFp = 10, kSf = 11;
constexpr int kKinds = 10;

template <class Sig>
struct Machine {
    pbt::Case& c;
    using T = stlab::task<Sig>;
    static constexpr int N = 4;
    // A task variable at a generated address (any multiple of the task's own alignment)
    struct Slot {
        alignas(64) unsigned char raw[2][sizeof(T) + 64];
        int cur = 0;
        T* p = nullptr;
        T& operator*() const { return *p; }
        T* operator->() const { return p; }
        template <class... A>
        void emplace(std::size_t off, A&&... a) {
            T* n = ::new (static_cast<void*>(raw[cur ^ 1] + (off * alignof(T)) % 64)) T(std::forward<A>(a)...);
            cur ^= 1;
            if (p) p->~T();
            p = n;
        }
        void reset() {
            if (p) p->~T();
            p = nullptr;
        }
        ~Slot() { reset(); }
    };
    Slot t[N];
    MT m[N];
    int steps = 0;

    std::size_t off() { return std::size_t(c.src.draw(4)); }
    explicit Machine(pbt::Case& cc) : c(cc) {
        for (auto& e : t) e.emplace(off());
    }

    template <class F>
    void with_kind(int k, F&& f) {
        switch (k) {
        case 0: return f(std::integral_constant<int, 0>{});
        case 1: return f(std::integral_constant<int, 1>{});
        case 2: return f(std::integral_constant<int, 2>{});
        case 3: return f(std::integral_constant<int, 3>{});
        case 4: return f(std::integral_constant<int, 4>{});
        case 5: return f(std::integral_constant<int, 5>{});
        case 6: return f(std::integral_constant<int, 6>{});
        case 7: return f(std::integral_constant<int, 7>{});
        case 8: return f(std::integral_constant<int, 8>{});
        default: return f(std::integral_constant<int, 9>{});
        }
    }

    // ---- checks
    void check() {
        PBT_CHECK(c, !g_wrong, "a callable was " << (g_wrong == 1 ? "moved from after its destruction" :
                                                      g_wrong == 2 ? "constructed over a live one" :
                                                      g_wrong == 3 ? "misaligned" : "destroyed twice"));
        std::map<int, int> held;
        for (int i = 0; i < N; ++i)
            if (m[i].st == St::held && m[i].id) ++held[m[i].id];
        for (auto& v : g_r.valid)
            PBT_CHECK(c, v.second == (held.count(v.first) ? held[v.first] : 0),
                      "callable " << v.first << " exists " << v.second << " times, expected " << held[v.first]);
        for (int i = 0; i < N; ++i) {
            T& x = *t[i];
            const T& cx = x;
            if (m[i].st == St::husk) continue;
            bool full = m[i].st == St::held;
            PBT_CHECK(c, bool(x) == full, "task " << i << " converts to " << bool(x));
            PBT_CHECK(c, (cx == nullptr) == !full && (nullptr == cx) == !full && (cx != nullptr) == full && (nullptr != cx) == full,
                      "comparison with nullptr is wrong for task " << i);
            if (!full) {
                PBT_CHECK(c, x.target_type() == typeid(void), "target_type of an empty task");
                PBT_CHECK(c, x.template target<Kind<0>::type>() == nullptr && cx.template target<typename Tr<Sig>::Fp>() == nullptr, "target of an empty task");
            } else if (m[i].kind == kFp) {
                using Fp = typename Tr<Sig>::Fp;
                PBT_CHECK(c, x.target_type() == typeid(Fp), "target_type of a function pointer");
                PBT_CHECK(c, x.template target<Fp>() && *x.template target<Fp>() == Tr<Sig>::plain, "target of a function pointer");
                PBT_CHECK(c, cx.template target<Fp>() == x.template target<Fp>(), "const target of a function pointer");
                PBT_CHECK(c, x.template target<Kind<0>::type>() == nullptr, "target of another type");
            } else if (m[i].kind == kSf) {
                if constexpr (!Tr<Sig>::nx) {
                    PBT_CHECK(c, x.target_type() == typeid(typename Tr<Sig>::Sf), "target_type of std::function");
                    PBT_CHECK(c, x.template target<typename Tr<Sig>::Sf>(), "target of std::function");
                }
            } else {
                with_kind(m[i].kind, [&](auto k) {
                    using F = typename Kind<k()>::type;
                    using G = typename Kind<(k() + 1) % kKinds>::type;
                    PBT_CHECK(c, x.target_type() == typeid(F), "target_type is wrong for task " << i);
                    F* p = x.template target<F>();
                    PBT_CHECK(c, p, "target<F>() is null for task " << i);
                    PBT_CHECK(c, cx.template target<F>() == p, "const target differs for task " << i);
                    PBT_CHECK(c, g_r.id(p) == m[i].id && p->id == m[i].id && p->intact(), "task " << i << " holds another callable");
                    PBT_CHECK(c, p->calls == m[i].calls, "task " << i << " was called " << p->calls << " times, expected " << m[i].calls);
                    PBT_CHECK(c, x.template target<G>() == nullptr && cx.template target<G>() == nullptr, "target of another type is not null");
                });
            }
        }
    }

    int pick() { return c.src.range(0, N - 1); }

    template <class F>
    void expect_copies(int n, F&& f) {
        int before = g_r.copies;
        f();
        PBT_CHECK(c, g_r.copies - before == n, "the callable was copied " << g_r.copies - before << " times, expected " << n);
    }

    void op_assign_callable() {
        int i = pick();
        int how = int(c.src.draw(3)); // 0 construct a new task, 1 assign, 2 assign through temporary
        int k = c.src.range(0, kSf);
        if (k == kSf && Tr<Sig>::nx) k = kFp;
        bool null = k >= kFp && c.src.chance(1, 3);
        std::size_t o = off();
        auto put = [&](auto&& f) {
            using F = decltype(f);
            if (how == 0)
                t[i].emplace(o, std::forward<F>(f));
            else if (how == 1)
                *t[i] = std::forward<F>(f);
            else
                *t[i] = T(std::forward<F>(f));
        };
        PBT_LOG(c, "t" << i << " = callable kind " << k << (null ? " (null)" : "") << " how " << how);
        if (k == kFp) {
            typename Tr<Sig>::Fp f = null ? nullptr : Tr<Sig>::plain;
            put(f);
            m[i] = {null ? St::empty : St::held, 0, kFp, 0};
            return;
        }
        if (k == kSf) {
            if constexpr (!Tr<Sig>::nx) {
                typename Tr<Sig>::Sf f;
                if (!null) f = Tr<Sig>::plain;
                put(f);
                m[i] = {null ? St::empty : St::held, 0, kSf, 0};
            }
            return;
        }
        with_kind(k, [&](auto kk) {
            using F = typename Kind<kk()>::type;
            int id = g_r.next++;
            bool lv = Kind<kk()>::copy && c.src.chance(1, 3);
            if (lv) {
                bool thr = c.src.chance(1, 3);
                if constexpr (Kind<kk()>::copy) {
                    F f(id);
                    g_r.copy_throws = thr;
                    bool caught = false;
                    expect_copies(thr ? 0 : 1, [&] {
                        try {
                            put(f);
                        } catch (CopyThrow&) {
                            caught = true;
                        }
                    });
                    g_r.copy_throws = false;
                    PBT_CHECK(c, caught == thr, "exception of the callable's copy constructor " << (thr ? "lost" : "invented"));
                    PBT_LOG(c, "   from an lvalue, id " << id << (thr ? " copy throws" : ""));
                    if (thr) return; // strong guarantee: the old content is still there
                    c.tag("lvalue callable");
                }
            } else {
                PBT_LOG(c, "   from an rvalue, id " << id);
                expect_copies(0, [&] { put(F(id)); });
            }
            m[i] = {St::held, id, k, 0};
        });
        c.tag(k == 0 || k == 2 || k == 4 || k == 7 ? "small callable" : "other callable");
    }

    void op_move_assign() {
        int i = pick(), j = pick();
        PBT_LOG(c, "t" << i << " = move(t" << j << ")");
        expect_copies(0, [&] { *t[i] = std::move(*t[j]); });
        if (i == j) {
            c.tag("self move");
            // valid but unspecified in general; whatever is left has to be destroyable
            if (m[i].st == St::held) settle(i);
            return;
        }
        m[i] = m[j];
        if (m[j].st == St::held) m[j].st = St::husk;
        if (m[j].st == St::husk && m[i].st == St::held) c.tag("moves");
    }
    // self move leaves the value or a husk: either way is fine, but not something in between
    void settle(int i) {
        if (!m[i].id) {
            m[i].st = St::husk;
            return;
        }
        if (g_r.valid[m[i].id] == 0) m[i].st = St::husk;
    }
    void op_move_construct() {
        int i = pick(), j = pick();
        if (i == j) return;
        std::size_t o = off();
        PBT_LOG(c, "t" << i << " = new task(move(t" << j << ")) at offset " << o);
        expect_copies(0, [&] { t[i].emplace(o, std::move(*t[j])); });
        m[i] = m[j];
        if (m[j].st == St::held) m[j].st = St::husk;
    }
    void op_swap() {
        int i = pick(), j = pick();
        int how = int(c.src.draw(3));
        PBT_LOG(c, "swap(t" << i << ", t" << j << ") how " << how);
        expect_copies(0, [&] {
            if (how == 0)
                t[i]->swap(*t[j]);
            else if (how == 1) {
                using std::swap;
                swap(*t[i], *t[j]);
            } else
                std::swap(*t[i], *t[j]);
        });
        if (i == j && how == 2) {
            if (m[i].st == St::held) settle(i);
        }
        std::swap(m[i], m[j]);
        c.tag(i == j ? "self swap" : "swap");
    }
    void op_reset() {
        int i = pick();
        int how = int(c.src.draw(4));
        PBT_LOG(c, "reset t" << i << " how " << how);
        if (how == 0)
            *t[i] = nullptr;
        else if (how == 1)
            *t[i] = T();
        else if (how == 2)
            t[i].emplace(off());
        else
            t[i].emplace(off(), nullptr);
        m[i] = MT{};
    }

    void after_call(int i, int id_before) {
        (void)id_before;
        ++m[i].calls;
    }

    void op_call() {
        int i = pick();
        if (m[i].st == St::husk) return;
        T& x = *t[i];
        int a = c.src.range(0, 9);
        PBT_LOG(c, "call t" << i << "(" << a << ")");
        if (m[i].st == St::empty) {
            if constexpr (std::is_same_v<Sig, SigA>) {
                int o = 0;
                bool thrown = false;
                try {
                    x(Arg(a), o, std::make_unique<int>(1));
                } catch (std::bad_function_call&) {
                    thrown = true;
                }
                PBT_CHECK(c, thrown, "calling an empty task did not throw bad_function_call");
            } else if constexpr (std::is_same_v<Sig, SigB>) {
                int o = 0;
                bool thrown = false;
                try {
                    x(o, int(a));
                } catch (std::bad_function_call&) {
                    thrown = true;
                }
                PBT_CHECK(c, thrown, "calling an empty task did not throw bad_function_call");
            } else if constexpr (std::is_same_v<Sig, SigD>) {
                bool thrown = false;
                try {
                    x(std::string("a"), "b");
                } catch (std::bad_function_call&) {
                    thrown = true;
                }
                PBT_CHECK(c, thrown, "calling an empty task did not throw bad_function_call");
            } else {
                if (c.src.chance(1, 400)) {
                    pid_t p = fork();
                    if (p == 0) {
                        std::set_terminate([] { ::_exit(55); });
                        try {
                            x(a);
                        } catch (...) {
                        }
                        ::_exit(0);
                    }
                    int st = 0;
                    waitpid(p, &st, 0);
                    PBT_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 55, "calling an empty noexcept task did not terminate");
                    c.tag("empty noexcept call");
                }
                return;
            }
            c.tag("empty call");
            return;
        }
        bool plain = m[i].id == 0;
        int before = g_plain_calls;
        if constexpr (std::is_same_v<Sig, SigA>) {
            int o = 3;
            int u = c.src.range(0, 3);
            bool lv = c.src.chance(1, 3);
            bool thrown = false;
            long r = 0;
            Arg arg(a);
            ++m[i].calls;
            try {
                if (lv) {
                    Arg* ap = &arg;
                    if (!plain) { // a copy is needed then
                        r = x(Arg(ap->v), o, std::make_unique<int>(u));
                    } else
                        r = x(*ap, o, std::make_unique<int>(u));
                    PBT_CHECK(c, ap->v == a, "an lvalue argument was moved from");
                } else
                    r = x(std::move(arg), o, std::make_unique<int>(u));
            } catch (CallThrow& e) {
                thrown = true;
                PBT_CHECK(c, e.id == (plain ? -1 : m[i].id) && e.arg == 7, "wrong exception");
            }
            PBT_CHECK(c, thrown == (a == 7), "exception " << (thrown ? "invented" : "lost"));
            PBT_CHECK(c, o == 3 + a, "reference argument not passed through");
            if (!thrown)
                PBT_CHECK(c, r == (plain ? a * 10 : m[i].id * 1000L + a * 10 + m[i].calls % 10) + u * 100000L, "wrong result " << r);
            if (thrown) c.tag("throwing call");
        } else if constexpr (std::is_same_v<Sig, SigB>) {
            int tgt = 10;
            int rr = a;
            ++m[i].calls;
            constexpr bool ref = std::is_same_v<decltype(x(tgt, std::move(rr))), int&>;
            PBT_CHECK(c, ref, "a task that returns a reference returns a copy");
            auto&& r = x(tgt, std::move(rr));
            PBT_CHECK(c, &r == &tgt, "the referenced object is not the one returned by the callable");
            PBT_CHECK(c, rr == -5, "rvalue reference argument not passed through");
            PBT_CHECK(c, tgt == 10 + (plain ? a : m[i].calls), "wrong effect");
        } else if constexpr (std::is_same_v<Sig, SigC>) {
            ++m[i].calls;
            long r = x(a);
            PBT_CHECK(c, r == (plain ? a * 10 : m[i].id * 1000L + a * 10 + m[i].calls % 10), "wrong result " << r);
        } else {
            ++m[i].calls;
            std::string s(std::size_t(a), 'x');
            std::string keep = s;
            std::unique_ptr<int> r;
            if (c.src.flip()) {
                r = x(s, "tt");
                PBT_CHECK(c, s == keep, "an lvalue argument was changed");
            } else
                r = x(std::move(s), std::string("tt"));
            PBT_CHECK(c, r && *r == (plain ? a + 2 : m[i].id + a), "wrong result");
        }
        if (plain) PBT_CHECK(c, g_plain_calls == before + 1, "plain function called " << g_plain_calls - before << " times");
        c.tag("call");
    }

    void run() {
        while (steps < 40 && c.src.more(15, 16)) {
            ++steps;
            switch (c.src.weighted({6, 5, 3, 2, 3, 2})) {
            case 0: op_assign_callable(); break;
            case 1: op_call(); break;
            case 2: op_move_assign(); break;
            case 3: op_move_construct(); break;
            case 4: op_swap(); break;
            default: op_reset(); break;
            }
            check();
        }
        for (auto& e : t) e.reset();
        PBT_CHECK(c, !g_wrong, "a callable was destroyed twice or moved from after destruction");
        PBT_CHECK(c, g_r.live.empty(), g_r.live.size() << " callables were never destroyed");
        c.nontrivial = steps >= 6;
    }
};

PBT_PROP(T01, "history of at least 6 operations on four task variables") {
    g_c = &c;
    g_r.reset();
    g_wrong = 0;
    g_plain_calls = 0;
    switch (c.src.draw(4)) {
    case 0: Machine<SigA>(c).run(); break;
    case 1: Machine<SigB>(c).run(); break;
    case 2: Machine<SigC>(c).run(); break;
    default: Machine<SigD>(c).run(); break;
    }
}

} // namespace
