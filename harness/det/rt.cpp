// Runtime of the controlled scheduler, see det.hpp.  Compiled without instrumentation.
#include "../det.hpp"

#include <condition_variable>
#include <cstdarg>
#include <dlfcn.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <thread>
#include <utility>

namespace {

constexpr int NT = 40; // threads per case
constexpr std::uintptr_t kBase = 0x510000000000ull;
constexpr std::size_t kHeap = 96u << 20;
constexpr std::size_t kStack = 512u << 10;
constexpr std::size_t kRegion = kHeap + NT * kStack;

struct VC {
    std::uint32_t c[NT];
    void join(const VC& o) {
        for (int i = 0; i < NT; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};

enum class St : std::uint8_t { none, runnable, mutex, cond, join, once, sleep, futex, rw, settle, settle_timers, finished };
const char* st_name(St s) {
    static const char* n[] = {"none", "runnable", "waiting for a mutex", "waiting on a condition variable", "joining a thread", "waiting for an initialization",
                              "sleeping", "waiting on an atomic", "waiting for a shared mutex", "idle", "idle", "finished"};
    return n[int(s)];
}

struct Th {
    int id;
    St st;
    const void* obj;
    std::int64_t deadline; // -1 none
    bool timed_out;
    volatile int go;
    int quiet;
    VC vc;
    VC seen;     // what relaxed loads have seen: a later acquire fence synchronizes with it
    VC released; // clock at the last release fence: later relaxed stores publish it
    void* (*fn)(void*);
    void* arg;
    void* ret;
    pthread_t real;
};

Th g_th[NT];
int g_nth;
bool g_on;
thread_local Th* self __attribute__((tls_model("initial-exec")));
pbt::Case* g_case;
det::Config g_cfg;
std::int64_t g_now;
det::Statistics g_stats;
char* g_shadow;   // state byte per 8 bytes of the heap: 0 never, 1 live, 2 freed
char* g_cells;    // 32 bytes per 8 bytes of the region
char* g_gcells;   // same for the data segment
std::size_t g_top;
void* (*g_user_fn)(void*);

struct Cell {
    std::uint32_t clk;
    std::uint8_t tid, mask, flags, pad;
};
enum { kWrite = 1, kAtomic = 2, kUsed = 4 };

extern "C" char __data_start, _end;

// ------------------------------------------------------------------ raw system calls (syscall() itself is interposed)
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
void park(Th* t) {
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) raw(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
void unpark(Th* t) {
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1);
}

void describe_threads(char* b, std::size_t n) {
    std::size_t k = 0;
    for (int i = 0; i < g_nth && k + 80 < n; ++i)
        if (g_th[i].st != St::finished) k += std::size_t(std::snprintf(b + k, n - k, " [thread %d: %s]", i, st_name(g_th[i].st)));
}

bool about_memory(const char* msg) {
    for (auto w : {"race", "freed", "unallocated", "destroyed", "unlocked", "not from the heap"})
        if (std::strstr(msg, w)) return true;
    return false;
}

[[noreturn]] void die(const char* msg) {
    g_on = false;
    if (pbt::Case::memory_only() && !about_memory(msg) && g_case) g_case->fail(msg);
    if (g_case && g_case->shm && g_case->shm->status == 0) {
        std::strncpy(g_case->shm->msg, msg, sizeof(g_case->shm->msg) - 1);
        g_case->shm->status = 2;
    }
    void* bt[40];
    int n = backtrace(bt, 40);
    dprintf(2, "%s\n", msg);
    backtrace_symbols_fd(bt, n, 2);
    ::_exit(77);
}

// ------------------------------------------------------------------ scheduling
int runnable(Th** out, Th* except) {
    int n = 0;
    for (int i = 0; i < g_nth; ++i)
        if (g_th[i].st == St::runnable && &g_th[i] != except) out[n++] = &g_th[i];
    return n;
}

// moves time on to the next deadline; false when nobody waits for one
bool advance() {
    std::int64_t best = -1;
    for (int i = 0; i < g_nth; ++i)
        if (g_th[i].st != St::runnable && g_th[i].st != St::finished && g_th[i].deadline >= 0 && (best < 0 || g_th[i].deadline < best)) best = g_th[i].deadline;
    if (best < 0) return false;
    if (best > g_now) g_now = best;
    for (int i = 0; i < g_nth; ++i) {
        Th& t = g_th[i];
        if (t.st != St::runnable && t.st != St::finished && t.deadline >= 0 && t.deadline <= g_now) {
            t.timed_out = true;
            t.deadline = -1;
            t.st = St::runnable;
        }
    }
    return true;
}

void switch_to(Th* t) {
    Th* me = self;
    if (t == me) return;
    ++g_stats.switches;
    unpark(t);
    park(me);
}

// the caller's state is no longer runnable (or it has finished): pick another thread
Th* pick_next() {
    Th* c[NT];
    while (true) {
        int n = runnable(c, nullptr);
        if (n) return c[n == 1 ? 0 : g_case->src.sched(std::uint64_t(n))];
        Th* s = nullptr;
        Th* st = nullptr;
        for (int i = 0; i < g_nth; ++i) {
            if (g_th[i].st == St::settle) s = &g_th[i];
            if (g_th[i].st == St::settle_timers) st = &g_th[i];
        }
        if (s) {
            s->st = St::runnable;
            return s;
        }
        if (advance()) continue;
        if (st) {
            st->st = St::runnable;
            return st;
        }
        char b[1500] = "deadlock: no thread can go on";
        describe_threads(b + std::strlen(b), sizeof b - 40);
        die(b);
    }
}

void count_point() {
    ++g_stats.points;
    if (g_stats.points > 600000) {
        char b[1500] = "livelock: the case never ends";
        describe_threads(b + std::strlen(b), sizeof b - 40);
        die(b);
    }
}

void block(St st, const void* obj, std::int64_t deadline = -1) {
    Th* me = self;
    me->st = st;
    me->obj = obj;
    me->deadline = deadline;
    me->timed_out = false;
    count_point();
    Th* n = pick_next();
    if (n != me) switch_to(n);
    me->deadline = -1;
}

bool active() { return g_on && self && !self->quiet; }

void sched_point(bool prefer_other = false) {
    if (!active()) return;
    count_point();
    Th* me = self;
    if (g_cfg.eager_time) {
        bool timed = false;
        for (int i = 0; i < g_nth; ++i) timed |= g_th[i].st != St::runnable && g_th[i].deadline >= 0;
        if (timed && g_case->src.sched(48) == 47) advance();
    }
    Th* o[NT];
    int n = runnable(o, me);
    if (!n) return;
    std::uint64_t k = g_stats.points > 30000 ? 2 : g_cfg.preempt;
    if (prefer_other) k = 1;
    std::uint32_t v = g_case->src.sched(std::uint64_t(n) * k);
    if (!prefer_other && v < std::uint64_t(n) * (k - 1)) return;
    ++g_stats.preemptions;
    switch_to(o[v % std::uint64_t(n)]);
}

void wake_all(St st, const void* obj) {
    for (int i = 0; i < g_nth; ++i)
        if (g_th[i].st == st && g_th[i].obj == obj) {
            g_th[i].st = St::runnable;
            g_th[i].deadline = -1;
        }
}

// ------------------------------------------------------------------ tables keyed by address
template <class V, std::size_t N>
struct Table {
    struct E {
        const void* k;
        V v;
    };
    E e[N];
    std::size_t used;
    V& get(const void* p) {
        std::size_t h = (reinterpret_cast<std::uintptr_t>(p) * 0x9e3779b97f4a7c15ull) >> 40;
        for (std::size_t i = h % N;; i = (i + 1) % N) {
            if (e[i].k == p) return e[i].v;
            if (!e[i].k) {
                if (++used > N - N / 8) die("verification runtime: table is full");
                e[i].k = p;
                return e[i].v;
            }
        }
    }
};
struct Mx {
    int owner; // thread id + 1
    int count;
    int readers; // shared mutexes
    bool tracked;
    VC vc;
};
struct Cv {
    bool destroyed;
};
struct On {
    int state; // 0 new, 1 running, 2 done
    int owner;
    VC vc;
};
Table<Mx, 8192>* g_mx;
Table<Cv, 4096>* g_cv;
Table<On, 1024>* g_on_tab;
Table<VC, 1 << 15>* g_at;
VC g_fence;

void acquire(const VC& v) { self->vc.join(v); }
void release(VC& v) {
    v.join(self->vc);
    ++self->vc.c[self->id];
}
void release_store(VC& v) {
    v = self->vc;
    ++self->vc.c[self->id];
}

// ------------------------------------------------------------------ memory
bool in_heap(const void* p) {
    return reinterpret_cast<std::uintptr_t>(p) - kBase < kHeap;
}
void check_live(const void* p, std::size_t n, const char* what) {
    std::uintptr_t o = reinterpret_cast<std::uintptr_t>(p) - kBase;
    if (o >= kHeap) return;
    for (std::size_t g = o / 8; g <= (o + (n ? n - 1 : 0)) / 8; ++g)
        if (g_shadow[g] != 1) {
            char b[200];
            std::snprintf(b, sizeof b, "%s %s memory", what, g_shadow[g] == 2 ? "freed" : "unallocated");
            die(b);
        }
}

// DET_BT=1 in the environment (for a person looking at a replay): remember where each access came from
struct Where {
    std::uintptr_t key;
    void* pc[20];
    int n;
};
Where* g_where;
Where* where_slot(std::uintptr_t a, int tid, bool w) {
    std::uintptr_t k = (a / 8 * 64 + std::uintptr_t(tid)) * 2 + w + 1;
    for (std::size_t i = k * 0x9E3779B97F4A7C15ull >> 44;; i = (i + 1) & 0xFFFFF)
        if (!g_where[i].key || g_where[i].key == k) {
            g_where[i].key = k;
            return &g_where[i];
        }
}

Cell* cells(std::uintptr_t a) {
    std::uintptr_t o = a - kBase;
    if (o < kRegion) return reinterpret_cast<Cell*>(g_cells + o / 8 * 32);
    std::uintptr_t d = a - reinterpret_cast<std::uintptr_t>(&__data_start);
    if (d < std::size_t(&_end - &__data_start)) return reinterpret_cast<Cell*>(g_gcells + (a / 8 - reinterpret_cast<std::uintptr_t>(&__data_start) / 8) * 32);
    return nullptr;
}

void race_granule(std::uintptr_t a, std::uint8_t mask, unsigned fl) {
    Cell* c = cells(a);
    if (!c) return;
    Th* me = self;
    const std::uint32_t clk = me->vc.c[me->id];
    int slot = -1;
    for (int i = 0; i < 4; ++i) {
        Cell& x = c[i];
        if (!(x.flags & kUsed)) {
            if (slot < 0) slot = i;
            continue;
        }
        if (x.tid == me->id) {
            if ((x.mask & ~mask) == 0 && (((x.flags ^ fl) & (kWrite | kAtomic)) == 0 || ((fl & kWrite) && !(fl & kAtomic)))) slot = i; // superseded
            continue;
        }
        if (x.clk <= me->vc.c[x.tid]) { // ordered before
            if (slot < 0 || (c[slot].flags & kUsed && c[slot].tid != me->id)) slot = i;
            continue;
        }
        if (!(x.mask & mask)) continue;
        if (!((x.flags | fl) & kWrite)) continue;
        if ((x.flags & fl) & kAtomic) continue;
        char b[300];
        std::snprintf(b, sizeof b, "data race: thread %d %s%s memory that thread %d %s%s without synchronization", me->id, fl & kAtomic ? "atomically " : "",
                      fl & kWrite ? "writes" : "reads", x.tid, x.flags & kAtomic ? "atomically " : "", x.flags & kWrite ? "wrote" : "read");
        if (g_where) {
            Where* w = where_slot(a, x.tid, x.flags & kWrite);
            dprintf(2, "the other access:\n");
            backtrace_symbols_fd(w->pc, w->n, 2);
            dprintf(2, "this access:\n");
        }
        die(b);
    }
    if (slot < 0) slot = int((clk + a / 8) & 3);
    c[slot] = {clk, std::uint8_t(me->id), mask, std::uint8_t(fl | kUsed), 0};
    if (g_where) {
        Where* w = where_slot(a, me->id, fl & kWrite);
        w->n = backtrace(w->pc, 20);
    }
}

void race(const void* p, std::size_t n, unsigned fl) {
    if (!g_cfg.check_races || !n) return;
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p), e = a + n;
    for (std::uintptr_t g = a & ~7ull; g < e; g += 8) {
        unsigned lo = g < a ? unsigned(a - g) : 0, hi = e - g < 8 ? unsigned(e - g) : 8;
        race_granule(g, std::uint8_t(((1u << hi) - 1) & ~((1u << lo) - 1)), fl);
    }
}

inline void access(const void* p, std::size_t n, unsigned fl) {
    if (!active()) return;
    check_live(p, n, fl & kWrite ? "write to" : "read of");
    race(p, n, fl);
}

void* heap_new(std::size_t n, std::size_t al) {
    if (al < 16) al = 16;
    std::size_t start = (g_top + 32 + al - 1) / al * al;
    std::size_t end = (start + std::max<std::size_t>(n, 1) + 7) / 8 * 8;
    if (end + 64 > kHeap) die("verification runtime: heap is full");
    char* p = reinterpret_cast<char*>(kBase + start);
    reinterpret_cast<std::size_t*>(p)[-1] = n;
    std::memset(g_shadow + start / 8, 1, (end - start) / 8);
    std::memset(p, 0xcd, end - start);
    g_top = end;
    return p;
}
void heap_delete(void* p) {
    std::size_t n = reinterpret_cast<std::size_t*>(p)[-1];
    std::uintptr_t o = reinterpret_cast<std::uintptr_t>(p) - kBase;
    if (g_on && self) {
        if (g_shadow[o / 8] == 2) die("memory is freed twice");
        if (!self->quiet) race(p, n, kWrite);
        std::size_t g = (std::max<std::size_t>(n, 1) + 7) / 8;
        std::memset(g_shadow + o / 8, 2, g);
        std::memset(p, 0xdd, g * 8);
    }
}

template <class F>
F real(const char* name) {
    return reinterpret_cast<F>(::dlsym(RTLD_NEXT, name));
}

void* trampoline(void* p) {
    Th* t = static_cast<Th*>(p);
    self = t;
    park(t);
    t->ret = t->fn(t->arg);
    if (!g_on) return t->ret;
    t->st = St::finished;
    wake_all(St::join, t);
    Th* n = pick_next();
    self = nullptr;
    unpark(n);
    return t->ret;
}

int create(pthread_t* out, void* (*fn)(void*), void* arg) {
    if (g_nth == NT) die("more threads are created than any case needs");
    Th* t = &g_th[g_nth];
    std::memset(static_cast<void*>(t), 0, sizeof *t);
    t->id = g_nth++;
    t->st = St::runnable;
    t->deadline = -1;
    t->fn = fn;
    t->arg = arg;
    t->vc.c[t->id] = 1;
    if (self) {
        t->vc.join(self->vc);
        ++self->vc.c[self->id];
    }
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, reinterpret_cast<void*>(kBase + kHeap + std::size_t(t->id) * kStack), kStack);
    static auto pc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    int r = pc(&t->real, &a, trampoline, t);
    pthread_attr_destroy(&a);
    if (r) die("verification runtime: cannot create a thread");
    if (out) *out = t->real;
    return 0;
}

Th* find(pthread_t p) {
    for (int i = g_nth; i-- > 0;)
        if (pthread_equal(g_th[i].real, p)) return &g_th[i];
    return nullptr;
}

volatile int g_main_done;
void* main_fn(void*) {
    g_user_fn(nullptr);
    g_on = false;
    __atomic_store_n(&g_main_done, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)&g_main_done, FUTEX_WAKE_PRIVATE, 1);
    for (;;) raw(SYS_pause); // the process exits from the real main thread
}
void (*g_body)(void*);
void* g_body_arg;

// a time of the far future is never reached
std::int64_t to_ns(const timespec* t) { return t->tv_sec > 4000000000 ? -1 : std::int64_t(t->tv_sec) * 1000000000 + t->tv_nsec; }

// ------------------------------------------------------------------ mutexes
void mx_lock(const void* m, bool recursive) {
    check_live(m, 8, "lock of a mutex in");
    Mx& x = g_mx->get(m);
    Th* me = self;
    while (x.owner || x.readers) {
        if (x.owner == me->id + 1) {
            if (recursive) {
                ++x.count;
                return;
            }
            die("deadlock: a thread locks a mutex that it already holds");
        }
        block(St::mutex, m);
        check_live(m, 8, "lock of a mutex in");
    }
    x.owner = me->id + 1;
    x.count = 1;
    acquire(x.vc);
}
int mx_trylock(const void* m, bool recursive) {
    check_live(m, 8, "lock of a mutex in");
    Mx& x = g_mx->get(m);
    Th* me = self;
    if (x.owner == me->id + 1 && recursive) {
        ++x.count;
        return 0;
    }
    if (x.owner || x.readers) return EBUSY;
    x.owner = me->id + 1;
    x.count = 1;
    acquire(x.vc);
    return 0;
}
void mx_unlock(const void* m) {
    check_live(m, 8, "unlock of a mutex in");
    Mx& x = g_mx->get(m);
    if (x.owner != self->id + 1) die("a mutex is unlocked by a thread that does not hold it");
    if (--x.count) return;
    release(x.vc);
    x.owner = 0;
    wake_all(St::mutex, m);
}
bool recursive(const pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int cv_wait(const void* c, const void* m, std::int64_t deadline) {
    sched_point();
    check_live(c, 8, "wait on a condition variable in");
    if (g_cv->get(c).destroyed) die("a destroyed condition variable is waited on");
    mx_unlock(m);
    bool out = false;
    if (g_cfg.spurious && g_case->src.sched(12) == 11) {
        sched_point();
    } else if (deadline >= 0 && deadline <= g_now) {
        sched_point();
        out = true;
    } else {
        block(St::cond, c, deadline);
        out = self->timed_out;
    }
    mx_lock(m, false);
    return out ? ETIMEDOUT : 0;
}
void cv_notify(const void* c, bool all) {
    check_live(c, 8, "notify of a condition variable in");
    if (g_cv->get(c).destroyed) die("a destroyed condition variable is notified");
    if (all) {
        wake_all(St::cond, c);
        return;
    }
    Th* w[NT];
    int n = 0;
    for (int i = 0; i < g_nth; ++i)
        if (g_th[i].st == St::cond && g_th[i].obj == c) w[n++] = &g_th[i];
    if (!n) return;
    Th* t = w[n == 1 ? 0 : g_case->src.sched(std::uint64_t(n))];
    t->st = St::runnable;
    t->deadline = -1;
}

} // namespace

// ================================================================== interface
namespace det {

Config draw_config(pbt::Case& c) {
    Config f;
    static const unsigned pre[] = {8, 2, 4, 20, 80};
    f.preempt = pre[c.src.sched(5)];
    f.spurious = c.src.sched(4) == 3;
    f.eager_time = c.src.sched(3) == 2;
    return f;
}

void go(pbt::Case& c, const Config& cfg, void (*f)(void*), void* arg) {
    g_case = &c;
    g_cfg = cfg;
    if (g_cfg.preempt < 1) g_cfg.preempt = 1;
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(unsigned(sched_getcpu()), &cs);
    sched_setaffinity(0, sizeof cs, &cs);
    auto map = [](std::size_t n, void* at) {
        void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED : 0), -1, 0);
        if (p == MAP_FAILED) die("verification runtime: mmap failed");
        return p;
    };
    map(kRegion, reinterpret_cast<void*>(kBase));
    g_shadow = static_cast<char*>(map(kHeap / 8, nullptr));
    g_cells = static_cast<char*>(map(kRegion / 8 * 32, nullptr));
    g_gcells = static_cast<char*>(map((std::size_t(&_end - &__data_start) / 8 + 2) * 32, nullptr));
    g_mx = static_cast<decltype(g_mx)>(map(sizeof *g_mx, nullptr));
    g_cv = static_cast<decltype(g_cv)>(map(sizeof *g_cv, nullptr));
    g_on_tab = static_cast<decltype(g_on_tab)>(map(sizeof *g_on_tab, nullptr));
    g_at = static_cast<decltype(g_at)>(map(sizeof *g_at, nullptr));
    if (std::getenv("DET_BT")) g_where = static_cast<Where*>(map((1u << 20) * sizeof(Where), nullptr));
    g_top = 64;
    g_nth = 0;
    g_now = 1000000000;
    g_stats = {};
    std::memset(&g_fence, 0, sizeof g_fence);
    g_body = f;
    g_body_arg = arg;
    g_user_fn = [](void*) -> void* {
        g_body(g_body_arg);
        return nullptr;
    };
    g_main_done = 0;
    create(nullptr, main_fn, nullptr);
    g_on = true;
    unpark(&g_th[0]);
    while (!__atomic_load_n(&g_main_done, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&g_main_done, FUTEX_WAIT_PRIVATE, 0, 0);
    g_on = false;
}

void settle(bool timers) {
    if (!g_on || !self) return;
    int q = std::exchange(self->quiet, 0);
    block(timers ? St::settle_timers : St::settle, nullptr);
    self->quiet = q;
}
std::int64_t now_ns() { return g_now; }
void sleep_ns(std::int64_t ns) {
    if (!active()) return;
    if (ns <= 0) return sched_point(true);
    block(St::sleep, nullptr, g_now + ns);
}
void point() { sched_point(); }
unsigned threads_created() { return unsigned(g_nth); }
int self_id() { return self ? self->id : -1; }
bool managed() { return g_on && self; }
void quiet(int d) {
    if (self) self->quiet += d;
}
void fail(const char* msg) { die(msg); }
Statistics stats() { return g_stats; }

} // namespace det

// ================================================================== interposition
extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
    if (!g_on || !self) return real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create")(out, a, fn, arg);
    int r = create(out, fn, arg);
    sched_point();
    return r;
}
int pthread_join(pthread_t p, void** ret) {
    if (!g_on || !self) return real<int (*)(pthread_t, void**)>("pthread_join")(p, ret);
    sched_point();
    Th* t = find(p);
    if (!t) die("join of an unknown thread");
    if (t == self) die("deadlock: a thread joins itself");
    while (t->st != St::finished) block(St::join, t);
    acquire(t->vc);
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) noexcept {
    if (!g_on || !self) return real<int (*)(pthread_t)>("pthread_detach")(p);
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (!active()) {
        static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
        return g_on ? 0 : f(m);
    }
    sched_point();
    mx_lock(m, recursive(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!active()) {
        static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
        return g_on ? 0 : f(m);
    }
    sched_point();
    return mx_trylock(m, recursive(m));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* ts) noexcept {
    if (!active()) return 0;
    sched_point();
    std::int64_t d = to_ns(ts);
    Mx& x = g_mx->get(m);
    while (mx_trylock(m, recursive(m)) == EBUSY) {
        if (d <= g_now) return ETIMEDOUT;
        block(St::mutex, m, d);
    }
    (void)x;
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) noexcept { return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (!active()) {
        static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
        return g_on ? 0 : f(m);
    }
    sched_point(); // others find the mutex taken
    mx_unlock(m);
    sched_point();
    return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    if (!active()) return 0;
    sched_point();
    check_live(m, 8, "lock of a mutex in");
    Mx& x = g_mx->get(m);
    while (x.owner) block(St::mutex, m);
    ++x.readers;
    acquire(x.vc);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
    if (!active()) return 0;
    sched_point();
    Mx& x = g_mx->get(m);
    if (x.owner) return EBUSY;
    ++x.readers;
    acquire(x.vc);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    if (!active()) return 0;
    sched_point();
    mx_lock(m, false);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept {
    if (!active()) return 0;
    sched_point();
    return mx_trylock(m, false);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    if (!active()) return 0;
    check_live(m, 8, "unlock of a mutex in");
    Mx& x = g_mx->get(m);
    if (x.owner)
        mx_unlock(m);
    else {
        release(x.vc);
        if (--x.readers == 0) wake_all(St::mutex, m);
    }
    sched_point();
    return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!active()) return real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait")(c, m);
    return cv_wait(c, m, -1) == 0 ? 0 : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
    if (!active()) return 0;
    return cv_wait(c, m, to_ns(t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) {
    if (!active()) return 0;
    return cv_wait(c, m, to_ns(t));
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (!active()) {
        static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
        return g_on ? 0 : f(c);
    }
    sched_point();
    cv_notify(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (!active()) {
        static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
        return g_on ? 0 : f(c);
    }
    sched_point();
    cv_notify(c, true);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
    if (!g_on || !self) return 0;
    for (int i = 0; i < g_nth; ++i)
        if (g_th[i].st == St::cond && g_th[i].obj == c) die("a condition variable is destroyed while a thread waits on it");
    g_cv->get(c).destroyed = true;
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept {
    std::memset(static_cast<void*>(c), 0, sizeof *c);
    if (g_on && self) g_cv->get(c).destroyed = false;
    return 0;
}

int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!g_on || !self) {
        static auto r = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
        return r(o, f);
    }
    sched_point();
    On& x = g_on_tab->get(o);
    while (x.state == 1) {
        if (x.owner == self->id) die("deadlock: recursive call_once");
        block(St::once, o);
    }
    if (x.state == 0 && *o != 0) x.state = 2; // done before the case started
    if (x.state == 0) {
        x.state = 1;
        x.owner = self->id;
        try {
            f();
        } catch (...) {
            x.state = 0;
            wake_all(St::once, o);
            throw;
        }
        x.state = 2;
        *o = 2;
        release(x.vc);
        wake_all(St::once, o);
        sched_point();
        return 0;
    }
    acquire(x.vc);
    return 0;
}

// static initialization
int __cxa_guard_acquire(std::int64_t* g) {
    if (__atomic_load_n(reinterpret_cast<char*>(g), __ATOMIC_ACQUIRE)) return 0;
    if (!g_on || !self) return 1;
    sched_point();
    On& x = g_on_tab->get(g);
    while (x.state == 1) {
        if (x.owner == self->id) die("deadlock: recursive initialization of a static");
        block(St::once, g);
    }
    if (__atomic_load_n(reinterpret_cast<char*>(g), __ATOMIC_ACQUIRE)) {
        acquire(x.vc);
        return 0;
    }
    x.state = 1;
    x.owner = self->id;
    return 1;
}
void __cxa_guard_release(std::int64_t* g) {
    if (g_on && self) {
        On& x = g_on_tab->get(g);
        x.state = 2;
        release(x.vc);
        release(g_at->get(g));
        wake_all(St::once, g);
    }
    __atomic_store_n(reinterpret_cast<char*>(g), 1, __ATOMIC_RELEASE);
    sched_point();
}
void __cxa_guard_abort(std::int64_t* g) {
    if (g_on && self) {
        On& x = g_on_tab->get(g);
        x.state = 0;
        wake_all(St::once, g);
    }
}

// time
int clock_gettime(clockid_t k, timespec* t) noexcept {
    if (g_on && self && (k == CLOCK_MONOTONIC || k == CLOCK_REALTIME || k == CLOCK_MONOTONIC_RAW || k == CLOCK_BOOTTIME || k == CLOCK_MONOTONIC_COARSE || k == CLOCK_REALTIME_COARSE)) {
        t->tv_sec = g_now / 1000000000;
        t->tv_nsec = g_now % 1000000000;
        return 0;
    }
    long r = raw(SYS_clock_gettime, k, (long)t);
    if (r < 0) {
        errno = int(-r);
        return -1;
    }
    return 0;
}
int nanosleep(const timespec* a, timespec* b) {
    if (g_on && self) {
        det::sleep_ns(to_ns(a));
        return 0;
    }
    long r = raw(SYS_nanosleep, (long)a, (long)b);
    if (r < 0) {
        errno = int(-r);
        return -1;
    }
    return 0;
}
int clock_nanosleep(clockid_t k, int fl, const timespec* a, timespec* b) {
    if (g_on && self) {
        det::sleep_ns(fl & TIMER_ABSTIME ? to_ns(a) - g_now : to_ns(a));
        return 0;
    }
    return int(-raw(SYS_clock_nanosleep, k, fl, (long)a, (long)b));
}
int usleep(useconds_t u) {
    timespec t{time_t(u / 1000000), long(u % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
int sched_yield() noexcept {
    if (g_on && self) {
        sched_point(true);
        return 0;
    }
    return int(raw(SYS_sched_yield));
}

// atomic waits use the futex system call directly
long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& e : a) e = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && active()) {
        int op = int(a[1]) & 127;
        const void* p = reinterpret_cast<const void*>(a[0]);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sched_point();
            if (*static_cast<const volatile int*>(p) != int(a[2])) {
                errno = EAGAIN;
                return -1;
            }
            std::int64_t d = -1;
            if (a[3]) d = to_ns(reinterpret_cast<timespec*>(a[3])) + (op == FUTEX_WAIT ? g_now : 0);
            block(St::futex, p, d);
            if (self->timed_out) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sched_point();
            long k = 0;
            for (int i = 0; i < g_nth && k < a[2]; ++i)
                if (g_th[i].st == St::futex && g_th[i].obj == p) {
                    g_th[i].st = St::runnable;
                    g_th[i].deadline = -1;
                    ++k;
                }
            return k;
        }
    }
    long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = int(-r);
        return -1;
    }
    return r;
}

// ------------------------------------------------------------------ instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() { det::quiet(1); }
void __tsan_ignore_thread_end() { det::quiet(-1); }

#define ACC(N)                                                                              \
    void __tsan_read##N(void* a) { access(a, N, 0); }                                       \
    void __tsan_write##N(void* a) { access(a, N, kWrite); }                                 \
    void __tsan_unaligned_read##N(void* a) { access(a, N, 0); }                             \
    void __tsan_unaligned_write##N(void* a) { access(a, N, kWrite); }                       \
    void __tsan_read_write##N(void* a) { access(a, N, kWrite); }                            \
    void __tsan_unaligned_read_write##N(void* a) { access(a, N, kWrite); }                  \
    void __tsan_volatile_read##N(void* a) { access(a, N, 0); }                              \
    void __tsan_volatile_write##N(void* a) { access(a, N, kWrite); }                        \
    void __tsan_unaligned_volatile_read##N(void* a) { access(a, N, 0); }                    \
    void __tsan_unaligned_volatile_write##N(void* a) { access(a, N, kWrite); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, 0); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, kWrite); }
void __tsan_vptr_update(void** a, void* v) {
    if (*a != v) access(a, 8, kWrite);
}
void __tsan_vptr_read(void** a) { access(a, 8, 0); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
    if (active()) {
        access(s, n, 0);
        access(d, n, kWrite);
    }
    return std::memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
    if (active()) {
        access(s, n, 0);
        access(d, n, kWrite);
    }
    return std::memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, unsigned long n) {
    access(d, n, kWrite);
    return std::memset(d, v, n);
}

} // extern "C"

namespace {
enum Mo { relaxed, consume, acq, rel, acq_rel, seq_cst };
struct AtomicOp {
    bool on;
    const void* a;
    AtomicOp(const volatile void* p, std::size_t n, unsigned fl) : on(active()), a(const_cast<const void*>(p)) {
        if (!on) return;
        sched_point();
        access(a, n, fl | kAtomic);
    }
    void load(int mo) {
        if (!on) return;
        if (mo == consume || mo == acq || mo == acq_rel || mo == seq_cst)
            acquire(g_at->get(a));
        else
            self->seen.join(g_at->get(a));
    }
    void store(int mo) {
        if (!on) return;
        if (mo == rel || mo == acq_rel || mo == seq_cst)
            release_store(g_at->get(a));
        else
            g_at->get(a) = self->released; // a relaxed store ends the release sequence
    }
    void rmw(int mo) {
        if (!on) return;
        VC& v = g_at->get(a);
        if (mo == consume || mo == acq || mo == acq_rel || mo == seq_cst)
            acquire(v);
        else
            self->seen.join(v);
        if (mo == rel || mo == acq_rel || mo == seq_cst)
            release(v);
        else
            v.join(self->released);
    }
};
} // namespace

extern "C" {
#define ATOMICS(N, T)                                                                                             \
    T __tsan_atomic##N##_load(const volatile T* a, int mo) {                                                      \
        AtomicOp o(a, sizeof(T), 0);                                                                              \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                               \
        o.load(mo);                                                                                               \
        return v;                                                                                                 \
    }                                                                                                             \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo) {                                                   \
        AtomicOp o(a, sizeof(T), kWrite);                                                                         \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                 \
        o.store(mo);                                                                                              \
    }                                                                                                             \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) {                                                   \
        AtomicOp o(a, sizeof(T), kWrite);                                                                         \
        T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                        \
        o.rmw(mo);                                                                                                \
        return r;                                                                                                 \
    }                                                                                                             \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) {                                                  \
        AtomicOp o(a, sizeof(T), kWrite);                                                                         \
        T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                         \
        o.rmw(mo);                                                                                                \
        return r;                                                                                                 \
    }                                                                                                             \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) {                                                  \
        AtomicOp o(a, sizeof(T), kWrite);                                                                         \
        T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                         \
        o.rmw(mo);                                                                                                \
        return r;                                                                                                 \
    }                                                                                                             \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) {                                                  \
        AtomicOp o(a, sizeof(T), kWrite);                                                                         \
        T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                         \
        o.rmw(mo);                                                                                                \
        return r;                                                                                                 \
    }                                                                                                             \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) {                                                   \
        AtomicOp o(a, sizeof(T), kWrite);                                                                         \
        T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                          \
        o.rmw(mo);                                                                                                \
        return r;                                                                                                 \
    }                                                                                                             \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) {                                                  \
        AtomicOp o(a, sizeof(T), kWrite);                                                                         \
        T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                         \
        o.rmw(mo);                                                                                                \
        return r;                                                                                                 \
    }                                                                                                             \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) {                                                 \
        AtomicOp o(a, sizeof(T), kWrite);                                                                         \
        T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                        \
        o.rmw(mo);                                                                                                \
        return r;                                                                                                 \
    }                                                                                                             \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {                   \
        AtomicOp o(a, sizeof(T), kWrite);                                                                         \
        bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                 \
        if (r)                                                                                                    \
            o.rmw(mo);                                                                                            \
        else                                                                                                      \
            o.load(fmo);                                                                                          \
        return r;                                                                                                 \
    }                                                                                                             \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {                     \
        return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo);                                      \
    }                                                                                                             \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                         \
        __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo);                                            \
        return c;                                                                                                 \
    }
ATOMICS(8, std::uint8_t)
ATOMICS(16, std::uint16_t)
ATOMICS(32, std::uint32_t)
ATOMICS(64, std::uint64_t)

void __tsan_atomic_thread_fence(int mo) {
    if (!active()) return;
    sched_point();
    if (mo == consume || mo == acq || mo == acq_rel || mo == seq_cst) acquire(self->seen);
    if (mo == seq_cst) {
        acquire(g_fence);
        release(g_fence);
    }
    if (mo == rel || mo == acq_rel || mo == seq_cst) release_store(self->released);
}
void __tsan_atomic_signal_fence(int) {}
}

// ================================================================== C++ runtime functions
std::condition_variable::condition_variable() noexcept {
    if (g_on && self) g_cv->get(native_handle()).destroyed = false;
}
unsigned std::thread::hardware_concurrency() noexcept { return g_on && self ? g_cfg.cores : 8; }

static void* do_new(std::size_t n, std::size_t al) {
    if (g_on && self) return heap_new(n, al);
    void* p = al <= 16 ? std::malloc(n ? n : 1) : std::aligned_alloc(al, (n + al - 1) / al * al);
    if (!p) throw std::bad_alloc();
    return p;
}
static void do_delete(void* p) {
    if (!p) return;
    if (in_heap(p))
        heap_delete(p);
    else if (reinterpret_cast<std::uintptr_t>(p) - kBase < kRegion)
        die("memory that is not from the heap is freed");
    else
        std::free(p);
}
void* operator new(std::size_t n) { return do_new(n, 16); }
void* operator new[](std::size_t n) { return do_new(n, 16); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new(std::size_t n, std::align_val_t a) { return do_new(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return do_new(n, std::size_t(a)); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, std::size_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { do_delete(p); }
