// Property-based testing engine used by every harness in /verif.
//
//  * A test case is a pure function of two finite streams of choices (stream 0: the generated
//    program / input, stream 1: the schedule).  Random runs draw the choices from a PRNG seeded with
//    (VERIF_SEED, harness, case index); replay and shrinking feed recorded choices back.
//  * Worker processes are forked; a crash, sanitizer report, std::terminate or hang in one of them is
//    a failure of the case it was running.  Shrinking re-runs candidates in forked children.
//  * mode inproc: many cases per worker process.  mode forked: one child process per case (used when
//    the code under test has process wide singletons and threads).
#pragma once

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define PBT_TSAN 1
#endif

extern "C" void __sanitizer_print_stack_trace() __attribute__((weak));

namespace pbt {

inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Failure {
    std::string msg;
};

constexpr std::size_t kMaxChoices = 1u << 17;

struct Tag {
    char name[56];
    std::uint64_t count;
};

// State of one executing case, in memory shared with the parent.
struct CaseShm {
    volatile std::uint32_t status; // 0 running, 1 ok, 2 failed
    std::uint32_t nontrivial;
    std::uint64_t hash;
    std::uint32_t n[2];
    char msg[4096];
    char log[65536];
    std::uint32_t log_len;
    std::uint32_t choices[2][kMaxChoices];
};

struct WorkerShm {
    volatile std::uint64_t cur_case;
    volatile std::uint64_t done;
    std::uint64_t nontrivial;
    std::uint64_t evals; // oracle evaluations other than cases, informational
    volatile std::uint64_t failed; // 1 when a case failed
    std::uint64_t nsamples;
    std::uint64_t sample_case[8];
    std::uint64_t nhash;
    std::uint32_t ntags;
    Tag tags[160];
};

class Src {
public:
    // random mode
    explicit Src(std::uint64_t seed) : _replay(false) {
        _s[0] = mix(seed ^ 0x1111);
        _s[1] = mix(seed ^ 0x2222);
    }
    // replay mode
    Src(std::vector<std::uint32_t> a, std::vector<std::uint32_t> b) : _replay(true) {
        _in[0] = std::move(a);
        _in[1] = std::move(b);
    }

    CaseShm* record = nullptr;
    std::uint64_t hash = 0x1234567;
    std::uint32_t used[2] = {0, 0};

    std::uint32_t raw(int stream, std::uint64_t n) {
        std::uint32_t v;
        if (n == 0) n = 1;
        if (_replay) {
            v = used[stream] < _in[stream].size() ? _in[stream][used[stream]] : 0;
            if (v >= n) v = static_cast<std::uint32_t>(v % n);
        } else {
            _s[stream] += 0x9e3779b97f4a7c15ull;
            std::uint64_t z = _s[stream];
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            z ^= z >> 31;
            v = static_cast<std::uint32_t>((static_cast<unsigned __int128>(z) * n) >> 64);
        }
        if (record && used[stream] < kMaxChoices) {
            record->choices[stream][used[stream]] = v;
            record->n[stream] = used[stream] + 1;
        }
        ++used[stream];
        hash = (hash ^ (v + 0x9e37u * (stream + 1))) * 0x100000001b3ull;
        hash ^= hash >> 29;
        return v;
    }
    // uniform in [0, n)
    std::uint32_t draw(std::uint64_t n) { return raw(0, n); }
    // uniform in [lo, hi]; shrinks towards lo
    int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<std::uint64_t>(hi - lo) + 1)); }
    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    bool flip() { return draw(2) == 1; }
    // loop condition, expected number of iterations num/(den-num)
    bool more(unsigned num, unsigned den) { return chance(num, den); }
    // index, weighted; earlier entries are simpler
    std::size_t weighted(std::initializer_list<unsigned> w) {
        unsigned t = 0;
        for (auto e : w) t += e;
        unsigned v = draw(t);
        std::size_t i = 0;
        for (auto e : w) {
            if (v < e) return i;
            v -= e;
            ++i;
        }
        return i - 1;
    }
    // schedule stream
    std::uint32_t sched(std::uint64_t n) { return raw(1, n); }

private:
    bool _replay;
    std::uint64_t _s[2];
    std::vector<std::uint32_t> _in[2];
};

struct Case;
inline Case*& current_case() {
    static Case* c = nullptr;
    return c;
}

struct Case {
    Src& src;
    WorkerShm* w = nullptr;
    CaseShm* shm = nullptr;
    bool logging = false;
    bool nontrivial = false;
    bool forked = false;

    explicit Case(Src& s) : src(s) {}

    void tag(const char* name, std::uint64_t n = 1) {
        if (!w) return;
        for (std::uint32_t i = 0; i < w->ntags; ++i)
            if (!std::strcmp(w->tags[i].name, name)) {
                w->tags[i].count += n;
                return;
            }
        if (w->ntags < 160) {
            std::strncpy(w->tags[w->ntags].name, name, 55);
            w->tags[w->ntags].count = n;
            ++w->ntags;
        }
    }
    void log(const std::string& s) {
        if (!logging || !shm) return;
        std::size_t room = sizeof(shm->log) - 1 - shm->log_len;
        std::size_t k = std::min(room, s.size());
        std::memcpy(shm->log + shm->log_len, s.data(), k);
        shm->log_len += static_cast<std::uint32_t>(k);
        shm->log[shm->log_len] = 0;
    }
    // Only what concerns memory is decided (R01): other failures end the case quietly, other properties report them.
    static bool& memory_only() {
        static bool b = false;
        return b;
    }
    // May be called on any thread in forked mode.
    [[noreturn]] void fail(const std::string& m) {
        if (forked && memory_only()) {
            if (shm && shm->status == 0) shm->status = 1;
            ::_exit(0);
        }
        if (forked) {
            if (shm && shm->status == 0) {
                std::strncpy(shm->msg, m.c_str(), sizeof(shm->msg) - 1);
                shm->status = 2;
            }
            ::_exit(77);
        }
        throw Failure{m};
    }
};

#define PBT_STR_(x) #x
#define PBT_STR(x) PBT_STR_(x)
#define PBT_LOG(c, expr)                          \
    do {                                          \
        if ((c).logging) {                        \
            std::ostringstream pbt_os_;           \
            pbt_os_ << expr << '\n';              \
            (c).log(pbt_os_.str());               \
        }                                         \
    } while (0)
#define PBT_FAIL(c, expr)                         \
    do {                                          \
        std::ostringstream pbt_os_;               \
        pbt_os_ << expr;                          \
        (c).fail(pbt_os_.str());                  \
    } while (0)
#define PBT_CHECK(c, cond, expr)                                                            \
    do {                                                                                    \
        if (!(cond)) PBT_FAIL(c, expr << "  [" #cond " at line " PBT_STR(__LINE__) "]");    \
    } while (0)

using Fn = void (*)(Case&);

struct Harness {
    const char* name;
    Fn fn;
    const char* rule; // when a case counts as non-trivial
    bool forked;
};

inline std::vector<Harness>& registry() {
    static std::vector<Harness> r;
    return r;
}
struct Reg {
    Reg(const char* name, Fn fn, const char* rule, bool forked) {
        registry().push_back({name, fn, rule, forked});
    }
};
#define PBT_PROP(ident, rule)                                              \
    static void pbt_fn_##ident(pbt::Case& c);                              \
    static pbt::Reg pbt_reg_##ident(#ident, pbt_fn_##ident, rule, false);  \
    static void pbt_fn_##ident([[maybe_unused]] pbt::Case& c)
#define PBT_PROP_FORKED(ident, rule)                                       \
    static void pbt_fn_##ident(pbt::Case& c);                              \
    static pbt::Reg pbt_reg_##ident(#ident, pbt_fn_##ident, rule, true);   \
    static void pbt_fn_##ident([[maybe_unused]] pbt::Case& c)

// Hooks the deterministic scheduler installs to wrap the body of a case.
inline void (*&case_wrapper())(Case&, Fn) {
    static void (*w)(Case&, Fn) = nullptr;
    return w;
}

inline double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += char(ch);
        } else if (ch == '\n')
            r += "\\n";
        else if (ch < 32 || ch > 126) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        } else
            r += char(ch);
    }
    return r;
}

// A case that keeps the cpu busy for this many seconds is taken to never finish (cases take
// milliseconds).  Measured in cpu time of the process, so load on the machine does not count.
inline void cpu_alarm(int) {
    if (current_case() && current_case()->shm && current_case()->shm->status == 0) {
        std::strncpy(current_case()->shm->msg, "the case never finished: it spun until its cpu time limit", 4000);
        current_case()->shm->status = 2;
    }
    if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
    ::_exit(77);
}
inline void arm_cpu(double sec) {
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = cpu_alarm;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval it;
    std::memset(&it, 0, sizeof it);
    it.it_value.tv_sec = static_cast<time_t>(sec);
    it.it_value.tv_usec = static_cast<suseconds_t>((sec - static_cast<double>(it.it_value.tv_sec)) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

struct Engine {
    double cpu_s = 6;
    const Harness* h = nullptr;
    std::uint64_t seed = 1;
    std::uint64_t cases = 1000;
    unsigned workers = 8;
    double max_s = 300;
    double hang_s = 40;
    std::string outdir = ".";
    std::string replay_out;
    std::string evidence_out;

    std::vector<WorkerShm*> ws;
    std::vector<std::uint64_t*> hashes;
    CaseShm* probe = nullptr; // parent's probe slot

    static void* share(std::size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            _exit(3);
        }
        return p;
    }

    std::uint64_t case_seed(std::uint64_t i) const {
        std::uint64_t x = mix(seed);
        for (const char* p = h->name; *p; ++p) x = mix(x ^ static_cast<unsigned char>(*p));
        return mix(x ^ (i * 0x9e3779b97f4a7c15ull + 77));
    }

    static void reset(CaseShm* s) {
        s->status = 0;
        s->nontrivial = 0;
        s->hash = 0;
        s->n[0] = s->n[1] = 0;
        s->msg[0] = 0;
        s->log[0] = 0;
        s->log_len = 0;
    }

    // Runs the body; in inproc mode returns whether it passed.
    bool body(Case& c) {
        current_case() = &c;
        arm_cpu(cpu_s);
        auto invoke = [&] {
            if (case_wrapper())
                case_wrapper()(c, h->fn);
            else
                h->fn(c);
        };
        try {
            invoke();
        } catch (Failure& f) {
            if (c.shm) std::strncpy(c.shm->msg, f.msg.c_str(), sizeof(c.shm->msg) - 1);
            return false;
        } catch (std::exception& e) {
            if (c.shm)
                std::snprintf(c.shm->msg, sizeof(c.shm->msg), "unexpected exception escaped: %s", e.what());
            return false;
        } catch (...) {
            if (c.shm) std::snprintf(c.shm->msg, sizeof(c.shm->msg), "unexpected exception escaped");
            return false;
        }
        return true;
    }

    static void redirect_stderr(const std::string& path) {
        int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) {
            dup2(fd, 2);
            ::close(fd);
        }
    }

    // child body for one isolated case
    [[noreturn]] void isolated(Src& src, CaseShm* shm, WorkerShm* w, bool logging) {
        Case c(src);
        c.shm = shm;
        c.w = w;
        c.logging = logging;
        c.forked = h->forked;
        bool ok = body(c);
        if (shm->status == 0) {
            shm->hash = src.hash;
            shm->nontrivial = c.nontrivial;
            shm->status = ok ? 1 : 2;
        }
        _exit(ok ? 0 : 77);
    }

    static std::string tail(const std::string& path, std::size_t n) {
        std::ifstream f(path, std::ios::binary);
        std::string s((std::istreambuf_iterator<char>(f)), {});
        if (s.size() > n) s = s.substr(0, n);
        return s;
    }

    static std::string describe(int st, const std::string& errfile) {
        std::ostringstream o;
        if (WIFSIGNALED(st))
            o << "process killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
        else
            o << "process exited with status " << WEXITSTATUS(st);
        std::string t = tail(errfile, 1800);
        if (!t.empty()) o << "; stderr: " << t;
        return o.str();
    }

    // process-wide liveness probe of a child we started: sum of cpu ticks over its threads
    static long cpu_ticks(pid_t p) {
        char b[64];
        std::snprintf(b, sizeof b, "/proc/%d/stat", int(p));
        std::ifstream f(b);
        std::string s;
        std::getline(f, s);
        auto pos = s.rfind(')');
        if (pos == std::string::npos) return 0;
        std::istringstream is(s.substr(pos + 2));
        std::string t;
        long v = 0;
        for (int i = 0; i < 13 && is >> t; ++i)
            if (i == 11 || i == 12) v += atol(t.c_str());
        return v;
    }

    // Run one case isolated in a child.  Returns "" when it passed, otherwise the failure message.
    std::string run_isolated(std::function<Src()> mk, bool logging) {
        reset(probe);
        std::string err = outdir + "/probe.stderr";
        ::unlink(err.c_str());
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            redirect_stderr(err);
            Src s = mk();
            s.record = probe;
            isolated(s, probe, nullptr, logging);
        }
        double t0 = now();
        int st = 0;
        while (true) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) break;
            double el = now() - t0;
            if (el > hang_s) {
                // hang: either it burnt cpu all along or nothing in it can run
                long a = cpu_ticks(p);
                usleep(1000 * 1000);
                long b = cpu_ticks(p);
                bool stuck = (a == b) || double(b) / double(sysconf(_SC_CLK_TCK)) > hang_s / 4;
                if (stuck || el > 4 * hang_s) {
                    kill(p, SIGKILL);
                    waitpid(p, &st, 0);
                    return stuck ? std::string("hang: the case never finished (no progress for ") +
                                       std::to_string(int(el)) + " s)" :
                                   std::string();
                }
            }
            usleep(el < 0.05 ? 200 : el < 1 ? 2000 : 50000);
        }
        if (probe->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
        if (probe->msg[0]) return probe->msg;
        return describe(st, err);
    }

    std::string run_choices(const std::vector<std::uint32_t>& a, const std::vector<std::uint32_t>& b, bool logging) {
        return run_isolated([&] { return Src(a, b); }, logging);
    }

    [[noreturn]] void worker(unsigned wi, unsigned nw, std::uint64_t first) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::string err = outdir + "/w" + std::to_string(wi) + ".stderr";
        redirect_stderr(err);
        WorkerShm* w = ws[wi];
        double t0 = now();
        CaseShm* cs = static_cast<CaseShm*>(share(sizeof(CaseShm)));
        for (std::uint64_t i = first; i < cases; i += nw) {
            if (now() - t0 > max_s) break;
            w->cur_case = i;
            bool ok;
            bool nontrivial;
            std::uint64_t hsh;
            if (h->forked) {
                reset(cs);
                pid_t p = fork();
                if (p == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    Src s(case_seed(i));
                    isolated(s, cs, w, false);
                }
                int st = 0;
                while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
                ok = cs->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0;
                nontrivial = cs->nontrivial;
                hsh = cs->hash;
            } else {
                Src s(case_seed(i));
                reset(cs);
                Case c(s);
                c.shm = cs;
                c.w = w;
                ok = body(c);
                nontrivial = c.nontrivial;
                hsh = s.hash;
            }
            if (!ok) {
                w->failed = 1;
                _exit(77);
            }
            if (nontrivial) {
                w->nontrivial++;
                hashes[wi][w->nhash++] = hsh;
                if (w->nsamples < 2 && i > first + nw * 3) w->sample_case[w->nsamples++] = i;
            }
            w->done = w->done + 1;
        }
        _exit(0);
    }

    struct Found {
        bool found = false;
        std::uint64_t index = 0;
        std::string msg;
    };

    void shrink(std::vector<std::uint32_t>& a, std::vector<std::uint32_t>& b, std::string& msg) {
        double t0 = now();
        double budget = 60;
        unsigned tries = 0;
        auto over = [&] { return now() - t0 > budget || tries > 4000; };
        bool hang = msg.rfind("hang", 0) == 0;
        if (hang) return; // every probe would cost hang_s
        double save_cpu = cpu_s;
        struct Restore {
            double& r;
            double v;
            ~Restore() { r = v; }
        } restore{cpu_s, save_cpu};
        cpu_s = 1; // the result is confirmed with the full limit
        auto test = [&](const std::vector<std::uint32_t>& x, const std::vector<std::uint32_t>& y) {
            ++tries;
            std::string m = run_choices(x, y, false);
            if (m.empty() || m.rfind("hang", 0) == 0) return false;
            // keep what was really consumed
            msg = m;
            return true;
        };
        auto trim = [&] {
            if (probe->n[0] < a.size()) a.resize(probe->n[0]);
            if (probe->n[1] < b.size()) b.resize(probe->n[1]);
        };
        // try no schedule first
        {
            std::vector<std::uint32_t> e;
            if (!b.empty() && test(a, e)) b.clear();
        }
        bool progress = true;
        while (progress && !over()) {
            progress = false;
            for (int st = 0; st < 2; ++st) {
                auto& v = st == 0 ? a : b;
                for (std::size_t len = std::max<std::size_t>(1, v.size() / 2); len >= 1 && !over(); len /= 2) {
                    for (std::size_t i = 0; i < v.size() && !over();) {
                        auto save_a = a, save_b = b;
                        std::size_t k = std::min(len, v.size() - i);
                        v.erase(v.begin() + i, v.begin() + i + k);
                        if (test(a, b)) {
                            progress = true;
                            trim();
                        } else {
                            a = save_a;
                            b = save_b;
                            i += len;
                        }
                    }
                    if (len == 1) break;
                }
                // zero blocks, then lower single values
                for (std::size_t i = 0; i < v.size() && !over(); ++i) {
                    if (v[i] == 0) continue;
                    auto old = v[i];
                    v[i] = 0;
                    if (test(a, b)) {
                        progress = true;
                        trim();
                        continue;
                    }
                    v[i] = old;
                    std::uint32_t lo = 0, hi = old;
                    while (hi - lo > 1 && !over()) {
                        std::uint32_t mid = lo + (hi - lo) / 2;
                        v[i] = mid;
                        if (test(a, b)) {
                            hi = mid;
                            progress = true;
                        } else
                            lo = mid;
                    }
                    if (i < v.size()) v[i] = hi;
                }
            }
        }
    }

    static void print_vec(std::ostream& o, const std::vector<std::uint32_t>& v) {
        for (auto e : v) o << ' ' << e;
        o << '\n';
    }

    // returns exit code
    int run() {
        double t0 = now();
        mkdir(outdir.c_str(), 0755);
        probe = static_cast<CaseShm*>(share(sizeof(CaseShm)));
        unsigned nw = static_cast<unsigned>(std::min<std::uint64_t>(workers, std::max<std::uint64_t>(1, cases)));
        for (unsigned i = 0; i < nw; ++i) {
            ws.push_back(static_cast<WorkerShm*>(share(sizeof(WorkerShm))));
            hashes.push_back(static_cast<std::uint64_t*>(share((cases / nw + 2) * sizeof(std::uint64_t))));
        }
        std::vector<pid_t> pids(nw, 0);
        auto spawn = [&](unsigned i, std::uint64_t first) {
            pid_t p = fork();
            if (p == 0) worker(i, nw, first);
            pids[i] = p;
        };
        for (unsigned i = 0; i < nw; ++i) spawn(i, i);

        std::vector<std::uint64_t> last(nw, ~0ull);
        std::vector<double> since(nw, now());
        unsigned live = nw;
        unsigned unreproduced = 0;
        std::string unrepro_msg;
        Found found;
        std::vector<std::uint32_t> ca, cb;

        while (live && !found.found) {
            usleep(5000);
            for (unsigned i = 0; i < nw && !found.found; ++i) {
                if (!pids[i]) continue;
                int st = 0;
                pid_t r = waitpid(pids[i], &st, WNOHANG);
                std::uint64_t cc = ws[i]->cur_case;
                bool candidate = false;
                if (r == pids[i]) {
                    pids[i] = 0;
                    --live;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) candidate = true;
                } else {
                    std::uint64_t prog = cc * 2 + ws[i]->done;
                    if (prog != last[i]) {
                        last[i] = prog;
                        since[i] = now();
                    } else if (now() - since[i] > hang_s) {
                        kill(pids[i], SIGKILL);
                        waitpid(pids[i], &st, 0);
                        pids[i] = 0;
                        --live;
                        candidate = true;
                    }
                }
                if (candidate) {
                    // confirm in isolation, three times
                    std::string err0 = describe(st, outdir + "/w" + std::to_string(i) + ".stderr");
                    std::string m = run_isolated([&] { return Src(case_seed(cc)); }, false);
                    if (!m.empty()) {
                        ca.assign(probe->choices[0], probe->choices[0] + std::min<std::size_t>(probe->n[0], kMaxChoices));
                        cb.assign(probe->choices[1], probe->choices[1] + std::min<std::size_t>(probe->n[1], kMaxChoices));
                        int ok = 0;
                        for (int k = 0; k < 3; ++k)
                            if (!run_choices(ca, cb, false).empty()) ++ok;
                        if (ok == 3) {
                            found.found = true;
                            found.index = cc;
                            found.msg = m;
                        } else
                            m.clear();
                    }
                    if (!found.found) {
                        ++unreproduced;
                        unrepro_msg = err0;
                        std::cerr << "note: case " << cc << " failed once but not on replay: " << err0 << "\n";
                        if (unreproduced < 40) {
                            spawn(i, cc + nw);
                            ++live;
                            last[i] = ~0ull;
                            since[i] = now();
                        }
                    }
                }
            }
        }
        for (unsigned i = 0; i < nw; ++i)
            if (pids[i]) {
                kill(pids[i], SIGKILL);
                int st;
                waitpid(pids[i], &st, 0);
            }

        std::string minimal_log;
        std::string shrunk_msg;
        if (found.found) {
            auto oa = ca, ob = cb;
            std::string om = found.msg;
            auto sa = ca, sb = cb;
            std::string sm = om;
            shrink(sa, sb, sm);
            int ok = 0;
            if (om.rfind("hang", 0) != 0)
                for (int k = 0; k < 3; ++k)
                    if (!run_choices(sa, sb, true).empty()) ++ok;
            if (ok == 3) {
                ca = sa;
                cb = sb;
            } else {
                sm = om;
                run_choices(oa, ob, true);
            }
            minimal_log = probe->log;
            if (probe->msg[0]) sm = probe->msg;
            shrunk_msg = sm;
            std::ofstream f(replay_out);
            f << "harness " << h->name << "\n";
            f << "seed " << seed << " case " << found.index << "\n";
            f << "message " << jesc(sm) << "\n";
            f << "program";
            print_vec(f, ca);
            f << "schedule";
            print_vec(f, cb);
            f << "log\n" << minimal_log << "\n";
            if (!probe->msg[0]) f << "stderr\n" << tail(outdir + "/probe.stderr", 6000) << "\n";
        }

        // aggregate
        std::uint64_t done = 0, nontriv = 0;
        std::map<std::string, std::uint64_t> tags;
        std::vector<std::uint64_t> all;
        for (unsigned i = 0; i < nw; ++i) {
            done += ws[i]->done;
            nontriv += ws[i]->nontrivial;
            for (std::uint32_t t = 0; t < ws[i]->ntags; ++t) tags[ws[i]->tags[t].name] += ws[i]->tags[t].count;
            all.insert(all.end(), hashes[i], hashes[i] + ws[i]->nhash);
        }
        std::sort(all.begin(), all.end());
        std::uint64_t distinct = static_cast<std::uint64_t>(std::unique(all.begin(), all.end()) - all.begin());
        std::vector<std::string> samples;
        for (unsigned i = 0; i < nw && samples.size() < 4 && !found.found; ++i)
            for (std::uint64_t k = 0; k < ws[i]->nsamples && samples.size() < 4 && k < 1; ++k) {
                std::uint64_t idx = ws[i]->sample_case[k];
                run_isolated([&] { return Src(case_seed(idx)); }, true);
                std::string l = probe->log;
                if (l.size() > 900) l = l.substr(0, 900) + "...";
                samples.push_back("case " + std::to_string(idx) + ": " + l);
            }
        if (found.found) samples.push_back(minimal_log.substr(0, 1500));
        if (!evidence_out.empty()) {
            std::ofstream f(evidence_out);
            f << "{\"harness\":\"" << h->name << "\",\"seed\":" << seed << ",\"evaluations\":" << done
              << ",\"requested\":" << cases << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct
              << ",\"rule\":\"" << jesc(h->rule) << "\",\"unreproduced\":" << unreproduced << ",\"unrepro_msg\":\""
              << jesc(unrepro_msg.substr(0, 600)) << "\",\"wall_s\":" << (now() - t0) << ",\"classes\":{";
            bool first = true;
            for (auto& t : tags) {
                f << (first ? "" : ",") << "\"" << jesc(t.first) << "\":" << t.second;
                first = false;
            }
            f << "},\"samples\":[";
            first = true;
            for (auto& s : samples) {
                f << (first ? "" : ",") << "\"" << jesc(s) << "\"";
                first = false;
            }
            f << "],\"violation\":" << (found.found ? 1 : 0) << ",\"message\":\"" << jesc(shrunk_msg) << "\"}\n";
        }
        if (found.found) {
            std::cout << "FAILED " << h->name << " case " << found.index << ": " << shrunk_msg << "\n" << minimal_log << "\n";
            return 1;
        }
        return 0;
    }

    int replay(const std::string& path) {
        std::ifstream f(path);
        std::string line;
        std::vector<std::uint32_t> a, b;
        std::string hname;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "harness") is >> hname;
            std::uint32_t v;
            if (k == "program")
                while (is >> v) a.push_back(v);
            if (k == "schedule")
                while (is >> v) b.push_back(v);
            if (k == "log") break;
        }
        for (auto& e : registry())
            if (hname == e.name) h = &e;
        if (!h) {
            std::cerr << "unknown harness " << hname << "\n";
            return 2;
        }
        mkdir(outdir.c_str(), 0755);
        probe = static_cast<CaseShm*>(share(sizeof(CaseShm)));
        std::string m = run_choices(a, b, true);
        std::cout << probe->log << "\n";
        if (m.empty()) {
            std::cout << "replay: passed\n";
            return 0;
        }
        std::cout << "replay: FAILED: " << m << "\n" << tail(outdir + "/probe.stderr", 8000) << "\n";
        return 1;
    }
};

inline int pbt_main(int argc, char** argv) {
    Engine e;
    std::string name, rep;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--harness") name = val();
        else if (a == "--seed") e.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") e.cases = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--workers") e.workers = unsigned(std::atoi(val().c_str()));
        else if (a == "--max-s") e.max_s = std::atof(val().c_str());
        else if (a == "--hang-s") e.hang_s = std::atof(val().c_str());
        else if (a == "--out") e.outdir = val();
        else if (a == "--replay-out") e.replay_out = val();
        else if (a == "--evidence") e.evidence_out = val();
        else if (a == "--replay") rep = val();
        else if (a == "--memory-only") Case::memory_only() = true;
        else if (a == "--list") {
            for (auto& h : registry()) std::cout << h.name << "\n";
            return 0;
        }
    }
    if (e.replay_out.empty()) e.replay_out = e.outdir + "/replay.txt";
    if (!rep.empty()) return e.replay(rep);
    for (auto& h : registry())
        if (name == h.name) e.h = &h;
    if (!e.h) {
        std::cerr << "unknown harness '" << name << "'\n";
        return 2;
    }
    return e.run();
}

} // namespace pbt

#if defined(PBT_MAIN) && !defined(DET_SCHED) && !defined(PBT_TSAN)
// Exact detection of self deadlock: a thread that locks a non-recursive mutex it already holds.
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    if ((m->__data.__kind & 3) == 0 && m->__data.__owner == static_cast<int>(::syscall(SYS_gettid))) {
        auto* c = pbt::current_case();
        if (c && c->shm && c->shm->status == 0) {
            std::strncpy(c->shm->msg, "deadlock: a thread locks a mutex that it already holds", 4000);
            c->shm->status = 2;
            if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
            ::_exit(77);
        }
    }
    static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(::dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    return real(m);
}
#endif

#if defined(PBT_MAIN)
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:"
           "handle_abort=1:allocator_may_return_null=1:symbolize=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }
extern "C" const char* __tsan_default_options() {
    return "exitcode=66:halt_on_error=1:second_deadlock_stack=1:report_thread_leaks=0:report_destroy_locked=0:die_after_fork=0";
}
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
#endif
