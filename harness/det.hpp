// Controlled scheduling for the concurrency harnesses: interface to det/rt.cpp.
//
// The code under test and the harness are compiled with the compiler's thread-sanitizer instrumentation but
// linked with our own runtime, which also interposes the pthread functions, the clock, the static-guard functions
// and operator new/delete.  While a case runs exactly one thread executes at a time; at every synchronization
// operation and every atomic access the runtime asks the case's schedule stream which thread goes on, so a
// schedule is generated, recorded, replayed and shrunk like any other input.  The runtime reports deadlocks,
// data races (vector clocks), use of freed memory, use of destroyed condition variables, and cases that never end.
#pragma once

#include "pbt.hpp"

#include <cstdint>

namespace det {

// Configuration of a case; set by the harness before go()
struct Config {
    unsigned cores = 2;      // what std::thread::hardware_concurrency() says
    bool check_races = true; // report data races
    bool spurious = false;   // condition variables may wake spuriously
    bool eager_time = false; // time may pass while threads are runnable
    unsigned preempt = 8;    // a running thread is preempted at a schedule point with probability 1/preempt
};

// Draws the scheduling parameters (not the cores)
Config draw_config(pbt::Case& c);

// Runs f on the first managed thread; returns when f does.
void go(pbt::Case& c, const Config& cfg, void (*f)(void*), void* arg);
template <class F>
void go(pbt::Case& c, const Config& cfg, F&& f) {
    go(c, cfg, [](void* p) { (*static_cast<std::remove_reference_t<F>*>(p))(); }, &f);
}

// Blocks the caller until no other thread can run.  With timers, until no thread waits for a time either.
void settle(bool timers = false);
// Virtual time
std::int64_t now_ns();
void sleep_ns(std::int64_t ns);
// A schedule point; and one that prefers another thread
void point();
// Number of managed threads created so far / identity of the caller
unsigned threads_created();
int self_id();
// true while the caller is a managed thread
bool managed();

// Bookkeeping of the harness: no schedule points, no race checks, no happens-before edges
void quiet(int d);
struct Quiet {
    Quiet() { quiet(1); }
    ~Quiet() { quiet(-1); }
    Quiet(const Quiet&) = delete;
};

// Failure from inside the runtime or any thread
[[noreturn]] void fail(const char* msg);

// A thread of the generated program (joined in the destructor)
struct Statistics {
    std::uint64_t points, switches, preemptions;
};
Statistics stats();

} // namespace det

#define DET_LOG(c, expr)      \
    do {                      \
        det::Quiet det_q_;    \
        PBT_LOG(c, expr);     \
    } while (0)
// the condition is evaluated as code of the thread (its synchronization counts), the report is not
#define DET_CHECK(c, cond, expr)                                        \
    do {                                                                \
        if (!(cond)) {                                                  \
            det::Quiet det_q_;                                          \
            PBT_FAIL(c, expr << "  [" #cond " at line " << __LINE__ << "]"); \
        }                                                               \
    } while (0)
