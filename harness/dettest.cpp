// Self test of the controlled scheduler: each property here is wrong on purpose except OK
#include "det.hpp"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
template <class F> void run(pbt::Case& c, F f) { auto cfg = det::draw_config(c); det::go(c, cfg, f); c.nontrivial = true; }
PBT_PROP_FORKED(RACE, "x") { run(c, [&] { int n = 0; std::thread a([&] { ++n; }), b([&] { ++n; }); a.join(); b.join(); }); }
PBT_PROP_FORKED(ABBA, "x") { run(c, [&] { std::mutex m, k; std::thread a([&] { std::scoped_lock l(m); std::scoped_lock j(k); }), b([&] { std::scoped_lock l(k); std::scoped_lock j(m); }); a.join(); b.join(); }); }
PBT_PROP_FORKED(UAF, "x") { run(c, [&] { std::atomic<int> n{2}; int* p = new int(4); auto f = [&] { *(volatile int*)p; if (n.fetch_sub(1, std::memory_order_acq_rel) == 2) delete p; }; std::thread a(f), b(f); a.join(); b.join(); }); }
PBT_PROP_FORKED(LOST, "x") { run(c, [&] { std::mutex m; std::condition_variable v; std::atomic<bool> r{false}; std::thread a([&] { r = true; v.notify_one(); }); { std::unique_lock l(m); while (!r) v.wait(l); } a.join(); }); }
PBT_PROP_FORKED(RELAXED, "x") { run(c, [&] { int x = 0; std::atomic<bool> r{false}; std::thread a([&] { x = 1; r.store(true, std::memory_order_relaxed); }), b([&] { while (!r.load(std::memory_order_acquire)) std::this_thread::yield(); if (x != 1) det::fail("x"); }); a.join(); b.join(); }); }
PBT_PROP_FORKED(CVD, "x") { run(c, [&] { std::thread a; { std::mutex m; std::condition_variable v; bool r = false; a = std::thread([&] { { std::unique_lock l(m); r = true; } v.notify_one(); }); std::unique_lock l(m); while (!r) v.wait(l); } a.join(); }); }
PBT_PROP_FORKED(OK, "x") { run(c, [&] { int x = 0; std::atomic<bool> r{false}; std::mutex m; std::condition_variable v; bool q = false; std::thread a([&] { x = 1; r.store(true, std::memory_order_release); std::unique_lock l(m); q = true; v.notify_one(); }), b([&] { r.wait(false); if (x != 1) det::fail("x"); }); { std::unique_lock l(m); while (!q) v.wait(l); } a.join(); b.join(); std::this_thread::sleep_for(std::chrono::hours(3)); }); }
