// U04: progress tracking
#include "pbt.hpp"

#include <algorithm>
#include <array>
#include <atomic>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <typeinfo>
#include <utility>
#include <vector>

#include <stlab/config.hpp>

#include <stlab/concurrency/progress.hpp>

namespace {

// ------------------------------------------------------------------ U04
int g_calls_made;
struct CallErr {};
struct TF {
    int id = 0;
    std::shared_ptr<int> live; // instance counting
    int operator()(int x) const {
        ++g_calls_made;
        if (x == 9) throw CallErr{};
        return x * 100 + id;
    }
    std::string operator()(const std::string& a, int b) const {
        ++g_calls_made;
        return a + std::to_string(b) + "#" + std::to_string(id);
    }
};
using Client = decltype(std::declval<stlab::progress_tracker&>()(std::declval<TF>()));

PBT_PROP(U04, "history of at least 5 operations on tracked functions") {
    struct MTrack {
        int steps = 0, done = 0;
        bool alive = true; // some tracker handle exists
    };
    struct MC {
        int tr = -1; // tracked by
        int id = -1; // function, -1 unknown (moved from)
    };
    std::vector<MTrack> mt;
    struct Handle {
        std::unique_ptr<stlab::progress_tracker> t;
        int m;
    };
    std::vector<Handle> hs;
    std::vector<std::pair<int, std::pair<std::size_t, std::size_t>>> signals;
    constexpr int NC = 5;
    std::unique_ptr<Client> cl[NC];
    MC mc[NC];
    std::vector<Client> many; // copies of one
    int many_tr = -1;
    int steps = 0;
    int next_id = 1;

    auto recount = [&] {
        for (std::size_t i = 0; i < mt.size(); ++i) {
            mt[i].alive = false;
            for (auto& h : hs)
                if (h.t && h.m == int(i)) mt[i].alive = true;
        }
    };
    auto check = [&] {
        recount();
        for (auto& h : hs) {
            if (!h.t || h.m < 0) continue;
            PBT_CHECK(c, h.t->steps() == std::size_t(mt[std::size_t(h.m)].steps),
                      "steps() is " << h.t->steps() << ", " << mt[std::size_t(h.m)].steps << " tracked functions are alive");
            PBT_CHECK(c, h.t->completed() == std::size_t(mt[std::size_t(h.m)].done),
                      "completed() is " << h.t->completed() << ", " << mt[std::size_t(h.m)].done << " calls finished");
        }
    };
    auto drop = [&](int i) {
        if (mc[i].tr >= 0) --mt[std::size_t(mc[i].tr)].steps;
        mc[i] = MC{};
    };
    auto new_tracker = [&] {
        int m = int(mt.size());
        mt.push_back({});
        Handle h;
        h.m = m;
        if (c.src.flip())
            h.t = std::make_unique<stlab::progress_tracker>([&signals, &hs, &c, m](std::size_t s, std::size_t d) {
                signals.push_back({m, {s, d}});
                for (auto& e : hs) // what the callback is told is what the tracker says at that moment
                    if (e.t && e.m == m)
                        PBT_CHECK(c, e.t->steps() == s && e.t->completed() == d,
                                  "the callback is told (" << s << "," << d << ") while the tracker says (" << e.t->steps() << "," << e.t->completed() << ")");
            });
        else {
            h.t = std::make_unique<stlab::progress_tracker>();
        }
        hs.push_back(std::move(h));
    };
    new_tracker();
    std::vector<char> with_cb(1, 0);
    while (steps < 40 && c.src.more(15, 16)) {
        ++steps;
        int i = c.src.range(0, NC - 1), j = c.src.range(0, NC - 1);
        switch (c.src.weighted({6, 5, 4, 3, 4, 4, 2, 2, 2, 1, 1, 1, 1, 1})) {
        case 0: { // track a new function
            std::size_t h = c.src.draw(hs.size());
            if (!hs[h].t || hs[h].m < 0) break;
            TF f{next_id++, nullptr};
            bool assign = cl[i] && c.src.flip();
            PBT_LOG(c, "c" << i << (assign ? " assigned" : " =") << " tracker" << hs[h].m << "(f" << f.id << ")");
            int m = hs[h].m;
            if (assign)
                *cl[i] = (*hs[h].t)(std::move(f));
            else
                cl[i] = std::make_unique<Client>((*hs[h].t)(std::move(f)));
            drop(i);
            mc[i] = {m, next_id - 1};
            ++mt[std::size_t(m)].steps;
            c.tag("track");
            break;
        }
        case 1: { // call
            if (!cl[i] || mc[i].id < 0) break;
            signals.clear();
            int x = c.src.range(0, 9);
            recount();
            bool tracked = mc[i].tr >= 0 && mt[std::size_t(mc[i].tr)].alive;
            int before = g_calls_made;
            bool str = c.src.chance(1, 4);
            PBT_LOG(c, "call c" << i << "(" << x << ")");
            bool thrown = false;
            try {
                if (str) {
                    std::string r = (*cl[i])(std::string("ab"), x);
                    PBT_CHECK(c, r == "ab" + std::to_string(x) + "#" + std::to_string(mc[i].id), "wrong result " << r);
                } else {
                    int r = (*cl[i])(x);
                    PBT_CHECK(c, r == x * 100 + mc[i].id, "wrong result " << r);
                }
            } catch (CallErr&) {
                thrown = true;
            }
            PBT_CHECK(c, g_calls_made == before + 1, "the function was called " << g_calls_made - before << " times");
            PBT_CHECK(c, thrown == (!str && x == 9), "exception lost or invented");
            if (tracked && !thrown) {
                auto& m = mt[std::size_t(mc[i].tr)];
                ++m.done;
                for (auto& s : signals)
                    PBT_CHECK(c, s.first == mc[i].tr && s.second.first == std::size_t(m.steps) && s.second.second == std::size_t(m.done),
                              "the callback saw (" << s.second.first << "," << s.second.second << ") instead of (" << m.steps << "," << m.done << ")");
                PBT_CHECK(c, signals.size() <= 1, "the callback ran " << signals.size() << " times for one call");
                if (signals.size() == 1) c.tag("callback");
            } else
                PBT_CHECK(c, signals.empty(), "the callback ran without a finished tracked call");
            c.tag(tracked ? "tracked call" : "call without tracker");
            break;
        }
        case 2: // copy construct
            if (!cl[j] || i == j) break;
            PBT_LOG(c, "c" << i << " = copy of c" << j);
            {
                auto n = std::make_unique<Client>(*cl[j]);
                cl[i] = std::move(n);
            }
            drop(i);
            mc[i] = mc[j];
            recount();
            if (mc[i].tr >= 0) ++mt[std::size_t(mc[i].tr)].steps;
            c.tag("copy");
            break;
        case 3: // move construct
            if (!cl[j] || i == j) break;
            PBT_LOG(c, "c" << i << " = moved c" << j);
            {
                auto n = std::make_unique<Client>(std::move(*cl[j]));
                cl[i] = std::move(n);
            }
            drop(i);
            mc[i] = mc[j];
            mc[j] = MC{};
            c.tag("move");
            break;
        case 4: // copy assign
            if (!cl[i] || !cl[j]) break;
            PBT_LOG(c, "c" << i << " := c" << j);
            *cl[i] = *cl[j];
            if (i != j) {
                drop(i);
                mc[i] = mc[j];
                if (mc[i].tr >= 0) ++mt[std::size_t(mc[i].tr)].steps;
            }
            c.tag(i == j ? "self copy assign" : "copy assign");
            break;
        case 5: // move assign
            if (!cl[i] || !cl[j] || i == j) break;
            PBT_LOG(c, "c" << i << " := move(c" << j << ")");
            *cl[i] = std::move(*cl[j]);
            drop(i);
            mc[i] = mc[j];
            mc[j] = MC{};
            c.tag("move assign");
            break;
        case 6: // destroy
            PBT_LOG(c, "destroy c" << i);
            cl[i].reset();
            drop(i);
            break;
        case 7: // swap
            if (!cl[i] || !cl[j] || i == j) break;
            PBT_LOG(c, "swap c" << i << " c" << j);
            std::swap(*cl[i], *cl[j]);
            std::swap(mc[i], mc[j]);
            c.tag("swap");
            break;
        case 8: { // another handle on a tracker
            std::size_t h = c.src.draw(hs.size());
            if (!hs[h].t || hs[h].m < 0 || hs.size() > 6) break;
            Handle n;
            n.m = hs[h].m;
            n.t = std::make_unique<stlab::progress_tracker>(*hs[h].t);
            hs.push_back(std::move(n));
            break;
        }
        case 9: // new tracker
            if (hs.size() > 6) break;
            new_tracker();
            break;
        case 11: { // many copies
            if (!cl[i] || !many.empty()) break;
            int n = c.src.chance(1, 3) ? c.src.range(1, 600) : c.src.range(1, 40);
            PBT_LOG(c, n << " copies of c" << i);
            recount();
            many_tr = mc[i].tr;
            for (int k = 0; k < n; ++k) {
                many.push_back(*cl[i]);
                if (k % 16 == 0) {
                    std::vector<Client> shifted(std::make_move_iterator(many.begin()), std::make_move_iterator(many.end()));
                    many = std::move(shifted);
                }
            }
            if (many_tr >= 0) mt[std::size_t(many_tr)].steps += n;
            if (n >= 256) c.tag("more than 255 copies");
            break;
        }
        case 12: // all copies go
            if (many.empty()) break;
            PBT_LOG(c, "destroy the copies");
            if (many_tr >= 0) mt[std::size_t(many_tr)].steps -= int(many.size());
            many.clear();
            break;
        case 13: { // many calls
            if (!cl[i] || mc[i].id < 0) break;
            int n = c.src.chance(1, 3) ? c.src.range(1, 600) : c.src.range(1, 40);
            PBT_LOG(c, "call c" << i << " " << n << " times");
            recount();
            bool tracked = mc[i].tr >= 0 && mt[std::size_t(mc[i].tr)].alive;
            signals.clear();
            for (int k = 0; k < n; ++k) {
                int r = (*cl[i])(k % 9);
                PBT_CHECK(c, r == k % 9 * 100 + mc[i].id, "wrong result " << r);
            }
            if (tracked) {
                auto& m = mt[std::size_t(mc[i].tr)];
                for (std::size_t k = 0; k < signals.size(); ++k)
                    PBT_CHECK(c, signals[k].first == mc[i].tr && signals[k].second.first == std::size_t(m.steps) && signals[k].second.second == std::size_t(m.done) + k + 1,
                              "call " << k << ": the callback saw (" << signals[k].second.first << "," << signals[k].second.second << ") instead of (" << m.steps << "," << m.done + int(k) + 1 << ")");
                PBT_CHECK(c, signals.empty() || signals.size() == std::size_t(n), "the callback ran " << signals.size() << " times for " << n << " calls");
                m.done += n;
                if (n >= 256) c.tag("more than 255 calls");
            } else
                PBT_CHECK(c, signals.empty(), "the callback ran without a finished tracked call");
            break;
        }
        default: { // drop a tracker handle
            std::size_t h = c.src.draw(hs.size());
            PBT_LOG(c, "drop handle of tracker " << hs[h].m);
            hs[h].t.reset();
            c.tag("drop tracker");
            break;
        }
        }
        check();
    }
    if (many_tr >= 0) mt[std::size_t(many_tr)].steps -= int(many.size());
    many.clear();
    for (auto& e : cl) e.reset();
    for (int i = 0; i < NC; ++i) drop(i);
    check();
    c.nontrivial = steps >= 5;
}

} // namespace
