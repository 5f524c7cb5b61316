#pragma once
#include "machine.hpp"
namespace ch {
template <class V>
stlab::receiver<V> merge_one(Node& n, stlab::executor_t e, const std::vector<stlab::receiver<V>*>& p) {
        auto &a = *p[0], &b = *p[1], &d = *p[2 % p.size()];
        [[maybe_unused]] auto &x = *p[3 % p.size()], &y = *p[4 % p.size()], &z = *p[5 % p.size()];
        bool three = p.size() == 3;
        switch (n.kind) {
        case K_RR:
            if constexpr (std::is_copy_constructible_v<V>) {
                if (p.size() == 6) return stlab::merge_channel<stlab::round_robin_t>(e, FnP<V>(n.id), a, b, d, x, y, z);
                if (p.size() == 4) return stlab::merge_channel<stlab::round_robin_t>(e, FnP<V>(n.id), a, b, d, x);
                if (three) return stlab::merge_channel<stlab::round_robin_t>(e, FnP<V>(n.id), a, b, d);
                return stlab::merge_channel<stlab::round_robin_t>(e, FnP<V>(n.id), a, b);
            } else
                std::abort();
        case K_UN:
            if (p.size() == 6) return stlab::merge_channel<stlab::unordered_t>(e, FnP<V>(n.id), a, b, d, x, y, z);
            if (p.size() == 4) return stlab::merge_channel<stlab::unordered_t>(e, FnP<V>(n.id), a, b, d, x);
            if (three) {
                if constexpr (std::is_copy_constructible_v<V>)
                    if (n.form == 1) return stlab::merge(e, FnP<V>(n.id), a, b, d);
                return stlab::merge_channel<stlab::unordered_t>(e, FnP<V>(n.id), a, b, d);
            }
            if constexpr (std::is_copy_constructible_v<V>)
                if (n.form == 1) return stlab::merge(e, FnP<V>(n.id), a, b);
            return stlab::merge_channel<stlab::unordered_t>(e, FnP<V>(n.id), a, b);
        default: std::abort();
        }
}
}
