#pragma once
#include "machine.hpp"
namespace ch {
template <class V>
stlab::receiver<V> merge_zip(Node& n, stlab::executor_t e, const std::vector<stlab::receiver<V>*>& p) {
        auto &a = *p[0], &b = *p[1], &d = *p[2 % p.size()];
        [[maybe_unused]] auto &x = *p[3 % p.size()], &y = *p[4 % p.size()], &z = *p[5 % p.size()];
        bool three = p.size() == 3;
        switch (n.kind) {
        case K_ZIP:
            if (p.size() == 6) {
                if constexpr (std::is_copy_constructible_v<V>)
                    if (n.form == 1) return stlab::join(e, ZipNP<V, V, V, V, V, V, V>(n.id), a, b, d, x, y, z);
                return stlab::zip_with(e, ZipNP<V, V, V, V, V, V, V>(n.id), a, b, d, x, y, z);
            }
            if (p.size() == 4) return stlab::zip_with(e, ZipNP<V, V, V, V, V>(n.id), a, b, d, x);
            if (three) {
                if (n.form == 0) return stlab::zip_with(e, ZipNP<V, V, V, V>(n.id), a, b, d);
                if constexpr (std::is_copy_constructible_v<V>)
                    if (n.form == 1) return stlab::join(e, ZipNP<V, V, V, V>(n.id), a, b, d);
                return stlab::merge_channel<stlab::zip_with_t>(e, ZipNP<V, V, V, V>(n.id), a, b, d);
            }
            if (n.form == 0) return stlab::zip_with(e, ZipNP<V, V, V>(n.id), a, b);
            if constexpr (std::is_copy_constructible_v<V>)
                if (n.form == 1) return stlab::join(e, ZipNP<V, V, V>(n.id), a, b);
            return stlab::merge_channel<stlab::zip_with_t>(e, ZipNP<V, V, V>(n.id), a, b);
        case K_ZIPAY: return stlab::zip_with(e, ZipAyP<V>(n.id), a, b);
        default: std::abort();
        }
}
}
