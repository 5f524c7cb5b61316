#pragma once
#include "machine.hpp"
namespace fm {
constexpr int kAllSigs = 9;
constexpr int kAnySigs = 7;
struct ComboReq {
    Combo kind{};
    int sig = 0;
    Out out = OV;
    int exec = 0;
    int node = -1;
    std::vector<Handle> in;
};
std::vector<Ty> all_sig(int);
std::vector<Ty> any_sig(int);
void real_combo(ComboReq& q, Handle& dst);
} // namespace fm
