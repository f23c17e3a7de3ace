#pragma once
#include "symx.h"
// character-wise equality as one formula (no early exit)
static inline bool same(std::string_view a, std::string_view b) {
    if (a.size() != b.size()) return false;
    bool r = true;
    for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
    return r;
}
static inline void noNul(const std::string &s) { bool ok = true; for (char c : s) ok &= c != 0; ASSUME(ok); }
