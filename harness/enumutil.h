// Exhaustive enumerators.
#pragma once
#include "mc.h"

namespace en {

// Every string over `alpha` of exactly length n.
inline void strings(std::string const& alpha, int n, mc::Emit const& emit, std::string const& pre = "", std::string const& post = "")
{
    std::vector<int> ix(n, 0);
    std::string s = pre + std::string(n, '\0') + post;
    for (;;) {
        for (int i = 0; i < n; ++i) s[pre.size() + i] = alpha[ix[i]];
        emit(s);
        int i = n - 1;
        while (i >= 0 && ++ix[i] == (int)alpha.size()) ix[i--] = 0;
        if (i < 0) break;
    }
}

// Every sequence of exactly n items.
template <class F>
void sequences(int items, int n, F const& f)
{
    std::vector<int> ix(n, 0);
    for (;;) {
        f(ix);
        int i = n - 1;
        while (i >= 0 && ++ix[i] == items) ix[i--] = 0;
        if (i < 0) break;
    }
}

inline std::string rep(std::string const& s, size_t n)
{
    std::string r;
    r.reserve(s.size() * n);
    while (n--) r += s;
    return r;
}

}  // namespace en
