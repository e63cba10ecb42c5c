// many2.hpp -- second-order results that depend on many independent variables:
// numbers for most derivatives, symbols for a few of each sort.
#ifndef VERIF_MANY2_HPP
#define VERIF_MANY2_HPP
#include "common2.hpp"

constexpr int NPAT2 = 6;
// does the result depend on variable i; is the mixed derivative i, j (i < j) stored
inline bool dep2(int pat, int i, int N) {
    switch (pat) {
    case 3: return i % 2 == 0;
    case 4: return i % 2 == 1 || i == 0;
    case 5: return i >= N / 3;
    default: return true;
    }
}
inline bool mix2(int pat, int i, int j, int N) {
    switch (pat) {
    case 0: return true;                        // dense
    case 1: return j == i + 1;                  // chain
    case 2: return i == 0 || j == N - 1;        // arrow
    case 4: return (i + j) % 3 == 0;
    case 5: return j == N - 1 || j - i == 2;
    default: return (i * 5 + j * 3) % 4 < 2;
    }
}
template<class R, unc::Prop P, int N> Op2<R, P> make_many2(sym::Ctx<R> &c, const Base2<R, P, N> &B, int pat, const std::string &nm) {
    Op2<R, P> o(N);
    using U = unc::UReal2<R, P>;
    o.mean = c.in(S(nm, "_m"));
    U z(o.mean);
    for (int i = 0; i < N; ++i) if (dep2(pat, i, N)) {
        o.dep[i] = true;
        o.g[i] = i == N / 2 || i == 0 ? c.in(S(nm, "_d", i)) : R((i + pat) % 5 - 2);
        o.h[i][i] = i == N / 2 || i == N - 1 ? c.nonzero(S(nm, "_h", i, "_", i)) : R((i * 2 + pat) % 7 - 3);
        z = z + unary(B.b[i], R(0), o.g[i], o.h[i][i]);
    }
    for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j) if (o.dep[i] && o.dep[j] && mix2(pat, i, j, N)) {
        R k = (i == 0 && j == N - 1) || (i == N / 2 - 1 && j == N / 2) ? c.nonzero(S(nm, "_h", i, "_", j)) : R((i + 2 * j + pat) % 2 ? i - j : 1 + (i + j) % 3);
        o.h[i][j] = o.h[j][i] = k;
        z = z + binary(B.b[i], B.b[j], R(0), R(0), R(0), R(0), R(0), k);
    }
    o.z = z;
    return o;
}
#endif
