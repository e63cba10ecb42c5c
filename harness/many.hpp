// many.hpp -- first-order variables depending on many independent ones: the
// sizes at which data structures, buffers and special-cased loops change.
#ifndef VERIF_MANY_HPP
#define VERIF_MANY_HPP
#include "common.hpp"

template<class R> struct Many {
    std::vector<R> mu, sg;
    std::vector<unc::UReal<R>> b;
    Many(sym::Ctx<R> &c, int n, bool positive = false) {
        for (int i = 0; i < n; ++i) {
            mu.push_back(c.in(S("mu", i)));
            sg.push_back(positive ? c.pos(S("sg", i)) : c.nonneg(S("sg", i)));
            b.push_back(unc::UReal<R>(mu[i], sg[i]));
        }
    }
    int size() const { return int(b.size()); }
};
template<class R> struct OpM { unc::UReal<R> z; R mean; std::vector<R> g; std::vector<bool> dep; };

// which base variables each operand of a pair depends on
constexpr int NPAT = 8;
inline bool inpat(int pat, int which, int i, int n) {
    switch (pat) {
    case 0: return which == 0 ? i % 2 == 0 : i % 2 == 1;       // interleaved
    case 1: return which == 0 ? i < n / 2 : i >= n / 2;        // one before the other
    case 2: return which == 0 ? i >= n / 2 : i < n / 2;
    case 3: return which == 0 ? i <= n / 2 : i >= n / 2;       // one shared
    case 4: return true;                                       // the same ones
    case 5: return which == 0 ? true : i == n - 1;             // one alone (last)
    case 6: return which == 0 ? i == 0 : true;                 // one alone (first)
    default: return which == 0 ? i % 3 != 0 : i % 4 != 1;      // ragged
    }
}
inline const char *patname(int p) {
    static const char *n[] = {"interleaved", "before", "after", "one shared", "same", "last alone", "first alone", "ragged"};
    return n[p];
}
template<class R> OpM<R> make_many(sym::Ctx<R> &c, const Many<R> &B, int pat, int which, const std::string &nm) {
    OpM<R> o; const int n = B.size();
    o.g.assign(n, R(0)); o.dep.assign(n, false);
    std::vector<unc::UReal<R>> xs; std::vector<R> ds;
    for (int i = 0; i < n; ++i) if (inpat(pat, which, i, n)) {
        o.g[i] = c.in(S(nm, "_d", i)); o.dep[i] = true;
        xs.push_back(B.b[i]); ds.push_back(o.g[i]);
    }
    o.mean = c.in(S(nm, "_m"));
    o.z = nary(xs.begin(), xs.end(), o.mean, ds.begin());
    return o;
}
// z has this mean and depends on the base variables with exactly these derivatives
template<class R> void check_many(sym::Ctx<R> &c, const std::string &lab, const Many<R> &B,
                                  const unc::UReal<R> &z, const R &mean, const std::vector<R> &g) {
    c.eq(lab + " mean", z.n(), mean);
    R v = R(0);
    for (int i = 0; i < B.size(); ++i) {
        R e = g[i] * B.sg[i] * B.sg[i];
        c.eq(lab + S(" cov with base ", i), cov(z, B.b[i]), e);
        c.eq(lab + S(" cov of base ", i), cov(B.b[i], z), e);
        v += g[i] * e;
    }
    c.eq(lab + " variance", cvar(z), v);
    c.eq(lab + " cov with itself", cov(z, z), v);
    c.eq(lab + " deviation squared", csdev(z) * csdev(z), v);
    unc::UReal<R> w = z;
    c.eq(lab + " deviation squared (mutable)", w.s() * w.s(), v);
    c.eq(lab + " variance (mutable)", var(w), v);
}
template<class R> R cov_many(const Many<R> &B, const std::vector<R> &a, const std::vector<R> &b) {
    R e = R(0);
    for (int i = 0; i < B.size(); ++i) e += a[i] * b[i] * B.sg[i] * B.sg[i];
    return e;
}
constexpr int NSIZES = 6;
inline int many_size(int k) { static const int s[] = {5, 9, 17, 33, 67, 131, 300}; return s[k]; }
#endif
