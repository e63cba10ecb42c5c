// common.hpp -- shared pieces of the harnesses: the library under test, and
// generators of symbolic first-order operands.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP

#include "../engine/engine.hpp"
#include <uncertainties/ureal.hpp>

namespace unc = uncertainties;
using sym::EQ; using sym::NE; using sym::LT; using sym::LE; using sym::GT; using sym::GE;

// string concatenation
inline std::string to_s(int i) { return std::to_string(i); }
inline std::string to_s(const char *s) { return s; }
inline const std::string &to_s(const std::string &s) { return s; }
template<class... T> std::string S(const T &...a) { std::string r; (void)std::initializer_list<int>{(r += to_s(a), 0)...}; return r; }

// Identities of the base variables are not always close to each other: in some configurations many
// other variables are made between them.
inline int gap_between() { switch (sym::conf_now() % 16) { case 3: return 31; case 6: return 255; case 10: return 4095; case 13: return 65535; default: return 0; } }

// ---- independent variables every harness starts from ---------------------------
template<class R, int N> struct Base1 {
    std::vector<R> mu, sg;
    std::vector<unc::UReal<R>> b;
    Base1(sym::Ctx<R> &c, bool positive = false) {
        for (int i = 0; i < N; ++i) {
            if (i && N < 6) for (int k = gap_between(); k > 0; --k) unc::UReal<R>(R(0), R(1));
            mu.push_back(c.in(S("mu", i)));
            sg.push_back(positive ? c.pos(S("sg", i)) : c.nonneg(S("sg", i)));
            b.push_back(unc::UReal<R>(mu[i], sg[i]));
        }
    }
};

// ---- an operand together with what it must be ----------------------------------
template<class R> struct Op1 {
    unc::UReal<R> z;
    R mean;
    std::vector<R> g;      // derivative with respect to each base variable
    std::vector<bool> dep; // depends on it (possibly with derivative zero)
};

// number of operand kinds over N base variables
constexpr int nkinds1(int N) { return 1 + 2 * N + 2 * (1 << N); }

// kind: 0 exact number | copy of base i | rescaled base i | result with given
// dependencies (any subset of the base), deviation not asked yet or already asked
template<class R, int N> Op1<R> make_op1(sym::Ctx<R> &c, const Base1<R, N> &B, int kind, const std::string &nm) {
    Op1<R> o;
    o.g.assign(N, R(0)); o.dep.assign(N, false);
    if (kind == 0) { o.mean = c.in(S(nm, "_m")); o.z = unc::UReal<R>(o.mean); return o; }
    kind -= 1;
    if (kind < N) { o.mean = B.mu[kind]; o.z = B.b[kind]; o.g[kind] = R(1); o.dep[kind] = true; return o; }
    kind -= N;
    if (kind < N) {
        o.mean = c.in(S(nm, "_m")); o.g[kind] = c.in(S(nm, "_d", kind)); o.dep[kind] = true;
        o.z = unary(B.b[kind], o.mean, o.g[kind]);
        return o;
    }
    kind -= N;
    const int sub = kind % (1 << N); const bool cached = kind >= (1 << N);
    std::vector<unc::UReal<R>> xs; std::vector<R> ds;
    for (int i = 0; i < N; ++i) if (sub >> i & 1) {
        o.g[i] = c.in(S(nm, "_d", i)); o.dep[i] = true;
        xs.push_back(B.b[i]); ds.push_back(o.g[i]);
    }
    o.mean = c.in(S(nm, "_m"));
    o.z = nary(xs.begin(), xs.end(), o.mean, ds.begin());
    if (cached) (void)o.z.s();
    return o;
}
inline std::string kindname1(int N, int kind) {
    if (kind == 0) return "number";
    kind -= 1; if (kind < N) return S("base", kind);
    kind -= N; if (kind < N) return S("scaled", kind);
    kind -= N; std::string s = "multi{";
    for (int i = 0; i < N; ++i) if (kind >> i & 1) s += std::to_string(i);
    return s + "}" + (kind >= (1 << N) ? "cached" : "");
}

template<class R> using CU = const unc::UReal<R>;

// variance and deviation through every accessor
template<class R> R cvar(const unc::UReal<R> &x) { return var(x); }
template<class R> R csdev(const unc::UReal<R> &x) { return x.s(); }

#endif
