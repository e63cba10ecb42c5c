// common2.hpp -- second-order operands, and what Eigen needs to hold symbolic scalars.
#ifndef VERIF_COMMON2_HPP
#define VERIF_COMMON2_HPP

#include "common.hpp"
#include <Eigen/Dense>

namespace Eigen {
template<> struct NumTraits<sym::Sym> : GenericNumTraits<sym::Sym> {
    typedef sym::Sym Real; typedef sym::Sym NonInteger; typedef sym::Sym Nested; typedef sym::Sym Literal;
    enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 3, MulCost = 3 };
    static inline sym::Sym epsilon() { return std::numeric_limits<sym::Sym>::epsilon(); }
    static inline sym::Sym dummy_precision() { return sym::Sym(1e-12); }
    static inline sym::Sym highest() { return (std::numeric_limits<sym::Sym>::max)(); }
    static inline sym::Sym lowest() { return std::numeric_limits<sym::Sym>::lowest(); }
    static inline int digits10() { return 15; }
};
template<> struct NumTraits<sym::Sym2> : NumTraits<sym::Sym> {
    typedef sym::Sym2 Real; typedef sym::Sym2 NonInteger; typedef sym::Sym2 Nested; typedef sym::Sym2 Literal;
};
}
// The iterative eigenvalue solver is replaced by a stand-in: harnesses decide
// what it returns and see the matrix it was given.
namespace eigstub {
    template<class R> struct State { Eigen::Matrix<R, 5, 5> M; Eigen::Matrix<R, 5, 1> ev; int calls = 0; bool success = true; };
    template<class R> State<R> &state() { static State<R> s; return s; }
}
namespace Eigen {
template<class RealT> class SymEigStub {
public:
    typedef Matrix<RealT, 5, 5> MatrixType;
    typedef Matrix<RealT, 5, 1> RealVectorType;
    RealVectorType v;
    SymEigStub() {}
    template<class M> explicit SymEigStub(const M &m, int options = ComputeEigenvectors) { compute(m, options); }
    template<class M> SymEigStub &compute(const M &m, int = ComputeEigenvectors) {
        auto &s = eigstub::state<RealT>();
        // like the real solver, read the lower triangular part only
        for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) s.M(i, j) = i >= j ? RealT(m(i, j)) : RealT(m(j, i));
        s.calls++;
        for (int i = 0; i < 5; ++i) v(i) = s.ev(i);
        return *this;
    }
    const RealVectorType &eigenvalues() const { return v; }
    ComputationInfo info() const { return eigstub::state<RealT>().success ? Success : NoConvergence; }
};
#define EIGSTUB(T) template<> class SelfAdjointEigenSolver<Matrix<T, 5, 5>> : public SymEigStub<T> { public: using SymEigStub<T>::SymEigStub; };
EIGSTUB(sym::Sym) EIGSTUB(sym::Sym2) EIGSTUB(double) EIGSTUB(long double)
#undef EIGSTUB
}

#include <uncertainties/ureal2.hpp>

// ---- independent variables ---------------------------------------------------------
template<class R, unc::Prop P, int N> struct Base2 {
    std::vector<R> mu, sg;
    std::vector<std::array<R, 6>> mom;
    std::vector<unc::UReal2<R, P>> b;
    // moments symbolic for the first nsym variables, different numbers for the others
    explicit Base2(sym::Ctx<R> &c, bool unit = false, int nsym = N) {
        for (int i = 0; i < N; ++i) {
            if (i && N < 6) for (int k = gap_between(); k > 0; --k) unc::UReal<R>(R(0), R(1));
            mu.push_back(c.in(S("mu", i)));
            sg.push_back(unit ? R(1) : c.pos(S("sg", i)));
            std::array<R, 6> m;
            static const int some[] = {1, 3, -2, 19, 5, 160};
            for (int k = 0; k < 6; ++k) m[k] = i < nsym ? c.in(S("v", k + 3, "_", i)) : R(some[k] + (k % 2 ? i % 3 : i - N / 2));
            mom.push_back(m);
            b.push_back(unc::UReal2<R, P>(mu[i], sg[i], m, R(-1)));
        }
    }
};
template<class R, unc::Prop P> struct Op2 {
    unc::UReal2<R, P> z;
    R mean;
    std::vector<R> g;                 // gradient with respect to the base variables
    std::vector<std::vector<R>> h;    // Hessian
    std::vector<bool> dep;
    explicit Op2(int N = 0): mean(0), g(N, R(0)), h(N, std::vector<R>(N, R(0))), dep(N, false) {}
};
constexpr int npairs(int n) { return n * (n - 1) / 2; }
// 0 number | base i | unary of base i | subset with at least two variables, every subset of off-diagonal terms
inline const std::vector<std::pair<int, int>> &multis2(int N) {   // (subset, mask over the pairs of the subset)
    static std::map<int, std::vector<std::pair<int, int>>> t;
    auto &v = t[N];
    if (v.empty())
        for (int s = 0; s < (1 << N); ++s) {
            int n = __builtin_popcount(s);
            if (n < 2) continue;
            for (int m = 0; m < (1 << npairs(n)); ++m) v.push_back({s, m});
        }
    return v;
}
inline int nkinds2(int N) { return 1 + 2 * N + (int)multis2(N).size(); }
constexpr int NK2_2 = 1 + 4 + 2;                 // nkinds2(2)
constexpr int NK2_3 = 1 + 6 + 3 * 2 + 8;         // nkinds2(3)

template<class R, unc::Prop P, int N> Op2<R, P> make_op2(sym::Ctx<R> &c, const Base2<R, P, N> &B, int kind, const std::string &nm, bool nz = false) {
    Op2<R, P> o(N);
    auto second = [&](const std::string &n) { return nz ? c.nonzero(n) : c.in(n); };
    using U = unc::UReal2<R, P>;
    if (kind == 0) { o.mean = c.in(S(nm, "_m")); o.z = U(o.mean); return o; }
    kind -= 1;
    if (kind < N) { o.mean = B.mu[kind]; o.z = B.b[kind]; o.g[kind] = R(1); o.dep[kind] = true; return o; }
    kind -= N;
    if (kind < N) {
        int i = kind;
        o.mean = c.in(S(nm, "_m")); o.g[i] = c.in(S(nm, "_d", i)); o.h[i][i] = second(S(nm, "_h", i, i)); o.dep[i] = true;
        o.z = unary(B.b[i], o.mean, o.g[i], o.h[i][i]);
        return o;
    }
    kind -= N;
    int sub = multis2(N)[kind].first, tri = multis2(N)[kind].second;
    o.mean = c.in(S(nm, "_m"));
    U z(o.mean);
    for (int i = 0; i < N; ++i) if (sub >> i & 1) {
        o.dep[i] = true;
        o.g[i] = c.in(S(nm, "_d", i)); o.h[i][i] = second(S(nm, "_h", i, i));
        z = z + unary(B.b[i], R(0), o.g[i], o.h[i][i]);
    }
    int p = 0;
    for (int i = 0; i < N; ++i) if (sub >> i & 1) for (int j = i + 1; j < N; ++j) if (sub >> j & 1) {
        if (tri >> p & 1) {
            R k = second(S(nm, "_h", i, j));
            o.h[i][j] = o.h[j][i] = k;
            z = z + binary(B.b[i], B.b[j], R(0), R(0), R(0), R(0), R(0), k);
        }
        ++p;
    }
    o.z = z;
    return o;
}
// first-order mean, gradient and Hessian of z with respect to every (pair of) base variable(s)
template<class R, unc::Prop P, int N> void check_gh(sym::Ctx<R> &c, const std::string &lab, const Base2<R, P, N> &B,
        const unc::UReal2<R, P> &z, const R &mean, const std::vector<R> &g, const std::vector<std::vector<R>> &h) {
    c.eq(lab + " first-order mean", z.first_order_n(), mean);
    for (int i = 0; i < N; ++i) c.eq(lab + S(" gradient ", i), z.grad(B.b[i]), g[i]);
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j)
        c.eq(lab + S(" Hessian ", i, ",", j), z.hess(B.b[i], B.b[j]), h[i][j]);
}

// ---- exact moments of quadratic polynomials in independent standardized variables ---
template<class R, int N> struct PolyU {
    std::map<std::array<int, N>, R> t;     // exponents -> coefficient
    void add(const std::array<int, N> &e, const R &k) {
        auto it = t.find(e);
        if (it == t.end()) t[e] = k; else it->second = it->second + k;
    }
    PolyU mul(const PolyU &o) const {
        PolyU r;
        for (auto &a : t) for (auto &b : o.t) {
            std::array<int, N> e;
            for (int i = 0; i < N; ++i) e[i] = a.first[i] + b.first[i];
            r.add(e, a.second * b.second);
        }
        return r;
    }
    // expected value; mom[i][k] is the standardized moment of order k + 3 of variable i
    R expect(const std::vector<std::array<R, 6>> &mom) const {
        R s = R(0);
        for (auto &a : t) {
            R k = a.second; bool zero = false;
            for (int i = 0; i < N; ++i) {
                int e = a.first[i];
                if (e == 1) zero = true;
                else if (e >= 3) k = k * mom[i][e - 3];
            }
            if (!zero) s += k;
        }
        return s;
    }
};
// the expansion of o minus its first-order mean, in standardized variables
template<class R, unc::Prop P, int N> PolyU<R, N> expansion(const Base2<R, P, N> &B, const Op2<R, P> &o) {
    PolyU<R, N> q;
    for (int i = 0; i < N; ++i) if (o.dep[i]) {
        std::array<int, N> e{}; e[i] = 1;
        q.add(e, o.g[i] * B.sg[i]);
        e[i] = 2;
        q.add(e, o.h[i][i] * B.sg[i] * B.sg[i] / R(2));
        for (int j = i + 1; j < N; ++j) if (o.dep[j]) {
            std::array<int, N> f{}; f[i] = 1; f[j] = 1;
            q.add(f, o.h[i][j] * B.sg[i] * B.sg[j]);
        }
    }
    return q;
}
#endif
