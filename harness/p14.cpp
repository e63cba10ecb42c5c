#include "common2.hpp"
#include <uncertainties/impl.hpp>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

template<class R, unc::Prop P, int N> static void do_cov(sym::Ctx<R> &c, int kx, int ky, bool nz) {
    Base2<R, P, N> B(c, N > 2);
    auto x = make_op2<R, P, N>(c, B, kx, "x", nz);
    auto y = make_op2<R, P, N>(c, B, ky, "y", nz);
    auto p = expansion<R, P, N>(B, x), q = expansion<R, P, N>(B, y);
    R ep = p.expect(B.mom), eq = q.expect(B.mom);
    R e = p.mul(q).expect(B.mom) - ep * eq;
    c.eq("cov(x,y)", cov(x.z, y.z), e);
    c.eq("cov(y,x)", cov(y.z, x.z), e);
    bool shared = false;
    for (int i = 0; i < N; ++i) shared = shared || (x.dep[i] && y.dep[i]);
    if (!shared) c.eq("no shared variable", cov(x.z, y.z), R(0));
    R vx = p.mul(p).expect(B.mom) - ep * ep;
    c.eq("cov(x,x)", cov(x.z, x.z), vx);
    c.eq("var(x)", var(x.z), vx);
    auto copy = x.z;
    c.eq("cov of a copy with y", cov(copy, y.z), e);
    unc::UReal2<R, P> k(c.in("k"));
    c.eq("adding an exact number", cov(x.z + k, y.z), e);
    c.eq("cov with an exact number", cov(x.z, k), R(0));
}
HARNESS(cov2, NK2_2 * NK2_2, NK2_2 * NK2_2, "covariance of every pair of operand kinds over 2 base variables, mean mode; deviations, moments 3..8, gradients, Hessians symbolic") {
    do_cov<R, PM, 2>(c, conf / NK2_2, conf % NK2_2, false);
}
HARNESS(cov3, 100, NK2_3 * NK2_3, "covariance of pairs of operand kinds over 3 base variables (quick: 100 of 441), estimate mode; unit deviations, stored second derivatives nonzero") {
    if (!sym::thorough()) conf = (conf * 83 + 11) % (NK2_3 * NK2_3);
    do_cov<R, PE, 3>(c, conf / NK2_3, conf % NK2_3, true);
}
HARNESS(corr2, NK2_2 * NK2_2, NK2_2 * NK2_2, "correlation of every pair of operand kinds over 2 base variables with positive variances") {
    constexpr int N = 2;
    Base2<R, PE, N> B(c, true);
    const int kx = conf / NK2_2, ky = conf % NK2_2;
    if (kx == 0 || ky == 0) { c.truth("no deviation", true); return; }
    auto x = make_op2<R, PE, N>(c, B, kx, "x", true);
    auto y = make_op2<R, PE, N>(c, B, ky, "y", true);
    R vx = var(x.z), vy = var(y.z);
    c.assume_rel(vx, GT, R(0)); c.assume_rel(vy, GT, R(0));
    using std::sqrt;
    c.eq("corr(x,y)", corr(x.z, y.z) * (sqrt(vx) * sqrt(vy)), cov(x.z, y.z));
    c.eq("corr(y,x)", corr(y.z, x.z), corr(x.z, y.z));
    c.eq("corr(x,x)", corr(x.z, x.z), R(1));
}

#include "many2.hpp"
HARNESS(many_variables, 3 * NPAT2, 4 * NPAT2, "covariance of results over 5, 8 and 12 (thorough: 17) base variables in pairs of 6 sparsity patterns and with every base variable; unit deviations, moments of 2 variables and a few derivatives of each sort symbolic, the others numbers") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value; constexpr unc::Prop P = PM;
        Base2<R, P, N> B(c, true, 2);
        const int pat = conf % NPAT2;
        auto x = make_many2<R, P, N>(c, B, pat, "x"), y = make_many2<R, P, N>(c, B, (pat * 5 + conf / NPAT2 + 1) % NPAT2, "y");
        auto p = expansion<R, P, N>(B, x), q = expansion<R, P, N>(B, y);
        const R ep = p.expect(B.mom), eq = q.expect(B.mom);
        const R e = p.mul(q).expect(B.mom) - ep * eq, vx = p.mul(p).expect(B.mom) - ep * ep;
        c.eq("cov(x,y)", cov(x.z, y.z), e);
        c.eq("cov(y,x)", cov(y.z, x.z), e);
        c.eq("cov(x,x)", cov(x.z, x.z), vx);
        c.eq("var(x)", var(x.z), vx);
        for (int i = 0; i < N; ++i) {
            Op2<R, P> b(N); b.g[i] = R(1); b.dep[i] = true;
            const R k = p.mul(expansion<R, P, N>(B, b)).expect(B.mom);
            c.eq(S("cov with base ", i), cov(x.z, B.b[i]), k);
            c.eq(S("cov of base ", i), cov(B.b[i], x.z), k);
        }
        unc::UReal2<R, P> a(c.in("a")), o(R(0), R(1), B.mom[1], R(-1));
        c.eq("adding an exact number", cov(x.z + a, y.z), e);
        c.eq("adding an unrelated variable", cov(x.z, y.z + o), e);
        c.eq("cov with an unrelated variable", cov(o, y.z), R(0));
    };
    switch (conf / NPAT2) {
    case 0: go(std::integral_constant<int, 5>()); break;
    case 1: go(std::integral_constant<int, 8>()); break;
    case 2: go(std::integral_constant<int, 12>()); break;
    default: go(std::integral_constant<int, 17>()); break;
    }
}
