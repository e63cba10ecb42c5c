#include "common2.hpp"
#include <uncertainties/impl.hpp>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

template<class R, unc::Prop P, int N> static void same(sym::Ctx<R> &c, const std::string &lab, const Base2<R, P, N> &B, const unc::UReal2<R, P> &z, const unc::UReal2<R, P> &w, int maxmom) {
    c.eq(lab + " first-order mean", z.first_order_n(), w.first_order_n());
    for (int i = 0; i < N; ++i) {
        c.eq(lab + S(" gradient ", i), z.grad(B.b[i]), w.grad(B.b[i]));
        for (int j = 0; j < N; ++j) c.eq(lab + S(" Hessian ", i, ",", j), z.hess(B.b[i], B.b[j]), w.hess(B.b[i], B.b[j]));
        c.eq(lab + S(" covariance with base ", i), cov(z, B.b[i]), cov(w, B.b[i]));
    }
    for (int k = 1; k <= maxmom; ++k) c.eq(lab + S(" moment ", k), z.m(k), w.m(k));
    c.truth(lab + " identity", z.isindep() == w.isindep() && z.indepid() == w.indepid());
}
template<class R, unc::Prop P, int N> static void pair(sym::Ctx<R> &c, int kx, int ky, bool nz) {
    Base2<R, P, N> B(c, true);
    auto x = make_op2<R, P, N>(c, B, kx, "x", nz), y = make_op2<R, P, N>(c, B, ky, "y", nz);
    auto arg = [&](const char *n) { return nz ? c.nonzero(n) : c.in(n); };
    R m = c.in("m"), dx = c.in("dx"), dy = c.in("dy"), dxx = arg("dxx"), dyy = arg("dyy"), dxy = arg("dxy");
    // the chain rule, independently of binary
    auto spec = [&](const std::string &lab, const unc::UReal2<R, P> &z, const Op2<R, P> &b) {
        c.eq(lab + " mean", z.first_order_n(), m);
        for (int i = 0; i < N; ++i) {
            c.eq(lab + S(" gradient ", i), z.grad(B.b[i]), dx * x.g[i] + dy * b.g[i]);
            for (int j = 0; j < N; ++j)
                c.eq(lab + S(" Hessian ", i, ",", j), z.hess(B.b[i], B.b[j]), dx * x.h[i][j] + dy * b.h[i][j] + dxx * x.g[i] * x.g[j]
                     + dyy * b.g[i] * b.g[j] + dxy * (x.g[i] * b.g[j] + x.g[j] * b.g[i]));
        }
    };
    const int mm = nz ? 2 : 2;
    auto z = x.z;
    binary_assign(z, y.z, m, dx, dy, dxx, dyy, dxy);
    same<R, P, N>(c, "in place", B, z, binary(x.z, y.z, m, dx, dy, dxx, dyy, dxy), mm);
    spec("in place", z, y);
    check_gh<R, P, N>(c, "right operand", B, y.z, y.mean, y.g, y.h);
    if (ky == 0) {
        auto w = x.z;
        binary_assign(w, w, m, dx, dy, dxx, dyy, dxy);
        same<R, P, N>(c, "aliased", B, w, binary(x.z, x.z, m, dx, dy, dxx, dyy, dxy), mm);
        spec("aliased", w, x);
        // twice
        binary_assign(w, B.b[0], m, R(1), R(1), R(0), R(0), R(0));
        same<R, P, N>(c, "then once more", B, w, binary(binary(x.z, x.z, m, dx, dy, dxx, dyy, dxy), B.b[0], m, R(1), R(1), R(0), R(0), R(0)), mm);
    }
}
HARNESS(kinds2, 2 * NK2_2 * NK2_2, 2 * NK2_2 * NK2_2, "every pair of operand kinds over 2 base variables, both modes; all derivatives symbolic, zeros included") {
    const int k = conf / 2;
    if (conf % 2) pair<R, PE, 2>(c, k % NK2_2, k / NK2_2, false); else pair<R, PM, 2>(c, k % NK2_2, k / NK2_2, false);
}
HARNESS(kinds3, NK2_3 * 3, NK2_3 * NK2_3, "pairs of operand kinds over 3 base variables (thorough: every pair), second derivatives nonzero") {
    int kx = conf % NK2_3, ky = conf / NK2_3;
    if (!sym::thorough()) ky = (kx * 7 + ky * 5 + 3) % NK2_3;
    pair<R, PM, 3>(c, kx, ky, true);
}

#include "many2.hpp"
HARNESS(many_variables, 3 * NPAT2, 4 * NPAT2, "in-place update of results over 5, 8 and 12 (thorough: 17) base variables in pairs of 6 sparsity patterns, aliased too; the derivatives of the function and a few of each sort of the operands symbolic, the others numbers") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value; constexpr unc::Prop P = PE;
        Base2<R, P, N> B(c, true, 2);
        const int pat = conf % NPAT2;
        auto x = make_many2<R, P, N>(c, B, pat, "x"), y = make_many2<R, P, N>(c, B, (pat * 5 + conf / NPAT2 + 1) % NPAT2, "y");
        R m = c.in("m"), dx = c.in("dx"), dy = c.in("dy"), dxx = c.nonzero("dxx"), dyy = c.nonzero("dyy"), dxy = c.nonzero("dxy");
        auto spec = [&](const std::string &lab, const unc::UReal2<R, P> &z, const Op2<R, P> &b) {
            c.eq(lab + " mean", z.first_order_n(), m);
            for (int i = 0; i < N; ++i) {
                c.eq(lab + S(" gradient ", i), z.grad(B.b[i]), dx * x.g[i] + dy * b.g[i]);
                for (int j = 0; j < N; ++j)
                    c.eq(lab + S(" Hessian ", i, ",", j), z.hess(B.b[i], B.b[j]), dx * x.h[i][j] + dy * b.h[i][j] + dxx * x.g[i] * x.g[j]
                         + dyy * b.g[i] * b.g[j] + dxy * (x.g[i] * b.g[j] + x.g[j] * b.g[i]));
            }
        };
        auto z = x.z;
        if (pat % 2) { (void)z.m(2); (void)z.m(3); }
        binary_assign(z, y.z, m, dx, dy, dxx, dyy, dxy);
        spec("in place", z, y);
        auto w = binary(x.z, y.z, m, dx, dy, dxx, dyy, dxy);
        if (N < 9) for (int k = 1; k <= 3; ++k) c.eq(S("moment ", k), z.m(k), w.m(k));
        check_gh<R, P, N>(c, "right operand", B, y.z, y.mean, y.g, y.h);
        z = x.z;
        binary_assign(z, z, m, dx, dy, dxx, dyy, dxy);
        spec("aliased", z, x);
    };
    switch (conf / NPAT2) {
    case 0: go(std::integral_constant<int, 5>()); break;
    case 1: go(std::integral_constant<int, 8>()); break;
    case 2: go(std::integral_constant<int, 12>()); break;
    default: go(std::integral_constant<int, 17>()); break;
    }
}
