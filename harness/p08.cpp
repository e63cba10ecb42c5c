#include "common2.hpp"
#include <uncertainties/impl.hpp>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// ---- first order -------------------------------------------------------------------
template<class R, class T> static void same1(sym::Ctx<R> &c, const std::string &lab, const unc::UReal<T> &x, const unc::UReal<T> &y,
        const std::vector<unc::UReal<T>> &b, const Op1<R> &ox, const Op1<R> &oy, const std::vector<R> &sg, const R &mx, const R &my) {
    const int N = (int)sg.size();
    c.eq(lab + " mean of x", R(x.n()), mx);
    c.eq(lab + " mean of y", R(y.n()), my);
    R vx = R(0), vy = R(0), cxy = R(0);
    for (int i = 0; i < N; ++i) { vx += ox.g[i] * ox.g[i] * sg[i] * sg[i]; vy += oy.g[i] * oy.g[i] * sg[i] * sg[i]; cxy += ox.g[i] * oy.g[i] * sg[i] * sg[i]; }
    c.eq(lab + " variance", R(var(x)), vx);
    c.eq(lab + " deviation", R(x.s()) * R(x.s()), vx);
    c.rel(lab + " deviation not negative", R(x.s()), GE, R(0));
    c.eq(lab + " covariance", R(cov(x, y)), cxy);
    c.eq(lab + " covariance, swapped", R(cov(y, x)), cxy);
    for (int i = 0; i < N; ++i) c.eq(lab + S(" covariance with base ", i), R(cov(x, b[i])), ox.g[i] * sg[i] * sg[i]);
    c.truth(lab + " identity", x.isindep() == ox.z.isindep() && x.indepid() == ox.z.indepid() && y.indepid() == oy.z.indepid());
    // the converted variables propagate like the originals
    auto z = x + y;
    c.eq(lab + " variance of the sum", R(var(z)), vx + vy + R(2) * cxy);
    c.eq(lab + " deviation of the sum", R(z.s()) * R(z.s()), vx + vy + R(2) * cxy);
    z = x; z -= y;
    c.eq(lab + " variance of the difference", R(var(z)), vx + vy - R(2) * cxy);
}
HARNESS(first_order, nkinds1(2) * nkinds1(2), nkinds1(3) * nkinds1(3), "pairs of every operand kind over 2 (thorough 3) base variables: conversion to another numerical type, and back, and replacement of the mean of x") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        using T = typename sym::Ctx<R>::Other;
        Base1<R, N> B(c);
        auto x = make_op1<R, N>(c, B, conf % nkinds1(N), "x"), y = make_op1<R, N>(c, B, conf / nkinds1(N), "y");
        unc::UReal<T> tx = x.z, ty = y.z;
        std::vector<unc::UReal<T>> tb;
        for (int i = 0; i < N; ++i) tb.push_back(B.b[i]);
        same1<R, T>(c, "converted", tx, ty, tb, x, y, B.sg, x.mean, y.mean);
        unc::UReal<R> rx = tx, ry; ry = ty;
        same1<R, R>(c, "converted back", rx, ry, B.b, x, y, B.sg, x.mean, y.mean);
        R n = c.in("n");
        auto w = change_nom(x.z, n);
        same1<R, R>(c, "other mean", w, y.z, B.b, x, y, B.sg, n, y.mean);
        unc::UReal<T> tw = w;
        same1<R, T>(c, "other mean, converted", tw, ty, tb, x, y, B.sg, n, y.mean);
        same1<R, R>(c, "originals", x.z, y.z, B.b, x, y, B.sg, x.mean, y.mean);
    };
    if (sym::thorough()) go(std::integral_constant<int, 3>()); else go(std::integral_constant<int, 2>());
}
// ---- second order ------------------------------------------------------------------
template<class R, class T, unc::Prop P, int N> static void same2(sym::Ctx<R> &c, const std::string &lab, const unc::UReal2<T, P> &x, const unc::UReal2<T, P> &y,
        const std::vector<unc::UReal2<T, P>> &b, const Op2<R, PM> &ox, const Op2<R, PM> &oy) {
    c.eq(lab + " first-order mean", R(x.first_order_n()), ox.mean);
    for (int i = 0; i < N; ++i) {
        c.eq(lab + S(" gradient ", i), R(x.grad(b[i])), ox.g[i]);
        for (int j = 0; j < N; ++j) c.eq(lab + S(" Hessian ", i, ",", j), R(x.hess(b[i], b[j])), ox.h[i][j]);
    }
    for (int k = 1; k <= 4; ++k) c.eq(lab + S(" moment ", k), R(x.m(k)), ox.z.m(k));
    c.eq(lab + " mean", R(x.n()), P == PM ? ox.mean + ox.z.m(1) : ox.mean - ox.z.m(1));
    c.eq(lab + " deviation", R(x.s()), ox.z.s());
    c.eq(lab + " covariance", R(cov(x, y)), cov(ox.z, oy.z));
    c.eq(lab + " covariance, swapped", R(cov(y, x)), cov(ox.z, oy.z));
    c.truth(lab + " identity", x.isindep() == ox.z.isindep() && x.indepid() == ox.z.indepid() && y.indepid() == oy.z.indepid());
}
HARNESS(second_order, NK2_2 * NK2_2, NK2_2 * NK2_2, "pairs of every second-order operand kind over 2 base variables: conversion to the other mode, to another numerical type (explicit and implicit), both at once, and back") {
    constexpr int N = 2;
    using T = typename sym::Ctx<R>::Other;
    Base2<R, PM, N> B(c, true);
    auto x = make_op2<R, PM, N>(c, B, conf % NK2_2, "x", true), y = make_op2<R, PM, N>(c, B, conf / NK2_2, "y", true);
    auto covs = [&](const std::string &lab, const auto &X, const auto &bb) {
        for (int i = 0; i < N; ++i) c.eq(lab + S(" covariance with base ", i), R(cov(X, bb[i])), cov(x.z, B.b[i]));
    };
    using E = unc::UReal2<R, PE>; using TM = unc::UReal2<T, PM>; using TE = unc::UReal2<T, PE>; using M = unc::UReal2<R, PM>;
    std::vector<E> be; std::vector<TM> bt, bi; std::vector<TE> bte;
    for (int i = 0; i < N; ++i) { be.push_back(E(B.b[i])); bt.push_back(TM(B.b[i])); TM z; z = B.b[i]; bi.push_back(z); bte.push_back(TE(B.b[i])); }
    E ex(x.z), ey(y.z);
    same2<R, R, PE, N>(c, "other mode", ex, ey, be, x, y); covs("other mode", ex, be);
    TM tx(x.z), ty(y.z);
    same2<R, T, PM, N>(c, "other type", tx, ty, bt, x, y); covs("other type", tx, bt);
    TM ix, iy; ix = x.z; iy = y.z;
    same2<R, T, PM, N>(c, "other type, implicit", ix, iy, bi, x, y); covs("other type, implicit", ix, bi);
    TE tex(x.z), tey(y.z);
    same2<R, T, PE, N>(c, "other type and mode", tex, tey, bte, x, y); covs("other type and mode", tex, bte);
    M rx(tex), ry(tey);
    same2<R, R, PM, N>(c, "and back", rx, ry, B.b, x, y); covs("and back", rx, B.b);
    same2<R, R, PM, N>(c, "originals", x.z, y.z, B.b, x, y);
}
// a variable with a Hessian over three variables, second-order moments after further propagation
HARNESS(propagated, 3 * NK2_3, 3 * NK2_3, "converted operands over 3 base variables propagate like the originals: product with a converted base variable") {
    constexpr int N = 3;
    using T = typename sym::Ctx<R>::Other; using TE = unc::UReal2<T, PE>;
    Base2<R, PM, N> B(c, true);
    auto x = make_op2<R, PM, N>(c, B, conf % NK2_3, "x", true);
    const int k = conf / NK2_3;
    auto p = x.z * B.b[k];
    TE q = TE(x.z) * TE(B.b[k]);
    std::vector<TE> b; for (int i = 0; i < N; ++i) b.push_back(TE(B.b[i]));
    for (int i = 0; i < N; ++i) {
        c.eq(S("gradient ", i), R(q.grad(b[i])), p.grad(B.b[i]));
        for (int j = 0; j < N; ++j) c.eq(S("Hessian ", i, ",", j), R(q.hess(b[i], b[j])), p.hess(B.b[i], B.b[j]));
    }
    for (int j = 1; j <= 2; ++j) c.eq(S("moment ", j), R(q.m(j)), p.m(j));
}

#include "many.hpp"
HARNESS(many_variables, 4 * NPAT, 6 * NPAT, "conversion of variables that depend on 5, 9, 33 and 67 (thorough: 131, 300) base variables to another numerical type and back, and replacement of the mean") {
    static const int size[] = {5, 9, 33, 67, 131, 300};
    using T = typename sym::Ctx<R>::Other;
    const int n = size[conf / NPAT], pat = conf % NPAT;
    Many<R> B(c, n);
    auto x = make_many<R>(c, B, pat, 0, "x"), y = make_many<R>(c, B, pat, 1, "y");
    if (pat % 2) (void)x.z.s();
    const R e = cov_many<R>(B, x.g, y.g), vx = cov_many<R>(B, x.g, x.g), m = c.in("m");
    unc::UReal<T> tx = x.z, ty; ty = y.z;
    c.eq("mean", R(tx.n()), x.mean);
    c.eq("variance", R(var(tx)), vx);
    c.eq("deviation", R(tx.s()) * R(tx.s()), vx);
    c.eq("covariance", R(cov(tx, ty)), e);
    for (int i = 0; i < n; ++i) c.eq(S("covariance with base ", i), R(cov(tx, unc::UReal<T>(B.b[i]))), x.g[i] * B.sg[i] * B.sg[i]);
    c.eq("variance of the difference", R(var(tx - ty)), cov_many<R>(B, x.g, x.g) + cov_many<R>(B, y.g, y.g) - R(2) * e);
    unc::UReal<R> rx = tx, ry = ty;
    check_many<R>(c, "x and back", B, rx, x.mean, x.g);
    check_many<R>(c, "y and back", B, ry, y.mean, y.g);
    check_many<R>(c, "other mean", B, change_nom(x.z, m), m, x.g);
    check_many<R>(c, "x afterwards", B, x.z, x.mean, x.g);
}

#include "many2.hpp"
HARNESS(many_variables2, 3 * NPAT2, 4 * NPAT2, "conversion to the other mode, another numerical type and both of results over 5, 8 and 12 (thorough: 17) base variables in 6 sparsity patterns") {
    using T = typename sym::Ctx<R>::Other; using TE = unc::UReal2<T, PE>; using TM = unc::UReal2<T, PM>; using E = unc::UReal2<R, PE>;
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        Base2<R, PM, N> B(c, true, 2);
        auto x = make_many2<R, PM, N>(c, B, conf % NPAT2, "x"), y = make_many2<R, PM, N>(c, B, (conf + 1) % NPAT2, "y");
        auto judge = [&](const std::string &lab, const auto &z, const auto &w, const auto &bb, bool est) {
            c.eq(lab + " first-order mean", R(z.first_order_n()), x.mean);
            for (int i = 0; i < N; ++i) {
                c.eq(lab + S(" gradient ", i), R(z.grad(bb[i])), x.g[i]);
                for (int j = 0; j < N; ++j) c.eq(lab + S(" Hessian ", i, ",", j), R(z.hess(bb[i], bb[j])), x.h[i][j]);
            }
            for (int k = 1; k <= (N < 9 ? 4 : 2); ++k) c.eq(lab + S(" moment ", k), R(z.m(k)), x.z.m(k));
            c.eq(lab + " mean", R(z.n()), est ? x.mean - x.z.m(1) : x.mean + x.z.m(1));
            c.eq(lab + " covariance", R(cov(z, w)), cov(x.z, y.z));
        };
        std::vector<E> be; std::vector<TM> bt; std::vector<TE> bte;
        for (int i = 0; i < N; ++i) { be.push_back(E(B.b[i])); bt.push_back(TM(B.b[i])); bte.push_back(TE(B.b[i])); }
        judge("other mode", E(x.z), E(y.z), be, true);
        judge("other type", TM(x.z), TM(y.z), bt, false);
        judge("other type and mode", TE(x.z), TE(y.z), bte, true);
        judge("and back", unc::UReal2<R, PM>(TE(x.z)), unc::UReal2<R, PM>(TE(y.z)), B.b, false);
    };
    switch (conf / NPAT2) {
    case 0: go(std::integral_constant<int, 5>()); break;
    case 1: go(std::integral_constant<int, 8>()); break;
    case 2: go(std::integral_constant<int, 12>()); break;
    default: go(std::integral_constant<int, 17>()); break;
    }
}
