#include "common.hpp"
#include <uncertainties/impl.hpp>

// independent variables to differentiate with respect to: base, rescaled, one-dependency results (asked or not)
template<class R, int N> static Op1<R> indep(sym::Ctx<R> &c, const Base1<R, N> &B, int k, const std::string &nm) {
    // kinds over base 0, then over base 1
    const int kinds0[] = {1, 1 + N, 1 + 2 * N + 1, 1 + 2 * N + (1 << N) + 1};
    const int kinds1[] = {2, 2 + N, 1 + 2 * N + 2, 1 + 2 * N + (1 << N) + 2};
    auto o = make_op1<R, N>(c, B, k < 4 ? kinds0[k] : kinds1[k - 4], nm);
    R v = o.g[k < 4 ? 0 : 1];
    c.assume_rel(v, NE, R(0));
    return o;
}
HARNESS(gradient, 8 * nkinds1(2), 8 * nkinds1(3), "gradient of every operand kind on 2 (thorough 3) base variables with respect to every kind of independent variable with nonzero uncertainty") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        Base1<R, N> B(c, true);
        auto x = indep<R, N>(c, B, conf % 8, "x");
        auto y = make_op1<R, N>(c, B, conf / 8, "y");
        int b = conf % 8 < 4 ? 0 : 1;
        R g = y.z.grad(x.z);
        c.eq("cov(y,x) = g var(x)", cov(y.z, x.z), g * cvar(x.z));
        c.eq("g = dy/dx", g * x.g[b], y.g[b]);
        if (!y.dep[b]) c.eq("unrelated: gradient zero", g, R(0));
        c.eq("y unchanged", cov(y.z, x.z), y.g[b] * x.g[b] * B.sg[b] * B.sg[b]);
        c.eq("again", y.z.grad(x.z), g);
    };
    if (sym::thorough()) go(std::integral_constant<int, 3>()); else go(std::integral_constant<int, 2>());
}
HARNESS(of_itself, 8, 8, "gradient of x, of copies, of linear and nonlinear functions of x with respect to x") {
    constexpr int N = 2;
    Base1<R, N> B(c, true);
    auto x = indep<R, N>(c, B, conf, "x");
    c.eq("x with respect to x", x.z.grad(x.z), R(1));
    auto y = x.z;
    c.eq("copy with respect to x", y.grad(x.z), R(1));
    auto w = unary(x.z, c.in("m"), c.in("d"));
    c.eq("f(x) with respect to x", w.grad(x.z), c.in("d"));
    auto s = x.z + x.z;
    c.eq("x + x with respect to x", s.grad(x.z), R(2));
    auto p = x.z * B.b[1 - (conf >= 4)];
    c.eq("x*y with respect to x", p.grad(x.z), B.mu[1 - (conf >= 4)]);
    auto q = change_nom(x.z, c.in("n"));
    c.eq("x with another mean", q.grad(x.z), R(1));
    c.eq("with respect to x with another mean", x.z.grad(q), R(1));
    unc::UReal<R> k(c.in("k"));
    c.eq("number", k.grad(x.z), R(0));
}
HARNESS(rejected, nkinds1(2), nkinds1(3), "gradient with respect to exact numbers and dependent variables throws, for every operand kind and several differentiated variables") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        Base1<R, N> B(c, true);
        auto x = make_op1<R, N>(c, B, conf, "x");
        int nd = 0;
        for (int i = 0; i < N; ++i) nd += x.dep[i];
        auto y = make_op1<R, N>(c, B, c.choose(nkinds1(N), "kind of y"), "y");
        bool t = sym::throws<std::invalid_argument>([&] { (void)y.z.grad(x.z); });
        c.truth(nd == 1 ? "accepted" : "throws invalid_argument", t == (nd != 1));
    };
    if (sym::thorough()) go(std::integral_constant<int, 3>()); else go(std::integral_constant<int, 2>());
}

#include "many.hpp"
HARNESS(many_variables, 4 * NPAT, 6 * NPAT, "gradient of operands that depend on 5, 9, 33 and 67 (thorough: 131, 300) base variables in 8 patterns with respect to every one of them, rescaled ones included; rejected with respect to dependent ones") {
    static const int size[] = {5, 9, 33, 67, 131, 300};
    const int n = size[conf / NPAT], pat = conf % NPAT;
    Many<R> B(c, n, true);
    auto x = make_many<R>(c, B, pat, 0, "x"), y = make_many<R>(c, B, pat, 1, "y");
    R k = c.nonzero("k"), m = c.in("m");
    for (int i = 0; i < n; ++i) {
        c.eq(S("gradient of x ", i), x.z.grad(B.b[i]), x.g[i]);
        c.eq(S("gradient of y ", i), y.z.grad(B.b[i]), y.g[i]);
        if (i % 4 == 0) c.eq(S("gradient, rescaled ", i), x.z.grad(unary(B.b[i], m, k)) * k, x.g[i]);
        if (i % 4 == 1) c.eq(S("gradient of a base variable ", i), B.b[i].grad(B.b[(i + 1) % n]), R(0));
    }
    auto rejected = [&](const auto &z) { return sym::throws<std::invalid_argument>([&] { (void)y.z.grad(z); }); };
    int nx = 0, ny = 0;
    for (int i = 0; i < n; ++i) { nx += x.dep[i]; ny += y.dep[i]; }
    if (nx > 1) c.truth("x rejected", rejected(x.z));
    if (ny > 1) c.truth("y rejected", rejected(y.z));
    c.truth("sum rejected", rejected(x.z + y.z));
}
