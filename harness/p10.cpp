#include "mathspec.hpp"
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

template<class R, unc::Prop P, int N> static Op2<R, P> full(sym::Ctx<R> &c, const Base2<R, P, N> &B, const std::string &nm, const R &mean) {
    Op2<R, P> o(N);
    o.mean = mean;
    unc::UReal2<R, P> z(mean);
    for (int i = 0; i < N; ++i) {
        o.dep[i] = true;
        o.g[i] = c.in(S(nm, "_d", i)); o.h[i][i] = c.nonzero(S(nm, "_h", i, i));
        z = z + unary(B.b[i], R(0), o.g[i], o.h[i][i]);
        for (int j = 0; j < i; ++j) {
            o.h[i][j] = o.h[j][i] = c.nonzero(S(nm, "_h", j, i));
            z = z + binary(B.b[j], B.b[i], R(0), R(0), R(0), R(0), R(0), o.h[i][j]);
        }
    }
    o.z = z;
    return o;
}
template<class R, unc::Prop P> static void one(sym::Ctx<R> &c, int f) {
    constexpr int N = 2;
    Base2<R, P, N> B(c);
    const R mu = B.mu[0];
    spec::domain1(c, f, mu);
    const R v = spec::call1(f, mu);
    const auto d = spec::deriv1(f, mu);
    const std::string nm = spec::name1[f];
    auto z = spec::call1(f, B.b[0]);
    c.eq(nm + " first-order mean", z.first_order_n(), v);
    c.eq(nm + " first derivative", z.grad(B.b[0]), d.d);
    c.eq(nm + " second derivative", z.hess(B.b[0], B.b[0]), d.h);
    c.eq(nm + " mean", z.n(), P == PM ? v + d.h * B.sg[0] * B.sg[0] / R(2) : v - d.h * B.sg[0] * B.sg[0] / R(2));
    c.truth(nm + " keeps the identity of the argument", z.isindep() && z.indepid() == B.b[0].indepid());
    auto x = full<R, P, N>(c, B, "x", mu);
    auto w = spec::call1(f, x.z);
    std::vector<R> g(N); std::vector<std::vector<R>> h(N, std::vector<R>(N));
    for (int i = 0; i < N; ++i) {
        g[i] = d.d * x.g[i];
        for (int j = 0; j < N; ++j) h[i][j] = d.h * x.g[i] * x.g[j] + d.d * x.h[i][j];
    }
    check_gh<R, P, N>(c, nm + " dependent argument:", B, w, v, g, h);
    unc::UReal2<R, P> k(mu);
    auto e = spec::call1(f, k);
    c.eq(nm + " of an exact number", e.n(), v);
    c.eq(nm + " of an exact number: variance", var(e), R(0));
}
HARNESS(one_argument, spec::NFN1, spec::NFN1, "each function of one argument at every mean in its open domain, fresh and dependent argument, mean mode") { one<R, PM>(c, conf); }
HARNESS(one_argument_est, spec::NFN1, spec::NFN1, "the same, estimate mode") { one<R, PE>(c, conf); }
template<class R, unc::Prop P> static void two(sym::Ctx<R> &c, int f) {
    constexpr int N = 2;
    Base2<R, P, N> B(c);
    const R x = B.mu[0], y = B.mu[1];
    const std::string nm = spec::name2[f];
    spec::domain2(c, f, x, y);
    const R v = spec::call2(f, x, y);
    const auto d = spec::deriv2(f, x, y);
    auto z = spec::call2(f, B.b[0], B.b[1]);
    check_gh<R, P, N>(c, nm, B, z, v, {d.dx, d.dy}, {{d.dxx, d.dxy}, {d.dxy, d.dyy}});
    auto p = full<R, P, N>(c, B, "x", x), q = full<R, P, N>(c, B, "y", y);
    auto w = spec::call2(f, p.z, q.z);
    std::vector<R> g(N); std::vector<std::vector<R>> h(N, std::vector<R>(N));
    for (int i = 0; i < N; ++i) {
        g[i] = d.dx * p.g[i] + d.dy * q.g[i];
        for (int j = 0; j < N; ++j)
            h[i][j] = d.dx * p.h[i][j] + d.dy * q.h[i][j] + d.dxx * p.g[i] * p.g[j] + d.dyy * q.g[i] * q.g[j]
                      + d.dxy * (p.g[i] * q.g[j] + p.g[j] * q.g[i]);
    }
    check_gh<R, P, N>(c, nm + " dependent arguments:", B, w, v, g, h);
    unc::UReal2<R, P> ex(x), ey(y);
    check_gh<R, P, N>(c, nm + " exact second:", B, spec::call2(f, B.b[0], ey), v, {d.dx, R(0)}, {{d.dxx, R(0)}, {R(0), R(0)}});
    check_gh<R, P, N>(c, nm + " exact first:", B, spec::call2(f, ex, B.b[1]), v, {R(0), d.dy}, {{R(0), R(0)}, {R(0), d.dyy}});
}
HARNESS(two_arguments, spec::NFN2, spec::NFN2, "each function of two arguments at every pair of means in its open domain; arguments fresh, dependent with full Hessians, exact; mean mode") { two<R, PM>(c, conf); }
HARNESS(two_arguments_est, spec::NFN2, spec::NFN2, "the same, estimate mode") { two<R, PE>(c, conf); }
HARNESS(pow_exact, 8, 14, "pow with an exact integer exponent -2..5 (thorough -5..8) at every mean where it is defined, zero and negative included") {
    const int n = sym::thorough() ? conf - 5 : conf - 2;
    Base2<R, PM, 2> B(c);
    const R x = B.mu[0];
    if (n < 0) c.assume_rel(x, NE, R(0));
    auto power = [&](int k, int e) { R r(k); if (k == 0) return r; for (int i = 0; i < std::abs(e); ++i) { if (e > 0) r = r * x; else r = r / x; } return r; };
    unc::UReal2<R, PM> e{R(n)};
    auto z = pow(B.b[0], e);
    check_gh<R, PM, 2>(c, S("pow ", n), B, z, power(1, n), {power(n, n - 1), R(0)}, {{power(n * (n - 1), n - 2), R(0)}, {R(0), R(0)}});
    c.eq("variance", var(z), [&] { R g = power(n, n - 1) * B.sg[0], h = power(n * (n - 1), n - 2) * B.sg[0] * B.sg[0] / R(2);
        return g * g + R(2) * g * h * B.mom[0][0] + h * h * (B.mom[0][1] - R(1)); }());
}
