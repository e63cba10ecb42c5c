#include "mathspec.hpp"

// x, y over 2 base variables with arbitrary derivatives
HARNESS(one_argument, spec::NFN1, spec::NFN1, "each function of one argument at every mean in its open domain, fresh and dependent argument") {
    constexpr int N = 2;
    Base1<R, N> B(c);
    const R mu = B.mu[0];
    spec::domain1(c, conf, mu);
    auto z = spec::call1(conf, B.b[0]);
    const R v = spec::call1(conf, mu);
    const auto d = spec::deriv1(conf, mu);
    const std::string nm = spec::name1[conf];
    c.eq(nm + " mean", z.n(), v);
    c.eq(nm + " covariance with argument", cov(z, B.b[0]), d.d * B.sg[0] * B.sg[0]);
    c.eq(nm + " variance", var(z), d.d * d.d * B.sg[0] * B.sg[0]);
    c.truth(nm + " keeps the identity of the argument", z.isindep() && z.indepid() == B.b[0].indepid());
    // dependent argument with the same mean
    unc::UReal<R> xs[2] = {B.b[0], B.b[1]}; R ds[2] = {c.in("d0"), c.in("d1")};
    auto x = nary(xs, xs + 2, mu, ds);
    auto w = spec::call1(conf, x);
    c.eq(nm + " mean, dependent argument", w.n(), v);
    for (int i = 0; i < N; ++i) c.eq(nm + S(" covariance with base ", i), cov(w, B.b[i]), d.d * ds[i] * B.sg[i] * B.sg[i]);
    // exact argument
    unc::UReal<R> k(mu);
    auto e = spec::call1(conf, k);
    c.eq(nm + " of an exact number", e.n(), v);
    c.eq(nm + " of an exact number: deviation", e.s(), R(0));
    c.eq("argument mean unchanged", B.b[0].n(), mu);
}
HARNESS(two_arguments, spec::NFN2, spec::NFN2, "each function of two arguments at every pair of means in its open domain; arguments fresh, dependent, exact, identical") {
    constexpr int N = 2;
    Base1<R, N> B(c);
    const R x = B.mu[0], y = B.mu[1];
    const std::string nm = spec::name2[conf];
    spec::domain2(c, conf, x, y);
    auto z = spec::call2(conf, B.b[0], B.b[1]);
    const R v = spec::call2(conf, x, y);
    const auto d = spec::deriv2(conf, x, y);
    const R v0 = B.sg[0] * B.sg[0], v1 = B.sg[1] * B.sg[1];
    c.eq(nm + " mean", z.n(), v);
    c.eq(nm + " covariance with first argument", cov(z, B.b[0]), d.dx * v0);
    c.eq(nm + " covariance with second argument", cov(z, B.b[1]), d.dy * v1);
    c.eq(nm + " variance", var(z), d.dx * d.dx * v0 + d.dy * d.dy * v1);
    // dependent arguments with the same means
    unc::UReal<R> xs[2] = {B.b[0], B.b[1]}; R da[2] = {c.in("a0"), c.in("a1")}, db[2] = {c.in("b0"), c.in("b1")};
    auto p = nary(xs, xs + 2, x, da), q = nary(xs, xs + 2, y, db);
    auto w = spec::call2(conf, p, q);
    c.eq(nm + " mean, dependent arguments", w.n(), v);
    for (int i = 0; i < N; ++i)
        c.eq(nm + S(" covariance with base ", i), cov(w, B.b[i]), (d.dx * da[i] + d.dy * db[i]) * B.sg[i] * B.sg[i]);
    // one exact argument
    unc::UReal<R> ex(x), ey(y);
    auto f = spec::call2(conf, B.b[0], ey);
    c.eq(nm + " exact second: mean", f.n(), v); c.eq(nm + " exact second: cov", cov(f, B.b[0]), d.dx * v0);
    c.eq(nm + " exact second: variance", var(f), d.dx * d.dx * v0);
    auto g = spec::call2(conf, ex, B.b[1]);
    c.eq(nm + " exact first: mean", g.n(), v); c.eq(nm + " exact first: cov", cov(g, B.b[1]), d.dy * v1);
    c.eq(nm + " exact first: variance", var(g), d.dy * d.dy * v1);
}
HARNESS(pow_exact, 8, 14, "pow with an exact integer exponent -2..5 (thorough -5..8) at every mean where it is defined, zero and negative included") {
    const int n = sym::thorough() ? conf - 5 : conf - 2;
    Base1<R, 2> B(c);
    const R x = B.mu[0];
    if (n < 0) c.assume_rel(x, NE, R(0));
    R v(1), d(n);
    for (int i = 0; i < std::abs(n); ++i) v = v * x;
    if (n < 0) v = R(1) / v;
    for (int i = 0; i < std::abs(n - 1); ++i) { if (n >= 1) d = d * x; else if (n < 0) d = d / x; }
    unc::UReal<R> e{R(n)};
    auto z = pow(B.b[0], e);
    c.eq(S("pow ", n, " mean"), z.n(), v);
    c.eq(S("pow ", n, " covariance with base"), cov(z, B.b[0]), d * B.sg[0] * B.sg[0]);
    c.eq(S("pow ", n, " variance"), var(z), d * d * B.sg[0] * B.sg[0]);
}
// the same argument twice: the one-variable function
HARNESS(same_argument, 2, 2, "hypot(x,x) and atan2(x,x)") {
    Base1<R, 1> B(c);
    const R x = B.mu[0];
    c.assume_rel(x, NE, R(0));
    if (conf == 0) { auto z = hypot(B.b[0], B.b[0]); using std::sqrt; using std::abs;
        c.eq("hypot(x,x) mean", z.n(), sqrt(R(2)) * abs(x));
        c.eq("hypot(x,x) covariance", cov(z, B.b[0]), (x > R(0) ? R(1) : R(-1)) * sqrt(R(2)) * B.sg[0] * B.sg[0]);
    } else { auto z = atan2(B.b[0], B.b[0]); c.eq("atan2(x,x) covariance", cov(z, B.b[0]), R(0)); c.eq("atan2(x,x) variance", var(z), R(0)); }
}
