#include "common2.hpp"
#include <uncertainties/impl.hpp>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

template<class R, unc::Prop P, int N> static void summary(sym::Ctx<R> &c, const unc::UReal2<R, P> &z, const R &mean, const R &m1) {
    using std::sqrt;
    R m2 = z.m(2), m3 = z.m(3), m4 = z.m(4);
    c.assume_rel(m2, GT, R(0));
    R s = z.s();
    c.eq("s^2 = m(2)", s * s, m2);
    c.rel("s >= 0", s, GE, R(0));
    c.eq("sdev()", sdev(z), s);
    c.eq("var()", var(z), m2);
    c.eq("skewness", z.skew() * (s * s * s), m3);
    c.eq("kurtosis", z.kurt() * (m2 * m2), m4);
    c.eq("m(1)", z.m(1), m1);
    c.eq("first-order mean", z.first_order_n(), mean);
    c.eq("n()", z.n(), P == PM ? mean + m1 : mean - m1);
    c.eq("nom()", nom(z), z.n());
}
template<class R, int N> static void do_modes(sym::Ctx<R> &c, int kind, bool unit, bool nz) {
    // the same variable in the two modes
    Base2<R, PM, N> B(c, unit); Base2<R, PE, N> D(c, unit);
    auto x = make_op2<R, PM, N>(c, B, kind, "x", nz);
    auto y = make_op2<R, PE, N>(c, D, kind, "x", nz);
    R m1 = R(0);
    for (int i = 0; i < N; ++i) m1 += x.h[i][i] * B.sg[i] * B.sg[i] / R(2);
    for (int k = 1; k <= 4; ++k) c.eq(S("m(", k, ") in the two modes"), x.z.m(k), y.z.m(k));
    for (int i = 0; i < N; ++i) c.eq(S("gradient in the two modes ", i), x.z.grad(B.b[i]), y.z.grad(D.b[i]));
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) c.eq(S("Hessian in the two modes ", i, j), x.z.hess(B.b[i], B.b[j]), y.z.hess(D.b[i], D.b[j]));
    c.eq("n() in the two modes", x.z.n() + y.z.n(), R(2) * x.mean);
    if (kind == 0) {
        c.eq("exact number: s", x.z.s(), R(0)); c.eq("exact number: n", x.z.n(), x.mean); c.eq("exact number: n", y.z.n(), x.mean);
        return;
    }
    summary<R, PM, N>(c, x.z, x.mean, m1);
    summary<R, PE, N>(c, y.z, x.mean, m1);
    c.eq("s in the two modes", x.z.s(), y.z.s());
    c.eq("skew in the two modes", x.z.skew(), y.z.skew());
    c.eq("kurt in the two modes", x.z.kurt(), y.z.kurt());
}
HARNESS(summary2, NK2_2, NK2_2, "every operand kind over 2 base variables with positive variance, both modes; deviations, moments 3..8, gradients, Hessians symbolic") { do_modes<R, 2>(c, conf, false, true); }
HARNESS(summary3, NK2_3, NK2_3, "every operand kind over 3 base variables with positive variance, both modes; unit deviations") { do_modes<R, 3>(c, conf, true, true); }
