#include "common2.hpp"
#include <uncertainties/impl.hpp>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// moments of order 0..8
template<class R> static void expect_matrix(sym::Ctx<R> &c, const std::string &lab, const std::array<R, 9> &m) {
    auto &st = eigstub::state<R>();
    c.truth(lab + ": matrix judged once", st.calls == 1);
    if (st.calls < 1) return;
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) c.eq(lab + S(": Hankel matrix ", i, ",", j), st.M(i, j), m[i + j]);
}
template<class R> static std::array<R, 5> eigenvalues(sym::Ctx<R> &c) {
    auto &st = eigstub::state<R>();
    std::array<R, 5> e;
    for (int i = 0; i < 5; ++i) { e[i] = c.in(S("ev", i)); if (i) c.assume_rel(e[i - 1], LE, e[i]); st.ev(i) = e[i]; }
    st.calls = 0; st.success = true;
    return e;
}
template<class R> static bool must_throw(const std::array<R, 5> &e, const R &thr) {
    if (!(e[0] < R(0))) return false;
    if (e[4] < R(0)) return true;
    return -e[0] > thr * e[4];
}
template<class R, unc::Prop P> static void std_ctor(sym::Ctx<R> &c) {
    auto e = eigenvalues(c);
    std::array<R, 6> v; std::array<R, 9> m;
    m[0] = R(1); m[1] = R(0); m[2] = R(1);
    for (int k = 0; k < 6; ++k) { v[k] = c.in(S("v", k + 3)); m[k + 3] = v[k]; }
    R thr = c.nonneg("thr"), s = c.nonneg("s");
    bool t = sym::throws<std::invalid_argument>([&] { unc::UReal2<R, P> x(c.in("n"), s, v, thr); });
    expect_matrix(c, "standardized", m);
    c.truth("standardized: verdict", t == must_throw(e, thr));
    eigstub::state<R>().calls = 0;
    t = sym::throws<std::invalid_argument>([&] { unc::UReal2<R, P> x(c.in("n"), s, v); });
    expect_matrix(c, "standardized, default threshold", m);
    c.truth("standardized, default threshold: verdict", t == must_throw(e, R(0)));
    R neg = c.in("negthr"); c.assume_rel(neg, LT, R(0));
    c.truth("standardized, negative threshold: never", !sym::throws<std::invalid_argument>([&] { unc::UReal2<R, P> x(c.in("n"), s, v, neg); }));
}
template<class R, unc::Prop P> static void central_ctor(sym::Ctx<R> &c) {
    auto e = eigenvalues(c);
    std::array<R, 7> v; std::array<R, 9> m;
    m[0] = R(1); m[1] = R(0);
    for (int k = 0; k < 7; ++k) { v[k] = k ? c.in(S("m", k + 2)) : c.nonneg("m2"); m[k + 2] = v[k]; }
    R thr = c.nonneg("thr");
    bool t = sym::throws<std::invalid_argument>([&] { unc::UReal2<R, P> x(c.in("n"), v, thr); });
    expect_matrix(c, "central", m);
    c.truth("central: verdict", t == must_throw(e, thr));
    eigstub::state<R>().calls = 0;
    t = sym::throws<std::invalid_argument>([&] { unc::UReal2<R, P> x(c.in("n"), v); });
    expect_matrix(c, "central, default threshold", m);
    c.truth("central, default threshold: verdict", t == must_throw(e, R(0)));
    R neg = c.in("negthr"); c.assume_rel(neg, LT, R(0));
    c.truth("central, negative threshold: never", !sym::throws<std::invalid_argument>([&] { unc::UReal2<R, P> x(c.in("n"), v, neg); }));
}
HARNESS(standardized, 2, 2, "construction from any standardized moments, any eigenvalues (ascending) of the matrix, any threshold") { if (conf) std_ctor<R, PE>(c); else std_ctor<R, PM>(c); }
HARNESS(central, 2, 2, "construction from any central moments, any eigenvalues (ascending) of the matrix, any threshold") { if (conf) central_ctor<R, PE>(c); else central_ctor<R, PM>(c); }
// the same moments given in both ways: the two matrices are congruent (D M D with D = diag(s^i)), so they have the same signature
HARNESS(alike, 1, 1, "central moments made from standardized ones: congruent matrices") {
    eigenvalues(c);
    auto &st = eigstub::state<R>();
    for (int i = 0; i < 5; ++i) st.ev(i) = R(1);
    R s = c.pos("s"), n = c.in("n");
    std::array<R, 6> v; std::array<R, 7> m;
    R p = s * s; m[0] = p;
    for (int k = 0; k < 6; ++k) { v[k] = c.in(S("v", k + 3)); p = p * s; m[k + 1] = v[k] * p; }
    unc::UReal2<R, PM> x(n, s, v);
    Eigen::Matrix<R, 5, 5> A = st.M;
    unc::UReal2<R, PM> y(n, m);
    R si[5]; si[0] = R(1); for (int i = 1; i < 5; ++i) si[i] = si[i - 1] * s;
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) c.eq(S("congruence ", i, ",", j), st.M(i, j), A(i, j) * si[i] * si[j]);
}
HARNESS(not_converged, 1, 1, "failed diagonalization is reported as runtime_error") {
    auto &st = eigstub::state<R>();
    for (int i = 0; i < 5; ++i) st.ev(i) = R(1);
    std::array<R, 6> v;
    for (int k = 0; k < 6; ++k) v[k] = c.in(S("v", k + 3));
    st.success = false;
    bool t = sym::throws<std::runtime_error>([&] { unc::UReal2<R, PM> x(c.in("n"), R(1), v); });
    st.success = true;
    c.truth("runtime_error", t);
}
