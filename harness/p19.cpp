#include "common2.hpp"
#include <uncertainties/distr.hpp>
#include <uncertainties/impl.hpp>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// x must have mean n and central moments m[2..8]
template<class R, unc::Prop P> static void has(sym::Ctx<R> &c, const std::string &lab, const unc::UReal2<R, P> &x, const R &n, const std::array<R, 9> &M) {
    c.eq(lab + " first-order mean", x.first_order_n(), n);
    c.eq(lab + " mean", x.n(), n);
    c.eq(lab + " variance", x.m(2), M[2]);
    c.eq(lab + " deviation squared", x.s() * x.s(), M[2]);
    c.rel(lab + " deviation not negative", x.s(), GE, R(0));
    c.eq(lab + " third moment", x.m(3), M[3]);
    c.eq(lab + " fourth moment", x.m(4), M[4]);
    c.truth(lab + " independent", x.isindep());
    // moments up to the eighth show in a quadratic function: E[(a u + h u^2)^k]
    R a = c.in("a"), h = c.in("h");
    auto z = unary(x, R(0), a, R(2) * h);
    R e[5];
    const int binom[5][5] = {{1}, {1, 1}, {1, 2, 1}, {1, 3, 3, 1}, {1, 4, 6, 4, 1}};
    for (int k = 1; k <= 4; ++k) {
        e[k] = R(0);
        for (int j = 0; j <= k; ++j) {
            R t = R(binom[k][j]) * M[k + j];
            for (int q = 0; q < j; ++q) t = t * h;
            for (int q = j; q < k; ++q) t = t * a;
            e[k] += t;
        }
    }
    c.eq(lab + " quadratic function, mean correction", z.m(1), e[1]);
    c.eq(lab + " quadratic function, variance", z.m(2), e[2] - e[1] * e[1]);
    c.eq(lab + " quadratic function, third", z.m(3), e[3] - R(3) * e[1] * e[2] + R(2) * e[1] * e[1] * e[1]);
    c.eq(lab + " quadratic function, fourth (moments up to the eighth)", z.m(4),
         e[4] - R(4) * e[1] * e[3] + R(6) * e[1] * e[1] * e[2] - R(3) * e[1] * e[1] * e[1] * e[1]);
}
template<class R> static void accept() { auto &st = eigstub::state<R>(); for (int i = 0; i < 5; ++i) st.ev(i) = R(1); }
template<class R, unc::Prop P> static void do_normal(sym::Ctx<R> &c) {
    accept<R>();
    using U = unc::UReal2<R, P>;
    R mu = c.in("mu"), s = c.in("sigma");
    U x;
    bool t = sym::throws<std::invalid_argument>([&] { x = unc::distr::normal<U>(mu, s); });
    c.truth("normal throws iff sigma < 0", t == (s < R(0)));
    if (t) return;
    R v = s * s;
    has<R, P>(c, "normal", x, mu, {R(1), R(0), v, R(0), R(3) * v * v, R(0), R(15) * v * v * v, R(0), R(105) * v * v * v * v});
    if (s > R(0)) { c.eq("normal skewness", x.skew(), R(0)); c.eq("normal kurtosis", x.kurt(), R(3)); }
    auto y = unc::distr::normal<U>(mu, s);
    c.eq("two normals are unrelated", cov(x, y), R(0));
}
HARNESS(normal, 2, 2, "normal: every mean and every real deviation, both modes") { if (conf) do_normal<R, PE>(c); else do_normal<R, PM>(c); }
template<class R, unc::Prop P> static void do_uniform(sym::Ctx<R> &c) {
    accept<R>();
    using U = unc::UReal2<R, P>;
    R l = c.in("left"), r = c.in("right");
    U x;
    bool t = sym::throws<std::invalid_argument>([&] { x = unc::distr::uniform<U>(l, r); });
    c.truth("uniform throws iff left > right", t == (l > r));
    if (t) return;
    R a = (r - l) / R(2), q = a * a;
    has<R, P>(c, "uniform", x, (l + r) / R(2), {R(1), R(0), q / R(3), R(0), q * q / R(5), R(0), q * q * q / R(7), R(0), q * q * q * q / R(9)});
    if (l < r) { c.eq("uniform skewness", x.skew(), R(0)); c.eq("uniform kurtosis", x.kurt(), R(9) / R(5)); }
}
HARNESS(uniform, 2, 2, "uniform: every pair of interval ends, both modes") { if (conf) do_uniform<R, PE>(c); else do_uniform<R, PM>(c); }
template<class R, unc::Prop P> static void do_chi(sym::Ctx<R> &c, int k, const R &K, const std::string &lab) {
    accept<R>();
    using U = unc::UReal2<R, P>;
    U x = unc::distr::chisquare<U>(k);
    // cumulants 2^(n-1) (n-1)! k
    R q2 = R(2) * K, q3 = R(8) * K, q4 = R(48) * K, q5 = R(384) * K, q6 = R(3840) * K, q7 = R(46080) * K, q8 = R(645120) * K;
    std::array<R, 9> M {R(1), R(0), q2, q3, q4 + R(3) * q2 * q2, q5 + R(10) * q3 * q2,
        q6 + R(15) * q4 * q2 + R(10) * q3 * q3 + R(15) * q2 * q2 * q2,
        q7 + R(21) * q5 * q2 + R(35) * q4 * q3 + R(105) * q3 * q2 * q2,
        q8 + R(28) * q6 * q2 + R(56) * q5 * q3 + R(35) * q4 * q4 + R(210) * q4 * q2 * q2 + R(280) * q3 * q3 * q2 + R(105) * q2 * q2 * q2 * q2};
    has<R, P>(c, lab, x, K, M);
}
HARNESS(chisquare, 2, 2, "chi-square: every number of degrees of freedom >= 1 (as a real number), both modes") {
    int k = c.token("k", 1);
    R K = R(k);
    if (conf) do_chi<R, PE>(c, k, K, "chi-square"); else do_chi<R, PM>(c, k, K, "chi-square");
}
HARNESS(chisquare_small, 2, 2, "chi-square with the actual integers -3..40, and others up to the extreme ones: rejected, zero, moments") {
    accept<R>();
    auto go = [&](auto one) {
        using U = decltype(one);
        for (int k = -3; k <= 40; ++k) {
            U x;
            bool t = sym::throws<std::invalid_argument>([&] { x = unc::distr::chisquare<U>(k); });
            c.truth(S("k = ", k, " throws iff negative"), t == (k < 0));
            if (k == 0) {
                c.truth("k = 0 is a number", x.isindep() && x.indepid() == 0);
                c.eq("k = 0 mean", x.n(), R(0)); c.eq("k = 0 variance", x.m(2), R(0));
            }
            if (k > 0) do_chi<R, U::prop_mode>(c, k, R(k), S("k = ", k));
        }
        for (int k : {41, 64, 100, 127, 128, 200, 255, 256, 1000, 1023, 1024, 4096, 32767, 32768, 46340, 46341, 65535, 65536, 99999, 1000000, 44739243, 178956971, 536870912, 1073741824, 2147483646, 2147483647})
            do_chi<R, U::prop_mode>(c, k, R((double)k), S("k = ", k));
        for (int k : {-4, -10, -100, -32768, -65536, -1000000, -2147483647 - 1})
            c.truth(S("k = ", k, " throws"), sym::throws<std::invalid_argument>([&] { (void)unc::distr::chisquare<U>(k); }));
    };
    if (conf) go(unc::UReal2<R, PE>()); else go(unc::UReal2<R, PM>());
}
