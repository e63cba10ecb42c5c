#include "common2.hpp"
#include <uncertainties/impl.hpp>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// z = a u + h u^2 / 2 of a variable u with variance m[0] and central moments m[1..6] of order 3..8
template<class R, unc::Prop P> static void moments_of(sym::Ctx<R> &c, const std::string &lab, const unc::UReal2<R, P> &x, const R &n, const std::array<R, 7> &m) {
    c.eq(lab + " first-order mean", x.first_order_n(), n);
    c.eq(lab + " mean", x.n(), n);
    c.eq(lab + " m(1)", x.m(1), R(0));
    c.eq(lab + " variance", x.m(2), m[0]);
    c.eq(lab + " third moment", x.m(3), m[1]);
    c.eq(lab + " fourth moment", x.m(4), m[2]);
    c.truth(lab + " independent", x.isindep());
    auto M = [&](int k) -> R { return k == 0 ? R(1) : k == 1 ? R(0) : m[k - 2]; };
    R a = c.in("a"), h = c.in("h");
    auto z = unary(x, R(0), a, R(2) * h);
    // E[(a u + h u^2)^k]
    R e[5];
    int binom[5][5] = {{1}, {1, 1}, {1, 2, 1}, {1, 3, 3, 1}, {1, 4, 6, 4, 1}};
    for (int k = 1; k <= 4; ++k) {
        e[k] = R(0);
        for (int j = 0; j <= k; ++j) {          // j factors h u^2
            R t = R(binom[k][j]) * M(k + j);
            for (int q = 0; q < j; ++q) t = t * h;
            for (int q = j; q < k; ++q) t = t * a;
            e[k] += t;
        }
    }
    c.eq(lab + " quadratic function, mean correction", z.m(1), e[1]);
    c.eq(lab + " quadratic function, variance", z.m(2), e[2] - e[1] * e[1]);
    c.eq(lab + " quadratic function, third", z.m(3), e[3] - R(3) * e[1] * e[2] + R(2) * e[1] * e[1] * e[1]);
    c.eq(lab + " quadratic function, fourth (moments up to the eighth)", z.m(4),
         e[4] - R(4) * e[1] * e[3] + R(6) * e[1] * e[1] * e[2] - R(3) * e[1] * e[1] * e[1] * e[1]);
}
template<class R, unc::Prop P> static void both(sym::Ctx<R> &c) {
    auto &st = eigstub::state<R>();
    for (int i = 0; i < 5; ++i) st.ev(i) = R(1);
    R n = c.in("n"), s = c.pos("s");
    std::array<R, 6> v; std::array<R, 7> m;
    R sk = s * s; m[0] = sk;
    for (int k = 0; k < 6; ++k) { v[k] = c.in(S("v", k + 3)); sk = sk * s; m[k + 1] = v[k] * sk; }
    unc::UReal2<R, P> x(n, s, v, R(-1)), y(n, m, R(-1)), xc(n, s, v), yc(n, m);
    moments_of<R, P>(c, "standardized", x, n, m);
    moments_of<R, P>(c, "central", y, n, m);
    moments_of<R, P>(c, "standardized, checked", xc, n, m);
    moments_of<R, P>(c, "central, checked", yc, n, m);
    c.eq("standard deviation", x.s(), s); c.eq("standard deviation (central)", y.s(), s);
    c.eq("skewness", x.skew(), v[0]); c.eq("skewness (central)", y.skew(), v[0]);
    c.eq("kurtosis", x.kurt(), v[1]); c.eq("kurtosis (central)", y.kurt(), v[1]);
    c.eq("different variables are unrelated", cov(x, y), R(0));
    c.truth("different identities", x.indepid() != y.indepid() && x.indepid() != xc.indepid() && xc.indepid() != yc.indepid());
}
HARNESS(both_constructors, 2, 2, "both constructors, checked and unchecked, both modes: every mean, positive deviation and standardized moments 3..8") {
    if (conf) both<R, PE>(c); else both<R, PM>(c);
}
HARNESS(central, 2, 2, "construction from central moments with any nonnegative second moment; zero second moment gives an exact number") {
    R n = c.in("n");
    std::array<R, 7> m;
    m[0] = c.nonneg("m2");
    for (int k = 1; k < 7; ++k) m[k] = c.in(S("m", k + 2));
    auto go = [&](auto x) {
        if (m[0] == R(0)) {
            for (int k = 1; k <= 4; ++k) c.eq(S("zero second moment: m(", k, ")"), x.m(k), R(0));
            c.eq("zero second moment: mean", x.n(), n);
            c.eq("zero second moment: s", x.s(), R(0));
            auto z = unary(x, n, c.in("a"), c.in("h"));
            for (int k = 1; k <= 4; ++k) c.eq(S("function of it: m(", k, ")"), z.m(k), R(0));
        } else moments_of(c, "central", x, n, m);
    };
    if (conf) go(unc::UReal2<R, PE>(n, m, R(-1))); else go(unc::UReal2<R, PM>(n, m, R(-1)));
}
HARNESS(negative, 2, 2, "construction with any standard deviation: throws invalid_argument iff it is negative; zero deviation gives an exact number") {
    auto &st = eigstub::state<R>();
    for (int i = 0; i < 5; ++i) st.ev(i) = R(1);
    R n = c.in("n"), s = c.in("s");
    std::array<R, 6> v;
    for (int k = 0; k < 6; ++k) v[k] = c.in(S("v", k + 3));
    bool t0 = sym::throws<std::invalid_argument>([&] { unc::UReal2<R, PM> x(n, s, v, R(-1)); });
    bool t1 = sym::throws<std::invalid_argument>([&] { unc::UReal2<R, PE> x(n, s, v); });
    const bool neg = s < R(0);
    c.truth("unchecked: throws iff negative", t0 == neg);
    c.truth("checked: throws iff negative", t1 == neg);
    if (!neg) {
        unc::UReal2<R, PE> x(n, s, v, R(-1));
        c.eq("variance", var(x), s * s); c.eq("mean", x.n(), n);
        c.eq("m3", x.m(3), v[0] * s * s * s); c.eq("m4", x.m(4), v[1] * s * s * s * s);
    }
}
HARNESS(numbers, 2, 2, "numbers and default construction: no uncertainty at all") {
    auto go = [&](auto one) {
        using U = decltype(one);
        R n = c.in("n");
        U x(n), d; U imp = n;
        c.eq("number mean", x.n(), n); c.eq("implicit", imp.n(), n); c.eq("default mean", d.n(), R(0));
        for (int k = 1; k <= 4; ++k) { c.eq("number moments", x.m(k), R(0)); c.eq("default moments", d.m(k), R(0)); }
        c.eq("number s", x.s(), R(0));
        c.truth("no identity", x.isindep() && d.isindep() && x.indepid() == 0 && d.indepid() == 0);
    };
    if (conf) go(unc::UReal2<R, PE>()); else go(unc::UReal2<R, PM>());
}
