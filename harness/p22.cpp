#include "text.hpp"

// deviation s = m 10^k with 1 <= m < 10, mean = sign M 10^(k+r) with 1 <= M < 10 or 0, digits n + log10(t), 1 <= t < 10
template<class R> static void judge(sym::Ctx<R> &c, const std::string &s, const R &mu, const R &m, int k, const R &t, int n, const std::string &sep) {
    Text<R> T(s, sep);
    c.truth("form of the text", T.ok);
    if (!T.ok) return;
    Numeral<R> a(T.a), b(T.b);
    c.truth("form of the mean", a.ok);
    c.truth("form of the deviation", b.ok && !b.neg);
    if (!a.ok || !b.ok) return;
    c.truth("last digits at the same decimal place", a.decimals == b.decimals);
    const int place = T.exp - b.decimals;              // decimal place of the last digit of the deviation
    const R w = m * ten<R>(k - place), v = mu * ten<R>(T.exp * -1 + a.decimals);
    c.rel("deviation at most half a unit below", w - b.units(), LE, R(0.5));
    c.rel("deviation at most half a unit above", b.units() - w, LE, R(0.5));
    c.rel("mean at most half a unit below", v - a.units(), LE, R(0.5));
    c.rel("mean at most half a unit above", a.units() - v, LE, R(0.5));
    c.rel("first significant digit", b.first, GE, R(1));
    // number of digits: n or n + 1 as the leading digits (of the exact or of the rounded deviation) are above or below t;
    // a deviation that rounds up to the next power of ten has leading digits 1
    c.truth("number of digits is one of the two", b.nsig == n || b.nsig == n + 1);
    const bool carried = b.units() >= ten<R>(k + 1 - place);
    if (b.nsig == n) {
        // at least t, or the value it was rounded to is
        if (carried) c.rel("n digits: rounded deviation not below the fraction", R(1), GE, t);
        else c.rel("n digits: deviation not below the fraction", m, GE, t);
    } else {
        if (carried) c.rel("n+1 digits: rounded deviation below the fraction", R(1), LT, t);
        else c.rel("n+1 digits: deviation below the fraction", m, LT, t);
    }
}
// deviations of decade: quick tier the first NQ, thorough tier all
constexpr int KS[] = {-4, -2, -1, 0, 1, 2, 3, 4, -3, 5, -5, 6, -6, 7, -7, 8, -9, 10, -12, 12};
constexpr int NQ = 8, NT = 20, RLO = -3, RHI = 5, NR = 2 * (RHI - RLO + 1) + 1;
template<class R> static R mean_of(sym::Ctx<R> &c, int r, int k) {
    if (r == 0) return R(0);
    const R M = c.in("M");
    c.assume_rel(M, GE, R(1)); c.assume_rel(M, LT, R(10));
    const R mu = M * ten<R>(k + RLO + (r - 1) / 2);
    return r % 2 ? -mu : mu;
}
HARNESS(request, NQ * NR * 3, NT * NR * 5, "first order: s = m 10^k, 1<=m<10, k in {-4,-2..4} (thorough -12..12); mean 0 or +-M 10^(k+r), 1<=M<10, r=-3..5; digits n+log10(t), 1<=t<10, n=1..3 (thorough 5)") {
    const int r = conf % NR; conf /= NR;
    const int n = 1 + conf % (sym::thorough() ? 5 : 3); conf /= sym::thorough() ? 5 : 3;
    const int k = KS[conf];
    sym::digits_mode(true);
    const R m = c.in("m"), t = c.in("t");
    c.assume_rel(m, GE, R(1)); c.assume_rel(m, LT, R(10));
    c.assume_rel(t, GE, R(1)); c.assume_rel(t, LT, R(10));
    if (n == 1) c.assume_rel(t, GT, R(1));     // (exactly one digit is not accepted)
    const R mu = mean_of(c, r, k);
    unc::UReal<R> x(mu, m * ten<R>(k));
    using std::log10;
    const float errdig = float(R(n) + R(log10(t)));
    const std::string sep = k % 2 ? " +/- " : "|";
    judge(c, unc::format(x, errdig, sep), mu, m, k, t, n, sep);
}
// default request (1.5 digits) through format and the stream operator, both classes
template<class X, class R> static void defaults(sym::Ctx<R> &c, int conf, bool stream) {
    const int r = conf % NR, k = KS[conf / NR];
    sym::digits_mode(true);
    const R m = c.in("m");
    c.assume_rel(m, GE, R(1)); c.assume_rel(m, LT, R(10));
    const R mu = mean_of(c, r, k);
    X x;
    if constexpr (std::is_same<X, unc::UReal<R>>::value) x = X(mu, m * ten<R>(k));
    else {
        std::array<R, 6> sm; for (auto &v : sm) v = R(3);
        x = X(mu, m * ten<R>(k), sm, R(-1));
    }
    std::string s;
    if (stream) { std::ostringstream os; os << x; s = os.str(); } else s = unc::format(x);
    using std::sqrt;
    judge(c, s, mu, m, k, R(sqrt(R(10))), 1, " ± ");
}
HARNESS(default1, 3 * NR, 14 * NR, "default request and separator, first order, m, M, r as above; k in {-4,-2,-1} (thorough -6..7)") { defaults<unc::UReal<R>>(c, conf, false); }
HARNESS(stream1, 3 * NR, 14 * NR, "stream operator, first order, m, M, r as above; k in {-4,-2,-1} (thorough -6..7)") { defaults<unc::UReal<R>>(c, conf, true); }
HARNESS(default2, 3 * NR, 14 * NR, "default request, second order (moments-as-mean mode)") { defaults<unc::UReal2<R, unc::Prop::mean>>(c, conf, false); }
HARNESS(stream2, 3 * NR, 14 * NR, "stream operator, second order (estimate mode)") { defaults<unc::UReal2<R, unc::Prop::est>>(c, conf, true); }
// far decades, many digits, far apart mean and deviation: {k, r (conf of mean_of) or decade of the mean minus k, n}
constexpr int FAR[][3] = {
    {15, 1, 1}, {16, 1, 2}, {20, -2, 1}, {30, 0, 2}, {38, 2, 1}, {99, 0, 1}, {100, 0, 2}, {101, -1, 1}, {150, 1, 1}, {300, 0, 1},
    {-10, 0, 2}, {-15, 1, 1}, {-16, 0, 2}, {-20, 2, 1}, {-38, -1, 1}, {-99, 0, 2}, {-100, 1, 1}, {-101, 0, 1}, {-150, 2, 2}, {-300, 0, 1},
    {0, 0, 4}, {0, 0, 6}, {0, 1, 8}, {0, -1, 10}, {1, 2, 12}, {-3, 0, 16}, {5, 1, 9}, {-8, 3, 7}, {2, 0, 20}, {0, -15, 16},
    {0, 8, 1}, {0, 12, 2}, {-3, 15, 1}, {-6, 9, 1}, {4, 8, 2}, {-12, 12, 1}, {0, 18, 1}, {-20, 25, 1},
    {0, -8, 1}, {3, -12, 2}, {-4, -9, 1}, {0, -20, 1}, {9, -10, 3}, {-20, 28, 1}, {100, -103, 2}, {-2, 6, 5}, {7, -6, 6}};
constexpr int NFAR = sizeof(FAR) / sizeof(FAR[0]);
HARNESS(far, NFAR, 2 * NFAR, "first order, 47 combinations of: s = m 10^k with k = -300..300, mean +-M 10^(k+r) with r = -103..28, digits n + log10(t) with n = 1..20; 1<=m,M,t<10") {
    const auto &q = FAR[conf % NFAR];
    const int k = q[0], n = q[2];
    sym::digits_mode(true);
    const R m = c.in("m"), t = c.in("t"), M = c.in("M");
    c.assume_rel(m, GE, R(1)); c.assume_rel(m, LT, R(10));
    c.assume_rel(t, GE, R(1)); c.assume_rel(t, LT, R(10));
    if (n == 1) c.assume_rel(t, GT, R(1));
    c.assume_rel(M, GE, R(1)); c.assume_rel(M, LT, R(10));
    const R a = M * ten<R>(k + q[1]), mu = (conf + conf / NFAR) % 2 ? -a : a;
    unc::UReal<R> x(mu, m * ten<R>(k));
    using std::log10;
    judge(c, unc::format(x, float(R(n) + R(log10(t))), "|"), mu, m, k, t, n, "|");
}
