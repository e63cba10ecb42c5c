using float_ = float;   // (a macro in text.hpp)
#include "text.hpp"
// Formatting when log10 is that of floating point numbers (the logarithm of a number just below a power of ten may be
// rounded up to an integer) and powers of ten overflow and underflow like those of double.  The library gets N; the text
// is judged in J.  Violations are replayed with double.
template<class R> using Nm = std::conditional_t<sym::Ctx<R>::symbolic, R, double>;
template<class R> using Jd = std::conditional_t<sym::Ctx<R>::symbolic, R, long double>;
// relative distance below 10^K within which log10 of double is rounded up to K
static double reach(int K) {
    const double a = std::abs((double)K);
    return K == 0 ? 0 : 0.95 * 0.5 * std::min(a - std::nextafter(a, 0.0), std::nextafter(a, 1e9) - a) * std::log(10.0);
}
// digits of numbers of double beyond the sixteenth are noise
template<class J> static J noise(const J &x) { using std::abs; return J(abs(x)) * J(0x1p-46); }
template<class R> static void judge(sym::Ctx<R> &c, const std::string &s, const Nm<R> &mu, const Nm<R> &sd, int n) {
    using J = Jd<R>;
    Text<J> T(s, "|");
    c.truth("form of the text", T.ok);
    if (!T.ok) return;
    Numeral<J> a(T.a), b(T.b);
    c.truth("form of the mean", a.ok);
    c.truth("form of the deviation", b.ok && !b.neg);
    if (!a.ok || !b.ok) return;
    c.truth("last digits at the same decimal place", a.decimals == b.decimals);
    const int place = T.exp - b.decimals;
    const J w = J(sd) * ten<J>(-place), v = J(mu) * ten<J>(-place);
    c.rel("deviation at most half a unit below", R(w - b.units() - noise(w)), LE, R(0.5));
    c.rel("deviation at most half a unit above", R(b.units() - w - noise(w)), LE, R(0.5));
    c.rel("mean at most half a unit below", R(v - a.units() - noise(v)), LE, R(0.5));
    c.rel("mean at most half a unit above", R(a.units() - v - noise(v)), LE, R(0.5));
    c.truth("number of digits is one of the two", b.nsig == n || b.nsig == n + 1 || (n > 15 && b.nsig == n - 1));
}
template<class R> static Nm<R> near_ten(sym::Ctx<R> &c, const char *name, int K, double d) {      // 10^K (1 - u d), 1/2 <= u <= 1
    const R u = c.in(name);
    c.assume_rel(u, GE, R(0.5)); c.assume_rel(u, LE, R(1));
    return Nm<R>(ten<Jd<R>>(K) * (Jd<R>(1) - Jd<R>(u) * Jd<R>(d)));
}
template<class R> static Nm<R> in_decade(sym::Ctx<R> &c, const char *name, int k) {
    const R m = c.in(name);
    c.assume_rel(m, GE, R(1.01)); c.assume_rel(m, LE, R(9.99));
    return Nm<R>(Jd<R>(m) * ten<Jd<R>>(k));
}
template<class R> static void run(sym::Ctx<R> &c, const Nm<R> &mu, const Nm<R> &sd, int n, bool frac) {
    unc::UReal<Nm<R>> x(mu, sd);
    judge(c, unc::format(x, float(frac ? n + 0.5 : n), "|"), mu, sd, n);
}
// deviation just below 10^K, digits n (odd configurations + 1/2), mean 10^(K+r)
constexpr int BELOW[][3] = {{3, 0, 2}, {-3, 0, 2}, {9, 1, 2}, {-9, -2, 3}, {15, 0, 13}, {30, 2, 4}, {-30, 0, 14}, {-17, -1, 6}, {99, 1, 2}, {-100, 0, 3},
    {200, 0, 14}, {-250, 0, 15}, {300, 3, 2}, {-300, 0, 2}, {-300, 0, 14}, {300, -3, 14}, {5, 8, 4}, {-40, 12, 2}, {60, -12, 5}, {-120, 1, 16}};
constexpr int NB = sizeof(BELOW) / sizeof(BELOW[0]);
HARNESS(deviation_below_power, NB, 2 * NB, "deviation 10^K (1 - u d), d = distance at which log10 rounds up, 1/2<=u<=1; 20 combinations of K = -300..300, mean in decades K-12..K+12, 2..16 digits") {
    const auto &q = BELOW[conf % NB];
    const int K = q[0];
    const double d = reach(K);
    sym::digits_mode(true); sym::log_slack(2 * d);
    const auto sd = near_ten(c, "u", K, d);
    auto mu = in_decade(c, "M", K + q[1]);
    if (conf % 2) mu = -mu;
    run(c, mu, sd, q[2], (conf + conf / NB) % 2);
}
// mean just below 10^K, deviation 10^(K-g)
constexpr int MBELOW[][3] = {{3, 1, 2}, {-3, 0, 2}, {9, 5, 2}, {-9, 9, 3}, {15, 13, 1}, {-15, 13, 2}, {30, 14, 1}, {-30, 12, 2}, {17, -1, 2}, {99, 13, 1}, {-100, 13, 2},
    {-120, 5, 8}, {200, 14, 1}, {-250, 14, 2}, {300, 13, 2}, {-280, 14, 1}, {-290, 3, 9}, {300, -3, 2}, {5, -1, 1}, {-40, -2, 4}};
constexpr int NM = sizeof(MBELOW) / sizeof(MBELOW[0]);
HARNESS(mean_below_power, NM, 2 * NM, "mean +-10^K (1 - u d); 20 combinations of K = -290..300, deviation in decades K-14..K+3, 1..9 digits") {
    const auto &q = MBELOW[conf % NM];
    const int K = q[0];
    const double d = reach(K);
    sym::digits_mode(true); sym::log_slack(2 * d);
    auto mu = near_ten(c, "u", K, d);
    const auto sd = in_decade(c, "m", K - q[1]);
    if (conf % 2) mu = -mu;
    run(c, mu, sd, q[2], q[2] == 1 || (conf + conf / NM) % 2);
}
// numbers so small that ten to the opposite exponent overflows, and so large that their rounded text does
constexpr int RANGE[][3] = {{-305, -305, 2}, {-306, -305, 4}, {-307, -300, 3}, {-307, -307, 2}, {-300, -295, 9}, {-306, -306, 14}, {-290, -299, 10}, {-300, -290, 2}, {-307, -290, 1},
    {306, 306, 2}, {307, 307, 1}, {300, 307, 3}, {307, 300, 2}, {0, -307, 2}, {300, -307, 2}, {-295, -294, 13},
    {-310, -310, 2}, {-320, -318, 1}, {-323, -300, 1}, {-315, -300, 2}, {-300, -315, 3}, {-312, -309, 6}};
constexpr int NX = sizeof(RANGE) / sizeof(RANGE[0]);
HARNESS(range, NX, 2 * NX, "deviation m 10^k, mean M 10^j for 22 pairs of decades at the ends of the range of doubles, denormal ones included (-323..307), 1..14 digits") {
    const auto &q = RANGE[conf % NX];
    sym::digits_mode(true); sym::log_slack(0x1p-43);
    const auto sd = in_decade(c, "m", q[0]);
    auto mu = in_decade(c, "M", q[1]);
    if (conf % 2) mu = -mu;
    run(c, mu, sd, q[2], q[2] == 1 || (conf + conf / NX) % 2);
}
// the number of digits is chosen with the logarithm in single precision: deviations just further below a power of ten than
// the reach of that, which rounding to n digits brings within it
constexpr int SINGLE[] = {-300, 300, -100, 100, -40, 40, -10, 12};
HARNESS(single_log, 8 * 6, 8 * 6, "deviation within one unit of the n-th digit of the point below 10^K where its single precision logarithm is rounded up to K, K in {+-300, +-100, +-40, -10, 12}, n = 3..8") {
    const int K = SINGLE[conf / 6], n = 3 + conf % 6;
    const float_ f = std::abs(K);
    const double d = 0.5 * (K < 0 ? std::nextafter(f, 1e9f) - f : f - std::nextafter(f, 0.f)) * std::log(10.0);
    sym::digits_mode(true); sym::log_slack(d);
    const R u = c.in("u");                       // in units of the n-th digit, below 10^K (1 - d)
    c.assume_rel(u, GT, R(0)); c.assume_rel(u, LE, R(1));
    const double unit = std::pow(10.0, -n);
    const auto sd = Nm<R>(ten<Jd<R>>(K) * (Jd<R>(1) - Jd<R>(d) - Jd<R>(u) * Jd<R>(unit)));
    run(c, Nm<R>(0), sd, n, true);
}
// six digits of a number printed next to an exact zero or an infinite one
template<class R> static void judge6(sym::Ctx<R> &c, std::string s, const Nm<R> &x) {
    using J = Jd<R>;
    int ex = 0;
    const size_t e = s.rfind('e');
    bool ok = true;
    if (e != std::string::npos) { ok = Text<J>::parse_exp(s.substr(e + 1), ex); s = s.substr(0, e); }
    Numeral<J> a(s);
    c.truth("form of the number", ok && a.ok);
    if (!ok || !a.ok) return;
    const J w = J(x) * ten<J>(a.decimals - ex);
    c.rel("at most half a unit below", R(w - a.units() - noise(w)), LE, R(0.5));
    c.rel("at most half a unit above", R(a.units() - w - noise(w)), LE, R(0.5));
    c.truth("six digits", a.nsig == 6);
}
constexpr int SIX[] = {1, -1, 2, 5, 6, -2, -5, 7, 15, -15, 33, -33, 100, -100, 299, -299, 308, -307};
constexpr int SIXD[] = {-308, -310, -315, -320, -322, 307, -307, -300};
HARNESS(six_digits, 18 + 8, 18 + 8, "format of an exact number and of an infinitely uncertain one: 10^K (1 - u d) for 18 K = -307..308, and M 10^k for 8 decades at the ends of the range, denormal numbers included") {
    sym::digits_mode(true);
    Nm<R> x;
    if (conf < 18) {
        const double d = reach(SIX[conf]);
        sym::log_slack(2 * d);
        x = near_ten(c, "u", SIX[conf], d);
    } else {
        sym::log_slack(0x1p-43);
        x = in_decade(c, "M", SIXD[conf - 18]);
    }
    if (conf % 2) x = -x;
    const bool inf = conf / 2 % 2;
    const std::string t = unc::format(unc::UReal<Nm<R>>(x, inf ? Nm<R>(std::numeric_limits<double>::infinity()) : Nm<R>(0)), 2, "|");
    const size_t p = t.find('|');
    c.truth("form of the text", p != std::string::npos && t.substr(p) == (inf ? "|inf" : "|0"));
    if (p != std::string::npos) judge6(c, t.substr(0, p), x);
}
