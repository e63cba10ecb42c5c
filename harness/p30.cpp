#include "text.hpp"

constexpr int KS[] = {-3, -2, -1, 0, 1, 2, 4, 5, 6, 7, -6, 3, -4, -5, 8, 9, 10, -8, -10, 12, -12, 15, 16, -15, 20, -20, 38, -38, 99, -99, 100, -100, 101, 300, -300};
constexpr int NQ = 35, NT = 35;
// text of x = sign M 10^k alone: a numeral, perhaps with exponent
template<class R> static void judge(sym::Ctx<R> &c, const std::string &text, const R &M, int k, bool neg) {
    std::string s = text; int e = 0;
    const size_t p = s.find('e');
    if (p != std::string::npos) {
        c.truth("form of the exponent", Text<R>::parse_exp(s.substr(p + 1), e));
        s = s.substr(0, p);
    }
    Numeral<R> a(s);
    c.truth("form", a.ok);
    if (!a.ok) return;
    c.truth("sign", a.neg == neg);
    c.truth("six digits", a.nsig == 6);
    c.rel("first digit", a.first, GE, R(1));
    const R w = M * ten<R>(k - e + a.decimals);
    c.rel("at most half a unit below", w - a.coef, LE, R(0.5));
    c.rel("at most half a unit above", a.coef - w, LE, R(0.5));
}
// conf: k x {mean of an exact number, of one with infinite, of one with nan deviation} x sign, or deviation next to infinite/nan mean
HARNESS(six, NQ * 9, NT * 9, "M 10^k, 1<=M<10, k in -12..12 (most) and 15, 16, 20, 38, 99..101, 300 of both signs, both signs as mean, and as deviation, first order; second order exact numbers") {
    const int k = KS[conf / 9]; conf %= 9;
    sym::digits_mode(true);
    const R M = c.in("M"); c.assume_rel(M, GE, R(1)); c.assume_rel(M, LT, R(10));
    const R x = M * ten<R>(k), mx = -x;
    const std::string sep = k % 2 ? "|" : " ± ";
    std::string t, other;
    bool neg = false, right = false;
    const float f = 3;
    switch (conf) {
    case 0: t = unc::format(unc::UReal<R>(x), f, sep); other = "0"; break;
    case 1: t = unc::format(unc::UReal<R>(mx), f, sep); other = "0"; neg = true; break;
    case 2: t = unc::format(unc::UReal<R>(x, c.special(0)), f, sep); other = "inf"; break;
    case 3: t = unc::format(unc::UReal<R>(mx, c.special(2)), f, sep); other = "nan"; neg = true; break;
    case 4: t = unc::format(unc::UReal<R>(c.special(0), x), f, sep); other = "inf"; right = true; break;
    case 5: t = unc::format(unc::UReal<R>(c.special(1), x), f, sep); other = "-inf"; right = true; break;
    case 6: t = unc::format(unc::UReal<R>(c.special(2), x), f, sep); other = "nan"; right = true; break;
    case 7: t = unc::format(unc::UReal2<R, unc::Prop::mean>(x), f, sep); other = "0"; break;
    default: t = unc::format(unc::UReal2<R, unc::Prop::est>(mx), f, sep); other = "0"; neg = true; break;
    }
    const size_t p = t.find(sep);
    c.truth("separator", p != std::string::npos);
    if (p == std::string::npos) return;
    const std::string l = t.substr(0, p), r = t.substr(p + sep.size());
    c.truth("other side", (right ? l : r) == other);
    judge(c, right ? r : l, M, k, neg);
}
