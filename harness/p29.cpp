#include "text.hpp"

HARNESS(construct, 1, 1, "first order, any mean, any deviation") {
    const R n = c.in("n"), s = c.in("s");
    bool made = false;
    unc::UReal<R> x;
    const bool thrown = sym::throws<std::invalid_argument>([&] { x = unc::UReal<R>(n, s); made = true; });
    c.truth("throws or constructs", thrown != made);
    if (thrown) c.rel("rejected only if negative", s, LT, R(0));
    else {
        c.rel("accepted only if not negative", s, GE, R(0));
        c.eq("mean", x.n(), n); c.eq("deviation", x.s(), s); c.eq("mean through nom", nom(x), n); c.eq("deviation through sdev", sdev(x), s);
    }
}
// plain numbers: constructor with one argument and assignment
HARNESS(number, 1, 1, "any number converted to a variable") {
    const R n = c.in("n");
    unc::UReal<R> x(n), y = n; unc::UReal<R> z; z = n;
    for (auto *p : {&x, &y, &z}) { c.eq("mean", p->n(), n); c.eq("no deviation", p->s(), R(0)); c.truth("number", p->isindep() && p->indepid() == 0); }
    unc::UReal<R> d;
    c.eq("default mean", d.n(), R(0)); c.eq("default deviation", d.s(), R(0));
}
// quantities: 0 finite nonzero | 1 zero | 2 +inf | 3 -inf | 4 nan
template<class R> static R quantity(sym::Ctx<R> &c, int kind, const char *nm) {
    if (kind == 0) { const R x = c.in(nm); c.assume_rel(x, GE, R(1)); c.assume_rel(x, LT, R(9)); return x; }
    return kind == 1 ? R(0) : c.special(kind - 2);
}
static const char *const name[] = {"", "0", "inf", "-inf", "nan"};
template<class X, class R> static X make(const R &mu, const R &s) { return X(mu, s); }
HARNESS(specials, 25 * 2, 25 * 2, "every combination of finite, zero, infinite and nan mean and deviation; any digit request above 1") {
    const int a = conf % 5, b = conf / 5 % 5;
    if (b == 3) {       // minus infinity is not a deviation
        const R mu = quantity(c, a, "mu");
        c.truth("rejected", sym::throws<std::invalid_argument>([&] { unc::UReal<R>(mu, c.special(1)); }));
        return;
    }
    sym::digits_mode(true);
    const R mu = quantity(c, a, "mu"), s = quantity(c, b, "s");
    if (a <= 1 && b == 0) { c.truth("nothing special", true); return; }
    const R f = c.in("f"); c.assume_rel(f, GT, R(1)); c.assume_rel(f, LT, R(100));
    const std::string sep = conf / 25 ? "|" : " ± ", t = unc::format(unc::UReal<R>(mu, s), float(f), sep);
    const size_t p = t.find(sep);
    c.truth("separator", p != std::string::npos && t.find(sep, p + sep.size()) == std::string::npos);
    if (p == std::string::npos) return;
    const std::string l = t.substr(0, p), r = t.substr(p + sep.size());
    if (a) c.truth("mean by name", l == name[a]); else c.truth("mean in digits", !l.empty() && isdig<R>(l[0]));
    if (b) c.truth("deviation by name", r == name[b]); else c.truth("deviation in digits", !r.empty() && isdig<R>(r[0]));
}
HARNESS(digits, 26, 26, "any digit request below 1 (0.96 in conf 25), for every kind of mean and deviation") {
    const int a = conf % 5, b = conf / 5 % 5;
    if (b == 3) { c.truth("no such variable", true); return; }
    sym::digits_mode(true);
    const R mu = quantity(c, a, "mu"), s = quantity(c, b, "s");
    const R f = c.in("f"); c.assume_rel(f, LT, R(1));
    c.truth("rejected", sym::throws<std::invalid_argument>([&] { unc::format(unc::UReal<R>(mu, s), conf == 25 ? float(0.96) : float(f)); }));
}
