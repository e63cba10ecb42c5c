#include "rnd.hpp"
#include "common2.hpp"
#include "mathspec.hpp"
#include <uncertainties/math.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/impl.hpp>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;
using std::abs; using std::sqrt; using std::exp; using std::log1p;

// a number of the type: 0 or of magnitude lo..hi
template<class R> static typename Num<R>::N number(sym::Ctx<R> &c, const std::string &nm, double lo = rnd::MIN, double hi = rnd::MAX, bool zero = true) {
    const R x = c.in(nm);
    c.assume_rel(x, LE, R(hi)); c.assume_rel(x, GE, R(-hi));
    if (!zero || !(x == R(0))) { if (x > R(0)) c.assume_rel(x, GE, R(lo)); else c.assume_rel(x, LE, R(-lo)); }
    return Num<R>::of(x);
}
template<class R> static typename Num<R>::N positive(sym::Ctx<R> &c, const std::string &nm, double lo = rnd::MIN, double hi = rnd::MAX) {
    const R x = c.pos(nm);
    c.assume_rel(x, LE, R(hi)); c.assume_rel(x, GE, R(lo));
    return Num<R>::of(x);
}
template<class U, class N> struct Make { static U go(const N &mu, const N &s) { return U(mu, s); } };
template<class N, unc::Prop P> struct Make<unc::UReal2<N, P>, N> {
    static unc::UReal2<N, P> go(const N &mu, const N &s) { return unc::UReal2<N, P>(mu, s, std::array<N, 6>{N(0), N(3), N(0), N(15), N(0), N(105)}, N(-1)); }
};
template<class U> struct Second: std::false_type {};
template<class N, unc::Prop P> struct Second<unc::UReal2<N, P>>: std::true_type {};
template<class N> static N centre(const unc::UReal<N> &x) { return x.n(); }
template<class N, unc::Prop P> static N centre(const unc::UReal2<N, P> &x) { return x.first_order_n(); }

// facts on exponential and logarithm that tie a value near a special point to an argument near it
template<class R> static void facts(sym::Ctx<R> &c, const typename Num<R>::E &x, int f) {
    if constexpr (sym::Ctx<R>::symbolic) {
        using namespace spec;
        if (f == EXP || f == EXP2 || f == EXPM1 || f == SINH || f == COSH || f == TANH || f == ERF || f == ERFC) {
            const R e = exp(x);
            c.assume_rel(e, GE, R(1) + x); c.assume_rel(e * (R(1) - x), LE, R(1));
        }
        if (f == LOG1P) { const R l = log1p(x); c.assume_rel(l, LE, x); c.assume_rel(l * (R(1) + x), GE, x); }
        if (f == LOG || f == LOG2 || f == LOG10) { const R l = log(x); c.assume_rel(l, LE, x - R(1)); c.assume_rel(l * x, GE, x - R(1)); }
    }
}
template<class U, class R> static void one(sym::Ctx<R> &c, int f) {
    using T = Num<R>; using N = typename T::N; using E = typename T::E;
    T::start(c, true, Second<U>::value);
    const N x = number(c, "x"), s = positive(c, "s", 1e-3, 1e3);
    const E e = T::exact(x);
    spec::domain1(c, f, T::back(e));
    facts(c, e, f);
    accurate(c, spec::name1[f], centre(U(spec::call1(f, Make<U, N>::go(x, s)))), E(spec::call1(f, e)));
}
HARNESS(functions1, 2 * spec::NFN1, 2 * spec::NFN1, "mean of each function of one variable at every double in its domain (zero and normal numbers), first and second order") {
    if (conf % 2) one<unc::UReal<typename Num<R>::N>>(c, conf / 2); else one<unc::UReal2<typename Num<R>::N, PM>>(c, conf / 2);
}
template<class U, class R> static void two(sym::Ctx<R> &c, int f, bool exact) {
    using T = Num<R>; using N = typename T::N; using E = typename T::E;
    T::start(c, true, Second<U>::value);
    const N x = number(c, "x"), y = number(c, "y"), s = positive(c, "s", 1e-3, 1e3), t = positive(c, "t", 1e-3, 1e3);
    const E e = T::exact(x), g = T::exact(y);
    spec::domain2(c, f, T::back(e), T::back(g));
    const U a = Make<U, N>::go(x, s), b = exact ? U(y) : Make<U, N>::go(y, t);
    accurate(c, spec::name2[f], centre(U(spec::call2(f, a, b))), E(spec::call2(f, e, g)));
}
HARNESS(functions2, 4 * spec::NFN2, 4 * spec::NFN2, "mean of each function of two variables at every pair of doubles in its domain (zero and normal numbers), second argument uncertain or exact, first and second order") {
    if (conf % 2) two<unc::UReal<typename Num<R>::N>>(c, conf / 4, conf / 2 % 2); else two<unc::UReal2<typename Num<R>::N, PM>>(c, conf / 4, conf / 2 % 2);
}
template<class U, class A, class B> static U arith(int op, const A &a, const B &b) { return op == 0 ? U(a + b) : op == 1 ? U(a - b) : op == 2 ? U(a * b) : U(a / b); }
template<class N> static unc::UReal<N> inplace(int op, unc::UReal<N> a, const unc::UReal<N> &b) { switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; default: a /= b; } return a; }
template<class N, unc::Prop P> static unc::UReal2<N, P> inplace(int op, const unc::UReal2<N, P> &a, const unc::UReal2<N, P> &b) { return arith<unc::UReal2<N, P>>(op, a, b); }
template<class U, class R> static void operation(sym::Ctx<R> &c, int op, int how) {
    using T = Num<R>; using N = typename T::N; using E = typename T::E;
    T::start(c, true, Second<U>::value);
    const N x = number(c, "x"), y = number(c, "y", rnd::MIN, rnd::MAX, op != 3), s = positive(c, "s", 1e-3, 1e3), t = positive(c, "t", 1e-3, 1e3);
    const U a = Make<U, N>::go(x, s), b = Make<U, N>::go(y, t);
    const U z = how == 0 ? arith<U>(op, a, b) : how == 1 ? arith<U>(op, a, y) : how == 2 ? arith<U>(op, x, b) : how == 3 ? inplace(op, a, b) : inplace(op, a, U(y));
    accurate(c, S("operator ", op, " form ", how), centre(z), E(op == 0 ? T::exact(x) + T::exact(y) : op == 1 ? T::exact(x) - T::exact(y) : op == 2 ? T::exact(x) * T::exact(y) : T::exact(x) / T::exact(y)));
}
HARNESS(operators, 40, 40, "mean of + - * / and their in-place forms at every pair of doubles (zero and normal numbers), with a number on either side, first and second order") {
    if (conf % 2) operation<unc::UReal<typename Num<R>::N>>(c, conf / 2 % 4, conf / 8); else operation<unc::UReal2<typename Num<R>::N, PM>>(c, conf / 2 % 4, conf / 8);
}
// deviation of what depends on one variable: |slope| times its deviation
HARNESS(deviations, 14, 14, "deviation of a first-order variable, its copies, multiples and one-variable results, asked once or repeatedly, every deviation and slope among the normal numbers for what is independent, magnitudes 1e-70..1e70 for what keeps squares; gradient recovered") {
    using T = Num<R>; using N = typename T::N; using E = typename T::E; using U = unc::UReal<N>;
    T::start(c, true);
    const bool slope = conf >= 4 && conf < 10, all = conf < 3 || conf == 8 || conf == 9 || conf == 12;
    const double lo = all ? rnd::MIN : 1e-70, hi = all ? rnd::MAX : 1e70;   // (general results keep squares)
    const N mu = number(c, "mu"), s = positive(c, "s", lo, hi);
    const N k = slope ? number(c, "k", lo, hi, false) : N(1);
    const E S0 = T::exact(s), K = abs(T::exact(k));
    const U x(mu, s);
    auto say = [&](const char *lab, U z, const E &want) {
        const U w = z;
        accurate(c, std::string(lab) + " s", w.s(), want);
        accurate(c, std::string(lab) + " s, caching", z.s(), want);
        accurate(c, std::string(lab) + " s again", z.s(), want);
        accurate(c, std::string(lab) + " sdev", N(unc::sdev(z)), want);
    };
    switch (conf) {
    case 0: say("variable", x, S0); accurate(c, "mean", x.n(), E(T::exact(mu))); break;
    case 1: say("negated", -x, S0); say("plus", +x, S0); break;
    case 2: say("moved", U(change_nom(x, N(3))), S0); break;
    case 3: { U z = x; z += U(2); say("shifted", z, S0); break; }
    case 4: say("multiple", x * k, S0 * K); break;
    case 5: say("multiple", k * x, S0 * K); break;
    case 6: { U z = x; z *= U(k); say("multiple", z, S0 * K); break; }
    case 7: say("quotient", x / k, S0 / K); break;
    case 8: say("result", unary(x, mu, k), S0 * K); break;
    case 9: { U z = unary(x, mu, k); c.assume_rel(T::back(S0 * K), LE, R(1e300)); c.assume_rel(T::back(S0 * K), GE, R(1e-300)); accurate(c, "gradient", z.grad(x), E(T::exact(k))); break; }
    case 10: say("half", x / N(2), S0 / E(2)); break;
    case 11: say("sum with itself", x + x, S0 * E(2)); break;
    case 12: say("number of deviation 0", U(mu), E(0)); break;
    default: { c.assume_rel(T::back(S0), LE, R(1e150)); c.assume_rel(T::back(S0), GE, R(1e-150)); U z = x; accurate(c, "variance", N(var(z)), S0 * S0); accurate(c, "variance of a constant", N(var(static_cast<const U &>(z))), S0 * S0); accurate(c, "covariance with itself", N(cov(x, x)), S0 * S0); }
    }
}
// sums of squares: no overflow or underflow on the way (rounding left out)
HARNESS(independent, 16, 16, "deviation, variance, covariance of + - * / of two independent first-order variables and of general results, magnitudes 1e-60..1e60 and deviations within, range of the type only") {
    using T = Num<R>; using N = typename T::N; using E = typename T::E; using U = unc::UReal<N>;
    T::start(c, false);
    const N x = number(c, "x", 1e-60, 1e60, false), y = number(c, "y", 1e-60, 1e60, false), s = positive(c, "s", 1e-60, 1e60), t = positive(c, "t", 1e-60, 1e60);
    const E X = T::exact(x), Y = T::exact(y), SS = T::exact(s), TT = T::exact(t);
    const U a(x, s), b(y, t);
    const int op = conf % 4, what = conf / 4;
    if (op == 3) { c.assume_rel(T::back(abs(Y)), GE, R(1e-20)); c.assume_rel(T::back(abs(Y)), LE, R(1e20)); }
    U z = arith<U>(op, a, b);
    const E dx = op < 2 ? E(1) : op == 2 ? Y : E(1) / Y, dy = op == 0 ? E(1) : op == 1 ? E(-1) : op == 2 ? X : -X / (Y * Y);
    const E v = dx * dx * SS * SS + dy * dy * TT * TT;
    const std::string lab = S("operator ", op);
    switch (what) {
    case 0: { const N d = z.s(); accurate(c, lab + " deviation", N(d * d), v, 64); break; }
    case 1: accurate(c, lab + " variance", N(var(z)), v, 64); break;
    case 2: accurate(c, lab + " covariance", N(cov(z, a)), E(dx * SS * SS), 64); break;
    default: accurate(c, lab + " covariance", N(cov(a, z)), E(dx * SS * SS), 64);
    }
}
