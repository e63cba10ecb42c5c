#include "wide.hpp"
#include "common2.hpp"
#include "mathspec.hpp"
#include <uncertainties/math.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/impl.hpp>
namespace Eigen {
#define EIGSTUB(T) template<> class SelfAdjointEigenSolver<Matrix<wide::Wide<T>, 5, 5>> : public SymEigStub<wide::Wide<T>> { public: using SymEigStub<wide::Wide<T>>::SymEigStub; };
EIGSTUB(sym::Sym) EIGSTUB(double) EIGSTUB(long double)
#undef EIGSTUB
}
template<class W> static void yes() { auto &st = eigstub::state<W>(); for (int i = 0; i < 5; ++i) st.ev(i) = W(1); }
template<class R> static void accept() { yes<wide::Wide<R>>(); yes<R>(); }
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// numbers drawn as R, or wrapped
template<class W> struct Num { using R = W; static W of(const R &x) { return x; } static R raw(const W &x) { return x; } };
template<class T> struct Num<wide::Wide<T>> { using R = T; static wide::Wide<T> of(const T &x) { return wide::Wide<T>::of(x); } static T raw(const wide::Wide<T> &x) { return x.v; } };
template<class W> struct Draw {
    using R = typename Num<W>::R;
    sym::Ctx<R> &c;
    std::vector<W> out;                       // what the operations returned
    explicit Draw(sym::Ctx<R> &c): c(c) {}
    W in(const std::string &n) { return Num<W>::of(c.in(n)); }
    W pos(const std::string &n) { return Num<W>::of(c.pos(n)); }
    W nonzero(const std::string &n) { return Num<W>::of(c.nonzero(n)); }
    void nz(const W &x) { c.assume_rel(Num<W>::raw(x), NE, R(0)); }
    void say(const W &x) { out.push_back(x); }
    void say(const std::vector<W> &v) { for (const W &x : v) out.push_back(x); }
    template<size_t n> void say(const std::array<W, n> &v) { for (const W &x : v) out.push_back(x); }
    void say(const unc::UReal<W> &x) { out.push_back(x.n()); }
    template<unc::Prop P> void say(const unc::UReal2<W, P> &x) { out.push_back(x.first_order_n()); }
};
// the numbers of a first-order variable: mean, covariances with the base variables
template<class W> static void tell(Draw<W> &d, const unc::UReal<W> &x, const std::vector<unc::UReal<W>> &b) { d.say(x); for (auto &y : b) d.say(cov(x, y)); }
template<class W, unc::Prop P> static void tell(Draw<W> &d, const unc::UReal2<W, P> &x, const std::vector<unc::UReal2<W, P>> &b) { d.say(x); for (auto &y : b) { d.say(x.grad(y)); d.say(x.hess(y, y)); } d.say(x.m(1)); }

// F(Draw<W>&) with the numbers as they are, and wrapped
template<class R, class F> static void watch(sym::Ctx<R> &c, const std::string &lab, const F &f) {
    wide::narrowed = wide::crude = 0;
    Draw<wide::Wide<R>> d(c);
    f(d);
    c.truth(lab + ": no value passes through a narrower type", wide::narrowed == 0);
    c.truth(lab + ": no constant less precise than the type", wide::crude == 0);
#ifndef WIDE_ONLY
    Draw<R> e(c);
    f(e);
    c.truth(lab + ": as many results", d.out.size() == e.out.size());
    if (d.out.size() == e.out.size()) for (size_t i = 0; i < d.out.size(); ++i) c.eq(lab + S(": result ", i), d.out[i].v, e.out[i]);
#endif
}
template<class W> static unc::UReal<W> kind1(Draw<W> &d, int k, const std::string &nm, const std::vector<unc::UReal<W>> &b) {
    using U = unc::UReal<W>;
    switch (k) {
    case 0: return U(d.in(nm + "_m"));
    case 1: return b[0];
    case 2: return unary(b[1], d.in(nm + "_m"), d.in(nm + "_d"));
    default: return binary(b[0], b[1], d.in(nm + "_m"), d.nonzero(nm + "_d"), d.nonzero(nm + "_e"));
    }
}
constexpr int NOP1 = 16;
template<class W> static void first(Draw<W> &d, int conf) {
    using U = unc::UReal<W>;
    const int op = conf % NOP1;
    const bool vary = conf / NOP1 % 4 && conf / NOP1 / 4;
    std::vector<U> b; U x, y;
    for (int i = 0; i < 2; ++i) b.push_back(U(d.in(S("mu", i)), d.pos(S("sg", i))));
    x = kind1<W>(d, conf / NOP1 % 4, "x", b); y = kind1<W>(d, conf / NOP1 / 4, "y", b);
    const U &X = x, &Y = y;
    auto T = [&](const U &z) { tell(d, z, b); };
    T(x);
    switch (op) {
    case 0: d.say(X.n()); (void)X.isindep(); (void)X.indepid(); T(change_nom(X, d.in("n"))); d.say(nom(X)); break;
    case 1: d.say(X.s()); d.say(var(X)); d.say(x.s()); d.say(var(x)); d.say(sdev(X)); break;
    case 2: d.say(cov(X, Y)); break;
    case 3: if (vary) d.say(corr(X, Y)); break;
    case 4: d.say(x.grad(b[0])); d.say(x.grad(b[1])); break;
    case 5: T(unary(X, d.in("m"), d.in("d"))); T(binary(X, Y, d.in("m"), d.in("d"), d.in("e"))); break;
    case 6: { std::vector<U> v{x, y, b[0]}; std::vector<W> ds{d.in("d"), d.in("e"), d.in("f")}; T(nary(v.begin(), v.end(), d.in("m"), ds.begin())); } break;
    case 7: T(X + Y); T(X - Y); T(-X); T(+X); break;
    case 8: T(X * Y); T(X * W(2)); T(W(3) + X); break;
    case 9: d.nz(Y.n()); T(X / Y); T(W(1) / Y); break;
    case 10: x += Y; x -= b[0]; x *= Y; T(x); break;
    case 11: d.nz(Y.n()); x /= Y; T(x); x.binary_assign(Y, d.in("m"), d.in("d"), d.in("e")); x.binary_assign(X, d.in("m"), d.in("d"), d.in("e")); T(x); break;
    case 12: break;
    case 13: { std::vector<U> v{x, y}; d.say(unc::cov_matrix<std::vector<W>>(v)); d.say(unc::nom_vector<std::vector<W>>(v)); if (vary) d.say(unc::corr_matrix<std::vector<W>>(v)); } break;
    case 14: { unc::Unary<W> f = [](const W &t) -> W { return t * t; }; T(unc::uunary<W>(f, d.pos("step"))(X)); T(unc::uunary<W>(f)(X)); } break;
    default: { unc::Binary<W> f = [](const W &t, const W &u) -> W { return t * u; }; T(unc::ubinary<W>(f, d.pos("step"))(X, Y)); T(unc::ubinary<W>(f)(X, Y)); }
    }
}
HARNESS(first_order, NOP1 * 16, NOP1 * 16, "constructors, operators, propagation, questions, numerical derivatives, matrices; 4 x 4 kinds of operand over 2 base variables, numbers symbolic") {
    watch(c, S("operation ", conf % NOP1), [&](auto &d) { first(d, conf); });
}
template<class W, unc::Prop P> static unc::UReal2<W, P> kind2(Draw<W> &d, int k, const std::string &nm, const std::vector<unc::UReal2<W, P>> &b) {
    using U = unc::UReal2<W, P>;
    switch (k) {
    case 0: return U(d.in(nm + "_m"));
    case 1: return b[0];
    case 2: return unary(b[1], d.in(nm + "_m"), d.in(nm + "_d"), d.nonzero(nm + "_h"));
    default: return binary(b[0], b[1], d.in(nm + "_m"), d.in(nm + "_d"), d.in(nm + "_e"), d.nonzero(nm + "_h"), W(1), d.nonzero(nm + "_k"));
    }
}
constexpr int NOP2 = 15;
template<unc::Prop P, class W> static void second(Draw<W> &d, int conf) {
    using U = unc::UReal2<W, P>;
    const int op = conf % NOP2, kx = conf / NOP2 % 4, ky = conf / NOP2 / 4;
    std::vector<U> b; U x, y;
    for (int i = 0; i < 2; ++i) { std::array<W, 6> m; for (int k = 0; k < 6; ++k) m[k] = d.in(S("v", k + 3, "_", i)); b.push_back(U(d.in(S("mu", i)), d.pos(S("sg", i)), m, W(-1))); }
    x = kind2<W, P>(d, kx, "x", b); y = kind2<W, P>(d, ky, "y", b);
    const U &X = x, &Y = y;
    auto T = [&](const U &z) { tell(d, z, b); };
    T(x);
    switch (op) {
    case 0: d.say(X.n()); d.say(X.first_order_n()); d.say(nom(X)); break;
    case 1: d.say(X.m(1)); d.say(X.m(2)); d.say(X.m(3)); d.say(X.m(4)); d.say(var(X)); break;
    case 2: if (kx == 1 && ky == 1) { d.say(X.s()); d.say(X.skew()); d.say(X.kurt()); d.say(corr(X, Y)); d.say(sdev(X)); } break;
    case 3: d.say(cov(X, Y)); break;
    case 4: d.say(X.grad(b[0])); d.say(X.hess(b[0], b[1])); d.say(X.hess(b[1], b[1])); break;
    case 5: T(unary(X, d.in("m"), d.in("d"), d.nonzero("h"))); break;
    case 6: T(binary(X, Y, d.in("m"), d.in("d"), d.in("e"), d.nonzero("h"), W(1), d.nonzero("k"))); break;
    case 7: { U z = X; binary_assign(z, Y, d.in("m"), d.in("d"), d.in("e"), d.nonzero("h"), W(1), d.nonzero("k")); T(z); } break;
    case 8: T(X + Y); T(X - Y); T(-X); T(+X); break;
    case 9: T(X * Y); T(X * W(2)); T(W(3) + X); break;
    case 10: d.nz(Y.first_order_n()); T(X / Y); break;
    case 11: { unc::UReal2<W, P == PM ? PE : PM> q(X); d.say(q); } break;
    case 12: { std::vector<U> v{x, y}; d.say(unc::cov_matrix<std::vector<W>>(v)); d.say(unc::nom_vector<std::vector<W>>(v)); } break;
    case 13: { unc::Unary<W> f = [](const W &t) -> W { return t * t; }; T(unc::uunary2<W, P>(f, d.pos("step"))(X)); T(unc::uunary2<W, P>(f)(X)); T(unc::uunary2<W, P>(f, f)(X)); } break;
    default: { unc::Binary<W> f = [](const W &t, const W &u) -> W { return t * u; }; T(unc::ubinary2<W, P>(f, d.pos("step"))(X, Y)); T(unc::ubinary2<W, P>(f)(X, Y)); }
    }
}
HARNESS(second_order, NOP2 * 16, NOP2 * 16, "the same for second-order variables, modes alternating") {
    if ((conf + conf / NOP2) % 2) watch(c, S("operation ", conf % NOP2), [&](auto &d) { second<PE>(d, conf); });
    else watch(c, S("operation ", conf % NOP2), [&](auto &d) { second<PM>(d, conf); });
}
HARNESS(conversions, 12, 12, "conversion between two numerical types of full precision: both classes, independent, derived, numbers") {
    using W = wide::Wide<R>; using V = wide::Wider<R>;
    wide::narrowed = wide::crude = 0;
    Draw<W> d(c);
    auto same = [&](const char *t, const W &a, const V &b) { c.eq(t, b.v, a.v); };
    const int k = conf % 4;
    if (conf < 4) {
        std::vector<unc::UReal<W>> b;
        for (int i = 0; i < 2; ++i) b.push_back(unc::UReal<W>(d.in(S("mu", i)), d.pos(S("sg", i))));
        const unc::UReal<W> x = kind1<W>(d, k, "x", b); const unc::UReal<V> y(x), z(b[0]);
        same("mean", x.n(), y.n()); same("variance", var(x), var(y)); same("covariance", cov(x, b[0]), cov(y, z));
    } else {
        auto go = [&](auto p) {
            constexpr unc::Prop P = decltype(p)::value;
            std::vector<unc::UReal2<W, P>> b;
            for (int i = 0; i < 2; ++i) { std::array<W, 6> m; for (int k = 0; k < 6; ++k) m[k] = d.in(S("v", k + 3, "_", i)); b.push_back(unc::UReal2<W, P>(d.in(S("mu", i)), d.pos(S("sg", i)), m, W(-1))); }
            const unc::UReal2<W, P> x = kind2<W, P>(d, k, "x", b); const unc::UReal2<V, P> y(x), z(b[0]);
            same("mean", x.n(), y.n()); same("variance", var(x), var(y)); same("third moment", x.m(3), y.m(3)); same("covariance", cov(x, b[0]), cov(y, z));
        };
        if (conf < 8) go(std::integral_constant<unc::Prop, PM>()); else go(std::integral_constant<unc::Prop, PE>());
    }
    c.truth("no value passes through a narrower type", wide::narrowed == 0);
    c.truth("no constant less precise than the type", wide::crude == 0);
}
HARNESS(functions, 2 * (spec::NFN1 + spec::NFN2), 2 * (spec::NFN1 + spec::NFN2), "every math function of both classes at every mean in its domain") {
    const int f = conf / 2;
    const R mx = c.in("mx"), my = c.in("my"), sx = c.pos("sx"), sy = c.pos("sy");
    if (f < spec::NFN1) spec::domain1(c, f, mx); else spec::domain2(c, f - spec::NFN1, mx, my);
    watch(c, f < spec::NFN1 ? spec::name1[f] : spec::name2[f - spec::NFN1], [&](auto &d) {
        using W = typename std::remove_reference<decltype(d.out[0])>::type;
        auto go = [&](auto x, auto y) {
            const std::vector<decltype(x)> b{x, y};
            if (f < spec::NFN1) tell(d, spec::call1(f, x), b); else tell(d, spec::call2(f - spec::NFN1, x, y), b);
        };
        if (conf % 2) go(unc::UReal<W>(d.in("mx"), d.pos("sx")), unc::UReal<W>(d.in("my"), d.pos("sy")));
        else { const std::array<W, 6> m{0, 3, 0, 15, 0, 105}; go(unc::UReal2<W, PM>(d.in("mx"), d.pos("sx"), m, W(-1)), unc::UReal2<W, PM>(d.in("my"), d.pos("sy"), m, W(-1))); }
    });
}
HARNESS(distributions, 6, 6, "distributions and the constructors from moments") {
    accept<R>();
    watch(c, S("distribution ", conf), [&](auto &d) {
        using W = typename std::remove_reference<decltype(d.out[0])>::type; using U = unc::UReal2<W, PM>;
        const W a = d.in("a"), s = d.pos("s");
        auto T = [&](const U &x) { d.say(x); for (int k = 1; k <= 4; ++k) d.say(x.m(k)); };
        switch (conf) {
        case 0: T(unc::distr::normal<U>(a, s)); break;
        case 1: T(unc::distr::uniform<U>(a, a + s)); break;
        case 2: T(unc::distr::chisquare<U>(3)); T(unc::distr::chisquare<U>(1)); break;
        case 3: { std::array<W, 7> m; for (int i = 0; i < 7; ++i) m[i] = i % 2 ? d.in(S("m", i)) : d.pos(S("m", i)); T(U(a, m, W(-1))); } break;
        case 4: { std::array<W, 8> m; for (int i = 0; i < 8; ++i) m[i] = d.in(S("m", i)); const auto cm = unc::internal::central_moments(m); d.nz(cm[0]); d.say(cm); d.say(unc::internal::std_moments(cm)); } break;
        default: { std::array<W, 6> m; for (int i = 0; i < 6; ++i) m[i] = d.in(S("m", i)); T(U(a, s, m, W(-1))); } break;
        }
    });
}
HARNESS(from_covariance, 4, 4, "1 and 2 variables from a covariance matrix, both orders of the diagonal, singular or not") {
    const int n = conf == 0 ? 1 : 2;
    const R a0 = c.pos("a"), e0 = conf == 3 ? R(0) : c.pos("e"), b0 = conf == 3 ? R(0) : c.in("b");
    if (n == 2) { c.assume_rel(a0 * e0, GE, b0 * b0); c.assume_rel(a0, GE, e0); }
    watch(c, "variables from a covariance matrix", [&](auto &d) {
        using W = typename std::remove_reference<decltype(d.out[0])>::type; using U = unc::UReal<W>;
        std::vector<W> mu, V(n * n);
        for (int i = 0; i < n; ++i) mu.push_back(d.in(S("mu", i)));
        const W a = d.pos("a"), e = conf == 3 ? W(0) : d.pos("e"), b = conf == 3 ? W(0) : d.in("b");
        if (n == 1) V[0] = a; else { V[conf == 2 ? 3 : 0] = a; V[conf == 2 ? 0 : 3] = e; V[1] = V[2] = b; }
        const std::vector<U> x = unc::ureals<std::vector<U>>(mu, V);
        for (auto &p : x) { d.say(p); for (auto &q : x) d.say(cov(p, q)); }
    });
}
