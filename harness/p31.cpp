#include "common2.hpp"
#include <uncertainties/impl.hpp>
#include <memory>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// everything a variable says about itself
template<class R> struct Says { R mu, n, s, m1, m2, m3; bool indep; unc::Id id; std::vector<R> g, h, cv; };
template<class R, unc::Prop P, int N> static Says<R> says(const Base2<R, P, N> &B, const unc::UReal2<R, P> &z, bool moments) {
    Says<R> t;
    t.mu = z.first_order_n(); t.indep = z.isindep(); t.id = z.indepid();
    for (int i = 0; i < N; ++i) { t.g.push_back(z.grad(B.b[i])); for (int j = i; j < N; ++j) t.h.push_back(z.hess(B.b[i], B.b[j])); }
    if (moments) { t.n = z.n(); t.m1 = z.m(1); t.m2 = z.m(2); for (int i = 0; i < N; ++i) t.cv.push_back(cov(z, B.b[i])); }
    return t;
}
template<class R> static void same(sym::Ctx<R> &c, const std::string &lab, const Says<R> &a, const Says<R> &b, bool moments) {
    c.truth(lab + ": identity", a.indep == b.indep && a.id == b.id);
    c.eq(lab + ": first-order mean", a.mu, b.mu);
    for (size_t i = 0; i < a.g.size(); ++i) c.eq(lab + S(": gradient ", int(i)), a.g[i], b.g[i]);
    for (size_t i = 0; i < a.h.size(); ++i) c.eq(lab + S(": Hessian ", int(i)), a.h[i], b.h[i]);
    if (!moments) return;
    c.eq(lab + ": mean", a.n, b.n); c.eq(lab + ": m(1)", a.m1, b.m1); c.eq(lab + ": m(2)", a.m2, b.m2);
    for (size_t i = 0; i < a.cv.size(); ++i) c.eq(lab + S(": covariance ", int(i)), a.cv[i], b.cv[i]);
}
constexpr int NOPS = 12, NQ = 4;
template<class R, unc::Prop P, int N> static void step(sym::Ctx<R> &c, const Base2<R, P, N> &B, unc::UReal2<R, P> &z, int op, int k) {
    using U = unc::UReal2<R, P>;
    auto in = [&](const char *s) { return c.in(S(s, k)); };
    switch (op) {
    case 0: z = unary(z, in("m"), in("d"), in("h")); break;
    case 1: z = binary(z, B.b[1], in("m"), in("d"), in("e"), in("h"), R(1), in("q")); break;
    case 2: z = z + B.b[0]; break;
    case 3: z = z * z; break;
    case 4: binary_assign(z, B.b[0], in("m"), in("d"), in("e"), in("h"), R(1), in("q")); break;
    case 5: { const U &r = z; z = r; break; }                                    // assigned to itself
    case 6: { U w(std::move(z)); z = std::move(w); break; }                      // moved away and back
    case 7: { U w = B.b[1]; std::swap(z, w); std::swap(w, z); z = z - B.b[1]; break; }
    case 8: { std::vector<U> v{z}; for (int i = 0; i < 3; ++i) v.push_back(v.back() * R(1)); z = v.back(); break; }   // through a growing container
    case 9: z = z - z; break;
    case 10: { const U t = B.b[1] - B.b[0]; z = t; break; }                      // overwritten with another value
    default: { U w = z; w = w * B.b[0]; w = -w; (void)w; break; }                // only a copy changes
    }
}
template<class R, unc::Prop P> static void ask(unc::UReal2<R, P> &z, const unc::UReal2<R, P> &b, int q, bool root) {
    const unc::UReal2<R, P> &cz = z;
    switch (q) {
    case 0: break;
    case 1: (void)z.n(); if (root) (void)z.s(); (void)var(z); break;
    case 2: (void)cz.m(2); (void)cz.m(3); if (root) { (void)cz.skew(); (void)cz.kurt(); } (void)cov(z, b); break;
    default: { auto y = z; (void)y.m(4); (void)y.grad(b); (void)y.hess(b, b); z = y; break; }
    }
}
// the same step, with a new object for the result
template<class R, unc::Prop P, int N> static unc::UReal2<R, P> fresh(sym::Ctx<R> &c, const Base2<R, P, N> &B, const unc::UReal2<R, P> &z, int op, int k) {
    auto in = [&](const char *s) { return c.in(S(s, k)); };
    switch (op) {
    case 0: return unary(z, in("m"), in("d"), in("h"));
    case 1: return binary(z, B.b[1], in("m"), in("d"), in("e"), in("h"), R(1), in("q"));
    case 4: return binary(z, B.b[0], in("m"), in("d"), in("e"), in("h"), R(1), in("q"));
    case 2: return z + B.b[0];
    case 3: return z * z;
    case 7: return z - B.b[1];
    case 8: return z * R(1) * R(1) * R(1);
    case 9: return z - z;
    case 10: return B.b[1] - B.b[0];
    default: return z;
    }
}
template<class R, unc::Prop P> static void history(sym::Ctx<R> &c, int conf, int len) {
    constexpr int N = 2;
    Base2<R, P, N> B(c, true);
    const int st = c.choose(3, "start");
    auto o = make_op2<R, P, N>(c, B, st == 0 ? 1 : st == 1 ? 4 : 6, "x");
    auto z = o.z;                             // z is updated and asked questions on the way, w is made anew
    std::vector<unc::UReal2<R, P>> snap{z}; std::vector<Says<R>> said{says<R, P, N>(B, z, true)};
    std::vector<std::unique_ptr<unc::UReal2<R, P>>> ws; ws.emplace_back(new unc::UReal2<R, P>(o.z));
    for (int k = 0; k < len; ++k) {
        ask<R, P>(z, B.b[0], c.choose(NQ, "query"), k == 0 && st == 0);
        step<R, P, N>(c, B, z, conf % NOPS, k);
        ws.emplace_back(new unc::UReal2<R, P>(fresh<R, P, N>(c, B, *ws.back(), conf % NOPS, k)));
        conf /= NOPS;
        snap.push_back(z); said.push_back(says<R, P, N>(B, z, k == 0));
    }
    const auto &w = *ws.back();
    same(c, "updated and asked, or made anew", says<R, P, N>(B, z, true), says<R, P, N>(B, w, true), true);
    for (size_t i = 0; i < snap.size(); ++i) same(c, S("copy taken after step ", int(i)), says<R, P, N>(B, snap[i], i < 2), said[i], i < 2);
    for (int i = 0; i < N; ++i) {             // the operands are what they were
        c.eq(S("base ", i, " mean"), B.b[i].first_order_n(), B.mu[i]);
        for (int j = 0; j < N; ++j) c.eq(S("base ", i, " gradient ", j), B.b[i].grad(B.b[j]), R(i == j ? 1 : 0));
        c.eq(S("base ", i, " variance"), var(B.b[i]), B.sg[i] * B.sg[i]);
    }
}
HARNESS(histories, NOPS * NOPS, NOPS * NOPS * NOPS, "histories of 2 (thorough 3) of 12 operations (functions, operators, in-place update, self-assignment, overwriting, moves, swaps, containers, changes of a copy) from 3 kinds of start, each step preceded by one of 4 question patterns, a copy kept after every step; both modes; numbers symbolic") {
    const int len = sym::thorough() ? 3 : 2;
    if ((conf + conf / NOPS) % 2) history<R, PE>(c, conf, len); else history<R, PM>(c, conf, len);
}
HARNESS(operands, NK2_2 * NK2_2, NK2_2 * NK2_2, "every pair of operand kinds over 2 base variables as operands of every operation and question") {
    auto go = [&](auto one) {
        using U = decltype(one);
        constexpr unc::Prop P = U::prop_mode;
        Base2<R, P, 2> B(c, true);
        auto x = make_op2<R, P, 2>(c, B, conf % NK2_2, "x"), y = make_op2<R, P, 2>(c, B, conf / NK2_2, "y");
        const U &X = x.z, &Y = y.z;
        auto a = X + Y, b = X - Y, d = X * Y, e = -X; auto f = unary(X, R(0), c.in("d"), c.in("h"));
        auto g = binary(X, Y, R(0), c.in("d"), c.in("e"), c.in("h"), c.in("k"), c.in("q"));
        U k = X; binary_assign(k, Y, R(0), R(1), R(2), R(3), R(4), R(5));
        (void)cov(X, Y); (void)var(X); (void)X.n(); (void)Y.m(3);
        auto cx = [&](const std::string &l, const Op2<R, P> &o) { check_gh<R, P, 2>(c, l, B, o.z, o.mean, o.g, o.h); };
        cx("left", x); cx("right", y);
    };
    if (conf % 2) go(unc::UReal2<R, PE>()); else go(unc::UReal2<R, PM>());
}
// deviation, skewness and kurtosis asked before and after each operation
HARNESS(roots, NOPS * NOPS, NOPS * NOPS, "the same operations on one standard normal variable (plus constants), 2 in a row, deviation, skewness and kurtosis asked or not after each") {
    auto go = [&](auto one) {
        using U = decltype(one);
        constexpr unc::Prop P = U::prop_mode;
        Base2<R, P, 2> B(c, true);
        const std::array<R, 6> nrm{R(0), R(3), R(0), R(15), R(0), R(105)};
        B.b[0] = U(B.mu[0], R(1), nrm, R(-1)); B.b[1] = U(B.mu[1]);
        U z = B.b[0], w = z;
        for (int k = 0; k < 2; ++k) {
            const int op = k ? conf / NOPS : conf % NOPS;
            if (c.choose(2, "asked")) { (void)z.s(); (void)z.skew(); (void)z.kurt(); (void)z.n(); }
            step<R, P, 2>(c, B, z, op, k); step<R, P, 2>(c, B, w, op, k);
        }
        const U &cz = z;
        const R m2 = w.m(2), s = cz.s();
        c.eq("deviation", s * s, m2); c.rel("deviation sign", s, GE, R(0));
        c.eq("variance", var(cz), m2);
        c.eq("mean", cz.n(), w.n());
        c.eq("third moment", cz.m(3), w.m(3)); c.eq("fourth moment", cz.m(4), w.m(4));
        U t = z;
        c.eq("deviation of a copy", t.s() * t.s(), m2);
    };
    if ((conf + conf / NOPS) % 2) go(unc::UReal2<R, PE>()); else go(unc::UReal2<R, PM>());
}

#include "many2.hpp"
HARNESS(many_variables, 2 * NPAT2 * NOPS, 3 * NPAT2 * NOPS, "one operation of 12 on results over 5 and 8 (thorough: 12) base variables in 6 sparsity patterns, after questions and not, the copy taken before kept") {
    const int op = conf % NOPS, pat = conf / NOPS % NPAT2;
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value; constexpr unc::Prop P = PM;
        Base2<R, P, N> B(c, true, 1);
        auto x = make_many2<R, P, N>(c, B, pat, "x");
        auto z = x.z; const auto copy = x.z;
        const auto said = says<R, P, N>(B, x.z, true);
        const unc::UReal2<R, P> w = fresh<R, P, N>(c, B, x.z, op, 0);
        if ((op + pat) % 2) { (void)z.n(); (void)var(z); (void)z.m(2); (void)cov(z, B.b[0]); }
        if (op == 0 || op == 1 || op == 4) { c.assume_rel(c.in("h0"), NE, R(0)); c.assume_rel(c.in("q0"), NE, R(0)); }
        step<R, P, N>(c, B, z, op, 0);
        same(c, "updated and asked, or made anew", says<R, P, N>(B, z, true), says<R, P, N>(B, w, true), true);
        same(c, "copy taken before", says<R, P, N>(B, copy, true), said, true);
        same(c, "operand", says<R, P, N>(B, x.z, true), said, true);
    };
    switch (conf / NOPS / NPAT2) {
    case 0: go(std::integral_constant<int, 5>()); break;
    case 1: go(std::integral_constant<int, 8>()); break;
    default: go(std::integral_constant<int, 12>()); break;
    }
}
