#include "mathspec.hpp"
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// the same inputs in the two classes
template<class R, unc::Prop P, int N> struct Both {
    std::vector<R> mu, sg;
    std::vector<unc::UReal<R>> u;
    std::vector<unc::UReal2<R, P>> w;
    explicit Both(sym::Ctx<R> &c) {
        for (int i = 0; i < N; ++i) {
            mu.push_back(c.in(S("mu", i))); sg.push_back(c.pos(S("sg", i)));
            std::array<R, 6> m;
            for (int k = 0; k < 6; ++k) m[k] = c.in(S("v", k + 3, "_", i));
            u.push_back(unc::UReal<R>(mu[i], sg[i]));
            w.push_back(unc::UReal2<R, P>(mu[i], sg[i], m, R(-1)));
        }
    }
};
template<class R, unc::Prop P, int N> static void agree(sym::Ctx<R> &c, const std::string &lab, const Both<R, P, N> &B,
        const unc::UReal<R> &a_, const unc::UReal2<R, P> &b) {
    auto a = a_;   // (UReal::grad is not const)
    c.eq(lab + " first-order mean", b.first_order_n(), a.n());
    for (int i = 0; i < N; ++i) {
        c.eq(lab + S(" gradient ", i), b.grad(B.w[i]), a.grad(B.u[i]));
        c.eq(lab + S(" covariance and gradient ", i), cov(a, B.u[i]), b.grad(B.w[i]) * B.sg[i] * B.sg[i]);
    }
    c.truth(lab + " independence", a.isindep() == b.isindep());
}
template<class U> static U arith(int op, const U &x, const U &y) {
    switch (op) { case 0: return x + y; case 1: return x - y; case 2: return x * y; default: return x / y; }
}
template<class R, unc::Prop P> static void functions(sym::Ctx<R> &c, int f) {
    Both<R, P, 2> B(c);
    if (f < spec::NFN1) {
        spec::domain1(c, f, B.mu[0]);
        agree<R, P, 2>(c, spec::name1[f], B, spec::call1(f, B.u[0]), spec::call1(f, B.w[0]));
        // of a product
        R p = B.mu[0] * B.mu[1];
        spec::domain1(c, f, p);
        agree<R, P, 2>(c, S(spec::name1[f], " of a product"), B, spec::call1(f, B.u[0] * B.u[1]), spec::call1(f, B.w[0] * B.w[1]));
    } else {
        f -= spec::NFN1;
        spec::domain2(c, f, B.mu[0], B.mu[1]);
        agree<R, P, 2>(c, spec::name2[f], B, spec::call2(f, B.u[0], B.u[1]), spec::call2(f, B.w[0], B.w[1]));
        if (f == spec::HYPOT || f == spec::ATAN2) {
            R q = B.mu[0] - B.mu[1], r = B.mu[0] * B.mu[1];
            spec::domain2(c, f, q, r);
            agree<R, P, 2>(c, S(spec::name2[f], " of difference and product"), B,
                           spec::call2(f, B.u[0] - B.u[1], B.u[0] * B.u[1]), spec::call2(f, B.w[0] - B.w[1], B.w[0] * B.w[1]));
        }
    }
}
HARNESS(functions_mean, spec::NFN1 + spec::NFN2, spec::NFN1 + spec::NFN2, "every math function in both classes (mean mode), of inputs and of their product, at every mean in the domain") { functions<R, PM>(c, conf); }
HARNESS(functions_est, spec::NFN1 + spec::NFN2, spec::NFN1 + spec::NFN2, "the same, estimate mode") { functions<R, PE>(c, conf); }
// programs (x op1 y) op2 z with x, y, z any of three inputs or a number
HARNESS(arithmetic, 128, 1024, "programs (p op q) op r with p, q, r any of three inputs or an exact number (quick: 128 of 1024), divisors nonzero") {
    if (!sym::thorough()) conf = (conf * 131 + 7) % 1024;
    constexpr int N = 3;
    Both<R, PE, N> B(c);
    R k = c.in("k");
    auto u = [&](int i) { return i < N ? B.u[i] : unc::UReal<R>(k); };
    auto w = [&](int i) { return i < N ? B.w[i] : unc::UReal2<R, PE>(k); };
    int o1 = conf % 4, o2 = conf / 4 % 4, p = conf / 16 % 4, q = conf / 64 % 4, r = conf / 256 % 4;
    if (o1 == 3) c.assume_rel(u(q).n(), NE, R(0));
    if (o2 == 3) c.assume_rel(u(r).n(), NE, R(0));
    auto a = arith(o1, u(p), u(q)); auto b = arith(o1, w(p), w(q));
    agree<R, PE, N>(c, "p op q", B, a, b);
    auto a2 = arith(o2, a, u(r)); auto b2 = arith(o2, b, w(r));
    agree<R, PE, N>(c, "(p op q) op r", B, a2, b2);
    if (o2 != 3) agree<R, PE, N>(c, "r op (p op q)", B, arith(o2, u(r), a), arith(o2, w(r), b));
    agree<R, PE, N>(c, "-x", B, -a2, -b2);
    agree<R, PE, N>(c, "+x", B, +a2, +b2);
}
// no second derivatives: all of variance and covariance agree
HARNESS(linear, 27, 27, "linear programs on three inputs: the variance and covariances agree as well") {
    constexpr int N = 3;
    Both<R, PM, N> B(c);
    int i = conf % 3, j = conf / 3 % 3, l = conf / 9;
    R d = c.in("d"), m = c.in("m"), k = c.in("k"), e = c.in("e");
    auto a = unary(B.u[i], m, d) + B.u[j] - unc::UReal<R>(k) * B.u[l];
    auto b = unary(B.w[i], m, d, R(0)) + B.w[j] - unc::UReal2<R, PM>(k) * B.w[l];
    auto a2 = binary(a, B.u[j], m, d, e);
    auto b2 = binary(b, B.w[j], m, d, e, R(0), R(0), R(0));
    agree<R, PM, N>(c, "linear", B, a, b);
    agree<R, PM, N>(c, "linear binary", B, a2, b2);
    c.eq("mean", b.n(), a.n()); c.eq("mean, binary", b2.n(), a2.n());
    c.eq("variance", var(b), var(a));
    c.eq("variance, binary", var(b2), var(a2));
    c.eq("covariance", cov(b, b2), cov(a, a2));
    c.eq("standard deviation", b.s(), a.s());
    for (int q = 0; q < N; ++q) c.eq(S("covariance with input ", q), cov(b2, B.w[q]), cov(a2, B.u[q]));
}
// functions given by value and derivatives, chained: the second derivatives must not show in mean and gradient
template<class R, unc::Prop P> static void chained(sym::Ctx<R> &c, int conf) {
    constexpr int N = 2;
    Both<R, P, N> B(c);
    using U = unc::UReal<R>; using W = unc::UReal2<R, P>;
    auto start = [&](int k, const char *nm, U &u, W &w) {
        R m = c.in(S(nm, "_m"));
        switch (k) {
        case 0: u = U(m); w = W(m); break;
        case 1: u = B.u[0]; w = B.w[0]; break;
        case 2: { R d = c.in(S(nm, "_d")); u = unary(B.u[1], m, d); w = unary(B.w[1], m, d, c.nonzero(S(nm, "_h"))); } break;
        default: { R d = c.in(S(nm, "_d")), e = c.in(S(nm, "_e"));
            u = binary(B.u[0], B.u[1], m, d, e); w = binary(B.w[0], B.w[1], m, d, e, c.nonzero(S(nm, "_h")), R(0), c.nonzero(S(nm, "_k"))); }
        }
    };
    U u, v; W w, y;
    start(conf % 4, "x", u, w); start(conf / 4 % 4, "y", v, y); conf /= 16;
    for (int k = 0; k < 2; ++k, conf /= 6) {
        R m = c.in(S("m", k)), d = c.in(S("d", k)), e = c.in(S("e", k)), h = c.nonzero(S("h", k)), q = c.in(S("q", k));
        switch (conf % 6) {
        case 0: u = unary(u, m, d); w = unary(w, m, d, h); break;
        case 1: u = binary(u, v, m, d, e); w = binary(w, y, m, d, e, h, h, q); break;
        case 2: u = binary(v, u, m, d, e); w = binary(y, w, m, d, e, q, h, h); break;
        case 3: u.binary_assign(v, m, d, e); binary_assign(w, y, m, d, e, h, q, h); break;
        case 4: u = binary(u, u, m, d, e); w = binary(w, w, m, d, e, h, R(0), q); break;
        default: u *= v; u -= B.u[0]; w = w * y - B.w[0]; break;
        }
        agree<R, P, N>(c, S("step ", k), B, u, w);
    }
}
HARNESS(chained_derivatives, 576, 576, "two steps in a row of 6 ways (one and two arguments, in place, with itself, operators), from every pair of 4 kinds of variable over 2 inputs; all values and derivatives symbolic, modes alternating") {
    if ((conf + conf / 16) % 2) chained<R, PE>(c, conf); else chained<R, PM>(c, conf);
}

// long programs over many inputs
template<class R, unc::Prop P, int N> static void longer(sym::Ctx<R> &c, int conf, int L) {
    Both<R, P, N> B(c);
    using U = unc::UReal<R>; using W = unc::UReal2<R, P>;
    std::vector<U> u{B.u[0], B.u[1], U(c.in("k"))}; std::vector<W> w{B.w[0], B.w[1], W(c.in("k"))};
    for (int t = 0; t < L; ++t) {
        const int op = (t * (2 * conf + 3) + t / 5 + conf) % 8, a = (t + t / 4) % 3, b = (2 * t + 1) % 3, i = (t * 5 + conf) % N;
        switch (op) {
        case 0: u[a] = u[a] + B.u[i]; w[a] = w[a] + B.w[i]; break;
        case 1: u[a] -= u[b]; binary_assign(w[a], w[b], w[a].first_order_n() - w[b].first_order_n(), R(1), R(-1), R(0), R(0), R(0)); break;
        case 2: u[a] = B.u[i] - u[b]; w[a] = B.w[i] - w[b]; break;
        case 3: u[a] = u[a] * R(t % 3 - 1); w[a] = w[a] * R(t % 3 - 1); break;
        case 4: u[a] = -u[b]; w[a] = -w[b]; break;
        case 5: { R m = c.in(S("m", t)), d = t % 2 ? c.in(S("d", t)) : R(2); u[a] = unary(u[b], m, d); w[a] = unary(w[b], m, d, R(t % 3)); } break;
        case 6: { R m = c.in(S("m", t)), d = t % 2 ? R(-1) : c.in(S("d", t)); u[a] = binary(u[a], B.u[i], m, d, R(2)); w[a] = binary(w[a], B.w[i], m, d, R(2), R(1), R(t % 2), R(-1)); } break;
        default: if (t % 2) { u[a] += u[a]; w[a] = w[a] + w[a]; } else { u[a] = B.u[i]; w[a] = B.w[i]; } break;
        }
    }
    for (int k = 0; k < 3; ++k) agree<R, P, N>(c, S("variable ", k), B, u[k], w[k]);
}
HARNESS(long_programs, 16, 32, "programs of 30 (thorough: 60) operations (8 kinds) on 3 variables over 10 inputs, modes alternating") {
    const int L = sym::thorough() ? 60 : 30;
    if (conf % 2) longer<R, PE, 10>(c, conf, L); else longer<R, PM, 10>(c, conf, L);
}
