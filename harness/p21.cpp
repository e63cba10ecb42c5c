#include "common2.hpp"
#include <uncertainties/functions.hpp>
#include <uncertainties/impl.hpp>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

template<class R> static unc::Unary<R> fn1(sym::Ctx<R> &c, const char *nm) { return [&c, nm](const R &x) { return c.uf(nm, {x}); }; }
template<class R> static unc::Binary<R> fn2(sym::Ctx<R> &c, const char *nm) { return [&c, nm](const R &x, const R &y) { return c.uf(nm, {x, y}); }; }

template<class R, int N> static void is1(sym::Ctx<R> &c, const std::string &lab, const Base1<R, N> &B, const unc::UReal<R> &z, const R &m,
        std::vector<std::pair<const Op1<R> *, R>> terms) {
    c.eq(lab + " mean", z.n(), m);
    for (int i = 0; i < N; ++i) {
        R g = R(0);
        for (auto &t : terms) g += t.second * t.first->g[i];
        c.eq(lab + S(" covariance with base ", i), cov(z, B.b[i]), g * B.sg[i] * B.sg[i]);
    }
}
// cheap rotation of operand kinds
constexpr int K1 = nkinds1(2), K2 = NK2_2;
HARNESS(first_order_unary, K1, K1, "uunary with explicit derivative, with a step and with the default step; f, f' arbitrary (uninterpreted); every operand kind over 2 base variables") {
    constexpr int N = 2;
    Base1<R, N> B(c, true);
    auto x = make_op1<R, N>(c, B, conf, "x");
    auto f = fn1<R>(c, "f"), df = fn1<R>(c, "df");
    R fx = f(x.mean);
    is1<R, N>(c, "explicit", B, unc::uunary<R>(f, df)(x.z), fx, {{&x, df(x.mean)}});
    R st = c.nonzero("step");
    is1<R, N>(c, "step", B, unc::uunary<R>(f, st)(x.z), fx, {{&x, (f(x.mean + st) - fx) / st}});
    // exact for affine functions
    R a = c.in("a"), b = c.in("b");
    unc::Unary<R> aff = [&](const R &t) -> R { return a + b * t; };
    is1<R, N>(c, "affine", B, unc::uunary<R>(aff, st)(x.z), a + b * x.mean, {{&x, b}});
    if (sym::Ctx<R>::symbolic) is1<R, N>(c, "affine, default step", B, unc::uunary<R>(aff)(x.z), a + b * x.mean, {{&x, b}});
}
HARNESS(first_order_binary, K1 * K1, K1 * K1, "ubinary with explicit derivatives and with a step; f and its derivatives uninterpreted; every pair of operand kinds over 2 base variables") {
    constexpr int N = 2;
    Base1<R, N> B(c, true);
    auto x = make_op1<R, N>(c, B, conf % K1, "x"), y = make_op1<R, N>(c, B, conf / K1, "y");
    auto f = fn2<R>(c, "f"), fx = fn2<R>(c, "fx"), fy = fn2<R>(c, "fy");
    const R &p = x.mean, &q = y.mean;
    R v = f(p, q);
    is1<R, N>(c, "explicit", B, unc::ubinary<R>(f, fx, fy)(x.z, y.z), v, {{&x, fx(p, q)}, {&y, fy(p, q)}});
    R st = c.nonzero("step");
    is1<R, N>(c, "step", B, unc::ubinary<R>(f, st)(x.z, y.z), v, {{&x, (f(p + st, q) - v) / st}, {&y, (f(p, q + st) - v) / st}});
    R a = c.in("a"), b = c.in("b"), d = c.in("d");
    unc::Binary<R> aff = [&](const R &t, const R &u) -> R { return a + b * t + d * u; };
    is1<R, N>(c, "affine", B, unc::ubinary<R>(aff, st)(x.z, y.z), a + b * p + d * q, {{&x, b}, {&y, d}});
}
template<class R, unc::Prop P> static void same(sym::Ctx<R> &c, const std::string &lab, const Base2<R, P, 2> &B, const unc::UReal2<R, P> &z, const unc::UReal2<R, P> &w) {
    c.eq(lab + " first-order mean", z.first_order_n(), w.first_order_n());
    for (int i = 0; i < 2; ++i) {
        c.eq(lab + S(" gradient ", i), z.grad(B.b[i]), w.grad(B.b[i]));
        for (int j = i; j < 2; ++j) c.eq(lab + S(" Hessian ", i, j), z.hess(B.b[i], B.b[j]), w.hess(B.b[i], B.b[j]));
    }
}
template<class R, unc::Prop P> static void unary2(sym::Ctx<R> &c, int k) {
    Base2<R, P, 2> B(c, true);
    auto x = make_op2<R, P, 2>(c, B, k, "x", true);
    auto f = fn1<R>(c, "f"), d1 = fn1<R>(c, "d1"), d2 = fn1<R>(c, "d2");
    const R &p = x.mean;
    R v = f(p), st = c.nonzero("step");
    // (that unary itself is right is decided by the propagation property)
    same<R, P>(c, "explicit", B, unc::uunary2<R, P>(f, d1, d2)(x.z), unary(x.z, v, d1(p), d2(p)));
    same<R, P>(c, "first derivative given", B, unc::uunary2<R, P>(f, d1, st)(x.z), unary(x.z, v, d1(p), (d1(p + st) - d1(p)) / st));
    same<R, P>(c, "no derivative", B, unc::uunary2<R, P>(f, st)(x.z),
               unary(x.z, v, (f(p + st) - f(p - st)) / (R(2) * st), (f(p + st) + f(p - st) - R(2) * v) / (st * st)));
    R a = c.in("a"), b = c.in("b"), d = c.in("d");
    unc::Unary<R> q = [&](const R &t) -> R { return a + b * t + d * t * t; };
    unc::Unary<R> dq = [&](const R &t) -> R { return b + R(2) * d * t; };
    auto exact = unary(x.z, q(p), dq(p), R(2) * d);
    same<R, P>(c, "quadratic", B, unc::uunary2<R, P>(q, st)(x.z), exact);
    same<R, P>(c, "quadratic, first derivative given", B, unc::uunary2<R, P>(q, dq, st)(x.z), exact);
    if (sym::Ctx<R>::symbolic) {
        same<R, P>(c, "quadratic, default step", B, unc::uunary2<R, P>(q)(x.z), exact);
        same<R, P>(c, "quadratic, first derivative given, default step", B, unc::uunary2<R, P>(q, dq)(x.z), exact);
    }
}
HARNESS(second_order_unary, 2 * K2, 2 * K2, "uunary2 with all, one and no derivatives given; functions uninterpreted, and exactness for every quadratic; every operand kind over 2 base variables, both modes") {
    if (conf % 2) unary2<R, PE>(c, conf / 2); else unary2<R, PM>(c, conf / 2);
}
template<class R, unc::Prop P> static void binary2(sym::Ctx<R> &c, int kx, int ky) {
    Base2<R, P, 2> B(c, true);
    auto x = make_op2<R, P, 2>(c, B, kx, "x", true), y = make_op2<R, P, 2>(c, B, ky, "y", true);
    auto f = fn2<R>(c, "f"), fx = fn2<R>(c, "fx"), fy = fn2<R>(c, "fy"), fxx = fn2<R>(c, "fxx"), fyy = fn2<R>(c, "fyy"), fxy = fn2<R>(c, "fxy");
    const R &p = x.mean, &q = y.mean;
    R v = f(p, q), s = c.nonzero("step");
    same<R, P>(c, "explicit", B, unc::ubinary2<R, P>(f, fx, fy, fxx, fyy, fxy)(x.z, y.z),
               binary(x.z, y.z, v, fx(p, q), fy(p, q), fxx(p, q), fyy(p, q), fxy(p, q)));
    same<R, P>(c, "first derivatives given", B, unc::ubinary2<R, P>(f, fx, fy, s)(x.z, y.z),
               binary(x.z, y.z, v, fx(p, q), fy(p, q), (fx(p + s, q) - fx(p, q)) / s, (fy(p, q + s) - fy(p, q)) / s, (fx(p, q + s) - fx(p, q)) / s));
    R pp = p + s, pm = p - s, qp = q + s, qm = q - s;
    same<R, P>(c, "no derivative", B, unc::ubinary2<R, P>(f, s)(x.z, y.z),
               binary(x.z, y.z, v, (f(pp, q) - f(pm, q)) / (R(2) * s), (f(p, qp) - f(p, qm)) / (R(2) * s),
                      (f(pp, q) + f(pm, q) - R(2) * v) / (s * s), (f(p, qp) + f(p, qm) - R(2) * v) / (s * s),
                      (f(pp, qp) + f(pm, qm) - (f(pp, q) + f(pm, q) + f(p, qp) + f(p, qm)) + R(2) * v) / (R(2) * s * s)));
}
HARNESS(second_order_binary, K2 * K2, K2 * K2, "ubinary2 with all, the first and no derivatives given; functions uninterpreted; every pair of operand kinds over 2 base variables, mode alternating") {
    if (conf % 2) binary2<R, PE>(c, conf % K2, conf / K2); else binary2<R, PM>(c, conf % K2, conf / K2);
}
HARNESS(second_order_quadratic, 2, 2, "ubinary2: exact for every quadratic function of two variables, with given and with default step") {
    auto go = [&](auto one) {
        constexpr unc::Prop P = decltype(one)::prop_mode;
        Base2<R, P, 2> B(c, true);
        const auto &x = B.b[0]; const auto &y = B.b[1];
        R k[6]; for (int i = 0; i < 6; ++i) k[i] = c.in(S("k", i));
        unc::Binary<R> q = [&](const R &t, const R &u) -> R { return k[0] + k[1] * t + k[2] * u + k[3] * t * t + k[4] * t * u + k[5] * u * u; };
        unc::Binary<R> qx = [&](const R &t, const R &u) -> R { return k[1] + R(2) * k[3] * t + k[4] * u; };
        unc::Binary<R> qy = [&](const R &t, const R &u) -> R { return k[2] + k[4] * t + R(2) * k[5] * u; };
        const R &m = B.mu[0], &n = B.mu[1];
        auto exact = binary(x, y, q(m, n), qx(m, n), qy(m, n), R(2) * k[3], R(2) * k[5], k[4]);
        R s = c.nonzero("step");
        same<R, P>(c, "step", B, unc::ubinary2<R, P>(q, s)(x, y), exact);
        same<R, P>(c, "first derivatives given", B, unc::ubinary2<R, P>(q, qx, qy, s)(x, y), exact);
        if (sym::Ctx<R>::symbolic) {
            same<R, P>(c, "default step", B, unc::ubinary2<R, P>(q)(x, y), exact);
            same<R, P>(c, "first derivatives given, default step", B, unc::ubinary2<R, P>(q, qx, qy)(x, y), exact);
        }
    };
    if (conf) go(unc::UReal2<R, PE>()); else go(unc::UReal2<R, PM>());
}
// a function object has its own copies of the functions and of the step, and can be called again
template<class R, unc::Prop P> static void outlives(sym::Ctx<R> &c, const std::string &md) {
    Base1<R, 2> B(c, true);
    Base2<R, P, 2> D(c, true);
    const R s0 = c.nonzero("step"), t0 = c.nonzero("step2");
    R s = s0;
    unc::Unary<R> f, d, h; unc::Binary<R> g, gx, gy, gxx, gyy, gxy;
    auto set = [&](const char *p, const R &step) {
        static const char *names[2][9] = {{"f", "d", "h", "g", "gx", "gy", "gxx", "gyy", "gxy"}, {"f1", "d1", "h1", "g1", "gx1", "gy1", "gxx1", "gyy1", "gxy1"}};
        const char **n = names[*p == '1'];
        f = fn1<R>(c, n[0]); d = fn1<R>(c, n[1]); h = fn1<R>(c, n[2]);
        g = fn2<R>(c, n[3]); gx = fn2<R>(c, n[4]); gy = fn2<R>(c, n[5]); gxx = fn2<R>(c, n[6]); gyy = fn2<R>(c, n[7]); gxy = fn2<R>(c, n[8]);
        s = step;
    };
    set("0", s0);
    std::vector<unc::UUnary<R>> u1{unc::uunary<R>(f, d), unc::uunary<R>(f, s)};
    std::vector<unc::UBinary<R>> b1{unc::ubinary<R>(g, gx, gy), unc::ubinary<R>(g, s)};
    std::vector<unc::UUnary2<R, P>> u2{unc::uunary2<R, P>(f, d, h), unc::uunary2<R, P>(f, d, s), unc::uunary2<R, P>(f, s)};
    std::vector<unc::UBinary2<R, P>> b2{unc::ubinary2<R, P>(g, gx, gy, gxx, gyy, gxy), unc::ubinary2<R, P>(g, gx, gy, s), unc::ubinary2<R, P>(g, s)};
    // what they give while everything they were made from is as it was
    auto x = B.b[0] + B.b[1]; auto X = D.b[0] * D.b[1];
    std::vector<unc::UReal<R>> r1; std::vector<unc::UReal2<R, P>> r2;
    auto call = [&] {
        r1.clear(); r2.clear();
        for (auto &k : u1) r1.push_back(k(x));
        for (auto &k : b1) r1.push_back(k(x, B.b[1]));
        for (auto &k : u2) r2.push_back(k(X));
        for (auto &k : b2) r2.push_back(k(X, D.b[1]));
    };
    call();
    const auto e1 = r1; const auto e2 = r2;
    auto judge = [&](const std::string &lab) {
        call();
        for (size_t i = 0; i < e1.size(); ++i) {
            c.eq(lab + S(" mean ", int(i)), r1[i].n(), e1[i].n());
            for (int k = 0; k < 2; ++k) c.eq(lab + S(" covariance ", int(i), " ", k), cov(r1[i], B.b[k]), cov(e1[i], B.b[k]));
        }
        for (size_t i = 0; i < e2.size(); ++i) same<R, P>(c, lab + S(" second order ", int(i)), D, r2[i], e2[i]);
    };
    judge(md + "called again");
    set("1", t0);                      // the originals are overwritten
    judge(md + "originals changed");
    f = d = h = nullptr; g = gx = gy = gxx = gyy = gxy = nullptr; s = R(0);
    auto v1 = u1; auto w1 = b1; auto v2 = u2; auto w2 = b2;
    u1.swap(v1); b1.swap(w1); u2.swap(v2); b2.swap(w2); v1.clear(); w1.clear(); v2.clear(); w2.clear();
    judge(md + "originals gone, copied");
}
HARNESS(outlives, 2, 2, "every factory: the object called again, after the functions and the step it was made from are replaced by others and after they are gone, and a copy of it") {
    if (conf) outlives<R, PE>(c, "estimate: "); else outlives<R, PM>(c, "mean: ");
}
