#include "common2.hpp"
#include <uncertainties/impl.hpp>

template<class R, int N> struct GH {
    std::vector<R> g; std::vector<std::vector<R>> h;
    GH(): g(N, R(0)), h(N, std::vector<R>(N, R(0))) {}
};
template<class R, unc::Prop P, int N> static GH<R, N> chain1(const Op2<R, P> &x, const R &d, const R &h) {
    GH<R, N> r;
    for (int i = 0; i < N; ++i) {
        r.g[i] = d * x.g[i];
        for (int j = 0; j < N; ++j) r.h[i][j] = h * x.g[i] * x.g[j] + d * x.h[i][j];
    }
    return r;
}
template<class R, unc::Prop P, int N> static GH<R, N> chain2(const Op2<R, P> &x, const Op2<R, P> &y,
        const R &dx, const R &dy, const R &dxx, const R &dyy, const R &dxy) {
    GH<R, N> r;
    for (int i = 0; i < N; ++i) {
        r.g[i] = dx * x.g[i] + dy * y.g[i];
        for (int j = 0; j < N; ++j)
            r.h[i][j] = dx * x.h[i][j] + dy * y.h[i][j] + dxx * x.g[i] * x.g[j] + dyy * y.g[i] * y.g[j]
                        + dxy * (x.g[i] * y.g[j] + x.g[j] * y.g[i]);
    }
    return r;
}
// the moments of the result must be those of its expansion (the propagated moments of the inputs are not lost)
template<class R, unc::Prop P, int N> static void check_var(sym::Ctx<R> &c, const std::string &lab, const Base2<R, P, N> &B,
        const unc::UReal2<R, P> &z, const GH<R, N> &e, const std::vector<bool> &dep) {
    Op2<R, P> o(N); o.g = e.g; o.h = e.h; o.dep = dep;
    auto q = expansion<R, P, N>(B, o);
    R m1 = q.expect(B.mom);
    c.eq(lab + " mean correction", z.m(1), m1);
    c.eq(lab + " variance", z.m(2), q.mul(q).expect(B.mom) - m1 * m1);
}
template<class R> struct Two { static constexpr unc::Prop M = unc::Prop::mean, E = unc::Prop::est; };

template<class R, unc::Prop P, int N> static void do_unary(sym::Ctx<R> &c, int kind, bool nz) {
    Base2<R, P, N> B(c, N > 2);
    auto x = make_op2<R, P, N>(c, B, kind, "x", nz);
    R m = c.in("m"), d = c.in("d"), h = c.in("h");
    auto e = chain1<R, P, N>(x, d, h);
    auto z = unary(x.z, m, d, h);
    check_gh<R, P, N>(c, "unary", B, z, m, e.g, e.h);
    check_var<R, P, N>(c, "unary", B, z, e, x.dep);
    check_gh<R, P, N>(c, "argument", B, x.z, x.mean, x.g, x.h);
    // applied again
    Op2<R, P> y(N); y.g = e.g; y.h = e.h; y.dep = x.dep;
    auto e2 = chain1<R, P, N>(y, c.in("d2"), c.in("h2"));
    check_gh<R, P, N>(c, "unary twice", B, unary(z, c.in("m2"), c.in("d2"), c.in("h2")), c.in("m2"), e2.g, e2.h);
}
template<class R, unc::Prop P, int N> static void do_binary(sym::Ctx<R> &c, int kx, int ky, bool nz) {
    Base2<R, P, N> B(c, N > 2);
    auto x = make_op2<R, P, N>(c, B, kx, "x", nz);
    auto y = make_op2<R, P, N>(c, B, ky, "y", nz);
    R m = c.in("m"), dx = c.in("dx"), dy = c.in("dy"), dxx = c.in("dxx"), dyy = c.in("dyy"), dxy = c.in("dxy");
    auto e = chain2<R, P, N>(x, y, dx, dy, dxx, dyy, dxy);
    auto z = binary(x.z, y.z, m, dx, dy, dxx, dyy, dxy);
    check_gh<R, P, N>(c, "binary", B, z, m, e.g, e.h);
    std::vector<bool> dep(N);
    for (int i = 0; i < N; ++i) dep[i] = x.dep[i] || y.dep[i];
    check_var<R, P, N>(c, "binary", B, z, e, dep);
    c.truth("isindep", z.isindep() == (std::count(dep.begin(), dep.end(), true) <= 1));
    if (kx == ky) {
        e = chain2<R, P, N>(x, x, dx, dy, dxx, dyy, dxy);
        z = binary(x.z, x.z, m, dx, dy, dxx, dyy, dxy);
        check_gh<R, P, N>(c, "binary, same operand", B, z, m, e.g, e.h);
        check_var<R, P, N>(c, "binary, same operand", B, z, e, x.dep);
    }
    check_gh<R, P, N>(c, "left", B, x.z, x.mean, x.g, x.h);
    check_gh<R, P, N>(c, "right", B, y.z, y.mean, y.g, y.h);
}
HARNESS(unary2, NK2_2, NK2_2, "unary on every operand kind over 2 base variables, estimate mode; all numbers symbolic") { do_unary<R, unc::Prop::est, 2>(c, conf, false); }
HARNESS(unary3, NK2_3, NK2_3, "unary on every operand kind over 3 base variables (every Hessian sparsity), mean mode; all numbers symbolic, stored off-diagonal terms nonzero") { do_unary<R, unc::Prop::mean, 3>(c, conf, true); }
HARNESS(binary2, NK2_2 * NK2_2, NK2_2 * NK2_2, "binary on every pair of operand kinds over 2 base variables, mean mode, and on the same operand; all numbers symbolic") { do_binary<R, unc::Prop::mean, 2>(c, conf / NK2_2, conf % NK2_2, true); }
HARNESS(binary3, 96, NK2_3 * NK2_3, "binary on pairs of operand kinds over 3 base variables (quick: 96 of 441), estimate mode; all numbers symbolic, stored second derivatives nonzero") {
    if (!sym::thorough()) conf = (conf * 37 + 5) % (NK2_3 * NK2_3);
    do_binary<R, unc::Prop::est, 3>(c, conf / NK2_3, conf % NK2_3, true);
}
template<class A, class B> static auto apply(int op, const A &x, const B &y) -> decltype(x + y) {
    switch (op) { case 0: return x + y; case 1: return x - y; case 2: return x * y; default: return x / y; }
}
template<class R> static void opdef(int op, const R &x, const R &y, R &v, R &dx, R &dy, R &dxx, R &dyy, R &dxy) {
    dxx = dyy = dxy = R(0);
    switch (op) {
    case 0: v = x + y; dx = R(1); dy = R(1); break;
    case 1: v = x - y; dx = R(1); dy = R(-1); break;
    case 2: v = x * y; dx = y; dy = x; dxy = R(1); break;
    default: v = x / y; dx = R(1) / y; dy = -x / (y * y); dyy = R(2) * x / (y * y * y); dxy = R(-1) / (y * y); break;
    }
}
static const char *opn[] = {"+", "-", "*", "/"};
template<class R, unc::Prop P, int N> static void do_op(sym::Ctx<R> &c, int op, int kx, int ky, bool nz) {
    Base2<R, P, N> B(c, N > 2);
    auto x = make_op2<R, P, N>(c, B, kx, "x", nz);
    auto y = make_op2<R, P, N>(c, B, ky, "y", nz);
    R v, dx, dy, dxx, dyy, dxy;
    if (op == 3) c.assume_rel(y.mean, NE, R(0));
    opdef<R>(op, x.mean, y.mean, v, dx, dy, dxx, dyy, dxy);
    auto e = chain2<R, P, N>(x, y, dx, dy, dxx, dyy, dxy);
    check_gh<R, P, N>(c, S("x", opn[op], "y"), B, apply(op, x.z, y.z), v, e.g, e.h);
    if (kx == ky) {
        if (op == 3) c.assume_rel(x.mean, NE, R(0));
        opdef<R>(op, x.mean, x.mean, v, dx, dy, dxx, dyy, dxy);
        e = chain2<R, P, N>(x, x, dx, dy, dxx, dyy, dxy);
        check_gh<R, P, N>(c, S("x", opn[op], "x"), B, apply(op, x.z, x.z), v, e.g, e.h);
    }
    if (ky == 0) {
        R a = op == 3 ? c.nonzero("a") : c.in("a");
        Op2<R, P> n(N);
        opdef<R>(op, x.mean, a, v, dx, dy, dxx, dyy, dxy);
        e = chain2<R, P, N>(x, n, dx, dy, dxx, dyy, dxy);
        check_gh<R, P, N>(c, S("x", opn[op], "number"), B, apply(op, x.z, a), v, e.g, e.h);
        if (op == 3) c.assume_rel(x.mean, NE, R(0));
        opdef<R>(op, a, x.mean, v, dx, dy, dxx, dyy, dxy);
        e = chain2<R, P, N>(n, x, dx, dy, dxx, dyy, dxy);
        check_gh<R, P, N>(c, S("number", opn[op], "x"), B, apply(op, a, x.z), v, e.g, e.h);
    }
}
HARNESS(operators2, 4 * NK2_2 * NK2_2, 4 * NK2_2 * NK2_2, "+ - * / on every pair of operand kinds over 2 base variables, on the same operand and with numbers on either side; all numbers symbolic, divisor mean nonzero") {
    do_op<R, unc::Prop::mean, 2>(c, conf % 4, conf / 4 / NK2_2, conf / 4 % NK2_2, true);
}
HARNESS(operators3, 64, 4 * NK2_3 * NK2_3, "+ - * / on pairs of operand kinds over 3 base variables (quick: 64 of 1764)") {
    if (!sym::thorough()) conf = (conf * 61 + 17) % (4 * NK2_3 * NK2_3);
    do_op<R, unc::Prop::est, 3>(c, conf % 4, conf / 4 / NK2_3, conf / 4 % NK2_3, true);
}
HARNESS(signs, NK2_3, NK2_3, "+x and -x for every operand kind over 3 base variables") {
    constexpr unc::Prop P = unc::Prop::mean; constexpr int N = 3;
    Base2<R, P, N> B(c, true);
    auto x = make_op2<R, P, N>(c, B, conf, "x", true);
    check_gh<R, P, N>(c, "+x", B, +x.z, x.mean, x.g, x.h);
    auto e = chain1<R, P, N>(x, R(-1), R(0));
    check_gh<R, P, N>(c, "-x", B, -x.z, -x.mean, e.g, e.h);
}

#include "many2.hpp"
HARNESS(many_variables, 3 * NPAT2, 4 * NPAT2, "unary, binary, + - * / and -x on results over 5, 8 and 12 (thorough: 17) base variables in pairs of 6 sparsity patterns; the derivatives of the function and a few of each sort of the operands symbolic, the others numbers") {
    constexpr unc::Prop P = unc::Prop::est;
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        Base2<R, P, N> B(c, true, 2);
        const int pat = conf % NPAT2;
        auto x = make_many2<R, P, N>(c, B, pat, "x"), y = make_many2<R, P, N>(c, B, (pat * 5 + conf / NPAT2 + 1) % NPAT2, "y");
        check_gh<R, P, N>(c, "operand", B, x.z, x.mean, x.g, x.h);
        R m = c.in("m"), dx = c.in("dx"), dy = c.in("dy"), dxx = c.nonzero("dxx"), dyy = c.nonzero("dyy"), dxy = c.nonzero("dxy");
        auto e = chain1<R, P, N>(x, dx, dxx);
        check_gh<R, P, N>(c, "unary", B, unary(x.z, m, dx, dxx), m, e.g, e.h);
        e = chain2<R, P, N>(x, y, dx, dy, dxx, dyy, dxy);
        auto z = binary(x.z, y.z, m, dx, dy, dxx, dyy, dxy);
        check_gh<R, P, N>(c, "binary", B, z, m, e.g, e.h);
        std::vector<bool> dep(N);
        for (int i = 0; i < N; ++i) dep[i] = x.dep[i] || y.dep[i];
        if (N < 9) check_var<R, P, N>(c, "binary", B, z, e, dep);
        e = chain2<R, P, N>(x, x, dx, dy, dxx, dyy, dxy);
        check_gh<R, P, N>(c, "binary, same operand", B, binary(x.z, x.z, m, dx, dy, dxx, dyy, dxy), m, e.g, e.h);
        for (int op = 0; op < 4; ++op) {
            R v, a, b, aa, bb, ab;
            if (op == 3) c.assume_rel(y.mean, NE, R(0));
            opdef<R>(op, x.mean, y.mean, v, a, b, aa, bb, ab);
            e = chain2<R, P, N>(x, y, a, b, aa, bb, ab);
            check_gh<R, P, N>(c, S("x", opn[op], "y"), B, apply(op, x.z, y.z), v, e.g, e.h);
        }
        e = chain1<R, P, N>(x, R(-1), R(0));
        check_gh<R, P, N>(c, "-x", B, -x.z, -x.mean, e.g, e.h);
        check_gh<R, P, N>(c, "left", B, x.z, x.mean, x.g, x.h);
        check_gh<R, P, N>(c, "right", B, y.z, y.mean, y.g, y.h);
    };
    switch (conf / NPAT2) {
    case 0: go(std::integral_constant<int, 5>()); break;
    case 1: go(std::integral_constant<int, 8>()); break;
    case 2: go(std::integral_constant<int, 12>()); break;
    default: go(std::integral_constant<int, 17>()); break;
    }
}
