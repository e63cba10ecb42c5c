#include "common.hpp"
#include <uncertainties/impl.hpp>

// value and exact partial derivatives of  x op y
template<class R> static void opdef(int op, const R &x, const R &y, R &v, R &dx, R &dy) {
    switch (op) {
    case 0: v = x + y; dx = R(1); dy = R(1); break;
    case 1: v = x - y; dx = R(1); dy = R(-1); break;
    case 2: v = x * y; dx = y; dy = x; break;
    default: v = x / y; dx = R(1) / y; dy = -x / (y * y); break;
    }
}
template<class A, class B> static auto apply(int op, const A &x, const B &y) -> decltype(x + y) {
    switch (op) {
    case 0: return x + y;
    case 1: return x - y;
    case 2: return x * y;
    default: return x / y;
    }
}
static const char *opn[] = {"+", "-", "*", "/"};

// z must have the given value and derivatives with respect to the base variables
template<class R, int N> static void check_lin(sym::Ctx<R> &c, const std::string &lab, const Base1<R, N> &B,
                                               const unc::UReal<R> &z, const R &v, const std::vector<R> &g) {
    c.eq(lab + " mean", z.n(), v);
    R s2 = R(0);
    for (int i = 0; i < N; ++i) {
        c.eq(lab + S(" cov with input ", i), cov(z, B.b[i]), g[i] * B.sg[i] * B.sg[i]);
        c.eq(lab + S(" cov with input (swapped) ", i), cov(B.b[i], z), g[i] * B.sg[i] * B.sg[i]);
        s2 += g[i] * g[i] * B.sg[i] * B.sg[i];
    }
    c.eq(lab + " variance", cvar(z), s2);
    c.eq(lab + " deviation squared", csdev(z) * csdev(z), s2);
}

HARNESS(op_binary, 4 * nkinds1(2), 4 * nkinds1(2) * 2,
        "each of + - * / on every pair of operand kinds on 2 base variables and on the same object; all numbers symbolic, divisor mean nonzero") {
    constexpr int N = 2;
    const int K = nkinds1(N);
    int op = conf % 4; conf /= 4;
    Base1<R, N> B(c);
    auto x = make_op1<R, N>(c, B, conf % K, "x");
    auto y = make_op1<R, N>(c, B, c.choose(K, "kind of y"), "y");
    if (op == 3) c.assume_rel(y.mean, NE, R(0));
    R v, dx, dy;
    opdef<R>(op, x.mean, y.mean, v, dx, dy);
    std::vector<R> g;
    for (int i = 0; i < N; ++i) g.push_back(dx * x.g[i] + dy * y.g[i]);
    check_lin<R, N>(c, S("x", opn[op], "y"), B, apply(op, x.z, y.z), v, g);
    c.eq("left operand mean", x.z.n(), x.mean);
    c.eq("right operand mean", y.z.n(), y.mean);
}
HARNESS(op_same, 4 * nkinds1(3), 4 * nkinds1(3), "x op x for each operation and every operand kind on 3 base variables") {
    constexpr int N = 3;
    int op = conf % 4; conf /= 4;
    Base1<R, N> B(c);
    auto x = make_op1<R, N>(c, B, conf, "x");
    if (op == 3) c.assume_rel(x.mean, NE, R(0));
    R v, dx, dy;
    opdef<R>(op, x.mean, x.mean, v, dx, dy);
    std::vector<R> g;
    for (int i = 0; i < N; ++i) g.push_back((dx + dy) * x.g[i]);
    check_lin<R, N>(c, S("x", opn[op], "x"), B, apply(op, x.z, x.z), v, g);
}
HARNESS(op_number, 4 * nkinds1(2), 4 * nkinds1(2), "x op number and number op x with a symbolic real, an int and a double literal, every operand kind on 2 base variables") {
    constexpr int N = 2;
    int op = conf % 4; conf /= 4;
    Base1<R, N> B(c);
    auto x = make_op1<R, N>(c, B, conf, "x");
    R a = c.in("a");
    if (op == 3) { c.assume_rel(x.mean, NE, R(0)); c.assume_rel(a, NE, R(0)); }
    R v, dx, dy;
    std::vector<R> g(N);
    opdef<R>(op, x.mean, a, v, dx, dy);
    for (int i = 0; i < N; ++i) g[i] = dx * x.g[i];
    check_lin<R, N>(c, S("x", opn[op], "number"), B, apply(op, x.z, a), v, g);
    opdef<R>(op, a, x.mean, v, dx, dy);
    for (int i = 0; i < N; ++i) g[i] = dy * x.g[i];
    check_lin<R, N>(c, S("number", opn[op], "x"), B, apply(op, a, x.z), v, g);
    opdef<R>(op, x.mean, R(3), v, dx, dy);
    for (int i = 0; i < N; ++i) g[i] = dx * x.g[i];
    check_lin<R, N>(c, S("x", opn[op], "int"), B, apply(op, x.z, R(3)), v, g);
    opdef<R>(op, R(0.5), x.mean, v, dx, dy);
    for (int i = 0; i < N; ++i) g[i] = dy * x.g[i];
    check_lin<R, N>(c, S("literal", opn[op], "x"), B, apply(op, R(0.5), x.z), v, g);
}
HARNESS(op_sign, nkinds1(3), nkinds1(3), "+x and -x for every operand kind on 3 base variables") {
    constexpr int N = 3;
    Base1<R, N> B(c);
    auto x = make_op1<R, N>(c, B, conf, "x");
    check_lin<R, N>(c, "+x", B, +x.z, x.mean, x.g);
    std::vector<R> g;
    for (auto &d : x.g) g.push_back(-d);
    check_lin<R, N>(c, "-x", B, -x.z, -x.mean, g);
    check_lin<R, N>(c, "-(-x)", B, -(-x.z), x.mean, x.g);
}

// expressions: (l1 op l2) op (l3 op l4) and ((l1 op l2) op l3) op l4, leaves are inputs or exact numbers
template<class R> struct Dual {
    R v; std::vector<R> g;
};
template<class R> static Dual<R> dop(int op, const Dual<R> &x, const Dual<R> &y) {
    Dual<R> z; R dx, dy;
    opdef<R>(op, x.v, y.v, z.v, dx, dy);
    for (size_t i = 0; i < x.g.size(); ++i) z.g.push_back(dx * x.g[i] + dy * y.g[i]);
    return z;
}
HARNESS(op_expr, 64 * 2, 64 * 2 * 16, "expressions of 3 operations (both tree shapes, every choice of operations), leaves drawn from 2 inputs, exact numbers and repeated subexpressions; divisor means nonzero") {
    constexpr int N = 2;
    int shape = conf % 2; conf /= 2;
    int o1 = conf % 4, o2 = conf / 4 % 4, o3 = conf / 16 % 4;
    int lv = conf / 64;
    static const int pat[][4] = {{0, 1, 2, 0}, {0, 0, 1, 1}, {2, 0, 1, 0}, {0, 1, 0, 1}, {1, 2, 2, 0}, {0, 0, 0, 0}, {1, 0, 2, 2}, {2, 1, 0, 2},
                                 {0, 2, 0, 2}, {1, 1, 0, 2}, {2, 2, 0, 1}, {0, 1, 1, 0}, {0, 2, 1, 1}, {2, 0, 0, 1}, {1, 0, 0, 0}, {0, 1, 2, 2}};
    int p = sym::thorough() ? lv : c.choose(4, "leaves");
    Base1<R, N> B(c);
    std::vector<unc::UReal<R>> u(4); std::vector<Dual<R>> d(4);
    for (int i = 0; i < 4; ++i) {
        int w = pat[p][i];
        d[i].g.assign(N, R(0));
        if (w == 2) { d[i].v = c.in(S("num", i)); u[i] = unc::UReal<R>(d[i].v); }
        else { d[i].v = B.mu[w]; d[i].g[w] = R(1); u[i] = B.b[w]; }
    }
    auto step = [&](int op, const unc::UReal<R> &a, const unc::UReal<R> &b, const Dual<R> &da, const Dual<R> &db, unc::UReal<R> &z, Dual<R> &dz) {
        if (op == 3) c.assume(db.v != R(0));
        dz = dop(op, da, db);
        z = apply(op, a, b);
    };
    unc::UReal<R> z1, z2, z; Dual<R> d1, d2, dz;
    step(o1, u[0], u[1], d[0], d[1], z1, d1);
    if (shape == 0) { step(o2, u[2], u[3], d[2], d[3], z2, d2); step(o3, z1, z2, d1, d2, z, dz); }
    else { step(o2, z1, u[2], d1, d[2], z2, d2); step(o3, z2, z1, d2, d1, z, dz); }
    check_lin<R, N>(c, "expression", B, z, dz.v, dz.g);
}
