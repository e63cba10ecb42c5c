#include "common.hpp"
#include <uncertainties/impl.hpp>

static const char *opn[] = {"+", "-", "*", "/"};
template<class A, class B> static A out_of_place(int op, const A &x, const B &y) {
    switch (op) { case 0: return x + y; case 1: return x - y; case 2: return x * y; default: return x / y; }
}
template<class A, class B> static const A &in_place(int op, A &x, const B &y) {
    switch (op) { case 0: return x += y; case 1: return x -= y; case 2: return x *= y; default: return x /= y; }
}
// z (computed in place) against w (computed out of place)
template<class R, int N> static void same(sym::Ctx<R> &c, const std::string &lab, const Base1<R, N> &B,
        unc::UReal<R> z, unc::UReal<R> w, const std::vector<const unc::UReal<R> *> &others) {
    c.eq(lab + " mean", z.n(), w.n());
    for (int i = 0; i < N; ++i) {
        c.eq(lab + S(" cov with input ", i), cov(z, B.b[i]), cov(w, B.b[i]));
        c.eq(lab + S(" cov with input, swapped ", i), cov(B.b[i], z), cov(B.b[i], w));
    }
    for (size_t k = 0; k < others.size(); ++k)
        c.eq(lab + S(" cov with operand ", (int)k), cov(z, *others[k]), cov(w, *others[k]));
    c.eq(lab + " cov with itself", cov(z, z), cov(w, w));
    c.eq(lab + " cov between the two", cov(z, w), cov(w, w));
    c.eq(lab + " variance", cvar(z), cvar(w));
    c.eq(lab + " variance of itself", cvar(z), cov(w, w));
    c.eq(lab + " deviation", csdev(z) * csdev(z), csdev(w) * csdev(w));
    c.eq(lab + " variance (mutable)", var(z), cov(w, w));
    c.eq(lab + " deviation (mutable)", z.s() * z.s(), cov(w, w));
}
HARNESS(inplace, 4 * nkinds1(2), 4 * nkinds1(3), "x op= y for each operation and every pair of operand kinds on 2 (thorough 3) base variables, with deviations asked before or not; all numbers symbolic, divisor mean nonzero") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        int op = conf % 4, kx = conf / 4;
        Base1<R, N> B(c);
        auto x = make_op1<R, N>(c, B, kx, "x");
        auto y = make_op1<R, N>(c, B, c.choose(nkinds1(N), "kind of y"), "y");
        if (op == 3) c.assume_rel(y.mean, NE, R(0));
        auto w = out_of_place(op, x.z, y.z);
        unc::UReal<R> z = x.z, y0 = y.z;
        const unc::UReal<R> &ret = in_place(op, z, y.z);
        same<R, N>(c, S("x", opn[op], "=y"), B, z, w, {&x.z, &y.z});
        c.truth("returns x", &ret == &z);
        // the right operand is unchanged
        c.eq("y mean", y.z.n(), y0.n());
        c.eq("y variance", cvar(y.z), cvar(y0));
        for (int i = 0; i < N; ++i) c.eq("y covariance", cov(y.z, B.b[i]), cov(y0, B.b[i]));
        c.truth("y identity", y.z.indepid() == y0.indepid() && y.z.isindep() == y0.isindep());
    };
    if (sym::thorough()) go(std::integral_constant<int, 3>()); else go(std::integral_constant<int, 2>());
}
HARNESS(aliased, 4 * nkinds1(3), 4 * nkinds1(3), "x op= x for each operation and every operand kind on 3 base variables") {
    constexpr int N = 3;
    int op = conf % 4, kx = conf / 4;
    Base1<R, N> B(c);
    auto x = make_op1<R, N>(c, B, kx, "x");
    if (op == 3) c.assume_rel(x.mean, NE, R(0));
    auto w = out_of_place(op, x.z, x.z);
    unc::UReal<R> z = x.z;
    in_place(op, z, z);
    same<R, N>(c, S("x", opn[op], "=x"), B, z, w, {&x.z});
}
HARNESS(with_number, 4 * nkinds1(2), 4 * nkinds1(3), "x op= number, every operand kind on 2 (thorough 3) base variables") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        int op = conf % 4, kx = conf / 4;
        Base1<R, N> B(c);
        auto x = make_op1<R, N>(c, B, kx, "x");
        R a = op == 3 ? c.nonzero("a") : c.in("a");
        auto w = out_of_place(op, x.z, a);
        unc::UReal<R> z = x.z;
        in_place(op, z, a);
        same<R, N>(c, S("x", opn[op], "=number"), B, z, w, {&x.z});
    };
    if (sym::thorough()) go(std::integral_constant<int, 3>()); else go(std::integral_constant<int, 2>());
}
HARNESS(sequence, 16 * 3, 64 * 3, "2 (thorough 3) in-place operations in a row on one variable, operands of several kinds, itself included, and copies taken in between") {
    constexpr int N = 2;
    const int len = sym::thorough() ? 3 : 2;
    int start = conf % 3; conf /= 3;
    static const int kinds[] = {1, 3, 8};          // independent, rescaled, two dependencies
    Base1<R, N> B(c);
    auto x = make_op1<R, N>(c, B, kinds[start], "x");
    auto y = make_op1<R, N>(c, B, 8, "y");
    unc::UReal<R> z = x.z, w = x.z;
    for (int k = 0; k < len; ++k) {
        int op = conf % 4; conf /= 4;
        int other = c.choose(4, "operand");
        if (other == 3) (void)z.s();
        if (op == 3) c.assume(other == 0 || other == 3 ? w.n() != R(0) : other == 1 ? y.mean != R(0) : B.mu[1] != R(0));
        if (other == 0 || other == 3) { w = out_of_place(op, w, w); in_place(op, z, z); }
        else if (other == 1) { w = out_of_place(op, w, y.z); in_place(op, z, y.z); }
        else { w = out_of_place(op, w, B.b[1]); in_place(op, z, B.b[1]); }
    }
    same<R, N>(c, "sequence", B, z, w, {&x.z, &y.z});
}

#include "many.hpp"
HARNESS(many_variables, 4 * 4 * NPAT, 4 * 5 * NPAT, "x op= y for each operation on operands that depend on 5, 9, 33 and 67 (thorough: 131) base variables shared in 8 patterns, then x op= x; all numbers symbolic, divisor mean nonzero") {
    static const int size[] = {5, 9, 33, 67, 131};
    const int op = conf % 4, pat = conf / 4 % NPAT, n = size[conf / 4 / NPAT];
    Many<R> B(c, n);
    auto x = make_many<R>(c, B, pat, 0, "x"), y = make_many<R>(c, B, pat, 1, "y");
    if (op == 3) c.assume_rel(y.mean, NE, R(0));
    const R dx = op < 2 ? R(1) : op == 2 ? y.mean : R(1) / y.mean;
    const R dy = op == 0 ? R(1) : op == 1 ? R(-1) : op == 2 ? x.mean : -x.mean / (y.mean * y.mean);
    std::vector<R> g(n);
    for (int i = 0; i < n; ++i) g[i] = dx * x.g[i] + dy * y.g[i];
    auto w = out_of_place(op, x.z, y.z);
    auto z = x.z;
    if (pat % 2) (void)z.s();
    in_place(op, z, y.z);
    check_many<R>(c, S("x", opn[op], "=y"), B, z, w.n(), g);
    c.eq("cov with the result out of place", cov(z, w), cov_many<R>(B, g, g));
    c.eq("cov with x", cov(z, x.z), cov_many<R>(B, g, x.g));
    c.eq("cov with y", cov(y.z, z), cov_many<R>(B, g, y.g));
    check_many<R>(c, "y afterwards", B, y.z, y.mean, y.g);
    if (op == 3) return;
    z = x.z;
    in_place(op, z, z);
    for (int i = 0; i < n; ++i) g[i] = op == 0 ? R(2) * x.g[i] : op == 1 ? R(0) : R(2) * x.mean * x.g[i];
    check_many<R>(c, S("x", opn[op], "=x"), B, z, out_of_place(op, x.mean, x.mean), g);
}
HARNESS(long_sequence, 8, 16, "60 (thorough: 200) in-place operations in a row, each with a fresh variable, one used before, a number, a result or itself, copies and questions in between") {
    const int L = sym::thorough() ? 200 : 60, n = 12;
    Many<R> B(c, n);
    auto y = make_many<R>(c, B, 7, 1, "y");
    R mean = c.in("m"), k = c.nonzero("k");
    std::vector<R> g(n, R(0));
    unc::UReal<R> z(mean), keep = z; std::vector<R> kg = g; R km = mean;
    for (int t = 0; t < L; ++t) {
        const int what = (t * (2 * conf + 3) + t / 7 + conf) % 9, i = (t * 5 + conf) % n;
        switch (what) {
        case 0: case 1: z += B.b[i]; mean += B.mu[i]; g[i] += R(1); break;
        case 2: z -= B.b[i]; mean -= B.mu[i]; g[i] -= R(1); break;
        case 3: z += y.z; mean += y.mean; for (int j = 0; j < n; ++j) g[j] += y.g[j]; break;
        case 4: z -= y.z; mean -= y.mean; for (int j = 0; j < n; ++j) g[j] -= y.g[j]; break;
        case 5: if (t % 4 == 0) { z += z; mean += mean; for (auto &a : g) a += a; } break;
        case 6: if (t % 5 == 0) { z *= R(t % 2 ? 3 : -1); mean *= R(t % 2 ? 3 : -1); for (auto &a : g) a *= R(t % 2 ? 3 : -1); }
                else { z -= k; mean -= k; } break;
        case 7: if (t % 3) (void)z.s(); else (void)var(z); break;
        default: keep = z; kg = g; km = mean; break;
        }
    }
    check_many<R>(c, "sequence", B, z, mean, g);
    check_many<R>(c, "copy taken on the way", B, keep, km, kg);
}
