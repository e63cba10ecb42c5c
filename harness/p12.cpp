#include "common2.hpp"
#include <uncertainties/impl.hpp>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// an independent variable on base i: fresh, affine or quadratic with nonzero slope
template<class R, unc::Prop P> struct Ref { unc::UReal2<R, P> z; R a, h; };
template<class R, unc::Prop P, int N> static Ref<R, P> ref(sym::Ctx<R> &c, const Base2<R, P, N> &B, int i, int kind, const std::string &nm) {
    if (kind == 0) return {B.b[i], R(1), R(0)};
    R a = c.nonzero(S(nm, "_a")), h = kind == 1 ? R(0) : c.in(S(nm, "_h"));
    return {unary(B.b[i], c.in(S(nm, "_m")), a, h), a, h};
}
template<class R, unc::Prop P, int N> static void queries(sym::Ctx<R> &c, int kf, bool nz) {
    Base2<R, P, N> B(c, N > 2);
    auto f = make_op2<R, P, N>(c, B, kf, "f", nz);
    for (int rx = 0; rx < 3; ++rx) for (int i = 0; i < N; ++i) {
        auto x = ref<R, P, N>(c, B, i, rx, S("x", i, rx));
        const std::string nx = S("reference ", i, " kind ", rx);
        c.eq(nx + ": gradient", f.z.grad(x.z), f.g[i] / x.a);
        c.eq(nx + ": second derivative", f.z.hess(x.z, x.z), (f.h[i][i] - f.g[i] / x.a * x.h) / (x.a * x.a));
        auto copy = x.z;
        c.eq(nx + ": second derivative with a copy", f.z.hess(x.z, copy), (f.h[i][i] - f.g[i] / x.a * x.h) / (x.a * x.a));
        c.eq(nx + ": of itself", x.z.grad(x.z), R(1));
        c.eq(nx + ": of itself, second", x.z.hess(x.z, x.z), R(0));
        for (int j = i + 1; j < N; ++j) for (int ry = 0; ry < 3; ++ry) {
            auto y = ref<R, P, N>(c, B, j, ry, S("y", j, ry));
            c.eq(nx + S(" and ", j, " kind ", ry, ": mixed derivative"), f.z.hess(x.z, y.z), f.h[i][j] / (x.a * y.a));
            c.eq(nx + S(" and ", j, " kind ", ry, ": symmetric"), f.z.hess(y.z, x.z), f.h[i][j] / (x.a * y.a));
        }
    }
    c.eq("f unchanged", f.z.first_order_n(), f.mean);
}
HARNESS(queries2, NK2_2, NK2_2, "gradient and Hessian of every operand kind over 2 base variables with respect to fresh, affine and quadratic references, mean mode") { queries<R, PM, 2>(c, conf, false); }
HARNESS(queries3, NK2_3, NK2_3, "the same over 3 base variables, estimate mode, unit deviations, stored second derivatives nonzero") { queries<R, PE, 3>(c, conf, true); }
template<class F> static bool bad(F f) { return sym::throws<std::invalid_argument>(f); }
HARNESS(rejected, NK2_2 * NK2_2, NK2_2 * NK2_2, "queries with respect to every pair of operand kinds over 2 base variables: numbers and multi-variable results are rejected") {
    constexpr int N = 2;
    Base2<R, PM, N> B(c);
    auto f = make_op2<R, PM, N>(c, B, nkinds2(N) - 1, "f", true);
    auto x = make_op2<R, PM, N>(c, B, conf / NK2_2, "x", true), y = make_op2<R, PM, N>(c, B, conf % NK2_2, "y", true);
    auto nd = [](const Op2<R, PM> &o) { return int(std::count(o.dep.begin(), o.dep.end(), true)); };
    for (int i = 0; i < N; ++i) { c.assume(!x.dep[i] || x.g[i] != R(0)); c.assume(!y.dep[i] || y.g[i] != R(0)); }
    const bool okx = nd(x) == 1, oky = nd(y) == 1;
    c.truth("gradient rejected iff not a single variable", bad([&] { (void)f.z.grad(x.z); }) == !okx);
    bool ok = okx && oky;
    if (ok && x.dep == y.dep) {
        const int i = x.dep[0] ? 0 : 1;
        ok = x.g[i] == y.g[i] && x.h[i][i] == y.h[i][i];
    }
    c.truth("Hessian rejected iff not single variables or differently derived", bad([&] { (void)f.z.hess(x.z, y.z); }) == !ok);
    c.truth("Hessian, arguments swapped", bad([&] { (void)f.z.hess(y.z, x.z); }) == !ok);
    c.truth("number as f", bad([&] { (void)unc::UReal2<R, PM>(c.in("k")).grad(x.z); }) == !okx);
}

#include "many2.hpp"
HARNESS(many_variables, 3 * NPAT2, 4 * NPAT2, "gradient and Hessian of results over 5, 8 and 12 (thorough: 17) base variables in 6 sparsity patterns with respect to fresh, affine and quadratic references on every (pair of) base variable(s)") {
    constexpr unc::Prop P = unc::Prop::mean;
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        Base2<R, P, N> B(c, true, 2);
        auto f = make_many2<R, P, N>(c, B, conf % NPAT2, "f");
        std::vector<Ref<R, P>> x;
        for (int i = 0; i < N; ++i) x.push_back(ref<R, P, N>(c, B, i, (i + conf) % 3, S("x", i)));
        for (int i = 0; i < N; ++i) {
            c.eq(S("gradient ", i), f.z.grad(x[i].z), f.g[i] / x[i].a);
            c.eq(S("gradient, fresh ", i), f.z.grad(B.b[i]), f.g[i]);
            c.eq(S("second derivative ", i), f.z.hess(x[i].z, x[i].z), (f.h[i][i] - f.g[i] / x[i].a * x[i].h) / (x[i].a * x[i].a));
            for (int j = 0; j < N; ++j) if (j != i) c.eq(S("mixed derivative ", i, ",", j), f.z.hess(x[i].z, x[j].z), f.h[i][j] / (x[i].a * x[j].a));
        }
        c.truth("gradient with respect to a result rejected", bad([&] { (void)B.b[0].grad(f.z); }));
        c.truth("Hessian with respect to a result rejected", bad([&] { (void)B.b[0].hess(f.z, B.b[1]); }) && bad([&] { (void)f.z.hess(B.b[1], f.z); }));
    };
    switch (conf / NPAT2) {
    case 0: go(std::integral_constant<int, 5>()); break;
    case 1: go(std::integral_constant<int, 8>()); break;
    case 2: go(std::integral_constant<int, 12>()); break;
    default: go(std::integral_constant<int, 17>()); break;
    }
}
