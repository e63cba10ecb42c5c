#include "common.hpp"
#include <uncertainties/impl.hpp>

template<class R, int N> static Op1<R> any(sym::Ctx<R> &c, const Base1<R, N> &B, const char *nm, int k) { return make_op1<R, N>(c, B, k, nm); }

HARNESS(symmetric_and_exact, nkinds1(2) * nkinds1(2), nkinds1(3) * nkinds1(3), "every pair of operand kinds on 2 (thorough 3) base variables; all numbers symbolic") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        const int K = nkinds1(N);
        Base1<R, N> B(c);
        auto x = make_op1<R, N>(c, B, conf / K, "x");
        auto y = make_op1<R, N>(c, B, conf % K, "y");
        R e = R(0), vx = R(0);
        for (int i = 0; i < N; ++i) { e += x.g[i] * y.g[i] * B.sg[i] * B.sg[i]; vx += x.g[i] * x.g[i] * B.sg[i] * B.sg[i]; }
        c.eq("cov(x,y)", cov(x.z, y.z), e);
        c.eq("cov(y,x) = cov(x,y)", cov(y.z, x.z), cov(x.z, y.z));
        c.eq("var(x) = cov(x,x)", cvar(x.z), cov(x.z, x.z));
        c.eq("var(x)", cvar(x.z), vx);
        c.eq("s(x)^2 = cov(x,x)", csdev(x.z) * csdev(x.z), cov(x.z, x.z));
        c.rel("s(x) >= 0", csdev(x.z), GE, R(0));
        c.rel("var(x) >= 0", cvar(x.z), GE, R(0));
        unc::UReal<R> m = x.z;
        c.eq("var(x) (mutable) = cov(x,x)", var(m), cov(x.z, x.z));
        c.rel("s(x) >= 0 (mutable)", m.s(), GE, R(0));
        c.eq("s(x)^2 (mutable) = cov(x,x)", m.s() * m.s(), cov(x.z, x.z));
        c.eq("var(x) again", cvar(m), cov(x.z, x.z));
        bool share = false, any0 = false;
        for (int i = 0; i < N; ++i) { if (x.dep[i] && y.dep[i]) share = true; any0 |= x.dep[i]; }
        if (!share) c.eq("no shared variable: covariance zero", cov(x.z, y.z), R(0));
    };
    if (sym::thorough()) go(std::integral_constant<int, 3>()); else go(std::integral_constant<int, 2>());
}
HARNESS(correlation, nkinds1(2) * nkinds1(2), nkinds1(2) * nkinds1(2), "corr on every pair of operand kinds on 2 base variables with positive deviations") {
    constexpr int N = 2;
    const int K = nkinds1(N);
    Base1<R, N> B(c, true);
    auto x = make_op1<R, N>(c, B, conf / K, "x");
    auto y = make_op1<R, N>(c, B, conf % K, "y");
    c.assume(cov(x.z, x.z) > R(0)); c.assume(cov(y.z, y.z) > R(0));
    R r = corr(x.z, y.z);
    c.eq("corr(x,y) s(x) s(y) = cov(x,y)", r * csdev(x.z) * csdev(y.z), cov(x.z, y.z));
    c.eq("corr symmetric", corr(y.z, x.z), r);
    c.eq("corr(x,x) = 1", corr(x.z, x.z), R(1));
}
HARNESS(linearity, nkinds1(2), nkinds1(2) * 3, "cov(a x + b y + k, w) on triples of operand kinds on 2 base variables; all numbers symbolic") {
    constexpr int N = 2;
    const int K = nkinds1(N);
    static const int ws[] = {1, 8, 3};
    Base1<R, N> B(c);
    auto x = make_op1<R, N>(c, B, conf % K, "x");
    auto y = make_op1<R, N>(c, B, c.choose(K, "kind of y"), "y");
    int kw = sym::thorough() ? ws[conf / K] : ws[c.choose(2, "kind of w")];
    auto w = make_op1<R, N>(c, B, kw, "w");
    R a = c.in("a"), b = c.in("b"), k = c.in("k");
    auto z = a * x.z + b * y.z;
    R e = a * cov(x.z, w.z) + b * cov(y.z, w.z);
    c.eq("cov(ax+by, w)", cov(z, w.z), e);
    c.eq("cov(w, ax+by)", cov(w.z, z), e);
    c.eq("cov(ax+by+k, w)", cov(z + k, w.z), e);
    c.eq("cov(ax+by, w-k)", cov(z, w.z - k), e);
    c.eq("cov(x-y, w)", cov(x.z - y.z, w.z), cov(x.z, w.z) - cov(y.z, w.z));
    c.eq("cov(-x, w)", cov(-x.z, w.z), -cov(x.z, w.z));
    c.eq("var(x+k)", cvar(x.z + k), cvar(x.z));
    auto s = x.z + y.z;
    c.eq("var(x+y)", cvar(s), cvar(x.z) + cvar(y.z) + R(2) * cov(x.z, y.z));
    auto t = x.z; t += k;
    c.eq("cov(x+=k, w)", cov(t, w.z), cov(x.z, w.z));
    t = x.z; t -= k;
    c.eq("var(x-=k)", cvar(t), cvar(x.z));
}
HARNESS(cauchy_schwarz, 6, 6, "cov(x,y)^2 <= var(x) var(y) for dependent operands on 2 base variables") {
    constexpr int N = 2;
    static const int kk[][2] = {{1, 3}, {1, 8}, {8, 8}, {3, 8}, {1, 2}, {12, 8}};
    Base1<R, N> B(c);
    auto x = make_op1<R, N>(c, B, kk[conf][0], "x");
    auto y = make_op1<R, N>(c, B, kk[conf][1], "y");
    R k = cov(x.z, y.z);
    c.rel("cov^2 <= var var", k * k, LE, cvar(x.z) * cvar(y.z));
}
HARNESS(disjoint, 9, 9, "variables over disjoint sets of base variables (4 base variables, up to 2 each)") {
    constexpr int N = 4;
    Base1<R, N> B(c);
    auto mk = [&](int k, int o, const std::string &nm) {
        if (k == 0) return unc::UReal<R>(B.b[o]);
        if (k == 1) return unary(B.b[o], c.in(nm), c.in(S(nm, "d")));
        return binary(B.b[o], B.b[o + 1], c.in(nm), c.in(S(nm, "d0")), c.in(S(nm, "d1")));
    };
    for (int o = 0; o <= 2; o += 2) {
        auto x = mk(conf / 3, o, S("x", o)), y = mk(conf % 3, 2 - o, S("y", o));
        c.eq("cov of unrelated", cov(x, y), R(0));
        c.eq("cov of unrelated, swapped", cov(y, x), R(0));
    }
    // interleaved ids
    auto x = binary(B.b[0], B.b[2], c.in("p"), c.in("pd0"), c.in("pd1"));
    auto y = binary(B.b[1], B.b[3], c.in("q"), c.in("qd0"), c.in("qd1"));
    c.eq("cov of unrelated, interleaved", cov(x, y), R(0));
    auto w = binary(B.b[1], B.b[2], c.in("r"), c.in("rd0"), c.in("rd1"));
    c.eq("cov, one shared", cov(x, w), c.in("pd1") * c.in("rd1") * B.sg[2] * B.sg[2]);
    c.eq("cov, one shared", cov(w, y), c.in("rd0") * c.in("qd0") * B.sg[1] * B.sg[1]);
}

#include "many.hpp"
HARNESS(many_variables, NSIZES * NPAT, (NSIZES + 1) * NPAT, "covariances, variances and linearity on operands that depend on 5, 9, 17, 33, 67 and 131 (thorough: 300) base variables shared in 8 patterns; all numbers symbolic") {
    const int n = many_size(conf / NPAT), pat = conf % NPAT;
    Many<R> B(c, n);
    auto x = make_many<R>(c, B, pat, 0, "x"), y = make_many<R>(c, B, pat, 1, "y");
    check_many<R>(c, "x", B, x.z, x.mean, x.g);
    check_many<R>(c, "y", B, y.z, y.mean, y.g);
    R e = cov_many<R>(B, x.g, y.g);
    c.eq("cov(x,y)", cov(x.z, y.z), e);
    c.eq("cov(y,x)", cov(y.z, x.z), e);
    if (pat < 3) c.eq("no shared variable: covariance zero", cov(x.z, y.z), R(0));
    R a = c.in("a"), b = c.in("b");
    auto z = a * x.z + b * y.z;
    c.eq("cov(ax+by, x)", cov(z, x.z), a * cvar(x.z) + b * e);
    c.eq("cov(y, ax+by)", cov(y.z, z), a * e + b * cvar(y.z));
    c.eq("var(ax+by)", cvar(z), a * a * cvar(x.z) + b * b * cvar(y.z) + R(2) * a * b * e);
}
HARNESS(many_correlation, 6, 6, "corr of operands that depend on 5..12 base variables with positive deviations, small numbers as derivatives but one") {
    const int n = 5 + conf, pat = (conf * 3 + 3) % NPAT;
    Many<R> B(c, n, true);
    std::vector<R> g(n, R(0)), h(n, R(0));
    std::vector<unc::UReal<R>> xs; std::vector<R> ds, es;
    for (int i = 0; i < n; ++i) {
        if (inpat(pat, 0, i, n)) g[i] = i == n / 2 ? c.nonzero("k") : R(i + 1);
        if (inpat(pat, 1, i, n)) h[i] = R(2 * (i % 3) - 5);
        xs.push_back(B.b[i]); ds.push_back(g[i]); es.push_back(h[i]);
    }
    auto x = nary(xs.begin(), xs.end(), c.in("mx"), ds.begin()), y = nary(xs.begin(), xs.end(), c.in("my"), es.begin());
    R r = corr(x, y);
    c.eq("corr^2 var var = cov^2", r * r * cvar(x) * cvar(y), cov_many<R>(B, g, h) * cov_many<R>(B, g, h));
    c.eq("corr(x,y) s(x) s(y) = cov(x,y)", r * csdev(x) * csdev(y), cov(x, y));
    c.eq("corr symmetric", corr(y, x), r);
    c.eq("corr(x,x) = 1", corr(x, x), R(1));
}
