#include "common.hpp"
#include <uncertainties/impl.hpp>

// check z against the propagation formula: derivs[k] is the derivative with respect to args[k]
template<class R, int N> static void check1(sym::Ctx<R> &c, const std::string &lab, const Base1<R, N> &B,
        const unc::UReal<R> &z, const R &mu, const std::vector<const unc::UReal<R> *> &args, const std::vector<R> &d) {
    c.eq(lab + " mean", z.n(), mu);
    R v = R(0);
    for (int i = 0; i < N; ++i) {
        R e = R(0);
        for (size_t k = 0; k < args.size(); ++k) e += d[k] * cov(*args[k], B.b[i]);
        c.eq(lab + S(" cov with base ", i), cov(z, B.b[i]), e);
    }
    for (size_t k = 0; k < args.size(); ++k) {
        R e = R(0);
        for (size_t l = 0; l < args.size(); ++l) e += d[l] * cov(*args[l], *args[k]);
        c.eq(lab + S(" cov with argument ", (int)k), cov(z, *args[k]), e);
        v += d[k] * e;
    }
    c.eq(lab + " cov with itself", cov(z, z), v);
    c.eq(lab + " variance", cvar(z), v);
    unc::UReal<R> w = z;
    c.eq(lab + " variance (mutable)", var(w), v);
    c.eq(lab + " deviation squared", w.s() * w.s(), v);
}

HARNESS(unary_fn, nkinds1(2), nkinds1(3), "unary over every operand kind on 2 (thorough 3) base variables; all numbers symbolic reals") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        Base1<R, N> B(c);
        auto x = make_op1<R, N>(c, B, conf, "x");
        R m = c.in("m"), d = c.in("d");
        auto z = unary(x.z, m, d);
        check1<R, N>(c, "unary", B, z, m, {&x.z}, {d});
        for (int i = 0; i < N; ++i) c.eq(S("unary coefficient ", i), cov(z, B.b[i]), d * x.g[i] * B.sg[i] * B.sg[i]);
        // the argument is not changed
        c.eq("argument mean", x.z.n(), x.mean);
        auto y = unary(z, m, d);       // chained
        check1<R, N>(c, "unary twice", B, y, m, {&z}, {d});
    };
    if (sym::thorough()) go(std::integral_constant<int, 3>()); else go(std::integral_constant<int, 2>());
}

HARNESS(binary_fn, nkinds1(2) * nkinds1(2), nkinds1(3) * nkinds1(3),
        "binary over every pair of operand kinds on 2 (thorough 3) base variables, the same object twice included; all numbers symbolic reals") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        const int K = nkinds1(N);
        Base1<R, N> B(c);
        auto x = make_op1<R, N>(c, B, conf / K, "x");
        auto y = make_op1<R, N>(c, B, conf % K, "y");
        R m = c.in("m"), dx = c.in("dx"), dy = c.in("dy");
        auto z = binary(x.z, y.z, m, dx, dy);
        check1<R, N>(c, "binary", B, z, m, {&x.z, &y.z}, {dx, dy});
        for (int i = 0; i < N; ++i)
            c.eq(S("binary coefficient ", i), cov(z, B.b[i]), (dx * x.g[i] + dy * y.g[i]) * B.sg[i] * B.sg[i]);
        c.eq("argument mean", x.z.n(), x.mean);
        c.eq("argument mean", y.z.n(), y.mean);
        if (conf / K == conf % K) {
            auto w = binary(x.z, x.z, m, dx, dy);
            check1<R, N>(c, "binary same", B, w, m, {&x.z, &x.z}, {dx, dy});
        }
    };
    if (sym::thorough()) go(std::integral_constant<int, 3>()); else go(std::integral_constant<int, 2>());
}

HARNESS(nary_fn, nkinds1(2) * nkinds1(2), nkinds1(2) * nkinds1(2) * 4,
        "nary over 0..4 arguments of every pair of operand kinds on 2 base variables, repeated arguments included; all numbers symbolic reals") {
    constexpr int N = 2;
    const int K = nkinds1(N);
    Base1<R, N> B(c);
    int k2 = conf / (K * K); conf %= K * K;
    auto x = make_op1<R, N>(c, B, conf / K, "x");
    auto y = make_op1<R, N>(c, B, conf % K, "y");
    static const int third[] = {K - 1, 5, 1, 0};
    auto w = make_op1<R, N>(c, B, third[k2], "w");
    int n = c.choose(5, "number of arguments");
    const unc::UReal<R> *all[4] = {&x.z, &y.z, &w.z, &x.z};
    std::vector<unc::UReal<R>> xs; std::vector<R> ds; std::vector<const unc::UReal<R> *> args;
    for (int i = 0; i < n; ++i) { xs.push_back(*all[i]); args.push_back(all[i]); ds.push_back(c.in(S("d", i))); }
    R m = c.in("m");
    auto z = nary(xs.begin(), xs.end(), m, ds.begin());
    check1<R, N>(c, S("nary ", n), B, z, m, args, ds);
}

HARNESS(assign_fn, nkinds1(2) * nkinds1(2), nkinds1(3) * nkinds1(3),
        "binary_assign over every pair of operand kinds on 2 (thorough 3) base variables and aliased; all numbers symbolic reals") {
    auto go = [&](auto NN) {
        constexpr int N = decltype(NN)::value;
        const int K = nkinds1(N);
        Base1<R, N> B(c);
        auto x = make_op1<R, N>(c, B, conf / K, "x");
        auto y = make_op1<R, N>(c, B, conf % K, "y");
        R m = c.in("m"), dx = c.in("dx"), dy = c.in("dy");
        auto z = x.z;
        z.binary_assign(y.z, m, dx, dy);
        check1<R, N>(c, "assign", B, z, m, {&x.z, &y.z}, {dx, dy});
        if (conf / K == conf % K) {
            auto w = x.z;
            w.binary_assign(w, m, dx, dy);
            check1<R, N>(c, "assign aliased", B, w, m, {&x.z, &x.z}, {dx, dy});
        }
    };
    if (sym::thorough()) go(std::integral_constant<int, 3>()); else go(std::integral_constant<int, 2>());
}

#include "many.hpp"
HARNESS(many_variables, NSIZES * NPAT, (NSIZES + 1) * NPAT,
        "binary, unary, nary and binary_assign on operands that depend on 5, 9, 17, 33, 67 and 131 (thorough: 300) base variables shared in 8 patterns; all numbers symbolic") {
    Many<R> B(c, many_size(conf / NPAT));
    const int n = B.size(), pat = conf % NPAT;
    auto x = make_many<R>(c, B, pat, 0, "x"), y = make_many<R>(c, B, pat, 1, "y");
    check_many<R>(c, "nary", B, x.z, x.mean, x.g);
    c.eq("cov of the operands", cov(x.z, y.z), cov_many<R>(B, x.g, y.g));
    R m = c.in("m"), dx = c.in("dx"), dy = c.in("dy");
    std::vector<R> g(n), h(n), p(n);
    for (int i = 0; i < n; ++i) { g[i] = dx * x.g[i] + dy * y.g[i]; h[i] = dx * x.g[i]; p[i] = g[i]; }
    p[0] += dy; p[n - 1] += dx;
    check_many<R>(c, "binary", B, binary(x.z, y.z, m, dx, dy), m, g);
    check_many<R>(c, "unary", B, unary(x.z, m, dx), m, h);
    auto z = x.z;
    z.binary_assign(y.z, m, dx, dy);
    check_many<R>(c, "assign", B, z, m, g);
    z = x.z; (void)z.s();
    z.binary_assign(y.z, m, dx, dy);
    check_many<R>(c, "assign after a question", B, z, m, g);
    for (int i = 0; i < n; ++i) h[i] = (dx + dy) * x.g[i];
    z = x.z;
    z.binary_assign(z, m, dx, dy);
    check_many<R>(c, "assign aliased", B, z, m, h);
    std::vector<unc::UReal<R>> xs{B.b[n - 1], x.z, y.z, B.b[0]}; std::vector<R> ds{dx, dx, dy, dy};
    check_many<R>(c, "nary of results", B, nary(xs.begin(), xs.end(), m, ds.begin()), m, p);
}
HARNESS(many_arguments, 7, 7, "nary over 5, 9, 17, 33, 70, 140 and 300 arguments: base variables, copies, exact numbers and two-variable results in turn; all numbers symbolic") {
    static const int size[] = {5, 9, 17, 33, 70, 140, 300};
    const int n = size[conf];
    Many<R> B(c, 4);
    std::vector<unc::UReal<R>> xs; std::vector<R> ds, g(4, R(0));
    for (int k = 0; k < n; ++k) {
        R d = c.in(S("d", k));
        switch (k % 4) {
        case 0: xs.push_back(B.b[k % 3]); g[k % 3] += d; break;
        case 1: { R e = c.in(S("e", k)); xs.push_back(unary(B.b[3], c.in(S("m", k)), e)); g[3] += d * e; break; }
        case 2: xs.push_back(unc::UReal<R>(c.in(S("m", k)))); break;
        default: { R e = c.in(S("e", k)), f = c.in(S("f", k)); const int a = k % 3, b = (k + 1) % 3;
                   xs.push_back(binary(B.b[a], B.b[b], c.in(S("m", k)), e, f)); g[a] += d * e; g[b] += d * f; break; }
        }
        ds.push_back(d);
    }
    R m = c.in("m");
    check_many<R>(c, "nary", B, nary(xs.begin(), xs.end(), m, ds.begin()), m, g);
}
