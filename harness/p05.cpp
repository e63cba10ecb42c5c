#include "common.hpp"
#include <uncertainties/impl.hpp>

// one step of a history; the numbers it needs are named after the step
template<class R, int N> static void step(sym::Ctx<R> &c, const Base1<R, N> &B, unc::UReal<R> &z, int op, int k) {
    switch (op) {
    case 0: z = unary(z, c.in(S("m", k)), c.in(S("d", k))); break;
    case 1: z = binary(z, B.b[1], c.in(S("m", k)), c.in(S("d", k)), c.in(S("e", k))); break;
    case 2: z += B.b[0]; break;
    case 3: z *= z; break;
    case 4: { unc::UReal<R> w = z; z = w - B.b[1]; break; }
    case 5: z = change_nom(z, c.in(S("m", k))); break;
    case 6: z *= c.in(S("m", k)); break;
    case 7: { std::vector<unc::UReal<R>> v{z, z, B.b[0]}; std::vector<R> d{c.in(S("d", k)), R(2), c.in(S("e", k))};
              z = nary(v.begin(), v.end(), c.in(S("m", k)), d.begin()); break; }
    case 8: z = -z; break;
    default: z -= z; break;
    }
}
constexpr int NOPS = 10, NSTART = 4, NQ = 5;
template<class R> static void ask(unc::UReal<R> &z, int q) {
    const unc::UReal<R> &cz = z;
    switch (q) {
    case 0: break;
    case 1: (void)z.s(); break;
    case 2: (void)var(z); break;
    case 3: (void)cz.s(); (void)var(cz); break;
    default: { auto y = z; (void)y.s(); z = y; break; }   // asked on a copy, copied back
    }
}
template<class R, int N> static unc::UReal<R> begin(sym::Ctx<R> &c, const Base1<R, N> &B, int k) {
    static const int kinds[] = {0, 1, 8, 3};
    return make_op1<R, N>(c, B, kinds[k], "x").z;
}
template<class R, int N> static void final_check(sym::Ctx<R> &c, const std::string &lab, const Base1<R, N> &B,
                                                 const unc::UReal<R> &z, const unc::UReal<R> &ref) {
    const unc::UReal<R> &cz = z;
    c.eq(lab + " mean", cz.n(), ref.n());
    c.truth(lab + " identity", cz.indepid() == ref.indepid() && cz.isindep() == ref.isindep());
    for (int i = 0; i < N; ++i) c.eq(lab + S(" covariance ", i), cov(cz, B.b[i]), cov(ref, B.b[i]));
    R v = cov(ref, ref);
    c.eq(lab + " cov with itself", cov(cz, cz), v);
    c.eq(lab + " variance", cvar(cz), v);
    c.eq(lab + " deviation", csdev(cz) * csdev(cz), v);
    c.rel(lab + " deviation sign", csdev(cz), GE, R(0));
    unc::UReal<R> m = z;
    c.eq(lab + " deviation (mutable)", m.s() * m.s(), v);
    c.rel(lab + " deviation sign (mutable)", m.s(), GE, R(0));
    c.eq(lab + " variance (mutable, after deviation)", var(m), v);
    c.eq(lab + " variance (const, after deviation)", cvar(m), v);
    unc::UReal<R> m2 = z;
    c.eq(lab + " variance (mutable)", var(m2), v);
    c.eq(lab + " deviation (after variance)", m2.s() * m2.s(), v);
    c.eq(lab + " deviation (const, after variance)", csdev(m2) * csdev(m2), v);
    c.eq(lab + " sdev()", sdev(z) * sdev(z), v);
    // a copy gives the same answers
    unc::UReal<R> cp = m;
    c.eq(lab + " copy variance", cvar(cp), v);
}
HARNESS(histories2, NOPS * NOPS, NOPS * NOPS, "every history of 2 operations (10 kinds) from 4 kinds of start, each step preceded by any of 5 query patterns; all numbers symbolic") {
    constexpr int N = 2;
    Base1<R, N> B(c);
    int st = c.choose(NSTART, "start");
    auto z = begin<R, N>(c, B, st), w = z;
    int cf = conf;
    for (int k = 0; k < 2; ++k) {
        ask(z, c.choose(NQ, "query"));
        step<R, N>(c, B, z, cf % NOPS, k);
        step<R, N>(c, B, w, cf % NOPS, k);
        cf /= NOPS;
    }
    ask(z, c.choose(NQ, "query"));
    final_check<R, N>(c, "history", B, z, w);
}
HARNESS(histories3, 100, NOPS * NOPS * NOPS, "histories of 3 operations (quick: a tenth of them), deviation asked before any subset of the steps; all numbers symbolic") {
    constexpr int N = 2;
    Base1<R, N> B(c);
    int st = 1 + c.choose(NSTART - 1, "start");
    auto z = begin<R, N>(c, B, st), w = z;
    int cf = sym::thorough() ? conf : (conf * 10 + (conf / 10 + conf) % 10);
    for (int k = 0; k < 3; ++k) {
        ask(z, c.choose(2, "query"));
        step<R, N>(c, B, z, cf % NOPS, k);
        step<R, N>(c, B, w, cf % NOPS, k);
        cf /= NOPS;
    }
    final_check<R, N>(c, "history", B, z, w);
}
HARNESS(operands_unchanged, nkinds1(2) * nkinds1(2), nkinds1(2) * nkinds1(2), "queries and operations leave their (const) operands unchanged, every pair of operand kinds") {
    constexpr int N = 2;
    const int K = nkinds1(N);
    Base1<R, N> B(c);
    auto x = make_op1<R, N>(c, B, conf / K, "x");
    auto y = make_op1<R, N>(c, B, conf % K, "y");
    unc::UReal<R> x0 = x.z, y0 = y.z;
    (void)cov(x.z, y.z); (void)cov(x.z, x.z); (void)csdev(x.z); (void)cvar(y.z); (void)sdev(x.z); (void)nom(y.z);
    auto a = x.z + y.z; auto b = x.z * y.z; auto d = unary(x.z, R(1), c.in("d")); a += y.z; b -= x.z; d *= d; (void)a.s(); (void)b.s(); (void)d.s();
    final_check<R, N>(c, "left", B, x.z, x0);
    final_check<R, N>(c, "right", B, y.z, y0);
    for (int i = 0; i < N; ++i) c.eq(S("left coefficient ", i), cov(x.z, B.b[i]), x.g[i] * B.sg[i] * B.sg[i]);
}

#include "many.hpp"
// one step of a long history, on several variables at once
template<class R> static void lstep(sym::Ctx<R> &c, const Many<R> &B, std::vector<unc::UReal<R>> &v, int t, int conf) {
    const int n = B.size(), V = (int)v.size();
    const int op = (t * (2 * conf + 5) + t / 11 + conf) % 12, a = (t + t / 3) % V, b = (t * 2 + 1) % V, i = (t * 5 + conf) % n;
    switch (op) {
    case 0: v[a] += B.b[i]; break;
    case 1: v[a] -= v[b]; break;
    case 2: v[a] = v[b] + B.b[i]; break;
    case 3: v[a] = -v[b]; break;
    case 4: v[a] = change_nom(v[b], c.in(S("m", t))); break;
    case 5: v[a] = binary(v[a], v[b], c.in(S("m", t)), R(1), t % 5 ? R(-2) : c.in(S("d", t))); break;
    case 6: v[a] *= R(t % 3 - 1); break;
    case 7: { std::vector<unc::UReal<R>> x(v.begin(), v.end()); std::vector<R> d(V, R(1)); d[a] = R(-1);
              v[b] = nary(x.begin(), x.end(), c.in(S("m", t)), d.begin()); break; }
    case 8: v[a] = B.b[i]; break;
    case 9: v[a] = unary(v[b], c.in(S("m", t)), t % 4 ? R(2) : c.in(S("d", t))); break;
    case 10: { auto w = v[a]; v[b] = std::move(w); break; }
    default: if (t % 4 == 0) v[a] = unc::UReal<R>(c.in(S("m", t))); else v[a] += v[a]; break;
    }
}
HARNESS(long_histories, 24, 48, "histories of 60 (thorough: 150) operations (12 kinds) on 4 variables over 10 base variables: any of 5 query patterns before each step against the same history without queries") {
    const int L = sym::thorough() ? 150 : 60;
    Many<R> B(c, 10);
    std::vector<unc::UReal<R>> v, w;
    for (int k = 0; k < 4; ++k) v.push_back(k ? B.b[k] : unc::UReal<R>(c.in("start")));
    w = v;
    for (int t = 0; t < L; ++t) {
        ask(v[(t + t / 3) % 4], (t * 7 + conf) % 6);
        if (t % 3 == 0) ask(v[(t * 2 + 1) % 4], (t + conf) % 5);
        lstep(c, B, v, t, conf);
        lstep(c, B, w, t, conf);
    }
    for (int k = 0; k < 4; ++k) {
        const std::string lab = S("variable ", k);
        c.eq(lab + " mean", v[k].n(), w[k].n());
        c.truth(lab + " identity", v[k].indepid() == w[k].indepid() && v[k].isindep() == w[k].isindep());
        const R e = cov(w[k], w[k]);
        for (int i = 0; i < B.size(); ++i) c.eq(lab + S(" covariance ", i), cov(v[k], B.b[i]), cov(w[k], B.b[i]));
        c.eq(lab + " variance", cvar(v[k]), e);
        c.eq(lab + " deviation", csdev(v[k]) * csdev(v[k]), e);
        c.rel(lab + " deviation sign", csdev(v[k]), GE, R(0));
        c.eq(lab + " cov with itself", cov(v[k], v[k]), e);
        unc::UReal<R> m = v[k];
        c.eq(lab + " deviation (mutable)", m.s() * m.s(), e);
        c.eq(lab + " variance (mutable)", var(m), e);
    }
}
HARNESS(many_variables, 4 * NPAT, 6 * NPAT, "queries on variables that depend on 9, 17, 33 and 67 (thorough: 131, 300) base variables, repeated and in every order, then operations on what was asked") {
    const int n = many_size(conf / NPAT + 1), pat = conf % NPAT;
    Many<R> B(c, n);
    auto x = make_many<R>(c, B, pat, 0, "x"), y = make_many<R>(c, B, pat, 1, "y");
    unc::UReal<R> z = x.z;
    if (pat & 1) (void)csdev(z);
    (void)z.s(); (void)var(z); (void)z.s();
    check_many<R>(c, "asked", B, z, x.mean, x.g);
    z += y.z;
    std::vector<R> g(n);
    for (int i = 0; i < n; ++i) g[i] = x.g[i] + y.g[i];
    check_many<R>(c, "asked, added to", B, z, x.mean + y.mean, g);
    z -= y.z; (void)var(z);
    z = -z;
    for (int i = 0; i < n; ++i) g[i] = -x.g[i];
    check_many<R>(c, "asked, subtracted, negated", B, z, -x.mean, g);
    check_many<R>(c, "left", B, x.z, x.mean, x.g);
    check_many<R>(c, "right", B, y.z, y.mean, y.g);
}
