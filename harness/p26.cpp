#include "mathspec.hpp"
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// a value: 0 symbolic nonzero | 1 +inf | 2 -inf | 3 nan | 4 zero | 5 subnormal
template<class R> struct Val { R v; bool fin, nor; };
template<class R> static Val<R> val(sym::Ctx<R> &c, int k, const std::string &nm, bool positive = false) {
    switch (k) {
    case 0: return {positive ? c.pos(nm) : c.nonzero(nm), true, true};
    case 1: return {c.special(0), false, false};
    case 2: return {positive ? c.special(0) : c.special(1), false, false};
    case 3: return {c.special(2), false, false};
    case 4: return {R(0), true, false};
    default: return {std::numeric_limits<R>::denorm_min(), true, false};
    }
}
constexpr int NV = 6;
template<class R, class U> static void expect(sym::Ctx<R> &c, const std::string &lab, const U &x, bool fin, bool nor) {
    c.truth(lab + ": finite", isfinite(x) == fin);
    c.truth(lab + ": normal", isnormal(x) == nor);
}
HARNESS(first_order, NV * NV, NV * NV, "mean and deviation each any nonzero real, infinite, nan, zero or subnormal; fresh, copied, rescaled, numbers") {
    auto m = val(c, conf % NV, "m"), s = val(c, conf / NV, "s", true);
    unc::UReal<R> x(m.v, s.v);
    expect<R>(c, "fresh", x, m.fin && s.fin, m.nor && s.nor);
    auto y = x;
    expect<R>(c, "copy", y, m.fin && s.fin, m.nor && s.nor);
    unc::UReal<R> k(m.v);
    expect<R>(c, "number", k, m.fin, false);
    unc::UReal<R> b(c.in("b"), R(1));
    expect<R>(c, "scaled", unary(b, m.v, s.v), m.fin && s.fin, m.nor && s.nor);
    expect<R>(c, "scaled by the negative", unary(b, m.v, -s.v), m.fin && s.fin, m.nor && s.nor);
    auto z = binary(b, b, m.v, s.v, R(0));      // a result with a coefficient map
    if (s.v == s.v && conf / NV != 5) expect<R>(c, "one-dependency result", z, m.fin && s.fin, m.nor && s.nor);
    expect<R>(c, "default", unc::UReal<R>(), true, false);
}
HARNESS(first_order_multi, NV * NV * NV, NV * NV * NV, "results over two variables: mean and both coefficients each any nonzero real, infinite, nan, zero") {
    const int ks[3] = {conf % NV, conf / NV % NV, conf / NV / NV};
    if (ks[1] == 5 || ks[2] == 5) { c.truth("skipped: squares of subnormals are outside exact arithmetic", true); return; }
    auto m = val(c, ks[0], "m"), p = val(c, ks[1], "p"), q = val(c, ks[2], "q");
    unc::UReal<R> a(c.in("a"), R(1)), b(c.in("b"), R(1));
    auto z = binary(a, b, m.v, p.v, q.v);
    const bool sf = p.fin && q.fin, sn = sf && (p.nor || q.nor);
    expect<R>(c, "result", z, m.fin && sf, m.nor && sn);
    (void)z.s();
    expect<R>(c, "result, deviation asked before", z, m.fin && sf, m.nor && sn);
    // any symbolic mean and deviation
    R w = c.in("w");
    auto y = change_nom(z, w);
    expect<R>(c, "with another mean", y, sf, sn && w != R(0));
}
template<class R, unc::Prop P> static void second(sym::Ctx<R> &c, const int *k) {
    auto m = val(c, k[0], "m"), g = val(c, k[1], "g"), h = val(c, k[2], "h");
    std::array<R, 6> v; for (int i = 0; i < 6; ++i) v[i] = c.in(S("v", i + 3));
    unc::UReal2<R, P> b(c.in("b"), R(1), v, R(-1));
    const bool hn = h.nor;
    expect<R>(c, "one variable", unary(b, m.v, g.v, h.v), m.fin && g.fin && h.fin, m.nor && g.nor && hn);
    expect<R>(c, "number", unc::UReal2<R, P>(m.v), m.fin, m.nor);
    unc::UReal2<R, P> x(m.v, R(1), v, R(-1));
    expect<R>(c, "fresh", x, m.fin, false);
}
HARNESS(second_order, 2 * NV * NV * NV, 2 * NV * NV * NV, "first-order mean, gradient and second derivative each any nonzero real, infinite, nan, zero or subnormal; both modes") {
    const int q = conf / 2, k[3] = {q % NV, q / NV % NV, q / NV / NV};
    if (conf % 2) second<R, PE>(c, k); else second<R, PM>(c, k);
}
// results over two or three variables: one stored coefficient after the other is exceptional
HARNESS(second_order_multi, NV * 10, NV * 10, "results over 3 variables with all derivatives nonzero, exactly one of mean, gradient, diagonal or mixed second derivatives exceptional") {
    const int kind = conf % NV, where = conf / NV;
    constexpr int N = 3;
    Base2<R, PM, N> B(c, true);
    Val<R> e = val(c, kind, "e");
    auto at = [&](int w, const std::string &n) { return w == where ? e.v : c.nonzero(n); };
    unc::UReal2<R, PM> z(at(0, "m"));
    for (int i = 0; i < N; ++i) z = z + unary(B.b[i], R(0), at(1 + i, S("g", i)), at(4 + i, S("h", i)));
    int w = 7;
    for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j, ++w) z = z + binary(B.b[i], B.b[j], R(0), R(0), R(0), R(0), R(0), at(w, S("h", i, j)));
    if (kind == 4 && where >= 7) { c.truth("finite", isfinite(z)); return; }   // a zero mixed derivative need not be stored
    if (kind == 5 && where >= 4) { c.truth("finite", isfinite(z)); return; }   // halved when stored
    expect<R>(c, "result", z, e.fin, e.nor);
}

HARNESS(many_variables, NV * 12, NV * 12, "results over 5, 17 and 67 variables with one exceptional coefficient, first, in the middle, near the end or last") {
    static const int size[] = {5, 17, 67};
    const int kind = conf % NV, n = size[conf / NV % 3], where = conf / NV / 3;
    const int at = where == 0 ? 0 : where == 1 ? n / 2 : where == 2 ? n - 2 : n - 1;
    auto e = val(c, kind, "e");
    std::vector<unc::UReal<R>> b; std::vector<R> d;
    for (int i = 0; i < n; ++i) { b.push_back(unc::UReal<R>(c.in(S("b", i)), R(1))); d.push_back(i == at ? e.v : c.nonzero(S("d", i))); }
    auto z = nary(b.begin(), b.end(), c.nonzero("m"), d.begin());
    if (kind != 5) expect<R>(c, "result", z, e.fin, e.fin);
    const unc::UReal<R> &cz = z;
    if (kind != 5) expect<R>(c, "result (const)", cz, e.fin, e.fin);
    (void)z.s();
    if (kind != 5) expect<R>(c, "result, deviation asked before", z, e.fin, e.fin);
    else c.truth("finite", isfinite(z));
}
