#include "common2.hpp"
#include <algorithm>
#include <uncertainties/distr.hpp>
#include <uncertainties/impl.hpp>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// a history of constructions, copies and computations over the three classes; each variable with the identity it must have
template<class R> struct Var { int cls; unc::UReal<R> a; unc::UReal2<R, PM> m; unc::UReal2<R, PE> e; int who; };   // who: index of its identity, -1 none, -2 several
constexpr int NSTEP = 14;
template<class R> static unc::Id idof(const Var<R> &v) { return v.cls == 0 ? v.a.indepid() : v.cls == 1 ? v.m.indepid() : v.e.indepid(); }
template<class R> static bool indep(const Var<R> &v) { return v.cls == 0 ? v.a.isindep() : v.cls == 1 ? v.m.isindep() : v.e.isindep(); }
template<class R> static R covar(const Var<R> &x, const Var<R> &y) { return x.cls == 0 ? cov(x.a, y.a) : x.cls == 1 ? cov(x.m, y.m) : cov(x.e, y.e); }
template<class R> static R vari(const Var<R> &x) { return covar(x, x); }

// questions about a variable must not change who it is
template<class R> static void ask(Var<R> &v, int q) {
    if (q == 0) return;
    if (v.cls == 0) { (void)v.a.n(); (void)v.a.s(); (void)var(v.a); }
    else if (v.cls == 1) { (void)v.m.n(); (void)v.m.s(); (void)v.m.m(3); }
    else { (void)v.e.n(); (void)v.e.s(); (void)v.e.m(3); }
}
// step s: constructions 0..6, numbers 7..8, copies and computations 9..13 (of the last variable / last two of a class)
template<class R> static void step(sym::Ctx<R> &c, std::vector<Var<R>> &h, int &created, int s, int t) {
    Var<R> v; v.cls = 0; v.who = -1;
    R n = c.in(S("n", t));
    std::array<R, 6> sm; for (int k = 0; k < 6; ++k) sm[k] = c.in(S("v", k + 3, "_", t));
    auto cm = [&] { std::array<R, 7> m; m[0] = c.pos(S("var", t)); for (int k = 0; k < 6; ++k) m[k + 1] = sm[k]; return m; };
    auto sd = [&] { return c.pos(S("s", t)); };
    if (s <= 6) v.who = created++;
    switch (s) {
    case 0: v.a = unc::UReal<R>(n, sd()); break;
    case 1: v.cls = 1; v.m = unc::UReal2<R, PM>(n, sd(), sm, R(-1)); break;
    case 2: v.cls = 2; v.e = unc::UReal2<R, PE>(n, sd(), sm, R(-1)); break;
    case 3: v.cls = 1; v.m = unc::UReal2<R, PM>(n, cm(), R(-1)); break;
    case 4: v.cls = 2; v.e = unc::UReal2<R, PE>(n, cm(), R(-1)); break;
    case 5: v.cls = 1; v.m = unc::distr::normal<unc::UReal2<R, PM>>(n, sd()); break;
    case 6: { v.cls = 2; R w = sd(); v.e = unc::distr::uniform<unc::UReal2<R, PE>>(n, n + w); break; }
    case 7: v.a = unc::UReal<R>(n); break;
    case 8: v.cls = 1; v.m = unc::UReal2<R, PM>(n); break;
    default: {
        if (h.empty()) { v.a = unc::UReal<R>(); break; }
        v = h.back();
        const R m = c.in(S("m", t)), d = c.in(S("d", t)), d2 = c.in(S("e", t)), q = c.in(S("h", t));
        if (s == 9) break;                                   // copy
        if (s == 13) {                                       // difference with itself: dependent still, with coefficient zero
            if (v.cls == 0) v.a -= v.a; else if (v.cls == 1) v.m = v.m - v.m; else v.e = v.e - v.e;
            break;
        }
        if (s == 10) {                                       // function of one variable
            if (v.cls == 0) v.a = unary(v.a, m, d); else if (v.cls == 1) v.m = unary(v.m, m, d, q); else v.e = unary(v.e, m, d, q);
            break;
        }
        // function of two variables: the last and the last before it of the same class (itself if none)
        const Var<R> *w = &h.back();
        for (size_t i = 0; i + 1 < h.size(); ++i) if (h[i].cls == v.cls) w = &h[i];
        if (s == 11) {
            if (v.cls == 0) v.a = binary(v.a, w->a, m, d, d2); else if (v.cls == 1) v.m = binary(v.m, w->m, m, d, d2, q, q, q); else v.e = binary(v.e, w->e, m, d, d2, q, q, q);
        } else {
            if (v.cls == 0) v.a += w->a; else if (v.cls == 1) v.m = v.m - w->m; else v.e = v.e * w->e;
        }
        if (v.who != w->who) v.who = v.who == -1 ? w->who : w->who == -1 ? v.who : -2;
    }
    }
    h.push_back(v);
}
template<class R> static void judge(sym::Ctx<R> &c, const std::vector<Var<R>> &h, int created) {
    std::vector<unc::Id> id(created, 0);
    for (size_t i = 0; i < h.size(); ++i) {
        const std::string lab = S("variable ", int(i));
        c.truth(lab + " independent", indep(h[i]) == (h[i].who != -2));
        const unc::Id k = idof(h[i]);
        if (h[i].who == -2) c.truth(lab + " invalid identity", k == unc::invalid_id);
        else if (h[i].who == -1) c.truth(lab + " no identity", k == 0);
        else {
            c.truth(lab + " positive identity", k > 0);
            if (id[h[i].who] == 0) id[h[i].who] = k;
            c.truth(lab + " identity kept", id[h[i].who] == k);
        }
    }
    for (int i = 0; i < created; ++i) for (int j = 0; j < i; ++j) c.truth(S("identities ", i, " and ", j, " differ"), id[i] != id[j]);
}
HARNESS(history, NSTEP * NSTEP, NSTEP * NSTEP, "histories of 3 (thorough 4) steps: constructions of all three classes by every constructor, numbers, copies, functions of one and two variables, in-place sums, self differences; mean and deviation asked or not before every step") {
    auto &st = eigstub::state<R>();
    for (int i = 0; i < 5; ++i) st.ev(i) = R(1);
    std::vector<Var<R>> h; int created = 0;
    const int len = sym::thorough() ? 4 : 3;
    for (int t = 0; t < len; ++t) {
        int s = t == 0 ? conf % NSTEP : t == 1 ? conf / NSTEP : c.choose(NSTEP, "step");
        if (!h.empty()) ask(h.back(), c.choose(2, "query"));
        step(c, h, created, s, t);
    }
    if (!sym::thorough()) ask(h.back(), c.choose(2, "query")); else for (auto &v : h) ask(v, 1);
    judge(c, h, created);
    // unrelated variables are uncorrelated, a fresh one with all before it
    const int n = (int)h.size();
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (h[i].cls == h[j].cls && h[i].who != h[j].who && h[i].who != -2 && h[j].who != -2)
        c.eq(S("covariance of ", i, " and ", j), covar(h[i], h[j]), R(0));
}
// correlation is complete within one identity
HARNESS(correlation, 8, 8, "copies and monotone one-variable results stay fully correlated with their source (first order: any slope; second order: linear)") {
    R n = c.in("n"), s = c.pos("s"), m = c.in("m"), d = c.nonzero("d");
    const int chain = conf % 4;
    if (conf < 4) {
        unc::UReal<R> x(n, s), y = x;
        for (int k = 0; k < chain; ++k) { y = unary(y, m, d); if (k & 1) y += x * R(0); }
        c.eq("first order: |corr| = 1", cov(x, y) * cov(x, y), var(x) * var(y));
        c.rel("nonzero variance", var(y), GT, R(0));
        c.truth("same identity", x.indepid() == y.indepid() && y.isindep());
    } else {
        std::array<R, 6> sm; for (int k = 0; k < 6; ++k) sm[k] = c.in(S("v", k + 3));
        unc::UReal2<R, PE> x(n, s, sm, R(-1)), y = x;
        for (int k = 0; k < chain; ++k) y = unary(y, m, d, R(0));
        c.eq("second order: |corr| = 1", cov(x, y) * cov(x, y), var(x) * var(y));
        c.rel("nonzero variance", var(y), GT, R(0));
        c.truth("same identity", x.indepid() == y.indepid() && y.isindep());
    }
}

HARNESS(many_constructions, 3, 3, "300 constructions of the three classes by every constructor in changing order, computations, copies and numbers in between: all identities positive and different, nothing correlated with anything before") {
    auto &st = eigstub::state<R>();
    for (int i = 0; i < 5; ++i) st.ev(i) = R(1);
    std::vector<Var<R>> h; int created = 0;
    std::vector<unc::Id> ids;
    R prev = R(0);
    for (int t = 0; t < 300; ++t) {
        const int before = created;
        int k9 = (t * (conf + 2) + t / 9) % 9;                         // constructions and numbers
        if (t >= 20 && (k9 == 5 || k9 == 6)) k9 -= 5;
        step(c, h, created, k9, t);
        if (created > before) {
            const unc::Id k = idof(h.back());
            c.truth("positive identity", k > 0);
            c.truth("independent", indep(h.back()));
            for (auto o : ids) if (o == k) c.truth("identity used before", false);
            ids.push_back(k);
        } else c.truth("no identity", idof(h.back()) == 0);
        if (t % 3 == 0) { step(c, h, created, t < 12 ? 9 + t / 3 % 5 : t % 9 ? 12 : 9, 1000 + t); if (t % 2) h.pop_back(); }
    }
    // the latest ones against all before
    int seen[3] = {0, 0, 0};
    for (int i = (int)h.size() - 1; i >= 0; --i) if (h[i].who >= 0 && seen[h[i].cls]++ < 2)
        for (int j = 0; j < i; ++j) if (h[j].cls == h[i].cls && h[j].who != h[i].who && h[j].who != -2)
            c.eq(S("covariance of ", i, " and ", j), covar(h[i], h[j]), R(0));
}

HARNESS(countless, 3, 3, "17000000 constructions of each class: all identities positive and different; variables a power of two of constructions apart are uncorrelated and combine as independent ones") {
    using A = unc::UReal<R>; using M = unc::UReal2<R, PM>; using E = unc::UReal2<R, PE>;
    const int total = 17000000;
    const std::array<R, 6> sm{R(0), R(3), R(0), R(15), R(0), R(105)};
    std::vector<unc::Id> ids; ids.reserve(total);
    std::vector<A> a; std::vector<M> m; std::vector<E> e; std::vector<R> var0;
    const R n = c.in("n"), s = c.pos("s"), t = c.pos("t");
    for (int i = 0; i < total; ++i) {
        bool special = i == 0 || i == 3;
        for (int k = 8; k <= 24; ++k) if (i == 1 << k || i == (1 << k) + 3) special = true;
        const R dev = !special ? R(1) : a.size() % 2 ? t : s;
        if (conf == 0) { A x(special ? n : R(0), dev); ids.push_back(x.indepid()); if (special) a.push_back(x); }
        else if (conf == 1) { M x(special ? n : R(0), dev, sm, R(-1)); ids.push_back(x.indepid()); if (special) m.push_back(x); }
        else { E x(special ? n : R(0), dev, sm, R(-1)); ids.push_back(x.indepid()); if (special) e.push_back(x); }
        if (special) var0.push_back(dev * dev);
    }
    std::sort(ids.begin(), ids.end());
    c.truth("identities positive", ids[0] > 0);
    c.truth("identities differ", std::adjacent_find(ids.begin(), ids.end()) == ids.end());
    auto pairs = [&](auto &v) {
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) {
            const std::string lab = S("variables ", int(i), " and ", int(j));
            c.eq(lab + " covariance", cov(v[i], v[j]), R(0));
            auto z = v[i] + v[j];
            c.eq(lab + " variance of the sum", var(z), var0[i] + var0[j]);
            c.truth(lab + " sum depends on both", !z.isindep() && z.indepid() == unc::invalid_id);
        }
    };
    if (conf == 0) pairs(a); else if (conf == 1) pairs(m); else pairs(e);
}
