#include "common2.hpp"
#include <uncertainties/stat.hpp>
#include <uncertainties/impl.hpp>
#include <list>
#include <deque>
constexpr unc::Prop PM = unc::Prop::mean, PE = unc::Prop::est;

// matrices of a sequence x, through iterators and containers
template<class R, class U> static void matrices(sym::Ctx<R> &c, const std::string &lab, const std::vector<U> &x, bool corr_too) {
    const int n = (int)x.size();
    const R guard = c.in("guard");
    std::vector<R> a(n * n + 2, guard), b(n * n + 2, guard);
    auto end = unc::cov_matrix(x.begin(), x.end(), a.begin());
    c.truth(lab + " covariance: returned position", end == a.begin() + n * n);
    auto v = unc::cov_matrix<std::vector<R>>(x);
    c.truth(lab + " covariance: size", (int)v.size() == n * n);
    std::list<U> l(x.begin(), x.end());
    auto w = unc::cov_matrix<std::deque<R>>(l);
    c.truth(lab + " covariance of a list: size", (int)w.size() == n * n);
    for (int k = n * n; k < n * n + 2; ++k) c.eq(lab + " covariance: nothing written past the end", a[k], guard);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        const std::string at = S(lab, " covariance ", i, ",", j);
        const R e = i == j ? R(var(x[i])) : R(cov(x[i], x[j]));
        c.eq(at, a[i * n + j], e);
        c.eq(at + " (container)", v[i * n + j], e);
        c.eq(at + " (list)", w[i * n + j], e);
        c.eq(at + " symmetric", v[i * n + j], v[j * n + i]);
    }
    // sub-range
    if (n >= 2) {
        std::vector<R> s((n - 1) * (n - 1), guard);
        unc::cov_matrix(x.begin() + 1, x.end(), s.begin());
        for (int i = 1; i < n; ++i) for (int j = 1; j < n; ++j) c.eq(S(lab, " covariance of a sub-range ", i, ",", j), s[(i - 1) * (n - 1) + j - 1], R(cov(x[i], x[j])));
    }
    auto mu = unc::nom_vector<std::vector<R>>(x);
    auto mul = unc::nom_vector<std::list<R>>(l);
    c.truth(lab + " means: size", (int)mu.size() == n && (int)mul.size() == n);
    auto it = mul.begin();
    for (int i = 0; i < n; ++i, ++it) { c.eq(S(lab, " mean ", i), mu[i], x[i].n()); c.eq(S(lab, " mean (list) ", i), *it, x[i].n()); }
    if (!corr_too) return;
    auto e2 = unc::corr_matrix(x.begin(), x.end(), b.begin());
    c.truth(lab + " correlation: returned position", e2 == b.begin() + n * n);
    auto u = unc::corr_matrix<std::vector<R>>(x);
    c.truth(lab + " correlation: size", (int)u.size() == n * n);
    for (int k = n * n; k < n * n + 2; ++k) c.eq(lab + " correlation: nothing written past the end", b[k], guard);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        const std::string at = S(lab, " correlation ", i, ",", j);
        const R e = i == j ? R(1) : R(corr(x[i], x[j]));
        c.eq(at, b[i * n + j], e);
        c.eq(at + " (container)", u[i * n + j], e);
        c.eq(at + " times the deviations", u[i * n + j] * R(x[i].s()) * R(x[j].s()), R(cov(x[i], x[j])));
    }
    // back to the covariance
    std::vector<R> sg; for (auto &z : x) sg.push_back(z.s());
    auto back = unc::corr2cov<std::vector<R>>(sg, u);
    for (int i = 0; i < n * n; ++i) c.eq(S(lab, " back to covariance ", i), back[i], v[i]);
}
// results over three independent variables with arbitrary gradients
HARNESS(first_order, 5 * 8, 5 * 8, "sequences of 0..4 first-order variables: fresh ones and results over 3 base variables with arbitrary gradients (repeated elements included)") {
    const int n = conf % 5, mode = conf / 5;
    Base1<R, 3> B(c, true);
    std::vector<unc::UReal<R>> x;
    for (int i = 0; i < n; ++i) {
        int k = (mode + i * (mode / 2 + 1)) % 8;
        if (k < 3) x.push_back(B.b[k]);
        else if (k == 3) x.push_back(unc::UReal<R>(c.in(S("m", i)), c.pos(S("s", i))));
        else if (k == 4 && i > 0) x.push_back(x[0]);
        else if (k == 5) x.push_back(unary(B.b[i % 3], c.in(S("m", i)), c.nonzero(S("d", i))));
        else if (k == 6) x.push_back(c.in(S("p", i)) * B.b[0] + c.in(S("q", i)) * B.b[1] + unc::UReal<R>(R(0), R(1)));
        else x.push_back(c.in(S("p", i)) * B.b[i % 3] + c.in(S("q", i)) * B.b[(i + 1) % 3] + unc::UReal<R>(c.in(S("m", i)), c.pos(S("s", i))));
    }
    matrices(c, "first order", x, n <= 3);
}
HARNESS(second_order, 4 * 6, 4 * 6, "sequences of 0..3 second-order variables: numbers excluded, any operand kind over 2 base variables, alternating modes") {
    const int n = conf % 4, mode = conf / 4;
    auto go = [&](auto one) {
        constexpr unc::Prop P = decltype(one)::prop_mode;
        Base2<R, P, 2> B(c, true);
        std::vector<unc::UReal2<R, P>> x;
        for (int i = 0; i < n; ++i) x.push_back(make_op2<R, P, 2>(c, B, 1 + (mode + i * (mode % 3 + 1)) % (NK2_2 - 1), S("x", i), true).z);
        matrices(c, "second order", x, false);
    };
    if (mode % 2) go(unc::UReal2<R, PE>()); else go(unc::UReal2<R, PM>());
}
HARNESS(second_order_correlation, 2, 2, "correlation matrix of two linear second-order results") {
    auto go = [&](auto one) {
        constexpr unc::Prop P = decltype(one)::prop_mode;
        Base2<R, P, 2> B(c);
        std::vector<unc::UReal2<R, P>> x{B.b[0], B.b[0] * c.nonzero("k") + B.b[1]};
        matrices(c, "second order", x, true);
    };
    if (conf) go(unc::UReal2<R, PE>()); else go(unc::UReal2<R, PM>());
}
HARNESS(conversion, 6 * 40, 6 * 40, "corr2cov: every matrix size up to 5 x 5 with arbitrary entries and deviations, and every buffer size 0..39: rejected iff sizes do not match") {
    const int n = conf % 6, k = conf / 6;
    std::vector<R> sg, m;
    for (int i = 0; i < n; ++i) sg.push_back(c.in(S("s", i)));
    for (int i = 0; i < k; ++i) m.push_back(c.in(S("c", i)));
    std::vector<R> v;
    bool t = sym::throws<std::invalid_argument>([&] { v = unc::corr2cov<std::vector<R>>(sg, m); });
    c.truth("rejected iff sizes do not match", t == (k != n * n));
    if (t) return;
    c.truth("size", (int)v.size() == n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c.eq(S("cell ", i, ",", j), v[n * i + j], m[n * i + j] * sg[i] * sg[j]);
}

#include "many.hpp"
HARNESS(many, 6, 8, "covariance matrices and means of 5, 8, 12, 17, 24 and 33 (thorough: 48, 65) first-order variables: base variables, rescaled ones, numbers, repeated ones and results over several; correlation matrices of 5..8") {
    static const int size[] = {5, 8, 12, 17, 24, 33, 48, 65};
    const int n = size[conf], nb = (n + 1) / 2;
    Many<R> B(c, nb, true);
    std::vector<unc::UReal<R>> x; std::vector<R> mu, sd; std::vector<std::vector<R>> g;
    for (int k = 0; k < n; ++k) {
        std::vector<R> d(nb, R(0)); const int i = k * 3 % nb, j = (k * 3 + 1 + k / nb) % nb;
        R m = c.in(S("m", k));
        switch (k % 5) {
        case 0: x.push_back(B.b[i]); m = B.mu[i]; d[i] = R(1); break;
        case 1: d[i] = c.in(S("d", k)); x.push_back(unary(B.b[i], m, d[i])); break;
        case 2: if (k % 2) { x.push_back(unc::UReal<R>(m)); break; }   // fall through
        case 3: d[i] = R(1); d[j] = c.in(S("d", k)); x.push_back(binary(B.b[i], B.b[j], m, d[i], d[j])); break;
        default: x.push_back(x[k / 2]); m = mu[k / 2]; d = g[k / 2]; break;
        }
        mu.push_back(m); g.push_back(d);
    }
    auto v = unc::cov_matrix<std::vector<R>>(x);
    std::vector<R> a(n * n + 1, R(0));
    auto end = unc::cov_matrix(x.begin(), x.end(), a.begin());
    auto m = unc::nom_vector<std::vector<R>>(x);
    c.truth("sizes", (int)v.size() == n * n && end == a.begin() + n * n && (int)m.size() == n);
    for (int i = 0; i < n; ++i) {
        c.eq(S("mean ", i), m[i], mu[i]);
        for (int j = 0; j < n; ++j) {
            const R e = cov_many<R>(B, g[i], g[j]);
            c.eq(S("covariance ", i, ",", j), v[i * n + j], e);
            c.eq(S("covariance (iterators) ", i, ",", j), a[i * n + j], e);
        }
    }
    std::vector<R> sg, cm;
    for (int i = 0; i < n; ++i) sg.push_back(c.in(S("t", i)));
    for (int i = 0; i < n * n; ++i) cm.push_back(c.in(S("c", i)));
    auto k = unc::corr2cov<std::vector<R>>(sg, cm);
    c.truth("size of the covariance", (int)k.size() == n * n);
    for (int i = 0; i < n * n; ++i) c.eq(S("corr2cov cell ", i), k[i], cm[i] * sg[i / n] * sg[i % n]);
    cm.pop_back();
    c.truth("wrong size rejected", sym::throws<std::invalid_argument>([&] { (void)unc::corr2cov<std::vector<R>>(sg, cm); }));
    if (n > 8) return;
    std::vector<unc::UReal<R>> y;
    for (int i = 0; i < n; ++i) y.push_back(B.b[i % nb] * R(i + 1) + (i % 2 ? unc::UReal<R>(R(0), R(1)) : B.b[0]));
    auto r = unc::corr_matrix<std::vector<R>>(y);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        c.eq(S("correlation ", i, ",", j), r[i * n + j] * csdev(y[i]) * csdev(y[j]), R(cov(y[i], y[j])));
}
