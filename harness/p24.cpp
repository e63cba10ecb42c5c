#include "common2.hpp"
#include <uncertainties/ureals.hpp>
#include <uncertainties/impl.hpp>

template<class R> static void judge(sym::Ctx<R> &c, const std::string &lab, int n, const std::vector<R> &mu, const std::vector<R> &V, bool psd) {
    using U = unc::UReal<R>;
    std::vector<U> x;
    bool t = sym::throws<std::runtime_error>([&] { x = unc::ureals<std::vector<U>>(mu, V); });
    if (psd) c.truth(lab + ": accepted", !t);
    if (t) return;
    c.truth(lab + ": size", (int)x.size() == n);
    for (int i = 0; i < n; ++i) {
        c.eq(lab + S(": mean ", i), x[i].n(), mu[i]);
        // an accepted matrix is reproduced, so it is positive semidefinite
        for (int j = 0; j <= i; ++j) {
            c.eq(lab + S(": covariance ", i, ",", j), cov(x[i], x[j]), V[i + n * j]);
            c.eq(lab + S(": covariance ", j, ",", i), cov(x[j], x[i]), V[i + n * j]);
        }
        c.eq(lab + S(": variance ", i), var(x[i]), V[i + n * i]);
    }
}
template<class R> static std::vector<R> means(sym::Ctx<R> &c, int n) { std::vector<R> m; for (int i = 0; i < n; ++i) m.push_back(c.in(S("mu", i))); return m; }
HARNESS(any_matrix, 3, 3, "every symmetric matrix of size 0..2 with arbitrary entries: an accepted one is reproduced exactly; positive semidefinite ones are accepted") {
    const int n = conf;
    auto mu = means(c, n);
    std::vector<R> V(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) V[i + n * j] = V[j + n * i] = c.in(S("v", i, j));
    bool psd = n == 0 || (n == 1 ? V[0] >= R(0) : V[0] >= R(0) && V[3] >= R(0) && V[0] * V[3] - V[1] * V[1] >= R(0));
    judge(c, "any matrix", n, mu, V, psd);
    if (!psd) c.truth("not positive semidefinite: rejected", sym::throws<std::runtime_error>([&] { (void)unc::ureals<std::vector<unc::UReal<R>>>(mu, V); }));
}
static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
template<class R> static std::vector<R> three(sym::Ctx<R> &c, const int *p, int signs) {
    // |v_p0| >= |v_p1| >= |v_p2|, with the given signs
    std::vector<R> V(9);
    R d[3];
    for (int i = 0; i < 3; ++i) d[i] = c.nonneg(S("v", i, i));
    c.assume_rel(d[p[0]], GE, d[p[1]]); c.assume_rel(d[p[1]], GE, d[p[2]]);
    for (int i = 0; i < 3; ++i) V[4 * i] = signs >> i & 1 ? R(-d[i]) : d[i];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) V[i + 3 * j] = V[j + 3 * i] = c.in(S("v", i, j));
    return V;
}
HARNESS(three_definite, 6, 6, "every positive definite 3 x 3 matrix (six orders of the diagonal) is accepted and reproduced exactly") {
    auto V = three(c, perms[conf], 0);
    c.assume_rel(V[0], GT, R(0)); c.assume_rel(V[4], GT, R(0)); c.assume_rel(V[8], GT, R(0));
    // Sylvester, in every order
    auto minor = [&](int i, int j) { return V[4 * i] * V[4 * j] - V[i + 3 * j] * V[i + 3 * j]; };
    const int *p = perms[conf];
    c.assume_rel(minor(p[0], p[1]), GT, R(0));
    R det = V[0] * V[4] * V[8] + R(2) * V[1] * V[2] * V[5] - V[0] * V[5] * V[5] - V[4] * V[2] * V[2] - V[8] * V[1] * V[1];
    c.assume_rel(det, GT, R(0));
    judge(c, "definite", 3, means(c, 3), V, true);
}
HARNESS(three_any, 2, 48, "symmetric 3 x 3 matrices (quick: two orders of a nonnegative diagonal; thorough: six orders, every sign): an accepted one is reproduced exactly") {
    if (!sym::thorough()) conf = conf ? 3 : 0;
    judge(c, "any 3 x 3", 3, means(c, 3), three(c, perms[conf % 6], conf / 6), false);
}
// singular matrices; x[p[0]] has the largest variance, then x[p[1]]
template<class R> static void put(std::vector<R> &V, const int *p, int i, int j, const R &v) { V[p[i] + 3 * p[j]] = V[p[j] + 3 * p[i]] = v; }
HARNESS(semidefinite, 18, 18, "singular positive semidefinite 3 x 3 matrices (six orders of the diagonal): the smallest variable is a combination of the others; all are multiples of one; all zero") {
    const int *p = perms[conf % 6];
    std::vector<R> V(9, R(0));
    if (conf / 6 == 0) {
        R a = c.pos("a"), d = c.pos("d"), b = c.in("b"), k = c.in("k"), m = c.in("m");
        c.assume_rel(a, GE, d); c.assume_rel(a * d, GT, b * b);
        put(V, p, 0, 0, a); put(V, p, 1, 1, d); put(V, p, 0, 1, b);
        put(V, p, 0, 2, R(k * a + m * b)); put(V, p, 1, 2, R(k * b + m * d));
        R v = k * k * a + R(2) * k * m * b + m * m * d;
        c.assume_rel(v, LT, d); put(V, p, 2, 2, v);
    } else if (conf / 6 == 1) {
        R a = c.pos("a"), k = c.in("k"), m = c.in("m");
        c.assume_rel(k * k, LE, R(1)); c.assume_rel(m * m, LE, k * k);
        put(V, p, 0, 0, a); put(V, p, 1, 1, R(k * k * a)); put(V, p, 2, 2, R(m * m * a));
        put(V, p, 0, 1, R(k * a)); put(V, p, 0, 2, R(m * a)); put(V, p, 1, 2, R(k * m * a));
    }
    judge(c, "semidefinite", 3, means(c, 3), V, true);
}
HARNESS(early_zero_pivot, 6, 6, "singular positive semidefinite 3 x 3 matrices (six orders of the diagonal): the second largest variable is a multiple of the largest, the smallest is not") {
    const int *p = perms[conf];
    std::vector<R> V(9, R(0));
    R a = c.pos("a"), k = c.in("k"), b = c.in("b"), d = c.pos("d");
    c.assume_rel(k * k, LE, R(1)); c.assume_rel(d, LE, k * k * a); c.assume_rel(a * d, GT, b * b);
    put(V, p, 0, 0, a); put(V, p, 1, 1, R(k * k * a)); put(V, p, 0, 1, R(k * a));
    put(V, p, 0, 2, b); put(V, p, 1, 2, R(k * b)); put(V, p, 2, 2, d);
    judge(c, "early zero pivot", 3, means(c, 3), V, true);
}
HARNESS(triangle, 1, 1, "2 x 2 buffers that are not symmetric: the lower triangle of the column-major matrix is used") {
    auto mu = means(c, 2);
    std::vector<R> V{c.in("v00"), c.in("v10"), c.in("other"), c.in("v11")};
    judge(c, "triangle", 2, mu, V, false);
}
HARNESS(sizes, 1, 1, "buffers of 0..26 elements for 0..5 means: invalid_argument iff not the square") {
    for (int n = 0; n <= 5; ++n) for (int k = 0; k <= 26; ++k) {
        std::vector<R> mu(n, R(1)), V(k, R(0));
        if (k == n * n) for (int i = 0; i < n; ++i) V[i + n * i] = R(1 + i);
        bool t = sym::throws<std::invalid_argument>([&] { (void)unc::ureals<std::vector<unc::UReal<R>>>(mu, V); });
        c.truth(S(n, " means, ", k, " elements"), t == (k != n * n));
    }
}

// larger matrices: numbers times a symbolic scale, one covariance symbolic
template<class R> static std::vector<int> product_of_triangles(int n, int seed) {
    std::vector<int> L(n * n, 0), V(n * n, 0);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j)
        L[i * n + j] = i == j ? 1 + (i * 3 + seed) % 4 : (i * 7 + j * 5 + seed) % 5 - 2;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) V[i * n + j] += L[i * n + k] * L[j * n + k];
    return V;
}
HARNESS(large, 8 * 3, 10 * 3, "positive definite matrices of size 4..11 (thorough: 14, 18), three each: numbers times any positive scale, one variable scaled by another symbol; any means") {
    static const int size[] = {4, 5, 6, 7, 8, 9, 10, 11, 14, 18};
    const int n = size[conf / 3];
    auto W = product_of_triangles<R>(n, conf);
    const R s = c.pos("scale"), k = c.in("k");
    const int q = conf % n;
    // variable q uncorrelated with the others but for a share of k of one of them
    std::vector<R> V(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) V[i + n * j] = conf % 3 == 2 && i != j && (i == q || j == q) ? R(0) : R(W[i * n + j]) * s;
    if (conf % 3 == 2) {
        const int o = (q + 1) % n;
        c.assume_rel(k * k, LT, R(W[q * n + q]) * R(W[o * n + o]));
        // diagonal large enough for any such k
        V[q + n * o] = V[o + n * q] = k * s;
        for (int i = 0; i < n; ++i) if (i != q && i != o) V[o + n * i] = V[i + n * o] = R(0);
    }
    judge(c, S("size ", n), n, means(c, n), V, true);
}
HARNESS(large_singular, 6, 8, "singular positive semidefinite matrices of size 4..9 (thorough: 12, 16): the variable with the smallest variance is a combination of two others; all multiples of one") {
    static const int size[] = {4, 5, 6, 7, 8, 9, 12, 16};
    const int n = size[conf];
    const R s = c.pos("scale");
    std::vector<R> V(n * n, R(0));
    for (int i = 0; i + 1 < n; ++i) V[i + n * i] = R(100 + (i * 7) % 11) * s;
    V[0 + n * 1] = V[1 + n * 0] = R(10) * s;
    // last = (x0 + 2 x1) / 4
    auto put2 = [&](int j, const R &v) { V[(n - 1) + n * j] = V[j + n * (n - 1)] = v; };
    const R a = V[0], d = V[1 + n], b = V[1];
    put2(0, (a + R(2) * b) / R(4)); put2(1, (b + R(2) * d) / R(4));
    put2(n - 1, (a + R(4) * b + R(4) * d) / R(16));
    judge(c, S("combination, size ", n), n, means(c, n), V, true);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) V[i + n * j] = R((i + 1) * (j + 1)) * s;
    judge(c, S("multiples, size ", n), n, means(c, n), V, true);
}
