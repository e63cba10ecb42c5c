#include "common2.hpp"
#include <uncertainties/distr.hpp>
#include <uncertainties/impl.hpp>

static long choose_nk(int n, int k) { long r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }

HARNESS(binomials, 1, 1, "all 45 binomial coefficients of order up to 8") {
    auto C = unc::internal::compute_binom_coeffs();
    for (int n = 0; n <= 8; ++n) for (int k = 0; k <= n; ++k) {
        c.eq(S("binomial ", n, " ", k), R(unc::internal::binom_coeff(n, k)), R((int)choose_nk(n, k)));
        c.eq(S("table ", n, " ", k), R(C[n][k]), R((int)choose_nk(n, k)));
    }
}
HARNESS(central, 1, 1, "central_moments: any 8 raw moments") {
    std::array<R, 8> z;
    for (int k = 0; k < 8; ++k) z[k] = c.in(S("z", k + 1));
    auto cm = unc::internal::central_moments<R>(z);
    // E[(X - mu)^n] = sum_k C(n,k) E[X^k] (-mu)^(n-k)
    for (int n = 2; n <= 8; ++n) {
        R s = R(0);
        for (int k = 0; k <= n; ++k) {
            R t = R((int)choose_nk(n, k)) * (k == 0 ? R(1) : z[k - 1]);
            for (int q = 0; q < n - k; ++q) t = t * -z[0];
            s += t;
        }
        c.eq(S("central moment ", n), cm[n - 2], s);
    }
}
// raw moments of an actual discrete distribution
HARNESS(of_distribution, 1, 1, "raw moments of every distribution on three points: the central moments are the averages of the powers of the deviation") {
    R p[3], x[3];
    p[0] = c.in("p0"); p[1] = c.in("p1"); p[2] = R(1) - p[0] - p[1];
    for (int i = 0; i < 3; ++i) x[i] = c.in(S("x", i));
    std::array<R, 8> z;
    R pw[3] = {R(1), R(1), R(1)};
    for (int k = 0; k < 8; ++k) { z[k] = R(0); for (int i = 0; i < 3; ++i) { pw[i] = pw[i] * x[i]; z[k] += p[i] * pw[i]; } }
    auto cm = unc::internal::central_moments<R>(z);
    R dw[3], d[3];
    for (int i = 0; i < 3; ++i) { d[i] = x[i] - z[0]; dw[i] = d[i]; }
    for (int n = 2; n <= 5; ++n) {
        R s = R(0);
        for (int i = 0; i < 3; ++i) { dw[i] = dw[i] * d[i]; s += p[i] * dw[i]; }
        if (n <= (sym::thorough() ? 5 : 4)) c.eq(S("central moment ", n), cm[n - 2], s);
    }
}
HARNESS(standardized, 1, 1, "std_moments: any positive second moment and any moments 3..8") {
    std::array<R, 7> m;
    R s = c.pos("s");
    m[0] = s * s;
    for (int k = 1; k < 7; ++k) m[k] = c.in(S("m", k + 2));
    auto v = unc::internal::std_moments<R>(m);
    R sn = s * s;
    for (int k = 0; k < 6; ++k) { sn = sn * s; c.eq(S("standardized moment ", k + 3), v[k] * sn, m[k + 1]); }
    std::array<R, 7> m2 = m; m2[0] = c.pos("variance");
    auto v2 = unc::internal::std_moments<R>(m2);
    for (int k = 0; k < 6; ++k) {
        // squared: v^2 * var^(k+3) = m^2, and the same sign
        R q = R(1); for (int i = 0; i < k + 3; ++i) q = q * m2[0];
        c.eq(S("standardized moment ", k + 3, " squared"), v2[k] * v2[k] * q, m2[k + 1] * m2[k + 1]);
        c.rel(S("standardized moment ", k + 3, " sign"), v2[k] * m2[k + 1], GE, R(0));
    }
}
