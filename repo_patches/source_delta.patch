From 3d0694a27d7184034fe568b1ee67dd99c1717fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 01/15] fix: gradient of an independent first-order variable
 with respect to itself was 0

---
 uncertainties/ureal.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index 0b78d4f..e4afcb0 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -582,9 +582,12 @@ namespace uncertainties {
                 throw std::invalid_argument(ss.str());
             }
             const Id xid = x.id > 0 ? x.id : x.sigma.begin()->first;
+            const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
+            if (this->id == xid) {
+                return this->sdev / xg;
+            }
             const typename std::map<Id, Real>::const_iterator it = this->sigma.find(xid);
             if (it != this->sigma.end()) {
-                const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
                 return it->second / xg;
             } else {
                 return 0;
-- 
2.43.0


From 3615ee4f49de9f738501218bbd6ec1fbc80a4fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 02/15] fix: second-order functions lost second derivatives of
 operands with several dependencies

In the mode that visits missing off-diagonal elements, ConstHessIt ended each
row at the last stored element instead of the last variable, so applying a
function with nonzero second derivative to a variable depending on more than
one independent variable dropped mixed second derivatives (e.g. exp(x + y)).
---
 uncertainties/internal/hessgrad.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/uncertainties/internal/hessgrad.hpp b/uncertainties/internal/hessgrad.hpp
index 89567a4..5af027b 100644
--- a/uncertainties/internal/hessgrad.hpp
+++ b/uncertainties/internal/hessgrad.hpp
@@ -451,19 +451,21 @@ namespace uncertainties {
                 
                 void operator++() noexcept {
                     assert(diagmin != diagend and diagmax != diagend);
-                    if (diagmin == diagmax) {
+                    if (diagmin != diagmax && tri != triend && tri->first == IdPair {diagmin->first, diagmax->first}) {
+                        ++tri;
+                    }
+                    assert((tri == triend || tri->first > IdPair {diagmin->first, diagmax->first}));
+                    if (not skipmissing) {
                         ++diagmax;
+                    } else if (tri != triend && tri->first.first == diagmin->first) {
+                        for (; diagmax != diagend && diagmax->first < tri->first.second; ++diagmax) ;
+                        assert(diagmax != diagend && diagmax->first == tri->first.second);
                     } else {
-                        ++tri;
+                        diagmax = diagend;
                     }
-                    assert(diagmax != diagend or tri == triend);
-                    assert((tri == triend || tri->first >= IdPair {diagmin->first, diagmax->first}));
-                    if (tri == triend || tri->first.first > diagmin->first) {
+                    if (diagmax == diagend) {
                         ++diagmin;
                         diagmax = diagmin;
-                    } else if (skipmissing) {
-                        for (; diagmax != diagend && diagmax->first < tri->first.second; ++diagmax) ;
-                        assert(diagmax != diagend && diagmax->first == tri->first.second);
                     }
                     assert(diagmax != diagend or diagmin == diagend);
                 }
-- 
2.43.0


From 2411bf7831bccc26c43c77eb0618e2c214083883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 03/15] fix: first-order atan2 had the derivatives with the
 wrong sign, and nan at first argument 0

---
 uncertainties/math.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 5bf1b07..e951648 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -171,9 +171,10 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> atan2(const UReal<Real> &x, const UReal<Real> &y) {
         using std::atan2;
-        const Real yx = y.n() / x.n();
-        const Real dy = Real(1) / ((Real(1) + yx * yx) * x.n());
-        const Real dx = dy * (-yx);
+        using std::hypot;
+        const Real h = hypot(x.n(), y.n());
+        const Real dx = (y.n() / h) / h;
+        const Real dy = -(x.n() / h) / h;
         return binary(x, y, atan2(x.n(), y.n()), dx, dy);
     }
     template<typename Real>
-- 
2.43.0


From 3e515e10608ade3f2889379024ee932482312e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 04/15] fix: first-order cbrt had nan derivative at negative
 values

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index e951648..b02f867 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -124,8 +124,8 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> cbrt(const UReal<Real> &x) {
         using std::cbrt;
-        using std::pow;
-        return unary(x, cbrt(x.n()), pow(x.n(), -Real(2) / Real(3)) / Real(3));
+        const Real c = cbrt(x.n());
+        return unary(x, c, Real(1) / (3 * c * c));
     }
     template<typename Real>
     UReal<Real> hypot(const UReal<Real> &x, const UReal<Real> &y) {
-- 
2.43.0


From 5dda472b1a44235392d58c849dcdff3b86b37b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 05/15] fix: isfinite and isnormal did not compile for
 second-order variables

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index b02f867..78ac04c 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -535,7 +535,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isfinite(const UReal2<Real, prop> &x) {
         using std::isfinite;
-        return x.all(x, [](const Real &n) { return isfinite(n); });
+        return all(x, [](const Real &n) { return isfinite(n); });
     }
     /*!
     \brief Are all the internal coefficients normal?
@@ -543,7 +543,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isnormal(const UReal2<Real, prop> &x) {
         using std::isnormal;
-        return x.all(x, [](const Real &n) { return isnormal(n); });
+        return all(x, [](const Real &n) { return isnormal(n); });
     }
 }
 
-- 
2.43.0


From 0d959e11dcfcdccc7f0df6f229cf09593decf8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 06/15] fix: pow had nan derivatives at base 0 with an exact
 exponent

---
 uncertainties/math.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 78ac04c..5404084 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -114,7 +114,12 @@ namespace uncertainties {
         using std::pow;
         using std::log;
         const Real p = pow(x.n(), y.n());
-        return binary(x, y, p, p * y.n() / x.n(), p * log(x.n()));
+        Real dx = y.n();
+        if (dx != 0) {
+            const Real y1 = y.n() - 1;
+            dx *= pow(x.n(), y1);
+        }
+        return binary(x, y, p, dx, p * log(x.n()));
     }
     template<typename Real>
     UReal<Real> sqrt(const UReal<Real> &x) {
@@ -348,14 +353,22 @@ namespace uncertainties {
         const Real &yn = y.first_order_n();
         const Real x2y = pow(xn, yn);
         const Real logx = log(xn);
-        const Real ix = 1 / xn;
-        const Real x2yix = x2y * ix;
-        const Real x2yixy = x2yix * yn;
+        const Real yn1 = yn - 1;
+        const Real yn2 = yn - 2;
+        const Real x2yix = pow(xn, yn1);
+        Real x2yixy = yn;
+        if (x2yixy != 0) {
+            x2yixy *= x2yix;
+        }
+        Real ddx = yn * yn1;
+        if (ddx != 0) {
+            ddx *= pow(xn, yn2);
+        }
         const Real x2ylogx = x2y * logx;
         return binary(x, y, x2y,
                       x2yixy,
                       x2ylogx,
-                      x2yixy * ix * (yn - 1),
+                      ddx,
                       x2ylogx * logx,
                       x2yix + x2yixy * logx);
     }
-- 
2.43.0


From 9d552be82435397efa589f05ae29079b64292197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 07/15] fix: binary_assign on second-order variables gave wrong
 derivatives

It was unfinished: it accumulated on x while reading it.
---
 uncertainties/ureal2.hpp | 77 ++--------------------------------------
 1 file changed, 3 insertions(+), 74 deletions(-)

diff --git a/uncertainties/ureal2.hpp b/uncertainties/ureal2.hpp
index 62af817..ac4ec14 100644
--- a/uncertainties/ureal2.hpp
+++ b/uncertainties/ureal2.hpp
@@ -909,80 +909,9 @@ namespace uncertainties {
             const Real &dfdx, const Real &dfdy,
             const Real &ddfdxdx, const Real &ddfdydy, const Real &ddfdxdy
         ) {
-            // THIS FUNCTION IS NOT FINISHED! It modifies x and then reads
-            // it again... how do I do this?
-            // O(n) fix: the first part walks in order the hessian. It never
-            // happens that a hessian element is required to compute the hessian
-            // element at a different coordinate. So I can save x's gradient
-            // beforehand in an array.
-            
-            x.mu = fxy;
-
-            constexpr Id maxid = std::numeric_limits<Id>::max();
-            const std::pair<Id, Id> pmaxid {maxid, maxid};
-
-            const Real hddfdxdx = ddfdxdx / 2;
-            const Real hddfdydy = ddfdydy / 2;
-            const Real hddfdxdy = ddfdxdy / 2;
-        
-            ConstHessIt itx = x.hg.chbegin(hddfdxdx == 0);
-            const ConstHessIt xend = x.hg.chend();
-            ConstHessIt ity = y.hg.chbegin(hddfdydy == 0);
-            const ConstHessIt yend = y.hg.chend();
-            
-            while (itx != xend or ity != yend) {
-                const std::pair<Id, Id> idx = itx != xend ? std::make_pair(itx.id1(), itx.id2()) : pmaxid;
-                const std::pair<Id, Id> idy = ity != yend ? std::make_pair(ity.id1(), ity.id2()) : pmaxid;
-                
-                Real *hhess;
-                Diag *diag;
-                
-                if (idx <= idy) {
-                    hhess = &x.hg.hhess(idx.first, idx.second);
-                    *hhess += hddfdxdx * itx.diag1().grad * itx.diag2().grad;
-                    *hhess += dfdx * (*itx);
-                    if (idx.first == idx.second) {
-                        diag = &x.hg.diag(idx.first);
-                        diag->mom = itx.diag1().mom;
-                        diag->grad += dfdx * itx.diag1().grad;
-                    }
-                }
-                
-                if (idy <= idx) {
-                    if (idx != idy) {
-                        hhess = &x.hg.hhess(idy.first, idy.second);
-                        if (idy.first == idy.second) {
-                            diag = &x.hg.diag(idy.first);
-                            diag->mom = ity.diag1().mom;
-                        }
-                    }
-                    *hhess += hddfdydy * ity.diag1().grad * ity.diag2().grad;
-                    *hhess += dfdy * (*ity);
-                    if (idy.first == idy.second) {
-                        diag->grad += dfdy * ity.diag1().grad;
-                    }
-                }
-                
-                if (idx <= idy) ++itx;
-                if (idy <= idx) ++ity;
-            }
-            
-            // I shall consider the following code a very inefficient patch.
-            if (hddfdxdy != 0) {
-                const ConstDiagIt end = x.hg.cdend();
-                ConstDiagIt iti, itj;
-                for (iti = x.hg.cdbegin(); iti != end; ++iti) {
-                    for (itj = iti; itj != end; ++itj) {
-                        const Id idi = iti->first;
-                        const Id idj = itj->first;
-                        const Real &dix = x.hg.diag_get(idi).grad;
-                        const Real &djx = x.hg.diag_get(idj).grad;
-                        const Real &diy = y.hg.diag_get(idi).grad;
-                        const Real &djy = y.hg.diag_get(idj).grad;
-                        x.hg.hhess(idi, idj) += hddfdxdy * (dix * djy + djx * diy);
-                    }
-                }
-            }
+            // x is read all along the computation, so the result can not be
+            // written in place directly.
+            x = binary(x, y, fxy, dfdx, dfdy, ddfdxdx, ddfdydy, ddfdxdy);
         }
         
         friend inline const UReal2<Real, prop> &
-- 
2.43.0


From ec644a4ddc64c6a0be4da0abcb15b5c809282cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 08/15] fix: format printed a wrong uncertainty when rounding
 it to a power of ten added a digit
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The rounded value had the wrong power of ten, e.g. 1 ± 9.96 with 2.5 digits was "1 ± 100".
---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index ce39600..056eba7 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -99,7 +99,7 @@ namespace uncertainties {
         int ndigits(Real *const x, const float n) {
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
+            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - (ndig - 1));
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-- 
2.43.0


From aa33ff92cd9147fdbf085284cfe1a76ebad14e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 09/15] fix: format misaligned the mean when rounding carried
 it to a new digit
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

E.g. 9.996 ± 0.1 was "10.0 ± 0.10" instead of "10.00 ± 0.10".
---
 uncertainties/io.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 056eba7..95be497 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -165,8 +165,15 @@ namespace uncertainties {
         int sexp = internal::exponent(s);
         int muexp = mu != 0 ? internal::exponent(mu) : sexp - sndig - 1;
         std::string smant = internal::mantissa(s, sndig, &sexp);
-        const int mundig = sndig + muexp - sexp;
+        int mundig = sndig + muexp - sexp;
+        const int unrounded_muexp = muexp;
         std::string mumant = internal::mantissa(mu, mundig, &muexp);
+        if (muexp > unrounded_muexp) {
+            // rounding carried to a new digit: keep the last one, which is
+            // aligned with the standard deviation
+            mumant.push_back('0');
+            mundig += 1;
+        }
         const std::string musign = mu < 0 ? "-" : "";
         bool use_exp;
         int base_exp;
-- 
2.43.0


From 33e7a6853ef9df58068f20b019d883e8117db7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 10/15] fix: format lost the sign of negative means with zero
 or infinite uncertainty

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 95be497..8de2534 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -143,7 +143,7 @@ namespace uncertainties {
             } else {
                 insert_dot(&m, n, e);
             }
-            return m;
+            return (x < 0 ? "-" : "") + m;
         }
     }
     
-- 
2.43.0


From 3373aac9fb4c45010551a8092bca565bf0300629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 11/15] fix: format did not compile with math.hpp included
 before io.hpp

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 8de2534..364eedb 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -99,11 +99,11 @@ namespace uncertainties {
         int ndigits(Real *const x, const float n) {
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
+            using std::pow;
             const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - (ndig - 1));
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-                    using std::pow;
                     *x = rounded_x;
                     ndig = rounded_ndig;
                 }
-- 
2.43.0


From de58208cf5e746796e7399edd0c3a9e592ebb3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 12/15] fix: fmod computes the quotient in the numerical type
 given, not in double

---
 uncertainties/math.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 5404084..821b733 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -47,6 +47,7 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> fmod(const UReal<Real> &x, const UReal<Real> &y) {
         using std::fmod;
+        using std::trunc;
         return binary(x, y, fmod(x.n(), y.n()), 1, -trunc(x.n() / y.n()));
     }
     template<typename Real>
@@ -264,6 +265,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     UReal2<Real, prop> fmod(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
         using std::fmod;
+        using std::trunc;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
         return binary(x, y, fmod(xn, yn), 1, -trunc(xn / yn), 0, 0, 0);
-- 
2.43.0


From 8dd6fe2ea364f1f8c8db9893d93b7030a9242c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 13/15] fix: format aborts when log10 of a number just below a
 power of ten is rounded up

---
 uncertainties/io.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 364eedb..f926e7d 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -53,7 +53,12 @@ namespace uncertainties {
             using std::floor;
             using std::log10;
             using std::abs;
-            return int(floor(log10(abs(x))));
+            using std::pow;
+            const Real a = abs(x);
+            const int e = int(floor(log10(a)));
+            // the logarithm of a number just below a power of ten may be
+            // rounded up to an integer
+            return a < pow(Real(10), e) ? e - 1 : e;
         }
         
         template<typename Real>
@@ -115,7 +120,8 @@ namespace uncertainties {
         std::string mantissa(const Real &x, const int n, int *const e) {
             const Real m = int_mantissa(x, n, *e);
             std::string s = int_mantissa_string(m);
-            assert(s.size() == n or s.size() == n + 1 or (m == 0 and n < 0));
+            // (a digit is lost if x is a power of ten and m is rounded down)
+            assert(s.size() == n or s.size() == n + 1 or s.size() == n - 1 or (m == 0 and n < 0));
             if (n >= 1 and s.size() == n + 1) {
                 *e += 1;
                 s.pop_back();
-- 
2.43.0


From 79443bc8e017354993a97507d75395c31dfaf5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 14/15] fix: format aborts or never ends when a power of ten
 overflows for a tiny number

---
 uncertainties/io.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index f926e7d..087498f 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -43,6 +43,7 @@ significative digits, \f$ 1 \pm 0.31 \f$ is `"1.00 +/- 0.31"` while \f$ 1 \pm
 #include <cassert>
 #include <stdexcept>
 #include <algorithm>
+#include <limits>
 
 #include "core.hpp"
 
@@ -65,7 +66,13 @@ namespace uncertainties {
         Real int_mantissa(const Real &x, const int n, const int e) {
             using std::round;
             using std::pow;
-            return round(x * pow(Real(10), n - 1 - e));
+            const int p = n - 1 - e;
+            const int pmax = std::numeric_limits<Real>::max_exponent10;
+            if (pmax > 0 and p > pmax) {
+                // x is tiny and the power would overflow
+                return round(x * pow(Real(10), pmax) * pow(Real(10), p - pmax));
+            }
+            return round(x * pow(Real(10), p));
         }
         
         template<typename Real>
-- 
2.43.0


From 24fb3efae36cc36a9f518abb281eaa56a4e50897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:52 +0000
Subject: [PATCH 15/15] fix: format rounds the deviation twice when the single
 precision logarithm crosses a power of ten

---
 uncertainties/io.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 087498f..72a610c 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -112,8 +112,10 @@ namespace uncertainties {
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
             using std::pow;
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - (ndig - 1));
-            if (rounded_x > *x) {
+            const Real m = int_mantissa(*x, ndig, xexp);
+            // if the rounding carries to a new digit
+            if (m >= pow(Real(10), ndig)) {
+                const Real rounded_x = m * pow(Real(10), xexp - (ndig - 1));
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
                     *x = rounded_x;
-- 
2.43.0

