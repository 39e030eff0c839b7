From 4586e59a56eede55e31ca0bdd4b84830413873e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 01/19] fix: build canonical field elements from negative
 multiples of the modulus

FFInt(n) with n < 0 and |n| divisible by p stored p instead of 0. The
negation is now done in uint64_t, which is also defined for the most
negative integer.
---
 source/include/firefly/FFInt.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index da4241c..084ab64 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -135,7 +135,8 @@ namespace firefly {
         n = static_cast<uint64_t>(n_)  % p;
       }
     } else if (n_ < 0) {
-      n = p - static_cast<uint64_t>(-n_) % p;
+      const uint64_t r = -static_cast<uint64_t>(n_) % p;
+      n = r == 0 ? 0 : p - r;
     }
   }
 
-- 
2.43.0


From 753b91b344ae24e36516455a574ceaee5e1184cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 02/19] fix: negate exponents without signed overflow

FFInt::pow(power) negated the most negative integer in its signed type.
---
 source/include/firefly/FFInt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index 084ab64..de85dd0 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -163,7 +163,7 @@ namespace firefly {
         exp = power;
         base = n;
       } else {
-        exp = static_cast<uint64_t>(-power);
+        exp = -static_cast<uint64_t>(power);
         base = mod_inv(n, p);
       }
 
-- 
2.43.0


From 5cc7e9849fe1070465609b1e4f6a78e6a13eed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 03/19] fix: powers of zero with large field exponents are zero

The negative-exponent shortcut of FFInt::pow(FFInt) computed 0^0 = 1 for
0^(p - 1).
---
 source/FFInt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 2c17b12..05c6c6b 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -162,7 +162,7 @@ namespace firefly {
       uint64_t exp;
       uint64_t base;
 
-      if (ffint.n < (p >> 1)) {
+      if (n == 0 || ffint.n < (p >> 1)) {
         // treat as positive exponent
         exp = ffint.n;
         base = n;
-- 
2.43.0


From 790bebfe9acd0aff0cf50d6fc5987b972ffce0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 04/19] fix: reduce string replacements that equal the modulus

The string constructor of FFInt stored p itself for a replacement with the
value p.
---
 source/FFInt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 05c6c6b..c5d7f5f 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -55,7 +55,7 @@ namespace firefly {
   FFInt::FFInt(const std::string& str, const std::vector<std::pair<std::string, uint64_t>>& replacements) {
     for (const auto & var : replacements) {
       if (var.first == str) {
-        if (var.second > p) {
+        if (var.second >= p) {
           n = var.second % p;
         } else {
           n = var.second;
-- 
2.43.0


From b835a3e8d77952be0f33f31cf8a472624bee8d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 05/19] fix: bunch sizes for queues of 2^31 and more probes do
 not wrap to zero

---
 source/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/utils.cpp b/source/utils.cpp
index c13f3f0..adfa593 100644
--- a/source/utils.cpp
+++ b/source/utils.cpp
@@ -316,9 +316,9 @@ namespace firefly {
         tmp |= tmp >> 8;
         tmp |= tmp >> 16;
 
-        tmp = (tmp + 1) >> 1;
+        tmp = (tmp >> 1) + 1;
 
-        if ((tmp << 1) < queue_length && tmp * thr_n != queue_length) {
+        if (tmp < queue_length - tmp && tmp * thr_n != queue_length) {
           tmp <<= 1;
         }
 
-- 
2.43.0


From 3aa40958c9dfef2380e8be6d62f5868260fdbcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 06/19] fix: products of rational numbers leave their operands
 unchanged

---
 source/RationalNumber.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/source/RationalNumber.cpp b/source/RationalNumber.cpp
index 2fdc5de..0c7a55d 100644
--- a/source/RationalNumber.cpp
+++ b/source/RationalNumber.cpp
@@ -34,18 +34,7 @@ namespace firefly {
   RationalNumber::RationalNumber() {}
 
   RationalNumber RationalNumber::operator*(const RationalNumber& rn) {
-    mpz_class num(numerator * rn.numerator);
-    mpz_class den(denominator * rn.denominator);
-
-    if (den < 0) {
-      num = -num;
-      den = -den;
-    }
-
-    mpz_class gcd_(gcd(num, den));
-    numerator = num / gcd_;
-    denominator = den / gcd_;
-    return *this;
+    return RationalNumber(numerator * rn.numerator, denominator * rn.denominator);
   }
 
   RationalNumber& RationalNumber::operator-=(const RationalNumber& rn) {
-- 
2.43.0


From 0e3909138fe57a33773d79f99b8c8e45b38b3121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 07/19] fix: subtract and divide bunched field vectors from
 scalars in the right order

---
 source/FFIntVec.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/FFIntVec.cpp b/source/FFIntVec.cpp
index c0b757c..00d6c6b 100644
--- a/source/FFIntVec.cpp
+++ b/source/FFIntVec.cpp
@@ -259,10 +259,10 @@ namespace firefly {
 
   template<int N>
   FFIntVec<N> operator-(const FFInt& b, const FFIntVec<N>& a) {
-    FFIntVec<N> result(a);
+    FFIntVec<N> result(b);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] -= b;
+      result.vec[i] -= a.vec[i];
     }
 
     return result;
@@ -281,10 +281,10 @@ namespace firefly {
 
   template<int N>
   FFIntVec<N> operator/(const FFInt& b, const FFIntVec<N>& a) {
-    FFIntVec<N> result(a);
+    FFIntVec<N> result(b);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] /= b;
+      result.vec[i] /= a.vec[i];
     }
 
     return result;
-- 
2.43.0


From 67087f94b4e29194a44e4328aa489189d29c2fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 08/19] fix: let FFIntVec::at access every lane and nothing
 else

---
 source/include/firefly/FFIntVec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/FFIntVec.hpp b/source/include/firefly/FFIntVec.hpp
index 8364713..05629d4 100644
--- a/source/include/firefly/FFIntVec.hpp
+++ b/source/include/firefly/FFIntVec.hpp
@@ -100,7 +100,7 @@ namespace firefly {
     typename std::array<FFInt, N>::const_iterator end() const noexcept;
     size_t size() const noexcept;
     inline const FFInt& at(int i) {
-      if (i < N - 1)
+      if (i >= 0 && i < N)
         return vec[i];
       else
         throw std::out_of_range("Out of range.");
-- 
2.43.0


From 34e53a0c2560153c0444162fea8d0625a5f3acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:04 +0000
Subject: [PATCH 09/19] fix: homogenizing a polynomial invalidates its Horner
 form

---
 source/PolynomialFF.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 6cc3410..47e404c 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -264,6 +264,11 @@ namespace firefly {
       coefs[new_powers] = tmp_coef[old_powers];
     }
 
+    // A Horner form of the former polynomial is no longer valid
+    generate_new_horner = true;
+    eval_horner = false;
+    vars.clear();
+
     return *this;
   }
 
-- 
2.43.0


From 86206899218bda3b1c1e47311400d4a5af7ec24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:04 +0000
Subject: [PATCH 10/19] fix: add coinciding monomials in products of
 polynomials

---
 source/PolynomialFF.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 47e404c..2631077 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -330,7 +330,16 @@ namespace firefly {
                          coef_b.first.begin(), new_deg.begin(),
                          std::plus<uint32_t>());
 
-          new_monomials.emplace(std::make_pair(new_deg, new_coef));
+          auto got = new_monomials.find(new_deg);
+
+          if (got == new_monomials.end()) {
+            new_monomials.emplace(std::make_pair(new_deg, new_coef));
+          } else {
+            got -> second += new_coef;
+
+            if (got -> second == 0)
+              new_monomials.erase(new_deg);
+          }
         }
       }
     }
-- 
2.43.0


From 1d43c5490177c1b76e149acc3bd77c984d1e6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:04 +0000
Subject: [PATCH 11/19] fix: shifting the variables keeps the constant term

---
 source/PolynomialFF.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 2631077..55c4a72 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -417,6 +417,10 @@ namespace firefly {
         }
       }
 
+      // A constant term does not depend on the shift
+      if (pow_poly.coefs.empty())
+        pow_poly.coefs.emplace(std::make_pair(powers, mon.second));
+
       if (!pow_poly.coefs.empty()) {
         if (res.coefs.empty())
           res.coefs = pow_poly.coefs;
-- 
2.43.0


From 7c37e32273aa67ec1117ea8e8c6ef6742ede4e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:04 +0000
Subject: [PATCH 12/19] fix: a polynomial can be subtracted from itself

---
 source/PolynomialFF.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 55c4a72..296f87c 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -127,6 +127,13 @@ namespace firefly {
   }
 
   PolynomialFF& PolynomialFF::operator-=(const PolynomialFF& b) {
+    // Terms are erased below, so do not iterate over the own coefficients
+    if (this == &b) {
+      coefs.clear();
+      eval_horner = false;
+      return *this;
+    }
+
     for (const auto & coef_b : b.coefs) {
       if (coef_b.second != 0) {
         if (coefs.find(coef_b.first) == coefs.end())
-- 
2.43.0


From eb9418a8b287546bf4864495dbfcc58dfdfd0b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:53 +0000
Subject: [PATCH 13/19] fix: dividing the zero polynomial by a constant
 polynomial

---
 source/Poly.cpp | 690 ++++++++++++++++++++++++------------------------
 1 file changed, 345 insertions(+), 345 deletions(-)

diff --git a/source/Poly.cpp b/source/Poly.cpp
index 56029dc..035523d 100644
--- a/source/Poly.cpp
+++ b/source/Poly.cpp
@@ -1,345 +1,345 @@
-//==================================================================================
-//    FireFly - Reconstructing rational functions and polynomial over finite fields.
-//    Copyright (C) 2020  Jonas Klappert, Sven Yannick Klein and Fabian Lange
-//
-//    This program is free software: you can redistribute it and/or modify
-//    it under the terms of the GNU General Public License as published by
-//    the Free Software Foundation, either version 3 of the License, or
-//    (at your option) any later version.
-//
-//    This program is distributed in the hope that it will be useful,
-//    but WITHOUT ANY WARRANTY; without even the implied warranty of
-//    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-//    GNU General Public License for more details.
-//
-//    You should have received a copy of the GNU General Public License
-//    along with this program.  If not, see <https://www.gnu.org/licenses/>.
-//==================================================================================
-
-#include "firefly/Poly.hpp"
-
-#include <math.h>
-#include <random>
-
-namespace firefly {
-
-  Poly::Poly() {
-    coeff = std::vector<FFInt>();
-  }
-
-  Poly::Poly(std::vector<FFInt>& coeff_vector) {
-    coeff = coeff_vector;
-  }
-
-  Poly::Poly(const Poly& old_poly) {
-    coeff = old_poly.coeff;
-  }
-
-  Poly::~Poly() {
-    std::vector<FFInt>().swap(coeff);
-  }
-
-  size_t Poly::get_deg() const {
-    for (size_t i = coeff.size() - 1; i >= 1; i--) {
-      if (coeff.at(i) != 0) {
-        return i;
-      }
-    }
-
-    return 0;
-  }
-
-  void Poly::shrink_to_fit() {
-    while (coeff.back() == FFInt(0)) {
-      coeff.pop_back();
-    };
-
-    coeff.shrink_to_fit();
-  }
-
-  void Poly::rev() {
-    shrink_to_fit();
-    std::reverse(std::begin(coeff), std::end(coeff));
-  }
-
-  Poly& Poly::operator-=(const Poly& a) {
-    if (a.get_deg() > get_deg()) {
-      coeff.reserve(a.get_deg() + 1);
-      coeff.resize(a.get_deg() + 1);
-    };
-
-    for (size_t i = 0; i <= a.get_deg(); i++) {
-      if (i <= get_deg() && i <= a.get_deg()) {
-        coeff.at(i) = coeff.at(i) - a.coeff.at(i);
-      } else if (i > get_deg() && i <= a.get_deg()) {
-        coeff.emplace(coeff.begin() + i, - a.coeff.at(i));
-      };
-    }
-
-    return *this;
-  }
-
-  Poly& Poly::operator+=(const Poly& a) {
-    if (a.get_deg() > get_deg()) {
-      coeff.reserve(a.get_deg() + 1);
-      coeff.resize(a.get_deg() + 1);
-    };
-
-    for (size_t i = 0; i <= a.get_deg(); i++) {
-      if (i <= get_deg() && i <= a.get_deg()) {
-        coeff.at(i) = coeff.at(i) + a.coeff.at(i);
-      } else if (i > get_deg() && i <= a.get_deg()) {
-        coeff.emplace(coeff.begin() + i, a.coeff.at(i));
-      };
-    }
-
-    return *this;
-  }
-
-  Poly& Poly::operator*=(const FFInt& a) {
-    for (size_t i = 0; i <= get_deg(); i++) {
-      coeff.at(i) *= a;
-    };
-
-    return *this;
-  }
-
-  Poly& Poly::operator/=(const FFInt& a) {
-    for (size_t i = 0; i <= get_deg(); i++) {
-      coeff.at(i) /= a;
-    };
-
-    return *this;
-  }
-
-  Poly operator*(const Poly& a, const FFInt& b) {
-    Poly returner(a);
-    returner *= b;
-    return returner;
-  }
-
-  Poly operator/(const Poly& a, const FFInt& b) {
-    Poly returner(a);
-    returner /= b;
-    return returner;
-  }
-
-  Poly operator+(const Poly& a, const Poly& b) {
-    Poly returner(a);
-    returner += b;
-    return returner;
-  }
-
-  Poly operator-(const Poly& a, const Poly& b) {
-    Poly returner(a);
-    returner -= b;
-    return returner;
-  }
-
-  Poly& Poly::operator*=(const Poly& a) {
-    std::vector<FFInt> tmp_coeff {};
-    tmp_coeff.reserve(((get_deg() + 1) * (a.get_deg() + 1)));
-    tmp_coeff.resize(((get_deg() + 1) * (a.get_deg() + 1)));;
-
-    for (size_t i = 0; i < tmp_coeff.size(); i++) {
-      FFInt this_coeff(0);
-
-      for (size_t j = 0; j <= i; j++) {
-        if (coeff.size() > j && a.coeff.size() > i - j) {
-          this_coeff += coeff.at(j) * a.coeff.at(i - j);
-        }
-
-        tmp_coeff.at(i) = this_coeff;
-      };
-    }
-
-    coeff.swap(tmp_coeff);
-    return *this;
-  }
-
-  Poly operator*(const Poly& a, const Poly& b) {
-    Poly returner(a);
-    returner *= b;
-    return returner;
-  }
-
-  std::pair<Poly, Poly> fast_euclidean_division(const Poly& a, const Poly& z) {
-    if (a.get_deg() < z.get_deg()) {
-      std::vector<FFInt> a0 {FFInt(0)};
-      return std::make_pair(Poly(a0), a);
-    }
-
-    Poly b(z);
-    b.shrink_to_fit();
-    b /= b.coeff.back();
-    size_t m = a.get_deg() - b.get_deg();
-    size_t k = ((size_t)(ceil(log2((double)m + 1))));
-    std::vector<FFInt> a1 {FFInt(1)};
-    Poly gi(a1);
-    Poly f(b);
-    f.rev();
-
-    for (size_t i = 1; i <= k; i++) {
-      Poly q(gi);
-      q *= FFInt(2);
-      Poly tmp(gi);
-      tmp *= gi;
-      tmp *= f;
-      gi = q - tmp;
-
-      while (gi.get_deg() >= ((size_t) exp2((double) i))) {
-        gi.coeff.pop_back();
-      }
-    };
-
-    Poly s(a);
-
-    s.rev();
-
-    s *= gi;
-
-    while (s.get_deg() >= m + 1) {
-      s.coeff.pop_back();
-    }
-
-    size_t exp = m - s.get_deg();
-    s.rev();
-
-    for (size_t i = 1; i <= exp; i++) {
-      s.coeff.insert(s.coeff.begin(), FFInt(0));
-    };
-
-    Poly r(a);
-
-    r -= b * s;
-
-    s /= z.coeff.at(z.get_deg());
-
-    return std::make_pair(s, r);
-  }
-
-  Poly operator/(const Poly& a, const Poly& b) {
-    return (fast_euclidean_division(a, b).first);
-  }
-
-  Poly operator%(const Poly& a, const Poly& b) {
-    return (fast_euclidean_division(a, b).second);
-  }
-
-  Poly gcd(const Poly& c, const Poly& d) {
-    Poly a(c);
-    Poly b(d);
-
-    while (b.get_deg() != 0 || b.coeff.at(0) != FFInt(0)) {
-      Poly h;
-      h = a % b;
-      a = b;
-      b = h;
-    }
-
-    return a;
-  }
-
-  std::vector<FFInt> Poly::roots() {
-    Poly a;
-    a.coeff = coeff;
-    a.shrink_to_fit();
-    a /= a.coeff.back();
-    std::vector<FFInt> roots {};
-
-    while (a.coeff.at(0) == FFInt(0)) {
-      a.coeff.erase(a.coeff.begin());
-      roots.emplace_back(FFInt(0));
-    };
-
-    std::vector<Poly> queue {a};
-
-    while (!queue.empty()) {
-      while (queue.back().get_deg() > 1) {
-        std::random_device rd;
-        std::mt19937_64 eng(rd());//TODO Mersenne-Twister is too slow. Replace with pcg32
-        std::uniform_int_distribution<uint64_t> distr;
-        FFInt Delta(distr(eng));
-        size_t s = ((FFInt(0).p - 1) / 2);
-        std::vector<FFInt> master_vec {FFInt(1)};
-        Poly master(master_vec);
-        std::vector<FFInt>().swap(master_vec);
-        master.coeff.reserve(queue.back().get_deg() + 2);
-        master.coeff.resize(queue.back().get_deg() + 2);
-        std::vector<FFInt> multi_vec {FFInt(Delta), FFInt(1)};
-        Poly multi(multi_vec);
-        std::vector<FFInt>().swap(multi_vec);
-
-        for (size_t i = 1; i <= s; i++) {
-          master *= multi;
-          master = (master % queue.back());
-        };
-
-        master.coeff.at(0) -= FFInt(1);
-
-        Poly h;
-
-        h = gcd(queue.back(), master);
-
-        Poly f;
-
-        f = queue.back() / h;
-
-        queue.back() = h;
-
-        queue.back().shrink_to_fit();
-
-        queue.emplace_back(f);
-
-        queue.back().shrink_to_fit();
-      };
-
-      if (queue.back().get_deg() == 0) {
-        queue.pop_back();
-      }
-
-      while (!queue.empty() && queue.back().get_deg() == 1) {
-        roots.emplace_back(- queue.back().coeff.at(0) / queue.back().coeff.at(1));
-        queue.pop_back();
-      }
-    }
-
-    return roots;
-  }
-
-  std::ostream& operator<<(std::ostream& out, const Poly& a) {
-    if (a.coeff.empty()) {
-      return out << "0";
-    }
-
-    if (a.get_deg() == 0) {
-      return out << a.coeff.at(0);
-    }
-
-    if (a.get_deg() == 1 && a.coeff.at(0) != FFInt(0)) {
-      return out << a.coeff.at(1) << "x+" << a.coeff.at(0);
-    };
-
-    if (a.get_deg() == 1 && a.coeff.at(0) == FFInt(0)) {
-      return out << a.coeff.at(1) << "x";
-    };
-
-    out << a.coeff.at(a.get_deg()) << "x^" << a.get_deg();
-
-    for (size_t i = a.get_deg() - 1; i > 1; i--) {
-      if (a.coeff.at(i) != 0) {
-        out << "+" << a.coeff.at(i) << "x^" << i;
-      };
-    };
-
-    if (a.coeff.at(1) != 0) {
-      out << "+" << a.coeff.at(1) << "x";
-    }
-
-    if (a.coeff.at(0) != 0) {
-      out << "+" << a.coeff.at(0);
-    }
-
-    return out;
-  }
-}
+//==================================================================================
+//    FireFly - Reconstructing rational functions and polynomial over finite fields.
+//    Copyright (C) 2020  Jonas Klappert, Sven Yannick Klein and Fabian Lange
+//
+//    This program is free software: you can redistribute it and/or modify
+//    it under the terms of the GNU General Public License as published by
+//    the Free Software Foundation, either version 3 of the License, or
+//    (at your option) any later version.
+//
+//    This program is distributed in the hope that it will be useful,
+//    but WITHOUT ANY WARRANTY; without even the implied warranty of
+//    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+//    GNU General Public License for more details.
+//
+//    You should have received a copy of the GNU General Public License
+//    along with this program.  If not, see <https://www.gnu.org/licenses/>.
+//==================================================================================
+
+#include "firefly/Poly.hpp"
+
+#include <math.h>
+#include <random>
+
+namespace firefly {
+
+  Poly::Poly() {
+    coeff = std::vector<FFInt>();
+  }
+
+  Poly::Poly(std::vector<FFInt>& coeff_vector) {
+    coeff = coeff_vector;
+  }
+
+  Poly::Poly(const Poly& old_poly) {
+    coeff = old_poly.coeff;
+  }
+
+  Poly::~Poly() {
+    std::vector<FFInt>().swap(coeff);
+  }
+
+  size_t Poly::get_deg() const {
+    for (size_t i = coeff.size() - 1; i >= 1; i--) {
+      if (coeff.at(i) != 0) {
+        return i;
+      }
+    }
+
+    return 0;
+  }
+
+  void Poly::shrink_to_fit() {
+    while (coeff.back() == FFInt(0)) {
+      coeff.pop_back();
+    };
+
+    coeff.shrink_to_fit();
+  }
+
+  void Poly::rev() {
+    shrink_to_fit();
+    std::reverse(std::begin(coeff), std::end(coeff));
+  }
+
+  Poly& Poly::operator-=(const Poly& a) {
+    if (a.get_deg() > get_deg()) {
+      coeff.reserve(a.get_deg() + 1);
+      coeff.resize(a.get_deg() + 1);
+    };
+
+    for (size_t i = 0; i <= a.get_deg(); i++) {
+      if (i <= get_deg() && i <= a.get_deg()) {
+        coeff.at(i) = coeff.at(i) - a.coeff.at(i);
+      } else if (i > get_deg() && i <= a.get_deg()) {
+        coeff.emplace(coeff.begin() + i, - a.coeff.at(i));
+      };
+    }
+
+    return *this;
+  }
+
+  Poly& Poly::operator+=(const Poly& a) {
+    if (a.get_deg() > get_deg()) {
+      coeff.reserve(a.get_deg() + 1);
+      coeff.resize(a.get_deg() + 1);
+    };
+
+    for (size_t i = 0; i <= a.get_deg(); i++) {
+      if (i <= get_deg() && i <= a.get_deg()) {
+        coeff.at(i) = coeff.at(i) + a.coeff.at(i);
+      } else if (i > get_deg() && i <= a.get_deg()) {
+        coeff.emplace(coeff.begin() + i, a.coeff.at(i));
+      };
+    }
+
+    return *this;
+  }
+
+  Poly& Poly::operator*=(const FFInt& a) {
+    for (size_t i = 0; i <= get_deg(); i++) {
+      coeff.at(i) *= a;
+    };
+
+    return *this;
+  }
+
+  Poly& Poly::operator/=(const FFInt& a) {
+    for (size_t i = 0; i <= get_deg(); i++) {
+      coeff.at(i) /= a;
+    };
+
+    return *this;
+  }
+
+  Poly operator*(const Poly& a, const FFInt& b) {
+    Poly returner(a);
+    returner *= b;
+    return returner;
+  }
+
+  Poly operator/(const Poly& a, const FFInt& b) {
+    Poly returner(a);
+    returner /= b;
+    return returner;
+  }
+
+  Poly operator+(const Poly& a, const Poly& b) {
+    Poly returner(a);
+    returner += b;
+    return returner;
+  }
+
+  Poly operator-(const Poly& a, const Poly& b) {
+    Poly returner(a);
+    returner -= b;
+    return returner;
+  }
+
+  Poly& Poly::operator*=(const Poly& a) {
+    std::vector<FFInt> tmp_coeff {};
+    tmp_coeff.reserve(((get_deg() + 1) * (a.get_deg() + 1)));
+    tmp_coeff.resize(((get_deg() + 1) * (a.get_deg() + 1)));;
+
+    for (size_t i = 0; i < tmp_coeff.size(); i++) {
+      FFInt this_coeff(0);
+
+      for (size_t j = 0; j <= i; j++) {
+        if (coeff.size() > j && a.coeff.size() > i - j) {
+          this_coeff += coeff.at(j) * a.coeff.at(i - j);
+        }
+
+        tmp_coeff.at(i) = this_coeff;
+      };
+    }
+
+    coeff.swap(tmp_coeff);
+    return *this;
+  }
+
+  Poly operator*(const Poly& a, const Poly& b) {
+    Poly returner(a);
+    returner *= b;
+    return returner;
+  }
+
+  std::pair<Poly, Poly> fast_euclidean_division(const Poly& a, const Poly& z) {
+    if (a.get_deg() < z.get_deg() || (a.get_deg() == 0 && a.coeff.at(0) == 0)) {
+      std::vector<FFInt> a0 {FFInt(0)};
+      return std::make_pair(Poly(a0), a);
+    }
+
+    Poly b(z);
+    b.shrink_to_fit();
+    b /= b.coeff.back();
+    size_t m = a.get_deg() - b.get_deg();
+    size_t k = ((size_t)(ceil(log2((double)m + 1))));
+    std::vector<FFInt> a1 {FFInt(1)};
+    Poly gi(a1);
+    Poly f(b);
+    f.rev();
+
+    for (size_t i = 1; i <= k; i++) {
+      Poly q(gi);
+      q *= FFInt(2);
+      Poly tmp(gi);
+      tmp *= gi;
+      tmp *= f;
+      gi = q - tmp;
+
+      while (gi.get_deg() >= ((size_t) exp2((double) i))) {
+        gi.coeff.pop_back();
+      }
+    };
+
+    Poly s(a);
+
+    s.rev();
+
+    s *= gi;
+
+    while (s.get_deg() >= m + 1) {
+      s.coeff.pop_back();
+    }
+
+    size_t exp = m - s.get_deg();
+    s.rev();
+
+    for (size_t i = 1; i <= exp; i++) {
+      s.coeff.insert(s.coeff.begin(), FFInt(0));
+    };
+
+    Poly r(a);
+
+    r -= b * s;
+
+    s /= z.coeff.at(z.get_deg());
+
+    return std::make_pair(s, r);
+  }
+
+  Poly operator/(const Poly& a, const Poly& b) {
+    return (fast_euclidean_division(a, b).first);
+  }
+
+  Poly operator%(const Poly& a, const Poly& b) {
+    return (fast_euclidean_division(a, b).second);
+  }
+
+  Poly gcd(const Poly& c, const Poly& d) {
+    Poly a(c);
+    Poly b(d);
+
+    while (b.get_deg() != 0 || b.coeff.at(0) != FFInt(0)) {
+      Poly h;
+      h = a % b;
+      a = b;
+      b = h;
+    }
+
+    return a;
+  }
+
+  std::vector<FFInt> Poly::roots() {
+    Poly a;
+    a.coeff = coeff;
+    a.shrink_to_fit();
+    a /= a.coeff.back();
+    std::vector<FFInt> roots {};
+
+    while (a.coeff.at(0) == FFInt(0)) {
+      a.coeff.erase(a.coeff.begin());
+      roots.emplace_back(FFInt(0));
+    };
+
+    std::vector<Poly> queue {a};
+
+    while (!queue.empty()) {
+      while (queue.back().get_deg() > 1) {
+        std::random_device rd;
+        std::mt19937_64 eng(rd());//TODO Mersenne-Twister is too slow. Replace with pcg32
+        std::uniform_int_distribution<uint64_t> distr;
+        FFInt Delta(distr(eng));
+        size_t s = ((FFInt(0).p - 1) / 2);
+        std::vector<FFInt> master_vec {FFInt(1)};
+        Poly master(master_vec);
+        std::vector<FFInt>().swap(master_vec);
+        master.coeff.reserve(queue.back().get_deg() + 2);
+        master.coeff.resize(queue.back().get_deg() + 2);
+        std::vector<FFInt> multi_vec {FFInt(Delta), FFInt(1)};
+        Poly multi(multi_vec);
+        std::vector<FFInt>().swap(multi_vec);
+
+        for (size_t i = 1; i <= s; i++) {
+          master *= multi;
+          master = (master % queue.back());
+        };
+
+        master.coeff.at(0) -= FFInt(1);
+
+        Poly h;
+
+        h = gcd(queue.back(), master);
+
+        Poly f;
+
+        f = queue.back() / h;
+
+        queue.back() = h;
+
+        queue.back().shrink_to_fit();
+
+        queue.emplace_back(f);
+
+        queue.back().shrink_to_fit();
+      };
+
+      if (queue.back().get_deg() == 0) {
+        queue.pop_back();
+      }
+
+      while (!queue.empty() && queue.back().get_deg() == 1) {
+        roots.emplace_back(- queue.back().coeff.at(0) / queue.back().coeff.at(1));
+        queue.pop_back();
+      }
+    }
+
+    return roots;
+  }
+
+  std::ostream& operator<<(std::ostream& out, const Poly& a) {
+    if (a.coeff.empty()) {
+      return out << "0";
+    }
+
+    if (a.get_deg() == 0) {
+      return out << a.coeff.at(0);
+    }
+
+    if (a.get_deg() == 1 && a.coeff.at(0) != FFInt(0)) {
+      return out << a.coeff.at(1) << "x+" << a.coeff.at(0);
+    };
+
+    if (a.get_deg() == 1 && a.coeff.at(0) == FFInt(0)) {
+      return out << a.coeff.at(1) << "x";
+    };
+
+    out << a.coeff.at(a.get_deg()) << "x^" << a.get_deg();
+
+    for (size_t i = a.get_deg() - 1; i > 1; i--) {
+      if (a.coeff.at(i) != 0) {
+        out << "+" << a.coeff.at(i) << "x^" << i;
+      };
+    };
+
+    if (a.coeff.at(1) != 0) {
+      out << "+" << a.coeff.at(1) << "x";
+    }
+
+    if (a.coeff.at(0) != 0) {
+      out << "+" << a.coeff.at(0);
+    }
+
+    return out;
+  }
+}
-- 
2.43.0


From 198fc01b15051195983959d3f0e70f3a0adc86a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:54 +0000
Subject: [PATCH 14/19] fix: evaluate negative exponents in every mode

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 4000fac..65a7785 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -246,7 +246,7 @@ namespace firefly {
       std::stack<FFIntTemp> nums;
 
       for (const auto& token : tokens) {
-        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!") {
+        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!" || token == "~" || token == ";") {
           // Pop two numbers
           FFIntTemp a = nums.top();
           nums.pop();
-- 
2.43.0


From cda84d83c6bc887532079209f629d57d9853b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:54 +0000
Subject: [PATCH 15/19] fix: the evaluation stack starts at index one

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 65a7785..5cc9d24 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -490,7 +490,7 @@ namespace firefly {
     }
 
     for (const auto& tokens : precomp_tokens) {
-      FFIntTemp* stack = new FFIntTemp[tokens.size()];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
+      FFIntTemp* stack = new FFIntTemp[tokens.size() + 1];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
       size_t stack_depth = 0;
 
       for (const auto& token : tokens) {
-- 
2.43.0


From 736475104876892149c0ff679dc0d291a6797e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:54 +0000
Subject: [PATCH 16/19] fix: keep the whole divisor when a quotient is
 precomputed

---
 source/ShuntingYardParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index e568e5a..5545546 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -637,7 +637,9 @@ namespace firefly {
 	      partial_rpn[i].emplace_back(std::make_pair(j, v_2));
             } else if (precomp_tokens[i][j - 1].first == tokens::NUMBER && (precomp_tokens[i][j - 2].first == tokens::VARIABLE || precomp_tokens[i][j - 2].first == tokens::NEG_VARIABLE)) {
               FFInt inverse = 1 / precomp_tokens[i][j - 1].second;
-	      partial_rpn[i].back().second = {{"1", partial_rpn[i].back().second[0] , "/"}};
+	      auto& rpn = partial_rpn[i].back().second;
+	      rpn.insert(rpn.begin(), "1");
+	      rpn.emplace_back("/");
 
               precomp_tokens[i][j - 1].second = inverse;
               precomp_tokens[i][j] = {tokens::MULT, 0};
-- 
2.43.0


From 3befa1850b9611a4f57a2bf6ad215d057ced519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:32 +0000
Subject: [PATCH 17/19] fix: trimming a parser keeps what the next prime needs
 and works without RPN

---
 source/ShuntingYardParser.cpp | 37 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index 5545546..9ab262b 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -722,43 +722,56 @@ namespace firefly {
   std::unordered_map<size_t, size_t> ShuntingYardParser::trim(const std::unordered_set<size_t>& elements_to_keep) {
     std::vector<std::vector<std::string>> new_functions {};
     std::vector<std::vector<std::pair<uint8_t, FFInt>>> new_precomp_tokens {};
+    std::vector<std::vector<std::pair<size_t, std::vector<std::string>>>> new_partial_rpn {};
     std::vector<uint64_t> new_evaluation_positions {};
     std::unordered_map<size_t, size_t> new_positions {};
 
     // TODO check_map and check_vars?
-    INFO_MSG("Trimming parser: " + std::to_string(functions.size() - elements_to_keep.size())
-             + " out of " + std::to_string(functions.size()) + " functions will be removed");
+    // The RPN is not available anymore if it was not kept, the precomputed tokens are only available after precompute_tokens()
+    const size_t size = check_is_equal ? evaluation_positions.size() : std::max(functions.size(), precomp_tokens.size());
+    size_t counter = 0;
+
+    INFO_MSG("Trimming parser: " + std::to_string(size - elements_to_keep.size())
+             + " out of " + std::to_string(size) + " functions will be removed");
 
     if (!check_is_equal) {
-      for (size_t i = 0; i != functions.size(); ++i) {
+      for (size_t i = 0; i != size; ++i) {
         if (elements_to_keep.find(i) != elements_to_keep.end()) {
-          new_functions.emplace_back(std::move(functions[i]));
+          if (i < functions.size()) {
+            new_functions.emplace_back(std::move(functions[i]));
+          }
 
-          if (!precomp_tokens.empty()) {
+          if (i < precomp_tokens.size()) {
             new_precomp_tokens.emplace_back(std::move(precomp_tokens[i]));
+            new_partial_rpn.emplace_back(std::move(partial_rpn[i]));
           }
 
-          new_positions.emplace(std::make_pair(i, new_functions.size() - 1));
+          new_positions.emplace(std::make_pair(i, counter));
+          ++counter;
         }
       }
     } else {
       std::unordered_map<size_t, size_t> copied_functions {};
 
-      for (size_t i = 0; i != evaluation_positions.size(); ++i) {
+      for (size_t i = 0; i != size; ++i) {
         if (elements_to_keep.find(i) != elements_to_keep.end()) {
           const auto& it = copied_functions.find(static_cast<size_t>(evaluation_positions[i]));
 
           if (it != copied_functions.end()) {
             new_evaluation_positions.emplace_back(static_cast<uint64_t>(it->second));
           } else {
-            new_functions.emplace_back(std::move(functions[evaluation_positions[i]]));
+            if (evaluation_positions[i] < functions.size()) {
+              new_functions.emplace_back(std::move(functions[evaluation_positions[i]]));
+            }
 
-            if (!precomp_tokens.empty()) {
+            if (evaluation_positions[i] < precomp_tokens.size()) {
               new_precomp_tokens.emplace_back(std::move(precomp_tokens[evaluation_positions[i]]));
+              new_partial_rpn.emplace_back(std::move(partial_rpn[evaluation_positions[i]]));
             }
 
-            copied_functions.emplace(std::make_pair(static_cast<size_t>(evaluation_positions[i]), new_functions.size() - 1));
-            new_evaluation_positions.emplace_back(static_cast<uint64_t>(new_functions.size() - 1));
+            copied_functions.emplace(std::make_pair(static_cast<size_t>(evaluation_positions[i]), counter));
+            new_evaluation_positions.emplace_back(static_cast<uint64_t>(counter));
+            ++counter;
           }
 
           new_positions.emplace(std::make_pair(i, new_evaluation_positions.size() - 1));
@@ -768,10 +781,12 @@ namespace firefly {
 
     new_functions.shrink_to_fit();
     new_precomp_tokens.shrink_to_fit();
+    new_partial_rpn.shrink_to_fit();
     new_evaluation_positions.shrink_to_fit();
 
     functions = std::move(new_functions);
     precomp_tokens = std::move(new_precomp_tokens);
+    partial_rpn = std::move(new_partial_rpn);
     evaluation_positions = std::move(new_evaluation_positions);
 
     return new_positions;
-- 
2.43.0


From f2f907e7750943b141e66d7c163db48cdf79c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:42 +0000
Subject: [PATCH 18/19] fix: functions can be added on the fly to a parser that
 looks for equal functions

---
 source/ShuntingYardParser.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index 9ab262b..4b95c65 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -353,11 +353,15 @@ namespace firefly {
       functions.emplace_back(tokens);
       return functions.size() - 1;
     } else {
+      const uint64_t current_prime = FFInt::p;
       FFInt::set_new_prime(primes()[prime_counter != 299 ? prime_counter + 1 : prime_counter - 1]);
       FFInt v1 = evaluate(tokens, check_vars_1);
       FFInt::set_new_prime(primes()[prime_counter]);
       FFInt v2 = evaluate(tokens, check_vars_2);
 
+      if (FFInt::p != current_prime)
+        FFInt::set_new_prime(current_prime);
+
       if (check_map.find(std::make_pair(v1.n, v2.n)) != check_map.end()) {
         if (!no_duplicates) {
           evaluation_positions.emplace_back(check_map[std::make_pair(v1.n, v2.n)]);
@@ -555,11 +559,6 @@ namespace firefly {
       return;
     }
 
-    // TODO really clear here?
-    check_vars_1.clear();
-    check_vars_2.clear();
-    check_map.clear();
-
     if (!precomputed || force) {
       uint64_t size = functions.size();
       precomp_tokens = std::vector<std::vector<std::pair<uint8_t, FFInt>>>(size);
@@ -726,7 +725,6 @@ namespace firefly {
     std::vector<uint64_t> new_evaluation_positions {};
     std::unordered_map<size_t, size_t> new_positions {};
 
-    // TODO check_map and check_vars?
     // The RPN is not available anymore if it was not kept, the precomputed tokens are only available after precompute_tokens()
     const size_t size = check_is_equal ? evaluation_positions.size() : std::max(functions.size(), precomp_tokens.size());
     size_t counter = 0;
@@ -777,6 +775,18 @@ namespace firefly {
           new_positions.emplace(std::make_pair(i, new_evaluation_positions.size() - 1));
         }
       }
+
+      // Functions added later are compared only to those which are kept
+      for (auto it = check_map.begin(); it != check_map.end();) {
+        const auto kept = copied_functions.find(static_cast<size_t>(it->second));
+
+        if (kept != copied_functions.end()) {
+          it->second = static_cast<uint64_t>(kept->second);
+          ++it;
+        } else {
+          it = check_map.erase(it);
+        }
+      }
     }
 
     new_functions.shrink_to_fit();
-- 
2.43.0


From d87c8a8261f9ea3e207db3300f161da0e10c23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:42 +0000
Subject: [PATCH 19/19] fix: dividing the zero polynomial: restore the line
 endings of Poly.cpp

---
 source/Poly.cpp | 690 ++++++++++++++++++++++++------------------------
 1 file changed, 345 insertions(+), 345 deletions(-)

diff --git a/source/Poly.cpp b/source/Poly.cpp
index 035523d..2bcccd3 100644
--- a/source/Poly.cpp
+++ b/source/Poly.cpp
@@ -1,345 +1,345 @@
-//==================================================================================
-//    FireFly - Reconstructing rational functions and polynomial over finite fields.
-//    Copyright (C) 2020  Jonas Klappert, Sven Yannick Klein and Fabian Lange
-//
-//    This program is free software: you can redistribute it and/or modify
-//    it under the terms of the GNU General Public License as published by
-//    the Free Software Foundation, either version 3 of the License, or
-//    (at your option) any later version.
-//
-//    This program is distributed in the hope that it will be useful,
-//    but WITHOUT ANY WARRANTY; without even the implied warranty of
-//    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-//    GNU General Public License for more details.
-//
-//    You should have received a copy of the GNU General Public License
-//    along with this program.  If not, see <https://www.gnu.org/licenses/>.
-//==================================================================================
-
-#include "firefly/Poly.hpp"
-
-#include <math.h>
-#include <random>
-
-namespace firefly {
-
-  Poly::Poly() {
-    coeff = std::vector<FFInt>();
-  }
-
-  Poly::Poly(std::vector<FFInt>& coeff_vector) {
-    coeff = coeff_vector;
-  }
-
-  Poly::Poly(const Poly& old_poly) {
-    coeff = old_poly.coeff;
-  }
-
-  Poly::~Poly() {
-    std::vector<FFInt>().swap(coeff);
-  }
-
-  size_t Poly::get_deg() const {
-    for (size_t i = coeff.size() - 1; i >= 1; i--) {
-      if (coeff.at(i) != 0) {
-        return i;
-      }
-    }
-
-    return 0;
-  }
-
-  void Poly::shrink_to_fit() {
-    while (coeff.back() == FFInt(0)) {
-      coeff.pop_back();
-    };
-
-    coeff.shrink_to_fit();
-  }
-
-  void Poly::rev() {
-    shrink_to_fit();
-    std::reverse(std::begin(coeff), std::end(coeff));
-  }
-
-  Poly& Poly::operator-=(const Poly& a) {
-    if (a.get_deg() > get_deg()) {
-      coeff.reserve(a.get_deg() + 1);
-      coeff.resize(a.get_deg() + 1);
-    };
-
-    for (size_t i = 0; i <= a.get_deg(); i++) {
-      if (i <= get_deg() && i <= a.get_deg()) {
-        coeff.at(i) = coeff.at(i) - a.coeff.at(i);
-      } else if (i > get_deg() && i <= a.get_deg()) {
-        coeff.emplace(coeff.begin() + i, - a.coeff.at(i));
-      };
-    }
-
-    return *this;
-  }
-
-  Poly& Poly::operator+=(const Poly& a) {
-    if (a.get_deg() > get_deg()) {
-      coeff.reserve(a.get_deg() + 1);
-      coeff.resize(a.get_deg() + 1);
-    };
-
-    for (size_t i = 0; i <= a.get_deg(); i++) {
-      if (i <= get_deg() && i <= a.get_deg()) {
-        coeff.at(i) = coeff.at(i) + a.coeff.at(i);
-      } else if (i > get_deg() && i <= a.get_deg()) {
-        coeff.emplace(coeff.begin() + i, a.coeff.at(i));
-      };
-    }
-
-    return *this;
-  }
-
-  Poly& Poly::operator*=(const FFInt& a) {
-    for (size_t i = 0; i <= get_deg(); i++) {
-      coeff.at(i) *= a;
-    };
-
-    return *this;
-  }
-
-  Poly& Poly::operator/=(const FFInt& a) {
-    for (size_t i = 0; i <= get_deg(); i++) {
-      coeff.at(i) /= a;
-    };
-
-    return *this;
-  }
-
-  Poly operator*(const Poly& a, const FFInt& b) {
-    Poly returner(a);
-    returner *= b;
-    return returner;
-  }
-
-  Poly operator/(const Poly& a, const FFInt& b) {
-    Poly returner(a);
-    returner /= b;
-    return returner;
-  }
-
-  Poly operator+(const Poly& a, const Poly& b) {
-    Poly returner(a);
-    returner += b;
-    return returner;
-  }
-
-  Poly operator-(const Poly& a, const Poly& b) {
-    Poly returner(a);
-    returner -= b;
-    return returner;
-  }
-
-  Poly& Poly::operator*=(const Poly& a) {
-    std::vector<FFInt> tmp_coeff {};
-    tmp_coeff.reserve(((get_deg() + 1) * (a.get_deg() + 1)));
-    tmp_coeff.resize(((get_deg() + 1) * (a.get_deg() + 1)));;
-
-    for (size_t i = 0; i < tmp_coeff.size(); i++) {
-      FFInt this_coeff(0);
-
-      for (size_t j = 0; j <= i; j++) {
-        if (coeff.size() > j && a.coeff.size() > i - j) {
-          this_coeff += coeff.at(j) * a.coeff.at(i - j);
-        }
-
-        tmp_coeff.at(i) = this_coeff;
-      };
-    }
-
-    coeff.swap(tmp_coeff);
-    return *this;
-  }
-
-  Poly operator*(const Poly& a, const Poly& b) {
-    Poly returner(a);
-    returner *= b;
-    return returner;
-  }
-
-  std::pair<Poly, Poly> fast_euclidean_division(const Poly& a, const Poly& z) {
-    if (a.get_deg() < z.get_deg() || (a.get_deg() == 0 && a.coeff.at(0) == 0)) {
-      std::vector<FFInt> a0 {FFInt(0)};
-      return std::make_pair(Poly(a0), a);
-    }
-
-    Poly b(z);
-    b.shrink_to_fit();
-    b /= b.coeff.back();
-    size_t m = a.get_deg() - b.get_deg();
-    size_t k = ((size_t)(ceil(log2((double)m + 1))));
-    std::vector<FFInt> a1 {FFInt(1)};
-    Poly gi(a1);
-    Poly f(b);
-    f.rev();
-
-    for (size_t i = 1; i <= k; i++) {
-      Poly q(gi);
-      q *= FFInt(2);
-      Poly tmp(gi);
-      tmp *= gi;
-      tmp *= f;
-      gi = q - tmp;
-
-      while (gi.get_deg() >= ((size_t) exp2((double) i))) {
-        gi.coeff.pop_back();
-      }
-    };
-
-    Poly s(a);
-
-    s.rev();
-
-    s *= gi;
-
-    while (s.get_deg() >= m + 1) {
-      s.coeff.pop_back();
-    }
-
-    size_t exp = m - s.get_deg();
-    s.rev();
-
-    for (size_t i = 1; i <= exp; i++) {
-      s.coeff.insert(s.coeff.begin(), FFInt(0));
-    };
-
-    Poly r(a);
-
-    r -= b * s;
-
-    s /= z.coeff.at(z.get_deg());
-
-    return std::make_pair(s, r);
-  }
-
-  Poly operator/(const Poly& a, const Poly& b) {
-    return (fast_euclidean_division(a, b).first);
-  }
-
-  Poly operator%(const Poly& a, const Poly& b) {
-    return (fast_euclidean_division(a, b).second);
-  }
-
-  Poly gcd(const Poly& c, const Poly& d) {
-    Poly a(c);
-    Poly b(d);
-
-    while (b.get_deg() != 0 || b.coeff.at(0) != FFInt(0)) {
-      Poly h;
-      h = a % b;
-      a = b;
-      b = h;
-    }
-
-    return a;
-  }
-
-  std::vector<FFInt> Poly::roots() {
-    Poly a;
-    a.coeff = coeff;
-    a.shrink_to_fit();
-    a /= a.coeff.back();
-    std::vector<FFInt> roots {};
-
-    while (a.coeff.at(0) == FFInt(0)) {
-      a.coeff.erase(a.coeff.begin());
-      roots.emplace_back(FFInt(0));
-    };
-
-    std::vector<Poly> queue {a};
-
-    while (!queue.empty()) {
-      while (queue.back().get_deg() > 1) {
-        std::random_device rd;
-        std::mt19937_64 eng(rd());//TODO Mersenne-Twister is too slow. Replace with pcg32
-        std::uniform_int_distribution<uint64_t> distr;
-        FFInt Delta(distr(eng));
-        size_t s = ((FFInt(0).p - 1) / 2);
-        std::vector<FFInt> master_vec {FFInt(1)};
-        Poly master(master_vec);
-        std::vector<FFInt>().swap(master_vec);
-        master.coeff.reserve(queue.back().get_deg() + 2);
-        master.coeff.resize(queue.back().get_deg() + 2);
-        std::vector<FFInt> multi_vec {FFInt(Delta), FFInt(1)};
-        Poly multi(multi_vec);
-        std::vector<FFInt>().swap(multi_vec);
-
-        for (size_t i = 1; i <= s; i++) {
-          master *= multi;
-          master = (master % queue.back());
-        };
-
-        master.coeff.at(0) -= FFInt(1);
-
-        Poly h;
-
-        h = gcd(queue.back(), master);
-
-        Poly f;
-
-        f = queue.back() / h;
-
-        queue.back() = h;
-
-        queue.back().shrink_to_fit();
-
-        queue.emplace_back(f);
-
-        queue.back().shrink_to_fit();
-      };
-
-      if (queue.back().get_deg() == 0) {
-        queue.pop_back();
-      }
-
-      while (!queue.empty() && queue.back().get_deg() == 1) {
-        roots.emplace_back(- queue.back().coeff.at(0) / queue.back().coeff.at(1));
-        queue.pop_back();
-      }
-    }
-
-    return roots;
-  }
-
-  std::ostream& operator<<(std::ostream& out, const Poly& a) {
-    if (a.coeff.empty()) {
-      return out << "0";
-    }
-
-    if (a.get_deg() == 0) {
-      return out << a.coeff.at(0);
-    }
-
-    if (a.get_deg() == 1 && a.coeff.at(0) != FFInt(0)) {
-      return out << a.coeff.at(1) << "x+" << a.coeff.at(0);
-    };
-
-    if (a.get_deg() == 1 && a.coeff.at(0) == FFInt(0)) {
-      return out << a.coeff.at(1) << "x";
-    };
-
-    out << a.coeff.at(a.get_deg()) << "x^" << a.get_deg();
-
-    for (size_t i = a.get_deg() - 1; i > 1; i--) {
-      if (a.coeff.at(i) != 0) {
-        out << "+" << a.coeff.at(i) << "x^" << i;
-      };
-    };
-
-    if (a.coeff.at(1) != 0) {
-      out << "+" << a.coeff.at(1) << "x";
-    }
-
-    if (a.coeff.at(0) != 0) {
-      out << "+" << a.coeff.at(0);
-    }
-
-    return out;
-  }
-}
+//==================================================================================
+//    FireFly - Reconstructing rational functions and polynomial over finite fields.
+//    Copyright (C) 2020  Jonas Klappert, Sven Yannick Klein and Fabian Lange
+//
+//    This program is free software: you can redistribute it and/or modify
+//    it under the terms of the GNU General Public License as published by
+//    the Free Software Foundation, either version 3 of the License, or
+//    (at your option) any later version.
+//
+//    This program is distributed in the hope that it will be useful,
+//    but WITHOUT ANY WARRANTY; without even the implied warranty of
+//    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+//    GNU General Public License for more details.
+//
+//    You should have received a copy of the GNU General Public License
+//    along with this program.  If not, see <https://www.gnu.org/licenses/>.
+//==================================================================================
+
+#include "firefly/Poly.hpp"
+
+#include <math.h>
+#include <random>
+
+namespace firefly {
+
+  Poly::Poly() {
+    coeff = std::vector<FFInt>();
+  }
+
+  Poly::Poly(std::vector<FFInt>& coeff_vector) {
+    coeff = coeff_vector;
+  }
+
+  Poly::Poly(const Poly& old_poly) {
+    coeff = old_poly.coeff;
+  }
+
+  Poly::~Poly() {
+    std::vector<FFInt>().swap(coeff);
+  }
+
+  size_t Poly::get_deg() const {
+    for (size_t i = coeff.size() - 1; i >= 1; i--) {
+      if (coeff.at(i) != 0) {
+        return i;
+      }
+    }
+
+    return 0;
+  }
+
+  void Poly::shrink_to_fit() {
+    while (coeff.back() == FFInt(0)) {
+      coeff.pop_back();
+    };
+
+    coeff.shrink_to_fit();
+  }
+
+  void Poly::rev() {
+    shrink_to_fit();
+    std::reverse(std::begin(coeff), std::end(coeff));
+  }
+
+  Poly& Poly::operator-=(const Poly& a) {
+    if (a.get_deg() > get_deg()) {
+      coeff.reserve(a.get_deg() + 1);
+      coeff.resize(a.get_deg() + 1);
+    };
+
+    for (size_t i = 0; i <= a.get_deg(); i++) {
+      if (i <= get_deg() && i <= a.get_deg()) {
+        coeff.at(i) = coeff.at(i) - a.coeff.at(i);
+      } else if (i > get_deg() && i <= a.get_deg()) {
+        coeff.emplace(coeff.begin() + i, - a.coeff.at(i));
+      };
+    }
+
+    return *this;
+  }
+
+  Poly& Poly::operator+=(const Poly& a) {
+    if (a.get_deg() > get_deg()) {
+      coeff.reserve(a.get_deg() + 1);
+      coeff.resize(a.get_deg() + 1);
+    };
+
+    for (size_t i = 0; i <= a.get_deg(); i++) {
+      if (i <= get_deg() && i <= a.get_deg()) {
+        coeff.at(i) = coeff.at(i) + a.coeff.at(i);
+      } else if (i > get_deg() && i <= a.get_deg()) {
+        coeff.emplace(coeff.begin() + i, a.coeff.at(i));
+      };
+    }
+
+    return *this;
+  }
+
+  Poly& Poly::operator*=(const FFInt& a) {
+    for (size_t i = 0; i <= get_deg(); i++) {
+      coeff.at(i) *= a;
+    };
+
+    return *this;
+  }
+
+  Poly& Poly::operator/=(const FFInt& a) {
+    for (size_t i = 0; i <= get_deg(); i++) {
+      coeff.at(i) /= a;
+    };
+
+    return *this;
+  }
+
+  Poly operator*(const Poly& a, const FFInt& b) {
+    Poly returner(a);
+    returner *= b;
+    return returner;
+  }
+
+  Poly operator/(const Poly& a, const FFInt& b) {
+    Poly returner(a);
+    returner /= b;
+    return returner;
+  }
+
+  Poly operator+(const Poly& a, const Poly& b) {
+    Poly returner(a);
+    returner += b;
+    return returner;
+  }
+
+  Poly operator-(const Poly& a, const Poly& b) {
+    Poly returner(a);
+    returner -= b;
+    return returner;
+  }
+
+  Poly& Poly::operator*=(const Poly& a) {
+    std::vector<FFInt> tmp_coeff {};
+    tmp_coeff.reserve(((get_deg() + 1) * (a.get_deg() + 1)));
+    tmp_coeff.resize(((get_deg() + 1) * (a.get_deg() + 1)));;
+
+    for (size_t i = 0; i < tmp_coeff.size(); i++) {
+      FFInt this_coeff(0);
+
+      for (size_t j = 0; j <= i; j++) {
+        if (coeff.size() > j && a.coeff.size() > i - j) {
+          this_coeff += coeff.at(j) * a.coeff.at(i - j);
+        }
+
+        tmp_coeff.at(i) = this_coeff;
+      };
+    }
+
+    coeff.swap(tmp_coeff);
+    return *this;
+  }
+
+  Poly operator*(const Poly& a, const Poly& b) {
+    Poly returner(a);
+    returner *= b;
+    return returner;
+  }
+
+  std::pair<Poly, Poly> fast_euclidean_division(const Poly& a, const Poly& z) {
+    if (a.get_deg() < z.get_deg() || (a.get_deg() == 0 && a.coeff.at(0) == 0)) {
+      std::vector<FFInt> a0 {FFInt(0)};
+      return std::make_pair(Poly(a0), a);
+    }
+
+    Poly b(z);
+    b.shrink_to_fit();
+    b /= b.coeff.back();
+    size_t m = a.get_deg() - b.get_deg();
+    size_t k = ((size_t)(ceil(log2((double)m + 1))));
+    std::vector<FFInt> a1 {FFInt(1)};
+    Poly gi(a1);
+    Poly f(b);
+    f.rev();
+
+    for (size_t i = 1; i <= k; i++) {
+      Poly q(gi);
+      q *= FFInt(2);
+      Poly tmp(gi);
+      tmp *= gi;
+      tmp *= f;
+      gi = q - tmp;
+
+      while (gi.get_deg() >= ((size_t) exp2((double) i))) {
+        gi.coeff.pop_back();
+      }
+    };
+
+    Poly s(a);
+
+    s.rev();
+
+    s *= gi;
+
+    while (s.get_deg() >= m + 1) {
+      s.coeff.pop_back();
+    }
+
+    size_t exp = m - s.get_deg();
+    s.rev();
+
+    for (size_t i = 1; i <= exp; i++) {
+      s.coeff.insert(s.coeff.begin(), FFInt(0));
+    };
+
+    Poly r(a);
+
+    r -= b * s;
+
+    s /= z.coeff.at(z.get_deg());
+
+    return std::make_pair(s, r);
+  }
+
+  Poly operator/(const Poly& a, const Poly& b) {
+    return (fast_euclidean_division(a, b).first);
+  }
+
+  Poly operator%(const Poly& a, const Poly& b) {
+    return (fast_euclidean_division(a, b).second);
+  }
+
+  Poly gcd(const Poly& c, const Poly& d) {
+    Poly a(c);
+    Poly b(d);
+
+    while (b.get_deg() != 0 || b.coeff.at(0) != FFInt(0)) {
+      Poly h;
+      h = a % b;
+      a = b;
+      b = h;
+    }
+
+    return a;
+  }
+
+  std::vector<FFInt> Poly::roots() {
+    Poly a;
+    a.coeff = coeff;
+    a.shrink_to_fit();
+    a /= a.coeff.back();
+    std::vector<FFInt> roots {};
+
+    while (a.coeff.at(0) == FFInt(0)) {
+      a.coeff.erase(a.coeff.begin());
+      roots.emplace_back(FFInt(0));
+    };
+
+    std::vector<Poly> queue {a};
+
+    while (!queue.empty()) {
+      while (queue.back().get_deg() > 1) {
+        std::random_device rd;
+        std::mt19937_64 eng(rd());//TODO Mersenne-Twister is too slow. Replace with pcg32
+        std::uniform_int_distribution<uint64_t> distr;
+        FFInt Delta(distr(eng));
+        size_t s = ((FFInt(0).p - 1) / 2);
+        std::vector<FFInt> master_vec {FFInt(1)};
+        Poly master(master_vec);
+        std::vector<FFInt>().swap(master_vec);
+        master.coeff.reserve(queue.back().get_deg() + 2);
+        master.coeff.resize(queue.back().get_deg() + 2);
+        std::vector<FFInt> multi_vec {FFInt(Delta), FFInt(1)};
+        Poly multi(multi_vec);
+        std::vector<FFInt>().swap(multi_vec);
+
+        for (size_t i = 1; i <= s; i++) {
+          master *= multi;
+          master = (master % queue.back());
+        };
+
+        master.coeff.at(0) -= FFInt(1);
+
+        Poly h;
+
+        h = gcd(queue.back(), master);
+
+        Poly f;
+
+        f = queue.back() / h;
+
+        queue.back() = h;
+
+        queue.back().shrink_to_fit();
+
+        queue.emplace_back(f);
+
+        queue.back().shrink_to_fit();
+      };
+
+      if (queue.back().get_deg() == 0) {
+        queue.pop_back();
+      }
+
+      while (!queue.empty() && queue.back().get_deg() == 1) {
+        roots.emplace_back(- queue.back().coeff.at(0) / queue.back().coeff.at(1));
+        queue.pop_back();
+      }
+    }
+
+    return roots;
+  }
+
+  std::ostream& operator<<(std::ostream& out, const Poly& a) {
+    if (a.coeff.empty()) {
+      return out << "0";
+    }
+
+    if (a.get_deg() == 0) {
+      return out << a.coeff.at(0);
+    }
+
+    if (a.get_deg() == 1 && a.coeff.at(0) != FFInt(0)) {
+      return out << a.coeff.at(1) << "x+" << a.coeff.at(0);
+    };
+
+    if (a.get_deg() == 1 && a.coeff.at(0) == FFInt(0)) {
+      return out << a.coeff.at(1) << "x";
+    };
+
+    out << a.coeff.at(a.get_deg()) << "x^" << a.get_deg();
+
+    for (size_t i = a.get_deg() - 1; i > 1; i--) {
+      if (a.coeff.at(i) != 0) {
+        out << "+" << a.coeff.at(i) << "x^" << i;
+      };
+    };
+
+    if (a.coeff.at(1) != 0) {
+      out << "+" << a.coeff.at(1) << "x";
+    }
+
+    if (a.coeff.at(0) != 0) {
+      out << "+" << a.coeff.at(0);
+    }
+
+    return out;
+  }
+}
-- 
2.43.0

