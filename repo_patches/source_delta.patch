From 557e7da22a1800e71ef39415aa52c9cb18b06e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 01/25] fix: shift Arf by the most negative long correctly

x >>= LONG_MIN negated the shift in a long which overflows.
---
 libexactreal/src/arf.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/arf.cc b/libexactreal/src/arf.cc
index 8fadd33..528b769 100644
--- a/libexactreal/src/arf.cc
+++ b/libexactreal/src/arf.cc
@@ -130,7 +130,16 @@ Arf& Arf::operator<<=(const long rhs) noexcept {
   return *this;
 }
 
-Arf& Arf::operator>>=(const long rhs) noexcept { return this->operator<<=(-rhs); }
+Arf& Arf::operator>>=(const long rhs) noexcept {
+  // Note that -rhs might not be representable as a long.
+  fmpz_t e;
+  fmpz_init(e);
+  fmpz_set_si(e, rhs);
+  fmpz_neg(e, e);
+  arf_mul_2exp_fmpz(t, t, e);
+  fmpz_clear(e);
+  return *this;
+}
 
 bool Arf::operator<(const Arf& rhs) const noexcept { return arf_cmp(t, rhs.t) < 0; }
 
-- 
2.43.0


From abcdc43733c3c5ae28fd60eed4469f4ddcd00c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 02/25] fix: compare Arb and rational with != correctly

operator!= returned the result of operator==.
---
 libexactreal/src/arb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 9495d5a..06b4d2b 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -258,7 +258,7 @@ std::optional<bool> Arb::operator==(const mpq_class& rhs) const noexcept {
 
 std::optional<bool> Arb::operator!=(const mpq_class& rhs) const noexcept {
   Arb lhs = (*this * Arb(rhs.get_den()))(ARF_PREC_EXACT);
-  return lhs == Arb(rhs.get_num());
+  return lhs != Arb(rhs.get_num());
 }
 
 std::optional<bool> Arb::operator<(const mpq_class& rhs) const noexcept {
-- 
2.43.0


From a3e2e28e0b04b842a74a98d662a5df432cb394c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 03/25] fix: floor of negative rationals

The division of mpz_class truncates towards zero.
---
 libexactreal/src/rational_field.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/rational_field.cc b/libexactreal/src/rational_field.cc
index c081ef2..862b60c 100644
--- a/libexactreal/src/rational_field.cc
+++ b/libexactreal/src/rational_field.cc
@@ -47,7 +47,9 @@ std::optional<mpq_class> RationalField::rational(const ElementClass& x) {
 }
 
 mpz_class RationalField::floor(const ElementClass& x) {
-  return x.get_num() / x.get_den();
+  mpz_class floor;
+  mpz_fdiv_q(floor.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
+  return floor;
 }
 
 RationalField::ElementClass RationalField::coerce(const ElementClass& x) const {
-- 
2.43.0


From f9113f9a53f84cfcc3764ba86275cd5e26e824aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 04/25] fix: balls returned by RealNumber::arb and refine
 contain the number

The midpoint was computed with a relative error of 2^-prec but the radius
only accounted for an error of 2^-(prec+2), so in about half of all cases the
ball did not contain the number and comparisons could be wrong.
---
 libexactreal/exact-real/real_number.hpp | 8 ++++----
 libexactreal/src/real_number.cc         | 5 ++++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/libexactreal/exact-real/real_number.hpp b/libexactreal/exact-real/real_number.hpp
index d6db9f6..f1dafe0 100644
--- a/libexactreal/exact-real/real_number.hpp
+++ b/libexactreal/exact-real/real_number.hpp
@@ -156,7 +156,7 @@ class LIBEXACTREAL_API RealNumber
   ///     #include <exact-real/arb.hpp>
   ///     const auto x = exactreal::RealNumber::rational(mpq_class{1, 3});
   ///     x->arb(3)
-  ///     // -> [0.312500 +/- 0.0157]
+  ///     // -> [0.335938 +/- 0.0157]
   ///
   /// Note that the printed output here for the radius can be misleading since
   /// printing via `std::cout` (which is used here) normally only requests a
@@ -167,7 +167,7 @@ class LIBEXACTREAL_API RealNumber
   ///     // -> [0.333333 +/- 3.34e-7]
   ///
   ///     std::cout << std::setprecision(32) << x->arb(64);
-  ///     // -> [0.33333333333333333334236835143738 +/- 6.78e-21]
+  ///     // -> [0.33333333333333333333220395607033 +/- 6.78e-21]
   ///
   Arb arb(long prec) const;
 
@@ -182,11 +182,11 @@ class LIBEXACTREAL_API RealNumber
   ///
   ///     x->refine(a, 2);
   ///     a
-  ///     // -> [0.375000 +/- 0.0313]
+  ///     // -> [0.328125 +/- 0.0313]
   ///
   ///     x->refine(a, 16);
   ///     a
-  ///     // -> [0.333336 +/- 2.04e-6]
+  ///     // -> [0.333333 +/- 1.93e-6]
   ///
   void refine(Arb& arb, long prec) const;
 
diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index af8348b..3466013 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -68,7 +68,10 @@ void RealNumber::refine(Arb& arb, const long prec) const {
     return;
   }
 
-  Arf midpoint = arf(prec);
+  // The error of the midpoint is at most 2^-(prec + 3) times this number, so
+  // it is bounded by the radius 2^(exp - (prec + 2)) where 2^exp is the upper
+  // bound for the midpoint.
+  Arf midpoint = arf(prec + 3);
   arb_set_arf(arb.arb_t(), midpoint.arf_t());
   arb_add_error_2exp_si(arb.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
 
-- 
2.43.0


From 96434df7c0c12102993dc602a6e7a3bbfb2f0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 05/25] fix: convert real numbers to the closest double

The number was rounded to 54 bits first and then rounded again, so the result
was off by one ulp for many numbers, in particular for ties and subnormals.
---
 libexactreal/src/real_number.cc | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 3466013..9f1d80f 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -35,10 +35,34 @@ namespace exactreal {
 
 const long ARF_DOUBLE_PRECISION = 54;
 
+namespace {
+
+// Return the exact lower and upper bound of this ball.
+std::pair<Arf, Arf> bounds(const Arb& arb) {
+  std::pair<Arf, Arf> ret;
+  arb_get_lbound_arf(ret.first.arf_t(), arb.arb_t(), ARF_PREC_EXACT);
+  arb_get_ubound_arf(ret.second.arf_t(), arb.arb_t(), ARF_PREC_EXACT);
+  return ret;
+}
+
+}  // namespace
+
 RealNumber::~RealNumber() {}
 
 RealNumber::operator double() const {
-  return static_cast<double>(arf(ARF_DOUBLE_PRECISION));
+  const auto rational = static_cast<std::optional<mpq_class>>(*this);
+  if (rational && mpz_popcount(rational->get_den_mpz_t()) == 1)
+    // This number could be the midpoint between two doubles.
+    return static_cast<double>(Arf(rational->get_num(), 0) >> static_cast<long>(mpz_scan1(rational->get_den_mpz_t(), 0)));
+
+  // Rounding an approximation of this number is only safe if all the numbers
+  // that share that approximation round to the same double.
+  for (long prec = ARF_DOUBLE_PRECISION;; prec *= 2) {
+    const auto [lower, upper] = bounds(arb(prec));
+    const double approximation = static_cast<double>(lower);
+    if (approximation == static_cast<double>(upper))
+      return approximation;
+  }
 }
 
 RealNumber::operator bool() const {
-- 
2.43.0


From 92596d88b96e890d3922328344dcaba239ed7524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 06/25] fix: compare real numbers to balls exactly

RealNumber::cmp rounded the endpoints of the ball and compared them to a
single approximation of the number, so a number just outside the ball was
reported as contained and vice versa.
---
 libexactreal/src/real_number.cc | 45 ++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 9f1d80f..c28e2b4 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -28,7 +28,6 @@
 #include "../exact-real/yap/arf.hpp"
 #include "impl/real_number_base.hpp"
 
-using std::max;
 using std::ostream;
 
 namespace exactreal {
@@ -45,6 +44,17 @@ std::pair<Arf, Arf> bounds(const Arb& arb) {
   return ret;
 }
 
+// Return a ball that contains x with prec bits of relative accuracy.
+Arb enclose(const RealNumber& x, const long prec) {
+  // The error of the midpoint is at most 2^-(prec + 3) times x, so it is bounded
+  // by the radius 2^(exp - (prec + 2)) where 2^exp is the upper bound for the
+  // midpoint.
+  const Arf midpoint = x.arf(prec + 3);
+  Arb ret(midpoint);
+  arb_add_error_2exp_si(ret.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
+  return ret;
+}
+
 }  // namespace
 
 RealNumber::~RealNumber() {}
@@ -71,13 +81,29 @@ RealNumber::operator bool() const {
 }
 
 int RealNumber::cmp(const Arb& arb) const {
-  auto interval = static_cast<std::pair<Arf, Arf>>(arb);
-  auto a = interval.first, b = interval.second;
+  // Return how this number compares to a bound of the interval.
+  const auto compare = [&](const Arf& bound) {
+    if (arf_is_nan(bound.arf_t()))
+      return 0;
+    if (!arf_is_finite(bound.arf_t()))
+      return arf_is_pos_inf(bound.arf_t()) ? -1 : 1;
+
+    if (*this == bound)
+      return 0;
+
+    for (long prec = ARB_PRECISION_FAST;; prec *= 2) {
+      // Note that we cannot use refine() here since its assertions use cmp().
+      const auto lt = enclose(*this, prec) < Arb(bound);
+      if (lt)
+        return *lt ? -1 : 1;
+    }
+  };
+
+  const auto [lower, upper] = bounds(arb);
 
-  auto approx = arf(max(arf_bits(a.arf_t()), arf_bits(b.arf_t())) + 1);
-  if (approx < a) {
+  if (compare(lower) < 0) {
     return -1;
-  } else if (approx > b) {
+  } else if (compare(upper) > 0) {
     return 1;
   } else {
     return 0;
@@ -92,12 +118,7 @@ void RealNumber::refine(Arb& arb, const long prec) const {
     return;
   }
 
-  // The error of the midpoint is at most 2^-(prec + 3) times this number, so
-  // it is bounded by the radius 2^(exp - (prec + 2)) where 2^exp is the upper
-  // bound for the midpoint.
-  Arf midpoint = arf(prec + 3);
-  arb_set_arf(arb.arb_t(), midpoint.arf_t());
-  arb_add_error_2exp_si(arb.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
+  arb = enclose(*this, prec);
 
   assert(this->cmp(arb) == 0);
   assert(!*this || arb_rel_accuracy_bits(arb.arb_t()) >= prec);
-- 
2.43.0


From 8526605f58a36744710fb738acd36c773edee4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 07/25] fix: bounds of balls whose radius is comparable to
 their midpoint

---
 libexactreal/src/arb.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 06b4d2b..b0bcddf 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -314,7 +314,9 @@ Arb& Arb::operator=(const mpz_class& rhs) noexcept {
 
 Arb::operator std::pair<Arf, Arf>() const noexcept {
   std::pair<Arf, Arf> ret;
-  arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), arb_rel_accuracy_bits(arb_t()));
+  // The accuracy of wide balls is zero or negative which is not a valid
+  // precision; the bounds have at least the precision of the radius.
+  arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), std::max<slong>(arb_rel_accuracy_bits(arb_t()), MAG_BITS));
   return ret;
 }
 
-- 
2.43.0


From 0fc488ae7a96201db3a635b68eafd545d379a614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 08/25] fix: do not truncate doubles assigned to Arb or used in
 Arb expressions

---
 libexactreal/exact-real/arb.hpp   | 2 ++
 libexactreal/src/arb.cc           | 5 +++++
 libexactreal/src/libexactreal.map | 1 +
 3 files changed, 8 insertions(+)

diff --git a/libexactreal/exact-real/arb.hpp b/libexactreal/exact-real/arb.hpp
index 9eafa98..b089033 100644
--- a/libexactreal/exact-real/arb.hpp
+++ b/libexactreal/exact-real/arb.hpp
@@ -270,6 +270,8 @@ class LIBEXACTREAL_API Arb
   template <typename Integer, typename = std::enable_if_t<std::is_integral_v<Integer>>>
   Arb& operator=(Integer) noexcept;
   Arb& operator=(const mpz_class&) noexcept;
+  // Without this, a double would be truncated to an mpz_class implicitly.
+  Arb& operator=(double) noexcept;
   ///@}
 
   /// Return the negative of this element.
diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index b0bcddf..168d1c9 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -312,6 +312,11 @@ Arb& Arb::operator=(const mpz_class& rhs) noexcept {
   return *this;
 }
 
+Arb& Arb::operator=(double rhs) noexcept {
+  arb_set_d(arb_t(), rhs);
+  return *this;
+}
+
 Arb::operator std::pair<Arf, Arf>() const noexcept {
   std::pair<Arf, Arf> ret;
   // The accuracy of wide balls is zero or negative which is not a valid
diff --git a/libexactreal/src/libexactreal.map b/libexactreal/src/libexactreal.map
index 1bfb7e8..adc7205 100644
--- a/libexactreal/src/libexactreal.map
+++ b/libexactreal/src/libexactreal.map
@@ -49,6 +49,7 @@ LIBEXACTREAL_3.0.0 {
       "exactreal::Arb::operator<=(__gmp_expr<__mpq_struct [1], __mpq_struct [1]> const&) const";
       "exactreal::Arb::operator<=(exactreal::Arb const&) const";
       "exactreal::Arb::operator=(__gmp_expr<__mpz_struct [1], __mpz_struct [1]> const&)";
+      "exactreal::Arb::operator=(double)";
       "exactreal::Arb::operator=(exactreal::Arb const&)";
       "exactreal::Arb::operator=(exactreal::Arb&&)";
       "exactreal::Arb::operator==(__gmp_expr<__mpq_struct [1], __mpq_struct [1]> const&) const";
-- 
2.43.0


From 4bbe644fedcd8b028f5837e14bd34e859deb376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 09/25] fix: compare real numbers to unsigned integers

---
 libexactreal/exact-real/real_number.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libexactreal/exact-real/real_number.hpp b/libexactreal/exact-real/real_number.hpp
index f1dafe0..a2a1818 100644
--- a/libexactreal/exact-real/real_number.hpp
+++ b/libexactreal/exact-real/real_number.hpp
@@ -311,17 +311,29 @@ class LIBEXACTREAL_API RealNumber
 #ifndef DOXYGEN_DOCUMENTATION_BUILD
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator<(Integer rhs) const noexcept {
-  return this->operator<(Arf(rhs));
+  if constexpr (std::is_unsigned_v<Integer>)
+    // There is no conversion from unsigned integers to Arf.
+    return this->operator<(mpz_class(static_cast<unsigned long>(rhs)));
+  else
+    return this->operator<(Arf(rhs));
 }
 
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator>(Integer rhs) const noexcept {
-  return this->operator>(Arf(rhs));
+  if constexpr (std::is_unsigned_v<Integer>)
+    // There is no conversion from unsigned integers to Arf.
+    return this->operator>(mpz_class(static_cast<unsigned long>(rhs)));
+  else
+    return this->operator>(Arf(rhs));
 }
 
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator==(Integer rhs) const noexcept {
-  return this->operator==(Arf(rhs));
+  if constexpr (std::is_unsigned_v<Integer>)
+    // There is no conversion from unsigned integers to Arf.
+    return this->operator==(mpz_class(static_cast<unsigned long>(rhs)));
+  else
+    return this->operator==(Arf(rhs));
 }
 #endif
 
-- 
2.43.0


From a76f5c398aa4f6d4bb87a31ab7b2634ab8760ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 10/25] fix: random numbers close to the largest doubles

---
 libexactreal/src/constrained_random_real_number.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index a05de35..01b7c81 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -214,6 +214,11 @@ shared_ptr<const RealNumber> RealNumber::random(const double x, Seed seed) {
   Arf midpoint = Arf(x);
   Arf upper = Arf(nextafter(x, numeric_limits<double>::infinity()));
 
+  // The doubles of largest absolute value have no finite successor (resp.
+  // predecessor.) However, values round to them as if they had.
+  if (x == numeric_limits<double>::max()) upper = (2 * midpoint - lower)(64, Arf::Round::NEAR);
+  if (x == numeric_limits<double>::lowest()) lower = (2 * midpoint - upper)(64, Arf::Round::NEAR);
+
   // … and shrink it so it only contains midpoint.
   // We use 64 bits of precision, more than a double can possibly have:
   lower = ((lower + 2 * midpoint) / 3)(64, Arf::Round::NEAR);
-- 
2.43.0


From 5691e8f24140e7516a0d6decbf35b4ba9a784b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 11/25] fix: find one in integer modules generated by the
 negative of a unit fraction

---
 libexactreal/src/module.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/module.cc b/libexactreal/src/module.cc
index ab98874..f7b6696 100644
--- a/libexactreal/src/module.cc
+++ b/libexactreal/src/module.cc
@@ -202,8 +202,8 @@ Element<Ring> Module<Ring>::one() const {
     auto rational = static_cast<std::optional<mpq_class>>(*basis()[g]);
     if (rational) {
       if constexpr (std::is_same_v<Ring, IntegerRing>) {
-        if (rational->get_num() == 1) {
-          return rational->get_den() * gen(g);
+        if (abs(rational->get_num()) == 1) {
+          return mpz_class(rational->get_num() * rational->get_den()) * gen(g);
         }
       } else {
           return mpq_class(rational->get_den(), rational->get_num()) * gen(g);
-- 
2.43.0


From 783f6021a5644cf9bc4b31c426cf90b706f1cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 12/25] fix: reject floor division by zero

---
 libexactreal/src/element.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 78131c2..09972ab 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -466,6 +466,8 @@ std::optional<Element<Ring>> Element<Ring>::truediv(const Element<Ring>& rhs) co
 
 template <typename Ring>
 mpz_class Element<Ring>::floordiv(const Element<Ring>& rhs) const {
+  LIBEXACTREAL_CHECK_ARGUMENT(rhs, "division by zero");
+
   if (!*this)
     return 0;
 
-- 
2.43.0


From 81a9595064a41dcf89986bd7822d805296141808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:20 +0000
Subject: [PATCH 13/25] fix: find one in modules over fields generated by a
 negative rational

---
 libexactreal/src/module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/module.cc b/libexactreal/src/module.cc
index f7b6696..367c009 100644
--- a/libexactreal/src/module.cc
+++ b/libexactreal/src/module.cc
@@ -206,7 +206,7 @@ Element<Ring> Module<Ring>::one() const {
           return mpz_class(rational->get_num() * rational->get_den()) * gen(g);
         }
       } else {
-          return mpq_class(rational->get_den(), rational->get_num()) * gen(g);
+          return mpq_class(1 / *rational) * gen(g);
       }
     }
   }
-- 
2.43.0


From df31e95a1670ad90d7cabdce3be9d78ee0757e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 14/25] fix: convert rational elements to the closest double

---
 libexactreal/src/element.cc | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 09972ab..87c790e 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -812,16 +812,7 @@ Element<Ring>::operator double() const {
   {
     auto rational = static_cast<std::optional<mpq_class>>(*this);
     if (rational) {
-      Arf a;
-
-      fmpq_t q;
-      fmpq_init_set_readonly(q, rational->get_mpq_t());
-
-      arf_set_fmpq(a.arf_t(), q, DBL_MANT_DIG, ARF_RND_NEAR);
-
-      fmpq_clear_readonly(q);
-
-      return static_cast<double>(a);
+      return static_cast<double>(*RealNumber::rational(*rational));
     }
   }
 
-- 
2.43.0


From 3b5ab5906b439a6ca234cdf02611d800d6da435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 15/25] fix: units in integer modules generated by a rational
 other than one

---
 libexactreal/src/element.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 87c790e..813ed5e 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -530,10 +530,14 @@ bool Element<Ring>::unit() const {
     const auto& c = impl->coefficients[i];
     if (c == 0)
       continue;
-    if (!static_cast<std::optional<mpq_class>>(impl->parent->gen(i)))
-      return false;
-    if (!Ring::unit(impl->coefficients[i]))
+    const auto generator = static_cast<std::optional<mpq_class>>(*impl->parent->basis()[i]);
+    if (!generator)
       return false;
+    if constexpr (!Ring::isField) {
+      // The inverse must be a multiple of the generator.
+      if (mpq_class(1 / (*generator * *generator * c)).get_den() != 1)
+        return false;
+    }
   }
 
   return true;
-- 
2.43.0


From 6265fbfb34e69825aa3a6a8d5e2d1ccd4a3a43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 16/25] fix: restore elements whose generators are ordered
 differently when loaded

The order of the generators of a module depends on the order in which they
have been created in this process. When loading an element, we now assign the
coefficients to the generators as they were stored in the archive.
---
 libexactreal/exact-real/cereal.hpp | 42 ++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index 39ece2f..745c306 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -21,6 +21,7 @@
 #ifndef LIBEXACTREAL_CEREAL_HPP
 #define LIBEXACTREAL_CEREAL_HPP
 
+#include <algorithm>
 #include <cereal/archives/json.hpp>
 #include <cereal/cereal.hpp>
 #include <cereal/types/memory.hpp>
@@ -184,6 +185,16 @@ void load(Archive& archive, Arf& self) {
   }
 }
 
+// A module together with the generators in the order in which they were
+// written to an archive. The generators of the module itself might be ordered
+// differently since that order depends on the order in which these generators
+// have been created in this process.
+template <typename Ring>
+struct ArchivedModule {
+  std::shared_ptr<const Module<Ring>> module;
+  typename Module<Ring>::Basis basis;
+};
+
 template <typename Archive, typename Ring>
 void save(Archive& archive, const Element<Ring>& self) {
   archive(cereal::make_nvp("parent", self.module()));
@@ -196,17 +207,20 @@ void save(Archive& archive, const Element<Ring>& self) {
 
 template <typename Archive, typename Ring>
 void load(Archive& archive, Element<Ring>& self) {
-  std::shared_ptr<const Module<Ring>> module;
-  archive(cereal::make_nvp("parent", module));
+  ArchivedModule<Ring> parent;
+  archive(cereal::make_nvp("parent", parent));
 
   std::vector<MaybeWrap<typename Ring::ElementClass>> coefficients;
   archive(cereal::make_nvp("coefficients", coefficients));
 
+  if (coefficients.size() != parent.basis.size())
+    throw std::logic_error("malformed archive, number of coefficients does not match number of generators");
+
   std::vector<typename Ring::ElementClass> coeffs;
-  for (auto& c : coefficients)
-    coeffs.push_back(c);
+  for (auto& gen : parent.module->basis())
+    coeffs.push_back(coefficients[static_cast<size_t>(std::find(begin(parent.basis), end(parent.basis), gen) - begin(parent.basis))]);
 
-  self = Element<Ring>(module, coeffs);
+  self = Element<Ring>(parent.module, coeffs);
 }
 
 template <typename Archive>
@@ -296,7 +310,7 @@ void save(Archive& archive, const std::shared_ptr<const exactreal::Module<Ring>>
 }
 
 template <typename Archive, typename Ring>
-void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self) {
+void load(Archive& archive, exactreal::ArchivedModule<Ring>& self) {
   // cereal insists on creating a new instance of T when deserializing a
   // shared_ptr<T>. However this is not compatible with our uniqueness of
   // modules (if the module already exists, we do not create a new one but just
@@ -307,16 +321,22 @@ void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self
   archive(cereal::make_nvp("shared", id));
 
   if (id & cereal::detail::msb_32bit) {
-    typename exactreal::Module<Ring>::Basis basis;
-    archive(cereal::make_nvp("basis", basis));
+    archive(cereal::make_nvp("basis", self.basis));
     Ring ring;
     archive(cereal::make_nvp("ring", ring));
-    self = exactreal::Module<Ring>::make(basis, ring);
-    archive.registerSharedPointer(id, std::static_pointer_cast<void>(std::const_pointer_cast<exactreal::Module<Ring>>(self)));
+    self.module = exactreal::Module<Ring>::make(self.basis, ring);
+    archive.registerSharedPointer(id, std::static_pointer_cast<void>(std::make_shared<exactreal::ArchivedModule<Ring>>(self)));
   } else {
-    self = std::static_pointer_cast<exactreal::Module<Ring>>(archive.getSharedPointer(id));
+    self = *std::static_pointer_cast<exactreal::ArchivedModule<Ring>>(archive.getSharedPointer(id));
   }
 }
+
+template <typename Archive, typename Ring>
+void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self) {
+  exactreal::ArchivedModule<Ring> archived;
+  load(archive, archived);
+  self = archived.module;
+}
 }  // namespace cereal
 
 #endif
-- 
2.43.0


From fd9f780802b567106dc40e590b5cacb3ced8a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 17/25] fix: identify random numbers in an interval that equal
 the underlying random number

---
 libexactreal/src/constrained_random_real_number.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index 01b7c81..744a39a 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -191,6 +191,10 @@ shared_ptr<const RealNumber> RealNumber::random(const Arf& lower, const Arf& upp
     Arf initial = Arf(mantissa, e);
     auto inner = RealNumber::random(seed);
 
+    // Equal real numbers must be the same object: initial + inner·2^(e - 1) is inner.
+    if (initial == 0 && e == 1)
+      return inner;
+
     return factory().get(std::tuple{initial, e, inner}, [&]() {
       return new ConstrainedRandomRealNumber(initial, e, inner);
     });
-- 
2.43.0


From 5966988cc60adc6e0282f5ff8d2fcdeba6af553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 18/25] fix: reject random numbers in intervals whose exponents
 do not fit into a long

---
 libexactreal/src/constrained_random_real_number.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index 744a39a..970e244 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -159,6 +159,12 @@ shared_ptr<const RealNumber> RealNumber::random(const Arf& lower, const Arf& upp
     auto upper_mantissa = upper.mantissa();
     auto upper_exponent = upper.exponent();
 
+    // The exponent e below is a long and approximations use exponents that are
+    // somewhat smaller, so it must not be close to the limits of a long either.
+    const long max_exponent = numeric_limits<long>::max() / 2;
+    if (abs(lower_exponent) > max_exponent || abs(upper_exponent) > max_exponent)
+      throw std::logic_error("not implemented - random number in an interval whose end points have exponents this large");
+
     // If a and b are very different in size, these shifts could lead to Out Of
     // Memory situations.
 
-- 
2.43.0


From 375b6f5bf0dc615cf4dd64b8b80aece4590d3ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 19/25] fix: coerce elements over the rationals when they are
 multiplied with an algebraic number

---
 libexactreal/src/element.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 813ed5e..dab38a4 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -344,6 +344,8 @@ Element<Ring>& Element<Ring>::operator*=(const mpq_class& rhs) {
 template <typename Ring>
 template <bool, typename>
 Element<Ring>& Element<Ring>::operator*=(const typename Ring::ElementClass& rhs) {
+  if (!Ring::rational(rhs))
+    promote(Module<Ring>::make(module()->basis(), Ring::compositum(module()->ring(), Ring(rhs))));
   (*impl) *= rhs;
   return *this;
 }
@@ -411,6 +413,8 @@ Element<Ring>& Element<Ring>::operator/=(const mpq_class& rhs) {
 template <typename Ring>
 template <bool, typename>
 Element<Ring>& Element<Ring>::operator/=(const typename Ring::ElementClass& rhs) {
+  if (!Ring::rational(rhs))
+    promote(Module<Ring>::make(module()->basis(), Ring::compositum(module()->ring(), Ring(rhs))));
   (*impl) /= rhs;
   return *this;
 }
-- 
2.43.0


From 68cb691116d51476c105d0227a97ac4f09ed0ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 20/25] fix: exponents of real numbers that do not fit into a
 long

---
 libexactreal/src/real_number.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index c28e2b4..e475c3f 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -51,7 +51,11 @@ Arb enclose(const RealNumber& x, const long prec) {
   // midpoint.
   const Arf midpoint = x.arf(prec + 3);
   Arb ret(midpoint);
-  arb_add_error_2exp_si(ret.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
+  fmpz_t exp;
+  fmpz_init(exp);
+  fmpz_sub_si(exp, &midpoint.arf_t()[0].exp, prec + 2);
+  arb_add_error_2exp_fmpz(ret.arb_t(), exp);
+  fmpz_clear(exp);
   return ret;
 }
 
-- 
2.43.0


From 93cb5ca77f329900500ad0d076ddc15b49bc2713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 21/25] fix: comparing a real number to NaN does not terminate

---
 libexactreal/src/real_number.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index e475c3f..b64d6e8 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -182,7 +182,7 @@ bool RealNumber::operator==(const mpz_class& rhs) const noexcept {
 }
 
 bool RealNumber::operator<(const Arf& rhs) const {
-  if (this->operator==(rhs)) {
+  if (this->operator==(rhs) || arf_is_nan(rhs.arf_t())) {
     return false;
   }
   Arb self = Arb::zero_pm_inf();
@@ -197,7 +197,7 @@ bool RealNumber::operator<(const Arf& rhs) const {
 }
 
 bool RealNumber::operator>(const Arf& rhs) const {
-  if (this->operator==(rhs)) {
+  if (this->operator==(rhs) || arf_is_nan(rhs.arf_t())) {
     return false;
   }
   return !this->operator<(rhs);
-- 
2.43.0


From e23fca46ff3183300fa4acd620ceb13f5b297dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 22/25] fix: comparing a small real number to the real number
 zero needed as many bits as the exponent of that number

---
 libexactreal/src/real_number.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index b64d6e8..5a2bb1d 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -51,6 +51,9 @@ Arb enclose(const RealNumber& x, const long prec) {
   // midpoint.
   const Arf midpoint = x.arf(prec + 3);
   Arb ret(midpoint);
+  // The relative error is bounded, so only zero is approximated by zero.
+  if (arf_is_zero(midpoint.arf_t()))
+    return ret;
   fmpz_t exp;
   fmpz_init(exp);
   fmpz_sub_si(exp, &midpoint.arf_t()[0].exp, prec + 2);
-- 
2.43.0


From c27eb5d7e718d20e99af89904ae55a3a87dd0e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 23/25] fix: seeds created in several threads at the same time
 are not distinct

---
 libexactreal/src/seed.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/seed.cc b/libexactreal/src/seed.cc
index a7c192e..efa84d7 100644
--- a/libexactreal/src/seed.cc
+++ b/libexactreal/src/seed.cc
@@ -20,8 +20,10 @@
 
 #include "../exact-real/seed.hpp"
 
+#include <atomic>
+
 namespace exactreal {
-static unsigned int nextSeed = 1337;
+static std::atomic<unsigned int> nextSeed = 1337;
 
 Seed::Seed() : Seed(nextSeed++) {}
 
-- 
2.43.0


From 8088217b1b3cf7f3c6f166d526e4b5cdc588fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:58 +0000
Subject: [PATCH 24/25] fix: comparison of elements with long long does not
 depend on the locale

---
 libexactreal/src/element.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index dab38a4..dbe92bb 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -29,7 +29,6 @@
 #endif
 #include <e-antic/renfxx.h>
 
-#include <boost/lexical_cast.hpp>
 #include <boost/numeric/conversion/cast.hpp>
 #include <cmath>
 #include <map>
@@ -727,12 +726,12 @@ bool Element<Ring>::operator==(unsigned long rhs) const {
 
 template <typename Ring>
 bool Element<Ring>::operator==(long long rhs) const {
-  return *this == mpq_class(boost::lexical_cast<std::string>(rhs));
+  return *this == static_cast<mpz_class>(gmpxxll::mpz_class(rhs));
 }
 
 template <typename Ring>
 bool Element<Ring>::operator==(unsigned long long rhs) const {
-  return *this == mpq_class(boost::lexical_cast<std::string>(rhs));
+  return *this == static_cast<mpz_class>(gmpxxll::mpz_class(rhs));
 }
 
 template <typename Ring>
-- 
2.43.0


From 60f3cc2fe16eaad25a31b2a7b76deadcfb3c327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:23 +0000
Subject: [PATCH 25/25] fix: promotion of elements drops terms that are not in
 the module

---
 libexactreal/src/element.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index dbe92bb..32d33e4 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -884,6 +884,7 @@ Element<Ring>& Element<Ring>::promote(const shared_ptr<const Module<Ring>>& pare
       continue;
     }
     if ((**our_gen).deglex(**their_gen)) {
+      LIBEXACTREAL_ASSERT(!impl->coefficients[our_gen - begin(our_gens)], "Cannot promote " << *this << " to " << *parent << " since " << **our_gen << " is not in " << *parent);
       our_gen++;
       continue;
     } else {
-- 
2.43.0

