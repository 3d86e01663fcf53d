From 5e61d23cd5f55d98cc72803b4f1a21375ea9b94e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 01/20] fix: let precision and rounding mode bind to an inner
 left operand of an expression

AssignTransformation handed itself, not the derived transformation, to
transform_strict when descending into unary and binary nodes, so that
((a + b)(prec, round) + c)(prec, round) and -(a + b)(prec, round) did not
compile: the base has no operator() for call nodes.
---
 libexactreal/exact-real/yap/assign_transformation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libexactreal/exact-real/yap/assign_transformation.hpp b/libexactreal/exact-real/yap/assign_transformation.hpp
index 17db436..45c3cd7 100644
--- a/libexactreal/exact-real/yap/assign_transformation.hpp
+++ b/libexactreal/exact-real/yap/assign_transformation.hpp
@@ -47,14 +47,14 @@ struct AssignTransformation {
   // by moving the value of the operand into "value" and applying the operator.
   template <boost::yap::expr_kind tag, typename Arg>
   void operator()(boost::yap::expr_tag<tag>, Arg&& arg) {
-    boost::yap::transform_strict(TypedAssignTransformation::as_expr(std::forward<Arg>(arg)), *this);
+    boost::yap::transform_strict(TypedAssignTransformation::as_expr(std::forward<Arg>(arg)), *static_cast<TypedAssignTransformation*>(this));
     static_cast<TypedAssignTransformation*>(this)->template unary<tag>();
   }
 
   template <boost::yap::expr_kind tag, typename L, typename R>
   void operator()(boost::yap::expr_tag<tag>, L&& left, R&& right) {
     T rhs = static_cast<TypedAssignTransformation*>(this)->eval(std::forward<R>(right));
-    boost::yap::transform_strict(TypedAssignTransformation::as_expr(std::forward<L>(left)), *this);
+    boost::yap::transform_strict(TypedAssignTransformation::as_expr(std::forward<L>(left)), *static_cast<TypedAssignTransformation*>(this));
     static_cast<TypedAssignTransformation*>(this)->template binary<tag>(std::move(rhs));
   }
 
-- 
2.43.0


From b953e0dbb1472f80cbe38ec65431abc71ff5abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 02/20] fix: Arb != rational returned the answer for ==

---
 libexactreal/src/arb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 9495d5a..06b4d2b 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -258,7 +258,7 @@ std::optional<bool> Arb::operator==(const mpq_class& rhs) const noexcept {
 
 std::optional<bool> Arb::operator!=(const mpq_class& rhs) const noexcept {
   Arb lhs = (*this * Arb(rhs.get_den()))(ARF_PREC_EXACT);
-  return lhs == Arb(rhs.get_num());
+  return lhs != Arb(rhs.get_num());
 }
 
 std::optional<bool> Arb::operator<(const mpq_class& rhs) const noexcept {
-- 
2.43.0


From 0011fd712ef1ff0cb57d9bfddb02046bd926eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 03/20] fix: an Arb assigned a double, or combined with one in
 an expression, dropped its fractional part

There was no assignment from double, so the value went through the implicit
conversion to mpz_class: (x + 1.5)(64) evaluated to x + 1.
---
 libexactreal/exact-real/arb.hpp | 1 +
 libexactreal/src/arb.cc         | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/libexactreal/exact-real/arb.hpp b/libexactreal/exact-real/arb.hpp
index 9eafa98..121e487 100644
--- a/libexactreal/exact-real/arb.hpp
+++ b/libexactreal/exact-real/arb.hpp
@@ -270,6 +270,7 @@ class LIBEXACTREAL_API Arb
   template <typename Integer, typename = std::enable_if_t<std::is_integral_v<Integer>>>
   Arb& operator=(Integer) noexcept;
   Arb& operator=(const mpz_class&) noexcept;
+  Arb& operator=(double) noexcept;
   ///@}
 
   /// Return the negative of this element.
diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 06b4d2b..49f989b 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -312,6 +312,11 @@ Arb& Arb::operator=(const mpz_class& rhs) noexcept {
   return *this;
 }
 
+Arb& Arb::operator=(const double rhs) noexcept {
+  arb_set_d(arb_t(), rhs);
+  return *this;
+}
+
 Arb::operator std::pair<Arf, Arf>() const noexcept {
   std::pair<Arf, Arf> ret;
   arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), arb_rel_accuracy_bits(arb_t()));
-- 
2.43.0


From f0fa15ce199f8036016bf868e14bec7e393c461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 04/20] fix: RationalField::floor rounded negative rationals
 towards zero

---
 libexactreal/src/rational_field.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/rational_field.cc b/libexactreal/src/rational_field.cc
index c081ef2..862b60c 100644
--- a/libexactreal/src/rational_field.cc
+++ b/libexactreal/src/rational_field.cc
@@ -47,7 +47,9 @@ std::optional<mpq_class> RationalField::rational(const ElementClass& x) {
 }
 
 mpz_class RationalField::floor(const ElementClass& x) {
-  return x.get_num() / x.get_den();
+  mpz_class floor;
+  mpz_fdiv_q(floor.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
+  return floor;
 }
 
 RationalField::ElementClass RationalField::coerce(const ElementClass& x) const {
-- 
2.43.0


From f0af2acb01e88553f5fcf6eeacfafdf1c4dcaefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 05/20] fix: the ball around a real number did not contain it,
 its radius was smaller than the error of its midpoint

---
 libexactreal/exact-real/real_number.hpp | 8 ++++----
 libexactreal/src/real_number.cc         | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/libexactreal/exact-real/real_number.hpp b/libexactreal/exact-real/real_number.hpp
index d6db9f6..f1dafe0 100644
--- a/libexactreal/exact-real/real_number.hpp
+++ b/libexactreal/exact-real/real_number.hpp
@@ -156,7 +156,7 @@ class LIBEXACTREAL_API RealNumber
   ///     #include <exact-real/arb.hpp>
   ///     const auto x = exactreal::RealNumber::rational(mpq_class{1, 3});
   ///     x->arb(3)
-  ///     // -> [0.312500 +/- 0.0157]
+  ///     // -> [0.335938 +/- 0.0157]
   ///
   /// Note that the printed output here for the radius can be misleading since
   /// printing via `std::cout` (which is used here) normally only requests a
@@ -167,7 +167,7 @@ class LIBEXACTREAL_API RealNumber
   ///     // -> [0.333333 +/- 3.34e-7]
   ///
   ///     std::cout << std::setprecision(32) << x->arb(64);
-  ///     // -> [0.33333333333333333334236835143738 +/- 6.78e-21]
+  ///     // -> [0.33333333333333333333220395607033 +/- 6.78e-21]
   ///
   Arb arb(long prec) const;
 
@@ -182,11 +182,11 @@ class LIBEXACTREAL_API RealNumber
   ///
   ///     x->refine(a, 2);
   ///     a
-  ///     // -> [0.375000 +/- 0.0313]
+  ///     // -> [0.328125 +/- 0.0313]
   ///
   ///     x->refine(a, 16);
   ///     a
-  ///     // -> [0.333336 +/- 2.04e-6]
+  ///     // -> [0.333333 +/- 1.93e-6]
   ///
   void refine(Arb& arb, long prec) const;
 
diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index af8348b..a4d2db5 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -68,7 +68,9 @@ void RealNumber::refine(Arb& arb, const long prec) const {
     return;
   }
 
-  Arf midpoint = arf(prec);
+  // The relative error of this midpoint is at most 2^-(prec + 3), i.e., less
+  // than half the radius that we are going to add below.
+  Arf midpoint = arf(prec + 3);
   arb_set_arf(arb.arb_t(), midpoint.arf_t());
   arb_add_error_2exp_si(arb.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
 
-- 
2.43.0


From 4a7d5c958d4619537e37f716ad7e62cb80311c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 06/20] fix: floordiv by a zero element returned 0 or failed
 deep inside the conversion of a nan ball

---
 libexactreal/src/element.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 78131c2..bd9f67b 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -466,6 +466,8 @@ std::optional<Element<Ring>> Element<Ring>::truediv(const Element<Ring>& rhs) co
 
 template <typename Ring>
 mpz_class Element<Ring>::floordiv(const Element<Ring>& rhs) const {
+  LIBEXACTREAL_CHECK_ARGUMENT(rhs != 0, "division by zero");
+
   if (!*this)
     return 0;
 
-- 
2.43.0


From 2e48d34644eddd2e69ff601ef0fc6c33b9f9cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 07/20] fix: the quotient of the real numbers 0 and 0 was 1

---
 libexactreal/src/real_number.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index a4d2db5..2ec4510 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -27,6 +27,7 @@
 #include "../exact-real/seed.hpp"
 #include "../exact-real/yap/arf.hpp"
 #include "impl/real_number_base.hpp"
+#include "util/assert.ipp"
 
 using std::max;
 using std::ostream;
@@ -85,6 +86,8 @@ Arb RealNumber::arb(long prec) const {
 }
 
 std::optional<std::shared_ptr<const RealNumber>> RealNumber::operator/(const RealNumber& rhs) const {
+  LIBEXACTREAL_CHECK_ARGUMENT(rhs, "division by zero");
+
   if (*this == rhs)
     return RealNumber::rational(1);
 
-- 
2.43.0


From 8e070c22bf98e66b4284304a48934c94b0fd389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 08/20] fix: Module::one computed with a rational with negative
 denominator for a negative generator and with 1/0 for a zero generator

---
 libexactreal/src/module.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libexactreal/src/module.cc b/libexactreal/src/module.cc
index ab98874..173b03d 100644
--- a/libexactreal/src/module.cc
+++ b/libexactreal/src/module.cc
@@ -200,13 +200,14 @@ template <typename Ring>
 Element<Ring> Module<Ring>::one() const {
   for (int g = 0; g < rank(); g++) {
     auto rational = static_cast<std::optional<mpq_class>>(*basis()[g]);
-    if (rational) {
+    if (rational && *rational != 0) {
+      const mpq_class inverse = 1 / *rational;
       if constexpr (std::is_same_v<Ring, IntegerRing>) {
-        if (rational->get_num() == 1) {
-          return rational->get_den() * gen(g);
+        if (inverse.get_den() == 1) {
+          return inverse.get_num() * gen(g);
         }
       } else {
-          return mpq_class(rational->get_den(), rational->get_num()) * gen(g);
+        return inverse * gen(g);
       }
     }
   }
-- 
2.43.0


From 0114c381ce7dedf234173be163d560015a05d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 09/20] fix: promoting an element to a module that lacks one of
 its generators silently dropped the coefficient

---
 libexactreal/src/element.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index bd9f67b..d119517 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -875,7 +875,7 @@ Element<Ring>& Element<Ring>::promote(const shared_ptr<const Module<Ring>>& pare
       continue;
     }
     if (their_gen == end(their_gens)) {
-      LIBEXACTREAL_ASSERT(!impl->coefficients[our_gen - begin(our_gens)], "Cannot promote " << *this << " to " << *parent << " since " << *our_gen << " is not in " << *parent);
+      LIBEXACTREAL_CHECK_ARGUMENT(!impl->coefficients[our_gen - begin(our_gens)], "Cannot promote " << *this << " to " << *parent << " since " << **our_gen << " is not in " << *parent);
       our_gen++;
       continue;
     }
@@ -886,6 +886,7 @@ Element<Ring>& Element<Ring>::promote(const shared_ptr<const Module<Ring>>& pare
       continue;
     }
     if ((**our_gen).deglex(**their_gen)) {
+      LIBEXACTREAL_CHECK_ARGUMENT(!impl->coefficients[our_gen - begin(our_gens)], "Cannot promote " << *this << " to " << *parent << " since " << **our_gen << " is not in " << *parent);
       our_gen++;
       continue;
     } else {
-- 
2.43.0


From 29aa53c2bcf9cf82a75a9c31b8dada62d2249b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 10/20] fix: LIBEXACTREAL_ASSERT_ARGUMENT expanded to a macro
 that does not exist

---
 libexactreal/src/util/assert.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/util/assert.ipp b/libexactreal/src/util/assert.ipp
index 77bf3b4..fa0d10b 100644
--- a/libexactreal/src/util/assert.ipp
+++ b/libexactreal/src/util/assert.ipp
@@ -100,8 +100,8 @@ bool noassert() {
 
 #endif
 
-#define LIBEXACTREAL_ASSERT_ARGUMENT_(CONDITION) CHECK_ARGUMENT_(LIBEXACTREAL_ASSERT_CONDITION(CONDITION))
-#define LIBEXACTREAL_ASSERT_ARGUMENT(CONDITION, MESSAGE) CHECK_ARGUMENT(LIBEXACTREAL_ASSERT_CONDITION(CONDITION), MESSAGE)
+#define LIBEXACTREAL_ASSERT_ARGUMENT_(CONDITION) LIBEXACTREAL_CHECK_ARGUMENT_(LIBEXACTREAL_ASSERT_CONDITION(CONDITION))
+#define LIBEXACTREAL_ASSERT_ARGUMENT(CONDITION, MESSAGE) LIBEXACTREAL_CHECK_ARGUMENT(LIBEXACTREAL_ASSERT_CONDITION(CONDITION), MESSAGE)
 #define LIBEXACTREAL_ASSERT(CONDITION, MESSAGE) LIBEXACTREAL_ASSERT_(LIBEXACTREAL_ASSERT_CONDITION(CONDITION), std::logic_error, MESSAGE)
 
 #define LIBEXACTREAL_UNREACHABLE(MESSAGE)                  \
-- 
2.43.0


From 5fbf16f030e814d7357241311721851a44601ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 11/20] fix: default constructed seeds raced and could coincide
 when created by several threads

---
 libexactreal/src/seed.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/seed.cc b/libexactreal/src/seed.cc
index a7c192e..82dd7c5 100644
--- a/libexactreal/src/seed.cc
+++ b/libexactreal/src/seed.cc
@@ -18,10 +18,12 @@
  *  along with exact-real. If not, see <https://www.gnu.org/licenses/>.
  *********************************************************************/
 
+#include <atomic>
+
 #include "../exact-real/seed.hpp"
 
 namespace exactreal {
-static unsigned int nextSeed = 1337;
+static std::atomic<unsigned int> nextSeed{1337};
 
 Seed::Seed() : Seed(nextSeed++) {}
 
-- 
2.43.0


From df42dd87c182f43c39a31273d3f418e3c17013c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 12/20] fix: approximations of products were not accurate to
 the requested precision

The working precision left no room for the final rounding, so that the total
error could exceed 2^-prec, e.g., for the product of RealNumber::random() with
seeds 7378, 13403, 3429, 7378, 8082 at precision 8.
---
 libexactreal/src/real_number_product.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number_product.cc b/libexactreal/src/real_number_product.cc
index 2d4953a..fe1f24b 100644
--- a/libexactreal/src/real_number_product.cc
+++ b/libexactreal/src/real_number_product.cc
@@ -527,9 +527,12 @@ Arf RealNumberProduct::arf_(long prec) const {
   // These errors essentially sum (plus the product of the errors.)
   // Additionally, each multiplication introduces a rounding error of 1
   // ulp.
+  // Since rounding the result to prec + 1 bits introduces an error of up to
+  // 2^-(prec + 1), these errors must not use up more than the other half of the
+  // allowed 2^-prec.
   long nfactors = totalDegree();
 
-  long workingPrec = prec + static_cast<long>(ceil(log2(static_cast<double>(nfactors * 2 + (nfactors - 1)) + 1)));
+  long workingPrec = prec + 1 + static_cast<long>(ceil(log2(static_cast<double>(nfactors * 2 + (nfactors - 1)) + 1)));
 
   Arf ret(1);
   for (size_t i = 0; i < monomials.size(); i++)
-- 
2.43.0


From f256454323c21e730092b9b0fb243f30a1954f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 13/20] fix: comparing a real number with an unsigned integer
 did not compile

---
 libexactreal/exact-real/real_number.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libexactreal/exact-real/real_number.hpp b/libexactreal/exact-real/real_number.hpp
index f1dafe0..cc25bd7 100644
--- a/libexactreal/exact-real/real_number.hpp
+++ b/libexactreal/exact-real/real_number.hpp
@@ -311,17 +311,17 @@ class LIBEXACTREAL_API RealNumber
 #ifndef DOXYGEN_DOCUMENTATION_BUILD
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator<(Integer rhs) const noexcept {
-  return this->operator<(Arf(rhs));
+  return this->operator<(mpz_class(rhs));
 }
 
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator>(Integer rhs) const noexcept {
-  return this->operator>(Arf(rhs));
+  return this->operator>(mpz_class(rhs));
 }
 
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator==(Integer rhs) const noexcept {
-  return this->operator==(Arf(rhs));
+  return this->operator==(mpz_class(rhs));
 }
 #endif
 
-- 
2.43.0


From e17ba21548bc930e1c1046e742e070083cac588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 14/20] fix: conversion of a real number to double rounded
 twice

---
 libexactreal/src/real_number.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 2ec4510..bf79941 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -39,7 +39,21 @@ const long ARF_DOUBLE_PRECISION = 54;
 RealNumber::~RealNumber() {}
 
 RealNumber::operator double() const {
-  return static_cast<double>(arf(ARF_DOUBLE_PRECISION));
+  // If this number is half way between two doubles, it has few enough digits
+  // to be its own approximation.
+  const Arf approximation = arf(ARF_DOUBLE_PRECISION);
+  if (*this == approximation)
+    return static_cast<double>(approximation);
+
+  // Otherwise, it is eventually contained in a ball all of whose points have
+  // the same closest double.
+  for (long prec = ARF_DOUBLE_PRECISION;; prec *= 2) {
+    const auto bounds = static_cast<std::pair<Arf, Arf>>(arb(prec));
+    const auto lower = static_cast<double>(bounds.first);
+    const auto upper = static_cast<double>(bounds.second);
+    if (lower == upper)
+      return lower;
+  }
 }
 
 RealNumber::operator bool() const {
-- 
2.43.0


From 69a4cff94e16e81c1ae2225fae7d220da3030905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 15/20] fix: exact-real.hpp does not include a header that does
 not exist

---
 libexactreal/exact-real/exact-real.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libexactreal/exact-real/exact-real.hpp b/libexactreal/exact-real/exact-real.hpp
index 23b2e83..62577e3 100644
--- a/libexactreal/exact-real/exact-real.hpp
+++ b/libexactreal/exact-real/exact-real.hpp
@@ -32,7 +32,6 @@
 #include "integer_ring.hpp"
 #include "module.hpp"
 #include "number_field.hpp"
-#include "number_field_ideal.hpp"
 #include "rational_field.hpp"
 #include "real_number.hpp"
 #include "seed.hpp"
-- 
2.43.0


From 24f66746df22f9c0ebf51552eda80c74ebb2a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 16/20] fix: elements keep their value when a process that
 sorts the generators differently loads them

---
 libexactreal/exact-real/cereal.hpp | 45 ++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index 39ece2f..aaf6861 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -21,6 +21,7 @@
 #ifndef LIBEXACTREAL_CEREAL_HPP
 #define LIBEXACTREAL_CEREAL_HPP
 
+#include <algorithm>
 #include <cereal/archives/json.hpp>
 #include <cereal/cereal.hpp>
 #include <cereal/types/memory.hpp>
@@ -71,6 +72,16 @@ struct CerealWrap {
 template <typename T>
 using MaybeWrap = std::conditional_t<CerealWrap<T>::needs_wrap(), CerealWrap<T>, T>;
 
+// A module that has been read from an archive together with its generators in
+// the order in which they are listed there. Since generators are sorted by an
+// order that depends on when the real numbers have been created, this might
+// not be their order in the module anymore.
+template <typename Ring>
+struct ArchivedModule {
+  std::shared_ptr<const Module<Ring>> module;
+  typename Module<Ring>::Basis basis;
+};
+
 template <typename Archive>
 struct Cerealizer : public ICerealizer {
   Cerealizer(Archive& archive): archive(archive) {}
@@ -196,17 +207,21 @@ void save(Archive& archive, const Element<Ring>& self) {
 
 template <typename Archive, typename Ring>
 void load(Archive& archive, Element<Ring>& self) {
-  std::shared_ptr<const Module<Ring>> module;
-  archive(cereal::make_nvp("parent", module));
+  ArchivedModule<Ring> parent;
+  archive(cereal::make_nvp("parent", parent));
 
   std::vector<MaybeWrap<typename Ring::ElementClass>> coefficients;
   archive(cereal::make_nvp("coefficients", coefficients));
 
+  if (coefficients.size() != parent.basis.size()) {
+    throw std::logic_error("malformed archive, number of coefficients must match number of generators");
+  }
+
   std::vector<typename Ring::ElementClass> coeffs;
-  for (auto& c : coefficients)
-    coeffs.push_back(c);
+  for (const auto& gen : parent.module->basis())
+    coeffs.push_back(coefficients[std::find(parent.basis.begin(), parent.basis.end(), gen) - parent.basis.begin()]);
 
-  self = Element<Ring>(module, coeffs);
+  self = Element<Ring>(parent.module, coeffs);
 }
 
 template <typename Archive>
@@ -296,7 +311,7 @@ void save(Archive& archive, const std::shared_ptr<const exactreal::Module<Ring>>
 }
 
 template <typename Archive, typename Ring>
-void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self) {
+void load(Archive& archive, exactreal::ArchivedModule<Ring>& self) {
   // cereal insists on creating a new instance of T when deserializing a
   // shared_ptr<T>. However this is not compatible with our uniqueness of
   // modules (if the module already exists, we do not create a new one but just
@@ -307,16 +322,24 @@ void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self
   archive(cereal::make_nvp("shared", id));
 
   if (id & cereal::detail::msb_32bit) {
-    typename exactreal::Module<Ring>::Basis basis;
-    archive(cereal::make_nvp("basis", basis));
+    archive(cereal::make_nvp("basis", self.basis));
     Ring ring;
     archive(cereal::make_nvp("ring", ring));
-    self = exactreal::Module<Ring>::make(basis, ring);
-    archive.registerSharedPointer(id, std::static_pointer_cast<void>(std::const_pointer_cast<exactreal::Module<Ring>>(self)));
+    self.module = exactreal::Module<Ring>::make(self.basis, ring);
+    archive.registerSharedPointer(id, std::make_shared<exactreal::ArchivedModule<Ring>>(self));
+  } else if (const auto known = std::static_pointer_cast<exactreal::ArchivedModule<Ring>>(archive.getSharedPointer(id))) {
+    self = *known;
   } else {
-    self = std::static_pointer_cast<exactreal::Module<Ring>>(archive.getSharedPointer(id));
+    self = {};
   }
 }
+
+template <typename Archive, typename Ring>
+void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self) {
+  exactreal::ArchivedModule<Ring> archived;
+  load(archive, archived);
+  self = archived.module;
+}
 }  // namespace cereal
 
 #endif
-- 
2.43.0


From 0ee4aded09b4da100a3cfadf995ce5fc31393439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:53 +0000
Subject: [PATCH 17/20] fix: report a wrong number of coefficients of an
 Element in release builds too

---
 libexactreal/src/element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index d119517..85807c8 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -61,7 +61,7 @@ class ElementImplementation {
 
   ElementImplementation(const shared_ptr<const Module<Ring>>& parent, const vector<typename Ring::ElementClass>& coefficients)
       : parent(parent), coefficients(coefficients) {
-    LIBEXACTREAL_ASSERT(static_cast<size>(coefficients.size()) == parent->rank(), "Number of Coefficients " << coefficients.size() << " does not match rank of module " << parent->rank());
+    LIBEXACTREAL_CHECK_ARGUMENT(static_cast<size>(coefficients.size()) == parent->rank(), "Number of Coefficients " << coefficients.size() << " does not match rank of module " << parent->rank());
   }
 
   template <typename T>
-- 
2.43.0


From afe49ffabb7afda8ec49d4d6c81a88e322aca085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:04 +0000
Subject: [PATCH 18/20] fix: random numbers close to the largest doubles

---
 libexactreal/src/constrained_random_real_number.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index a05de35..1c7ba5e 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -214,6 +214,13 @@ shared_ptr<const RealNumber> RealNumber::random(const double x, Seed seed) {
   Arf midpoint = Arf(x);
   Arf upper = Arf(nextafter(x, numeric_limits<double>::infinity()));
 
+  // … (beyond the largest doubles, where there is no such double, we use the
+  // distance to the double on the other side instead) …
+  if (!isfinite(static_cast<double>(upper)))
+    upper = (2 * midpoint - lower)(64, Arf::Round::NEAR);
+  if (!isfinite(static_cast<double>(lower)))
+    lower = (2 * midpoint - upper)(64, Arf::Round::NEAR);
+
   // … and shrink it so it only contains midpoint.
   // We use 64 bits of precision, more than a double can possibly have:
   lower = ((lower + 2 * midpoint) / 3)(64, Arf::Round::NEAR);
-- 
2.43.0


From 2bbcbc2867b47befc12b92553685c069193b6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:48 +0000
Subject: [PATCH 19/20] fix: random numbers in intervals that are unbounded or
 whose endpoints do not fit

---
 libexactreal/src/constrained_random_real_number.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index 1c7ba5e..0112d6d 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -147,6 +147,9 @@ shared_ptr<const RealNumber> RealNumber::random(const Arf& lower, const Arf& upp
     if (lower >= upper) {
       throw std::logic_error("interval must have an interior");
     }
+    if (!arf_is_finite(lower.arf_t()) || !arf_is_finite(upper.arf_t())) {
+      throw std::logic_error("not implemented - random number in an unbounded interval");
+    }
 
     // We first rewrite a and b as mantissa + 2^exponent with the same exponent
     // and then select a random mantissa. Our random number is then going to be
@@ -159,18 +162,22 @@ shared_ptr<const RealNumber> RealNumber::random(const Arf& lower, const Arf& upp
     auto upper_mantissa = upper.mantissa();
     auto upper_exponent = upper.exponent();
 
+    if (!lower_exponent.fits_slong_p() || !upper_exponent.fits_slong_p()) {
+      throw std::logic_error("not implemented - random number in an interval with an endpoint that is huge or tiny");
+    }
+
     // If a and b are very different in size, these shifts could lead to Out Of
     // Memory situations.
 
     if (lower_exponent < upper_exponent) {
       mpz_class delta = upper_exponent - lower_exponent;
-      mpz_mul_2exp(upper_mantissa.get_mpz_t(), upper_mantissa.get_mpz_t(), delta.get_si());
+      mpz_mul_2exp(upper_mantissa.get_mpz_t(), upper_mantissa.get_mpz_t(), delta.get_ui());
       upper_exponent = lower_exponent;
     }
 
     if (upper_exponent < lower_exponent) {
       mpz_class delta = lower_exponent - upper_exponent;
-      mpz_mul_2exp(lower_mantissa.get_mpz_t(), lower_mantissa.get_mpz_t(), delta.get_si());
+      mpz_mul_2exp(lower_mantissa.get_mpz_t(), lower_mantissa.get_mpz_t(), delta.get_ui());
       lower_exponent = upper_exponent;
     }
 
-- 
2.43.0


From ae074c8045c4a0fab27e1e276b107f1aa7a9cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:07 +0000
Subject: [PATCH 20/20] fix: release the strings of FLINT also when writing
 them throws

---
 libexactreal/exact-real/cereal.hpp | 11 +++++------
 libexactreal/src/arb.cc            |  7 +++----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index aaf6861..22d8ecd 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -28,6 +28,7 @@
 #include <cereal/types/vector.hpp>
 #include <cereal/types/map.hpp>
 #include <e-antic/cereal.hpp>
+#include <memory>
 
 #include "arb.hpp"
 #include "arf.hpp"
@@ -157,11 +158,10 @@ struct Decerealizer : public IDecerealizer {
 
 template <typename Archive>
 void save(Archive& archive, const Arb& self) {
-  char* serialized = arb_dump_str(self.arb_t());
+  const std::unique_ptr<char, decltype(&flint_free)> serialized(arb_dump_str(self.arb_t()), &flint_free);
   archive(
-      cereal::make_nvp("data", std::string(serialized)),
+      cereal::make_nvp("data", std::string(serialized.get())),
       cereal::make_nvp("approximation", static_cast<double>(self)));
-  flint_free(serialized);
 }
 
 template <typename Archive>
@@ -177,11 +177,10 @@ void load(Archive& archive, Arb& self) {
 
 template <typename Archive>
 void save(Archive& archive, const Arf& self) {
-  char* serialized = arf_dump_str(self.arf_t());
+  const std::unique_ptr<char, decltype(&flint_free)> serialized(arf_dump_str(self.arf_t()), &flint_free);
   archive(
-      cereal::make_nvp("data", std::string(serialized)),
+      cereal::make_nvp("data", std::string(serialized.get())),
       cereal::make_nvp("approximation", static_cast<double>(self)));
-  flint_free(serialized);
 }
 
 template <typename Archive>
diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 49f989b..944c834 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -33,6 +33,7 @@
 #include <algorithm>
 #include <boost/lexical_cast.hpp>
 #include <boost/numeric/conversion/cast.hpp>
+#include <memory>
 #include <ostream>
 
 #include "../exact-real/arf.hpp"
@@ -342,10 +343,8 @@ ostream& operator<<(ostream& os, const Arb& self) {
   // Note that the radius is also printed with respect to os.precision() which
   // means that the radius might be shortened, e.g., [0.5 +/- 1.08e-78] might
   // print as [0.5 +/- 1e-10].
-  char* s = arb_get_str(self.arb_t(), os.precision(), ARB_STR_MORE);
-  os << s;
-  flint_free(s);
-  return os;
+  const std::unique_ptr<char, decltype(&flint_free)> s(arb_get_str(self.arb_t(), os.precision(), ARB_STR_MORE), &flint_free);
+  return os << s.get();
 }
 
 template Arb::Arb(short);
-- 
2.43.0

