From 6b43d011bb9758a32cf5a655e11247210dae31ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 01/42] fix: BigInt += and -= with itself as the operand read
 past the value

---
 include/walnut/big_int.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index b269f9d..aab6a3f 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -275,14 +275,17 @@ class BigInt {
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
     size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be the same object as `this`, and the resize below would
+    // change its size.
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Add(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Add(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Add(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Add(other_extension, carry, &carry);
@@ -347,14 +350,17 @@ class BigInt {
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
     size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be the same object as `this`, and the resize below would
+    // change its size.
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Subtract(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Subtract(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Subtract(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Subtract(other_extension, carry, &carry);
-- 
2.43.0


From 98ff487051c0e73a4f728307bfd68066cbcb0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 02/42] fix: BigInt::abs of the most negative single word value
 overflowed

---
 include/walnut/big_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index aab6a3f..0d23a53 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -735,7 +735,7 @@ class BigInt {
   }
 
   BigInt abs() const {
-    if (used_words() == 1) {
+    if (IsHalfWord()) {
       return BigInt(BigIntWord{words_[0].SignedAbs()});
     }
     if (BigIntWord{words_[used_words() - 1]} >= 0) {
-- 
2.43.0


From bb907c5d3e9ac7791225445852197cb7092f7334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 03/42] fix: dividing the most negative single word BigInt by
 -1 trapped

---
 include/walnut/big_int.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 0d23a53..873611a 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -659,7 +659,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the quotient.
   BigInt operator/(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideSingleWord(other)) {
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
     }
     BigInt unused;
@@ -683,7 +683,7 @@ class BigInt {
   //
   // The quotient is rounded towards 0.
   BigInt DivideRemainder(const BigInt& other, BigInt* remainder_out) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideSingleWord(other)) {
       *remainder_out = BigInt(BigIntWord{words_[0]} %
                                   BigIntWord{other.words_[0]});
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
@@ -693,7 +693,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the remainder.
   BigInt operator%(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideSingleWord(other)) {
       return BigInt(BigIntWord{words_[0]} %
                         BigIntWord{other.words_[0]});
     }
@@ -847,6 +847,15 @@ class BigInt {
     return static_cast<BigIntHalfWord>(BigIntWord{last}) == BigIntWord{last};
   }
 
+  // Returns true if `this` can be divided by `other` using the division of
+  // BigIntWord. The most negative BigIntWord divided by -1 does not fit in a
+  // BigIntWord, and traps on some processors.
+  constexpr bool CanDivideSingleWord(const BigInt& other) const {
+    return used_words() == 1 && other.used_words() == 1 &&
+           !(BigIntWord{words_[0]} == std::numeric_limits<BigIntWord>::min() &&
+             BigIntWord{other.words_[0]} == -1);
+  }
+
   constexpr void Trim() {
     size_t i = used_words() - 1;
     if (i > 0) {
-- 
2.43.0


From ad9326ab48d9943258946115d4ce92330a53f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 04/42] fix: BigInt ++ and -- wrote past the value or left it
 untrimmed

---
 include/walnut/big_int.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 873611a..298441c 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -320,13 +320,13 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       ++words_[i];
       if (words_[i] != 0) {
+        Trim();
         return *this;
       }
     }
     ++words_[i];
     if ((BigIntWord)words_[i] == std::numeric_limits<BigIntWord>::min()) {
-      ++i;
-      ++words_[i] = 0;
+      words_.push_back(BigUIntWord{0});
     } else {
       Trim();
     }
@@ -396,14 +396,13 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       --words_[i];
       if ((BigIntWord)words_[i] != -1) {
+        Trim();
         return *this;
       }
     }
     --words_[i];
     if ((BigIntWord)words_[i] == std::numeric_limits<BigIntWord>::max()) {
-      words_.resize(used_words() + 1);
-      ++i;
-      ++words_[i] = (BigIntWord)-1;
+      words_.push_back(BigUIntWord{-1});
     } else {
       Trim();
     }
-- 
2.43.0


From 0c91fb390f0e04468316bb0b55ff262e880fc704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 05/42] fix: BigUInt << left the low words uninitialized

---
 include/walnut/big_uint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index b38162b..ec9626a 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -73,7 +73,7 @@ class BigUInt {
     if (word_left_shift > 0) {
       size_t copy = used_words();
       size_t allocate = copy + out + 1;
-      result.words_.resize(allocate);
+      result.words_.resize(allocate, BigUIntWord{0});
       BigUIntWord prev(0);
       const int prev_right_shift = bits_per_word - word_left_shift;
       for (; in < copy; in++, out++) {
@@ -85,7 +85,7 @@ class BigUInt {
       out++;
     } else {
       size_t copy = used_words();
-      result.words_.resize(copy + out);
+      result.words_.resize(copy + out, BigUIntWord{0});
       for (; in < copy; in++, out++) {
         result.words_[out] = words_[in];
       }
-- 
2.43.0


From e5814ab77a2f4b43894f40b34096c52862bfb157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 06/42] fix: BigUInt::AddLeftShifted carried into an
 uninitialized word

---
 include/walnut/big_uint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index ec9626a..0bb5b88 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -179,7 +179,7 @@ class BigUInt {
       pos++;
     }
     for (; carry; pos++) {
-      words_.resize(std::max(used_words(), (pos + 1)));
+      words_.resize(std::max(used_words(), (pos + 1)), BigUIntWord{0});
       words_[pos] = words_[pos].Add(carry, &carry);
     }
     assert(used_words() == std::max(old_used, pos));
-- 
2.43.0


From dfe6c60ec93004ac0284c55477d2ea890a78f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 07/42] fix: a moved from BigIntWords kept the size of storage
 it no longer had

---
 include/walnut/big_int_words.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/walnut/big_int_words.h b/include/walnut/big_int_words.h
index 1b55f52..d161431 100644
--- a/include/walnut/big_int_words.h
+++ b/include/walnut/big_int_words.h
@@ -30,6 +30,7 @@ class BigIntWords {
       first_(other.first_),
       extra_size_(other.extra_size_) {
     extra_ = other.extra_;
+    other.extra_size_ = 0;
     other.extra_ = nullptr;
   }
 
@@ -180,7 +181,9 @@ class BigIntWords {
 
   constexpr BigIntWords& operator=(BigIntWords&& other) {
     first_ = other.first_;
-    extra_size_ = other.extra_size_;
+    const size_t extra_size = other.extra_size_;
+    other.extra_size_ = 0;
+    extra_size_ = extra_size;
     BigUIntWord* const extra = extra_;
     extra_ = other.extra_;
     other.extra_ = extra;
-- 
2.43.0


From fe8e3f13e1692ae289f9d35f5949713e2c30d4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 08/42] fix: large negative BigInts converted to NaN instead of
 a double

---
 src/walnut/big_int.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/walnut/big_int.cpp b/src/walnut/big_int.cpp
index b7d4281..5096c4e 100644
--- a/src/walnut/big_int.cpp
+++ b/src/walnut/big_int.cpp
@@ -53,10 +53,11 @@ BigInt::operator double() const {
       return std::numeric_limits<double>::infinity() *
              BigIntWord{words_[used - 1]};
     }
-    return std::ldexp(BigIntWord{words_[used - 1]},
-                      static_cast<int>(first_shift)) +
-           words_[used - 2].ToDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 2)));
+    // Combine the words before applying the shift, because the upper word alone
+    // could overflow to negative infinity.
+    return std::ldexp(std::ldexp(BigIntWord{words_[used - 1]}, bits_per_word) +
+                        words_[used - 2].ToDoubleWithShift(0),
+                      static_cast<int>(bits_per_word * (used - 2)));
   }
 }
 
@@ -76,12 +77,11 @@ BigInt::operator long double() const {
       return std::numeric_limits<long double>::infinity() *
              BigIntWord{words_[used - 1]};
     }
-    return std::ldexp((long double)BigIntWord{words_[used - 1]},
-                      static_cast<int>(bits_per_word * (used - 1))) +
-           words_[used - 2].ToLongDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 2))) +
-           words_[used - 3].ToLongDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 3)));
+    return std::ldexp(std::ldexp((long double)BigIntWord{words_[used - 1]},
+                                 2 * bits_per_word) +
+                        words_[used - 2].ToLongDoubleWithShift(bits_per_word) +
+                        words_[used - 3].ToLongDoubleWithShift(0),
+                      static_cast<int>(bits_per_word * (used - 3)));
   }
 }
 
-- 
2.43.0


From b615e67d557dcc5e14a0d4d9817604e660afb732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:09 +0000
Subject: [PATCH 09/42] fix: BigUInt division read past the remainder once it
 had shrunk

---
 include/walnut/big_uint.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index 0bb5b88..73d14da 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -265,6 +265,8 @@ class BigUInt {
   BigUIntWord GetAtBitOffset(size_t shift) const {
     size_t word_index = shift / bits_per_word;
     unsigned word_offset = shift % bits_per_word;
+    if (word_index >= words_.size()) return BigUIntWord{0};
+
     BigUIntWord next{0};
     if (word_index + 1 < words_.size()) {
       next = words_[word_index+1];
-- 
2.43.0


From 32164fefc3201d6ae56a0924523bcfbd9ab78035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:09 +0000
Subject: [PATCH 10/42] fix: BigUInt::SubtractLeftShifted of 0 accessed words
 past the end

---
 include/walnut/big_uint.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index 73d14da..f7fbf03 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -189,6 +189,9 @@ class BigUInt {
 
   // Subtracts (other << shift) from this.
   constexpr BigUInt& SubtractLeftShifted(const BigUInt& other, size_t shift) {
+    // Subtracting 0 does nothing, even if it is shifted past the end of this.
+    if (other.used_words() == 1 && other.words_[0] == 0) return *this;
+
     size_t in = 0;
     size_t out = shift / bits_per_word;
     const int word_left_shift = shift % bits_per_word;
-- 
2.43.0


From 34c3b1396f604c138494a0c2f51d903e663c76f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 11/42] fix: HalfSpace2SidelessCompare used the wrong sign for
 horizontal lines

For two lines whose normals are along the y axis, the comparison of d/y was
flipped using the sign of h2.x, which is always 0 there. So two different lines
were considered equivalent, or were ordered inconsistently, when exactly one of
their normals was negative.
---
 include/walnut/half_space2_sideless_compare.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/half_space2_sideless_compare.h b/include/walnut/half_space2_sideless_compare.h
index b3f35b9..55a602f 100644
--- a/include/walnut/half_space2_sideless_compare.h
+++ b/include/walnut/half_space2_sideless_compare.h
@@ -26,7 +26,7 @@ struct HalfSpace2SidelessCompare {
           /*flip=*/h1.x().HasDifferentSign(h2.x()), h2.d() * h1.x());
     } else {
       return (h1.d() * h2.y()).LessThan(
-          /*flip=*/h1.y().HasDifferentSign(h2.x()), h2.d() * h1.y());
+          /*flip=*/h1.y().HasDifferentSign(h2.y()), h2.d() * h1.y());
     }
   }
 };
-- 
2.43.0


From f8288f184ee57852b899275119c97dcec14fae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 12/42] fix: HalfSpace3Compare was not an ordering when a
 normal's components cancel

The planes were scaled by |x + y + z| of the other's normal. That is 0 for a
valid normal such as <1, -1, 0>, which made different planes equivalent. Scale
by |x| + |y| + |z|, which is only 0 for the zero vector.
---
 include/walnut/half_space3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/half_space3.h b/include/walnut/half_space3.h
index 23e75fa..3f9abf2 100644
--- a/include/walnut/half_space3.h
+++ b/include/walnut/half_space3.h
@@ -278,8 +278,8 @@ std::ostream& operator<<(std::ostream& out, const HalfSpace3& p);
 // This is useful for putting `HalfSpace3`s in a std::map or std::set.
 struct HalfSpace3Compare {
   bool operator()(const HalfSpace3& a, const HalfSpace3& b) const {
-    BigInt scale_a = (b.x() + b.y() + b.z()).abs();
-    BigInt scale_b = (a.x() + a.y() + a.z()).abs();
+    BigInt scale_a = b.x().abs() + b.y().abs() + b.z().abs();
+    BigInt scale_b = a.x().abs() + a.y().abs() + a.z().abs();
 
     return std::make_tuple(a.x().Multiply(scale_a),
                            a.y().Multiply(scale_a),
-- 
2.43.0


From ce0df02cfbc2011e02ce4da60db6460d61bb20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 13/42] fix: HomoPoint2::LexicographicallyLt ignored the signs
 of the denominators

When exactly one of the denominators was negative, the result was backwards.
---
 include/walnut/homo_point2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/walnut/homo_point2.h b/include/walnut/homo_point2.h
index 0928a7b..5ca8c02 100644
--- a/include/walnut/homo_point2.h
+++ b/include/walnut/homo_point2.h
@@ -69,8 +69,9 @@ class HomoPoint2 {
     vector_from_origin_(v), dist_denom_(w) { }
 
   static bool LexicographicallyLt(const HomoPoint2& a, const HomoPoint2& b) {
-    auto a_scaled = a.vector_from_origin() * b.dist_denom();
-    auto b_scaled = b.vector_from_origin() * a.dist_denom();
+    const int sign_flip = b.dist_denom().GetAbsMult(a.dist_denom());
+    auto a_scaled = a.vector_from_origin() * (b.dist_denom() * sign_flip);
+    auto b_scaled = b.vector_from_origin() * (a.dist_denom() * sign_flip);
     return std::lexicographical_compare(a_scaled.coords().begin(),
                                         a_scaled.coords().end(),
                                         b_scaled.coords().begin(),
-- 
2.43.0


From 126e8237fbe504cf454cdf551704255bf0ad4aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 14/42] fix: HomoPoint3::Get2DTwistDir with exactly one
 negative denominator

The sign word was flipped with a bitwise xor. That turned 0 (collinear) into -1,
and -1 into 0.
---
 src/walnut/homo_point3.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/walnut/homo_point3.cpp b/src/walnut/homo_point3.cpp
index 165ef3a..628561e 100644
--- a/src/walnut/homo_point3.cpp
+++ b/src/walnut/homo_point3.cpp
@@ -99,9 +99,12 @@ BigIntWord HomoPoint3::Get2DTwistDir(int drop_dimension, const HomoPoint3& p1,
     vector_from_origin().DropDimension(drop_dimension) * p3.dist_denom();
   Vector2 p3_from_origin =
     p3.vector_from_origin().DropDimension(drop_dimension) * dist_denom();
-  return (p1_from_origin - p2_from_origin1).Cross(
-      p3_from_origin - p2_from_origin3).GetSign() ^
-    p1.dist_denom().SignExtension() ^ p3.dist_denom().SignExtension();
+  const BigInt cross = (p1_from_origin - p2_from_origin1).Cross(
+      p3_from_origin - p2_from_origin3);
+  if (cross.IsZero()) return BigIntWord{0};
+  const bool clockwise = (cross.GetSign() < 0) ^
+    p1.dist_denom().HasDifferentSign(p3.dist_denom());
+  return BigIntWord{clockwise ? -1 : 1};
 }
 
 void HomoPoint3::Reduce() {
-- 
2.43.0


From 79fbfc5e731cb22b95ec1ce417a1a50fd0a0f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 15/42] fix: AABB::GetDiagonalLength divided by the square root
 of the denominator

---
 include/walnut/aabb.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/aabb.h b/include/walnut/aabb.h
index 72b6535..e8d2577 100644
--- a/include/walnut/aabb.h
+++ b/include/walnut/aabb.h
@@ -166,7 +166,7 @@ class AABB {
   }
 
   double GetDiagonalLength() const {
-    return sqrt((double)GetSquaredDiagonalLengthNumerator() / (double)denom());
+    return sqrt((double)GetSquaredDiagonalLengthNumerator()) / (double)denom();
   }
 
  private:
-- 
2.43.0


From c6bbb63bee6a43c34ac094f99b8582a508beb5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 16/42] fix: ConvexPolygon::GetPosSideVertex could return an
 index past the last vertex

---
 include/walnut/convex_polygon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index b6dbe36..f19284c 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -987,7 +987,7 @@ std::pair<int, size_t> ConvexPolygon<EdgeParent>::GetPosSideVertex(
     size_t mid = (begin + end) / 2;
     if (half_space.Compare(vertex(
           mid % vertex_count()).DropDimension(drop_dimension)) > 0) {
-      return std::make_pair(1, mid);
+      return std::make_pair(1, mid % vertex_count());
     }
     if (edge(mid % vertex_count()).line().d().DropDimension(drop_dimension)
                                   .Dot(half_space.normal()).GetSign() > 0) {
-- 
2.43.0


From 236c00e4eb0436b5ef9562cb45a1b6524f930528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 17/42] fix: ConvexPolygon::operator== ignored the data of the
 first edge, and never matched empty polygons

---
 include/walnut/convex_polygon.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index f19284c..e63b854 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -842,6 +842,9 @@ bool ConvexPolygon<EdgeParent>::operator==(
   if (vertex_count() != other.vertex_count()) {
     return false;
   }
+  if (vertex_count() == 0) {
+    return true;
+  }
   size_t match_offset = 0;
   while (true) {
     if (match_offset == vertex_count()) {
@@ -853,7 +856,7 @@ bool ConvexPolygon<EdgeParent>::operator==(
     }
     ++match_offset;
   }
-  for (size_t i = 1, j = match_offset + 1; i < vertex_count(); ++i, ++j) {
+  for (size_t i = 0, j = match_offset; i < vertex_count(); ++i, ++j) {
     if (vertex(i).DropDimension(drop_dimension()) !=
         other.vertex(j % vertex_count()).DropDimension(drop_dimension())) {
       return false;
-- 
2.43.0


From 2c5035979bfa292c2d87b0ac241083442d4186cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:32 +0000
Subject: [PATCH 18/42] fix: AABBConvexPolygon kept stale extreme vertex
 indices after SplitEdge and Invert

---
 include/walnut/aabb_convex_polygon.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/walnut/aabb_convex_polygon.h b/include/walnut/aabb_convex_polygon.h
index 0e1f71d..5041ae9 100644
--- a/include/walnut/aabb_convex_polygon.h
+++ b/include/walnut/aabb_convex_polygon.h
@@ -159,6 +159,20 @@ class AABBConvexPolygon : public ParentTemplate, public AABBConvexPolygonKey {
     aabb_tracker_.RotateIndices(offset, vertex_count());
   }
 
+  // Overrides the non-virtual function from ConvexPolygon.
+  void SplitEdge(size_t split_index, HomoPoint3 mid_point) {
+    Parent::SplitEdge(split_index, std::move(mid_point));
+    aabb_tracker_ = ConvexVertexAABBTracker(Parent::vertices_begin(),
+                                            Parent::vertices_end());
+  }
+
+  // Overrides the non-virtual function from ConvexPolygon.
+  void Invert() {
+    Parent::Invert();
+    aabb_tracker_ = ConvexVertexAABBTracker(Parent::vertices_begin(),
+                                            Parent::vertices_end());
+  }
+
   // Overrides the non-virtual function from ConvexPolygon.
   ConvexPolygonSplitInfo GetSplitInfo(const HalfSpace3& half_space) const {
     switch (aabb().GetPlaneSide(half_space)) {
-- 
2.43.0


From 40bdff80daf52f13a24fc7da2a2bfdcbcbf7b731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 19/42] fix: content added to a split BSP tree corrupted memory
 for new ids, and lost PWN below the first level

---
 include/walnut/bsp_node.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/walnut/bsp_node.h b/include/walnut/bsp_node.h
index bf0ab25..34823cf 100644
--- a/include/walnut/bsp_node.h
+++ b/include/walnut/bsp_node.h
@@ -277,6 +277,23 @@ class BSPNode {
     }
   }
 
+  // Makes room in `content_info_by_id_` for ids less than `size`.
+  void GrowContentInfo(size_t size) {
+    if (content_info_by_id_.size() < size) {
+      content_info_by_id_.resize(size);
+    }
+  }
+
+  // Adds `change` to the PWN of this node and all of its descendants.
+  void AdjustPWN(BSPContentId id, int change) {
+    GrowContentInfo(id + 1);
+    content_info_by_id_[id].pwn += change;
+    if (!IsLeaf()) {
+      negative_child_->AdjustPWN(id, change);
+      positive_child_->AdjustPWN(id, change);
+    }
+  }
+
   // Update the children's PWN based on this node's contents.
   //
   // This may only be called on an interior node.
@@ -517,9 +534,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          push_info.first;
+        push_to_child->AdjustPWN(polygon.id, push_info.first);
       }
 
       const EdgeRep& next_edge =
@@ -529,9 +544,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          -push_info.first;
+        push_to_child->AdjustPWN(polygon.id, -push_info.first);
       }
     }
   }
@@ -600,6 +613,10 @@ void BSPNode<OutputPolygonParent>::PushContentsToChildren() {
   if (IsLeaf()) {
     return;
   }
+  // The children could have been created before some of the content ids were
+  // first used.
+  negative_child_->GrowContentInfo(content_info_by_id_.size());
+  positive_child_->GrowContentInfo(content_info_by_id_.size());
   PushContentPWNToChildren();
 
   for (PolygonRep& polygon : contents_) {
-- 
2.43.0


From e223008b49f540f2a8f45bb9d87cb283af45a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 20/42] fix: SubtractIdsFilter tested id 0 instead of the first
 id, and subtracting an absent id removed everything

---
 include/walnut/boolean_operation_filter.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 13eda01..02a39de 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -118,8 +118,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       return std::make_pair(false, false);
     } 
 
-    std::pair<bool, bool> total(content_info_by_id[0].pwn > 0,
-                                content_info_by_id[0].has_polygons());
+    std::pair<bool, bool> total(content_info_by_id[ids_[0]].pwn > 0,
+                                content_info_by_id[ids_[0]].has_polygons());
 
     for (size_t i = 1; i < ids_.size(); ++i) {
       BSPContentId id = ids_[i];
@@ -127,7 +127,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       std::pair<bool, bool> id_result;
 
       if (id >= content_info_by_id.size()) {
-        id_result = std::make_pair(false, false);
+        // There are no polygons for `id`, so its pwn is 0 everywhere.
+        id_result = std::make_pair(true, false);
       } else {
         id_result =  std::make_pair(content_info_by_id[id].pwn >= 0,
                                     content_info_by_id[id].has_polygons());
-- 
2.43.0


From f7251f03ef8bb3c7ae7bbd261ba582186542fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 21/42] fix: InvertedPolygonFilter excluded everything when its
 id is absent, instead of including it (pwn 0)

---
 include/walnut/bsp_visitor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/walnut/bsp_visitor.h b/include/walnut/bsp_visitor.h
index 52e0134..7beaa98 100644
--- a/include/walnut/bsp_visitor.h
+++ b/include/walnut/bsp_visitor.h
@@ -53,7 +53,8 @@ class InvertedPolygonFilter {
   std::pair<bool, bool> operator()(
       const std::vector<BSPContentInfo>& content_info_by_id) {
     if (accept_id_ >= content_info_by_id.size()) {
-      return std::make_pair(false, false);
+      // There are no polygons for the id, so its pwn is 0 everywhere.
+      return std::make_pair(true, false);
     } else {
       return std::make_pair(content_info_by_id[accept_id_].pwn >= 0,
                             content_info_by_id[accept_id_].has_polygons());
-- 
2.43.0


From d2b4b574b7bd1626c3da1708941dfc314211c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 22/42] fix: DiscountBorderPolygons counted polygons that only
 start on the split plane as border polygons

---
 include/walnut/polygon_event_point.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index beca202..f1c20f1 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -463,16 +463,6 @@ PolygonEventPointPartition GetLowestCost(
 inline void PolygonEventPointPartition::DiscountBorderPolygons(
     const PolygonEventPoint* event_points,
     size_t parent_poly_count) {
-  split_location_begin = split_index;
-  while (!event_points[split_location_begin].new_location) {
-    assert(split_location_begin > 0);
-    --split_location_begin;
-    if (event_points[split_location_begin].start) {
-      // This event points to a border polygon, not a neg polygon.
-      --neg_poly_count;
-      ++border_poly_count;
-    }
-  }
   split_location_end = split_index + 1;
   while (split_location_end < parent_poly_count*2 &&
          !event_points[split_location_end].new_location) {
@@ -481,6 +471,23 @@ inline void PolygonEventPointPartition::DiscountBorderPolygons(
     }
     ++split_location_end;
   }
+  split_location_begin = split_index;
+  while (!event_points[split_location_begin].new_location) {
+    assert(split_location_begin > 0);
+    --split_location_begin;
+    if (event_points[split_location_begin].start) {
+      // This event points to a polygon that starts on the split plane. So it
+      // is not a neg polygon.
+      --neg_poly_count;
+      // It is a border polygon if it also ends on the split plane. Otherwise
+      // it is a pos polygon. `ApplySecondary` may order the start of such a
+      // polygon before the end of a border polygon.
+      if (event_points[split_location_begin].index.partner <
+          split_location_end) {
+        ++border_poly_count;
+      }
+    }
+  }
   for (size_t i = split_index; i < split_location_end; ++i) {
     if (event_points[i].start &&
         event_points[i].index.partner < split_location_end) {
-- 
2.43.0


From 5585b94561f2cd4d249c34311f6f1c80aaec0ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:31 +0000
Subject: [PATCH 23/42] fix: ApplySecondary asserted when a skipped border
 polygon was the first event at its location

---
 include/walnut/polygon_event_point.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index f1c20f1..b6191cd 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -826,8 +826,13 @@ void PolygonEventPointPartition::ApplySecondary(
                                                        pos_polygons);
   size_t neg_used = 0;
   size_t pos_used = 0;
+  // True if the last main event is a skipped border polygon event, which could
+  // have been the first main event at its location.
+  bool skipped_border_event = false;
+  // Fix an unused variable warning in release builds.
+  (void)(skipped_border_event);
   while (event_points_pos < event_points_end) {
-    assert(event_points_pos->new_location);
+    assert(event_points_pos->new_location || skipped_border_event);
     // Skip main events for border polygons
     while (event_points_pos < event_points_end) {
       if (event_points_pos->start) {
@@ -838,6 +843,7 @@ void PolygonEventPointPartition::ApplySecondary(
           event_points[end_event_index].index.partner =
               static_cast<size_t>(-2);
           ++event_points_pos;
+          skipped_border_event = true;
         } else {
           break;
         }
@@ -845,6 +851,7 @@ void PolygonEventPointPartition::ApplySecondary(
         size_t child_start_event_index = event_points_pos->index.partner;
         if (child_start_event_index == static_cast<size_t>(-2)) {
           ++event_points_pos;
+          skipped_border_event = true;
         } else {
           break;
         }
-- 
2.43.0


From a1a1f4f8a62f0cd64cbfba7633c223da3c9d45b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:42 +0000
Subject: [PATCH 24/42] fix: merging an edge left stale extreme vertex indices
 in the AABBConvexPolygon of the partner edge

---
 include/walnut/aabb_convex_polygon.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/walnut/aabb_convex_polygon.h b/include/walnut/aabb_convex_polygon.h
index 5041ae9..85bc0ef 100644
--- a/include/walnut/aabb_convex_polygon.h
+++ b/include/walnut/aabb_convex_polygon.h
@@ -248,6 +248,17 @@ class AABBConvexPolygon : public ParentTemplate, public AABBConvexPolygonKey {
   }
 
  protected:
+  // Overrides the non-virtual function from ConvexPolygon.
+  bool TryMergeEdge(size_t index) {
+    if (!Parent::TryMergeEdge(index)) {
+      return false;
+    }
+
+    aabb_tracker_ = ConvexVertexAABBTracker(Parent::vertices_begin(),
+                                            Parent::vertices_end());
+    return true;
+  }
+
   // Overrides the non-virtual function from ConvexPolygon.
   template <typename ParentRef, typename SplitInfoRef>
   static void FillInSplitChildren(ParentRef&& parent, SplitInfoRef&& split,
-- 
2.43.0


From 33a9351378e0baf5b8dba38696066cafb7c83c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:49 +0000
Subject: [PATCH 25/42] fix: the edge connector split an edge twice at the same
 location when the half-edges came from an open polyhedron

---
 include/walnut/edge_line_connector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/walnut/edge_line_connector.h b/include/walnut/edge_line_connector.h
index c92025a..b291f73 100644
--- a/include/walnut/edge_line_connector.h
+++ b/include/walnut/edge_line_connector.h
@@ -519,6 +519,12 @@ class EdgeLineConnector {
     if (active_edge->second.current_endpoint) return;
 
     EdgeRep& old_edge = *active_edge->second.edge;
+    // An edge can be processed more than once for the same location. Do not
+    // split it again at what is already its lower endpoint.
+    if ((active_edge->first.pos_edge ? old_edge.vertex() :
+                                       old_edge.next_vertex()) == location) {
+      return;
+    }
     PolygonRep& polygon = old_edge.polygon();
     size_t edge_index = old_edge.edge_index();
     polygon.SplitEdge(edge_index, location);
-- 
2.43.0


From bb8529a713554d2abd243ac966c4539ed61b67e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 26/42] fix: planar ranges of loops that repeat their first
 vertex

PlanarRange used the last and first vertex for the first two points of the
plane, even if they were the same point. No plane contains the vertex after
them then, so the whole loop was declared collinear and dropped.
---
 include/walnut/planar_range.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/walnut/planar_range.h b/include/walnut/planar_range.h
index 4b440d5..8de7384 100644
--- a/include/walnut/planar_range.h
+++ b/include/walnut/planar_range.h
@@ -95,15 +95,22 @@ inline void PlanarRange<Point3Iterator>::Build(
   --remaining_end;
 
   const Point3Rep& p1 = *remaining_end;
+  size_ = 1;
+
+  // Find a vertex for p2 that is different from p1, because p1 and p2 must
+  // define a line.
+  while (remaining_begin != remaining_end && *remaining_begin == p1) {
+    ++size_;
+    ++remaining_begin;
+  }
   if (remaining_begin == remaining_end) {
     range_.Append(range_begin, range_end);
     plane_ = HalfSpace3::Zero();
-    size_ = 1;
     return;
   }
 
   const Point3Rep& p2 = *remaining_begin;
-  size_ = 2;
+  ++size_;
   ++remaining_begin;
 
   // Keep p1 and p2 pointing to where they are. Use the next soonest point for
-- 
2.43.0


From 76eed360d0be0d944210ef30be70ed43070eaf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 27/42] fix: look at all of chain2 before declaring chains
 collinear

When chain1 is completely consumed, chain2 can still contain several vertices
with the same monotone component as the maximum.
---
 include/walnut/orienting_monotone_decomposer.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/walnut/orienting_monotone_decomposer.h b/include/walnut/orienting_monotone_decomposer.h
index a718476..5b35e6a 100644
--- a/include/walnut/orienting_monotone_decomposer.h
+++ b/include/walnut/orienting_monotone_decomposer.h
@@ -221,17 +221,15 @@ bool OrientingMonotoneDecomposer<Point3RepTemplate>::DetectOrientation(
     // Entries are preferentially taken from chain1, and both chains contain
     // the max element. So as long as chain1 is not completely consumed,
     // chain2 still contains at least the max element.
-    if (chain1_pos == chain1_end) {
-      // Chain1 was completely consumed, which means only the maximum vertex
-      // remains in chain2. All of the vertices were collinear.
-#ifndef NDEBUG
-      ++chain2_pos;
-      assert(chain2_pos == chain2_end);
-#endif
+    //
+    // After chain1 is completely consumed, chain2 may still contain vertices
+    // with the same monotone component as the max element.
+    if (chain1_pos == chain1_end && chain2_pos == chain2_end) {
+      // All of the vertices were collinear.
       return false;
     }
     assert(chain2_pos != chain2_end);
-    const bool chain1_is_current =
+    const bool chain1_is_current = chain1_pos != chain1_end &&
       chain1_pos->CompareComponent(monotone_dimension, *chain2_pos) <= 0;
     const Point3Rep& current = chain1_is_current ? *chain1_pos : *chain2_pos;
     const BigIntWord twist =
-- 
2.43.0


From 2751b83d678ed055c535abd63c3b07958b179d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 28/42] fix: always make progress in MonotoneRange

If the second vertex is past the last and the second last is past the first,
only the first and last were accepted. They also remain in the input, so the
caller looped forever.
---
 include/walnut/monotone_range.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/walnut/monotone_range.h b/include/walnut/monotone_range.h
index 884996e..5a7f14b 100644
--- a/include/walnut/monotone_range.h
+++ b/include/walnut/monotone_range.h
@@ -250,6 +250,8 @@ inline void MonotoneRange<Point3Iterator>::Build(
   }
   Point3Iterator range_end = remaining_end;
   --remaining_end;
+  const Point3Iterator input_begin = remaining_begin;
+  const Point3Iterator input_last = remaining_end;
 
   // Step 1. determine chain_dir_.
   Point3Iterator range_begin = remaining_begin;
@@ -368,6 +370,22 @@ inline void MonotoneRange<Point3Iterator>::Build(
   chain2_.Append(remaining_end, range_end);
 
   if (remaining_begin != remaining_end) {
+    if (last_accepted == input_begin && remaining_end == input_last) {
+      // Only the first and last input vertices were accepted, because the
+      // vertex after them is past the min/max from step 2, and the vertex
+      // before them is past the max/min from step 3. Also accept the vertex
+      // after them (triangles are always monotone). Otherwise no progress
+      // would be made.
+      Point3Iterator next_end = remaining_begin;
+      ++next_end;
+      chain1_.Clear();
+      chain1_.Append(remaining_begin, next_end);
+      chain1_.Append(input_last, range_end);
+      chain1_.Append(input_begin, remaining_begin);
+      chain2_.Clear();
+      chain2_.Append(input_begin, next_end);
+      remaining_begin = next_end;
+    }
     --remaining_begin;
     ++remaining_end;
   }
-- 
2.43.0


From 25fa65913eed60df4e23d071aa010549f11d46b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 29/42] fix: never fold convex polygons back on themselves in
 MonotoneDecomposer

Triangles were merged if the twist at both corners was 0, even if an edge then
turned back over the previous one, the previous vertex was a duplicate, or
the polygon had not got an orientation yet.
---
 include/walnut/monotone_decomposer.h | 72 ++++++++++++++++++++++++----
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/include/walnut/monotone_decomposer.h b/include/walnut/monotone_decomposer.h
index 408250c..7afa76e 100644
--- a/include/walnut/monotone_decomposer.h
+++ b/include/walnut/monotone_decomposer.h
@@ -27,6 +27,7 @@
 //     worse in the sense that more overlapping polygons will be outputted than
 //     strictly necessary.
 
+#include <algorithm>
 #include <functional>
 #include <vector>
 
@@ -116,14 +117,9 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
         // For non-self-intersecting polygons, orientation_ will always be 0 or
         // -1. However for self-intersecting polygons, the triangulator can
         // produce flipped triangles, in which case orientation_ will be 1.
-        const Point3Rep& prev_top = convex_top_.size() > 1 ?
-          convex_top_.end()[-2] : convex_bottom_.front();
-        const Point3Rep& prev_bottom = convex_bottom_.size() > 1 ?
-          convex_bottom_.end()[-2] : convex_top_.front();
-        if (p1.Get2DTwistDir(drop_dimension_, prev_top, p3) *
-              orientation_ <= 0 &&
-            p2.Get2DTwistDir(drop_dimension_, prev_bottom, p3) *
-              orientation_ >= 0) {
+        if ((!set_orientation || orientation_ == 0 || IsStraight()) &&
+            StaysConvex(convex_top_, convex_bottom_, p3, -orientation_) &&
+            StaysConvex(convex_bottom_, convex_top_, p3, orientation_)) {
           if (p3_is_top_chain) {
             if (p1 != p3) {
               convex_top_.push_back(p3);
@@ -156,6 +152,66 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
   }
 
  private:
+  // Returns true if the corner at `chain.back()` stays convex, after the edge
+  // from `chain.back()` to `next` is added to the polygon being built.
+  //
+  // `other_chain` is the other chain of the polygon being built. The corner is
+  // accepted if it is straight, or if its twist direction (as returned by
+  // Get2DTwistDirReduced with the previous vertex and `next`) is `twist_dir`.
+  bool StaysConvex(const std::vector<Point3Rep>& chain,
+                   const std::vector<Point3Rep>& other_chain,
+                   const Point3Rep& next, int twist_dir) const {
+    const Point3Rep& corner = chain.back();
+    // Find the closest vertex in the polygon before `corner` that is different
+    // from `corner`.
+    const Point3Rep* prev = nullptr;
+    for (size_t i = chain.size() - 1; i > 0 && prev == nullptr; --i) {
+      if (chain[i - 1] != corner) prev = &chain[i - 1];
+    }
+    for (size_t i = 0; i < other_chain.size() && prev == nullptr; ++i) {
+      if (other_chain[i] != corner) prev = &other_chain[i];
+    }
+    if (prev == nullptr) return true;
+
+    const int twist = corner.Get2DTwistDirReduced(drop_dimension_, *prev,
+                                                  next);
+    if (twist != 0) return twist == twist_dir;
+
+    // The 3 vertices are collinear. Unless the whole polygon is collinear, it
+    // must not turn back on itself.
+    if (twist_dir == 0) return true;
+    for (int i = 0; i < 3; ++i) {
+      if (i == drop_dimension_) continue;
+      const int from_prev = corner.CompareComponent(i, *prev);
+      if (from_prev != 0) {
+        const int to_next = next.CompareComponent(i, corner);
+        return to_next == 0 || (from_prev < 0) == (to_next < 0);
+      }
+    }
+    return true;
+  }
+
+  // The polygon being built must be collinear. Returns true if it never turns
+  // back on itself in between `convex_top_.back()` and `convex_bottom_.back()`.
+  bool IsStraight() const {
+    for (int i = 0; i < 3; ++i) {
+      if (i == drop_dimension_) continue;
+      bool increases = false;
+      bool decreases = false;
+      const Point3Rep* prev = &convex_top_.back();
+      auto visit = [&](const Point3Rep& current) {
+        const int compare = current.CompareComponent(i, *prev);
+        increases |= compare > 0;
+        decreases |= compare < 0;
+        prev = &current;
+      };
+      std::for_each(convex_top_.rbegin(), convex_top_.rend(), visit);
+      std::for_each(convex_bottom_.begin(), convex_bottom_.end(), visit);
+      if (increases && decreases) return false;
+    }
+    return true;
+  }
+
   // The orientation of the polygon being built. -1 for counter-clockwise, 1
   // for clockwise, or 0 for collinear.
   int orientation_;
-- 
2.43.0


From 2b67cba58e60829e5f6deb5552743f9672c85dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:11 +0000
Subject: [PATCH 30/42] fix: orientation of chains which start in opposite
 directions

If the minimum vertex is between other vertices with the same monotone
component, both chains start collinear but in opposite directions, and the
first vertex which is not collinear says the opposite of what it does
otherwise.
---
 include/walnut/orienting_monotone_decomposer.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/walnut/orienting_monotone_decomposer.h b/include/walnut/orienting_monotone_decomposer.h
index 5b35e6a..5bfe6ed 100644
--- a/include/walnut/orienting_monotone_decomposer.h
+++ b/include/walnut/orienting_monotone_decomposer.h
@@ -214,6 +214,14 @@ bool OrientingMonotoneDecomposer<Point3RepTemplate>::DetectOrientation(
   // chain2_pos are collinear with. Either chain1_pos or chain2_pos could be
   // used here.
   const Point3Rep& collinear_vertex = *chain1_pos;
+  // The chains can only start in opposite directions if both initially stay at
+  // the minimum in the monotone dimension.
+  const int compare_dimension = 3 - drop_dimension - monotone_dimension;
+  const bool opposite =
+    chain1_pos->IsEquivalentComponent(monotone_dimension, minimum_vertex) &&
+    chain2_pos->IsEquivalentComponent(monotone_dimension, minimum_vertex) &&
+    (chain1_pos->CompareComponent(compare_dimension, minimum_vertex) < 0) !=
+    (chain2_pos->CompareComponent(compare_dimension, minimum_vertex) < 0);
   // Loop through vertices of both chains sorted by the monotone_dimension.
   // Keep looping until a non-collinear vertex is found, or all of the
   // vertices in both chains are consumed.
@@ -235,6 +243,12 @@ bool OrientingMonotoneDecomposer<Point3RepTemplate>::DetectOrientation(
     const BigIntWord twist =
       minimum_vertex.Get2DTwistDir(drop_dimension, collinear_vertex, current);
     if (twist != 0) {
+      if (opposite) {
+        // `current` is past the minimum in the monotone dimension, and the
+        // start of chain1 is directly above or below the minimum vertex.
+        flipped_ = twist < 0;
+        return true;
+      }
       // A non-collinear vertex has been found. The chain it was part of
       // (indicated by chain1_is_current) can be identified, and the other
       // chain will be the opposite.
-- 
2.43.0


From dced58e4164ec6ec5592017315d27fce76e38207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:21 +0000
Subject: [PATCH 31/42] fix: rebuild the nudged plane after adding a
 constrained vertex

HasLargePlane caches the plane built from the first three vertices. A
constrained vertex that was added afterwards was accepted but did not
affect the cached plane, so Build returned a plane that did not contain it.
---
 include/walnut/nudging_plane_builder.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/nudging_plane_builder.h b/include/walnut/nudging_plane_builder.h
index a5f7448..c7f73b4 100644
--- a/include/walnut/nudging_plane_builder.h
+++ b/include/walnut/nudging_plane_builder.h
@@ -81,6 +81,9 @@ inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
     if (constrained_count_ == 3) {
       plane_ = BuildFromPlaneInfo();
       plane_set_ = true;
+    } else {
+      // `HasLargePlane` may have built a plane without this vertex.
+      plane_set_ = false;
     }
     return true;
   } else {
-- 
2.43.0


From ff38d873393715ee096acdc13e128d2f4434dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:41 +0000
Subject: [PATCH 32/42] fix: keep the vertex order of repaired facet pieces

The vertices that a planar range accepted from the end of a facet were
emitted in reverse order, which produced a self-intersecting piece when
there were two or more of them.
---
 include/walnut/mesh_plane_repairer.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/walnut/mesh_plane_repairer.h b/include/walnut/mesh_plane_repairer.h
index 9a1ebd8..d9f395d 100644
--- a/include/walnut/mesh_plane_repairer.h
+++ b/include/walnut/mesh_plane_repairer.h
@@ -230,10 +230,9 @@ inline void MeshPlaneRepairer<PolygonData>::FinishFacet(PolygonData data) {
       polygon_vertices_.push_back(*it);
     }
 
-    // Copy the end portion of the accepted range in reverse order.
-    for (ActiveVertexIterator it = accepted_from_end_end;
-         it != remaining_end;) {
-      --it;
+    // Copy the end portion of the accepted range.
+    for (ActiveVertexIterator it = remaining_end;
+         it != accepted_from_end_end; ++it) {
       (*it)->TryAddAdjacent(&polygon.plane);
       polygon_vertices_.push_back(*it);
     }
-- 
2.43.0


From 637b707ec18b15a2889131eb5303a0aab9597ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:41 +0000
Subject: [PATCH 33/42] fix: merge all representations of a vertex in
 VertexDoublePoint3Mapper

The merger was given entries that may have already been redirected to
another primary value. Redirecting such an entry moved it alone and left
the rest of its group behind, so one vertex ended up with two values.
---
 include/walnut/vertex_double_point3_mapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/vertex_double_point3_mapper.h b/include/walnut/vertex_double_point3_mapper.h
index 1ab230d..2b69054 100644
--- a/include/walnut/vertex_double_point3_mapper.h
+++ b/include/walnut/vertex_double_point3_mapper.h
@@ -79,7 +79,7 @@ struct VertexDoublePoint3Mapper {
       if (next_it == map.end()) {
         map.emplace(next_point, result.second);
       } else if (next_it->second != result.second) {
-        merger(result.second, next_it->second);
+        merger(result.second.primary(), next_it->second.primary());
       }
     }
     return result;
-- 
2.43.0


From e2ddfea88d428aa1a59294234140fd4f912abfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 34/42] fix: allow a deed to be created from a null pointer

The constructor checked for null, but then dereferenced the pointer
anyway.
---
 include/walnut/deed.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index a324337..7f3ac19 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -55,11 +55,13 @@ class GenericDeed {
   GenericDeed() = default;
 
   GenericDeed(DeedTarget* object) : object_(object) {
-    if (object != nullptr && object->owner_ != nullptr) {
-      lender_ = object->owner_;
-      lender_->MarkLent();
+    if (object != nullptr) {
+      if (object->owner_ != nullptr) {
+        lender_ = object->owner_;
+        lender_->MarkLent();
+      }
+      object->owner_ = this;
     }
-    object->owner_ = this;
   }
 
   GenericDeed(const GenericDeed&) = delete;
-- 
2.43.0


From 98e4a57cdd6afb1c4570023b189d6edc5a1053e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 35/42] fix: adding an offset to a ConcatRange iterator

The offset within the final range was ignored, and an offset that reached
the end advanced past the terminator.
---
 include/walnut/concat_range.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/walnut/concat_range.h b/include/walnut/concat_range.h
index 3e025e1..1b10b3e 100644
--- a/include/walnut/concat_range.h
+++ b/include/walnut/concat_range.h
@@ -221,12 +221,13 @@ class ConcatRangeIteratorHelper {
 
   ConcatRangeIteratorHelper operator+(size_t index) const {
     ConcatRangeIteratorHelper copy(*this);
-    while (true) {
+    while (index != 0) {
       size_t range_size = copy.range_end() - copy.input_pos();
       if (index < range_size) break;
       copy.AdvanceRange();
       index -= range_size;
     }
+    copy.pos_ += index;
     return copy;
   }
 
-- 
2.43.0


From c84234896ab0510d76b32b447a3d09ef20a8daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:16 +0000
Subject: [PATCH 36/42] fix: keep the transformer in iterators derived from a
 TransformIterator

The postfix operators and adding an offset returned an iterator with a
default constructed transformer.
---
 include/walnut/transform_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/walnut/transform_iterator.h b/include/walnut/transform_iterator.h
index be94507..a6db800 100644
--- a/include/walnut/transform_iterator.h
+++ b/include/walnut/transform_iterator.h
@@ -71,7 +71,7 @@ class TransformIterator {
   }
 
   TransformIterator operator++(int) {
-    return TransformIterator(input_iterator_++);
+    return TransformIterator(input_iterator_++, transform_);
   }
 
   auto& operator--() {
@@ -80,15 +80,15 @@ class TransformIterator {
   }
 
   auto operator--(int) {
-    return TransformIterator(input_iterator_--);
+    return TransformIterator(input_iterator_--, transform_);
   }
 
   auto operator+(difference_type offset) const {
-    return TransformIterator(input_iterator_ + offset);
+    return TransformIterator(input_iterator_ + offset, transform_);
   }
 
   auto operator-(difference_type offset) const {
-    return TransformIterator(input_iterator_ - offset);
+    return TransformIterator(input_iterator_ - offset, transform_);
   }
 
   template <typename OtherInputIterator>
-- 
2.43.0


From da2a03db534b0d77a026e1c3df3e4b474fd8e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 37/42] fix: make a deed from GenericDeed::Lend the owner of
 the object

The object still considered the lender to be its owner, so moving the
object updated the lender instead of the borrowed deed.
---
 include/walnut/deed.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index 7f3ac19..2939653 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -152,6 +152,9 @@ class GenericDeed {
   GenericDeed(DeedTarget* object, GenericDeed* borrowed_from) :
       object_(object), lender_(borrowed_from) {
     lender_->MarkLent();
+    if (object_) {
+      object_->owner_ = this;
+    }
   }
 
   void MarkLent() {
-- 
2.43.0


From 7e1b6445e3ca99c36d36e50c47d521211fde02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 38/42] fix: order of ranges prepended to a ConcatRange

Prepending part of another ConcatRange only put the new ranges first when
there were as many new ranges as existing ranges.
---
 include/walnut/concat_range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/concat_range.h b/include/walnut/concat_range.h
index 1b10b3e..217ea9e 100644
--- a/include/walnut/concat_range.h
+++ b/include/walnut/concat_range.h
@@ -73,7 +73,7 @@ class ConcatRange {
     Append(start, end);
 
     std::rotate(/*first=*/ranges_.begin(),
-        /*n_first=*/ranges_.begin() + ranges_.size() - original_ranges_size,
+        /*n_first=*/ranges_.begin() + (original_ranges_size - 1),
         /*last=*/ranges_.end() - 1);
   }
 
-- 
2.43.0


From 759e074bd9c70c085b80eb946c17e24830f873bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:58 +0000
Subject: [PATCH 39/42] fix: let several source files include
 vtk_to_walnut_mesh.h

The function was defined in the header without being inline.
---
 vtk_interface/include/walnut/vtk_to_walnut_mesh.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
index 59c5819..407db3d 100644
--- a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
+++ b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
@@ -14,9 +14,9 @@ namespace walnut {
 //
 // The result is quantized to 2^min_exponent. Set `min_exponent` to INT_MIN to
 // avoid quantization.
-std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
-                                                    int min_exponent,
-                                                    bool flip) {
+inline std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
+                                                           int min_exponent,
+                                                           bool flip) {
   class Collector : public ConvexPolygonFactory<HomoPoint3> {
    public:
     using ConvexPolygonFactory<HomoPoint3>::ConvexPolygonRep;
-- 
2.43.0


From d5b6d54e7e00b57328d34dba87d2eb5487307682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:55 +0000
Subject: [PATCH 40/42] fix: conversion of VTK triangle strips

The first triangle of the strip was repeated instead of advancing along
the strip, its orientation did not alternate, and degenerate triangles
produced invalid polygons.
---
 vtk_interface/include/walnut/vtk_to_walnut_mesh.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
index 407db3d..7757219 100644
--- a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
+++ b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
@@ -86,11 +86,11 @@ inline std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
   while (input->GetStrips()->GetNextCell(vertex_count, input_vertices)) {
     for (vtkIdType i = 0; i < vertex_count - 2; ++i) {
       HomoPoint3 vertices[3];
-      if ((i & 0) ^ flip) {
+      if ((i & 1) ^ flip) {
         // The vertices are in clockwise order. Reverse them first.
         double coordinates[3];
         for (int j = 0; j < 3; ++j) {
-          input->GetPoint(input_vertices[2 - j], coordinates);
+          input->GetPoint(input_vertices[i + 2 - j], coordinates);
           vertices[j] = HomoPoint3::FromDoubles(min_exponent, coordinates[0],
                                                 coordinates[1],
                                                 coordinates[2]);
@@ -98,13 +98,15 @@ inline std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
       } else {
         double coordinates[3];
         for (int j = 0; j < 3; ++j) {
-          input->GetPoint(input_vertices[j], coordinates);
+          input->GetPoint(input_vertices[i + j], coordinates);
           vertices[j] = HomoPoint3::FromDoubles(min_exponent, coordinates[0],
                                                 coordinates[1],
                                                 coordinates[2]);
         }
       }
       HalfSpace3 plane(vertices[0], vertices[1], vertices[2]);
+      // Strips can contain degenerate triangles. These do not have an area.
+      if (!plane.IsValid()) continue;
       int drop_dimension = plane.normal().GetFirstNonzeroDimension();
       polygon_factory.result.emplace_back(std::move(plane), drop_dimension,
                                           std::move(vertices));
-- 
2.43.0


From 9f33e5c94cba5041da25d5ea2e973b5d5b7b07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:29 +0000
Subject: [PATCH 41/42] fix: merging connected facets when only one of the
 edges has a partner

---
 include/walnut/connected_polygon.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/walnut/connected_polygon.h b/include/walnut/connected_polygon.h
index 977176a..e3ba2d4 100644
--- a/include/walnut/connected_polygon.h
+++ b/include/walnut/connected_polygon.h
@@ -153,15 +153,22 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
       const FinalEdgeRep& partner =
         next.partner()->polygon().edge(next.partner()->edge_index());
 
-      // Temporarily unlink the partner to prevent an infinite loop. Even
-      // though the partner points to `this`, save the value because `this` is
-      // a const pointer and `old_value` is non-const.
+      // Temporarily unlink the partners to prevent an infinite loop. Even
+      // though the first partner points to `this`, save the value because
+      // `this` is a const pointer and `old_value` is non-const.
       ConnectedEdge* old_value = partner_->partner_;
+      ConnectedEdge* old_next_value = next.partner_->partner_;
       assert(old_value == this);
+      assert(old_next_value == &next);
       partner_->partner_ = nullptr;
+      next.partner_->partner_ = nullptr;
       bool merge_result = partner.CanMerge(/*next=*/next_partner);
       partner_->partner_ = old_value;
+      next.partner_->partner_ = old_next_value;
       if (!merge_result) return false;
+    } else if (partner() != nullptr || next.partner() != nullptr) {
+      // Only one of the edges has a partner, which ends where the edges meet.
+      return false;
     }
     return Parent::CanMerge(next);
   }
@@ -197,14 +204,21 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
   void Merge(ConnectedEdge& next) {
     assert(CanMerge(next));
     if (next.partner() != nullptr) {
-      // This signals the partner not to try and merge this polygon's edges
-      // again (preventing an infinite loop).
+      FinalPolygon& partner_polygon = next.partner()->polygon();
+      size_t partner_index = next.partner()->edge_index();
+      // Unlinking all of the edges signals the partner not to try and merge
+      // this polygon's edges again (preventing an infinite loop).
       partner_->partner_ = nullptr;
-      partner_ = next.partner_;
-      partner_->partner_ = this;
+      partner_ = nullptr;
+      next.partner_->partner_ = nullptr;
       next.partner_ = nullptr;
 
-      partner()->polygon().MergeConnectedEdge(partner()->edge_index());
+      partner_polygon.MergeConnectedEdge(partner_index);
+      // If the partner edges wrapped around the end, then the edge that was
+      // removed was the first one.
+      if (partner_index == partner_polygon.vertex_count()) --partner_index;
+      partner_ = &partner_polygon.edge(partner_index);
+      partner_->partner_ = this;
     }
     Parent::Merge(next);
   }
-- 
2.43.0


From d0e5d90379f025d656214c84eee0dc50153f6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:33 +0000
Subject: [PATCH 42/42] fix: repair facets that have collinear vertices

A facet whose first vertices are collinear, such as a planar one with a vertex
in the middle of an edge, ended in a division by zero.
---
 include/walnut/nudging_plane_builder.h | 36 +++++++++++++++--
 src/walnut/mesh_plane_repairer.cpp     |  3 ++
 src/walnut/nudging_plane_builder.cpp   | 55 ++++++++++++++++----------
 3 files changed, 69 insertions(+), 25 deletions(-)

diff --git a/include/walnut/nudging_plane_builder.h b/include/walnut/nudging_plane_builder.h
index c7f73b4..bd4129f 100644
--- a/include/walnut/nudging_plane_builder.h
+++ b/include/walnut/nudging_plane_builder.h
@@ -24,7 +24,8 @@ class NudgingPlaneBuilder {
   // Use the accepted vertices to build a plane.
   //
   // This may only be called after 3 or more calls to `AddUnconstrained` and
-  // `TryAddConstrained`.
+  // `TryAddConstrained`. The zero plane is returned if all of the vertices are
+  // collinear.
   HalfSpace3 Build() const& {
     if (plane_set_) {
       return plane_;
@@ -36,7 +37,8 @@ class NudgingPlaneBuilder {
   // Use the accepted vertices to build a plane.
   //
   // This may only be called after 3 or more calls to `AddUnconstrained` and
-  // `TryAddConstrained`.
+  // `TryAddConstrained`. The zero plane is returned if all of the vertices are
+  // collinear.
   HalfSpace3 Build() && {
     if (plane_set_) {
       return std::move(plane_);
@@ -48,13 +50,27 @@ class NudgingPlaneBuilder {
   bool HasLargePlane();
 
  private:
-  // This may only be called if `plane_info_used_` >= 3.
+  // Returns the zero plane if all of the accepted vertices are collinear.
   HalfSpace3 BuildFromPlaneInfo() const;
 
+  // Selects up to 3 entries of `plane_info_` that are not equal to each other
+  // or collinear. Constrained vertices are preferred over unconstrained
+  // vertices, and then earlier entries are preferred over later ones.
+  //
+  // The selected indices are put into `selected`, and the number of them is
+  // returned.
+  size_t SelectIndependent(std::array<size_t, 3>& selected) const;
+
+  // Returns true if `vertex` is not equal to or collinear with the first
+  // `selected_count` (less than 3) vertices that `selected` refers to.
+  bool IsIndependent(const std::array<size_t, 3>& selected,
+                     size_t selected_count, const HomoPoint3& vertex) const;
+
   struct VertexInfo {
     bool constrained;
     const HomoPoint3* vertex;
   };
+  // Vertices that do not further constrain the plane are left out.
   std::array<VertexInfo, 6> plane_info_;
   size_t plane_info_used_ = 0;
   size_t constrained_count_ = 0;
@@ -64,15 +80,27 @@ class NudgingPlaneBuilder {
 };
 
 inline void NudgingPlaneBuilder::AddUnconstrained(const HomoPoint3* vertex) {
-  if (plane_info_used_ < 3) {
+  std::array<size_t, 3> selected;
+  size_t selected_count = SelectIndependent(selected);
+  if (selected_count < 3 &&
+      IsIndependent(selected, selected_count, *vertex)) {
     plane_info_[plane_info_used_].constrained = false;
     plane_info_[plane_info_used_].vertex = vertex;
     ++plane_info_used_;
+    plane_set_ = false;
   }
 }
 
 inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
   if (constrained_count_ < 3) {
+    // The constrained vertices are always selected first.
+    std::array<size_t, 3> selected;
+    SelectIndependent(selected);
+    if (!IsIndependent(selected, constrained_count_, *vertex)) {
+      // Every plane through the other constrained vertices also goes through
+      // this one.
+      return true;
+    }
     plane_info_[plane_info_used_].constrained = true;
     plane_info_[plane_info_used_].vertex = vertex;
     ++plane_info_used_;
diff --git a/src/walnut/mesh_plane_repairer.cpp b/src/walnut/mesh_plane_repairer.cpp
index a428307..d37adb5 100644
--- a/src/walnut/mesh_plane_repairer.cpp
+++ b/src/walnut/mesh_plane_repairer.cpp
@@ -7,6 +7,9 @@ namespace walnut {
 
 void MeshPlaneRepairerBase::VertexInfo::TryAddAdjacent(
     const HalfSpace3* polygon) {
+  // The plane of a facet with only collinear vertices is not valid. It does not
+  // constrain the vertex.
+  if (!polygon->IsValid()) return;
   if (plane_count < 3) {
     // Don't allow duplicate planes
     for (size_t i = 0; i < plane_count; ++i) {
diff --git a/src/walnut/nudging_plane_builder.cpp b/src/walnut/nudging_plane_builder.cpp
index 30ab83e..c3275ea 100644
--- a/src/walnut/nudging_plane_builder.cpp
+++ b/src/walnut/nudging_plane_builder.cpp
@@ -1,32 +1,45 @@
 #include "walnut/nudging_plane_builder.h"
 
+#include <algorithm>
+
 namespace walnut {
 
 HalfSpace3 NudgingPlaneBuilder::BuildFromPlaneInfo() const {
-  std::array<const HomoPoint3*, 3> filtered_vertices;
-  // The number of remaining unconstrained vertices to accept.
-  size_t accept_unconstrained = 3 - constrained_count_;
+  std::array<size_t, 3> selected;
+  if (SelectIndependent(selected) < 3) return HalfSpace3::Zero();
 
-  for (size_t i = 0, accepted = 0; accepted < 3; ++i) {
-    const VertexInfo& info = plane_info_[i];
-    bool accept;
-    if (info.constrained) {
-      accept = true;
-    } else if (accept_unconstrained > 0) {
-      accept = true;
-      --accept_unconstrained;
-    } else {
-      accept = false;
-    }
-    if (accept) {
-      filtered_vertices[accepted] = info.vertex;
-      ++accepted;
-    }
-  }
-  HalfSpace3 result(*filtered_vertices[0], *filtered_vertices[1],
-                    *filtered_vertices[2]);
+  // Use the vertices in the order in which they were added.
+  std::sort(selected.begin(), selected.end());
+  HalfSpace3 result(*plane_info_[selected[0]].vertex,
+                    *plane_info_[selected[1]].vertex,
+                    *plane_info_[selected[2]].vertex);
   result.Reduce();
   return result;
 }
 
+size_t NudgingPlaneBuilder::SelectIndependent(
+    std::array<size_t, 3>& selected) const {
+  size_t selected_count = 0;
+  for (bool constrained : {true, false}) {
+    for (size_t i = 0; i < plane_info_used_ && selected_count < 3; ++i) {
+      if (plane_info_[i].constrained == constrained &&
+          IsIndependent(selected, selected_count, *plane_info_[i].vertex)) {
+        selected[selected_count] = i;
+        ++selected_count;
+      }
+    }
+  }
+  return selected_count;
+}
+
+bool NudgingPlaneBuilder::IsIndependent(
+    const std::array<size_t, 3>& selected, size_t selected_count,
+    const HomoPoint3& vertex) const {
+  if (selected_count == 0) return true;
+  const HomoPoint3& first = *plane_info_[selected[0]].vertex;
+  if (selected_count == 1) return first != vertex;
+  const HomoPoint3& second = *plane_info_[selected[1]].vertex;
+  return HalfSpace3(first, second, vertex).IsValid();
+}
+
 }  // walnut
-- 
2.43.0

