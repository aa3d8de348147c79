From a6856e5357b9575eadc8dcb6c81deff60b916eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 01/49] fix: fold big_num words in 64 bits, not int

std::reduce with an int seed truncated every partial result to 32 bits, so
any_set/is_one/fit_in_64/== ignored bits 32..63 of each word and all_set,
seeded with 0, was never true.
---
 include/logic/big_num.hh | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f9bc667..b07af72 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -466,7 +466,7 @@ public:
                 return true;
             } else {
                 // the rest has to be zero
-                return std::reduce(values.begin() + op_s, values.end(), 0,
+                return std::reduce(values.begin() + op_s, values.end(), big_num_holder_type{0},
                                    [](auto a, auto b) { return a | b; }) == 0;
             }
         } else {
@@ -474,7 +474,7 @@ public:
                 if (values[i] != op.values[i]) return false;
             }
             // the rest has to be zero
-            return std::reduce(op.values.begin() + s, op.values.end(), 0,
+            return std::reduce(op.values.begin() + s, op.values.end(), big_num_holder_type{0},
                                [](auto a, auto b) { return a | b; }) == 0;
         }
         return true;
@@ -771,7 +771,8 @@ public:
         // we use the fact that SIMD instructions are faster than compare and branch
         // so summation is faster than any_of in theory
         // also all unused bit are set to 0 by default
-        auto r = std::reduce(values.begin(), values.end(), 0, [](auto a, auto b) { return a | b; });
+        auto r = std::reduce(values.begin(), values.end(), big_num_holder_type{0},
+                             [](auto a, auto b) { return a | b; });
         return r != 0;
     }
 
@@ -787,7 +788,8 @@ public:
     [[maybe_unused]] void unmask() { std::fill(values.begin(), values.end(), 0); }
 
     [[nodiscard]] bool all_set() const {
-        auto v = std::reduce(values.begin(), values.begin() + s - 1, 0,
+        auto v = std::reduce(values.begin(), values.begin() + s - 1,
+                             std::numeric_limits<big_num_holder_type>::max(),
                              [](auto a, auto b) { return a & b; });
         auto constexpr max =
             std::numeric_limits<big_num_holder_type>::max() >> (s * big_num_threshold - size);
@@ -806,13 +808,14 @@ public:
         if constexpr (s == 1) {
             return values[0] == 1u;
         } else {
-            return values[0] == 1u && (std::reduce(values.begin() + 1, values.end(), 0,
-                                                   [](auto a, auto b) { return a | b; }) == 0u);
+            return values[0] == 1u &&
+                   (std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
+                                [](auto a, auto b) { return a | b; }) == 0u);
         }
     }
 
     [[nodiscard]] bool fit_in_64() const {
-        return std::reduce(values.begin() + 1, values.end(), 0,
+        return std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
                            [](auto a, auto b) { return a | b; }) == 0;
     }
 
-- 
2.43.0


From 70ed8ac0b877489e3ca73a314dcdaea6bc862539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 02/49] fix: sign-extend only negative big_num values

---
 include/logic/big_num.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index b07af72..1001a9e 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -114,8 +114,10 @@ public:
             for (auto i = 0ul; i < s; i++) result.values[i] = values[i];
             // based on the sign, need to fill out leading ones
             if constexpr (signed_) {
-                for (uint64_t i = size; i < op_size; i++) {
-                    result.set(i, true);
+                if (negative()) {
+                    for (uint64_t i = size; i < op_size; i++) {
+                        result.set(i, true);
+                    }
                 }
             }
             return result;
-- 
2.43.0


From 5f18eeceaff3e1371b471ae8fe43d497bb9176ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 03/49] fix: keep big_num complement and sum within the
 declared size

operator~ cleared the excess bits with set(), which ignores indexes outside
the number, and operator+ (hence -, * and negate) kept the carry.
---
 include/logic/big_num.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 1001a9e..00bb7d3 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -172,9 +172,7 @@ public:
             result.values[i] = ~values[i];
         }
         // mask off the top bit, if any
-        for (auto i = size; i < s * big_num_threshold; i++) {
-            result.set(i, false);
-        }
+        result.mask_off();
         return result;
     }
 
@@ -583,6 +581,7 @@ public:
             result.values[i] = (v << 64) >> 64;
             carry = v >> 64;
         }
+        result.mask_off();
         return result;
     }
 
-- 
2.43.0


From f96fd49011aca332e21231ec96c82154dc4171cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 04/49] fix: bound big_num multiplication by its word count

The partial products were bounded by the number of bits, writing past the
values array, and the 64x64 shortcut kept bits beyond the declared size.
---
 include/logic/big_num.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 00bb7d3..14c3720 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -633,6 +633,7 @@ public:
             __uint128_t c = a * b;
             result.values[0] = (c << 64) >> 64;
             result.values[1] = c >> 64;
+            result.mask_off();
             return result;
         }
         // we're not using Karatsuba's algorithm since it can get infinitely recursion or underflow
@@ -651,12 +652,12 @@ public:
                 uint64_t hi = c >> 64u;
                 uint64_t lo = (c << 64u) >> 64;
 
-                if ((i + j) < size) {
+                if ((i + j) < s) {
                     temp.values[i + j] = lo;
                     result = result + temp;
                     temp.values[i + j] = 0;
                 }
-                if ((i + j + 1) < size) {
+                if ((i + j + 1) < s) {
                     temp.values[i + j + 1] = hi;
                     result = result + temp;
                     temp.values[i + j + 1] = 0;
-- 
2.43.0


From 3d0fee07b29cbaafd3da7cb803b8273e4524e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 05/49] fix: compare signed big_num values of any sizes

Signed == did not compile and would have run past the words; > inverted the
order of two negative numbers, recursed forever on the most negative one and
compared numbers of different sizes without sign extension.
---
 include/logic/big_num.hh | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 14c3720..315f89c 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -439,8 +439,8 @@ public:
      */
     template <uint64_t op_size, bool op_signed>
     bool operator==(const big_num<op_size, op_signed> &op) const {
-        if constexpr (signed_ && op_signed) {
-            // doing signed comparison
+        if constexpr (signed_ || op_signed) {
+            // sign-extend to the same size before comparing
             if constexpr (op_size > size) {
                 // extend itself
                 auto t = this->template extend<op_size>();
@@ -450,8 +450,8 @@ public:
                 }
                 return true;
             } else {
-                auto op_t = op->template extend<size>();
-                for (auto i = 0u; i < size; i++) {
+                auto op_t = op.template extend<size>();
+                for (auto i = 0u; i < s; i++) {
                     if (values[i] != op_t.values[i]) return false;
                 }
                 return true;
@@ -489,6 +489,11 @@ public:
 
     template <uint64_t op_size, bool op_signed>
     bool operator>(const big_num<op_size, op_signed> &op) const {
+        if constexpr (size != op_size && (signed_ || op_signed)) {
+            // bring both to the same size first, so that the words line up
+            auto constexpr target_size = util::max(size, op_size);
+            return this->template extend<target_size>() > op.template extend<target_size>();
+        }
         if constexpr (signed_ && op_signed) {
             if (negative() && !op.negative()) {
                 return false;
@@ -497,11 +502,7 @@ public:
             }
             // if it's both positive or both negative, we fall back to the normal comparison
             // per LRM, signed comparison is only used when both operands are signed
-            // notice that if both of them are negative, we need to revert the result
-            // since the smaller number appears to be bigger due to 2's complement
-            else if (negative() && negative()) {
-                return negate() < op.negate();
-            }
+            // notice that 2's complement keeps the order among negative numbers
         }
         // from top to bottom comparison
         auto top = util::max(s, big_num<op_size, op_signed>::s);
-- 
2.43.0


From c193aa25da5cc6b730d570a8193c9af5c15ff05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 06/49] fix: make signed big_num division work

It did not compile, and gave the remainder the wrong sign.
---
 include/logic/big_num.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 315f89c..1d35743 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -839,14 +839,17 @@ public:
             // this implies that both of them are signed numbers
             auto op_pos = op.negative() ? op.negate() : op;
             auto this_pos = negative() ? negate() : *this;
-            std::tie(q, r) = this_pos.div_mode_(op);
+            std::tie(q, r) = big_num<size, false>(this_pos).div_mod_unsigned(op_pos);
             // if both of them are negative or positive, the sign will cancel out
             if (op.negative() ^ negative()) {
                 q = q.negate();
+            }
+            // per LRM the remainder takes the sign of the first operand
+            if (negative()) {
                 r = r.negate();
             }
         } else {
-            std::tie(q, r) = div_mod_unsigned(op);
+            std::tie(q, r) = big_num<size, false>(*this).div_mod_unsigned(op);
         }
         return {q, r};
     }
-- 
2.43.0


From cc2a50084a88ed499a949c6071432a9dfa777456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 07/49] fix: big_num popcount and and-reduction

---
 include/logic/big_num.hh | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 1d35743..97ee591 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -146,7 +146,9 @@ public:
     }
 
     [[maybe_unused]] [[nodiscard]] uint64_t popcount() const {
-        return std::accumulate(values.begin(), values.end(), std::popcount);
+        return std::accumulate(values.begin(), values.end(), uint64_t{0}, [](auto sum, auto v) {
+            return sum + static_cast<uint64_t>(std::popcount(v));
+        });
     }
 
     void mask_off() {
@@ -299,19 +301,7 @@ public:
     // reduction
     [[maybe_unused]] [[nodiscard]] bool r_and() const {
         // only if all the bit are set
-        auto b = std::all_of(values.begin(), values.begin() + s - 1, [](auto const v) {
-            return v == std::numeric_limits<uint64_t>::max();
-        });
-        if constexpr (values.size() * 8 == size) {
-            return b;
-        } else {
-            if (b) return false;
-
-            for (uint64_t i = (values.size() - 1); i < s; i++) {
-                if (!get(i)) return false;
-            }
-        }
-        return true;
+        return all_set();
     }
 
     [[maybe_unused]] [[nodiscard]] bool r_xor() const {
-- 
2.43.0


From e12bc55b2b8288bfb594a1bfafe9970c4067369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 08/49] fix: build big_num from any integer type

int did not compile (narrowing) and negative values were not sign-extended
into unsigned numbers.
---
 include/logic/big_num.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 97ee591..8a1507a 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -900,8 +900,8 @@ public:
 
     template <typename T>
     requires std::is_arithmetic_v<T>
-    explicit constexpr big_num(T v) : values({v}) {
-        if constexpr (signed_) {
+    explicit constexpr big_num(T v) : values({static_cast<big_num_holder_type>(v)}) {
+        if constexpr (std::is_signed_v<T>) {
             if (v < 0) {
                 for (auto i = 1u; i < s; i++) {
                     values[i] = std::numeric_limits<big_num_holder_type>::max();
-- 
2.43.0


From 4c11eea309719e079d996c00b2288aacf7d15b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 09/49] fix: keep native bit values canonical

A native value is stored zero-extended (unsigned) or sign-extended (signed) in
its holder. Construction, sign casts, mask_off, mask, all_set and negative now
agree on that for every size, including one-bit and partially used signed
holders, instead of leaking bits beyond the declared size.
---
 include/logic/bit.hh | 67 ++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 769ab9b..4f1b227 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -25,6 +25,18 @@ public:
 
     T value;
 
+    // native values are kept as the number they denote: zero-extended into the holder if unsigned
+    // and sign-extended if signed. bits beyond the declared size are dropped
+    [[nodiscard]] static constexpr T to_holder(uint64_t v) requires(util::native_num(size)) {
+        if constexpr (size == 1) {
+            return (v & 1) != 0;
+        } else if constexpr (signed_) {
+            return static_cast<T>(static_cast<int64_t>(v << (64 - size)) >> (64 - size));
+        } else {
+            return static_cast<T>((v << (64 - size)) >> (64 - size));
+        }
+    }
+
     // basic formatting
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (native_num) {
@@ -137,8 +149,10 @@ public:
      * relates to whether it's negative or not
      */
     [[nodiscard]] bool negative() const {
-        if constexpr (native_num) {
-            return value < 0;
+        if constexpr (!signed_) {
+            return false;
+        } else if constexpr (native_num) {
+            return size == 1 ? value != 0 : value < 0;
         } else {
             return value.negative();
         }
@@ -325,12 +339,7 @@ public:
 
     void mask_off() {
         if constexpr (native_num) {
-            if constexpr (size > 1) {
-                auto constexpr amount = sizeof(T) * 8 - size;
-                auto constexpr mask_max = bit_mask();
-                auto mask = mask_max >> amount;
-                value &= mask;
-            }
+            value = to_holder(static_cast<uint64_t>(value));
         } else {
             value.mask_off();
         }
@@ -836,11 +845,7 @@ public:
     [[nodiscard]] bit<size - 1, 0, true> to_signed() const {
         bit<size - 1, 0, true> res;
         if constexpr (native_num) {
-            if constexpr (size == 1) {
-                res.value = value;
-            } else {
-                res.value = static_cast<decltype(bit<size - 1, 0, true>::value)>(value);
-            }
+            res.value = bit<size - 1, 0, true>::to_holder(to_uint64());
         } else {
             res.value = value.to_signed();
         }
@@ -850,11 +855,7 @@ public:
     [[nodiscard]] bit<size - 1, 0, false> to_unsigned() const {
         bit<size - 1, 0, false> res;
         if constexpr (native_num) {
-            if constexpr (size == 1) {
-                res.value = value;
-            } else {
-                res.value = static_cast<decltype(bit<size - 1, 0, false>::value)>(value);
-            }
+            res.value = bit<size - 1, 0, false>::to_holder(to_uint64());
         } else {
             // big number is always unsigned
             res.value = value;
@@ -874,11 +875,7 @@ public:
 
     void mask() {
         if constexpr (native_num) {
-            if constexpr (size == 1) {
-                value = true;
-            } else {
-                value = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-            }
+            value = to_holder(std::numeric_limits<uint64_t>::max());
         } else {
             value.mask();
         }
@@ -919,8 +916,7 @@ public:
 
     [[nodiscard]] bool all_set() const {
         if constexpr (native_num) {
-            auto constexpr max = value_mask(size);
-            return value == max;
+            return value == to_holder(std::numeric_limits<uint64_t>::max());
         } else {
             return value.all_set();
         }
@@ -958,15 +954,21 @@ public:
     /*
      * value conversions
      */
-    [[nodiscard]] uint64_t to_uint64() const {
+    [[nodiscard]] constexpr uint64_t to_uint64() const {
         if constexpr (native_num) {
-            return value;
+            if constexpr (size == 1 && signed_) {
+                // the only set bit is the sign bit
+                return value ? std::numeric_limits<uint64_t>::max() : 0;
+            }
+            return static_cast<uint64_t>(value);
         } else {
             return value.to_uint64();
         }
     }
 
-    [[nodiscard]] int8_t to_num() const requires(signed_ &&size <= 8) { return value; }
+    [[nodiscard]] int8_t to_num() const requires(signed_ &&size <= 8) {
+        return static_cast<int8_t>(to_uint64());
+    }
 
     [[nodiscard]] uint8_t to_num() const requires(!signed_ && size <= 8) { return value; }
 
@@ -999,20 +1001,23 @@ public:
      */
     explicit constexpr bit(std::string_view v) {
         if constexpr (native_num) {
-            value = static_cast<T>(util::parse_raw_str(v));
+            value = to_holder(util::parse_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.values.data());
+            mask_off();
         }
     }
 
-    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) {}
+    template <typename K>
+    requires(std::is_arithmetic_v<K> &&util::native_num(size)) explicit constexpr bit(K v)
+        : value(to_holder(static_cast<uint64_t>(v))) {}
     template <typename K>
     requires(std::is_arithmetic_v<K> && !util::native_num(size)) constexpr bit(K v)  // NOLINT
         : value(v) {}
 
     template <uint64_t new_size, bool new_signed>
     explicit bit(const big_num<new_size, new_signed> &big_num) requires(size <= big_num_threshold)
-        : value(big_num.values[0]) {}
+        : value(to_holder(big_num.values[0])) {}
 
     template <uint64_t op_hi, uint64_t op_lo, bool op_signed>
     constexpr bit(logic<op_hi, op_lo, op_signed> &&logic) {  // NOLINT
-- 
2.43.0


From bf39543c931fc0c3e10522b1b242fd3cab59de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 10/49] fix: shift native values by any amount

Amounts at or above the holder size were undefined or truncated to the type of
the left operand, signed amounts were sign-extended, bits shifted out of the
declared size survived in the holder, and multiword amounts did not compile.
---
 include/logic/bit.hh | 74 +++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 42 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 4f1b227..40bc578 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -491,23 +491,28 @@ public:
 
     [[maybe_unused]] [[nodiscard]] bool r_xnor() const { return !r_xor(); }
 
+    // per LRM 11.4.10, the amount is always treated as an unsigned number. since the max size is
+    // 2^64, anything that doesn't fit into 64 bits shifts everything out
+    [[nodiscard]] uint64_t shift_amount() const {
+        if constexpr (native_num) {
+            return to_unsigned().to_uint64();
+        } else {
+            return value.fit_in_64() ? value.values[0] : std::numeric_limits<uint64_t>::max();
+        }
+    }
+
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator>>(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
         // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
+        // 1. itself is a native number
+        if constexpr (native_num) {
             // make sure to mask off any bit dur to signed extension
-            res.value = (value >> static_cast<T>(amount.value)) & value_mask(size - amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value >> amount.value;
+            auto const amt = amount.shift_amount();
+            auto const v = to_unsigned().to_uint64();
+            res.value = decltype(res)::to_holder(amt < size ? v >> amt : 0);
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size, signed_> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num >> amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value >> amount.shift_amount();
         }
 
         return res;
@@ -549,20 +554,12 @@ public:
     auto operator<<(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
         // couple cases
-        // 1. both of them are native number
-        // clang doesn't allow accessing native_num as amount.native_num
-        // see https://stackoverflow.com/a/44996066
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            res.value = value << static_cast<T>(amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value << amount.value;
+        // 1. itself is a native number
+        if constexpr (native_num) {
+            auto const amt = amount.shift_amount();
+            res.value = decltype(res)::to_holder(amt < size ? to_uint64() << amt : 0);
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num << amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value << amount.shift_amount();
         }
 
         return res;
@@ -580,19 +577,18 @@ public:
     auto ashr(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
         // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // no need to mask since C++ does arithmetic shifts by default
-            res.value = value >> static_cast<T>(amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value.ashr(amount.value);
+        // 1. itself is a native number
+        if constexpr (native_num) {
+            // C++ does arithmetic shifts by default. shifting by more than the size keeps
+            // copying the sign bit
+            auto const amt = util::min<uint64_t>(amount.shift_amount(), 63);
+            if constexpr (signed_) {
+                res.value = decltype(res)::to_holder(static_cast<int64_t>(to_uint64()) >> amt);
+            } else {
+                res.value = decltype(res)::to_holder(amt < size ? to_uint64() >> amt : 0);
+            }
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num.ashr(amount);
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value.ashr(amount.shift_amount());
         }
 
         return res;
@@ -1089,12 +1085,6 @@ private:
         this->template unpack_<base + arg0_size>(args...);
     }
 
-    [[nodiscard]] T value_mask(uint64_t requested_size) const {
-        auto mask = std::numeric_limits<uint64_t>::max();
-        mask = mask >> (64ull - requested_size);
-        return static_cast<T>(mask);
-    }
-
     [[nodiscard]] inline bit<0> get_(int idx) const {
         if constexpr (!big_endian) {
             idx = lsb - idx;
-- 
2.43.0


From 30b3324c3bc33a6cd560ffb1b5d938671c1bc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 11/49] fix: convert bits between any sizes and signs

Assignment and construction copied the holder as is: narrower targets kept
excess bits, signed sources were not extended into multiword ones, and many
combinations (native/multiword, unsigned of another range) did not compile.
Same for extend, and for assigning a C++ integer.
---
 include/logic/bit.hh | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 40bc578..db5961a 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -234,20 +234,29 @@ public:
     template <uint64_t target_size>
     requires(target_size > size && util::native_num(target_size))
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return bit<target_size - 1, 0, signed_>(value);
+        return bit<target_size - 1, 0, signed_>(to_uint64());
     }
 
     template <uint64_t target_size>
     requires(target_size == size)
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return *this;
+        bit<target_size - 1, 0, signed_> result;
+        result.value = value;
+        return result;
     }
 
     // new size is smaller. this is just a slice
     template <uint64_t target_size>
     requires(target_size < size)
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return slice<target_size - 1, 0>();
+        bit<target_size - 1, 0, signed_> result;
+        if constexpr (util::native_num(target_size)) {
+            result.value = decltype(result)::to_holder(to_uint64());
+        } else {
+            std::copy_n(value.values.begin(), result.value.s, result.value.values.begin());
+            result.mask_off();
+        }
+        return result;
     }
 
     // native number, but extend to a big number
@@ -257,7 +266,7 @@ public:
         bit<target_size - 1, 0, signed_> result;
         // use C++ default semantics to cast. if it's a negative number
         // the upper bit will be set properly
-        result.value.values[0] = static_cast<big_num_holder_type>(value);
+        result.value.values[0] = to_uint64();
         if constexpr (signed_) {
             if (negative()) {
                 for (auto i = 1u; i < result.value.s; i++) {
@@ -1020,7 +1029,7 @@ public:
         *this = logic.value;
     }
 
-    bit() {
+    constexpr bit() {
         if constexpr (native_num) {
             // init to 0
             value = 0;
@@ -1031,19 +1040,24 @@ public:
     // implicit conversion via assignment
     template <int new_msb, int new_lsb, bool new_signed>
     bit &operator=(const bit<new_msb, new_lsb, new_signed> &b) {
-        value = b.value;
+        assign_(b);
         return *this;
     }
 
     template <typename T>
     bit &operator=(T v) requires(std::is_arithmetic<T>::value) {
-        value = v;
+        value = bit<msb, lsb, signed_>(v).value;
         return *this;
     }
 
     template <int new_msb, int new_lsb>
     constexpr bit(const bit<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
+        assign_(b);
+    }
+
+    template <int new_msb, int new_lsb>
+    explicit constexpr bit(const bit<new_msb, new_lsb, false> &b) {
+        assign_(b);
     }
 
     static constexpr bit<0> one_() {
@@ -1053,6 +1067,17 @@ public:
     }
 
 private:
+    // extend or truncate based on the sign of the source
+    template <int new_msb, int new_lsb, bool new_signed>
+    constexpr void assign_(const bit<new_msb, new_lsb, new_signed> &b) {
+        auto const v = b.template extend<size>();
+        if constexpr (native_num) {
+            value = to_holder(v.to_uint64());
+        } else {
+            value = v.value;
+        }
+    }
+
     /*
      * unpacking, which is basically slicing as syntax sugars
      */
-- 
2.43.0


From a2230c607b2621513349e468a3806d4edf256b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 12/49] fix: bitwise bit results stay within the declared size

Compound forms also failed to compile whenever the signedness or range of the
result differed from the left operand, and did not truncate wider results.
---
 include/logic/bit.hh | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index db5961a..5dedb3e 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -371,6 +371,7 @@ public:
             result.value = !value;
         } else {
             result.value = ~value;
+            result.mask_off();
         }
         return result;
     }
@@ -386,6 +387,7 @@ public:
     auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
+        result.mask_off();
         return result;
     }
 
@@ -400,11 +402,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) & op;
-        value = res.value;
-        mask_off();
+    bit &operator&=(const bit<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) & op;
         return *this;
     }
 
@@ -419,6 +418,7 @@ public:
     auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
+        result.mask_off();
         return result;
     }
 
@@ -433,11 +433,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) ^ op;
-        value = res.value;
-        mask_off();
+    bit &operator^=(const bit<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) ^ op;
         return *this;
     }
 
@@ -452,6 +449,7 @@ public:
     auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
+        result.mask_off();
         return result;
     }
 
@@ -466,11 +464,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) | op;
-        value = res.value;
-        mask_off();
+    bit &operator|=(const bit<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) | op;
         return *this;
     }
 
@@ -552,10 +547,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
-        const bit<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) >> amount;
-        value = res.value;
+    bit &operator>>=(const bit<op_msb, op_lsb, op_signed> &amount) {
+        *this = (*this) >> amount;
         return *this;
     }
 
@@ -575,10 +568,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
-        const bit<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) << amount;
-        value = res.value;
+    bit &operator<<=(const bit<op_msb, op_lsb, op_signed> &amount) {
+        *this = (*this) << amount;
         return *this;
     }
 
-- 
2.43.0


From 8a01e139c23210789476ae420e38c68a4dd8f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 13/49] fix: native bit arithmetic is modular

+, -, * and negation kept the carry in the holder (5-bit 31 + 1 printed as 32,
1-bit 1 + 1 as 1) and overflowed int. Negating multiword bits did not compile.
---
 include/logic/bit.hh | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 5dedb3e..95fb640 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -706,9 +706,11 @@ public:
 
     constexpr bit<msb, lsb, signed_> operator-() const {
         if constexpr (native_num) {
-            return bit<msb, lsb, signed_>(-value);
+            return bit<msb, lsb, signed_>(uint64_t{0} - to_uint64());
         } else {
-            return bit<msb, lsb, signed_>(value.negate());
+            bit<msb, lsb, signed_> res;
+            res.value = value.negate();
+            return res;
         }
     }
 
@@ -728,7 +730,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value + op.value;
+        if constexpr (native_num) {
+            // compute on unsigned numbers, where overflow is defined
+            result.value = decltype(result)::to_holder(to_uint64() + op.to_uint64());
+        } else {
+            result.value = value + op.value;
+        }
         return result;
     }
 
@@ -752,7 +759,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value - op.value;
+        if constexpr (native_num) {
+            // compute on unsigned numbers, where overflow is defined
+            result.value = decltype(result)::to_holder(to_uint64() - op.to_uint64());
+        } else {
+            result.value = value - op.value;
+        }
         return result;
     }
 
@@ -776,7 +788,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value * op.value;
+        if constexpr (native_num) {
+            // compute on unsigned numbers, where overflow is defined
+            result.value = decltype(result)::to_holder(to_uint64() * op.to_uint64());
+        } else {
+            result.value = value * op.value;
+        }
         return result;
     }
 
@@ -892,18 +909,16 @@ public:
 
     void negate() {
         if constexpr (native_num) {
-            value = (~value) + 1;
-            mask_off();
+            value = to_holder(uint64_t{0} - to_uint64());
         } else {
-            return value.negate();
+            value = value.negate();
         }
     }
 
     [[nodiscard]] bit<size - 1, 0> negate() const {
         bit<size - 1, 0> res;
         if constexpr (native_num) {
-            res.value = (~value) + 1;
-            res.mask_off();
+            res.value = decltype(res)::to_holder(uint64_t{0} - to_uint64());
         } else {
             res.value = value.negate();
         }
-- 
2.43.0


From e560666616b6baa1155f2277e247227d7a613d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 14/49] fix: native bit division never traps

Dividing by zero or the most negative number by -1 raised SIGFPE, and mixing
signed and unsigned operands divided the wrong numbers.
---
 include/logic/bit.hh | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 95fb640..c95bee5 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -817,7 +817,24 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value % op.value;
+        if constexpr (native_num) {
+            // division by 0 is 0, same as big number
+            if (!op.any_set()) return result;
+            if constexpr (util::signed_result(signed_, op_signed)) {
+                auto const l = static_cast<int64_t>(to_uint64());
+                auto const r = static_cast<int64_t>(op.to_uint64());
+                // avoid overflow when dividing the most negative number by -1
+                auto const v = r == -1 ? uint64_t{0}
+                                       : static_cast<uint64_t>(l % r);
+                result.value = decltype(result)::to_holder(v);
+            } else {
+                auto const l = to_unsigned().to_uint64();
+                auto const r = op.to_unsigned().to_uint64();
+                result.value = decltype(result)::to_holder(l % r);
+            }
+        } else {
+            result.value = value % op.value;
+        }
         return result;
     }
 
@@ -841,7 +858,24 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value / op.value;
+        if constexpr (native_num) {
+            // division by 0 is 0, same as big number
+            if (!op.any_set()) return result;
+            if constexpr (util::signed_result(signed_, op_signed)) {
+                auto const l = static_cast<int64_t>(to_uint64());
+                auto const r = static_cast<int64_t>(op.to_uint64());
+                // avoid overflow when dividing the most negative number by -1
+                auto const v = r == -1 ? uint64_t{0} - to_uint64()
+                                       : static_cast<uint64_t>(l / r);
+                result.value = decltype(result)::to_holder(v);
+            } else {
+                auto const l = to_unsigned().to_uint64();
+                auto const r = op.to_unsigned().to_uint64();
+                result.value = decltype(result)::to_holder(l / r);
+            }
+        } else {
+            result.value = value / op.value;
+        }
         return result;
     }
 
-- 
2.43.0


From 46a7157f71a26e945050cbd260e502bbd277d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 15/49] fix: compare bits of any sizes and signs by value

== truncated the wider operand, mixed signedness compared sign-extended with
zero-extended holders, and native against multiword comparisons did not compile
or returned nothing.
---
 include/logic/bit.hh | 82 +++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 50 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index c95bee5..da0f40c 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -600,22 +600,32 @@ public:
         return (*this) << amount;
     }
 
-    template <int op_msb, int op_lsb, bool op_signed>
-    bool operator==(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value == static_cast<T>(v.value);
+    // operand of a comparison: extended to the common size, and signed only if both operands are
+    // signed, as LRM specifies
+    template <uint64_t target_size, bool op_signed>
+    [[nodiscard]] auto operand() const {
+        auto const v = this->template extend<target_size>();
+        if constexpr (!util::native_num(target_size)) {
+            return v.value;
+        } else if constexpr (signed_ && op_signed) {
+            return static_cast<int64_t>(v.to_uint64());
         } else {
-            return value == v.value;
+            return v.to_unsigned().to_uint64();
         }
     }
 
+    template <int op_msb, int op_lsb, bool op_signed>
+    bool operator==(const bit<op_msb, op_lsb, op_signed> &v) const {
+        auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+        return this->template operand<target_size, op_signed>() ==
+               v.template operand<target_size, signed_>();
+    }
+
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator!=(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value != static_cast<T>(v.value);
-        } else {
-            return value != v.value;
-        }
+        auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+        return this->template operand<target_size, op_signed>() !=
+               v.template operand<target_size, signed_>();
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -630,16 +640,9 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator>(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value > v.value;
-            } else {
-                return static_cast<uint64_t>(value) > static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value > v.value;
-        }
+        auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+        return this->template operand<target_size, op_signed>() >
+               v.template operand<target_size, signed_>();
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -649,16 +652,9 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator<(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value < v.value;
-            } else {
-                return static_cast<uint64_t>(value) < static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value < v.value;
-        }
+        auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+        return this->template operand<target_size, op_signed>() <
+               v.template operand<target_size, signed_>();
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -668,16 +664,9 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator>=(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value >= v.value;
-            } else {
-                return static_cast<uint64_t>(value) >= static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value >= v.value;
-        }
+        auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+        return this->template operand<target_size, op_signed>() >=
+               v.template operand<target_size, signed_>();
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -687,16 +676,9 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator<=(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value <= v.value;
-            } else {
-                return static_cast<uint64_t>(value) <= static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value <= v.value;
-        }
+        auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+        return this->template operand<target_size, op_signed>() <=
+               v.template operand<target_size, signed_>();
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-- 
2.43.0


From b8517cc99baa76af4f53172dd313315e241e6bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 16/49] fix: bit reductions

and-reduction was wrong for signed bits and computed the parity of multiword
ones; xor-reduction and popcount did not compile for native and signed bits.
---
 include/logic/bit.hh | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index da0f40c..e11f5c8 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -340,7 +340,7 @@ public:
 
     [[nodiscard]] uint64_t popcount() const {
         if constexpr (native_num) {
-            return std::popcount(value);
+            return std::popcount(to_unsigned().to_uint64());
         } else {
             return value.popcount();
         }
@@ -471,11 +471,10 @@ public:
 
     // reduction
     [[nodiscard]] bool r_and() const requires(native_num) {
-        auto constexpr max = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-        return value == max;
+        return all_set();
     }
 
-    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_xor(); }
+    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_and(); }
 
     [[maybe_unused]] [[nodiscard]] bool r_nand() const { return !r_and(); }
 
@@ -484,11 +483,7 @@ public:
     [[maybe_unused]] [[nodiscard]] bool r_nor() const { return !r_or(); }
 
     [[nodiscard]] bool r_xor() const requires(native_num) {
-        bool b = get<0>();
-        for (auto i = 1; i < size; i++) {
-            b = b ^ get(i);
-        }
-        return b;
+        return popcount() % 2;
     }
 
     [[nodiscard]] bool r_xor() const requires(!native_num) { return value.r_xor(); }
-- 
2.43.0


From eec3eac093791225f153aa46a4734aa55087a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 17/49] fix: single bit access follows the declared range

Reads ignored a non-zero lsb while writes did not, ascending ranges not starting
at 0 wrote outside the vector, writing a bit<0> to a multiword bit ignored the
range, and indexing by a vector did not compile. The logic reductions walk the
declared range, and let a 0 (1) behind an x/z bit decide and (or).
---
 include/logic/bit.hh   | 85 ++++++++++++++++--------------------------
 include/logic/logic.hh | 14 ++++---
 include/logic/util.hh  | 12 ++++++
 3 files changed, 52 insertions(+), 59 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index e11f5c8..a3baeb3 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -59,36 +59,46 @@ public:
     bit<0> inline operator[](int idx) const requires(!array) { return get_(idx); }
 
     template <int idx>
-    requires(idx < size && native_num) [[nodiscard]] bit<0> inline get() const requires(!array) {
+    requires(util::in_declared_range(idx, msb, lsb)) [[nodiscard]] bit<0> inline get() const
+        requires(!array) {
         return this->operator[](idx);
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     bool inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (bit<op_msb, op_lsb>::native_num) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
+        return get_(op.to_index()).value;
+    }
+
+    // the value as an index. anything that does not fit in int is out of every declared range
+    [[nodiscard]] int to_index() const {
+        auto constexpr out_of_range = std::numeric_limits<int>::max();
+        if constexpr (native_num) {
+            if constexpr (signed_) {
+                auto const v = static_cast<int64_t>(to_uint64());
+                return v < std::numeric_limits<int>::min() || v > out_of_range
+                           ? out_of_range
+                           : static_cast<int>(v);
             } else {
-                return false;
+                return to_uint64() > out_of_range ? out_of_range : static_cast<int>(value);
             }
+        } else {
+            return !value.fit_in_64() || value.values[0] > out_of_range
+                       ? out_of_range
+                       : static_cast<int>(value.values[0]);
         }
-        return get_(index);
     }
 
     void inline set(int idx, bool v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
+        auto const i = util::bit_offset(idx, msb, lsb);
         if constexpr (native_num) {
+            if (i >= static_cast<uint64_t>(size)) [[unlikely]]
+                return;
             if (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.set(i, v);
         }
@@ -96,33 +106,21 @@ public:
 
     template <int idx>
     void set(bool v) requires(!array) {
-        constexpr auto idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = static_cast<uint64_t>(idx_ - util::min(lsb, msb));
+        constexpr auto i = util::bit_offset(idx, msb, lsb);
         if constexpr (native_num) {
             if (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.template set<i>(v);
         }
     }
 
     void inline set(int idx, bit<0> v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
-        if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.set(idx, v.value);
-        }
+        set(idx, v.value);
     }
 
     template <int idx>
@@ -132,14 +130,14 @@ public:
 
     template <int idx, bool v>
     void set() requires(!array) {
-        auto constexpr idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = idx_ - util::min(lsb, msb);
+        constexpr auto i = util::bit_offset(idx, msb, lsb);
         if constexpr (native_num) {
             if constexpr (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.template set<i, v>();
         }
@@ -1128,31 +1126,12 @@ private:
     }
 
     [[nodiscard]] inline bit<0> get_(int idx) const {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
+        auto const i = util::bit_offset(idx, msb, lsb);
         if constexpr (native_num) {
-            return bit<0>((value >> idx) & 1);
-        } else {
-            return bit<0>(value[idx]);
-        }
-    }
-
-    template <int idx>
-    [[nodiscard]] inline bit<0> get_() const {
-        if constexpr (!big_endian) {
-            constexpr auto idx_ = lsb - idx;
-            if constexpr (native_num) {
-                return bit<0>((value >> idx_) & 1);
-            } else {
-                return bit<0>(value.template get<idx_>());
-            }
+            // out of bound access is 0, same as big number
+            return bit<0>(i < static_cast<uint64_t>(size) && ((to_uint64() >> i) & 1));
         } else {
-            if constexpr (native_num) {
-                return bit<0>((value >> idx) & 1);
-            } else {
-                return bit<0>(value.template get<idx>());
-            }
+            return bit<0>(value[i]);
         }
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 0c5933e..98fa0d3 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -485,29 +485,31 @@ public:
     [[nodiscard]] logic<0> r_and() const {
         // zero trump everything
         // brute force way to compute
-        for (auto i = 0u; i < size; i++) {
+        bool has_xz = false;
+        for (auto i = util::min(msb, lsb); i <= util::max(msb, lsb); i++) {
             auto b = value[i];
             auto m = xz_mask[i];
             if (!b && !m)
                 return zero_();
             else if (m)
-                return x_();
+                has_xz = true;
         }
-        return one_();
+        return has_xz ? x_() : one_();
     }
 
     [[nodiscard]] logic<0> r_nand() const { return !r_and(); }
 
     [[nodiscard]] logic<0> r_or() const {
-        for (auto i = 0u; i < size; i++) {
+        bool has_xz = false;
+        for (auto i = util::min(msb, lsb); i <= util::max(msb, lsb); i++) {
             auto b = value[i];
             auto m = xz_mask[i];
             if (b && !m)
                 return one_();
             else if (m)
-                return x_();
+                has_xz = true;
         }
-        return zero_();
+        return has_xz ? x_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_nor() const { return !r_or(); }
diff --git a/include/logic/util.hh b/include/logic/util.hh
index 11e9464..2e1cbb2 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -77,6 +77,18 @@ constexpr bool match_endian(int op1_hi, int op1_lo, int op2_hi, int op2_lo) {
     return ((op1_hi >= op1_lo) && (op2_hi >= op2_lo)) || ((op1_hi < op1_lo) && (op2_hi < op2_lo));
 }
 
+// position of an index in the declared range, counting from the LSB. wraps around to an
+// out-of-bound position if idx is on the other side of lsb
+constexpr uint64_t bit_offset(int idx, int msb, int lsb) {
+    auto const diff =
+        msb >= lsb ? static_cast<int64_t>(idx) - lsb : static_cast<int64_t>(lsb) - idx;
+    return static_cast<uint64_t>(diff);
+}
+
+constexpr bool in_declared_range(int idx, int msb, int lsb) {
+    return idx >= min(msb, lsb) && idx <= max(msb, lsb);
+}
+
 constexpr uint64_t total_size(int msb, int lsb) { return abs_diff(msb, lsb) + 1; }
 
 template <uint64_t s, bool signed_, typename enable = void>
-- 
2.43.0


From 00fe3bed607ce775b68a4b4a0c7208775d6b7699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 18/49] fix: part-selects of signed bits and of exactly 65 bits

The mask of a signed native vector was off by one bit and the sign bit leaked
into run-time selects; a 65-bit select did not compile.
---
 include/logic/bit.hh | 38 +++++++-------------------------------
 1 file changed, 7 insertions(+), 31 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index a3baeb3..5829ae2 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -170,7 +170,7 @@ public:
      * big number but small slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b)) &&
+    requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b) + 1) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
         auto res = value.template slice<a, b>();
@@ -183,8 +183,8 @@ public:
      * big number and big slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b)) &&
-             b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
+    requires(util::max(a, b) < size && !native_num &&
+             !util::native_num(util::abs_diff(a, b) + 1) && b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
         result.value = value.template slice<a, b>();
         return result;
@@ -1141,25 +1141,11 @@ protected:
     constexpr inline slice_() const {
         // assume the import has type-checked properly, e.g. by a compiler
         constexpr auto base = util::min(msb, lsb);
-        constexpr auto max = util::max(a, b) - base;
         constexpr auto min = util::min(a, b) - base;
-        constexpr auto t_size = sizeof(T) * 8;
         constexpr auto target_size = util::abs_diff(a, b) + 1;
         bit<target_size - 1, false> result;
-        if constexpr (target_size == 1 && size == 1) {
-            result.value = value != 0;
-        } else {
-            constexpr auto default_mask = bit_mask();
-            uint64_t mask = default_mask << min;
-            uint64_t shmnt;
-            if constexpr (signed_) {
-                shmnt = 2;
-            } else {
-                shmnt = 1;
-            }
-            mask &= (default_mask >> (t_size - max - shmnt));
-            result.value = (value & static_cast<T>(mask)) >> min;
-        }
+        // bits above max are dropped
+        result.value = decltype(result)::to_holder(to_uint64() >> min);
         return result;
     }
 
@@ -1169,13 +1155,9 @@ protected:
         if constexpr (native_num) {
             // assume the import has type-checked properly, e.g. by a compiler
             auto base = util::min(msb, lsb);
-            auto max = util::max(a, b) - base;
             auto min = util::min(a, b) - base;
-            auto t_size = sizeof(T) * 8;
-            constexpr auto default_mask = bit_mask();
-            uint64_t mask = default_mask << min;
-            mask &= (default_mask >> (t_size - max - 1));
-            result.value = (value & static_cast<T>(mask)) >> min;
+            // bits above max are dropped
+            result.value = decltype(result)::to_holder(to_uint64() >> min);
 
             return result;
         } else {
@@ -1207,12 +1189,6 @@ protected:
             set(i, b);
         }
     }
-
-    // compute the mask in unsigned fashion
-    static constexpr auto bit_mask() requires(native_num) {
-        using TU = typename util::get_holder_type<size, false>::type;
-        return std::numeric_limits<TU>::max();
-    }
 };
 
 template <int a, int b, typename T>
-- 
2.43.0


From 7b2757f6f0e1303a27b056efdf191b9b86217bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 19/49] fix: part-select writes take the source from its first
 bit

Compile-time writes to a bit read the source at the target's index, and any
write between ascending and descending vectors that does not start at 0 read
the wrong source bits.
---
 include/logic/bit.hh   | 12 ++++++------
 include/logic/logic.hh | 14 ++++++--------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 5829ae2..7e1f374 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -955,9 +955,9 @@ public:
             // we need to revert the index accessing scheme here, if the endian doesn't match
             int idx;
             if constexpr (bit<op_hi, op_lo>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
+                idx = util::max(op_lo, op_hi) - (i - start);
             } else {
-                idx = i;
+                idx = util::min(op_lo, op_hi) + (i - start);
             }
             auto b = op.operator[](idx);
             set(i, b);
@@ -1179,13 +1179,13 @@ protected:
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
+            int idx;
             if constexpr (bit<op_msb, op_lsb>::big_endian ^ big_endian) {
-                idx = util::max(op_lsb, op_msb) - i;
+                idx = util::max(op_lsb, op_msb) - (i - start);
             } else {
-                idx = i;
+                idx = util::min(op_lsb, op_msb) + (i - start);
             }
-            auto b = op.operator[](idx - start);
+            auto b = op.operator[](idx);
             set(i, b);
         }
     }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 98fa0d3..cdc5758 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1141,13 +1141,12 @@ protected:
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
+            int idx;
             if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
+                idx = util::max(op_lo, op_hi) - (i - start);
             } else {
-                idx = i;
+                idx = util::min(op_lo, op_hi) + (i - start);
             }
-            idx = idx - start;
             logic<0, 0> b;
             if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
                 // out of bound access, set to 0
@@ -1166,13 +1165,12 @@ protected:
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
+            int idx;
             if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
+                idx = util::max(op_lo, op_hi) - (i - start);
             } else {
-                idx = i;
+                idx = util::min(op_lo, op_hi) + (i - start);
             }
-            idx = idx - start;
             logic<0, 0> b;
             if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
                 // out of bound access, set to 0
-- 
2.43.0


From 52483c4e6514bab6f3c59b54cd8ebadb145479b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 20/49] fix: concatenate and unpack bits of any size and sign

Concatenation shifted in int, let a negative piece overwrite its neighbour and
did not compile from 64 bits up; unpacking a bit did not compile at all.
---
 include/logic/bit.hh | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 7e1f374..e2920c0 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -294,23 +294,26 @@ public:
     auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb>::size;
         auto constexpr final_size = size + arg0_size;
-        if constexpr (final_size < big_num_threshold) {
-            return bit<final_size - 1>(value << arg0_size | arg0.value);
+        // the sign of the operands must not leak into the neighbour
+        if constexpr (util::native_num(final_size)) {
+            return bit<final_size - 1>(to_unsigned().to_uint64() << arg0_size |
+                                       arg0.to_unsigned().to_uint64());
         } else {
             auto res = bit<final_size - 1>();
-            if constexpr (bit<arg0_msb, arg0_lsb>::native_num) {
-                // convert to big num
-                big_num<arg0_size, false> b(arg0.value);
-                auto big_num = value.concat(b);
-                res.big_num = big_num;
-            } else {
-                auto big_num = value.concat(arg0.value);
-                res.big_num = big_num;
-            }
+            res.value = to_big_num().concat(arg0.to_big_num());
             return res;
         }
     }
 
+    // convert to big num, unsigned
+    [[nodiscard]] big_num<size, false> to_big_num() const {
+        if constexpr (native_num) {
+            return big_num<size, false>(to_unsigned().to_uint64());
+        } else {
+            return value;
+        }
+    }
+
     template <typename U, typename... Ts>
     auto concat(U arg0, Ts... args) {
         return concat(arg0).concat(args...);
@@ -1100,7 +1103,7 @@ private:
     requires(base < size) void unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
         auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
-        arg0.value = this->template slice<base, upper_bound>();
+        arg0 = this->template slice<base, upper_bound>();
     }
 
     template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed>
@@ -1111,6 +1114,11 @@ private:
         arg0.xz_mask.clear();
     }
 
+    template <int>
+    [[maybe_unused]] void unpack_() const {
+        // noop to end the recursion
+    }
+
     template <int base = 0, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
     [[maybe_unused]] auto unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0, Ts &...args) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-- 
2.43.0


From 4f8cd3639dc3385bfb5eff28a5a5c66b5c1ba754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 21/49] fix: format only the declared bits of a signed bit

---
 include/logic/bit.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index e2920c0..49add33 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -43,7 +43,7 @@ public:
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
                 return util::to_string(fmt, size, negate().value, true);
             } else {
-                return util::to_string(fmt, size, value, false);
+                return util::to_string(fmt, size, to_unsigned().to_uint64(), false);
             }
         } else {
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
@@ -911,7 +911,7 @@ public:
             if (value == 0)
                 return size;
             else {
-                auto r = __builtin_clzll(static_cast<uint64_t>(value));
+                auto r = __builtin_clzll(to_unsigned().to_uint64());
                 return 64 - r - 1;
             }
         } else {
-- 
2.43.0


From 36f3f130db095478c5cb9def520ee4a44877fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 22/49] fix: let same-size operands have any range

The same-size overloads only matched descending operands, so an ascending vector
could not be combined with a vector of its own size, nor used with & and | at
all.
---
 include/logic/bit.hh   | 40 ++++++++++++++++++++++++----------------
 include/logic/logic.hh | 40 ++++++++++++++++++++++++----------------
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 49add33..c128bbb 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -384,8 +384,9 @@ public:
         return this->template and_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator&(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
         result.mask_off();
@@ -415,8 +416,9 @@ public:
         return this->template xor_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator^(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
         result.mask_off();
@@ -446,8 +448,9 @@ public:
         return this->template or_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator|(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
         result.mask_off();
@@ -705,8 +708,9 @@ public:
         return this->template add<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator+(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             // compute on unsigned numbers, where overflow is defined
@@ -734,8 +738,9 @@ public:
         return this->template minus<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator-(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             // compute on unsigned numbers, where overflow is defined
@@ -763,8 +768,9 @@ public:
         return this->template multiply<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator*(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             // compute on unsigned numbers, where overflow is defined
@@ -792,8 +798,9 @@ public:
         return this->template mod<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator%(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             // division by 0 is 0, same as big number
@@ -833,8 +840,9 @@ public:
         return this->template divide<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator/(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             // division by 0 is 0, same as big number
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index cdc5758..546f3ba 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -298,8 +298,9 @@ public:
         return this->template and_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator&(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator&(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 0 0 0 0
@@ -357,8 +358,9 @@ public:
         return this->template or_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator|(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator|(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 0 1 x x
@@ -422,8 +424,9 @@ public:
         return this->template xor_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator^(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator^(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 1 0 x x
@@ -754,8 +757,9 @@ public:
         return this->template add<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator+(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator+(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -785,8 +789,9 @@ public:
         return this->template minus<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator-(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator-(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -816,8 +821,9 @@ public:
         return this->template multiply<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator*(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator*(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -847,8 +853,9 @@ public:
         return this->template divide<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator/(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator/(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the op is 0, return x
         if (xz_mask.any_set() || op.xz_mask.any_set() || !op.value.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
@@ -879,8 +886,9 @@ public:
         return this->template mod<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator%(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator%(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the op is 0, return x
         if (xz_mask.any_set() || op.xz_mask.any_set() || !op.value.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
-- 
2.43.0


From 675bf23fea734f99efa7c006ae30addc732f7be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 23/49] fix: logic operators with a bit operand

The operand was converted to the type of the left operand instead of its own
four-state type, which lost its sign or did not compile, and operands of the
same size were rejected.
---
 include/logic/logic.hh | 51 +++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 546f3ba..df9090b 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -328,9 +328,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator&(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator&(logic(op));
+    auto operator&(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator&(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -394,9 +393,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator|(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator|(logic(op));
+    auto operator|(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator|(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -449,9 +447,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator^(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator^(logic(op));
+    auto operator^(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator^(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -571,9 +568,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator>>(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator>>(logic(op));
+    auto operator>>(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator>>(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -599,9 +595,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator<<(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator<<(logic(op));
+    auto operator<<(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator<<(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -641,7 +636,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashl(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        return this->template ashl(logic(amount));
+        return this->template ashl(logic<op_msb, op_lsb, op_signed>(amount));
     }
 
     /*
@@ -655,7 +650,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator==(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator==(logic(target));
+        return this->template operator==(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -666,7 +661,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator!=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator!=(logic(target));
+        return this->template operator!=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -676,7 +671,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template match(logic(op));
+        return this->template match(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -697,7 +692,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>(logic(target));
+        return this->template operator>(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -708,7 +703,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<(logic(target));
+        return this->template operator<(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -719,7 +714,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>=(logic(target));
+        return this->template operator>=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -730,7 +725,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<=(logic(target));
+        return this->template operator<=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     constexpr auto operator-() const {
@@ -769,7 +764,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator+(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator+(logic(target));
+        return this->template operator+(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -801,7 +796,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator-(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator-(logic(target));
+        return this->template operator-(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -833,7 +828,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator*(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator*(logic(target));
+        return this->template operator*(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -866,7 +861,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator/(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator/(logic(target));
+        return this->template operator/(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -899,7 +894,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator%(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator%(logic(target));
+        return this->template operator%(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
-- 
2.43.0


From 0530f17c4a313cadcdaabadaa67cda3a304c55e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 24/49] fix: xor of different sizes and xor-reduction of odd
 sizes

xor_ computed | and the reduction counted zeros instead of ones.
---
 include/logic/logic.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index df9090b..fe1e544 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -456,7 +456,7 @@ public:
         const logic<op_msb, op_lsb, op_signed> &op) const {
         auto l = this->template extend<target_size>();
         auto r = op.template extend<target_size>();
-        auto result = l | r;
+        auto result = l ^ r;
         return result;
     }
 
@@ -524,8 +524,7 @@ public:
         // if x/z is set, it's always x
         if (xz_mask.any_set()) return x_();
         auto bits_count = value.popcount();
-        auto zeros = size - bits_count;
-        return (zeros % 2) ? one_() : zero_();
+        return (bits_count % 2) ? one_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_xnor() const { return !r_xor(); }
-- 
2.43.0


From fe52b423e2297331d9e7772ddb064056b8264cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 25/49] fix: compound logic assignment returns the left operand

It did not compile if the result's signedness or range was a different one.
---
 include/logic/logic.hh | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index fe1e544..60e1c0e 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -342,8 +342,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
+    logic &operator&=(const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) & op;
         this->value = res.value;
         this->xz_mask = res.xz_mask;
@@ -407,8 +406,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
+    logic &operator|=(const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) | op;
         this->value = res.value;
         this->xz_mask = res.xz_mask;
@@ -461,8 +459,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
+    logic &operator^=(const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) ^ op;
         this->value = res.value;
         this->xz_mask = res.xz_mask;
@@ -572,8 +569,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
-        const logic<op_msb, op_lsb, op_signed> &amount) {
+    logic &operator>>=(const logic<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) >> amount;
         value = res.value;
         xz_mask = res.xz_mask;
@@ -599,8 +595,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
-        const logic<op_msb, op_lsb, op_signed> &amount) {
+    logic &operator<<=(const logic<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) << amount;
         value = res.value;
         xz_mask = res.xz_mask;
-- 
2.43.0


From 7fd4cead31e919c3be9f341907e884b92b84593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 26/49] fix: sign-extend x and z

Widening a signed vector with an unknown sign bit filled the new bits with 0 (x)
or 1 (z), against LRM 11.8.4; wider matches compared such bits as known.
---
 include/logic/logic.hh | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 60e1c0e..f3d4268 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -221,6 +221,13 @@ public:
         return this->slice_ref(base_value, end);
     }
 
+    // the mask with the sign of the value, so that an x/z sign bit gets extended as well
+    [[nodiscard]] constexpr bit<size - 1, 0, signed_> signed_mask() const {
+        bit<size - 1, 0, signed_> result;
+        result = xz_mask;
+        return result;
+    }
+
     /*
      * extend
      */
@@ -229,7 +236,7 @@ public:
         [[nodiscard]] constexpr logic<target_size - 1, 0, signed_> extend() const {
         logic<target_size - 1, 0, signed_> result;
         result.value = value.template extend<target_size>();
-        result.xz_mask = xz_mask.template extend<target_size>();
+        result.xz_mask = signed_mask().template extend<target_size>();
         return result;
     }
 
@@ -660,7 +667,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const logic<op_msb, op_lsb, op_signed> &op) const {
-        return value == op.value && xz_mask == op.xz_mask;
+        return value == op.value && signed_mask() == op.signed_mask();
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -1037,7 +1044,7 @@ public:
     template <int new_msb, int new_lsb, bool new_signed>
     logic &operator=(const logic<new_msb, new_lsb, new_signed> &b) {
         value = b.value;
-        xz_mask = b.xz_mask;
+        xz_mask = b.signed_mask();
         return *this;
     }
 
@@ -1051,7 +1058,7 @@ public:
     template <int new_msb, int new_lsb>
     constexpr logic(const logic<new_msb, new_lsb, true> &b) {  // NOLINT
         value = b.value;
-        xz_mask = b.xz_mask;
+        xz_mask = b.signed_mask();
     }
 
     // useful constants
-- 
2.43.0


From e7e8bbe15fbe2d9ac71490c71b5416d2ff67ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 27/49] fix: read x and z bits at any index of a logic

The one-bit result was written at the index of the source, outside of it; get
with a compile-time index did not compile for multiword or shifted ranges, nor
with a vector index.
---
 include/logic/logic.hh | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index f3d4268..108c992 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -55,9 +55,9 @@ public:
         if (idx <= util::max(msb, lsb) && idx >= util::min(msb, lsb)) [[likely]] {
             logic<0> r;
             if (x_set(idx)) [[unlikely]] {
-                r.set_x(idx);
+                r.set_x(0);
             } else if (z_set(idx)) [[unlikely]] {
-                r.set_z(idx);
+                r.set_z(0);
             } else {
                 r.value = value[idx];
                 r.xz_mask.value = false;
@@ -70,12 +70,13 @@ public:
     }
 
     template <int idx>
-    requires(idx < size) [[nodiscard]] inline logic<0> get() const requires(!array) {
+    requires(util::in_declared_range(idx, msb, lsb)) [[nodiscard]] inline logic<0> get() const
+        requires(!array) {
         logic<0> r{false};
         if (this->template x_set<idx>()) [[unlikely]] {
-            r.set_x<idx>();
+            r.template set_x<0>();
         } else if (this->template z_set<idx>()) [[unlikely]] {
-            r.set_z<idx>();
+            r.template set_z<0>();
         } else {
             r.value = value.template get<idx>();
         }
@@ -85,32 +86,13 @@ public:
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const logic<op_msb, op_lsb, op_signed, op_array> &op) const
         requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64() && !op.xz_mask.any_set()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
-        }
-        return operator[](index);
+        if (op.xz_mask.any_set()) return x_();
+        return operator[](op.value.to_index());
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
-        }
-        return operator[](index);
+        return operator[](op.to_index());
     }
 
     void set(int idx, bool v) requires(!array) {
@@ -1084,9 +1066,9 @@ public:
     }
 
 private:
-    void unmask_bit(uint64_t idx) { xz_mask.set(idx, false); }
+    void unmask_bit(int idx) { xz_mask.set(idx, false); }
 
-    template <uint64_t idx>
+    template <int idx>
     void unmask_bit() {
         xz_mask.template set<idx, false>();
     }
@@ -1115,7 +1097,7 @@ private:
     }
 
     template <bool l_signed>
-    void set_(uint64_t idx, const logic<0, 0, l_signed> &l) {
+    void set_(int idx, const logic<0, 0, l_signed> &l) {
         value.set(idx, l.value.value);
         xz_mask.set(idx, l.xz_mask.value);
     }
-- 
2.43.0


From 012fbc1e89c04e12fa536cd64e0eb83c00f3580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 28/49] fix: keep x and z in place when concatenating a bit to
 a logic

---
 include/logic/logic.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 108c992..ea6f385 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -241,7 +241,7 @@ public:
         auto res = logic<final_size - 1, 0, signed_>();
         res.value = value.concat(arg0);
         // concat masks as well
-        res.xz_mask = xz_mask.template extend<final_size>();
+        res.xz_mask = xz_mask.concat(bit<bit<arg0_msb, arg0_lsb, arg0_signed>::size - 1>());
         return res;
     }
 
-- 
2.43.0


From 52fd4f34fa4006217cda35aa6c008e1a5fe5712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 29/49] fix: cut literals to the size of the logic

---
 include/logic/logic.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index ea6f385..6727da5 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1001,11 +1001,13 @@ public:
     explicit logic(const char *str) : logic(std::string_view(str)) {}
     explicit constexpr logic(std::string_view v) {
         if constexpr (util::native_num(size)) {
-            value.value = util::parse_raw_str(v);
-            xz_mask.value = util::parse_xz_raw_str(v);
+            value.value = bit<msb, lsb, signed_>::to_holder(util::parse_raw_str(v));
+            xz_mask.value = bit<msb, lsb>::to_holder(util::parse_xz_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.value.values.data());
             util::parse_xz_raw_str(v, size, xz_mask.value.values.data());
+            value.mask_off();
+            xz_mask.mask_off();
         }
     }
 
-- 
2.43.0


From d5b2a6d95ff1fd631a412be288626493bb0e83e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 30/49] fix: format only the declared bits, and no sign of
 unknown numbers

---
 include/logic/logic.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 6727da5..624637c 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -26,7 +26,8 @@ public:
     // basic formatting
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (signed_) {
-            auto is_negative = value.negative();
+            // there is no sign if the number is unknown
+            auto is_negative = value.negative() && !xz_mask.any_set();
             if (is_negative && util::decimal_fmt(fmt)) {
                 auto value_ = value.negate().value;
                 if constexpr (util::native_num(size)) {
@@ -39,7 +40,7 @@ public:
             }
         }
         if constexpr (util::native_num(size)) {
-            uint64_t v = value.value;
+            uint64_t v = value.to_unsigned().to_uint64();
             uint64_t xz = xz_mask.value;
             return util::to_string(fmt, size, v, xz, false);
         } else {
-- 
2.43.0


From 39c1c669c6d995f1a20690693d84ebaa09526879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 31/49] fix: parse lower-case hex digits

'a' to 'f' were read as 0 to 5.
---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index fd5dfcc..a9d2e5f 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -97,7 +97,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                 else if (c >= '0' && c <= '9')
                     s = c - '0';
                 else if (c >= 'a' && c <= 'f')
-                    s = c - 'a';
+                    s = c - 'a' + 10;
                 else if (c >= 'A' && c <= 'F')
                     s = c - 'A' + 10;
                 result |= s << (idx * 4ull);
-- 
2.43.0


From de0d638e4cb1c1c8941d0c5f456c16dbd256bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 32/49] fix: parse every binary digit of a literal

Upper-case X and Z were taken for 0, x/z above bit 31 shifted an int out of
range, and digits beyond 64 bits wrapped around into the low bits.
---
 src/util.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index a9d2e5f..11e32e0 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -57,7 +57,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0ull; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == '1' || c == 'z') {
+                if (idx < 64 && (c == '1' || c == 'z' || c == 'Z')) {
                     result |= 1ull << idx;
                 }
                 if (c != '_') idx++;
@@ -78,7 +78,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                     s = 0b111;
                 else
                     s = c - '0';
-                result |= s << (idx * 3ull);
+                if (idx * 3ull < 64) result |= s << (idx * 3ull);
                 if (c != '_') idx++;
             }
             break;
@@ -100,7 +100,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                     s = c - 'a' + 10;
                 else if (c >= 'A' && c <= 'F')
                     s = c - 'A' + 10;
-                result |= s << (idx * 4ull);
+                if (idx * 4ull < 64) result |= s << (idx * 4ull);
                 if (c != '_') idx++;
             }
             break;
@@ -132,8 +132,8 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0u; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == 'x' || c == 'z') {
-                    result |= 1u << idx;
+                if (idx < 64 && (c == 'x' || c == 'X' || c == 'z' || c == 'Z')) {
+                    result |= 1ull << idx;
                 }
                 if (c != '_') idx++;
             }
@@ -147,7 +147,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
                 auto c = value[value.size() - i - 1];
                 uint64_t s;
                 // this will be taken care of by the xz mask parsing
-                if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
+                if (idx * 3 < 64 && (c == 'x' || c == 'X' || c == 'z' || c == 'Z')) {
                     s = 0b111;
                     result |= s << (idx * 3);
                 }
@@ -162,7 +162,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
                 auto c = value[value.size() - i - 1];
                 uint64_t s;
                 // this will be taken care of by the xz mask parsing
-                if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
+                if (idx * 4 < 64 && (c == 'x' || c == 'X' || c == 'z' || c == 'Z')) {
                     s = 0b1111;
                     result |= s << (idx * 4);
                 }
-- 
2.43.0


From 5f9b9d820f8568f3d8bb5eeca46a17abce57f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 33/49] fix: parse multiword literals

Octal digits beyond the 21st were put one bit too high per word, underscores
were counted as digits when splitting into words, and decimals longer than 64
digits were split as if they were binary.
---
 src/util.cc | 51 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 11e32e0..9cca580 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -201,23 +201,46 @@ uint64_t get_stride(char base) {
     }
 }
 
+bool is_decimal(char base) { return base == 'd' || base == 'D'; }
+
+// underscores don't count as digits, unless it's a raw string
+std::string get_digits(std::string_view value, char base) {
+    std::string result(value);
+    if (base != 's' && base != 'S') {
+        result.erase(std::remove(result.begin(), result.end(), '_'), result.end());
+    }
+    return result;
+}
+
+void set_batch(uint64_t* ptr, uint64_t num_array, uint64_t pos, uint64_t value) {
+    auto const idx = pos / 64;
+    auto const offset = pos % 64;
+    ptr[idx] |= value << offset;
+    // if it's across the 64-bit boundary
+    if (offset != 0 && (idx + 1) < num_array) ptr[idx + 1] |= value >> (64 - offset);
+}
+
 void parse_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     // use existing functions to parse single uint64_t values, except for decimals.
     // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
-    value = value.substr(start_pos);
+    auto const digits = get_digits(value.substr(start_pos), base);
+    value = digits;
     auto remaining_size = value.size();
     auto end = value.size();
     auto const stride = get_stride(base);
-    auto const batch_size = 64 / stride;
+    auto const batch_size = is_decimal(base) ? remaining_size : 64 / stride;
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-    uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
+    std::fill(ptr, ptr + num_array, 0);
+    // position of the batch. it's not necessarily a multiple of 64
+    uint64_t pos = 0;
+    while (remaining_size > 0 && pos < size) {
         auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_raw_str_(value.substr(begin, end - begin), base);
+        auto const v = parse_raw_str_(value.substr(begin, end - begin), base);
+        set_batch(ptr, num_array, pos, v);
 
-        idx++;
+        pos += batch_size * stride;
         end = begin;
         remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
     }
@@ -227,19 +250,23 @@ void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     // use existing functions to parse single uint64_t values, except for decimals.
     // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
-    value = value.substr(start_pos);
+    auto const digits = get_digits(value.substr(start_pos), base);
+    value = digits;
     auto remaining_size = value.size();
     auto end = value.size();
     auto const stride = get_stride(base);
-    auto const batch_size = 64 / stride;
+    auto const batch_size = is_decimal(base) ? remaining_size : 64 / stride;
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-    uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
+    std::fill(ptr, ptr + num_array, 0);
+    // position of the batch. it's not necessarily a multiple of 64
+    uint64_t pos = 0;
+    while (remaining_size > 0 && pos < size) {
         auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_xz_raw_str_(value.substr(begin, end - begin), base);
+        auto const v = parse_xz_raw_str_(value.substr(begin, end - begin), base);
+        set_batch(ptr, num_array, pos, v);
 
-        idx++;
+        pos += batch_size * stride;
         end = begin;
         remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
     }
-- 
2.43.0


From 2613be4d07f59f69115770a7a2621f6c0206877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 34/49] fix: format two-state numbers like four-state ones

The separate code printed octal and hex digits in reverse, characters as
numbers, and multiword numbers with each word reversed and padded on its own.
---
 src/util.cc | 119 ++++------------------------------------------------
 1 file changed, 7 insertions(+), 112 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 9cca580..0cbff99 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -407,58 +407,6 @@ std::string format_value_2power(char base, uint64_t value) {
     return ss.str();
 }
 
-std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool is_negative) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
-
-    // now print out the format
-    std::stringstream ss;
-    switch (base) {
-        case 'b':
-        case 'B': {
-            auto b = std::bitset<64>(value);
-            auto s = b.to_string().substr(64 - size);
-            // need to reverse it
-            std::reverse(s.begin(), s.end());
-            ss << s;
-            break;
-        }
-        case 'o':
-        case 'O':
-        case 'x':
-        case 'h':
-        case 'X':
-        case 'H': {
-            ss << format_value_2power(base, value);
-            break;
-        }
-        case 's':
-        case 'S':
-            for (auto i = 0u; i < size; i += 8) {
-                auto c = value >> (i * 8) & 0xFF;
-                ss << c;
-            }
-            break;
-        case 'd':
-        case 'D': {
-            if (value == 0) {
-                ss << 0;
-            } else {
-                while (value > 0) {
-                    auto r = value % 10;
-                    ss << r;
-                    value /= 10;
-                }
-            }
-            break;
-        }
-        default:;
-    }
-    return pad_result(is_negative, base, actual_size, padding, ss);
-}
-
 uint64_t get_mask(uint64_t stride) { return std::numeric_limits<uint64_t>::max() >> (64 - stride); }
 
 std::string fmt_value(char base, uint64_t size, uint64_t value, uint64_t xz_mask) {
@@ -613,70 +561,17 @@ std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, uint6
     return to_string_(fmt, size, value, xz_mask, is_negative, true);
 }
 
-std::string to_string_(std::string_view fmt, uint64_t size, const uint64_t* value, bool is_negative,
-                       bool use_padding) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
-
-    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-
-    std::stringstream ss;
-    if (base != 'd' && base != 'D') {
-        // notice that because in oct format, 3 is not a power of 2, we need to be extra careful
-        if (base == 'o' || base == 'O') {
-            auto num_chunks = static_cast<uint64_t>(std::ceil(static_cast<double>(size) / 3));
-            for (auto i = 0u; i < num_chunks; i++) {
-                auto start = i * 3;
-                auto value_idx = start / 64;
-                auto start_idx = start % 64;
-                // if it's across the 64-bit boundary
-                uint64_t v;
-                if ((64 - start_idx) < 3) {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
-                } else {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                }
-                auto s = to_string(fmt, 3, v, false);
-                ss << s;
-            }
-        } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
-                ss << to_string(fmt, 64, value[i], false);
-            }
-            if (size % 64) {
-                ss << to_string(fmt, size % 64, value[num_array - 1], false);
-            }
-        }
-    } else {
-        // FIXME
-        // give up. display the least significant two parts
-        auto size_ = size > 128 ? 128 : size;
-        __uint128_t v = 0;
-        if (size_ > 64) {
-            v |= value[1];
-            v = v << 64;
-        }
-        v |= value[0];
-        auto q = v;
-        while (q != 0) {
-            auto r = q % 10;
-            ss << static_cast<uint64_t>(r);
-            q = q / 10;
-        }
-    }
-
-    if (use_padding)
-        return pad_result(is_negative, base, actual_size, padding, ss);
-    else
-        return ss.str();
+std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool is_negative) {
+    // same as 4-state without any x or z
+    return to_string(fmt, size, value, 0, is_negative);
 }
 
 std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
                       bool is_negative) {
-    return to_string_(fmt, size, value, is_negative, true);
+    // same as 4-state without any x or z
+    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
+    std::vector<uint64_t> const xz_mask(num_array, 0);
+    return to_string(fmt, size, value, xz_mask.data(), is_negative);
 }
 
 std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
-- 
2.43.0


From e8aa340d5e9a42ba2a8a0dfc050d844397202bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 35/49] fix: print the top word of vectors of a multiple of 64
 bits

---
 src/util.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 0cbff99..f45feb4 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -611,10 +611,9 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
             for (auto i = 0u; i < num_array - 1; i++) {
                 ss << to_string_(fmt, 64, value[i], xz_mask[i], false, false);
             }
-            if (size % 64) {
-                ss << to_string_(fmt, size % 64, value[num_array - 1], xz_mask[num_array - 1],
-                                 false, false);
-            }
+            auto const top_size = (size % 64) ? size % 64 : 64;
+            ss << to_string_(fmt, top_size, value[num_array - 1], xz_mask[num_array - 1], false,
+                             false);
         }
 
     } else {
-- 
2.43.0


From 085b0c0797ced86fd86c4ac7df598341794653ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 36/49] fix: print octal digits that cross a word boundary

The upper bits came from the wrong position, possibly of a word after the end.
---
 src/util.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index f45feb4..2654023 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -597,14 +597,15 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
                 uint64_t xz;
                 if ((64 - start_idx) < 3) {
                     v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
+                    if ((value_idx + 1) < num_array) v |= (value[value_idx + 1] << (64 - start_idx)) & 0x7;
                     xz = (xz_mask[value_idx] >> start_idx) & 0x7;
-                    xz |= (xz_mask[value_idx + 1]) & (0x7 >> (64 - start_idx));
+                    if ((value_idx + 1) < num_array)
+                        xz |= (xz_mask[value_idx + 1] << (64 - start_idx)) & 0x7;
                 } else {
                     v = (value[value_idx] >> start_idx) & 0x7;
                     xz = (xz_mask[value_idx] >> start_idx) & 0x7;
                 }
-                auto s = to_string_(fmt, 3, v, xz, false, false);
+                auto s = to_string_(fmt, std::min<uint64_t>(3, size - start), v, xz, false, false);
                 ss << s;
             }
         } else {
-- 
2.43.0


From 6dbe57adab154e08ff12cf296a9b06d77b0d6dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 37/49] fix: classify x and z in a partial top digit

A top digit whose bits are all x (z) printed X (Z) if it had fewer bits than a
full digit.
---
 src/util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 2654023..d2a34f7 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -411,9 +411,10 @@ uint64_t get_mask(uint64_t stride) { return std::numeric_limits<uint64_t>::max()
 
 std::string fmt_value(char base, uint64_t size, uint64_t value, uint64_t xz_mask) {
     auto stride = get_stride(base);
-    const auto mask = get_mask(stride);
     std::stringstream ss;
     for (auto i = 0u; i < size; i += stride) {
+        // the top digit may have fewer bits
+        const auto mask = get_mask(std::min<uint64_t>(stride, size - i));
         auto v = (value >> i) & mask;
         auto xz = (xz_mask >> i) & mask;
         if (xz != 0) {
-- 
2.43.0


From 6b2ac1e60f9c226a39ff578767d0c41aa6c9f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:14 +0000
Subject: [PATCH 38/49] fix: decimal format of multiword numbers

0 printed as blanks, all-x and all-z numbers of fewer than 128 bits as X and Z,
and the width of 128-bit numbers was read past the table.
---
 src/util.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index d2a34f7..a70b6ef 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -272,15 +272,15 @@ void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     }
 }
 
-constexpr std::array<uint64_t, 128> compute_decimal_size() {
+constexpr std::array<uint64_t, 129> compute_decimal_size() {
     // we precompute 128 entries of decimal sizes. if larger than that we need to
     // recompute each time. no caching allowed for the sakes of concurrency since
     // we need to protect the cache with a mutex if that is the case
-    std::array<uint64_t, 128> result{};
+    std::array<uint64_t, 129> result{};
     // zero is ill-defined
     result[0] = 1;
 
-    for (auto i = 1u; i < 128; i++) {
+    for (auto i = 1u; i <= 128; i++) {
         __uint128_t value = 0;
         value = ~value;
         // shift based on the size
@@ -634,12 +634,13 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
         xz |= xz_mask[0];
         if (xz != 0) {
             // contains x/z
-            if ((~xz) == 0) {
+            auto const mask = ~static_cast<__uint128_t>(0) >> (128 - size_);
+            if (xz == mask) {
                 // all x or z
                 if (v == 0) {
                     ss << 'x';
                 } else {
-                    if ((~v) == 0) {
+                    if (v == mask) {
                         // all z
                         ss << 'z';
                     } else {
@@ -666,6 +667,7 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
             }
         } else {
             auto q = v;
+            if (q == 0) ss << 0;
             while (q != 0) {
                 auto r = q % 10;
                 ss << static_cast<uint64_t>(r);
-- 
2.43.0


From bc3785760bc6c81607159fec69d56a1271529130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 39/49] fix: bound packed array indexes by the declared range

Indexes were compared with the total number of bits, so most out-of-range
elements were accessed outside the array.
---
 include/logic/array.hh | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 62b0b2e..366d980 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -78,18 +78,12 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator[](const logic<op_msb, op_lsb, op_signed> &op) const {
-        // if the value is too big, we return X
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        // if the value is out of range, we return X
+        int const index = op.value.to_index();
+        if (op.xz_mask.any_set() || !util::in_declared_range(index, msb, lsb)) [[unlikely]] {
             using T_ = typename util::get_array_base_type<T, base_size, T::is_4state>::type;
             return T_{};
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
             auto idx = index - util::min(msb, lsb);
             auto start_addr = idx * base_size;
             auto end_addr = (idx + 1) * base_size;
@@ -99,16 +93,11 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed, typename K>
     void update(const logic<op_msb, op_lsb, op_signed> &op, const K &value) {
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        // if the value is out of range, we do nothing
+        int const index = op.value.to_index();
+        if (op.xz_mask.any_set() || !util::in_declared_range(index, msb, lsb)) [[unlikely]] {
             return;
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
             auto idx = index - util::min(msb, lsb);
             int start_addr = idx * base_size;
             int end_addr = (idx + 1) * base_size;
-- 
2.43.0


From 5df2ac7db38dab23118d65053f561fec2c401c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 40/49] fix: do not touch the bit after a packed array element

The end address is inclusive: reading the last element read past the vector and
writing an element cleared the first bit of the next one.
---
 include/logic/array.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 366d980..b08f4fb 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -86,7 +86,7 @@ public:
         } else {
             auto idx = index - util::min(msb, lsb);
             auto start_addr = idx * base_size;
-            auto end_addr = (idx + 1) * base_size;
+            auto end_addr = (idx + 1) * base_size - 1;
             return VT::template slice<base_size>(start_addr, end_addr);
         }
     }
@@ -100,7 +100,7 @@ public:
         } else {
             auto idx = index - util::min(msb, lsb);
             int start_addr = idx * base_size;
-            int end_addr = (idx + 1) * base_size;
+            int end_addr = (idx + 1) * base_size - 1;
             VT::template update_(start_addr, end_addr, value);
         }
     }
-- 
2.43.0


From 84308b8201df91870d33fe9ddcd698f9477dcbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 41/49] fix: slice two-state packed arrays

Writing a slice did not compile, nor reading one of a multiword array.
---
 include/logic/array.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index b08f4fb..e3bd78c 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -60,7 +60,11 @@ public:
         auto constexpr start_addr = min_idx * base_size;
         auto constexpr end_addr = (max_idx + 1) * base_size;
 
-        return VT::template slice_<end_addr - 1, start_addr>();
+        if constexpr (is_4state) {
+            return VT::template slice_<end_addr - 1, start_addr>();
+        } else {
+            return VT::template slice_<end_addr - start_addr>(end_addr - 1, start_addr);
+        }
     }
 
     // Clion linter goes crazy here, even though it's hiding since the base class requires
@@ -73,7 +77,11 @@ public:
         auto constexpr start_addr = min_idx * base_size;
         auto constexpr end_addr = (max_idx + 1) * base_size;
         // use the underlying logic implementation
-        VT::template update_<end_addr - 1, start_addr>(v);
+        if constexpr (is_4state) {
+            VT::template update_<end_addr - 1, start_addr>(v);
+        } else {
+            VT::update_(end_addr - 1, start_addr, v);
+        }
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-- 
2.43.0


From c6dc6c5b8ba91314cf1feb340360bedc933963f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 42/49] fix: bound unpacked array writes by the declared range

Writes to arrays not starting at 0 were dropped or went outside the array.
---
 include/logic/array.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index e3bd78c..b2c2229 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -128,21 +128,21 @@ public:
 
     const T &operator[](int idx) const {
         const static T x_ = T{};
-        auto i = static_cast<uint32_t>(idx - util::min(msb, lsb));
-        if (i >= size) {
+        if (!util::in_declared_range(idx, msb, lsb)) {
             return x_;
         } else {
-            return value[i];
+            return value[idx - util::min(msb, lsb)];
         }
     }
 
     template <int idx, typename V>
     auto update(const V v) {
-        if (idx >= size) return;
-        // need to compute the base
-        auto constexpr i = idx - util::min(msb, lsb);
-        // use the underlying logic implementation
-        value[i] = v;
+        if constexpr (util::in_declared_range(idx, msb, lsb)) {
+            // need to compute the base
+            auto constexpr i = idx - util::min(msb, lsb);
+            // use the underlying logic implementation
+            value[i] = v;
+        }
     }
 
 private:
-- 
2.43.0


From b3c4f81385cd08aec70c53a4a8f44cf0956c6fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 43/49] fix: use the known right operand in bitwise and/or with
 x/z on the left

---
 include/logic/logic.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 624637c..f67af84 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -310,7 +310,7 @@ public:
         // only happens between 1 and x/z. Notice that 1 is encoded as (1, 0) and x is (, 1)
         //
         auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   & x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z & 1
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z & 1
         result.value &= ~mask;
         result.xz_mask |= mask;
 
@@ -375,7 +375,7 @@ public:
         // z x x x x
         // compute the mask for case // 1 & x/z and x/z & 1
         auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   | x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z | 1
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z | 1
         result.value |= mask;
         result.xz_mask &= ~mask;
         return result;
-- 
2.43.0


From a29bb25ca88e625bfcfa86446a79f2d754fa3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:56 +0000
Subject: [PATCH 44/49] fix: z & z is x

---
 include/logic/logic.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index f67af84..8ce8159 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -311,8 +311,9 @@ public:
         //
         auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   & x/z
                     (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z & 1
-        result.value &= ~mask;
         result.xz_mask |= mask;
+        // z & z is x as well
+        result.value &= ~result.xz_mask;
 
         return result;
     }
-- 
2.43.0


From aca8367dc04de9c4ad308071f6fa3c40ec19f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 45/49] fix: arithmetic shift of unsigned 64-bit numbers by 64
 and more

---
 include/logic/bit.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index c128bbb..3b33b93 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -580,9 +580,10 @@ public:
         if constexpr (native_num) {
             // C++ does arithmetic shifts by default. shifting by more than the size keeps
             // copying the sign bit
-            auto const amt = util::min<uint64_t>(amount.shift_amount(), 63);
+            auto const amt = amount.shift_amount();
             if constexpr (signed_) {
-                res.value = decltype(res)::to_holder(static_cast<int64_t>(to_uint64()) >> amt);
+                res.value = decltype(res)::to_holder(static_cast<int64_t>(to_uint64()) >>
+                                                     util::min<uint64_t>(amt, 63));
             } else {
                 res.value = decltype(res)::to_holder(amt < size ? to_uint64() >> amt : 0);
             }
-- 
2.43.0


From 597569dc503195986368b0d2fa0e4ade0cc50d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:39 +0000
Subject: [PATCH 46/49] fix: write part of a vector from the vector itself

---
 include/logic/bit.hh   | 8 ++++++--
 include/logic/logic.hh | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 3b33b93..08e5561 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -962,6 +962,8 @@ public:
     void update(const bit<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size) {
         auto constexpr start = util::min(hi, lo);
         auto constexpr end = util::max(hi, lo) + 1;
+        // the source can be the vector itself
+        auto const src = op;
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
@@ -971,7 +973,7 @@ public:
             } else {
                 idx = util::min(op_lo, op_hi) + (i - start);
             }
-            auto b = op.operator[](idx);
+            auto b = src.operator[](idx);
             set(i, b);
         }
     }
@@ -1193,6 +1195,8 @@ protected:
     void update_(int hi, int lo, const bit<op_msb, op_lsb, op_signed> &op) {
         auto start = util::min(hi, lo);
         auto end = util::max(hi, lo) + 1;
+        // the source can be the vector itself
+        auto const src = op;
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
@@ -1202,7 +1206,7 @@ protected:
             } else {
                 idx = util::min(op_lsb, op_msb) + (i - start);
             }
-            auto b = op.operator[](idx);
+            auto b = src.operator[](idx);
             set(i, b);
         }
     }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 8ce8159..9054b23 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1128,6 +1128,8 @@ protected:
                                                                                        lsb)) {
         auto constexpr start = util::min(hi, lo);
         auto constexpr end = util::max(hi, lo) + 1;
+        // the source can be the vector itself
+        auto const src = op;
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
@@ -1142,7 +1144,7 @@ protected:
                 // out of bound access, set to 0
                 b = zero_();
             } else {
-                b = op.operator[](idx);
+                b = src.operator[](idx);
             }
             set_(i, b);
         }
@@ -1152,6 +1154,8 @@ protected:
     void update_(int hi, int lo, const logic<op_hi, op_lo, op_signed> &op) {
         auto start = util::min(hi, lo);
         auto end = util::max(hi, lo) + 1;
+        // the source can be the vector itself
+        auto const src = op;
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
@@ -1166,7 +1170,7 @@ protected:
                 // out of bound access, set to 0
                 b = zero_();
             } else {
-                b = op.operator[](idx);
+                b = src.operator[](idx);
             }
             set_(i, b);
         }
-- 
2.43.0


From cb321405b33554dfbf00fc17860398e299de05f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:56 +0000
Subject: [PATCH 47/49] fix: negative multiword indexes

---
 include/logic/bit.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 08e5561..84220c9 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -82,6 +82,12 @@ public:
                 return to_uint64() > out_of_range ? out_of_range : static_cast<int>(value);
             }
         } else {
+            if (negative()) {
+                auto const abs = value.negate();
+                return !abs.fit_in_64() || abs.values[0] > out_of_range
+                           ? out_of_range
+                           : -static_cast<int>(abs.values[0]);
+            }
             return !value.fit_in_64() || value.values[0] > out_of_range
                        ? out_of_range
                        : static_cast<int>(value.values[0]);
-- 
2.43.0


From 0fc73827c7b1ccef1d4cea2a5dde5c6ac6d41a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:30 +0000
Subject: [PATCH 48/49] fix: the result of a concatenation is unsigned

---
 include/logic/logic.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 9054b23..1f1065e 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -229,7 +229,7 @@ public:
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
     constexpr auto concat(const logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
         auto constexpr final_size = size + logic<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        auto res = logic<final_size - 1>();
         res.value = value.concat(arg0.value);
         // concat masks as well
         res.xz_mask = xz_mask.concat(arg0.xz_mask);
@@ -239,7 +239,7 @@ public:
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
     constexpr auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
         auto constexpr final_size = size + bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        auto res = logic<final_size - 1>();
         res.value = value.concat(arg0);
         // concat masks as well
         res.xz_mask = xz_mask.concat(bit<bit<arg0_msb, arg0_lsb, arg0_signed>::size - 1>());
-- 
2.43.0


From ab8164011e01059f9cbca589c7189c6e8f2a75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:24 +0000
Subject: [PATCH 49/49] fix: the amount has no effect on the signedness of a
 shift's result

---
 include/logic/bit.hh   | 6 +++---
 include/logic/logic.hh | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 84220c9..6d5afa8 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -512,7 +512,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator>>(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
+        bit<size - 1, 0, signed_> res;
         // couple cases
         // 1. itself is a native number
         if constexpr (native_num) {
@@ -559,7 +559,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator<<(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
+        bit<size - 1, 0, signed_> res;
         // couple cases
         // 1. itself is a native number
         if constexpr (native_num) {
@@ -580,7 +580,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashr(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
+        bit<size - 1, 0, signed_> res;
         // couple cases
         // 1. itself is a native number
         if constexpr (native_num) {
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 1f1065e..0e40eb2 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -543,7 +543,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator>>(const logic<op_msb, op_lsb, op_signed> &amount) const {
-        logic<size - 1, 0, util::signed_result(signed_, op_signed)> res;
+        logic<size - 1, 0, signed_> res;
         if (amount.xz_mask.any_set() || xz_mask.any_set()) [[unlikely]] {
             // return all x
             res.xz_mask.mask();
@@ -569,7 +569,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator<<(const logic<op_msb, op_lsb, op_signed> &amount) const {
-        logic<size - 1, 0, util::signed_result(signed_, op_signed)> res;
+        logic<size - 1, 0, signed_> res;
         if (amount.xz_mask.any_set() || xz_mask.any_set()) [[unlikely]] {
             // return all x
             res.xz_mask.mask();
@@ -595,7 +595,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashr(const logic<op_msb, op_lsb, op_signed> &amount) const {
-        logic<size - 1, 0, util::signed_result(signed_, op_signed)> res;
+        logic<size - 1, 0, signed_> res;
         if (amount.xz_mask.any_set() || xz_mask.any_set()) [[unlikely]] {
             // return all x
             res.xz_mask.mask();
@@ -608,7 +608,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashl(const logic<op_msb, op_lsb, op_signed> &amount) const {
-        logic<size - 1, 0, util::signed_result(signed_, op_signed)> res;
+        logic<size - 1, 0, signed_> res;
         if (amount.xz_mask.any_set() || xz_mask.any_set()) [[unlikely]] {
             // return all x
             res.xz_mask.mask();
-- 
2.43.0

