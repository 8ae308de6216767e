From 79f803097fc278344112d978c01051e8d7fdc4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 01/19] fix: wrap around when subtracting overflowing signed
 integers

Overflow of signed integers is undefined, while the out of range policy relies
on it to wrap. Add functions for wrapping integer arithmetic.
---
 .../algebra/elementary/detail/subtract.h      |   5 +-
 source/fern/core/math.h                       | 126 ++++++++++++++++++
 2 files changed, 130 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/subtract.h b/source/fern/algorithm/algebra/elementary/detail/subtract.h
index b989dfd..089e373 100644
--- a/source/fern/algorithm/algebra/elementary/detail/subtract.h
+++ b/source/fern/algorithm/algebra/elementary/detail/subtract.h
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #pragma once
 #include "fern/core/assert.h"
+#include "fern/core/math.h"
 #include "fern/core/type_traits.h"
 #include "fern/algorithm/policy/policies.h"
 #include "fern/algorithm/core/binary_local_operation.h"
@@ -269,7 +270,9 @@ struct Algorithm
         Value2 const& value2,
         R& result) const
     {
-        result = static_cast<R>(value1) - static_cast<R>(value2);
+        // Overflow must wrap, see within_range.
+        result = wrapping_subtract(static_cast<R>(value1),
+            static_cast<R>(value2));
     }
 
 };
diff --git a/source/fern/core/math.h b/source/fern/core/math.h
index df2b0b3..b425cb8 100644
--- a/source/fern/core/math.h
+++ b/source/fern/core/math.h
@@ -1,4 +1,5 @@
 #pragma once
+#include <type_traits>
 
 
 namespace fern {
@@ -86,4 +87,129 @@ inline bool is_not_equal(
 #endif
 }
 
+
+/*!
+    @brief      Add integers, wrapping around on overflow.
+
+    The result equals the mathematical result modulo two to the power of the
+    number of bits in @a T. Signed integers wrap too, instead of overflowing.
+*/
+template<
+    typename T>
+inline typename std::enable_if<std::is_integral<T>::value, T>::type
+        wrapping_add(
+    T const value1,
+    T const value2)
+{
+    // 1u prevents that small unsigned types are promoted to (signed) int.
+    using Unsigned = typename std::make_unsigned<T>::type;
+    return static_cast<T>(static_cast<Unsigned>(
+        1u * static_cast<Unsigned>(value1) +
+        1u * static_cast<Unsigned>(value2)));
+}
+
+
+template<
+    typename T>
+inline typename std::enable_if<!std::is_integral<T>::value, T>::type
+        wrapping_add(
+    T const value1,
+    T const value2)
+{
+    return value1 + value2;
+}
+
+
+/*!
+    @brief      Subtract integers, wrapping around on overflow.
+
+    The result equals the mathematical result modulo two to the power of the
+    number of bits in @a T. Signed integers wrap too, instead of overflowing.
+*/
+template<
+    typename T>
+inline typename std::enable_if<std::is_integral<T>::value, T>::type
+        wrapping_subtract(
+    T const value1,
+    T const value2)
+{
+    // 1u prevents that small unsigned types are promoted to (signed) int.
+    using Unsigned = typename std::make_unsigned<T>::type;
+    return static_cast<T>(static_cast<Unsigned>(
+        1u * static_cast<Unsigned>(value1) -
+        1u * static_cast<Unsigned>(value2)));
+}
+
+
+template<
+    typename T>
+inline typename std::enable_if<!std::is_integral<T>::value, T>::type
+        wrapping_subtract(
+    T const value1,
+    T const value2)
+{
+    return value1 - value2;
+}
+
+
+/*!
+    @brief      Multiply integers, wrapping around on overflow.
+
+    The result equals the mathematical result modulo two to the power of the
+    number of bits in @a T. Signed integers wrap too, instead of overflowing.
+*/
+template<
+    typename T>
+inline typename std::enable_if<std::is_integral<T>::value, T>::type
+        wrapping_multiply(
+    T const value1,
+    T const value2)
+{
+    // 1u prevents that small unsigned types are promoted to (signed) int.
+    using Unsigned = typename std::make_unsigned<T>::type;
+    return static_cast<T>(static_cast<Unsigned>(
+        1u * static_cast<Unsigned>(value1) *
+        1u * static_cast<Unsigned>(value2)));
+}
+
+
+template<
+    typename T>
+inline typename std::enable_if<!std::is_integral<T>::value, T>::type
+        wrapping_multiply(
+    T const value1,
+    T const value2)
+{
+    return value1 * value2;
+}
+
+
+/*!
+    @brief      Divide integers, wrapping around on overflow.
+
+    Only the smallest signed integer divided by -1 overflows.
+*/
+template<
+    typename T>
+inline typename std::enable_if<std::is_integral<T>::value, T>::type
+        wrapping_divide(
+    T const value1,
+    T const value2)
+{
+    return std::is_signed<T>::value && value2 == static_cast<T>(-1)
+        ? wrapping_subtract(static_cast<T>(0), value1)
+        : static_cast<T>(value1 / value2);
+}
+
+
+template<
+    typename T>
+inline typename std::enable_if<!std::is_integral<T>::value, T>::type
+        wrapping_divide(
+    T const value1,
+    T const value2)
+{
+    return value1 / value2;
+}
+
 }  // namespace fern
-- 
2.43.0


From 5d23f6dab1314682a3dba76927a3d9fb2cef415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 02/19] fix: detect out of range sums of signed and unsigned
 integers

A negative signed value plus a larger unsigned value was flagged as out of
range (-5 + 10), and an overflowing sum was not. Overflow must wrap also.
---
 source/fern/algorithm/algebra/elementary/detail/add.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index 8869f4c..aa760e8 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #pragma once
 #include "fern/core/assert.h"
+#include "fern/core/math.h"
 #include "fern/core/type_traits.h"
 #include "fern/algorithm/policy/policies.h"
 #include "fern/algorithm/core/binary_local_operation.h"
@@ -129,7 +130,9 @@ struct within_range<
         FERN_STATIC_ASSERT(std::is_same, typename fern::algorithm::Result<
             Value1, Value2>::type, Result)
 
-        return value1 > 0 ? result >= value1 : result <= value1;
+        // signed + unsigned
+        // The result cannot be smaller than the signed value, unless it wraps.
+        return !(result < value1);
     }
 };
 
@@ -252,7 +255,9 @@ struct Algorithm
         Value2 const& value2,
         Result& result) const
     {
-        result = static_cast<Result>(value1) + static_cast<Result>(value2);
+        // Overflow must wrap, see within_range.
+        result = wrapping_add(static_cast<Result>(value1),
+            static_cast<Result>(value2));
     }
 
 };
-- 
2.43.0


From a441675d69a88941ffb00edc02d535c5d60cb667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 03/19] fix: detect out of range products of integers exactly

Products equal to the smallest value were flagged as out of range, and products
of unsigned and negative values were compared with mixed signedness. Overflow
must wrap also.
---
 .../algebra/elementary/detail/multiply.h        | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/multiply.h b/source/fern/algorithm/algebra/elementary/detail/multiply.h
index 37298ea..c72cb16 100644
--- a/source/fern/algorithm/algebra/elementary/detail/multiply.h
+++ b/source/fern/algorithm/algebra/elementary/detail/multiply.h
@@ -9,6 +9,7 @@
 #pragma once
 #include <cmath>
 #include "fern/core/assert.h"
+#include "fern/core/math.h"
 #include "fern/core/type_traits.h"
 #include "fern/algorithm/policy/policies.h"
 #include "fern/algorithm/core/binary_local_operation.h"
@@ -93,7 +94,7 @@ struct within_range<
             }
             else {
                 // value1 is positive, value2 is negative.
-                return -value1 >= max<Result>() / value2;
+                return value2 >= min<Result>() / value1;
             }
         }
         else {
@@ -103,7 +104,7 @@ struct within_range<
             }
             else {
                 // value1 is zero or negative, value2 is positive.
-                return value1 >= -max<Result>() / value2;
+                return value1 >= min<Result>() / value2;
             }
         }
     }
@@ -140,7 +141,13 @@ struct within_range<
             return value1 <= max<Result>() / value2;
         }
         else {
-            return value1 <= -max<Result>() / value2;
+            // The magnitude of the product must not exceed the magnitude of the
+            // smallest result.
+            using Unsigned = typename std::make_unsigned<Result>::type;
+            return static_cast<Unsigned>(value1) <=
+                static_cast<Unsigned>(min<Result>()) /
+                    wrapping_subtract(Unsigned(0),
+                        static_cast<Unsigned>(value2));
         }
     }
 };
@@ -288,7 +295,9 @@ struct Algorithm
         Value2 const& value2,
         R& result) const
     {
-        result = static_cast<R>(value1) * static_cast<R>(value2);
+        // Overflow must wrap, see within_range.
+        result = wrapping_multiply(static_cast<R>(value1),
+            static_cast<R>(value2));
     }
 
 };
-- 
2.43.0


From 9ff130ff92e476f603e1eae8487071590be48227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 04/19] fix: detect that the smallest integer divided by -1 is
 out of range

The division overflowed (undefined, it traps), and the result was not flagged.
---
 .../fern/algorithm/algebra/elementary/detail/divide.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/divide.h b/source/fern/algorithm/algebra/elementary/detail/divide.h
index 13b1821..809b605 100644
--- a/source/fern/algorithm/algebra/elementary/detail/divide.h
+++ b/source/fern/algorithm/algebra/elementary/detail/divide.h
@@ -70,15 +70,16 @@ struct within_range<
     signed_integer_tag>
 {
     inline static constexpr bool calculate(
-        Value1 const& /* value1 */,
-        Value2 const& /* value2 */,
+        Value1 const& value1,
+        Value2 const& value2,
         Result const& /* result */)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
 
         // signed / signed
-        return true;
+        // Only min / -1 overflows.
+        return value2 != Value2(-1) || value1 != min<Result>();
     }
 };
 
@@ -251,7 +252,9 @@ struct Algorithm
         R& result) const
     {
         assert(is_not_equal(value2, Value2(0)));
-        result = static_cast<R>(value1) / static_cast<R>(value2);
+        // Overflow must wrap, see within_range.
+        result = wrapping_divide(static_cast<R>(value1),
+            static_cast<R>(value2));
     }
 
 };
-- 
2.43.0


From 36c171e833a2d7e2b3b29b2ce0703d2003d1ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:47 +0000
Subject: [PATCH 05/19] fix: detect not finite sums and differences of integers
 and floating points

Adding infinity to an integer was not flagged, subtracting it failed an
assertion. Multiply and divide check for finite results already.
---
 .../algorithm/algebra/elementary/detail/add.h | 11 ++++-----
 .../algebra/elementary/detail/subtract.h      | 23 ++++---------------
 2 files changed, 10 insertions(+), 24 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index aa760e8..27f28b2 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cmath>
 #include "fern/core/assert.h"
 #include "fern/core/math.h"
 #include "fern/core/type_traits.h"
@@ -199,14 +200,13 @@ struct within_range<
     inline static constexpr bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* value2 */,
-        Result const& /* result */)
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        // assert(std::isfinite(result));
 
         // integral + float
-        return true;
+        return std::isfinite(result);
     }
 };
 
@@ -225,14 +225,13 @@ struct within_range<
     inline static constexpr bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* values2 */,
-        Result const& /* result */)
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        // assert(std::isfinite(result));
 
         // float + integral
-        return true;
+        return std::isfinite(result);
     }
 };
 
diff --git a/source/fern/algorithm/algebra/elementary/detail/subtract.h b/source/fern/algorithm/algebra/elementary/detail/subtract.h
index 089e373..f9c60da 100644
--- a/source/fern/algorithm/algebra/elementary/detail/subtract.h
+++ b/source/fern/algorithm/algebra/elementary/detail/subtract.h
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cmath>
 #include "fern/core/assert.h"
 #include "fern/core/math.h"
 #include "fern/core/type_traits.h"
@@ -203,20 +204,13 @@ struct within_range<
     inline static bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* value2 */,
-#ifndef NDEBUG
-        Result const& result
-#else
-        Result const& /* result */
-#endif
-        )
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        assert(std::isfinite(result));
 
         // integral - float
-        return true;
-        // return std::isfinite(result);
+        return std::isfinite(result);
     }
 };
 
@@ -235,20 +229,13 @@ struct within_range<
     inline static bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* values2 */,
-#ifndef NDEBUG
-        Result const& result
-#else
-        Result const& /* result */
-#endif
-        )
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        assert(std::isfinite(result));
 
         // float - integral
-        return true;
-        // return std::isfinite(result);
+        return std::isfinite(result);
     }
 };
 
-- 
2.43.0


From 44043bd294517bd89cb7f10362af717bed1c52f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 06/19] fix: determine the domain of tan without casting large
 quotients to an integer

---
 source/fern/algorithm/trigonometry/tan.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/trigonometry/tan.h b/source/fern/algorithm/trigonometry/tan.h
index f72b0c5..e69de89 100644
--- a/source/fern/algorithm/trigonometry/tan.h
+++ b/source/fern/algorithm/trigonometry/tan.h
@@ -56,7 +56,8 @@ public:
             else {
                 Value quotient = value / fern::half_pi<Value>();
 
-                return int64_t(quotient) % 2 == 0;
+                // The quotient may be too large for an integer.
+                return is_equal(std::fmod(quotient, Value(2)), Value(0));
             }
         }
     }
-- 
2.43.0


From e36b8452cf6d043b56f875e23da61bec01aa2781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 07/19] fix: wrap around when taking the absolute value of the
 smallest integer

---
 .../algebra/elementary/detail/absolute.h      | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/absolute.h b/source/fern/algorithm/algebra/elementary/detail/absolute.h
index ea8e078..95ee41e 100644
--- a/source/fern/algorithm/algebra/elementary/detail/absolute.h
+++ b/source/fern/algorithm/algebra/elementary/detail/absolute.h
@@ -8,8 +8,8 @@
 // -----------------------------------------------------------------------------
 #pragma once
 #include <cmath>  // abs(float)
-#include <cstdlib>  // abs(int)
 #include "fern/core/assert.h"
+#include "fern/core/math.h"
 #include "fern/core/type_traits.h"
 #include "fern/algorithm/policy/policies.h"
 #include "fern/algorithm/core/unary_local_operation.h"
@@ -146,11 +146,31 @@ template<
     typename Value>
 struct AlgorithmByValueType<
     Value,
-    typename std::enable_if<!std::is_unsigned<Value>::value>::type>
+    typename std::enable_if<std::is_integral<Value>::value &&
+        !std::is_unsigned<Value>::value>::type>
 {
 
-    FERN_STATIC_ASSERT(std::is_arithmetic, Value)
-    FERN_STATIC_ASSERT(!std::is_unsigned, Value)
+    template<
+        typename Result>
+    inline static void apply(
+        Value const& value,
+        Result& result)
+    {
+        // Negating the most negative value must wrap, see within_range.
+        result = static_cast<Result>(value < Value(0)
+            ? wrapping_subtract(Value(0), value)
+            : value);
+    }
+
+};
+
+
+template<
+    typename Value>
+struct AlgorithmByValueType<
+    Value,
+    typename std::enable_if<std::is_floating_point<Value>::value>::type>
+{
 
     template<
         typename Result>
-- 
2.43.0


From cc8ed94214a17cd9e9a77ea15f7132cf36c4aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 08/19] fix: calculate factorials of large integers without
 overflow

---
 .../algebra/elementary/detail/factorial.h     | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/factorial.h b/source/fern/algorithm/algebra/elementary/detail/factorial.h
index 2753d15..47acea7 100644
--- a/source/fern/algorithm/algebra/elementary/detail/factorial.h
+++ b/source/fern/algorithm/algebra/elementary/detail/factorial.h
@@ -8,6 +8,8 @@
 // -----------------------------------------------------------------------------
 #pragma once
 #include <cmath>
+#include <limits>
+#include <type_traits>
 #include "fern/core/assert.h"
 #include "fern/core/math.h"
 #include "fern/algorithm/policy/policies.h"
@@ -63,6 +65,20 @@ struct within_domain<
 };
 
 
+template<
+    typename Value>
+inline auto gamma_factorial(
+    Value const& value)
+{
+    // Add one to the floating point value. Adding one to the largest integer
+    // overflows.
+    using Float = std::conditional_t<std::is_integral<Value>::value, double,
+        Value>;
+
+    return std::round(std::tgamma(static_cast<Float>(value) + Float{1}));
+}
+
+
 template<
     typename Value,
     typename Result,
@@ -101,7 +117,8 @@ struct within_range<
         //     std::round(std::tgamma(value + 1)), static_cast<double>(result));
 
         // Compare the floating point result with the integral numeric limit
-        return std::round(std::tgamma(value + 1)) <= std::numeric_limits<Result>::max();
+        return gamma_factorial(value) <=
+            static_cast<double>(std::numeric_limits<Result>::max());
     }
 
 };
@@ -141,7 +158,19 @@ struct Algorithm
     {
         FERN_STATIC_ASSERT(std::is_same, Result, Value)
 
-        result = static_cast<Value>(std::round(std::tgamma(value + Value{1})));
+        auto const factorial = dispatch::gamma_factorial(value);
+
+        if constexpr(std::is_integral<Value>::value) {
+            // Casting a value that does not fit is undefined, see
+            // within_range.
+            result = factorial <=
+                    static_cast<double>(std::numeric_limits<Value>::max())
+                ? static_cast<Value>(factorial)
+                : std::numeric_limits<Value>::max();
+        }
+        else {
+            result = factorial;
+        }
     }
 
 };
-- 
2.43.0


From 965a8713e8b7b4275c274eabad6bb7fc8cb7fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 09/19] fix: refer to elements of the second argument by their
 own type in binary local operations

---
 source/fern/algorithm/core/binary_local_operation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/binary_local_operation.h b/source/fern/algorithm/core/binary_local_operation.h
index 6cca36b..68a3c18 100644
--- a/source/fern/algorithm/core/binary_local_operation.h
+++ b/source/fern/algorithm/core/binary_local_operation.h
@@ -169,7 +169,7 @@ void operation_0d_1d(
                 output_no_data_policy.mark_as_no_data(i);
             }
             else {
-                const_reference<Value1> v2(get(value2, i));
+                const_reference<Value2> v2(get(value2, i));
 
                 if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                     // Input value is out of domain. Mark result value as
@@ -222,7 +222,7 @@ void operation_1d_1d(
         }
         else {
             const_reference<Value1> v1(get(value1, i));
-            const_reference<Value1> v2(get(value2, i));
+            const_reference<Value2> v2(get(value2, i));
 
             if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                 // Input value is out of domain. Mark result value as
-- 
2.43.0


From 2e099572851fb3c200b090b323ab31227f7940d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 10/19] fix: bind the matching implementation and bounds when
 clamping in parallel

---
 source/fern/algorithm/core/detail/clamp.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fern/algorithm/core/detail/clamp.h b/source/fern/algorithm/core/detail/clamp.h
index 8702d52..bc1b062 100644
--- a/source/fern/algorithm/core/detail/clamp.h
+++ b/source/fern/algorithm/core/detail/clamp.h
@@ -411,7 +411,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_1d_1d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -507,9 +507,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_1d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -605,9 +605,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_0d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -717,7 +717,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -823,7 +823,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -929,7 +929,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_0d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
-- 
2.43.0


From 5604d9801022a4d86187c1e9e71c03f613209b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 11/19] fix: accept single values of any size in a 1-d
 conditional

---
 source/fern/algorithm/core/detail/if.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/detail/if.h b/source/fern/algorithm/core/detail/if.h
index 2afbdbb..c199942 100644
--- a/source/fern/algorithm/core/detail/if.h
+++ b/source/fern/algorithm/core/detail/if.h
@@ -1299,7 +1299,7 @@ struct IfThenElseByArgumentCategory<
         FalseValue const& false_value,
         Result& result)
     {
-        assert(size(true_value) == size(condition));
+        assert(size(result) == size(condition));
 
         if_then_else_1d_0d_0d(input_no_data_policy, output_no_data_policy,
             IndexRanges<1>{IndexRange(0, size(condition))}, condition,
-- 
2.43.0


From 2a86cd890604f8931b4175e12889bb4f9a22c281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 12/19] fix: do not write a position for a block that is not
 there when copying nothing in parallel

---
 source/fern/algorithm/core/detail/copy.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/detail/copy.h b/source/fern/algorithm/core/detail/copy.h
index a095309..4fcc0e3 100644
--- a/source/fern/algorithm/core/detail/copy.h
+++ b/source/fern/algorithm/core/detail/copy.h
@@ -161,7 +161,10 @@ struct CopyByArgumentCategory<
         }
 
         std::vector<Position> position_per_block(ranges.size());
-        position_per_block[0] = position;
+
+        if(!position_per_block.empty()) {
+            position_per_block[0] = position;
+        }
 
         for(size_t i = 1; i < ranges.size(); ++i) {
             position_per_block[i] = get<0>(position_per_block[i - 1]) +
-- 
2.43.0


From 7afba490417eb1498f0426cf2675f624a13bb542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 13/19] fix: detect that the first value of 2-d data is out of
 range when aggregating

---
 source/fern/algorithm/core/unary_aggregate_operation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/unary_aggregate_operation.h b/source/fern/algorithm/core/unary_aggregate_operation.h
index ea34091..3ee4999 100644
--- a/source/fern/algorithm/core/unary_aggregate_operation.h
+++ b/source/fern/algorithm/core/unary_aggregate_operation.h
@@ -262,7 +262,7 @@ std::tuple<bool, bool, Accumulator> operation_2d(
         }
 
         // Continue where the previous loop stopped.
-        if(accumulator_initialized) {
+        if(accumulator_initialized && result_within_range) {
 
             for(; i < end1; ++i) {
 
-- 
2.43.0


From f9286050f0bfc8355491fb0b3e4cc33b6c133150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 14/19] fix: merge sums in their own type instead of the type
 of the values

---
 source/fern/algorithm/accumulator/sum.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/sum.h b/source/fern/algorithm/accumulator/sum.h
index a4fac1e..78f2bec 100644
--- a/source/fern/algorithm/accumulator/sum.h
+++ b/source/fern/algorithm/accumulator/sum.h
@@ -193,7 +193,11 @@ template<
 inline bool Sum<Argument, Result>::operator|=(
     Sum const& other)
 {
-    return operator()<OutOfRangePolicy>(other._sum);
+    Result previous_sum{_sum};
+    _sum += other._sum;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_sum, other._sum, _sum);
 }
 
 
-- 
2.43.0


From 1d4e0334a19feca316dcbd8359690c4b3b8c3c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 15/19] fix: add the other count when merging counts

---
 source/fern/algorithm/accumulator/count.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/count.h b/source/fern/algorithm/accumulator/count.h
index 1754768..016872a 100644
--- a/source/fern/algorithm/accumulator/count.h
+++ b/source/fern/algorithm/accumulator/count.h
@@ -173,10 +173,13 @@ template<
 template<
     template<typename, typename, typename> class OutOfRangePolicy>
 inline bool Count<Argument, Result>::operator|=(
-    Count const& /* other */)
+    Count const& other)
 {
-    // Value doesn't matter. We're counting, not summing.
-    return operator()<OutOfRangePolicy>(Argument{});
+    Result previous_count{_count};
+    _count += other._count;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_count, other._count, _count);
 }
 
 
-- 
2.43.0


From 1b6a73003d647e593c9ea31392e08cdda5654bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 16/19] fix: do not count a zero that was never added to the
 mode

---
 source/fern/algorithm/accumulator/mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/mode.h b/source/fern/algorithm/accumulator/mode.h
index d747d37..3f619c7 100644
--- a/source/fern/algorithm/accumulator/mode.h
+++ b/source/fern/algorithm/accumulator/mode.h
@@ -65,7 +65,7 @@ template<
     typename Result>
 inline Mode<Argument, Result>::Mode()
 
-    : _frequency_table(0)
+    : _frequency_table()
 
 {
 }
-- 
2.43.0


From 4e1e31c1de597da4973bf6f6dfbd66b80a4e4984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 17/19] fix: wrap around when sums and counts of signed
 integers go out of range

---
 source/fern/algorithm/accumulator/count.h |  9 +++---
 source/fern/algorithm/accumulator/sum.h   | 35 ++++++++++++++++++++---
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/source/fern/algorithm/accumulator/count.h b/source/fern/algorithm/accumulator/count.h
index 016872a..86722d0 100644
--- a/source/fern/algorithm/accumulator/count.h
+++ b/source/fern/algorithm/accumulator/count.h
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include "fern/core/math.h"
 
 
 namespace fern {
@@ -118,7 +119,7 @@ template<
 inline void Count<Argument, Result>::operator()(
     Argument const& /* value */)
 {
-    ++_count;
+    _count = wrapping_add(_count, static_cast<Result>(1));
 }
 
 
@@ -131,7 +132,7 @@ inline bool Count<Argument, Result>::operator()(
     Argument const& /* value */)
 {
     Result previous_count{_count};
-    ++_count;
+    _count = wrapping_add(_count, static_cast<Result>(1));
 
     return OutOfRangePolicy<Result, Argument, Result>::within_range(
         previous_count, 1, _count);
@@ -162,7 +163,7 @@ template<
 inline Count<Argument, Result>& Count<Argument, Result>::operator|=(
     Count const& other)
 {
-    _count += other._count;
+    _count = wrapping_add(_count, other._count);
     return *this;
 }
 
@@ -176,7 +177,7 @@ inline bool Count<Argument, Result>::operator|=(
     Count const& other)
 {
     Result previous_count{_count};
-    _count += other._count;
+    _count = wrapping_add(_count, other._count);
 
     return OutOfRangePolicy<Result, Result, Result>::within_range(
         previous_count, other._count, _count);
diff --git a/source/fern/algorithm/accumulator/sum.h b/source/fern/algorithm/accumulator/sum.h
index 78f2bec..2cdb71e 100644
--- a/source/fern/algorithm/accumulator/sum.h
+++ b/source/fern/algorithm/accumulator/sum.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <type_traits>
+#include "fern/core/math.h"
 
 
 namespace fern {
@@ -63,11 +65,36 @@ public:
 
 private:
 
+    template<
+        typename T>
+    static Result  add                 (Result const& sum,
+                                        T const& value);
+
     Result         _sum;
 
 };
 
 
+/*!
+    @brief      Return the sum of @a sum and @a value.
+
+    Integral sums that go out of range wrap around.
+*/
+template<
+    typename Argument,
+    typename Result>
+template<
+    typename T>
+inline Result Sum<Argument, Result>::add(
+    Result const& sum,
+    T const& value)
+{
+    return std::is_integral<Result>::value && std::is_integral<T>::value
+        ? wrapping_add(sum, static_cast<Result>(value))
+        : static_cast<Result>(sum + value);
+}
+
+
 /*!
     @brief      Default construct an instance.
 
@@ -127,7 +154,7 @@ template<
 inline void Sum<Argument, Result>::operator()(
     Argument const& value)
 {
-    _sum += value;
+    _sum = add(_sum, value);
 }
 
 
@@ -161,7 +188,7 @@ inline bool Sum<Argument, Result>::operator()(
     Argument const& value)
 {
     Result previous_sum{_sum};
-    _sum += value;
+    _sum = add(_sum, value);
 
     return OutOfRangePolicy<Result, Argument, Result>::within_range(
         previous_sum, value, _sum);
@@ -180,7 +207,7 @@ template<
 inline Sum<Argument, Result>& Sum<Argument, Result>::operator|=(
     Sum const& other)
 {
-    _sum += other._sum;
+    _sum = add(_sum, other._sum);
     return *this;
 }
 
@@ -194,7 +221,7 @@ inline bool Sum<Argument, Result>::operator|=(
     Sum const& other)
 {
     Result previous_sum{_sum};
-    _sum += other._sum;
+    _sum = add(_sum, other._sum);
 
     return OutOfRangePolicy<Result, Result, Result>::within_range(
         previous_sum, other._sum, _sum);
-- 
2.43.0


From 9aa925176862525311fb8d7489f25a464d8be76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 18/19] fix: divide by the count itself when determining the
 mean of small integers

---
 source/fern/algorithm/accumulator/mean.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/mean.h b/source/fern/algorithm/accumulator/mean.h
index 347d974..52a1892 100644
--- a/source/fern/algorithm/accumulator/mean.h
+++ b/source/fern/algorithm/accumulator/mean.h
@@ -9,6 +9,8 @@
 #pragma once
 #include <cassert>
 #include <cstddef>
+#include <cstdint>
+#include <type_traits>
 #include "fern/algorithm/accumulator/count.h"
 #include "fern/algorithm/accumulator/sum.h"
 
@@ -174,9 +176,13 @@ inline Result Mean<Argument, Result>::operator()() const
 {
     assert(_count() > 0);
 
-    // _sum() returns result in Result. Dividing by _count may implicitly cast
-    // it to some other type.
-    return _sum() / static_cast<Result>(_count());
+    // _sum() returns result in Result. A small integral Result may not be able
+    // to represent the count, so divide integers by a large enough integer.
+    using Divisor = typename std::conditional<std::is_integral<Result>::value,
+        typename std::conditional<std::is_signed<Result>::value, std::int64_t,
+            std::uint64_t>::type, Result>::type;
+
+    return static_cast<Result>(_sum() / static_cast<Divisor>(_count()));
 }
 
 
-- 
2.43.0


From 9cd29d1f2c453e4d2c78643fae7f7a6ace5f6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 19/19] fix: determine the median of an even number of integers
 without overflow

---
 source/fern/algorithm/accumulator/median.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/accumulator/median.h b/source/fern/algorithm/accumulator/median.h
index 5a2e37b..4879a06 100644
--- a/source/fern/algorithm/accumulator/median.h
+++ b/source/fern/algorithm/accumulator/median.h
@@ -9,6 +9,7 @@
 #pragma once
 #include <algorithm>
 #include <cassert>
+#include <type_traits>
 #include <vector>
 
 
@@ -147,8 +148,24 @@ inline Result Median<Argument, Result>::operator()() const
     }
     else {
         // Even. Return mean of two center values.
-        result = static_cast<Result>(_values[center_index - 1] +
-            _values[center_index]) / 2;
+        Argument const& lower{_values[center_index - 1]};
+        Argument const& upper{_values[center_index]};
+
+        if(!std::is_integral<Argument>::value) {
+            result = static_cast<Result>(lower + upper) / 2;
+        }
+        else if(!std::is_integral<Result>::value) {
+            result = (static_cast<Result>(lower) +
+                static_cast<Result>(upper)) / 2;
+        }
+        else if((lower < 0) != (upper < 0)) {
+            result = static_cast<Result>((lower + upper) / 2);
+        }
+        else {
+            // The sum of two integers with the same sign may not fit.
+            result = static_cast<Result>(upper < 0
+                ? upper - (upper - lower) / 2 : lower + (upper - lower) / 2);
+        }
     }
 
     return result;
-- 
2.43.0

