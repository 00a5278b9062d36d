From ff9529ceff3e75eb6daf8adaf1fdc949e11a23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 01/19] fix: do not merge the runtime-defined basis blades of
 different components

Two components whose basis blades are stored at runtime have the same type
even when the blades differ, e.g. 3.0*e(i) + 5.0*e(j). The addition collapsed
them into one component and evaluation wrote past the storage of the result.
Collect coefficients only when the basis blade is known from its type.
---
 ...ession_simplification_addition_components.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp b/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
index 499ffd2..43ac407 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
@@ -89,7 +89,7 @@ namespace ga {
             // A Ei + B Ei => (A + B) Ei
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient>
             struct condition<component<LeftCoefficient, BasisBlade>, component<RightCoefficient, BasisBlade> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient>
@@ -100,7 +100,7 @@ namespace ga {
             // A Ei + add<B Ei, ...> => (A + B) Ei + add<...>
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient, typename... RightNextArguments>
             struct condition<component<LeftCoefficient, BasisBlade>, add<component<RightCoefficient, BasisBlade>, RightNextArguments...> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient, typename... RightNextArguments>
@@ -111,7 +111,7 @@ namespace ga {
             // add<A Ei, ...> + B Ei => (A + B) Ei + add<...>
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient>
             struct condition<add<component<LeftCoefficient, BasisBlade>, LeftNextArguments...>, component<RightCoefficient, BasisBlade> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient>
@@ -122,7 +122,7 @@ namespace ga {
             // add<A Ei, ...> + add<B Ei, ...> => (A + B) Ei + (add<...> + add<...>)
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename... RightNextArguments>
             struct condition<add<component<LeftCoefficient, BasisBlade>, LeftNextArguments...>, add<component<RightCoefficient, BasisBlade>, RightNextArguments...> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename... RightNextArguments>
@@ -144,7 +144,7 @@ namespace ga {
             // A Ei + A Ej => add<A Ei, B Ej>
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
             struct condition<component<LeftCoefficient, LeftBasisBlade>, component<RightCoefficient, RightBasisBlade> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
@@ -155,7 +155,7 @@ namespace ga {
             // A Ei + add<B Ej, ...> => add<A Ei, B Ej, ...>
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
             struct condition<component<LeftCoefficient, LeftBasisBlade>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
@@ -166,7 +166,7 @@ namespace ga {
             // add<A Ei, ...> + B Ej => A Ei + (add<...> + B Ej)
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade>
             struct condition<add<component<LeftCoefficient, LeftBasisBlade>, LeftNextArguments...>, component<RightCoefficient, RightBasisBlade> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade>
@@ -177,7 +177,7 @@ namespace ga {
             // add<A Ei, ...> + add<B Ej, ...> => A Ei + (add<...> + add<B Ej, ...>)
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
             struct condition<add<component<LeftCoefficient, LeftBasisBlade>, LeftNextArguments...>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
-- 
2.43.0


From dda0e69ecf563797c8904f54eb0adaee6559671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 02/19] fix: keep the sign when simplifying the power of powers
 and products

(A^B)^C = A^(B*C) and (A*D)^C = A^C * D^C hold for real values only when A is
non-negative or C is an integer. Applying them always made rnorm(-3*e1) = -3,
unit(-3*e1) = +e1, and the reverse norm of runtime-defined blades NaN.
---
 .../core/expression_simplification_power.hpp  | 39 +++++++++++++++----
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index 68cef52..37af0d2 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -305,20 +305,23 @@ namespace ga {
         // Simplification rule to apply the distributivity property of power over multiplication.
         struct _power_rule_distributivity {
 
-            // Default (bind)
+            // Default
             template<typename LeftExpression, typename RightExpression>
             struct condition :
-                std::true_type {
+                std::false_type {
             };
 
             template<typename LeftExpression, typename RightExpression>
-            struct result {
-                using type = power<LeftExpression, RightExpression>;
-            };
+            struct result;
 
-            // (A * ...)^{B} => A^{B} * (...)^{C}
+            // (A * ...)^{B} => A^{B} * (...)^{B}, for A >= 0 or integer B
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
             struct condition<mul<LeftArgument, LeftNextArguments...>, RightExpression> :
+                std::bool_constant<is_non_negative_v<LeftArgument> > {
+            };
+
+            template<typename LeftArgument, typename... LeftNextArguments, default_integral_t RightValue>
+            struct condition<mul<LeftArgument, LeftNextArguments...>, constant_value<RightValue> > :
                 std::true_type {
             };
 
@@ -327,9 +330,14 @@ namespace ga {
                 using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
             };
 
-            // (A^{B})^{C} = A^{B * C} (simplify)
+            // (A^{B})^{C} = A^{B * C}, for A >= 0 or integer C (simplify)
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
             struct condition<power<LeftLeftArgument, LeftRightArgument>, RightExpression> :
+                std::bool_constant<is_non_negative_v<LeftLeftArgument> > {
+            };
+
+            template<typename LeftLeftArgument, typename LeftRightArgument, default_integral_t RightValue>
+            struct condition<power<LeftLeftArgument, LeftRightArgument>, constant_value<RightValue> > :
                 std::true_type {
             };
 
@@ -339,6 +347,20 @@ namespace ga {
             };
         };
 
+        // Rule for binding (no simplification applies).
+        struct _power_rule_bind {
+
+            template<typename LeftExpression, typename RightExpression>
+            struct condition :
+                std::true_type {
+            };
+
+            template<typename LeftExpression, typename RightExpression>
+            struct result {
+                using type = power<LeftExpression, RightExpression>;
+            };
+        };
+
         // Implementation of _power<LeftArgument, RightArgument> with values as argument.
         template<typename LeftArgument, typename RightArgument>
         struct _power :
@@ -347,7 +369,8 @@ namespace ga {
                     _power_rule_miscellaneous_1,
                     _power_rule_miscellaneous_2,
                     _power_rule_miscellaneous_3,
-                    _power_rule_distributivity
+                    _power_rule_distributivity,
+                    _power_rule_bind
                 >,
                 LeftArgument,
                 RightArgument
-- 
2.43.0


From 7c13740a64e7e734c02c70fde6ec0c41a872a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 03/19] fix: a reordering sign is not known to be non-negative

---
 cpp/include/gatl/ga/core/expression_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index b7edfcc..a0df463 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -344,7 +344,7 @@ namespace ga {
 
         template<typename LeftBitset, typename RightBitset>
         struct is_non_negative<reordering_sign<LeftBitset, RightBitset> > :
-            std::true_type {
+            std::false_type {
         };
 
         template<typename Bitset>
-- 
2.43.0


From e2f9f6d2be400d1c662e4ed21a8ed8b8340e1242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 04/19] fix: do not assume that a constant expression is
 negative in abs()

abs() of a constant expression not known to be non-negative returned its
negation, so abs(exp(c<1>)) was -e and abs(-cos(c<3>)) was cos(3).
---
 cpp/include/gatl/ga/core/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 824a7fb..a6aa6be 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -829,7 +829,7 @@ namespace ga {
                 is_non_negative_v<Value>,
                 Value,
                 std::conditional_t<
-                    is_constant_expression_v<Value> && !(is_function_v<name_t::add, Value> || is_function_v<name_t::if_else, Value>),
+                    is_constant_expression_v<Value> && is_non_negative_v<product_t<constant_value<-1>, Value, value_mapping> >,
                     product_t<constant_value<-1>, Value, value_mapping>,
                     function
                 >
-- 
2.43.0


From 5eee87862dc6508e2439980be030d75c7f667419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 05/19] Let Clang parse the headers when GATL_VERIFICATION is
 defined

---
 cpp/include/gatl/ga/core/general_metric_mapping.hpp | 8 ++++++++
 cpp/include/gatl/ga/core/type_traits_extension.hpp  | 2 ++
 cpp/include/gatl/ga/extra/write.hpp                 | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/cpp/include/gatl/ga/core/general_metric_mapping.hpp b/cpp/include/gatl/ga/core/general_metric_mapping.hpp
index 8e2e123..082a88f 100644
--- a/cpp/include/gatl/ga/core/general_metric_mapping.hpp
+++ b/cpp/include/gatl/ga/core/general_metric_mapping.hpp
@@ -225,7 +225,11 @@ namespace ga {
                 struct columns_summation;
                 
                 template<bitset_t ColumnBasisVectors>
+#if defined(GATL_VERIFICATION) // Clang does not see the default argument of the nested template here.
+                using columns_summation_t = typename columns_summation<ColumnBasisVectors, void>::type;
+#else
                 using columns_summation_t = typename columns_summation<ColumnBasisVectors>::type;
+#endif // defined(GATL_VERIFICATION)
 
                 template<bitset_t ColumnBasisVectors, typename _Dummy>
                 struct columns_summation {
@@ -249,7 +253,11 @@ namespace ga {
                 struct order_summation;
 
                 template<default_integral_t Order>
+#if defined(GATL_VERIFICATION) // Clang does not see the default argument of the nested template here.
+                using order_summation_t = typename order_summation<Order, void>::type;
+#else
                 using order_summation_t = typename order_summation<Order>::type;
+#endif // defined(GATL_VERIFICATION)
 
                 template<default_integral_t Order, typename _Dummy>
                 struct order_summation {
diff --git a/cpp/include/gatl/ga/core/type_traits_extension.hpp b/cpp/include/gatl/ga/core/type_traits_extension.hpp
index b9c543b..dbd5a2e 100644
--- a/cpp/include/gatl/ga/core/type_traits_extension.hpp
+++ b/cpp/include/gatl/ga/core/type_traits_extension.hpp
@@ -44,6 +44,7 @@ namespace ga {
         template<typename T>
         constexpr bool is_iterator_v = is_iterator<T>::value;
 
+#if !defined(GATL_VERIFICATION) // Clang does not deduce a return type from an initializer list.
         // Helper function to convert a tuple into a list-initialization structure.
         template<typename Tuple, std::size_t... Indices>
         GA_ALWAYS_INLINE constexpr decltype(auto) _to_list_initialization(Tuple &&tuple, std::index_sequence<Indices...>) GA_NOEXCEPT {
@@ -54,6 +55,7 @@ namespace ga {
         GA_ALWAYS_INLINE constexpr decltype(auto) to_list_initialization(Tuple &&tuple) GA_NOEXCEPT {
             return _to_list_initialization(std::move(tuple), std::make_index_sequence<std::tuple_size_v<std::remove_cv_t<std::remove_reference_t<Tuple> > > >{});
         }
+#endif // !defined(GATL_VERIFICATION)
 
     }
 
diff --git a/cpp/include/gatl/ga/extra/write.hpp b/cpp/include/gatl/ga/extra/write.hpp
index 2cd6300..f872957 100644
--- a/cpp/include/gatl/ga/extra/write.hpp
+++ b/cpp/include/gatl/ga/extra/write.hpp
@@ -162,7 +162,11 @@ namespace ga {
                     }
                 }
                 else {
+#if defined(GATL_VERIFICATION) // Clang finds this insertion ambiguous.
+                    os << 0;
+#else
                     os << c<0>;
+#endif // defined(GATL_VERIFICATION)
                 }
                 os << "]";
                 std::advance(map_citr, 1);
-- 
2.43.0


From 39b42d7a362326584044e7f2c8342205b9542fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 06/19] fix: dot and Hestenes products of runtime-defined basis
 blades

---
 cpp/include/gatl/ga/core/dot_product.hpp            | 3 +--
 cpp/include/gatl/ga/core/hestenes_inner_product.hpp | 8 +++-----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/cpp/include/gatl/ga/core/dot_product.hpp b/cpp/include/gatl/ga/core/dot_product.hpp
index 1eee9e5..a396b86 100644
--- a/cpp/include/gatl/ga/core/dot_product.hpp
+++ b/cpp/include/gatl/ga/core/dot_product.hpp
@@ -52,8 +52,7 @@ namespace ga {
 
             template<typename LeftGrade, typename RightGrade, typename ResultGrade>
             struct are_valid_grades {
-                using type = if_else_t<
-                    less_or_equal_t<LeftGrade, RightGrade>,
+                using type = logical_or_t<
                     equal_t<ResultGrade, addition_t<RightGrade, product_t<constant_value<-1>, LeftGrade, value_mapping> > >,
                     equal_t<ResultGrade, addition_t<LeftGrade, product_t<constant_value<-1>, RightGrade, value_mapping> > >
                 >;
diff --git a/cpp/include/gatl/ga/core/hestenes_inner_product.hpp b/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
index 6a8f7cf..046b8ea 100644
--- a/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
+++ b/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
@@ -52,11 +52,9 @@ namespace ga {
 
             template<typename LeftGrade, typename RightGrade, typename ResultGrade>
             struct are_valid_grades {
-                using type = if_else_t<
-                    logical_or_t<equal_t<LeftGrade, constant_value<0> >, equal_t<RightGrade, constant_value<0> > >,
-                    std::false_type,
-                    if_else_t<
-                        less_or_equal_t<LeftGrade, RightGrade>,
+                using type = logical_and_t<
+                    logical_and_t<less_or_equal_t<constant_value<1>, LeftGrade>, less_or_equal_t<constant_value<1>, RightGrade> >,
+                    logical_or_t<
                         equal_t<ResultGrade, addition_t<RightGrade, product_t<constant_value<-1>, LeftGrade, value_mapping> > >,
                         equal_t<ResultGrade, addition_t<LeftGrade, product_t<constant_value<-1>, RightGrade, value_mapping> > >
                     >
-- 
2.43.0


From 658f5a2fb3bdc8ae0c7c7fa4772edbcdfee9c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 07/19] fix: store the bits, not the value, of bitwise
 expressions of runtime-defined blades

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 3ef7987..e7d7dff 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -443,7 +443,7 @@ namespace ga {
         struct eval_clifford_expression<LowerTag, UpperTag, bitwise_uminus<Bitset> > :
             std::conditional_t<
                 std::is_same_v<eval_expression_t<LowerTag, UpperTag, Bitset>, stored_bitset>,
-                _eval_clifford_expression_store_value<LowerTag, UpperTag, bitwise_uminus<Bitset> >,
+                _eval_clifford_expression_store_bitset<LowerTag, UpperTag, bitwise_uminus<Bitset> >,
                 _eval_clifford_expression_move<LowerTag, UpperTag, bitwise_uminus_t<eval_expression_t<LowerTag, UpperTag, Bitset> >, Bitset>
             > {
         };
@@ -453,7 +453,7 @@ namespace ga {
         struct eval_clifford_expression<LowerTag, UpperTag, bitwise_dec<Bitset> > :
             std::conditional_t<
                 std::is_same_v<eval_expression_t<LowerTag, UpperTag, Bitset>, stored_bitset>,
-                _eval_clifford_expression_store_value<LowerTag, UpperTag, bitwise_dec<Bitset> >,
+                _eval_clifford_expression_store_bitset<LowerTag, UpperTag, bitwise_dec<Bitset> >,
                 _eval_clifford_expression_move<LowerTag, UpperTag, bitwise_dec_t<eval_expression_t<LowerTag, UpperTag, Bitset> >, Bitset>
             > {
         };
-- 
2.43.0


From dfa7a8498754fb4ba137eaf5a2258931dc0a1ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 08/19] fix: leftmost_set_bit() of bitsets above the eighth bit

---
 cpp/include/gatl/ga/core/constexpr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index a72a5db..6597811 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -81,7 +81,7 @@ namespace ga {
 
         // Returns the leftmost set bit in the given bitset.
         GA_ALWAYS_INLINE constexpr bitset_t _leftmost_set_bit_impl(bitset_t const arg, int const n) GA_NOEXCEPT {
-            return n != std::numeric_limits<bitset_t>::digits ? _leftmost_set_bit_impl(arg | (arg >> 1), n << 1) : ((arg >> 1) + bitset_t(1));
+            return n != std::numeric_limits<bitset_t>::digits ? _leftmost_set_bit_impl(arg | (arg >> n), n << 1) : ((arg >> 1) + bitset_t(1));
         }
 
         GA_ALWAYS_INLINE constexpr bitset_t leftmost_set_bit(bitset_t const arg) GA_NOEXCEPT {
-- 
2.43.0


From f8f8e259bf1f6de4867342546a62a5a98c66275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 09/19] fix: overflow of rightmost_set_bit() with the last bit
 of the bitset

---
 cpp/include/gatl/ga/core/constexpr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index 6597811..c184d29 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -90,7 +90,7 @@ namespace ga {
 
         // Returns the rightmost set bit in the given bitset.
         GA_ALWAYS_INLINE constexpr bitset_t rightmost_set_bit(bitset_t const arg) GA_NOEXCEPT {
-            return arg & -std::make_signed_t<bitset_t>(arg);
+            return bitset_t(arg & (~arg + bitset_t(1)));
         }
 
         // Returns the index of the set bit, assuming that there is a single set bit in the bitset.
-- 
2.43.0


From af959cc370b946f890fe18288edc9b865444080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 10/19] fix: keep the tolerance alive while grade(),
 take_largest_grade(), dp() and exp() use it

---
 cpp/include/gatl/ga/extra/blade_exponential.hpp | 5 +++--
 cpp/include/gatl/ga/extra/delta_product.hpp     | 3 ++-
 cpp/include/gatl/ga/extra/grade.hpp             | 6 ++++--
 cpp/include/gatl/ga/extra/take_grade.hpp        | 3 ++-
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/blade_exponential.hpp b/cpp/include/gatl/ga/extra/blade_exponential.hpp
index 7386055..ccb4a89 100644
--- a/cpp/include/gatl/ga/extra/blade_exponential.hpp
+++ b/cpp/include/gatl/ga/extra/blade_exponential.hpp
@@ -28,7 +28,8 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression, typename ToleranceType, typename MetricSpaceType>
     constexpr decltype(auto) exp(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol, metric_space<MetricSpaceType> const &) {
-        using lazy_context_type = decltype(make_lazy_context(arg, scalar(tol)));
+        auto const tol_ = scalar(tol);
+        using lazy_context_type = decltype(make_lazy_context(arg, tol_));
 
         using blade_expression = typename lazy_context_type::template argument_expression_t<0>;
         using tolerance_value = detail::coefficient_t<typename lazy_context_type::template argument_expression_t<1> >;
@@ -66,7 +67,7 @@ namespace ga {
             >
         >;
 
-        lazy_context_type const lazy = make_lazy_context(arg, scalar(tol));
+        lazy_context_type const lazy = make_lazy_context(arg, tol_);
         return lazy.eval(clifford_expression<default_integral_t, result_expression>());
     }
 
diff --git a/cpp/include/gatl/ga/extra/delta_product.hpp b/cpp/include/gatl/ga/extra/delta_product.hpp
index 97f5998..5dba663 100644
--- a/cpp/include/gatl/ga/extra/delta_product.hpp
+++ b/cpp/include/gatl/ga/extra/delta_product.hpp
@@ -28,7 +28,8 @@ namespace ga {
 
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType, typename MetricSpaceType>
     constexpr decltype(auto) dp(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, ToleranceType const &tol, metric_space<MetricSpaceType> const &mtr) GA_NOEXCEPT {
-        auto [lazy, lhs_, rhs_, tol_] = make_lazy_context_tuple(lhs, rhs, scalar(tol));
+        auto const scalar_tol = scalar(tol);
+        auto [lazy, lhs_, rhs_, tol_] = make_lazy_context_tuple(lhs, rhs, scalar_tol);
         return lazy.eval(take_largest_grade(gp(lhs_, rhs_, mtr), tol_));
     }
 
diff --git a/cpp/include/gatl/ga/extra/grade.hpp b/cpp/include/gatl/ga/extra/grade.hpp
index e659b71..0cab801 100644
--- a/cpp/include/gatl/ga/extra/grade.hpp
+++ b/cpp/include/gatl/ga/extra/grade.hpp
@@ -241,7 +241,8 @@ namespace ga {
     // Returns the ga::grade_result<Value> structure representing the grade of the given Clifford expression.
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr decltype(auto) grade(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) GA_NOEXCEPT {
-        auto lazy = make_lazy_context(arg, scalar(tol));
+        auto const tol_ = scalar(tol);
+        auto lazy = make_lazy_context(arg, tol_);
         return detail::make_grade_result(lazy.eval(scalar_clifford_expression<grade_t, detail::deduce_grade_result_t<typename decltype(lazy)::template argument_expression_t<0>, detail::coefficient_t<typename decltype(lazy)::template argument_expression_t<1> > > >()));
     }
 
@@ -263,7 +264,8 @@ namespace ga {
     // Returns a scalar expression with the largest grade part of a given Clifford expression such that it is not zero.
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr decltype(auto) largest_grade(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) GA_NOEXCEPT {
-        auto lazy = make_lazy_context(arg, scalar(tol));
+        auto const tol_ = scalar(tol);
+        auto lazy = make_lazy_context(arg, tol_);
         return lazy.eval(scalar_clifford_expression<grade_t, detail::deduce_largest_grade_result_t<typename decltype(lazy)::template argument_expression_t<0>, detail::coefficient_t<typename decltype(lazy)::template argument_expression_t<1> > > >());
     }
 
diff --git a/cpp/include/gatl/ga/extra/take_grade.hpp b/cpp/include/gatl/ga/extra/take_grade.hpp
index 614ec40..6570ccc 100644
--- a/cpp/include/gatl/ga/extra/take_grade.hpp
+++ b/cpp/include/gatl/ga/extra/take_grade.hpp
@@ -107,7 +107,8 @@ namespace ga {
     // Returns the portion of the given Clifford expression with the largest grade.
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr decltype(auto) take_largest_grade(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) GA_NOEXCEPT {
-        auto [lazy, arg_, tol_] = make_lazy_context_tuple(arg, scalar(tol));
+        auto const scalar_tol = scalar(tol);
+        auto [lazy, arg_, tol_] = make_lazy_context_tuple(arg, scalar_tol);
         return lazy.eval(take_grade(arg_, largest_grade(arg_, tol_)));
     }
 
-- 
2.43.0


From 3bf777b18ac2af88e7de43ed1077d40449a1818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 11/19] fix: exp() of a blade that is known to be null at
 compile time did not compile

---
 cpp/include/gatl/ga/extra/blade_exponential.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/blade_exponential.hpp b/cpp/include/gatl/ga/extra/blade_exponential.hpp
index ccb4a89..0e49df3 100644
--- a/cpp/include/gatl/ga/extra/blade_exponential.hpp
+++ b/cpp/include/gatl/ga/extra/blade_exponential.hpp
@@ -36,10 +36,12 @@ namespace ga {
 
         using signed_squared_alpha_value = detail::coefficient_t<detail::product_t<blade_expression, blade_expression, detail::metric_space_mapping_t<MetricSpaceType, detail::sp_mapping> > >;
         using squared_alpha_value = detail::absolute_t<signed_squared_alpha_value>;
-        using alpha_value = detail::power_t<squared_alpha_value, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >;
+        using is_null_blade = std::is_same<signed_squared_alpha_value, detail::constant_value<0> >; // the blade is known to be null at compile time
+        using alpha_value = detail::power_t<std::conditional_t<is_null_blade::value, detail::constant_value<1>, squared_alpha_value>, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >;
+        using null_test_type = std::conditional_t<is_null_blade::value, std::true_type, detail::less_or_equal_t<squared_alpha_value, tolerance_value> >;
 
         using scalar_coefficient_value = detail::if_else_t<
-            detail::less_or_equal_t<squared_alpha_value, tolerance_value>,
+            null_test_type,
             detail::constant_value<1>,
             detail::if_else_t<
                 detail::less_or_equal_t<signed_squared_alpha_value, detail::constant_value<0> >,
@@ -49,7 +51,7 @@ namespace ga {
         >;
 
         using blade_weight_value = detail::if_else_t<
-            detail::less_or_equal_t<squared_alpha_value, tolerance_value>,
+            null_test_type,
             detail::constant_value<1>,
             detail::if_else_t<
                 detail::less_or_equal_t<signed_squared_alpha_value, detail::constant_value<0> >,
-- 
2.43.0


From d4549c760008d79de4e94d8bac3221d800241473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 12/19] fix: vector() accepts scalar Clifford expressions as
 coordinates

---
 cpp/include/gatl/ga/util/vector.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/util/vector.hpp b/cpp/include/gatl/ga/util/vector.hpp
index bb275b4..6ffb337 100644
--- a/cpp/include/gatl/ga/util/vector.hpp
+++ b/cpp/include/gatl/ga/util/vector.hpp
@@ -89,17 +89,17 @@ namespace ga {
         private:
 
             template<typename ValueType, std::size_t Size, std::size_t... Indices>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> &&values, std::index_sequence<Indices...> const) GA_NOEXCEPT {
-                return std::tie(std::get<Indices>(std::move(values))...);
+            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> const &values, std::index_sequence<Indices...> const) GA_NOEXCEPT {
+                return std::make_tuple(*std::next(values.begin(), Indices)...);
             }
 
             template<typename ValueType, std::size_t Size>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> &&values) GA_NOEXCEPT {
-                return to_values_tuple(std::move(values), std::make_index_sequence<Size>{});
+            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> const &values) GA_NOEXCEPT {
+                return to_values_tuple(values, std::make_index_sequence<Size>{});
             }
 
             template<typename ValueType>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, 0> &&) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, 0> const &) GA_NOEXCEPT {
                 return std::make_tuple();
             }
 
@@ -117,6 +117,11 @@ namespace ga {
                 return std::tuple_cat(to_values_tuple(coord.values()), make_values_tuple(std::move(next_coords)...));
             }
 
+            template<typename CoefficientType, typename Coefficient, typename... NextTypes>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(scalar_clifford_expression<CoefficientType, Coefficient> &&coord, NextTypes &&... next_coords) GA_NOEXCEPT {
+                return std::tuple_cat(to_values_tuple(coord.values()), make_values_tuple(std::move(next_coords)...));
+            }
+
             template<typename... ValueTypes, std::size_t... Indices>
             GA_ALWAYS_INLINE constexpr static decltype(auto) to_sequential_storage(std::tuple<ValueTypes...> &&tuple, std::index_sequence<Indices...> const) GA_NOEXCEPT {
                 return make_sequential_storage(std::get<Indices>(std::move(tuple))...);
-- 
2.43.0


From 701ccd2265f74f37bd77fedb486a8364450b176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 13/19] fix: products by reciprocals of integral values divide
 in floating point

---
 cpp/include/gatl/ga/core/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index a6aa6be..9e43d25 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -1071,7 +1071,7 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                return LeftArgument::template eval<LowerTag, UpperTag>(args) / RightArgument::template eval<LowerTag, UpperTag>(args);
+                return LeftArgument::template eval<LowerTag, UpperTag>(args) / cast_to_floating_point(RightArgument::template eval<LowerTag, UpperTag>(args));
             }
 
             static_assert(!is_any_v<constant_value<0>, LeftArgument>, "The argument ga::detail::constant_value<0> is invalid.");
-- 
2.43.0


From c518e048278396f094dc57efb9a4bacdf34565a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 14/19] fix: powers with exponents K/3 are defined for negative
 bases

---
 cpp/include/gatl/ga/core/expression.hpp | 39 ++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 9e43d25..7265b99 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -948,6 +948,37 @@ namespace ga {
             }
         };
 
+        // Helper structure to identify the constant exponents K/3, which are defined for any base, and to retrieve K.
+        template<typename Exponent>
+        struct exponent_in_thirds {
+            constexpr static bool value = false;
+            constexpr static default_integral_t numerator = 0;
+        };
+
+        template<default_integral_t Value>
+        struct exponent_in_thirds<constant_value<Value> > {
+            constexpr static bool value = true;
+            constexpr static default_integral_t numerator = 3 * Value;
+        };
+
+        template<>
+        struct exponent_in_thirds<power<constant_value<3>, constant_value<-1> > > {
+            constexpr static bool value = true;
+            constexpr static default_integral_t numerator = 1;
+        };
+
+        template<default_integral_t Value>
+        struct exponent_in_thirds<mul<constant_value<Value>, power<constant_value<3>, constant_value<-1> > > > {
+            constexpr static bool value = true;
+            constexpr static default_integral_t numerator = Value;
+        };
+
+        template<typename... Arguments>
+        struct exponent_in_thirds<add<Arguments...> > {
+            constexpr static bool value = std::conjunction_v<exponent_in_thirds<Arguments>...>;
+            constexpr static default_integral_t numerator = (exponent_in_thirds<Arguments>::numerator + ... + 0);
+        };
+
         // Specializations of power<LeftArgument, RightArgument>.
         template<typename LeftArgument, typename RightArgument>
         struct function<name_t::power, LeftArgument, RightArgument> {
@@ -955,8 +986,14 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
+                using std::cbrt;
                 using std::pow;
-                return pow(LeftArgument::template eval<LowerTag, UpperTag>(args), RightArgument::template eval<LowerTag, UpperTag>(args));
+                if constexpr (exponent_in_thirds<RightArgument>::value && !std::is_same_v<RightArgument, constant_value<exponent_in_thirds<RightArgument>::numerator / 3> >) {
+                    return pow(cbrt(LeftArgument::template eval<LowerTag, UpperTag>(args)), exponent_in_thirds<RightArgument>::numerator);
+                }
+                else {
+                    return pow(LeftArgument::template eval<LowerTag, UpperTag>(args), RightArgument::template eval<LowerTag, UpperTag>(args));
+                }
             }
 
             static_assert(!std::is_same_v<LeftArgument, constant_value<0> >, "The left-hand side argument cannot be ga::detail::constant_value<0>.");
-- 
2.43.0


From 6c8c5b38ec25e9f21cd3090dfefa0ffdc8fe726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 15/19] fix: quotients of constants with negative denominators

---
 .../ga/core/expression_simplification_product_values.hpp     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
index 4d2d10e..d3996dd 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
@@ -39,6 +39,11 @@ namespace ga {
             using type = mul_t<constant_value<(sign(Numerator) * sign(Denominator)) * iabs(Numerator)>, power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >;
         };
 
+        template<default_integral_t Denominator>
+        struct simpler_rational_constant<-1, Denominator, 1> {
+            using type = typename std::conditional_t<(Denominator < 0), power<constant_value<iabs(Denominator)>, constant_value<-1> >, mul<constant_value<-1>, power<constant_value<iabs(Denominator)>, constant_value<-1> > > >::type;
+        };
+
         template<default_integral_t Numerator, default_integral_t Denominator>
         using simpler_rational_constant_t = typename simpler_rational_constant<Numerator, Denominator>::type;
 
-- 
2.43.0


From 9034735c5998fa9667701b681127bba556f28a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 16/19] fix: undual calls in the dual direction functions of
 the conformal and Minkowski models pass the pseudoscalar

---
 cpp/include/gatl/ga/model/conformal/flat_direction.hpp          | 2 +-
 cpp/include/gatl/ga/model/conformal/round_direction.hpp         | 2 +-
 cpp/include/gatl/ga/model/conformal/tangent_direction.hpp       | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp   | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp  | 2 +-
 .../gatl/ga/model/signed/minkowski/tangent_direction.hpp        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
index 8af2834..e826a60 100644
--- a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/conformal/round_direction.hpp b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
index 8909c0f..841b729 100644
--- a/cpp/include/gatl/ga/model/conformal/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
index 1e5c3bb..c4a9e49 100644
--- a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
index 8eb7eff..59135b2 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
index e81c864..9a12ba8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
index 1c8c4f0..a8fece8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
-- 
2.43.0


From 7b28bf51bf15fd1187bce4ad46834cacb380af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 17/19] fix: evaluation of a conditional inside another lazy
 context keeps its false branch

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index e7d7dff..f36246e 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -462,9 +462,9 @@ namespace ga {
         template<tag_t LowerTag, tag_t UpperTag, typename Test, typename TrueValue, typename FalseValue>
         struct eval_clifford_expression<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> > :
             std::conditional_t<
-                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> >,
+                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, FalseValue> >,
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, TrueValue> >, Test, TrueValue, FalseValue>
+                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, FalseValue> >, Test, TrueValue, FalseValue>
             > {
         };
         
-- 
2.43.0


From 37df2e9097a030d2d98bf9aa7927e08768189f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 18/19] fix: meet_and_join uses the caller's tolerance for the
 delta product

---
 cpp/include/gatl/ga/extra/meet_and_join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/meet_and_join.hpp b/cpp/include/gatl/ga/extra/meet_and_join.hpp
index 9c5e98a..7559f26 100644
--- a/cpp/include/gatl/ga/extra/meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/meet_and_join.hpp
@@ -51,7 +51,7 @@ namespace ga {
                 return std::make_pair(meet, join);
             }
 
-            auto const delta = dp(lhs, rhs, em);
+            auto const delta = dp(lhs, rhs, tol, em);
 
             grade_t const grade_delta = grade(delta, tol);
             grade_t const grade_meet = (grade_lhs + grade_rhs - grade_delta) >> 1;
-- 
2.43.0


From b5369b968f7b6c4bac155d09859bda0ee4a20b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 19/19] fix: let dp() take a multivector, a native scalar and a
 metric space

---
 cpp/include/gatl/ga/extra/delta_product.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/delta_product.hpp b/cpp/include/gatl/ga/extra/delta_product.hpp
index 5dba663..31816a3 100644
--- a/cpp/include/gatl/ga/extra/delta_product.hpp
+++ b/cpp/include/gatl/ga/extra/delta_product.hpp
@@ -98,7 +98,7 @@ namespace ga {
         return dp(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), detail::real_metric_space());
     }
 
-    template<typename LeftCoefficientType, typename LeftExpression, typename RightType, typename MetricSpaceType, std::enable_if_t<!is_clifford_expression_v<RightType> > = 0>
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightType, typename MetricSpaceType, std::enable_if_t<!is_clifford_expression_v<RightType>, int> = 0>
     constexpr decltype(auto) dp(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, RightType const &rhs, metric_space<MetricSpaceType> const &) GA_NOEXCEPT {
         return dp(lhs, scalar(rhs), default_tolerance<std::common_type_t<LeftCoefficientType, RightType> >(), detail::real_metric_space());
     }
-- 
2.43.0

