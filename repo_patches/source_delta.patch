From 2a56ce615554510870c20d7508fe6be13e6669e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 01/22] fix: binary local operation: second 1d argument was
 converted to the first argument's value type

---
 source/fern/algorithm/core/binary_local_operation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/binary_local_operation.h b/source/fern/algorithm/core/binary_local_operation.h
index 6cca36b..68a3c18 100644
--- a/source/fern/algorithm/core/binary_local_operation.h
+++ b/source/fern/algorithm/core/binary_local_operation.h
@@ -169,7 +169,7 @@ void operation_0d_1d(
                 output_no_data_policy.mark_as_no_data(i);
             }
             else {
-                const_reference<Value1> v2(get(value2, i));
+                const_reference<Value2> v2(get(value2, i));
 
                 if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                     // Input value is out of domain. Mark result value as
@@ -222,7 +222,7 @@ void operation_1d_1d(
         }
         else {
             const_reference<Value1> v1(get(value1, i));
-            const_reference<Value1> v2(get(value2, i));
+            const_reference<Value2> v2(get(value2, i));
 
             if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                 // Input value is out of domain. Mark result value as
-- 
2.43.0


From cd29e7535ddf0dbf5f12a5d1fd368167b1aa5531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 02/22] fix: clamp: parallel execution with bounds of different
 types did not compile, and the mixed-rank 1d overloads called the kernel for
 1d bounds

---
 source/fern/algorithm/core/detail/clamp.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fern/algorithm/core/detail/clamp.h b/source/fern/algorithm/core/detail/clamp.h
index 8702d52..bc1b062 100644
--- a/source/fern/algorithm/core/detail/clamp.h
+++ b/source/fern/algorithm/core/detail/clamp.h
@@ -411,7 +411,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_1d_1d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -507,9 +507,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_1d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -605,9 +605,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_0d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -717,7 +717,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -823,7 +823,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -929,7 +929,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_0d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
-- 
2.43.0


From 0248fa624a923bf1bbf940e61cda3ed91e7985b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 03/22] fix: count accumulator: merging under an out-of-range
 policy added one instead of the other count

---
 source/fern/algorithm/accumulator/count.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/count.h b/source/fern/algorithm/accumulator/count.h
index 1754768..016872a 100644
--- a/source/fern/algorithm/accumulator/count.h
+++ b/source/fern/algorithm/accumulator/count.h
@@ -173,10 +173,13 @@ template<
 template<
     template<typename, typename, typename> class OutOfRangePolicy>
 inline bool Count<Argument, Result>::operator|=(
-    Count const& /* other */)
+    Count const& other)
 {
-    // Value doesn't matter. We're counting, not summing.
-    return operator()<OutOfRangePolicy>(Argument{});
+    Result previous_count{_count};
+    _count += other._count;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_count, other._count, _count);
 }
 
 
-- 
2.43.0


From 3096941390af672d1dde2b52becdc895436058db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 04/22] fix: sum accumulator: merging under an out-of-range
 policy narrowed the other sum to the argument type

---
 source/fern/algorithm/accumulator/sum.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/sum.h b/source/fern/algorithm/accumulator/sum.h
index a4fac1e..78f2bec 100644
--- a/source/fern/algorithm/accumulator/sum.h
+++ b/source/fern/algorithm/accumulator/sum.h
@@ -193,7 +193,11 @@ template<
 inline bool Sum<Argument, Result>::operator|=(
     Sum const& other)
 {
-    return operator()<OutOfRangePolicy>(other._sum);
+    Result previous_sum{_sum};
+    _sum += other._sum;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_sum, other._sum, _sum);
 }
 
 
-- 
2.43.0


From 6d85c93c700bae6c49fd7ed216d7574e8be62f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:58 +0000
Subject: [PATCH 05/22] fix: add: adding an unsigned to a negative signed
 integer was reported as out of range

---
 source/fern/algorithm/algebra/elementary/detail/add.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index 8869f4c..2b3976c 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -129,7 +129,10 @@ struct within_range<
         FERN_STATIC_ASSERT(std::is_same, typename fern::algorithm::Result<
             Value1, Value2>::type, Result)
 
-        return value1 > 0 ? result >= value1 : result <= value1;
+        // signed + unsigned
+        // Something non-negative is added: overflow if result is smaller
+        // than the signed operand, whatever its sign.
+        return !(result < value1);
     }
 };
 
-- 
2.43.0


From 92d9b54293b520cfe6871e5906a42e966e2a0c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:22 +0000
Subject: [PATCH 06/22] fix: multiply: products equal to the smallest value of
 the result type were reported as out of range

---
 .../fern/algorithm/algebra/elementary/detail/multiply.h  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/multiply.h b/source/fern/algorithm/algebra/elementary/detail/multiply.h
index 37298ea..3e50169 100644
--- a/source/fern/algorithm/algebra/elementary/detail/multiply.h
+++ b/source/fern/algorithm/algebra/elementary/detail/multiply.h
@@ -93,7 +93,8 @@ struct within_range<
             }
             else {
                 // value1 is positive, value2 is negative.
-                return -value1 >= max<Result>() / value2;
+                return value2 == Value2(-1) ||
+                    value1 <= min<Result>() / value2;
             }
         }
         else {
@@ -103,7 +104,7 @@ struct within_range<
             }
             else {
                 // value1 is zero or negative, value2 is positive.
-                return value1 >= -max<Result>() / value2;
+                return value1 >= min<Result>() / value2;
             }
         }
     }
@@ -140,7 +141,9 @@ struct within_range<
             return value1 <= max<Result>() / value2;
         }
         else {
-            return value1 <= -max<Result>() / value2;
+            return value1 == Value1(0) || (value2 == Value2(-1)
+                ? value1 - 1 <= max<Result>()
+                : value1 <= min<Result>() / value2);
         }
     }
 };
-- 
2.43.0


From feeabf7d4c23d63bf09036ed5a82dd7274f5b398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 07/22] fix: cloning a 3D masked array used the size of the
 second dimension for the third

---
 .../fern/feature/core/data_customization_point/masked_array.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/feature/core/data_customization_point/masked_array.h b/source/fern/feature/core/data_customization_point/masked_array.h
index a936140..540c73b 100644
--- a/source/fern/feature/core/data_customization_point/masked_array.h
+++ b/source/fern/feature/core/data_customization_point/masked_array.h
@@ -124,7 +124,7 @@ inline MaskedArray<U, 3> clone(
     MaskedArray<V, 3> const& array)
 {
     return MaskedArray<U, 3>(
-        extents[array.shape()[0]][array.shape()[1]][array.shape()[1]]);
+        extents[array.shape()[0]][array.shape()[1]][array.shape()[2]]);
 }
 
 
-- 
2.43.0


From 6c9345ace80459dfda0a19c59e3e7f96581ed477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 08/22] fix: cloning a 3D raster passed two instead of three
 extents and did not compile

---
 source/fern/feature/core/data_customization_point/raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/feature/core/data_customization_point/raster.h b/source/fern/feature/core/data_customization_point/raster.h
index 2f5d1e5..a253598 100644
--- a/source/fern/feature/core/data_customization_point/raster.h
+++ b/source/fern/feature/core/data_customization_point/raster.h
@@ -146,7 +146,7 @@ inline Raster<U, 3> clone(
     Raster<V, 3> const& raster)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation());
 }
 
@@ -159,7 +159,7 @@ inline Raster<U, 3> clone(
     U const& value)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation(), value);
 }
 
-- 
2.43.0


From dbc947593ba8573c2b0ae4c92ba295bdca87292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 09/22] fix: cloning a scalar without an initial value was
 ambiguous

---
 source/fern/core/data_customization_point/scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/core/data_customization_point/scalar.h b/source/fern/core/data_customization_point/scalar.h
index f9581a0..0623b14 100644
--- a/source/fern/core/data_customization_point/scalar.h
+++ b/source/fern/core/data_customization_point/scalar.h
@@ -59,10 +59,10 @@ inline size_t size(
 template<
     typename U,
     typename V>
-inline U clone(
+inline CloneT<V, U> clone(
     V const& /* constant */)
 {
-    return U{};
+    return CloneT<V, U>{};
 }
 
 
-- 
2.43.0


From e59a0e750b70716cb2c1e0d17f52f5e9f16de6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 10/22] fix: ValueTypes::from_string copied flags that were not
 initialized yet

---
 source/fern/core/value_types.cc | 44 +++++++++++++++++----------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/source/fern/core/value_types.cc b/source/fern/core/value_types.cc
index 13f4ac1..a3ae1eb 100644
--- a/source/fern/core/value_types.cc
+++ b/source/fern/core/value_types.cc
@@ -18,27 +18,6 @@ namespace fern {
 // if type_traits.cc is built before this module, it won't have the correct
 // values yet (the value_types member will all be ValueTypes::UNKNOWN).
 
-// These strings should match the ones used in the XML schema.
-static std::map<std::string, ValueTypes> value_type_by_string = {
-    { "Bool"          , ValueTypes::BOOL             },
-    { "Char"          , ValueTypes::CHAR             },
-    { "Uint8"         , ValueTypes::UINT8            },
-    { "Int8"          , ValueTypes::INT8             },
-    { "Uint16"        , ValueTypes::UINT16           },
-    { "Int16"         , ValueTypes::INT16            },
-    { "Uint32"        , ValueTypes::UINT32           },
-    { "Int32"         , ValueTypes::INT32            },
-    { "Uint64"        , ValueTypes::UINT64           },
-    { "Int64"         , ValueTypes::INT64            },
-    { "Size"          , ValueTypes::SIZE             },
-    { "Float32"       , ValueTypes::FLOAT32          },
-    { "Float64"       , ValueTypes::FLOAT64          },
-    { "String"        , ValueTypes::STRING           },
-    { "Number"        , ValueTypes::NUMBER           },
-    { "All"           , ValueTypes::ALL              }
-};
-
-
 static std::map<ValueType, std::string> string_by_value_type = {
     { ValueType::VT_BOOL            , "Bool"           },
     { ValueType::VT_CHAR            , "Char"           },
@@ -84,6 +63,29 @@ std::vector<ValueType> const ValueTypes::VALUE_TYPES = {
 ValueTypes ValueTypes::from_string(
     std::string const& string)
 {
+    // The members of ValueTypes are initialized in another translation unit.
+    // They must not be copied before that has happened, so this table cannot
+    // be a variable at namespace scope.
+    // These strings should match the ones used in the XML schema.
+    static std::map<std::string, ValueTypes> value_type_by_string = {
+        { "Bool"          , ValueTypes::BOOL             },
+        { "Char"          , ValueTypes::CHAR             },
+        { "Uint8"         , ValueTypes::UINT8            },
+        { "Int8"          , ValueTypes::INT8             },
+        { "Uint16"        , ValueTypes::UINT16           },
+        { "Int16"         , ValueTypes::INT16            },
+        { "Uint32"        , ValueTypes::UINT32           },
+        { "Int32"         , ValueTypes::INT32            },
+        { "Uint64"        , ValueTypes::UINT64           },
+        { "Int64"         , ValueTypes::INT64            },
+        { "Size"          , ValueTypes::SIZE             },
+        { "Float32"       , ValueTypes::FLOAT32          },
+        { "Float64"       , ValueTypes::FLOAT64          },
+        { "String"        , ValueTypes::STRING           },
+        { "Number"        , ValueTypes::NUMBER           },
+        { "All"           , ValueTypes::ALL              }
+    };
+
     assert(!string.empty());
     assert(value_type_by_string.find(string) != value_type_by_string.end());
     return value_type_by_string[string];
-- 
2.43.0


From 66d4a4265dc723eef6f8e7bb76fb39aece05de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 11/22] fix: define the names of the GDAL value types that have
 a C++ type

---
 source/fern/io/gdal/gdal_value_type_traits.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/fern/io/gdal/gdal_value_type_traits.cc b/source/fern/io/gdal/gdal_value_type_traits.cc
index 87ac3aa..38ca741 100644
--- a/source/fern/io/gdal/gdal_value_type_traits.cc
+++ b/source/fern/io/gdal/gdal_value_type_traits.cc
@@ -14,6 +14,13 @@ namespace io {
 namespace gdal {
 
 std::string const GDALValueTypeTraits<GDT_Unknown>::name = "GDT_Unknown";
+std::string const GDALValueTypeTraits<GDT_Byte>::name = "GDT_Byte";
+std::string const GDALValueTypeTraits<GDT_UInt16>::name = "GDT_UInt16";
+std::string const GDALValueTypeTraits<GDT_Int16>::name = "GDT_Int16";
+std::string const GDALValueTypeTraits<GDT_UInt32>::name = "GDT_UInt32";
+std::string const GDALValueTypeTraits<GDT_Int32>::name = "GDT_Int32";
+std::string const GDALValueTypeTraits<GDT_Float32>::name = "GDT_Float32";
+std::string const GDALValueTypeTraits<GDT_Float64>::name = "GDT_Float64";
 std::string const GDALValueTypeTraits<GDT_CInt16>::name = "GDT_CInt16";
 std::string const GDALValueTypeTraits<GDT_CInt32>::name = "GDT_CInt32";
 std::string const GDALValueTypeTraits<GDT_CFloat32>::name = "GDT_CFloat32";
-- 
2.43.0


From d784bd25ba42f71bd638225c02d996454fc364b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 12/22] fix: a moved-from ScopeExit must not run the function
 again

---
 source/fern/core/scope_exit.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/source/fern/core/scope_exit.h b/source/fern/core/scope_exit.h
index 343b07d..3425f8f 100644
--- a/source/fern/core/scope_exit.h
+++ b/source/fern/core/scope_exit.h
@@ -69,7 +69,7 @@ public:
 
                    ScopeExit           (ScopeExit const& other)=delete;
 
-                   ScopeExit           (ScopeExit&& other)=default;
+                   ScopeExit           (ScopeExit&& other);
 
                    ~ScopeExit          () noexcept(noexcept(_function));
 
@@ -100,6 +100,23 @@ inline ScopeExit<Function>::ScopeExit(
 }
 
 
+/*!
+    @brief      Construct an instance by taking over the responsibility of
+                @a other.
+*/
+template<
+    typename Function>
+inline ScopeExit<Function>::ScopeExit(
+    ScopeExit&& other)
+
+    : _function(std::move(other._function)),
+      _execute_on_destruction(other._execute_on_destruction)
+
+{
+    other._execute_on_destruction = false;
+}
+
+
 /*!
     @brief      Destruct the instance.
 
-- 
2.43.0


From 8fce99098c6283c4a95c791b3daa54ccc744c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 13/22] fix: a moved-from GDAL dataset handle must not close
 the dataset

---
 source/fern/io/gdal/dataset_handle.cc | 29 ++++++++++++++++++++++++++-
 source/fern/io/gdal/dataset_handle.h  |  6 +++---
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/source/fern/io/gdal/dataset_handle.cc b/source/fern/io/gdal/dataset_handle.cc
index 5a523d9..2675ac7 100644
--- a/source/fern/io/gdal/dataset_handle.cc
+++ b/source/fern/io/gdal/dataset_handle.cc
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #include "fern/io/gdal/dataset_handle.h"
 #include <cassert>
+#include <utility>
 #include <gdal_priv.h>
 
 
@@ -28,12 +29,38 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Construct a handle by taking over the dataset of @a other.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other)
+
+    : _dataset(other._dataset)
+
+{
+    other._dataset = nullptr;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the GDAL dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    GDALClose(_dataset);
+    if(_dataset != nullptr) {
+        GDALClose(_dataset);
+    }
+}
+
+
+/*!
+    @brief      Exchange datasets with @a other.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other)
+{
+    std::swap(_dataset, other._dataset);
+    return *this;
 }
 
 
diff --git a/source/fern/io/gdal/dataset_handle.h b/source/fern/io/gdal/dataset_handle.h
index 7206c85..83261b9 100644
--- a/source/fern/io/gdal/dataset_handle.h
+++ b/source/fern/io/gdal/dataset_handle.h
@@ -33,19 +33,19 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other);
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other);
 
     GDALDataset*   operator->          ();
 
 private:
 
-    //! GDAL dataset.
+    //! GDAL dataset, or nullptr if another handle took it over.
     GDALDataset*   _dataset;
 
 };
-- 
2.43.0


From 08342525357c27470ba119f719c3d0d90b64eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 14/22] fix: a moved-from NetCDF dataset handle must not close
 the dataset

---
 source/fern/io/netcdf/core/dataset_handle.cc | 29 +++++++++++++++++++-
 source/fern/io/netcdf/core/dataset_handle.h  |  6 ++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/source/fern/io/netcdf/core/dataset_handle.cc b/source/fern/io/netcdf/core/dataset_handle.cc
index cc7785c..c96662c 100644
--- a/source/fern/io/netcdf/core/dataset_handle.cc
+++ b/source/fern/io/netcdf/core/dataset_handle.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/io/netcdf/core/dataset_handle.h"
+#include <utility>
 #include <netcdf.h>
 
 
@@ -26,12 +27,38 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Construct a handle by taking over the dataset of @a other.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other)
+
+    : _ncid(other._ncid)
+
+{
+    other._ncid = -1;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the NetCDF dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    static_cast<void>(nc_close(_ncid));
+    if(_ncid != -1) {
+        static_cast<void>(nc_close(_ncid));
+    }
+}
+
+
+/*!
+    @brief      Exchange datasets with @a other.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other)
+{
+    std::swap(_ncid, other._ncid);
+    return *this;
 }
 
 
diff --git a/source/fern/io/netcdf/core/dataset_handle.h b/source/fern/io/netcdf/core/dataset_handle.h
index 352f216..4165346 100644
--- a/source/fern/io/netcdf/core/dataset_handle.h
+++ b/source/fern/io/netcdf/core/dataset_handle.h
@@ -30,19 +30,19 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other);
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other);
 
     int            ncid                () const;
 
 private:
 
-    //! NetCDF dataset id.
+    //! NetCDF dataset id, or -1 if another handle took it over.
     int            _ncid;
 
 };
-- 
2.43.0


From 9584dca8e383702fcc5c67c00d30d39c8801ef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 15/22] fix: reading a GDAL raster of another type, or that
 cannot be read, throws IOError

---
 source/fern/io/gdal/detail/read.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 04d2552..1d7b3ce 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -64,15 +64,20 @@ inline void read(
     // Verify that the elements in the raster to read have the same value
     // type as the variable passed in.
     GDALDataType gdal_value_type{band->GetRasterDataType()};
-    assert(ValueTypeTraits<value_type>::gdal_value_type == gdal_value_type);
 
-    // TODO Exception if not.
+    if(gdal_value_type != ValueTypeTraits<value_type>::gdal_value_type) {
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE,
+                data_name.data_pathname().generic_string(),
+                GDALGetDataTypeName(gdal_value_type)));
+    }
 
     if(band->RasterIO(GF_Read, 0, 0, nr_cols, nr_rows, data(destination),
             nr_cols, nr_rows, ValueTypeTraits<value_type>::gdal_value_type,
             0, 0) != CE_None) {
-        // TODO
-        assert(false);
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages()[MessageId::CANNOT_BE_READ]);
     }
 
 
-- 
2.43.0


From 3f61845abaf9775ac0543e4f5bf88787baebbd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 16/22] fix: a no-data value the cell type cannot hold, or NaN,
 marks the right GDAL cells

---
 source/fern/io/gdal/detail/read.h | 33 ++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 1d7b3ce..b425868 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cmath>
+#include <type_traits>
 #include <gdal_priv.h>
 #include "fern/core/io_error.h"
 #include "fern/io/gdal/dataset.h"
@@ -18,6 +20,31 @@ namespace io {
 namespace gdal {
 namespace detail {
 
+/*!
+    @brief      Return whether @a value equals the no-data value of a GDAL
+                raster band.
+
+    GDAL represents the no-data value of each band as a double, whatever
+    the type of the elements is. An integral element type may not be able to
+    represent it. If it is not a number, then all elements that are not a
+    number are no-data.
+*/
+template<
+    typename T>
+inline bool is_no_data_value(
+    T const& value,
+    double no_data_value)
+{
+    if(std::is_integral<T>::value) {
+        return static_cast<double>(value) == no_data_value;
+    }
+
+    return std::isnan(no_data_value)
+        ? std::isnan(static_cast<double>(value))
+        : value == static_cast<T>(no_data_value);
+}
+
+
 template<
     typename OutputNoDataPolicy,
     typename Destination
@@ -82,8 +109,7 @@ inline void read(
 
 
     int has_no_data;
-    value_type gdal_no_data_value{static_cast<value_type>(
-        band->GetNoDataValue(&has_no_data))};
+    double const gdal_no_data_value{band->GetNoDataValue(&has_no_data)};
 
     // If the raster dataset contains a special no-data value,
     // then mark those special values as no-data values.
@@ -94,7 +120,8 @@ inline void read(
             index_ = index(destination, i, 0);
 
             for(size_t j = 0; j < size(destination, 1); ++j) {
-                if(get(destination, index_) == gdal_no_data_value) {
+                if(is_no_data_value(get(destination, index_),
+                        gdal_no_data_value)) {
                     output_no_data_policy.mark_as_no_data(index_);
                 }
 
-- 
2.43.0


From ff5fa962c104594559d1ce4c2cc03b65e0090035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 17/22] fix: asking for a raster band a GDAL dataset does not
 contain throws IOError

---
 source/fern/io/gdal/dataset.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/gdal/dataset.cc b/source/fern/io/gdal/dataset.cc
index ac8499c..b61e5e2 100644
--- a/source/fern/io/gdal/dataset.cc
+++ b/source/fern/io/gdal/dataset.cc
@@ -65,8 +65,8 @@ DatasetHandle open_dataset(
     @ingroup    fern_io_gdal_group
     @brief      Return the GDAL raster band @a band_id from @a dataset.
     @param      band_id Id of the raster band to return.
-    @todo       Raise IOError in case @a dataset does not contain a raster
-                band with id @a band_id.
+    @exception  IOError In case @a dataset does not contain a raster band
+                with id @a band_id.
 */
 GDALRasterBand* raster_band(
     DatasetHandle& dataset,
@@ -77,7 +77,10 @@ GDALRasterBand* raster_band(
     int nr_bands{dataset->GetRasterCount()};
 
     if(band_id > nr_bands) {
-        assert(false);
+        throw IOError(dataset->GetDescription(),
+            Exception::messages().format_message(
+                MessageId::DOES_NOT_CONTAIN_DATA,
+                "raster band " + std::to_string(band_id)));
     }
 
     GDALRasterBand* band{dataset->GetRasterBand(band_id)};
-- 
2.43.0


From dc78bf5391f3de0c7f5a77e50687ccb25517c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 18/22] fix: reading a COARDS variable of another type throws
 IOError, as documented

---
 source/fern/io/netcdf/coards/detail/read.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/fern/io/netcdf/coards/detail/read.h b/source/fern/io/netcdf/coards/detail/read.h
index d8dc702..6972ea8 100644
--- a/source/fern/io/netcdf/coards/detail/read.h
+++ b/source/fern/io/netcdf/coards/detail/read.h
@@ -90,7 +90,12 @@ inline void read_coards(
     // Verify that the requested variable has the same value type as the
     // variable passed in.
     ValueType value_type = netcdf::value_type_id(handle, variable_id);
-    assert(fern::value_type_id<fern::value_type<Destination>>() == value_type);
+    if(fern::value_type_id<fern::value_type<Destination>>() != value_type) {
+        throw IOError(pathname,
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE, variable_name,
+                TypeTraits<fern::value_type<Destination>>::name));
+    }
 
 
     // Read the variable.
-- 
2.43.0


From 1c6adaa35e7577c304b20b37e60d1e7e0612e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 19/22] fix: parallel copy of an empty range

---
 source/fern/algorithm/core/detail/copy.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/detail/copy.h b/source/fern/algorithm/core/detail/copy.h
index a095309..77ce84a 100644
--- a/source/fern/algorithm/core/detail/copy.h
+++ b/source/fern/algorithm/core/detail/copy.h
@@ -161,7 +161,11 @@ struct CopyByArgumentCategory<
         }
 
         std::vector<Position> position_per_block(ranges.size());
-        position_per_block[0] = position;
+
+        // In case the range is empty there are no blocks.
+        if(!position_per_block.empty()) {
+            position_per_block[0] = position;
+        }
 
         for(size_t i = 1; i < ranges.size(); ++i) {
             position_per_block[i] = get<0>(position_per_block[i - 1]) +
-- 
2.43.0


From 54c0bbbb1f6b78bdec2901fb6e9cd4bf3793897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 20/22] fix: unary aggregate operation: keep an out of range
 verdict about the first value

Given 2D values, adding the values following the first valid one overwrote
the fact that adding the first one went out of range. The result is no-data
in that case, as it is for 1D values.
---
 source/fern/algorithm/core/unary_aggregate_operation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/unary_aggregate_operation.h b/source/fern/algorithm/core/unary_aggregate_operation.h
index ea34091..3ee4999 100644
--- a/source/fern/algorithm/core/unary_aggregate_operation.h
+++ b/source/fern/algorithm/core/unary_aggregate_operation.h
@@ -262,7 +262,7 @@ std::tuple<bool, bool, Accumulator> operation_2d(
         }
 
         // Continue where the previous loop stopped.
-        if(accumulator_initialized) {
+        if(accumulator_initialized && result_within_range) {
 
             for(; i < end1; ++i) {
 
-- 
2.43.0


From 41f3843428b2428096c1aba32d6777eb0445884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 21/22] fix: binary aggregate operation: look for the first
 valid value in every row

The column index was not reset when a row turned out to hold no valid
values, so given 2D values whose first row is no-data, the result was no-data
whatever the other rows hold.
---
 source/fern/algorithm/core/binary_aggregate_operation.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index 99cc065..8e9b1e5 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -151,6 +151,7 @@ void operation_2d(
         // Initialize result.
         for(; i < end1; ++i) {
 
+            j = begin2;
             index_ = index(values, i, j);
 
             for(; j < end2; ++j) {
-- 
2.43.0


From 45e60bcde77a6524c7d5574590fed60e196eb169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 22/22] fix: a default constructed mode accumulator holds no
 value

---
 source/fern/algorithm/accumulator/mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/mode.h b/source/fern/algorithm/accumulator/mode.h
index d747d37..3f619c7 100644
--- a/source/fern/algorithm/accumulator/mode.h
+++ b/source/fern/algorithm/accumulator/mode.h
@@ -65,7 +65,7 @@ template<
     typename Result>
 inline Mode<Argument, Result>::Mode()
 
-    : _frequency_table(0)
+    : _frequency_table()
 
 {
 }
-- 
2.43.0

