From e2f40bd71afc2c0b2cad62fa15125ab7a7efb9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:27 +0000
Subject: [PATCH 01/76] fix: Console.WriteLine(UInt64) ends the line

---
 modules/rtlib/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/rtlib/system.cpp b/modules/rtlib/system.cpp
index fa9995e..8abed2f 100644
--- a/modules/rtlib/system.cpp
+++ b/modules/rtlib/system.cpp
@@ -138,7 +138,7 @@ namespace X_ROOT_NS::modules::rtlib {
 
     void console_write_uint64_line(rtlib_context_t & ctx)
     {
-        __console_write<ruint64_t>(ctx);
+        __console_write_line<ruint64_t>(ctx);
     }
 
     void console_write_float(rtlib_context_t & ctx)
-- 
2.43.0


From 1842555e12871dd1f589c01532cbb8abb0d46d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:33 +0000
Subject: [PATCH 02/76] fix: no debug print when an argument of a custom struct
 type is passed

---
 modules/compile/expression.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index eb964ab..77d3b0a 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1092,8 +1092,6 @@ namespace X_ROOT_NS::modules::compile {
             ref_t type_ref = __ref_of(ctx, atype);
             pool.append<x_stack_alloc_xil_t>(type_ref);
 
-            _PP(atype);
-
             exp->compile(ctx, pool);
         }
         else
-- 
2.43.0


From 307737cc69bb7381e86c10c87aec101d42fc94f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:10 +0000
Subject: [PATCH 03/76] fix: mixed uint and int operands are computed in 64
 bits; constant comparisons of char and bool

---
 modules/core/__vtype_traits.h        | 30 ++++++++++++++++++++++++++--
 modules/core/expression_executor.cpp | 22 ++++++++++----------
 2 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/modules/core/__vtype_traits.h b/modules/core/__vtype_traits.h
index 0b750a8..add9d2d 100644
--- a/modules/core/__vtype_traits.h
+++ b/modules/core/__vtype_traits.h
@@ -262,7 +262,11 @@ namespace X_ROOT_NS::modules::core {
 
             vnum_t operator() (vnum1_t v1)
             {
-                return (vnum_t)__op_t()(v1);
+                // -uint32 is an int64, it must be computed as an int64.
+                if constexpr (_op == operator_t::minus)
+                    return (vnum_t)__op_t()((vnum_t)v1);
+                else
+                    return (vnum_t)__op_t()(v1);
             }
         };
 
@@ -375,6 +379,20 @@ namespace X_ROOT_NS::modules::core {
 
     namespace
     {
+        // Whether a type is a signed integer of at most 32 bits.
+        template<typename _num_t>
+        constexpr bool __is_small_signed = std::is_same_v<_num_t, int8_t>
+            || std::is_same_v<_num_t, int16_t> || std::is_same_v<_num_t, int32_t>;
+
+        // Type that an operand is computed in: uint32 together with a signed integer is computed
+        // as int64 ( C++ would take uint32 ), other operands keep their types.
+        template<typename _num_t, typename _other_t>
+        using __operand_t = std::conditional_t<
+            (std::is_same_v<_num_t, uint32_t> && __is_small_signed<_other_t>)
+            || (std::is_same_v<_other_t, uint32_t> && __is_small_signed<_num_t>),
+            int64_t, _num_t
+        >;
+
         // Base class of binary operation.
         template<operator_t _op, vtype_t _t, vtype_t _t1, vtype_t _t2>
         struct __binary_operator_base_t
@@ -393,7 +411,15 @@ namespace X_ROOT_NS::modules::core {
 
             vnum_t operator() (vnum1_t v1, vnum2_t v2)
             {
-                return (vnum_t)__op_t()(v1, v2);
+                // The type of a shift depends on its left operand only.
+                if constexpr (_op == operator_t::left_shift || _op == operator_t::right_shift
+                    || _op == operator_t::left_shift_assign
+                    || _op == operator_t::right_shift_assign)
+                    return (vnum_t)__op_t()(v1, v2);
+                else
+                    return (vnum_t)__op_t()(
+                        (__operand_t<vnum1_t, vnum2_t>)v1, (__operand_t<vnum2_t, vnum1_t>)v2
+                    );
             }
         };
 
diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index c784173..6c4e3e2 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -230,10 +230,10 @@ namespace X_ROOT_NS::modules::core {
                 return __unitary_execute<operator_t::left_increment, df>(cv);
 
             case operator_t::left_decrement:
-                return __unitary_execute<operator_t::right_increment, df>(cv);
+                return __unitary_execute<operator_t::left_decrement, df>(cv);
 
             case operator_t::right_increment:
-                return __unitary_execute<operator_t::left_decrement, df>(cv);
+                return __unitary_execute<operator_t::right_increment, df>(cv);
 
             case operator_t::right_decrement:
                 return __unitary_execute<operator_t::right_decrement, df>(cv);
@@ -408,6 +408,10 @@ namespace X_ROOT_NS::modules::core {
                 case operator_t::sub:
                 case operator_t::equal:
                 case operator_t::not_equal:
+                case operator_t::greater:
+                case operator_t::greater_equal:
+                case operator_t::less:
+                case operator_t::less_equal:
 
                     switch (((int)v1.type << 8) | (int)v2.type)
                     {
@@ -417,10 +421,6 @@ namespace X_ROOT_NS::modules::core {
                     // continue case operator_t::add
 
                 case operator_t::add:
-                case operator_t::greater:
-                case operator_t::greater_equal:
-                case operator_t::less:
-                case operator_t::less_equal:
 
                     switch (((int)v1.type << 8) | (int)v2.type)
                     {
@@ -610,22 +610,22 @@ namespace X_ROOT_NS::modules::core {
                 return __binary_execute<operator_t::bit_xor_assign, d>(cv1, cv2);
 
             case operator_t::greater:
-                return __binary_execute<operator_t::greater, df>(cv1, cv2);
+                return __binary_execute<operator_t::greater, dfc>(cv1, cv2);
 
             case operator_t::greater_equal:
-                return __binary_execute<operator_t::greater_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::greater_equal, dfc>(cv1, cv2);
 
             case operator_t::less:
-                return __binary_execute<operator_t::less, df>(cv1, cv2);
+                return __binary_execute<operator_t::less, dfc>(cv1, cv2);
 
             case operator_t::less_equal:
-                return __binary_execute<operator_t::less_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::less_equal, dfc>(cv1, cv2);
 
             case operator_t::equal:
                 return __binary_execute<operator_t::equal>(cv1, cv2);
 
             case operator_t::not_equal:
-                return __binary_execute<operator_t::not_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::not_equal>(cv1, cv2);
 
             case operator_t::logic_and:
                 return __binary_execute<operator_t::logic_and, g_t::bool_>(cv1, cv2);
-- 
2.43.0


From 4c736449db660b4dd7e845f4c864e6bfa76c3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:49 +0000
Subject: [PATCH 04/76] fix: the operands of a conditional expression are
 converted to the type its context requires

---
 modules/lang_cs/expressions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/lang_cs/expressions.cpp b/modules/lang_cs/expressions.cpp
index 70fd96d..3bb84d6 100644
--- a/modules/lang_cs/expressions.cpp
+++ b/modules/lang_cs/expressions.cpp
@@ -39,24 +39,24 @@ namespace X_ROOT_NS::modules::lang_cs {
         {
             if (condition_value == true)
             {
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
             }
             else if (condition_value == false)
             {
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
             }
             else
             {
                 condition()->compile(ctx, pool);
                 jmp_xil_t * false_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::false_);
 
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
                 jmp_xil_t * finally_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::none);
 
                 if (false_jmp_xil != nullptr)
                     xil::append_label_xil(sctx, pool, false_jmp_xil);
 
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
 
                 xil::append_label_xil(sctx, pool, finally_jmp_xil);
             }
-- 
2.43.0


From eeb0d297b26ab7e541e8bb30892c6e301c17491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:26 +0000
Subject: [PATCH 05/76] fix: arrays are allocated with room for all their
 elements

The size of an array of two or more dimensions was computed from the first
dimension only, and the element size from the size of an object rather than
of the variable that holds it, so that elements overlapped later objects.
---
 include/modules/rt.h |  3 +++
 modules/mm/mm.cpp    | 15 +++++++--------
 modules/rt/rt.cpp    |  1 +
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/modules/rt.h b/include/modules/rt.h
index c219c6d..49f8ca6 100644
--- a/include/modules/rt.h
+++ b/include/modules/rt.h
@@ -1516,6 +1516,9 @@ namespace X_ROOT_NS::modules::rt {
         // Dimension
         dimension_t dimension = 0;
 
+        // Size of an element, known after pre_new.
+        msize_t element_size = unknown_msize;
+
         // Gets assembly.
         virtual rt_assembly_t * get_assembly() override final;
 
diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index d05be4f..88aef9b 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -139,9 +139,13 @@ namespace X_ROOT_NS::modules::mm {
 
         dimension_t dimension = type->dimension;
 
-        array_length_t length = *lengths;
-        size_t element_size = unit_align(1, type->element_type->get_size());
-        size_t size = _alignf(length * element_size, sizeof(rt_stack_unit_t));
+        array_length_t length = 1;
+        for (const l_t * l = lengths, * l_end = lengths + dimension; l < l_end; l++)
+        {
+            length *= *l;
+        }
+
+        size_t size = _alignf((size_t)length * type->element_size, sizeof(rt_stack_unit_t));
 
         void * obj;
         if (dimension == 1)
@@ -158,11 +162,6 @@ namespace X_ROOT_NS::modules::mm {
         }
         else if (dimension >= 2)
         {
-            for (const l_t * l = lengths + 1, * l_end = lengths + dimension; l < l_end; l++)
-            {
-                length *= *l;
-            }
-
             // type info + length of each dimensions + array length.
             const size_t extern_size = _alignf(
                 sizeof(rt_type_t *) + sizeof(array_length_t) * dimension + sizeof(array_length_t),
diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index bdcb780..4c1c168 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1800,6 +1800,7 @@ namespace X_ROOT_NS::modules::rt {
         _A(element_type != nullptr);
 
         element_type->pre_new(env);
+        element_size = element_type->get_variable_size(env);
     }
 
     // Gets ttype.
-- 
2.43.0


From c8bedf1ffda26571047230b9b2a8eeb45f7f25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:17 +0000
Subject: [PATCH 06/76] fix: every index of an array access is checked against
 its dimension

Negative indexes, indexes beyond the length of an inner dimension, and stores
whose value is used were not checked and reached memory outside the array.
---
 modules/exec/commands.cpp | 140 ++++++++++----------------------------
 1 file changed, 36 insertions(+), 104 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 5125de2..4dd60d5 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1162,72 +1162,31 @@ namespace X_ROOT_NS::modules::exec {
 
     //-------- ---------- ---------- ---------- ----------
 
-    namespace
+    // Pops the indexes of an array element and returns its position in the array, or -1 when
+    // an index is out of range. The lengths are accumulated from the last dimension.
+    __AlwaysInline static array_length_t __pop_array_index(executor_stack_t & stack,
+                                rt_ref_t array_ref, dimension_t dimension)
     {
-        namespace __mul_array_index_ns
-        {
-            typedef dimension_t         __d_t;
-            typedef array_length_t      __l_t;
-            typedef executor_stack_t    __stack_t;
+        array_length_t index = stack.pop<array_length_t>();
 
-            template<__d_t _d> struct __mul_t
-            {
-                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * ls)
-                {
-                    return stack.pop<__l_t>() * (*ls) + __mul_t<_d - 1>()(stack, ls - 1);
-                }
-            };
+        if (dimension < 2)
+            return index < mm::get_array_length(array_ref)? index : -1;
 
-            template<> struct __mul_t<0>
-            {
-                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * p)
-                {
-                    return 0;
-                }
-            };
-        }
+        array_length_t * lengths = mm::get_array_lengths(array_ref);
+        bool in_range = index >= 0 && index < *lengths;
 
-        template<dimension_t _dimension>
-        X_ALWAYS_INLINE array_length_t __mul_array_index(executor_stack_t & stack,
-                                                         array_length_t * lengths)
+        for (dimension_t d = 1; d < dimension; d++, lengths--)
         {
-            return __mul_array_index_ns::__mul_t<_dimension>()(stack, lengths);
-        }
-    }
-
-    __AlwaysInline static array_length_t __array_index(executor_stack_t & stack,
-                                dimension_t dimension, array_length_t * lengths)
-    {
-        array_length_t index = 0;
-        const dimension_t partical_dimension = 8;
+            array_length_t index0 = stack.pop<array_length_t>();
+            int64_t offset = (int64_t)index0 * *lengths;
 
-        while (true)
-        {
-            switch (dimension)
-            {
-                case 0: return index;
+            if (index0 < 0 || offset >= *(lengths - 1))
+                in_range = false;
 
-                #define __Case(_d)                                                      \
-                    case _d:                                                            \
-                        return index + __mul_array_index<_d>(stack, lengths);
-
-                __Case(2)
-                __Case(3)
-                __Case(4)
-                __Case(5)
-                __Case(6)
-                __Case(7)
-                __Case(8)
-
-                #undef __Case
-
-                default:
-                    index += __mul_array_index<partical_dimension>(stack, lengths);
-                    lengths -= partical_dimension;
-                    dimension -= partical_dimension;
-                    continue;
-            }
+            index += (array_length_t)offset;
         }
+
+        return in_range? index : -1;
     }
 
     //-------- ---------- ---------- ---------- ----------
@@ -1254,15 +1213,9 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-
-            if constexpr (_dimension >= 2)
-            {
-                array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
-            }
+            array_length_t index = __pop_array_index(ctx.stack, array_ref, _dimension);
 
-            if (index >= mm::get_array_length(array_ref))
+            if (index < 0)
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1295,12 +1248,9 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-            array_length_t * lengths = mm::get_array_lengths(array_ref);
+            array_length_t index = __pop_array_index(ctx.stack, array_ref, __This->__dimension);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
-
-            if (index >= mm::get_array_length(array_ref))
+            if (index < 0)
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1368,15 +1318,9 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-
-            if constexpr (_dimension >= 2)
-            {
-                array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
-            }
+            array_length_t index = __pop_array_index(ctx.stack, array_ref, _dimension);
 
-            if (index >= mm::get_array_length(array_ref))
+            if (index < 0)
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -1408,12 +1352,9 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-            array_length_t * lengths = mm::get_array_lengths(array_ref);
+            array_length_t index = __pop_array_index(ctx.stack, array_ref, __This->__dimension);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
-
-            if (index >= mm::get_array_length(array_ref))
+            if (index < 0)
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -2967,15 +2908,9 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
+            array_length_t index = __pop_array_index(ctx.stack, array_ref, _dimension);
 
-            if (_dimension >= 2)
-            {
-                array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
-            }
-
-            if (index >= mm::get_array_length(array_ref))
+            if (index < 0)
                 __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
@@ -3007,10 +2942,10 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-            array_length_t * lengths = mm::get_array_lengths(array_ref);
+            array_length_t index = __pop_array_index(ctx.stack, array_ref, __This->__dimension);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            if (index < 0)
+                __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pop<__value2_t>())
@@ -3541,13 +3476,10 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
+            array_length_t index = __pop_array_index(ctx.stack, array_ref, _dimension);
 
-            if (_dimension >= 2)
-            {
-                array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
-            }
+            if (index < 0)
+                __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
@@ -3578,10 +3510,10 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-            array_length_t * lengths = mm::get_array_lengths(array_ref);
+            array_length_t index = __pop_array_index(ctx.stack, array_ref, __This->__dimension);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            if (index < 0)
+                __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
-- 
2.43.0


From 457d42e25028d477582fb12d199b2645be9d6b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:10 +0000
Subject: [PATCH 07/76] fix: an assignment to an array element leaves its value
 when that is used

---
 modules/compile/__xil_struct.h | 12 ++++++++++++
 modules/compile/expression.cpp | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/modules/compile/__xil_struct.h b/modules/compile/__xil_struct.h
index ddc2afe..c487986 100644
--- a/modules/compile/__xil_struct.h
+++ b/modules/compile/__xil_struct.h
@@ -700,6 +700,18 @@ namespace X_ROOT_NS::modules::compile {
         }
     };
 
+    // Pick array element xil.
+    struct x_pick_array_element_xil_t : xil_extra_t<pick_xil_t>
+    {
+        typedef xil_extra_t<pick_xil_t> __super_t;
+
+        x_pick_array_element_xil_t(xil_type_t dtype, ref_t array_type_ref)
+            : __super_t(xil_storage_type_t::array_element, dtype)
+        {
+            this->set_ref(array_type_ref);
+        }
+    };
+
     //-------- ---------- ---------- ---------- ----------
     // Pick variable address.
 
diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 77d3b0a..69b9b80 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1258,9 +1258,18 @@ namespace X_ROOT_NS::modules::compile {
 
                 ref_t type_ref = __ref_of(ctx, array_type);
 
-                pool.append<x_pop_array_element_xil_t>(
-                    __to_xil_type(element_type), type_ref
-                );
+                if (pick)
+                {
+                    pool.append<x_pick_array_element_xil_t>(
+                        __to_xil_type(element_type), type_ref
+                    );
+                }
+                else
+                {
+                    pool.append<x_pop_array_element_xil_t>(
+                        __to_xil_type(element_type), type_ref
+                    );
+                }
 
             }   break;
 
-- 
2.43.0


From dde72c92625dc2dc1660ac4a316371b6cfb6dc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:53 +0000
Subject: [PATCH 08/76] fix: april exits with status 1 when compiling failed

---
 include/modules/april.h |  7 ++++---
 modules/april/april.cpp | 21 ++++++++++-----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/modules/april.h b/include/modules/april.h
index 29f09f9..615b797 100644
--- a/include/modules/april.h
+++ b/include/modules/april.h
@@ -304,7 +304,8 @@ namespace X_ROOT_NS::modules::april {
         april_t(april_options_t & options);
 
         // Executes.
-        void execute();
+        // Returns false when compiling failed.
+        bool execute();
 
         X_TO_STRING_IMPL(_T("april_t"))
 
@@ -314,10 +315,10 @@ namespace X_ROOT_NS::modules::april {
         typedef april_options_t __t;
 
         // Executes compiling command.
-        void __execute_compile(const __t::compile_options_t & options);
+        bool __execute_compile(const __t::compile_options_t & options);
 
         // Executes running command.
-        void __execute_run(const __t::run_options_t & options);
+        bool __execute_run(const __t::run_options_t & options);
 
         // Executes helping command.
         void __execute_help(const __t::help_options_t & options);
diff --git a/modules/april/april.cpp b/modules/april/april.cpp
index 5492315..466dfc6 100644
--- a/modules/april/april.cpp
+++ b/modules/april/april.cpp
@@ -398,17 +398,15 @@ Use \"april help [command] ...\" for more information about a command.      \n\
     }
 
     // Executes.
-    void april_t::execute()
+    bool april_t::execute()
     {
         switch (__options.command)
         {
             case april_command_t::compile:
-                __execute_compile(__options.get<__t::compile_options_t>());
-                break;
+                return __execute_compile(__options.get<__t::compile_options_t>());
 
             case april_command_t::run:
-                __execute_run(__options.get<__t::run_options_t>());
-                break;
+                return __execute_run(__options.get<__t::run_options_t>());
 
             case april_command_t::help:
                 __execute_help(__options.get<__t::help_options_t>());
@@ -421,18 +419,20 @@ Use \"april help [command] ...\" for more information about a command.      \n\
             default:
                 X_UNEXPECTED();
         }
+
+        return true;
     }
 
     // Executes compile command.
-    void april_t::__execute_compile(const __t::compile_options_t & options)
+    bool april_t::__execute_compile(const __t::compile_options_t & options)
     {
-        april_xcompiler_t(options).compile();
+        return april_xcompiler_t(options).compile();
     }
 
     // Executes run command.
-    void april_t::__execute_run(const __t::run_options_t & options)
+    bool april_t::__execute_run(const __t::run_options_t & options)
     {
-        april_xcompiler_t(options).run(options.execute_assembly);
+        return april_xcompiler_t(options).run(options.execute_assembly);
     }
 
     // Executes help command.
@@ -459,8 +459,7 @@ Use \"april help [command] ...\" for more information about a command.      \n\
             april_options_t options;
             if (options.parse(argc, argv))
             {
-                april_t(options).execute();
-                return 0;
+                return april_t(options).execute()? 0 : 1;
             }
         }
         catch (const error_t & err)
-- 
2.43.0


From 8cadd512d5aef2ab41bb0ff407a1566de88fd973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:44 +0000
Subject: [PATCH 09/76] fix: floating-point literals denote the nearest value,
 and exponents are read

---
 algorithm/numeric.cpp | 131 +++++++++++++++---------------------------
 1 file changed, 45 insertions(+), 86 deletions(-)

diff --git a/algorithm/numeric.cpp b/algorithm/numeric.cpp
index 0fd5376..d942583 100644
--- a/algorithm/numeric.cpp
+++ b/algorithm/numeric.cpp
@@ -23,7 +23,10 @@
 */
 
 #include <algorithm.h>
+#include <charconv>
 #include <cmath>
+#include <cstdlib>
+#include <string>
 
 namespace X_ROOT_NS::algorithm {
 
@@ -150,98 +153,41 @@ namespace X_ROOT_NS::algorithm {
             {
                 switch (c)
                 {
-                    case _T('.'):
-                        __point = true;
-                        if (__integer_zero)
-                            __point_zero_count++;
-                        return __e_t::success;
-
-                    case _T('E'): case _T('e'):
-                        __e = true;
-                        return __e_t::success;
-
-                    case _T('+'): case _T('-'):
-                        __ec = c;
-                        return __e_t::success;
-                }
-
-                if (!is_digit(c, 10))
-                    return __e_t::format_error;
-
-                int n = digit_value(c);
-
-                if (!__e)
-                {
-                    if (!__point)
-                    {
-                        __numeric = __numeric * 10 + n;
-                        if (n > 0)
-                            __integer_zero = false;
-                    }
-                    else
-                    {
-                        __numeric = __numeric + n * __point_mod;
-                        __point_mod /= 10;
-
-                        if (!__point_zero_end && n == 0 && __integer_zero)
-                            __point_zero_count++;
-                        else
-                            __point_zero_end = true;
-                    }
-
-                    if (std::isinf(__numeric))
-                        return __e_t::overflow;
-                }
-                else
-                {
-                    if (__pow > __pow_limit)
-                        return __e_t::overflow;
+                    case _T('.'): case _T('E'): case _T('e'): case _T('+'): case _T('-'):
+                        break;
 
-                    __pow = __pow * 10 + n;
+                    default:
+                        if (!is_digit(c, 10))
+                            return __e_t::format_error;
+                        break;
                 }
 
+                __text.push_back((char)c);
                 return __e_t::success;
             }
 
             // Commits to completed the paring operation.
             __AlwaysInline __e_t commit()
             {
-                if (__pow != 0)
-                {
-                    if (__point_zero_count > 0)
-                    {
-                        __numeric *= std::pow((_numeric_t)10.0, __point_zero_count);
-                        __pow -= __point_zero_count;
-                    }
+                const char * begin = __text.data(), * end = begin + __text.size();
+                std::from_chars_result r = std::from_chars(begin, end, __numeric);
 
-                    _numeric_t ev = std::pow((_numeric_t)10.0, __pow);
-                    if (std::isinf(ev))
-                        return __e_t::overflow;
-
-                    if (__ec == _T('+'))
-                        __numeric *= ev;
-                    else
-                        __numeric /= ev;
-
-                    if (std::isinf(__numeric))
-                        return __e_t::overflow;
+                if (r.ec == std::errc::result_out_of_range)
+                {
+                    // Either too large or too near to zero.
+                    __numeric = (_numeric_t)std::strtold(__text.c_str(), nullptr);
+                    return std::isinf(__numeric)? __e_t::overflow : __e_t::success;
                 }
 
+                if (r.ec != std::errc() || r.ptr != end)
+                    return __e_t::format_error;
+
                 return __e_t::success;
             }
 
         private:
             _numeric_t & __numeric;
-            bool         __point = false;
-            _numeric_t   __point_mod = (_numeric_t)0.1;
-            bool         __e = false;
-            char_t       __ec = _T('\0');
-            int32_t      __pow = 0;
-            int32_t      __point_zero_count = 0;
-            bool         __point_zero_end = false;
-            bool         __integer_zero = true;
-
-            static const int32_t __pow_limit = max_value<int32_t>() / 100;
+            std::string  __text;
         };
 
         //-------- ---------- ---------- ---------- ----------
@@ -442,6 +388,8 @@ namespace X_ROOT_NS::algorithm {
                                 return __p;
 
                             case _T('.'):
+                            case _T('E'):   case _T('e'):
+                            case _T('F'):   case _T('f'):
                                 return __p;
 
                             case _T('0'):
@@ -505,20 +453,12 @@ namespace X_ROOT_NS::algorithm {
                         break;
 
                     case _T('E'): case _T('e'):
-                        if (__radix == 10)
+                        if (__is_exponent())
                         {
                             __set_e(__p);
-                            if (*++__p != _T('+') && *__p != _T('-'))
-                            {
-                                __set_error(__e_t::format_error);
-                                goto label_default;
-                            }
 
-                            if (!is_digit(*++__p))
-                            {
-                                __set_error(__e_t::format_error);
-                                goto label_default;
-                            }
+                            if (*(__p + 1) == _T('+') || *(__p + 1) == _T('-'))
+                                ++__p;
                         }
                         else
                         {
@@ -583,6 +523,25 @@ namespace X_ROOT_NS::algorithm {
             }
         }
 
+        // Returns whether the current 'E' begins the exponent of a decimal, not a hex digit.
+        __AlwaysInline bool __is_exponent()
+        {
+            if (__radix == 16 || __radix == 2)
+                return false;
+
+            int k = 1;
+            if (*(__p + k) == _T('+') || *(__p + k) == _T('-'))
+                k++;
+
+            if (!is_digit(*(__p + k)))
+                return false;
+
+            while (is_digit(*(__p + k)))
+                k++;
+
+            return *(__p + k) != _T('H') && *(__p + k) != _T('h');
+        }
+
         // Parses with specified char array.
         __AlwaysInline tvalue_t __parse(const char_t * p, const char_t * p_end)
         {
-- 
2.43.0


From 3d36204101b9f68022603c461b34b0a01d6c35d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:44 +0000
Subject: [PATCH 10/76] fix: a cast literal is converted once

---
 modules/compile/expression.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 69b9b80..fb54ba7 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2613,7 +2613,12 @@ namespace X_ROOT_NS::modules::compile {
             __compile_cvalue(ctx, pool, cvalue, env);
         }
 
-        __post_compile_expression(ctx, pool, this, env);
+        // A number is already converted to the value type that is required.
+        type_t * type = nullptr;
+        if (is_number(cvalue) && env.type != nullptr && is_value_type(env.type))
+            type = env.type;
+
+        __post_compile_expression(ctx, pool, this, env, type);
     }
 
     ////////// ////////// ////////// ////////// //////////
-- 
2.43.0


From 4107bf667eddc62e54928ec2498d58c8cdddc479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:16 +0000
Subject: [PATCH 11/76] fix: malformed literals and comments are reported and
 fail the compilation

---
 modules/compile/__analyze_tree.h |  3 +++
 modules/compile/analyze_tree.cpp | 12 ++++++++++++
 modules/compile/token_reader.cpp | 13 +++++++++----
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/modules/compile/__analyze_tree.h b/modules/compile/__analyze_tree.h
index 4cf9c9d..8b4cb88 100644
--- a/modules/compile/__analyze_tree.h
+++ b/modules/compile/__analyze_tree.h
@@ -2081,6 +2081,9 @@ namespace X_ROOT_NS::modules::compile {
         // Reads next element.
         bool __read_next_element();
 
+        // Logs the error of a token.
+        void __log_token_error(token_t * token);
+
         // Appends a element.
         template<typename element_t>
         void __append_element(element_t element)
diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index 1d504de..056d8a7 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -3992,12 +3992,24 @@ namespace X_ROOT_NS::modules::compile {
         }
     }
 
+    // Logs the error of a token.
+    void analyzer_element_reader_t::__log_token_error(token_t * token)
+    {
+        multipy_logger_t logger(__context.compile_context);
+
+        xlogger_t(logger).log_error(token, __e_t::format_error, token->data->error->message);
+        output_code_description(logger, token);
+    }
+
     // Reads next element.
     __AlwaysInline bool analyzer_element_reader_t::__read_next_element()
     {
         token_t * token = __enumerator->next();
         if (token != nullptr)
         {
+            if (token->data != nullptr && token->data->error != nullptr)
+                __log_token_error(token);
+
             __append_element(token);
             return true;
         }
diff --git a/modules/compile/token_reader.cpp b/modules/compile/token_reader.cpp
index 4d7c2df..41a3b14 100644
--- a/modules/compile/token_reader.cpp
+++ b/modules/compile/token_reader.cpp
@@ -143,6 +143,7 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        __p--;      // Stay at the end of the source.
         return __new_token_data(e_t::comment_end_missing);
     }
 
@@ -157,7 +158,7 @@ namespace X_ROOT_NS::modules::compile {
 
         switch (code)
         {
-            case ne_t::__default__:
+            case ne_t::success:
                 error_code = e_t::__default__;
                 break;
 
@@ -355,7 +356,7 @@ namespace X_ROOT_NS::modules::compile {
         char_t ret_c = _T('\0');
         int c_count = 0;
         e_t error_code = e_t::__default__;
-        const char_t * error_message;
+        const char_t * error_message = nullptr;
 
         while (true)
         {
@@ -383,7 +384,7 @@ namespace X_ROOT_NS::modules::compile {
                 case _T('\r'): case _T('\n'): case _T('\0'):
                     error_code = e_t::char_format_error;
                     error_message = _T("missing terminating ' character");
-                    break;
+                    goto __end;
 
                 default:
                     ret_c = *__p++;
@@ -393,7 +394,11 @@ namespace X_ROOT_NS::modules::compile {
         }
 
     __end:
-        if (c_count == 0)
+        if (error_code != e_t::__default__)
+        {
+            // Already has an error.
+        }
+        else if (c_count == 0)
         {
             error_code = e_t::char_format_error;
             error_message = _T("empty character constant");
-- 
2.43.0


From 05580e83352b21d33a48b12857172ded73c26ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:16 +0000
Subject: [PATCH 12/76] fix: \f and the doubled quote of a verbatim string
 denote their characters

---
 modules/compile/token_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/compile/token_reader.cpp b/modules/compile/token_reader.cpp
index 41a3b14..1a85bc1 100644
--- a/modules/compile/token_reader.cpp
+++ b/modules/compile/token_reader.cpp
@@ -255,7 +255,7 @@ namespace X_ROOT_NS::modules::compile {
                 break;
 
             case _T('f'):
-                *out_c = _T('f');
+                *out_c = _T('\f');
                 break;
 
             default:
@@ -332,6 +332,7 @@ namespace X_ROOT_NS::modules::compile {
                         s << *(__p++);
                     else
                         goto __end;
+                    break;
 
                 case _T('\0'):
                     error_code = e_t::string_format_error;
-- 
2.43.0


From 6aa8a51c0065a865037cf17eb0e86baab3aa604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:29 +0000
Subject: [PATCH 13/76] fix: && and || evaluate their right operand only when
 it decides the result

---
 modules/compile/expression.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index fb54ba7..de85263 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -897,6 +897,25 @@ namespace X_ROOT_NS::modules::compile {
         }
     }
 
+    // Compiles a logic expression, exp2 is executed only when exp1 does not determine the result.
+    static void __compile_short_circuit(__cctx_t & ctx, xil_pool_t & pool,
+                                expression_t * exp1, expression_t * exp2,
+                                xil_jmp_model_t determined_model, bool determined_value)
+    {
+        statement_compile_context_t & sctx = ctx.statement_ctx;
+
+        exp1->compile(ctx, pool);
+        jmp_xil_t * determined_jmp_xil = xil::append_jmp_xil(pool, determined_model);
+
+        exp2->compile(ctx, pool);
+        jmp_xil_t * end_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::none);
+
+        xil::append_label_xil(sctx, pool, determined_jmp_xil);
+        __compile_number(ctx, pool, determined_value);
+
+        xil::append_label_xil(sctx, pool, end_jmp_xil);
+    }
+
     // Compiles logic and expression.
     static void __compile_logic_and(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
@@ -916,10 +935,7 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
-        exp1->compile(ctx, pool);
-        exp2->compile(ctx, pool);
-
-        pool.append<x_logic_xil_t>(xil_logic_command_t::and_);
+        __compile_short_circuit(ctx, pool, exp1, exp2, xil_jmp_model_t::false_, false);
     }
 
     // Compiles logic or expression.
@@ -941,10 +957,7 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
-        exp1->compile(ctx, pool);
-        exp2->compile(ctx, pool);
-
-        pool.append<x_logic_xil_t>(xil_logic_command_t::or_);
+        __compile_short_circuit(ctx, pool, exp1, exp2, xil_jmp_model_t::true_, true);
     }
 
     // Compiles logic not expression.
-- 
2.43.0


From 9bfb800d022a140156fa33b29a63e55224bd6440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:16 +0000
Subject: [PATCH 14/76] fix: postfix ++ and -- bind tighter than the prefix
 operators

---
 modules/core/core.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 0bdea18..12a9b45 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -345,10 +345,14 @@ namespace X_ROOT_NS::modules::core {
                 op_t::member_point                                      // .
             __EndPriority
 
+            // The postfix operators bind tighter than the prefix ones.
+            e.each(std::bind(set_priority, _2, __Pri(1) + 1),
+                op_t::right_increment,   op_t::right_decrement          // x-- x++
+            );
+
             __BeginPriority(2)
                 op_t::minus,             op_t::positive,                // - +
                 op_t::left_increment,    op_t::left_decrement,          // --x ++x
-                op_t::right_increment,   op_t::right_decrement,         // x-- x++
                 op_t::logic_not,         op_t::bit_not                  // ! ~
             __EndPriority
 
-- 
2.43.0


From 74b92477ecf310750d353562efae7b986bce48e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:49 +0000
Subject: [PATCH 15/76] fix: continue in a do loop goes to the condition

---
 modules/compile/statements.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 2ee30bf..94c111b 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -685,15 +685,18 @@ namespace X_ROOT_NS::modules::compile {
     {
         ctx.begin_region<__do_while_statement_region_t>();
 
-        set_point(ctx, __exit_point_type_t::continue_);
+        local_label_t label_body = ctx.next_local_label();
+        append_local_label(ctx, label_body);
+
         compile_statement(ctx, body);
+        set_point(ctx, __exit_point_type_t::continue_);
 
         cvalue_t condition_value = __remove_unreached_codes(ctx)?
                         execute_expression(condition) : cvalue_t::nan;
 
         if (condition_value == true || condition == nullptr)
         {
-            append_jmp(ctx, __exit_point_type_t::continue_);
+            append_jmp(ctx, label_body);
         }
         else if (condition_value == false)
         {
@@ -702,7 +705,7 @@ namespace X_ROOT_NS::modules::compile {
         else
         {
             append_expression(ctx, condition, true);
-            append_jmp(ctx, __exit_point_type_t::continue_, xil_jmp_model_t::true_);
+            append_jmp(ctx, label_body, xil_jmp_model_t::true_);
         }
 
         set_point(ctx, __exit_point_type_t::break_);
@@ -753,15 +756,18 @@ namespace X_ROOT_NS::modules::compile {
     {
         ctx.begin_region<__loop_until_statement_region_t>();
 
-        set_point(ctx, __exit_point_type_t::continue_);
+        local_label_t label_body = ctx.next_local_label();
+        append_local_label(ctx, label_body);
+
         compile_statement(ctx, body);
+        set_point(ctx, __exit_point_type_t::continue_);
 
         cvalue_t condition_value = __remove_unreached_codes(ctx)?
                         execute_expression(condition) : cvalue_t::nan;
 
         if (condition_value == false || condition == nullptr)
         {
-            append_jmp(ctx, __exit_point_type_t::continue_);
+            append_jmp(ctx, label_body);
         }
         else if (condition_value == true)
         {
@@ -770,7 +776,7 @@ namespace X_ROOT_NS::modules::compile {
         else
         {
             append_expression(ctx, condition, true);
-            append_jmp(ctx, __exit_point_type_t::continue_, xil_jmp_model_t::false_);
+            append_jmp(ctx, label_body, xil_jmp_model_t::false_);
         }
 
         set_point(ctx, __exit_point_type_t::break_);
-- 
2.43.0


From b3ca5128805156a31556c536d7757b052fd795ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:09 +0000
Subject: [PATCH 16/76] fix: a loop or a try statement whose end is reachable
 does not end the method

---
 modules/compile/statements.cpp | 61 +++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 94c111b..563017b 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -173,6 +173,19 @@ namespace X_ROOT_NS::modules::compile {
         return et == __exit_type_t::none || et.has(__exit_type_t::pass);
     }
 
+    // Returns exit type of a loop, may_end: whether the loop may end by its condition.
+    __exit_type_t __loop_exit_type(__e_exit_type_t et_body, bool may_end)
+    {
+        if (et_body.has(__exit_type_t::break_))
+            may_end = true;
+
+        et_body.remove(__exit_type_t::break_, __exit_type_t::continue_, __exit_type_t::pass);
+        if (may_end)
+            et_body.add(__exit_type_t::pass);
+
+        return *et_body;
+    }
+
     // Remove unreached codes.
     bool __remove_unreached_codes(statement_compile_context_t & ctx)
     {
@@ -724,12 +737,15 @@ namespace X_ROOT_NS::modules::compile {
             if (!et_body.has(__FreeExitFlags))
                 return __exit_type_t::dead_cycle;
 
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
+            return __loop_exit_type(et_body, false);
         }
 
+        // The condition is reached when the body passes or continues.
         __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        bool may_end = et_body == __exit_type_t::none
+            || et_body.has(__exit_type_t::pass) || et_body.has(__exit_type_t::continue_);
+
+        return __loop_exit_type(et_body, may_end);
     }
 
     X_DEFINE_TO_STRING(do_while_statement_t)
@@ -795,16 +811,19 @@ namespace X_ROOT_NS::modules::compile {
             if (!et_body.has(__FreeExitFlags))
                 return __exit_type_t::dead_cycle;
 
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
+            return __loop_exit_type(et_body, false);
         }
 
         // When condition always true.
         if (condition_value == true)
             return __exit_type_t::none;
 
+        // The condition is reached when the body passes or continues.
         __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        bool may_end = et_body == __exit_type_t::none
+            || et_body.has(__exit_type_t::pass) || et_body.has(__exit_type_t::continue_);
+
+        return __loop_exit_type(et_body, may_end);
     }
 
     X_DEFINE_TO_STRING(loop_until_statement_t)
@@ -869,12 +888,10 @@ namespace X_ROOT_NS::modules::compile {
             if (!et_body.has(__FreeExitFlags))
                 return __exit_type_t::dead_cycle;
 
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
+            return __loop_exit_type(et_body, false);
         }
 
-        __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __loop_exit_type(__exit_type(ctx, body), true);
     }
 
     X_DEFINE_TO_STRING(while_statement_t)
@@ -962,12 +979,10 @@ namespace X_ROOT_NS::modules::compile {
             if (!et_body.has(__FreeExitFlags))
                 return __exit_type_t::dead_cycle;
 
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
+            return __loop_exit_type(et_body, false);
         }
 
-        __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __loop_exit_type(__exit_type(ctx, body), true);
     }
 
     X_DEFINE_TO_STRING(for_statement_t)
@@ -1673,8 +1688,7 @@ namespace X_ROOT_NS::modules::compile {
             return et_finally;
 
         __e_exit_type_t et = __exit_type_of(ctx, try_statement);
-        if (!et.has(__exit_type_t::throw_))
-            return et;
+        bool pass = et == __exit_type_t::none;
 
         general_type_t * exception_type = __XPool.get_exception_type();
         for (catch_t * c : catches)
@@ -1683,6 +1697,21 @@ namespace X_ROOT_NS::modules::compile {
                 et.remove(__exit_type_t::throw_);
         }
 
+        for (catch_t * c : catches)
+        {
+            if (c == nullptr)
+                continue;
+
+            __e_exit_type_t et_catch = __exit_type_of(ctx, c->body);
+            if (et_catch == __exit_type_t::none)
+                pass = true;
+
+            et |= et_catch;
+        }
+
+        if (pass)
+            et.add(__exit_type_t::pass);
+
         return *et;
     }
 
-- 
2.43.0


From 68a6ae5b5d0288c07c8ddfa83e42ba469e4cc39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:09 +0000
Subject: [PATCH 17/76] fix: deeply nested parse states are not merged because
 their distant ancestors were forgotten

---
 modules/compile/analyze_tree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index 056d8a7..d2d4630 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -156,12 +156,14 @@ namespace X_ROOT_NS::modules::compile {
     // Sets merge identity.
     __AlwaysInline void __set_merge_identity(__stack_node_t * s)
     {
+        // Multiplying by an odd number keeps all the bits of the parent's identity, which
+        // shifting it would drop after a few levels.
         __merge_identity_t id = ((__merge_identity_t)(*s)->current << 3)
                                 ^ (__merge_identity_t)(*s)->node;
 
         __stack_node_t * p = s->parent;
         if (p != nullptr)
-            id ^= (((*p)->merge_identity) << 7);
+            id ^= (*p)->merge_identity * (__merge_identity_t)0x9E3779B97F4A7C15ULL;
 
         (*s)->merge_identity = id;
     }
-- 
2.43.0


From e086927cc507e0790b1c8c2ac95ecaab5424c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:03 +0000
Subject: [PATCH 18/76] fix: a sign after an operand is an operator also when
 it touches a number

---
 include/modules/lang_cs.h           | 10 ++++
 modules/lang_cs/cs_token_reader.cpp | 71 +++++++++++++++++++++++++++--
 2 files changed, 76 insertions(+), 5 deletions(-)

diff --git a/include/modules/lang_cs.h b/include/modules/lang_cs.h
index f91d54e..a474e6b 100644
--- a/include/modules/lang_cs.h
+++ b/include/modules/lang_cs.h
@@ -91,6 +91,16 @@ namespace X_ROOT_NS::modules::lang_cs {
 
     private:
         token_t * __next_token = nullptr;
+
+        // The latest tokens without comments, the last one first.
+        token_t * __latest[3] = { nullptr, nullptr, nullptr };
+
+        // Reads next token.
+        token_t * __read_next();
+
+        // Returns whether the latest token ends an operand, so that a sign following it
+        // is an operator.
+        bool __after_operand() const;
     };
 
     typedef ttoken_reader_t<cs_token_enumerator_t> cs_token_reader_t;
diff --git a/modules/lang_cs/cs_token_reader.cpp b/modules/lang_cs/cs_token_reader.cpp
index 56907e3..c979409 100644
--- a/modules/lang_cs/cs_token_reader.cpp
+++ b/modules/lang_cs/cs_token_reader.cpp
@@ -50,8 +50,72 @@ namespace X_ROOT_NS::modules::lang_cs {
         } while (false)
 
 
+    // Returns whether a token is a keyword of simple types, e.g. int.
+    static bool __is_type_keyword(const token_t * token)
+    {
+        switch ((w_t)token->value)
+        {
+            case w_t::k_bool:   case w_t::k_byte:   case w_t::k_char:   case w_t::k_decimal:
+            case w_t::k_double: case w_t::k_float:  case w_t::k_int:    case w_t::k_long:
+            case w_t::k_object: case w_t::k_sbyte:  case w_t::k_short:  case w_t::k_string:
+            case w_t::k_uint:   case w_t::k_ulong:  case w_t::k_ushort:
+                return true;
+
+            default:
+                return false;
+        }
+    }
+
+    // Returns whether the latest token ends an operand.
+    bool cs_token_enumerator_t::__after_operand() const
+    {
+        const token_t * last = __latest[0];
+        if (last == nullptr)
+            return false;
+
+        switch ((w_t)last->value)
+        {
+            case w_t::name:     case w_t::cvalue:   case w_t::right_square:
+            case w_t::k_this:   case w_t::k_base:
+            case w_t::k_true:   case w_t::k_false:  case w_t::k_null:
+            case w_t::left_increment:   case w_t::right_increment:
+            case w_t::left_decrement:   case w_t::right_decrement:
+                return true;
+
+            case w_t::right_bracket:    // (int)-1 is a type cast, others are operands.
+                return !(__latest[1] != nullptr && __is_type_keyword(__latest[1])
+                    && __latest[2] != nullptr && (w_t)__latest[2]->value == w_t::left_bracket);
+
+            case w_t::__unknown__:      // Tokens with some possible values.
+            {
+                const char_t * s = last->code_unit.s;
+                return al::is_word(s[0])
+                    || (last->code_unit.length == 2 && s[0] == s[1]
+                                                    && (s[0] == _T('+') || s[0] == _T('-')));
+            }
+
+            default:
+                return false;
+        }
+    }
+
     // Returns the next token.
     token_t * cs_token_enumerator_t::next()
+    {
+        token_t * token = __read_next();
+
+        if (token != nullptr && (w_t)token->value != w_t::comment)
+        {
+            __latest[2] = __latest[1];
+            __latest[1] = __latest[0];
+            __latest[0] = token;
+        }
+
+        return token;
+    }
+
+    // Reads the next token.
+    token_t * cs_token_enumerator_t::__read_next()
     {
         token_t * next_token;
 
@@ -64,7 +128,6 @@ namespace X_ROOT_NS::modules::lang_cs {
         char_t c;
         token_data_t * d;
         const __cptr_t p0 = __p;
-        cs_token_value_t value;
 
         switch ((c = *__p++))
         {
@@ -338,8 +401,7 @@ namespace X_ROOT_NS::modules::lang_cs {
                         return __Nw(add_assign);
 
                     default:
-                        if (is_numeric_prefix(*__p)
-                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue)
+                        if (is_numeric_prefix(*__p) && !__after_operand())
                         {
                             __p--;
                             return __Nw_(cvalue, __read_number());
@@ -361,8 +423,7 @@ namespace X_ROOT_NS::modules::lang_cs {
                         return __Nw(sub_assign);
 
                     default:
-                        if (is_numeric_prefix(*__p)
-                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue)
+                        if (is_numeric_prefix(*__p) && !__after_operand())
                         {
                             __p--;
                             return __Nw_(cvalue, __read_number());
-- 
2.43.0


From 6be4c0f722887c257073eb34e72f95d6d4707ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:21 +0000
Subject: [PATCH 19/76] fix: operators accept operands reached through this

---
 modules/core/core.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 12a9b45..e539f29 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -8023,7 +8023,7 @@ namespace X_ROOT_NS::modules::core {
     // Returns vtype of this expression.
     vtype_t this_expression_t::get_vtype() const
     {
-        return vtype_t::__unknown__;
+        return __type != nullptr? __type->this_vtype() : vtype_t::__unknown__;
     }
 
     // Returns type of this expression.
@@ -8050,7 +8050,7 @@ namespace X_ROOT_NS::modules::core {
     // Returns vtype of the base expression.
     vtype_t base_expression_t::get_vtype() const
     {
-        return vtype_t::__unknown__;
+        return __type != nullptr? __type->this_vtype() : vtype_t::__unknown__;
     }
 
     // Returns type of the base expression.
-- 
2.43.0


From b9f618807287e47cb8b525c14479fa69d4e4e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:45 +0000
Subject: [PATCH 20/76] fix: inherited fields and properties are visible by
 their simple names

---
 modules/compile/ast_utils.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index 14379f5..4e1c682 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1043,6 +1043,10 @@ namespace X_ROOT_NS::modules::compile {
                     name_exp->set(variable);
                 }
             }
+            else if ((variable = __inherited_variable(name)) != nullptr)
+            {
+                name_exp->set(variable);
+            }
             else
             {
                 if (!__walk_type(name_exp))
@@ -1050,6 +1054,32 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        // Returns the variable of a field or a property inherited from base types.
+        variable_t * __inherited_variable(name_t name)
+        {
+            type_t * current_type = __wctx.current_type();
+            type_t * base_type = current_type? current_type->get_base_type() : nullptr;
+
+            if (base_type == nullptr)
+                return nullptr;
+
+            for (member_type_t member_type : { member_type_t::field, member_type_t::property })
+            {
+                analyze_member_args_t args(member_type, name);
+                member_t * member = base_type->get_member(args, true);
+
+                if (member == nullptr || !check_access(current_type, member))
+                    continue;
+
+                if (member_type == member_type_t::field)
+                    return ((field_t *)member)->variable;
+
+                return ((property_t *)member)->variable;
+            }
+
+            return nullptr;
+        }
+
         // Walks name_unit expression.
         void __walk_name_unit(name_unit_expression_t * name_unit_exp)
         {
-- 
2.43.0


From bda4d4ee0579047b8ad3bdc0462eaab25fccdf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 21/76] fix: overrides bind to the latest virtual slot, and
 interface calls reach overrides of derived types

---
 modules/rt/rt.cpp | 66 +++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 4c1c168..94b8220 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -861,9 +861,11 @@ namespace X_ROOT_NS::modules::rt {
                 method_prototype_t prototype;
                 analyzer.get_prototype(method_ref, &prototype);
 
+                // Searches from the latest one, maybe a base type hides another virtual method.
                 bool found = false;
-                for (rt_vtable_function_t & func : vfuncs)
+                for (size_t k = vfuncs.size(); k > 0; k--)
                 {
+                    rt_vtable_function_t & func = vfuncs[k - 1];
                     rt_assembly_t * rt_assembly0 = env.assemblies.at(func.assembly_idx);
                     rt_method_t * rt_method0 = rt_assembly0->get_method(ref_t(func.method_idx));
                     assembly_analyzer_t analyzer0(env, rt_assembly0);
@@ -955,40 +957,33 @@ namespace X_ROOT_NS::modules::rt {
         return true;
     }
 
-    // Builds virtual functions for an interface method.
-    // Returns stop means stop build.
-    static bool __build_interface_override(assembly_analyzer_t & analyzer, rt_type_t * type,
-        __rt_interface_vfunctions_t & vfs, int index, rt_type_t * interface_type,
-        method_prototype_t & prototype)
+    // Replaces the virtual function of an interface method by the override of the raw type.
+    static void __build_interface_override(analyzer_env_t & env, rt_type_t * type,
+        __rt_interface_vfunction_t & vf, rt_type_t * raw_type,
+        const generic_param_manager_t * gp_mgr)
     {
-        _A(index < vfs.size());
-
-        analyzer_env_t & env = analyzer.env;
-        bool stop_build = false;
-
-        type->each_method(env, [&](ref_t ref, rt_method_base_t * method) {
+        __rt_vfunctions_t vfuncs, raw_vfuncs;
+        __build_vfunctions(env, type, vfuncs, gp_mgr);
 
-            if (method->get_owner_type(env) != nullptr)
-                return true;
+        for (size_t k = 0; k < vfuncs.size(); k++)
+        {
+            if (vfuncs[k].assembly_idx != vf.assembly_index
+                                        || vfuncs[k].method_idx != vf.method_index)
+                continue;
 
-            if (!__compare_method(env, prototype, method))
-                return true;
+            __build_vfunctions(env, raw_type, raw_vfuncs, gp_mgr);
+            _A(k < raw_vfuncs.size());
 
-            if (method->is_override())
-            {
-                vfs[index] = __rt_interface_vfunction_t {
-                    method, (uint32_t)type->get_assembly()->index, ref.index
-                };
-            }
-            else
-            {
-                stop_build = true;
-            }
+            rt_vfunction_t & func = raw_vfuncs[k];
+            rt_assembly_t * rt_assembly = env.assemblies.at(func.assembly_idx);
 
-            return false;
-        });
+            vf = __rt_interface_vfunction_t {
+                rt_assembly->get_method(ref_t(func.method_idx)),
+                (uint32_t)func.assembly_idx, (uint32_t)func.method_idx
+            };
 
-        return stop_build;
+            break;
+        }
     }
 
     // Builds virtual functions for interfaces.
@@ -1027,17 +1022,10 @@ namespace X_ROOT_NS::modules::rt {
             }
 
             rt_method_base_t * method1 = vfs[index].method;
-            if (method1->is_virtual() && method1->get_owner_type(env) == nullptr)
+            if ((method1->is_virtual() || method1->is_override())
+                && method1->get_owner_type(env) == nullptr && raw_type != type)
             {
-                rt_type_t * type1 = raw_type;
-                while (type1 != type)
-                {
-                    if (!__build_interface_override(analyzer, type1, vfs, index,
-                                                            interface_type, prototype))
-                        break;
-
-                    type1 = type1->get_base_type(env);
-                }
+                __build_interface_override(env, type, vfs[index], raw_type, gp_mgr);
             }
 
             index++;
-- 
2.43.0


From abb474526398643ec5651336a9e7d04fa48fe5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:57 +0000
Subject: [PATCH 22/76] fix: a constructor runs the constructor of its base
 type

---
 include/modules/core.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/modules/core.h b/include/modules/core.h
index 74f79a7..f77492b 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -7473,6 +7473,7 @@ namespace X_ROOT_NS::modules::core {
             : __super_t(arguments)
         {
             _A(method != nullptr);
+            this->set_method((method_base_t *)method);
         }
 
         expression_t    * namex         = nullptr;      // Name
-- 
2.43.0


From e64ade8dd5584ec139eb663e54dd925027340631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:09 +0000
Subject: [PATCH 23/76] fix: the default constructor of a class initialises its
 fields and constructs its base

---
 modules/compile/ast.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index 00d953a..00240c6 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -2721,7 +2721,7 @@ namespace X_ROOT_NS::modules::compile {
             if (it == std::end(this->methods))  // no constructor
             {
                 method_t * method = __append_default_constructor(context);
-                this->__delay(context, walk_step_t::analysis, method);
+                this->__delay(context, walk_step_t::analysis, (object_t *)method);
             }
             else
             {
@@ -2737,7 +2737,7 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
-        this->__delay(context, walk_step_t::analysis, new_default_constructor);
+        this->__delay(context, walk_step_t::analysis, (object_t *)new_default_constructor);
 
         return true;
     }
-- 
2.43.0


From c6591066cd3e45aa1f8db3378bc0dd3a36b969da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:19 +0000
Subject: [PATCH 24/76] fix: no debug print when equally good parses of stacked
 case labels are ordered

---
 modules/compile/analyze_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index d2d4630..36cb012 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -3472,7 +3472,7 @@ namespace X_ROOT_NS::modules::compile {
         // action back track
         int back_track1 = __leaf_action_back_track(leaf1);
         int back_track2 = __leaf_action_back_track(leaf2);
-        _PF(_T("back track: %1%, %2%"), back_track1, back_track2);
+        // _PF(_T("back track: %1%, %2%"), back_track1, back_track2);
         __LessReturn(back_track1, back_track2);
 
         // action index
-- 
2.43.0


From e1386709a74a33f815608f2d42845c1191648ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:55 +0000
Subject: [PATCH 25/76] fix: compiling a source of more than 32767 characters
 does not crash

---
 modules/compile/__token_reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/__token_reader.h b/modules/compile/__token_reader.h
index b6352f8..a5edc41 100644
--- a/modules/compile/__token_reader.h
+++ b/modules/compile/__token_reader.h
@@ -43,7 +43,7 @@ namespace X_ROOT_NS::modules::compile {
     ////////// ////////// ////////// ////////// //////////
 
     // Base class of token enumerator.
-    class token_enumerator_base_t : public token_enumerator_t, public object_t
+    class token_enumerator_base_t : public object_t, public token_enumerator_t
     {
     public:
 
-- 
2.43.0


From 3b50f2fa6510d9c1f562b274ac6833722e3af7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:55 +0000
Subject: [PATCH 26/76] fix: a small vector built from a range starts empty

---
 algorithm/__collections.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithm/__collections.h b/algorithm/__collections.h
index ae6ffae..bbaa485 100644
--- a/algorithm/__collections.h
+++ b/algorithm/__collections.h
@@ -666,6 +666,7 @@ namespace X_ROOT_NS::algorithm {
 
         // Constructor, with a initialize list.
         template<typename _itor_t> svector_t(_itor_t begin, _itor_t end)
+            : __p(__array)
         {
             for (; begin != end; begin++)
             {
-- 
2.43.0


From 3c31a89ff7d99355cb976b407d69e8e54a409a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:32 +0000
Subject: [PATCH 27/76] fix: exceptions leave methods with try statements and
 replace those pending in finally blocks

---
 include/modules/exec.h    | 74 +++++++++++++++++++++++++++++++++------
 modules/exec/commands.cpp | 11 +++---
 2 files changed, 68 insertions(+), 17 deletions(-)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index ea40ec2..a4d6d09 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -526,6 +526,20 @@ namespace X_ROOT_NS::modules::exec {
             __release_node(this->head);
             this->head = this->head->next;
         }
+
+        // Removes an exception that is replaced by another one.
+        __AlwaysInline void remove(__node_t * node) _NE
+        {
+            for (__node_t ** p = &this->head; *p != nullptr; p = &(*p)->next)
+            {
+                if (*p == node)
+                {
+                    *p = node->next;
+                    __release_node(node);
+                    return;
+                }
+            }
+        }
     };
 
     ////////// ////////// ////////// ////////// //////////
@@ -608,6 +622,9 @@ namespace X_ROOT_NS::modules::exec {
                 }
             }
 
+            if (block == block_end)
+                return;
+
             while ((block = block->parent) != nullptr)
             {
                 if (__MatchBlockType(block) && !f(block))
@@ -651,7 +668,10 @@ namespace X_ROOT_NS::modules::exec {
         block_node_t(__identity_t identity, exec_method_block_t * block,
                 exception_node_t * exception_node = nullptr) _NE
             : block(block), exception_node(exception_node), identity(identity)
-        { }
+        {
+            if (exception_node != nullptr)
+                exception = exception_node->exception;
+        }
 
         // Group identity.
         __identity_t identity;
@@ -662,6 +682,12 @@ namespace X_ROOT_NS::modules::exec {
         // Exception node.
         exception_node_t * exception_node;
 
+        // The exception to catch, the exception node may be reused before it's catched.
+        rt_ref_t exception;
+
+        // The exception which leaves the method after this finally block executed.
+        exception_node_t * pending_exception = nullptr;
+
         // The action after finally block executed.
         __action_t action = __action_t::default_;
 
@@ -744,6 +770,41 @@ namespace X_ROOT_NS::modules::exec {
             return false;
         }
 
+        // The end of a group for an exception.
+        // The blocks of this method that the exception leaves would not be executed any more.
+        __AlwaysInline void end_exception_group(exception_stack_t & exception_stack, bool catched) _NE
+        {
+            auto is_left = [&](__node_t * node) {
+                return node->identity == __identity
+                    && (!catched || __current->block->include(node->block));
+            };
+
+            while (__old_head != nullptr && is_left(__old_head))
+            {
+                __release_node(__old_head);
+                __old_head = __old_head->next;
+            }
+
+            if (__current != nullptr)
+                __current->next = __old_head;
+            else
+                this->head = __old_head;
+
+            while (__executing != nullptr && is_left(__executing))
+            {
+                if (__executing->pending_exception != nullptr)
+                    exception_stack.remove(__executing->pending_exception);
+
+                pop_executing();
+            }
+
+            if (__current != nullptr && !catched)
+            {
+                for (__node_t * node = this->head; node != __old_head; node = node->next)
+                    node->pending_exception = exception_stack.head;
+            }
+        }
+
         // Returns last node that enqueue.
         __AlwaysInline __node_t * last_current() _NE
         {
@@ -793,15 +854,8 @@ namespace X_ROOT_NS::modules::exec {
 
             this->head = node->next;
 
-            if (__executing == nullptr)
-            {
-                __executing = node;
-            }
-            else
-            {
-                node->next = __executing;
-                __executing = node;
-            }
+            node->next = __executing;
+            __executing = node;
 
             return node;
         }
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 4dd60d5..5608502 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -5745,7 +5745,7 @@ namespace X_ROOT_NS::modules::exec {
         if (node->exception_node != nullptr)
         {
             ctx.block_queue.deque();
-            ctx.stack.push(node->exception_node->exception);
+            ctx.stack.push(node->exception);
             ctx.current = node->block->entry_point;
         }
         else    // Finally block.
@@ -5780,6 +5780,7 @@ namespace X_ROOT_NS::modules::exec {
 
     __continue_find__:
 
+        bool catched = false;
         ctx.block_queue.begin_group(ctx.stack.lp());
 
         __find_block<__block_type_t::__unknown__>(ctx, [&](exec_method_block_t * block) {
@@ -5792,6 +5793,7 @@ namespace X_ROOT_NS::modules::exec {
                     {
                         ctx.block_queue.enque_catch(block, node);
                         ctx.pop_exception();
+                        catched = true;
 
                         return false;
                     }
@@ -5807,12 +5809,7 @@ namespace X_ROOT_NS::modules::exec {
             }
         });
 
-        if (ctx.block_queue.end_group())
-        {
-            _A(ctx.block_queue.current_executing() != nullptr);
-
-            ctx.block_queue.pop_executing();
-        }
+        ctx.block_queue.end_exception_group(ctx.exception_stack, catched);
 
         // Pop to calling method.
         block_node_t * last_node = ctx.block_queue.last_current();
-- 
2.43.0


From 7c51849645e971b92acef58c1387e8d8ab0195c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 28/76] fix: a value returned from a try statement is evaluated
 before its finally blocks run

---
 include/modules/exec.h         |  6 ++++++
 modules/compile/__xilx.h       |  7 +++++--
 modules/compile/statements.cpp |  7 ++-----
 modules/compile/xilx.cpp       |  3 +++
 modules/exec/commands.cpp      | 28 ++++++++++++++++++++++------
 5 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index a4d6d09..fac6b27 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -700,6 +700,12 @@ namespace X_ROOT_NS::modules::exec {
             command_t * following_command;
         };
 
+        // The return value, kept while finally blocks executing.
+        rt_stack_unit_t return_value;
+
+        // Whether there is a return value.
+        bool has_return_value = false;
+
         // Sets next command.
         __AlwaysInline void set_next_command(command_t ** next_command) _NE
         {
diff --git a/modules/compile/__xilx.h b/modules/compile/__xilx.h
index 3d59a6f..942d9c6 100644
--- a/modules/compile/__xilx.h
+++ b/modules/compile/__xilx.h
@@ -178,13 +178,16 @@ namespace X_ROOT_NS::modules::compile {
     public:
 
         // Constructor.
-        return_xilx_t(__region_t & region, expression_t * expression)
+        return_xilx_t(__region_t & region, expression_t * expression, bool need_leave = false)
             : __super_t(region)
-            , expression(expression) { }
+            , expression(expression), need_leave(need_leave) { }
 
         // Return expression.
         expression_t * expression;
 
+        // Whether leaves protected regions, after the expression evaluated.
+        bool need_leave;
+
         // Writes xilx to a pool.
         virtual void write(__xw_context_t & ctx, xil_pool_t & pool) override;
 
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 563017b..b7fd1d2 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -661,17 +661,14 @@ namespace X_ROOT_NS::modules::compile {
     // Compiles this statement.
     void return_statement_t::compile(statement_compile_context_t & ctx) 
     {
-        // Insert leave command before return in protected regions.
-        if (__need_leave(ctx))
-            xilx::append_xilx<leave_ret_xilx_t>(ctx);
-
         if (expression != nullptr)
         {
             __walk_variables(expression);
             set_assign_parent(expression);
         }
 
-        append_xilx<return_xilx_t>(ctx, expression);
+        // Insert leave command before return in protected regions.
+        append_xilx<return_xilx_t>(ctx, expression, __need_leave(ctx));
     }
 
     // Returns exit type.
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 40f49e2..20f2926 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -492,6 +492,9 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        if (need_leave)
+            xil::append_jmp_xil(pool, xil_jmp_model_t::leave);
+
         xil::append_ret(pool);
     }
 
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 5608502..cea7005 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -5852,7 +5852,7 @@ namespace X_ROOT_NS::modules::exec {
 
     // Process finally blocks. ( for return )
     void __process_finally_for_return(command_execute_context_t & ctx,
-                                                     command_t * return_command)
+                                     command_t * return_command, bool has_return_value)
     {
         ctx.block_queue.begin_group(ctx.stack.lp());
 
@@ -5867,6 +5867,13 @@ namespace X_ROOT_NS::modules::exec {
         {
             // Executes finally blocks.
             last_node->set_following_command(return_command);
+
+            if (has_return_value)
+            {
+                last_node->has_return_value = true;
+                last_node->return_value = ctx.stack.pop<rt_stack_unit_t>();
+            }
+
             __process_block_nodes(ctx);
         }
         else
@@ -5956,6 +5963,10 @@ namespace X_ROOT_NS::modules::exec {
 
                 case block_node_finally_action_t::execute_following_command:
                     _A(node->following_command != nullptr);
+
+                    if (node->has_return_value)
+                        ctx.stack.push(node->return_value);
+
                     __execute_command(ctx, node->following_command);
                     return;
 
@@ -6170,8 +6181,8 @@ namespace X_ROOT_NS::modules::exec {
     public:
 
         // Constructors.
-        __leave_ret_command_t(command_t * following_command) _NE
-            : __following_command(following_command)
+        __leave_ret_command_t(command_t * following_command, bool has_return_value) _NE
+            : __following_command(following_command), __has_return_value(has_return_value)
         {
             _A(following_command != nullptr);
         }
@@ -6179,7 +6190,8 @@ namespace X_ROOT_NS::modules::exec {
         // Execute
         __BeginExecute(ctx)
 
-            __process_finally_for_return(ctx, __This->__following_command);
+            __process_finally_for_return(ctx, __This->__following_command,
+                                              __This->__has_return_value);
 
         __EndExecute()
 
@@ -6193,6 +6205,7 @@ namespace X_ROOT_NS::modules::exec {
 
     private:
         command_t * __following_command;
+        bool __has_return_value;
     };
 
     //-------- ---------- ---------- ---------- ----------
@@ -6268,7 +6281,7 @@ namespace X_ROOT_NS::modules::exec {
 
         static __command_manager_t<
             __leave_ret_command_template_t
-        >::with_args_t<command_t *> __leave_ret_command_manager;
+        >::with_args_t<command_t *, bool> __leave_ret_command_manager;
 
         typedef xil_jmp_model_t model_t;
 
@@ -6293,8 +6306,11 @@ namespace X_ROOT_NS::modules::exec {
             case xil_jmp_model_t::leave:
                 if (xil.step() == 0)
                 {
+                    rt_type_t * ret_type = ctx.method->get_return_type(ctx.env);
+
                     return __leave_ret_command_manager.template get_command<__JmpCmd(leave)>(
-                        new_ret_command(ctx)
+                        new_ret_command(ctx),
+                        ctx.ret_unit_size() > 0 && !is_custom_struct(ctx.env, ret_type)
                     );
                 }
 
-- 
2.43.0


From 6251a4fe71c57390992b2872085ff38df92ab4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:45 +0000
Subject: [PATCH 29/76] fix: a class may declare overrides and new virtual
 methods in any order

---
 modules/core/assembly_writer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/core/assembly_writer.cpp b/modules/core/assembly_writer.cpp
index 82cd460..150dcdb 100644
--- a/modules/core/assembly_writer.cpp
+++ b/modules/core/assembly_writer.cpp
@@ -148,8 +148,10 @@ namespace X_ROOT_NS::modules::core {
             if (type->host_type != nullptr)
                 __W->__commit_type(type->host_type);
 
+            // The methods that introduce virtual slots come first, followed by the overrides.
             al::sort(type->methods, [](method_t * m1, method_t * m2) {
-                return (int)call_type_of_method(m1) < (int)call_type_of_method(m2);
+                int c1 = (int)call_type_of_method(m1), c2 = (int)call_type_of_method(m2);
+                return c1 != c2? c1 < c2 : (int)m1->is_override() < (int)m2->is_override();
             });
 
             __sort_members(type->fields);
-- 
2.43.0


From 5bcdb9c1520d43ab99004c68a6aa336d53e7a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:55 +0000
Subject: [PATCH 30/76] fix: arrays of an interface type can be created

---
 modules/rt/rt.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 94b8220..627b3e1 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1787,7 +1787,10 @@ namespace X_ROOT_NS::modules::rt {
     {
         _A(element_type != nullptr);
 
-        element_type->pre_new(env);
+        // An interface has no instance of its own.
+        if (element_type->get_ttype(env) != ttype_t::interface_)
+            element_type->pre_new(env);
+
         element_size = element_type->get_variable_size(env);
     }
 
-- 
2.43.0


From 9d9627a4892438874e3ebcf707984a46b4382843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:31 +0000
Subject: [PATCH 31/76] fix: an explicit interface implementation does not hide
 a method of the same name

---
 modules/core/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index e539f29..5c8729e 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -3435,7 +3435,7 @@ namespace X_ROOT_NS::modules::core {
         bool __analyze(method_t * method)
         {
             if (to_type(method->owner_type_name) != __args.owner)
-                return false;
+                return true;    // An explicit implementation, continue.
 
             __member_compare_t compare_result = __compare_method(
                 method, __args.generic_args, __args.atypes, *__next_arg_types()
-- 
2.43.0


From 1f3a5eeb85937865b6a8b9e7dcd96a0f8f2d2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:15 +0000
Subject: [PATCH 32/76] fix: an override is found past an explicit interface
 implementation of the same name

---
 modules/rt/rt.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 627b3e1..8def43a 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -717,7 +717,10 @@ namespace X_ROOT_NS::modules::rt {
         assembly->each_methods(mt->methods, [&, this](int idx, mt_t & mt) {
 
             if (only_virtual && !__is_virtual((decorate_t)mt.decorate))
-                return false;
+                return true;
+
+            if (mt.owner != ref_t::null)    // Explicit implementations cannot be overridden.
+                return true;
 
             ref_t method_ref = ref_t(idx);
             rt_method_base_t * rt_method = analyzer.get_method(method_ref);
-- 
2.43.0


From d31b54e2970c0504039f2e3478694831fdd18c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:04 +0000
Subject: [PATCH 33/76] fix: a local or a field is converted once to the type
 its use requires

---
 modules/compile/expression.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index de85263..5b42f40 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2441,8 +2441,17 @@ namespace X_ROOT_NS::modules::compile {
                 {
                     __append_object_copy_xil(ctx, pool, type, xil_copy_kind_t::reverse);
                 }
-                    
-                __post_compile_expression(ctx, pool, this, env);
+
+                // A local or a field is already converted to the value type that is required.
+                if (env.type != nullptr && is_value_type(env.type)
+                    && env.dtype != xil_type_t::empty && !__is_custom_struct_like(type)
+                    && al::in(this->variable->this_type(),
+                            variable_type_t::local, variable_type_t::field))
+                {
+                    type = env.type;
+                }
+
+                __post_compile_expression(ctx, pool, this, env, type);
             }   break;
 
             case name_expression_type_t::type:
-- 
2.43.0


From ca8fe3452c033409035bfa7153a6173771ebb08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:02 +0000
Subject: [PATCH 34/76] fix: an array element is converted or boxed as its use
 requires

---
 modules/compile/expression.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 5b42f40..896789f 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3069,6 +3069,8 @@ namespace X_ROOT_NS::modules::compile {
             pool.append<x_push_array_element_xil_t>(
                 __to_xil_type(element_type), array_type_ref
             );
+
+            __post_compile_expression(ctx, pool, this, env, element_type);
         }
     }
 
-- 
2.43.0


From 59230fe09898e7b869d17b8727cc4f155a56c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:41 +0000
Subject: [PATCH 35/76] fix: constants 0.0 and -0.0 are distinct when commands
 are shared

---
 modules/exec/commands.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index cea7005..c0f42fd 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -305,13 +305,38 @@ namespace X_ROOT_NS::modules::exec {
 
     ////////// ////////// ////////// ////////// //////////
 
+    // Key of a command argument: floating point values are distinguished by their bits, as 0.0
+    // and -0.0 are equal and nan is not ordered.
+    template<typename _arg_t>
+    X_ALWAYS_INLINE static auto __command_key_of(_arg_t arg)
+    {
+        if constexpr (std::is_floating_point<_arg_t>::value)
+        {
+            typedef std::conditional_t<
+                sizeof(_arg_t) == sizeof(uint32_t), uint32_t, uint64_t
+            > bits_t;
+
+            static_assert(sizeof(_arg_t) == sizeof(bits_t));
+
+            bits_t bits;
+            std::memcpy(&bits, &arg, sizeof(bits_t));
+            return bits;
+        }
+        else
+        {
+            return arg;
+        }
+    }
+
     template<typename _command_template_t, typename ... _template_keys_t>
     class __command_manager_t : public object_t
     {
     public:
         template<typename ... _args_t> class with_args_t
         {
-            typedef std::tuple<command_value_t, _args_t ...> __key_t;
+            typedef std::tuple<
+                command_value_t, decltype(__command_key_of(std::declval<_args_t>())) ...
+            > __key_t;
 
         public:
             with_args_t(memory_t * memory) : __memory(memory) { }
@@ -320,7 +345,7 @@ namespace X_ROOT_NS::modules::exec {
             template<command_value_t _cv, _template_keys_t ... _keys, typename ... _others_t>
             command_t * get_command(_args_t ... args, _others_t && ... others)
             {
-                __key_t key(_cv, args ...);
+                __key_t key(_cv, __command_key_of(args) ...);
 
                 auto it = __map.find(key);
                 if (it != __map.end())
-- 
2.43.0


From 30ba79ade2ef861d01d238ebd0c058f89299ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:52 +0000
Subject: [PATCH 36/76] fix: a struct argument is copied when a member of the
 result of the call is used

---
 modules/compile/expression.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 896789f..cf7213a 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2405,6 +2405,12 @@ namespace X_ROOT_NS::modules::compile {
                     break;
                 }
 
+                // An argument is always copied, whatever is done with the result of the call.
+                case expression_family_t::function:
+                case expression_family_t::index:
+                case expression_family_t::new_:
+                    return true;
+
                 default:
                     break;
             }
-- 
2.43.0


From 59ffafe23728c5e0717b6e91d52fcef12f7753e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:16 +0000
Subject: [PATCH 37/76] fix: an assignment to a ref or out parameter can be
 used as a value

---
 modules/compile/xilx.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 20f2926..b4df6bd 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -183,6 +183,13 @@ namespace X_ROOT_NS::modules::compile {
         if (call_type_of_method(sctx.method, true) != xil_call_type_t::static_)
             index++;
 
+        // There is no pick command for ref and out params, keep a copy of the value instead.
+        if (pick && __is_addr(param_var))
+        {
+            pool.append<x_push_duplicate_xil_t>();
+            pick = false;
+        }
+
         #define __Append(name, xil_type)                                                \
             if (__is_addr(param_var))                                                   \
                 pool.append<x_##name##_argument_addr_xil_t>(xil_type_t::xil_type, index); \
-- 
2.43.0


From 3c6a9a077913acd7ba64b0db39349339f2bf8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:01 +0000
Subject: [PATCH 38/76] fix: assigning a ref parameter and a parameter use
 different commands

---
 modules/exec/commands.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index c0f42fd..89401cb 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -3194,7 +3194,7 @@ namespace X_ROOT_NS::modules::exec {
             #define __CaseArgumentAddr(_xt1, _xt2)                                      \
                 case __V(xil_storage_type_t::argument_addr, xil_type_t::_xt1, xil_type_t::_xt2): \
                     return __command_manager.template get_command<                      \
-                        __StCmd(pop, argument, _xt1, _xt2),                             \
+                        __StCmd(pop, argument_addr, _xt1, _xt2),                        \
                         xil_storage_type_t::argument_addr, xil_type_t::_xt1, xil_type_t::_xt2 \
                     >(ctx.params_layout.offset_of(xil.get_identity()));
 
-- 
2.43.0


From ce4edd4798d0dca4ff6018b5d5d9c52eef258898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:00 +0000
Subject: [PATCH 39/76] fix: a temporary struct does not share memory with the
 variables of a block

---
 include/modules/core.h |  3 +++
 modules/core/core.cpp  |  9 ++++++++-
 modules/rt/__layout.h  |  1 +
 modules/rt/layout.cpp  | 16 ++++++++++++++++
 4 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index f77492b..092bd91 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -3064,6 +3064,9 @@ namespace X_ROOT_NS::modules::core {
         // Variable index defination in method.
         msize_t     index;
 
+        // Index of the temporary variables, which share memory with no other variable.
+        static const msize_t temp_index = unknown_msize;
+
         // Write the local variable as xil to buffer.
         void write(__assembly_layout_t & layout, xil_buffer_t & buffer);
     };
diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 5c8729e..ff0bfeb 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -7050,7 +7050,14 @@ namespace X_ROOT_NS::modules::core {
             new_variable_region->current_local_index()
         ));
 
-        return new_variable_region->define_local(xpool.to_type_name(type), name);
+        local_variable_t * variable = new_variable_region->define_local(
+            xpool.to_type_name(type), name
+        );
+
+        // It's defined after all the variables of the method, and not in order of the regions.
+        variable->index = local_variable_defination_t::temp_index;
+
+        return variable;
     }
 
     ////////// ////////// ////////// ////////// //////////
diff --git a/modules/rt/__layout.h b/modules/rt/__layout.h
index 3e2a71b..f5a5821 100644
--- a/modules/rt/__layout.h
+++ b/modules/rt/__layout.h
@@ -326,6 +326,7 @@ namespace X_ROOT_NS::modules::rt {
         static const msize_t __empty_msize = max_value<msize_t>();
 
         al::heap_t<__item_t> __items;
+        __vector_t<__item_t *> __temp_items;
 
         // Local variable partial.
         struct __partial_t
diff --git a/modules/rt/layout.cpp b/modules/rt/layout.cpp
index 82e1a26..8a2047c 100644
--- a/modules/rt/layout.cpp
+++ b/modules/rt/layout.cpp
@@ -469,6 +469,15 @@ namespace X_ROOT_NS::modules::rt {
         rt_type_t * type = __get_type(def.type);
         msize_t size = __ctx.variable_size_of(type, &storage_type);
 
+        if (def.index == local_variable_defination_t::temp_index)
+        {
+            __temp_items.push_back(__items.new_obj(
+                def.index, __current_identity(), size, storage_type, type
+            ));
+
+            return;
+        }
+
         if (__items.size() > 0 && def.index <= __items[__items.size() - 1].index)
         {
             for (int k = 0; k < X_ARRAY_SIZE(__groups); k++)
@@ -549,6 +558,13 @@ namespace X_ROOT_NS::modules::rt {
             }
         }
 
+        // Temporary variables.
+        for (__item_t * item : __temp_items)
+        {
+            item->offset = unit_align(offset, sizeof(rt_stack_unit_t));
+            offset = item->offset + item->size;
+        }
+
         __local_unit_size = unit_align(offset, sizeof(rt_stack_unit_t)) / sizeof(rt_stack_unit_t);
     }
 
-- 
2.43.0


From cfdcd623a00e675654d96a467d9e91ed650caa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:07 +0000
Subject: [PATCH 40/76] fix: the result of a call is kept for the method that
 is called on it

---
 modules/compile/expression.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index cf7213a..65fc4c9 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1827,11 +1827,24 @@ namespace X_ROOT_NS::modules::compile {
         return __is_effective(exp->get_behaviour()) || __is_whole_effective(exp->parent);
     }
 
+    // Returns whether it's the object that a member is called on. e.g. the first call of F().G()
+    static bool __is_object_of_calling(expression_t * exp)
+    {
+        expression_t * exp1, * exp2;
+        for (; __is_member_expression(exp->parent, &exp1, &exp2); exp = exp->parent)
+        {
+            if (exp1 == exp)
+                return __is_effective(exp2->get_behaviour());
+        }
+
+        return false;
+    }
+
     // Pops return value from stack
     static bool __try_pop_empty_for_method(__cctx_t & ctx, xil_pool_t & pool,
                                         method_base_t * method, expression_t * owner_exp)
     {
-        if (__is_whole_effective(owner_exp->parent))
+        if (__is_whole_effective(owner_exp->parent) || __is_object_of_calling(owner_exp))
             return false;
 
         type_t * ret_type = method->get_type();
-- 
2.43.0


From 373bbd6bab7dff18eb447f0dfdfb345e17a28e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:07 +0000
Subject: [PATCH 41/76] fix: an assignment to a property has a value, and can
 be compound

---
 modules/compile/expression.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 65fc4c9..492846a 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1247,11 +1247,21 @@ namespace X_ROOT_NS::modules::compile {
                     __Failed("property '%1%' cannot be write", var);
 
                 __validate_set_method(ctx, method);
-                __compile_argument(ctx, pool, exp2, method, 0);
+
+                // The value is kept, when it's used by other expressions.
+                local_variable_t * value = nullptr;
+                if (pick && !__is_custom_struct_like(var->get_type()))
+                {
+                    value = ctx.define_temp_local(var->get_type());
+                    xil::write_assign_xil(ctx, pool, value, xt, true);
+                }
 
                 ref_t method_ref = __search_method_ref(ctx, method);
                 pool.append<x_method_call_xil_t>(__call_type_of_method(method), method_ref);
 
+                if (value != nullptr)
+                    __compile_variable(ctx, pool, value);
+
             }   break;
 
             case variable_type_t::array_index: {
@@ -1348,6 +1358,13 @@ namespace X_ROOT_NS::modules::compile {
         }
         else
         {
+            if (ca.var->this_type() == variable_type_t::property)
+            {
+                property_t * property = ((property_variable_t *)ca.var)->property;
+                if (property != nullptr && property->set_method != nullptr)
+                    __compile_argument(ctx, pool, exp2, property->set_method, 0);
+            }
+
             __compile_assign_to(ctx, pool, ca, exp2, assign_type);
         }
     }
@@ -1608,10 +1625,18 @@ namespace X_ROOT_NS::modules::compile {
 
         if (__Is(right))
         {
-            if (is_effective(ctx, exp->parent->parent))
+            bool effective = is_effective(ctx, exp->parent->parent);
+            local_variable_t * old_value = nullptr;
+
+            if (effective && var->this_type() == variable_type_t::property)
+                old_value = ctx.define_temp_local(var->get_type());
+            else if (effective)
                 exp->compile(ctx, pool);
 
             exp->compile(ctx, pool);
+            if (old_value != nullptr)
+                xil::write_assign_xil(ctx, pool, old_value, xil_type_t::empty, true);
+
             __compile_number(ctx, pool, 1);
 
             pool.append<x_al_xil_t>(
@@ -1620,6 +1645,9 @@ namespace X_ROOT_NS::modules::compile {
             );
 
             __compile_assign_to(ctx, pool, ca, nullptr, __assign_to_type_t::pop);
+
+            if (old_value != nullptr)
+                __compile_variable(ctx, pool, old_value);
         }
         else
         {
-- 
2.43.0


From a466bee789fc4706fb450e15a8816a5484b1238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:26 +0000
Subject: [PATCH 42/76] fix: a field initialiser is stored as the type of the
 field

---
 modules/core/assembly_writer.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/modules/core/assembly_writer.cpp b/modules/core/assembly_writer.cpp
index 150dcdb..a449c02 100644
--- a/modules/core/assembly_writer.cpp
+++ b/modules/core/assembly_writer.cpp
@@ -1248,6 +1248,21 @@ namespace X_ROOT_NS::modules::core {
         // Commits constant value.
         ref_t __commit_constant(expression_t * exp, type_t * expect_type)
         {
+            // A number is stored as the type that is expected.
+            if (exp != nullptr && expect_type != nullptr)
+            {
+                cvalue_t value = exp->execute();
+                if (is_number(value))
+                {
+                    type_t * type = this->__get_internal_type(value.number.type);
+                    vtype_t vtype = expect_type->this_vtype();
+
+                    if ((is_integer(vtype) || is_float(vtype))
+                        && is_type_compatible(type, expect_type))
+                        return __commit_constant(value.change_type(vtype), expect_type);
+                }
+            }
+
             return __commit_constant_with_expect(exp, expect_type);
         }
 
-- 
2.43.0


From 0fe12f8f06c007b34298d0c1ef264ff822c15d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:44 +0000
Subject: [PATCH 43/76] fix: a constant has the type it is declared with

---
 modules/compile/expression.cpp |  4 ++++
 modules/core/core.cpp          | 11 +++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 492846a..6b8b8e9 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2046,6 +2046,10 @@ namespace X_ROOT_NS::modules::compile {
         if (is_nan(cv))
             __Failed("expected constant value for static const field '%1%'", field->name);
 
+        vtype_t vtype = field->get_vtype();
+        if (is_number(cv) && (is_integer(vtype) || is_float(vtype)))
+            cv = cv.change_type(vtype);
+
         __compile_cvalue(ctx, pool, cv, dtype);
     }
 
diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index ff0bfeb..67f5a7a 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -5435,11 +5435,18 @@ namespace X_ROOT_NS::modules::core {
 
     //-------- ---------- ---------- ---------- ----------
 
+    // Converts the value of a constant to its type.
+    static cvalue_t __to_constant_type(const cvalue_t & value, vtype_t vtype)
+    {
+        return is_number(value) && (is_integer(vtype) || is_float(vtype))?
+            value.change_type(vtype) : value;
+    }
+
     // Execute the variable.
     cvalue_t local_variable_t::execute()
     {
         return expression == nullptr || !constant?
-            cvalue_t::nan : expression->execute();
+            cvalue_t::nan : __to_constant_type(expression->execute(), get_vtype());
     }
 
     // Returns vtype.
@@ -5505,7 +5512,7 @@ namespace X_ROOT_NS::modules::core {
         if (field->init_value == nullptr)
             return default_value_of(get_vtype());
 
-        return field->init_value->execute();
+        return __to_constant_type(field->init_value->execute(), get_vtype());
     }
 
     // Converts field variable to a string.
-- 
2.43.0


From c4f997e934998f030fb577a2107b7cb7194d7a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:31 +0000
Subject: [PATCH 44/76] fix: a struct array element is assigned at a constant
 index without leaving a value on the stack

---
 modules/compile/expression.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 6b8b8e9..e3c34d8 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -433,8 +433,7 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(var->arguments, "index '%1%' arguments missing", var);
                 __FailedWhenNull(var->body, "index '%1%' body missing", var);
 
-                __static_param_types_t param_types(var);
-                __compile_arguments(ctx, pool, var->arguments, &param_types);
+                __compile_arguments(ctx, pool, var->arguments);
                 var->body->compile(ctx, pool);
 
                 pool.append<x_push_array_element_addr_xil_t>(
-- 
2.43.0


From 2c6954935cd9e3912e6662213912090c90efefa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:46 +0000
Subject: [PATCH 45/76] fix: copying a struct from an array element copies the
 whole struct

---
 modules/compile/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index e3c34d8..7ce146f 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3112,7 +3112,7 @@ namespace X_ROOT_NS::modules::compile {
             );
 
             if (__need_object_copy(this))
-                __append_object_copy_xil(ctx, pool, array_type, xil_copy_kind_t::reverse);
+                __append_object_copy_xil(ctx, pool, element_type, xil_copy_kind_t::reverse);
         }
         else
         {
-- 
2.43.0


From fd0d2e8e33e10bfeec348a317f98b56e24ce9d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 46/76] fix: an assignment to a variable of a struct type has a
 value

---
 modules/compile/expression.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 7ce146f..f205fcf 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1318,6 +1318,10 @@ namespace X_ROOT_NS::modules::compile {
         }
     }
 
+    static bool __need_object_copy(expression_t * exp);
+    static void __append_object_copy_xil(__cctx_t & ctx, xil_pool_t & pool, type_t * type,
+                                                            xil_copy_kind_t copy_kind);
+
     // Compiles assign expression.
     static void __compile_assign(__cctx_t & ctx, xil_pool_t & pool, __compile_assign_t ca,
         expression_t * exp2, __assign_to_type_t assign_type = __assign_to_type_t::default_)
@@ -1347,6 +1351,20 @@ namespace X_ROOT_NS::modules::compile {
 
                     __push_variable_address(ctx, pool, ca.var, ca.this_);
                     exp2->compile(ctx, pool, type1);
+
+                    // The value of the assignment is used by other expressions.
+                    if (assign_type == __assign_to_type_t::default_
+                        && is_effective(ctx, ca.exp->parent->parent))
+                    {
+                        __push_variable_address(ctx, pool, ca.var, ca.this_);
+
+                        if (__need_object_copy(ca.exp->parent))
+                        {
+                            __append_object_copy_xil(
+                                ctx, pool, type1, xil_copy_kind_t::reverse
+                            );
+                        }
+                    }
                 }
             }
             else
@@ -2437,8 +2455,11 @@ namespace X_ROOT_NS::modules::compile {
                     binary_expression_t * binary_exp = (binary_expression_t *)parent_exp;
                     switch (binary_exp->op())
                     {
-                        case operator_t::member_point:
                         case operator_t::assign:
+                            // The value that is assigned is always copied.
+                            return binary_exp->exp1() != exp;
+
+                        case operator_t::member_point:
                             if (binary_exp->exp1() == exp)
                                 return false;
 
-- 
2.43.0


From 6b2eb7d33234032518fac85feb02988cfac6d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:01 +0000
Subject: [PATCH 47/76] fix: 'this' of a struct can be used as a value

---
 modules/compile/expression.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index f205fcf..040e3c4 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3542,7 +3542,13 @@ namespace X_ROOT_NS::modules::compile {
             }
             else if (__is_custom_struct_like(method->host_type))
             {
-                pool.append<x_push_this_xil_t>(xil_type_t::ptr);
+                pool.append<x_push_this_ref_xil_t>();
+
+                if (__need_object_copy(this))
+                {
+                    __append_object_copy_xil(ctx, pool, method->host_type,
+                                                        xil_copy_kind_t::reverse);
+                }
             }
             else
             {
-- 
2.43.0


From 617b723925084a513e3d41d90d54d810c68c52c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 48/76] fix: WriteLine of a null string ends the line

---
 modules/rtlib/system.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/rtlib/system.cpp b/modules/rtlib/system.cpp
index 8abed2f..49ae95a 100644
--- a/modules/rtlib/system.cpp
+++ b/modules/rtlib/system.cpp
@@ -48,7 +48,9 @@ namespace X_ROOT_NS::modules::rtlib {
         const char_t * s = *arg->value;
 
         if (s != nullptr)
-            std::wcout << s << std::endl;
+            std::wcout << s;
+
+        std::wcout << std::endl;
     }
 
     void console_write_char(rtlib_context_t & ctx)
-- 
2.43.0


From 5eec7610511670c87de9ad8518ea389936306ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:32 +0000
Subject: [PATCH 49/76] fix: new of a struct sets all its fields, also where it
 replaces another value

---
 modules/compile/expression.cpp | 48 ++++++++++++++++------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 040e3c4..20dd67c 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3267,47 +3267,43 @@ namespace X_ROOT_NS::modules::compile {
                                             xil_pool_t & pool, type_t * type)
     {
         bool need_call_constructor = __need_call_constructor(this);
+        bool is_left_member = __is_left_member(this);
+        ref_t type_ref = __ref_of(ctx, type);
 
-        if (need_call_constructor)
+        // Sets the struct object to zero, its address is at the stack top.
+        if (!need_call_constructor && !is_left_member)
         {
-            if (__is_left_member(this))
-            {
-                local_variable_t * variable = ctx.define_temp_local(type);
-                __compile_local_variable(ctx, pool, variable);
-
-                if (is_effective(ctx, this->parent))
-                    pool.append<x_push_duplicate_xil_t>();
-            }
-        }
-        else
-        {
-            // Pop the address of struct object.
-            pool.append<x_pop_empty_xil_t>(xil_type_t::ptr);
+            pool.append<x_object_copy_xil_t>(type_ref, xil_copy_kind_t::zero);
+            return;
         }
 
-        if (this->arguments() != nullptr)
-        {
-            if (this->constructor == nullptr)
-                __Failed("constructor of type '%1%' missing", type);
-
-            __compile_arguments(ctx, pool, this->arguments(), this->constructor);
-        }
+        // Constructs it in a temp variable, arguments may use the variable that it's assigned to.
+        local_variable_t * variable = ctx.define_temp_local(type);
+        __compile_local_variable(ctx, pool, variable);
+        pool.append<x_object_copy_xil_t>(type_ref, xil_copy_kind_t::zero);
 
         // custom constructor.
         if (need_call_constructor)
         {
+            __compile_local_variable(ctx, pool, variable);
+
+            if (this->arguments() != nullptr)
+                __compile_arguments(ctx, pool, this->arguments(), this->constructor);
+
             __check_constructor_calltype(type, this->constructor);
             ref_t method_ref = __search_method_ref(ctx, this->constructor);
             pool.append<x_method_call_xil_t>(xil_call_type_t::instance, method_ref);
         }
 
-        /*
-        else    // default constructor.
+        if (!is_left_member)
         {
-            ref_t type_ref = __ref_of(ctx, type);
-            pool.append<x_object_copy_xil_t>(type_ref, xil_copy_kind_t::zero);
+            __compile_local_variable(ctx, pool, variable);
+            pool.append<x_object_copy_xil_t>(type_ref, xil_copy_kind_t::reverse);
+        }
+        else if (is_effective(ctx, this->parent))
+        {
+            __compile_local_variable(ctx, pool, variable);
         }
-        */
     }
 
     // Creates instance of a generic param type.
-- 
2.43.0


From cc6a97400406e751f75d64f92c9348fb5bbc7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:21 +0000
Subject: [PATCH 50/76] fix: a member of an unboxed struct can be selected

---
 modules/compile/expression.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 20dd67c..ece571c 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3036,7 +3036,13 @@ namespace X_ROOT_NS::modules::compile {
                 if (__is_custom_struct_like(type)) // Unbox custom struct.
                 {
                     exp->compile(ctx, pool);
-                    pool.append<x_object_copy_xil_t>(__ref_of(ctx, type), xil_copy_kind_t::reverse);
+
+                    if (__need_object_copy(this))
+                    {
+                        pool.append<x_object_copy_xil_t>(
+                            __ref_of(ctx, type), xil_copy_kind_t::reverse
+                        );
+                    }
                 }
                 else    // internal value types.
                 {
-- 
2.43.0


From 7894477d2be789c9f863af37624a8199f4ed120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:34 +0000
Subject: [PATCH 51/76] fix: variables of struct types with references do not
 share memory with other variables

---
 modules/rt/__layout.h |  4 ----
 modules/rt/layout.cpp | 22 +---------------------
 2 files changed, 1 insertion(+), 25 deletions(-)

diff --git a/modules/rt/__layout.h b/modules/rt/__layout.h
index f5a5821..9f36177 100644
--- a/modules/rt/__layout.h
+++ b/modules/rt/__layout.h
@@ -383,10 +383,6 @@ namespace X_ROOT_NS::modules::rt {
         msize_t __arrange_variables(__group_t & g, msize_t offset,
                     __partial_iterator_t it_begin, __partial_iterator_t it_end);
 
-        // Arrange mixture variables.
-        msize_t __arrange_mixture_variables(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end);
-
         // The min index of specified local variable sequences.
         msize_t __min_index(__partial_iterator_t it_begin,
                     __partial_iterator_t it_end, msize_t * out_end);
diff --git a/modules/rt/layout.cpp b/modules/rt/layout.cpp
index 8a2047c..7180e71 100644
--- a/modules/rt/layout.cpp
+++ b/modules/rt/layout.cpp
@@ -541,13 +541,8 @@ namespace X_ROOT_NS::modules::rt {
                 {
                     case storage_type_t::ref:
                     case storage_type_t::value:
-                        offset = __arrange_variables(
-                            g, offset, g.partials.begin(), g.partials.end()
-                        );
-                        break;
-
                     case storage_type_t::mixture:
-                        offset = __arrange_mixture_variables(
+                        offset = __arrange_variables(
                             g, offset, g.partials.begin(), g.partials.end()
                         );
                         break;
@@ -629,21 +624,6 @@ namespace X_ROOT_NS::modules::rt {
         );
     }
 
-    // Arrange mixture variables.
-    msize_t locals_layout_t::__arrange_mixture_variables(__group_t & g,
-        msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end)
-    {
-        using namespace std::placeholders;
-        __vector_t<__item_t *> items;
-
-        __arrange_variables_f(g, 0, it_begin, it_end, [&](msize_t offset,
-            __item_iterator_t it_begin, __item_iterator_t it_end) {
-            return std::copy(it_begin, it_end, std::back_inserter(items)), 0;
-        }, std::bind(&locals_layout_t::__arrange_mixture_variables, this, _1, _2, _3, _4));
-
-        return __set_offsets(offset, items.begin(), items.end());
-    }
-
     // The min index of specified local variable sequences.
     msize_t locals_layout_t::__min_index(__partial_iterator_t it_begin,
                                          __partial_iterator_t it_end, msize_t * out_end)
-- 
2.43.0


From dbf0990b07706492ebbb22bc9988dab04c3c7438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:07 +0000
Subject: [PATCH 52/76] fix: a temporary variable does not start a new scope

---
 modules/rt/layout.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/rt/layout.cpp b/modules/rt/layout.cpp
index 7180e71..1c13f47 100644
--- a/modules/rt/layout.cpp
+++ b/modules/rt/layout.cpp
@@ -478,7 +478,12 @@ namespace X_ROOT_NS::modules::rt {
             return;
         }
 
-        if (__items.size() > 0 && def.index <= __items[__items.size() - 1].index)
+        // The last variable, temporary ones have no index.
+        int last = __items.size() - 1;
+        while (last >= 0 && __items[last].index == local_variable_defination_t::temp_index)
+            last--;
+
+        if (last >= 0 && def.index <= __items[last].index)
         {
             for (int k = 0; k < X_ARRAY_SIZE(__groups); k++)
             {
-- 
2.43.0


From 9ecc39f4169b920204593095eb4731f06b0ca7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:59 +0000
Subject: [PATCH 53/76] fix: the result of a call is kept while a method of one
 of its struct fields is called

---
 modules/compile/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index ece571c..803ab58 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1878,8 +1878,8 @@ namespace X_ROOT_NS::modules::compile {
         expression_t * exp1, * exp2;
         for (; __is_member_expression(exp->parent, &exp1, &exp2); exp = exp->parent)
         {
-            if (exp1 == exp)
-                return __is_effective(exp2->get_behaviour());
+            if (exp1 == exp && __is_effective(exp2->get_behaviour()))
+                return true;
         }
 
         return false;
-- 
2.43.0


From d7c7faece565548fb4c0c3ed00e5e94d56be0461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 54/76] fix: elements of an array initialiser are converted and
 references are stored whole

---
 modules/compile/expression.cpp |  2 +-
 modules/exec/commands.cpp      | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 803ab58..a3baa30 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3413,7 +3413,7 @@ namespace X_ROOT_NS::modules::compile {
 
                 // TODO: check init expression type.
 
-                element_exp->compile(ctx, pool);
+                element_exp->compile(ctx, pool, element_type);
 
                 if (this_effective)
                     pool.append<x_array_element_xil_t>(dtype);  // TODO: struct?
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 89401cb..2e13ee0 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -6942,7 +6942,16 @@ namespace X_ROOT_NS::modules::exec {
             return 0;
         }
 
-        return size_of(xil.dtype());
+        switch (xil.dtype())
+        {
+            case xil_type_t::object:
+            case xil_type_t::string:
+            case xil_type_t::ptr:
+                return sizeof(rt_ref_t);
+
+            default:
+                return size_of(xil.dtype());
+        }
     }
 
     static command_t * __new_init_command(__context_t & ctx, const init_xil_t & xil)
-- 
2.43.0


From 09550022ebaebd81c88bfaf6b0ca008713022223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:35 +0000
Subject: [PATCH 55/76] fix: array indexes and lengths of any integer type

---
 modules/compile/expression.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index a3baa30..2f5d69f 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -30,6 +30,9 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_arguments(__cctx_t & ctx, xil_pool_t & pool, arguments_t * arguments,
                                                         param_types_t * param_types = nullptr);
 
+    // Compile indexes of an array.
+    static void __compile_array_indexes(__cctx_t & ctx, xil_pool_t & pool, arguments_t * arguments);
+
     // Returns whether it's a reference type.
     static bool __is_ref_type(type_t * type)
     {
@@ -433,7 +436,7 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(var->arguments, "index '%1%' arguments missing", var);
                 __FailedWhenNull(var->body, "index '%1%' body missing", var);
 
-                __compile_arguments(ctx, pool, var->arguments);
+                __compile_array_indexes(ctx, pool, var->arguments);
                 var->body->compile(ctx, pool);
 
                 pool.append<x_push_array_element_addr_xil_t>(
@@ -1135,6 +1138,24 @@ namespace X_ROOT_NS::modules::compile {
         }
     }
 
+    // Compile indexes or lengths of an array, they are always int32 values.
+    static void __compile_array_int(__cctx_t & ctx, xil_pool_t & pool, expression_t * exp)
+    {
+        _A(exp != nullptr);
+
+        if (!__try_compile_constant_expression(ctx, pool, exp, xil_type_t::int32))
+            exp->compile(ctx, pool, __XPool.get_internal_type(vtype_t::int32_));
+    }
+
+    // Compile indexes of an array.
+    static void __compile_array_indexes(__cctx_t & ctx, xil_pool_t & pool, arguments_t * arguments)
+    {
+        for (argument_t * argument : *arguments)
+        {
+            __compile_array_int(ctx, pool, argument->expression);
+        }
+    }
+
     enum class __assign_to_type_t { default_, pop, pick };
 
     // Returns array element type.
@@ -1272,7 +1293,7 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(args, "index '%1%' arguments missing", var);
 
                 __static_param_types_t param_types(arr_var);
-                __compile_arguments(ctx, pool, args);
+                __compile_array_indexes(ctx, pool, args);
                 body->compile(ctx, pool);
 
                 type_t * element_type = arr_var->get_type();
@@ -3122,7 +3143,7 @@ namespace X_ROOT_NS::modules::compile {
                 array_index_variable_t * variable, expression_t * namex,
                 const __environment_t & env)
     {
-        __compile_arguments(ctx, pool, this->arguments());
+        __compile_array_indexes(ctx, pool, this->arguments());
         namex->compile(ctx, pool);
 
         type_t * element_type = __array_element_type_of(ctx, this);
@@ -3381,7 +3402,7 @@ namespace X_ROOT_NS::modules::compile {
 
                 // TODO: must be int type
 
-                expression->compile(ctx, pool);
+                __compile_array_int(ctx, pool, expression);
             }
         }
 
-- 
2.43.0


From 5073460c640b97f2283368a2ad10f1ec8194bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:32 +0000
Subject: [PATCH 56/76] fix: a reference passed as a value of a generic
 parameter takes the size of a reference

---
 modules/exec/commands.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 2e13ee0..ebffcc5 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -6533,7 +6533,8 @@ namespace X_ROOT_NS::modules::exec {
 
             case xil_new_type_t::stack_alloc: {
 
-                msize_t obj_size = type->get_size(ctx.env);
+                // A generic param may be a reference, only the reference is on the stack.
+                msize_t obj_size = type->get_variable_size(ctx.env);
                 size_t units = _alignf(obj_size, sizeof(rt_stack_unit_t)) / sizeof(rt_stack_unit_t);
                 return __alloc_command_manager.template
                     get_command<__NewCmd(stack_alloc), xil_new_type_t::stack_alloc>(units);
-- 
2.43.0


From 00d9bdee151eef1da95f0d01034fd0802bbdeb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:46 +0000
Subject: [PATCH 57/76] fix: only the sum of two constant values folds to a
 string

---
 modules/core/expression_executor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index 6c4e3e2..43d20c9 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -547,6 +547,9 @@ namespace X_ROOT_NS::modules::core {
         cvalue_t cv1 = e1->execute(), cv2 = e2->execute();
         if (is_string(cv1) || is_string(cv2))
         {
+            if (this->op() != operator_t::add || is_nan(cv1) || is_nan(cv2))
+                return cvalue_t::nan;
+
             string_t s = _F(_T("%1%%2%"), cv1, cv2);
             return cvalue_t(__SPool.to_sid(s).c_str());
         }
-- 
2.43.0


From b9136937234433eac1752d09ee0dbcfa3c798d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:46 +0000
Subject: [PATCH 58/76] fix: auto-determined constant variables keep their type
 and exclude ref and out arguments

---
 include/modules/core.h         |  2 +-
 modules/compile/expression.cpp |  2 +-
 modules/compile/statements.cpp | 24 ++++++++++++++++++++++--
 modules/compile/xilx.cpp       |  2 +-
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index 092bd91..e6455a3 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -6735,7 +6735,7 @@ namespace X_ROOT_NS::modules::core {
     // Returns whether it is a constant expression.
     X_INLINE bool is_constant_expression(expression_t * exp)
     {
-        return exp->execute() == cvalue_t::nan;
+        return exp->execute() != cvalue_t::nan;
     }
 
     // Executes the expression.
diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 2f5d69f..10f1b4c 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1747,7 +1747,7 @@ namespace X_ROOT_NS::modules::compile {
 
         if (variable->constant)
         {
-            cvalue_t cvalue = __execute_expression(variable->expression);
+            cvalue_t cvalue = variable->execute();
             _A(cvalue != cvalue_t::nan);
 
             __compile_cvalue(ctx, pool, cvalue, dtype);
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index b7fd1d2..10ec162 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -398,6 +398,26 @@ namespace X_ROOT_NS::modules::compile {
         return nullptr;
     }
 
+    // Returns whether the expression is a ref or out argument of its parent.
+    bool __is_address_argument(expression_t * exp)
+    {
+        expression_t * parent = exp->parent;
+        arguments_t * arguments = nullptr;
+
+        if (parent != nullptr && parent->this_family() == expression_family_t::function)
+            arguments = ((function_expression_t *)parent)->arguments();
+        else if (parent != nullptr && parent->this_family() == expression_family_t::new_)
+            arguments = ((new_expression_t *)parent)->arguments();
+
+        if (arguments == nullptr)
+            return false;
+
+        return std::any_of(arguments->begin(), arguments->end(), [exp](argument_t * argument) {
+            return argument->expression == exp
+                && al::in(argument->atype, param_type_t::ref, param_type_t::out);
+        });
+    }
+
     // Walk variables, add variable reference count.
     void __walk_variables(expression_t * exp)
     {
@@ -413,8 +433,8 @@ namespace X_ROOT_NS::modules::compile {
             op_expression_base_t * op_exp = as<op_expression_base_t *>(e->parent);
             const operator_property_t * op_property;
 
-            if (op_exp && (op_property = op_exp->get_operator_property()) != nullptr
-                      && op_property->is_assign)
+            if ((op_exp && (op_property = op_exp->get_operator_property()) != nullptr
+                      && op_property->is_assign) || __is_address_argument(e))
             {
                 var->write_count++;
             }
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index b4df6bd..1f29412 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -455,7 +455,7 @@ namespace X_ROOT_NS::modules::compile {
 
         if (local->write_count == 1)
         {
-            if (is_constant_expression(expression))
+            if (!is_object(local_type) && is_constant_expression(expression))
             {
                 if (is_optimize(ctx, compile_optimize_code_t::auto_determine_constant_variables))
                 {
-- 
2.43.0


From 281b35f3902fe84cf32a5984fa5457a73d3193b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:46 +0000
Subject: [PATCH 59/76] fix: a constant is boxed where an object is required

---
 modules/compile/expression.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 10f1b4c..1961a6a 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -149,6 +149,11 @@ namespace X_ROOT_NS::modules::compile {
 
         cvalue_t cvalue = __execute_expression(expression);
 
+        // A value must be boxed when an object is required.
+        if ((is_number(cvalue) || is_string(cvalue))
+                && (env.dtype == xil_type_t::object || __is_ref_type(env.type)))
+            return false;
+
         if (!is_nan(cvalue) && cvalue.value_type != cvalue_type_t::__default__)
         {
             if (is_effective(ctx, expression))
-- 
2.43.0


From 4396c08861aace1972234ba3efc0084c5159c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:46 +0000
Subject: [PATCH 60/76] fix: algebraic simplifications keep the type of the
 result

---
 modules/compile/expression.cpp | 35 +++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 1961a6a..07bf4a3 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -678,19 +678,31 @@ namespace X_ROOT_NS::modules::compile {
         return is_optimize(ctx, compile_optimize_code_t::optimize_basic_algorighm);
     }
 
+    // Returns whether an integer operation with the constant operand gives the other operand,
+    // the types must be the same, so that the result needs no conversion.
+    static bool __is_unit_operand(expression_t * const_exp, expression_t * exp, int value)
+    {
+        xil_type_t xil_type = __xil_type(exp);
+
+        return al::in(xil_type, xil_type_t::int32, xil_type_t::uint32,
+                                xil_type_t::int64, xil_type_t::uint64)
+            && __xil_type(const_exp) == xil_type
+            && __execute_expression(const_exp) == cvalue_t(value);
+    }
+
     // Compiles add expression.
     static void __compile_add(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(0))  // x + 0
+            if (__is_unit_operand(exp1, exp2, 0))  // x + 0
             {
                 exp2->compile(ctx, pool);
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(0)) // 0 + x
+            if (__is_unit_operand(exp2, exp1, 0)) // 0 + x
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -711,14 +723,15 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(0))  // 0 * x
+            if (__is_unit_operand(exp1, exp2, 0)   // 0 - x
+                && al::in(__xil_type(exp2), xil_type_t::int32, xil_type_t::int64))
             {
                 exp2->compile(ctx, pool);
                 pool.append<x_al_xil_t>(xil_al_command_t::minus, __xil_type(exp1));
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(0))  // x * 0
+            if (__is_unit_operand(exp2, exp1, 0))  // x * 0
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -739,13 +752,13 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(1)) // 1 * x
+            if (__is_unit_operand(exp1, exp2, 1)) // 1 * x
             {
                 exp2->compile(ctx, pool);
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(1))  // x * 1
+            if (__is_unit_operand(exp2, exp1, 1))  // x * 1
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -768,7 +781,7 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp2) == cvalue_t(1))      // x / 1
+            if (__is_unit_operand(exp2, exp1, 1))      // x / 1
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -813,13 +826,13 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(0))     // 0 | x
+            if (__is_unit_operand(exp1, exp2, 0))     // 0 | x
             {
                 exp2->compile(ctx, pool);
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(0))     // x | 0
+            if (__is_unit_operand(exp2, exp1, 0))     // x | 0
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -852,7 +865,7 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp2) == cvalue_t(0))     // x << 0
+            if (__is_unit_operand(exp2, exp1, 0))     // x << 0
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -873,7 +886,7 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp2) == cvalue_t(0))     // x >> 0
+            if (__is_unit_operand(exp2, exp1, 0))     // x >> 0
             {
                 exp1->compile(ctx, pool);
                 return;
-- 
2.43.0


From 265c8df226b988a6af60175b9631cd13771c604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:46 +0000
Subject: [PATCH 61/76] fix: a switch turned into an if keeps the order of its
 sections

---
 modules/compile/statements.cpp | 35 +++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 10ec162..5bfef4e 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -1350,6 +1350,7 @@ namespace X_ROOT_NS::modules::compile {
     {
         statements_t * if_statements = nullptr, * else_statements = nullptr;
         expression_t * if_condition = nullptr;
+        bool else_first = false;        // Whether default stands before the case.
 
         for (case_t * c : cases)
         {
@@ -1362,6 +1363,7 @@ namespace X_ROOT_NS::modules::compile {
                 }
                 else
                 {
+                    else_first = (if_condition == nullptr);
                     else_statements = c->statements;
                 }
             }
@@ -1385,25 +1387,32 @@ namespace X_ROOT_NS::modules::compile {
             cvalue_t condition_cvalue = __remove_unreached_codes(ctx)?
                             execute_expression(condition) : cvalue_t::nan;
 
-            if (condition_cvalue == true)
+            statements_t * first_statements  = else_first? else_statements : if_statements;
+            statements_t * second_statements = else_first? if_statements : else_statements;
+
+            // The first section runs on into the second one if it has no jump.
+            if (condition_cvalue == !else_first)
             {
-                compile_statements(ctx, if_statements);
+                compile_statements(ctx, first_statements);
+                compile_statements(ctx, second_statements);
             }
-            else if (condition_cvalue == false)
+            else if (condition_cvalue == else_first)
             {
-                compile_statements(ctx, else_statements);
+                compile_statements(ctx, second_statements);
             }
             else
             {
-                local_label_t label_else = ctx.next_local_label();
+                local_label_t label_second = ctx.next_local_label();
 
                 append_expression(ctx, condition);
-                append_jmp(ctx, label_else, xil_jmp_model_t::false_);
+                append_jmp(ctx, label_second,
+                    else_first? xil_jmp_model_t::true_ : xil_jmp_model_t::false_
+                );
 
-                compile_statements(ctx, if_statements);
+                compile_statements(ctx, first_statements);
 
-                append_local_label(ctx, label_else);
-                compile_statements(ctx, else_statements);
+                append_local_label(ctx, label_second);
+                compile_statements(ctx, second_statements);
             }
         }
 
@@ -1489,13 +1498,13 @@ namespace X_ROOT_NS::modules::compile {
 
                 if (et.has_only(until))
                 {
-                    if (et.has(__exit_type_t::break_))
-                        type.add(__exit_type_t::pass);
-                    else
-                        type.remove(__exit_type_t::pass);
+                    type.remove(__exit_type_t::pass);
                     break;
                 }
             }
+
+            if (type.has(__exit_type_t::break_))
+                type.add(__exit_type_t::pass);
         }
         else
         {
-- 
2.43.0


From 4a2642083051f20d0f81ce313da3585f8ad480bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:46 +0000
Subject: [PATCH 62/76] fix: a compiled assembly can be run

---
 include/modules/core.h           | 4 ++++
 modules/core/assembly_reader.cpp | 1 +
 modules/core/core.cpp            | 9 ++++++++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index e6455a3..e363ca8 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -4926,6 +4926,9 @@ namespace X_ROOT_NS::modules::core {
         // Constructor
         xpool_t(memory_t * memory);
 
+        // Destructor
+        ~xpool_t();
+
         // Initialize.
         void initialize();
 
@@ -5168,6 +5171,7 @@ namespace X_ROOT_NS::modules::core {
         // cvalue_t -> cvalue_expression_t * cache.
         std::map<__cvalue_t, cvalue_expression_t *> __cvalue_expression_map;
 
+        xpool_t * __previous = nullptr;
         static xpool_t * __current; 
     };
 
diff --git a/modules/core/assembly_reader.cpp b/modules/core/assembly_reader.cpp
index e3b9b13..1a58a4f 100644
--- a/modules/core/assembly_reader.cpp
+++ b/modules/core/assembly_reader.cpp
@@ -1376,6 +1376,7 @@ namespace X_ROOT_NS::modules::core {
     // Gets assembly type.
     assembly_type_t get_assembly_type(xistream_t & stream)
     {
+        xpool_t xpool(nullptr);
         assembly_t assembly(nullptr);
 
         try
diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 67f5a7a..2914051 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -5669,11 +5669,18 @@ namespace X_ROOT_NS::modules::core {
         return tcid;
     }
 
-    xpool_t::xpool_t(memory_t * memory) : memory(memory)
+    xpool_t::xpool_t(memory_t * memory) : memory(memory), __previous(__current)
     {
         __current = this;
     }
 
+    // Destructor, the previous xpool becomes the current one again.
+    xpool_t::~xpool_t()
+    {
+        if (__current == this)
+            __current = __previous;
+    }
+
     // Initialize.
     void xpool_t::initialize()
     {
-- 
2.43.0


From da0380579b135bb1aedb1c647eb4c1674bfee9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:13 +0000
Subject: [PATCH 63/76] fix: a switch whose last section has no jump goes on
 after it

---
 modules/compile/statements.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 5bfef4e..183023f 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -1508,7 +1508,7 @@ namespace X_ROOT_NS::modules::compile {
         }
         else
         {
-            bool contains_default = false;
+            bool contains_default = false, last_pass = false;
             for (__case_iterator_t it = cases.begin(), it_end = cases.end(); it != it_end; it++)
             {
                 if (!contains_default && (*it)->contains_default())
@@ -1519,12 +1519,14 @@ namespace X_ROOT_NS::modules::compile {
 
                 __e_exit_type_t et = __exit_type_of(ctx, (*it)->statements);
                 type |= et;
+                last_pass = !et;
 
                 if (et.has(__exit_type_t::break_))
                     type.add(__exit_type_t::pass);
             }
 
-            if (!contains_default)
+            // The last section runs on to the end if it has no jump.
+            if (!contains_default || last_pass)
                 type.add(__exit_type_t::pass);
         }
 
-- 
2.43.0


From 5197887264674924a1d444ec9e6b50fb0c09a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:07 +0000
Subject: [PATCH 64/76] fix: long constants of another assembly

---
 modules/core/__assembly_layout.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/__assembly_layout.h b/modules/core/__assembly_layout.h
index 63b65ca..aaf2da3 100644
--- a/modules/core/__assembly_layout.h
+++ b/modules/core/__assembly_layout.h
@@ -1816,7 +1816,7 @@ namespace X_ROOT_NS::modules::core {
             if (!mt.constant_flag.extern_)
             {
                 uint32_t v2 = *(uint32_t *)mt.data2;
-                uint32_t v1 = *(uint32_t *)mt.data1;
+                uint32_t v1 = *(uint16_t *)mt.data1;
 
                 if (mt.constant_flag.cpl)
                     v1 = ~v1;
-- 
2.43.0


From 1d1fdd0a45c1074a8d9be7f4d4e4eaea380329ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:07 +0000
Subject: [PATCH 65/76] fix: explicit implementations are read back from an
 assembly

---
 modules/core/assembly_reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/core/assembly_reader.cpp b/modules/core/assembly_reader.cpp
index 1a58a4f..a247207 100644
--- a/modules/core/assembly_reader.cpp
+++ b/modules/core/assembly_reader.cpp
@@ -1160,6 +1160,7 @@ namespace X_ROOT_NS::modules::core {
             method->decorate        = __to_decorate(mt.decorate);
 
             method->type_name       = __to_type_name(mt.type);
+            method->owner_type_name = __to_type_name(mt.owner);
             method->generic_params  = __to_generic_params(mt.generic_params);
             method->params          = __to_params(mt.params);
             method->trait           = mt.trait;
@@ -1174,6 +1175,7 @@ namespace X_ROOT_NS::modules::core {
             property->decorate      = __to_decorate(mt.decorate);
 
             property->type_name     = __to_type_name(mt.type);
+            property->owner_type_name = __to_type_name(mt.owner);
             property->attributes    = __to_attributes(mt.attributes, property);
             property->params        = __to_params(mt.params);
 
@@ -1190,6 +1192,7 @@ namespace X_ROOT_NS::modules::core {
             event->decorate         = __to_decorate(mt.decorate);
 
             event->type_name        = __to_type_name(mt.type);
+            event->owner_type_name = __to_type_name(mt.owner);
             event->attributes       = __to_attributes(mt.attributes, event);
 
             event->add_method       = __get_method(mt.add_method);
-- 
2.43.0


From 789dbb2c42edb5cafb8c8fec613d95466b5f2745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:07 +0000
Subject: [PATCH 66/76] fix: virtual methods and explicit implementations
 across assemblies

---
 modules/rt/rt.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 8def43a..c487716 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -2847,7 +2847,9 @@ namespace X_ROOT_NS::modules::rt {
 
             rt_method = nullptr;
             rt_type->each_method(env, [&, this](ref_t ref, rt_method_base_t * rt_method_) {
-                bool r = rt_method_->compare_to(env, prototype, &gp_mgr);
+                // Explicit implementations cannot be referenced.
+                bool r = rt_method_->get_owner_type(env) == nullptr
+                    && rt_method_->compare_to(env, prototype, &gp_mgr);
                 return r? rt_method = rt_method_, al::assign_value(out_method_ref, ref),
                     false : true;
             });
@@ -3145,6 +3147,14 @@ namespace X_ROOT_NS::modules::rt {
 
         rt_type_t * rt_type = method->get_host_type();
 
+        // The method belongs to another assembly, the reference is one of that assembly then.
+        rt_assembly_t * rt_assembly = rt_type->get_assembly();
+        if (!__is_current(rt_assembly))
+        {
+            assembly_analyzer_t analyzer0(*this, rt_assembly);
+            return analyzer0.get_virtual_method_offset(method_ref);
+        }
+
         // All methods in interface types are all virtual members.
         if (rt_type->get_ttype(env) == ttype_t::interface_)
             return rt_type->get_method_offset(env, method_ref);
@@ -3166,18 +3176,14 @@ namespace X_ROOT_NS::modules::rt {
             method_prototype_t prototype;
             get_prototype(method_ref, &prototype);
 
-            do
+            while ((rt_type = rt_type->get_base_type(env)) != nullptr)
             {
-                rt_type = rt_type->get_base_type(env);
-                if (rt_type == nullptr)
-                    throw __RtAssemblyErrorF("virtual method '%1%' not found", method->get_name());
-
                 assembly_analyzer_t analyzer0(*this, rt_type->get_assembly());
                 method_ref = rt_type->search_method(analyzer0.env, prototype);
 
-            } while (method_ref == ref_t::null);
-
-            return get_virtual_method_offset( method_ref);
+                if (method_ref != ref_t::null)
+                    return analyzer0.get_virtual_method_offset(method_ref);
+            }
         }
 
         throw __RtAssemblyErrorF("virtual method '%1%' not found", method->get_name());
-- 
2.43.0


From cd79ae1319ec28b7a7191c12ff3cf7e0e6c18f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:23 +0000
Subject: [PATCH 67/76] fix: calling a delegate of a static method removes the
 slot of the instance

---
 modules/exec/commands.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index ebffcc5..72224d6 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4592,6 +4592,23 @@ namespace X_ROOT_NS::modules::exec {
     };
 
 
+    // Returns whether it's a static method.
+    static bool __is_static_method(rt_method_base_t * method)
+    {
+        switch (method->this_type())
+        {
+            case rt_member_type_t::general:
+                return ((decorate_value_t)(*(rt_method_t *)method)->decorate).is_static;
+
+            case rt_member_type_t::generic:
+                return ((decorate_value_t)(*((rt_generic_method_t *)method)->template_)->decorate)
+                                                                                      .is_static;
+
+            default:
+                return false;
+        }
+    }
+
     // - - - - - - - - - - - - - - - - - - - - - - - - - -
     // delegate invoke call command.
 
@@ -4618,7 +4635,21 @@ namespace X_ROOT_NS::modules::exec {
 
             exec_method_t * exec_method = ctx.env.exec_method_of(method);
 
-            __Argument(rt_object_t *, __this_offset) = object;
+            if (__is_static_method(method))
+            {
+                // A static method takes no instance, its slot is removed from the stack.
+                rt_stack_unit_t * lp = ctx.stack.lp();
+                rt_stack_unit_t * p = lp - __This->__this_offset;
+
+                std::memmove(p, p + 1, (byte_t *)lp - (byte_t *)(p + 1));
+                ctx.stack.set_lp(lp - 1);
+                ctx.stack.increase_top(-1);
+            }
+            else
+            {
+                __Argument(rt_object_t *, __This->__this_offset) = object;
+            }
+
             ctx.switch_to(exec_method);
 
         __EndExecute()
-- 
2.43.0


From a1ce12b2093b7513115fc669ba7cff66e1246232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:35 +0000
Subject: [PATCH 68/76] fix: local variables are laid out in linear time and
 without overlaps or reads past their list

---
 modules/rt/__layout.h |  52 +----------
 modules/rt/layout.cpp | 194 ++++--------------------------------------
 2 files changed, 16 insertions(+), 230 deletions(-)

diff --git a/modules/rt/__layout.h b/modules/rt/__layout.h
index 9f36177..ebff952 100644
--- a/modules/rt/__layout.h
+++ b/modules/rt/__layout.h
@@ -316,80 +316,30 @@ namespace X_ROOT_NS::modules::rt {
             bool region_flag = false;       // Region flag.
 
             msize_t offset;                 // Offset
-            msize_t new_index;              // The new index.
 
             // Converts to string.
             operator string_t() const;
         };
 
         msize_t __local_unit_size = 0;      // Local unit size.
-        static const msize_t __empty_msize = max_value<msize_t>();
 
         al::heap_t<__item_t> __items;
         __vector_t<__item_t *> __temp_items;
 
-        // Local variable partial.
-        struct __partial_t
-        {
-            // Constructor.
-            __partial_t(msize_t index, msize_t begin)
-                : index(index), begin(begin) { }
-
-            msize_t index, begin;
-            msize_t offset = 0;
-
-            // Converts to string.
-            operator string_t() const
-            {
-                return _F(_T("index: %1%, offset: %2%"), index, offset);
-            }
-        };
-
-        typedef al::svector_t<__partial_t *, 16> __partials_t;
-        typedef typename __partials_t::iterator __partial_iterator_t;
-
         // Local variable group.
         struct __group_t
         {
-            void append(__item_t * item);
-            void reset(msize_t index);
-
-            __self_t * __owner;
-            msize_t __index = 0;
-            bool __is_reset = true;
             storage_type_t storage_type;
 
             __vector_t<__item_t *> items;
-            __partials_t partials;
 
         } __groups[(size_t)storage_type_t::__end__];
 
-        typedef typename __vector_t<__item_t *>::iterator __item_iterator_t;
-        al::heap_t<__partial_t> __partial_heap;
-
-        // Finds reset index.
-        msize_t __find_reset_index(msize_t index, storage_type_t storage_type);
-
         // Returns current identity.
         msize_t __current_identity() { return __items.size(); }
 
         // Arrange variables.
-        template<typename _f_t, typename _caller_t>
-        msize_t __arrange_variables_f(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end,
-                    _f_t f, _caller_t caller);
-
-        // Arrange variables.
-        msize_t __arrange_variables(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end);
-
-        // The min index of specified local variable sequences.
-        msize_t __min_index(__partial_iterator_t it_begin,
-                    __partial_iterator_t it_end, msize_t * out_end);
-
-        // Sets offset.
-        msize_t __set_offsets(msize_t offset,
-                    __item_iterator_t it_begin, __item_iterator_t it_end);
+        msize_t __arrange_variables(__group_t & g, msize_t offset);
 
         // Each variable items.
         template<typename f_t> void each(f_t f)
diff --git a/modules/rt/layout.cpp b/modules/rt/layout.cpp
index 1c13f47..41a7205 100644
--- a/modules/rt/layout.cpp
+++ b/modules/rt/layout.cpp
@@ -439,29 +439,9 @@ namespace X_ROOT_NS::modules::rt {
         int storage_type = 0;
         al::for_each(__groups, [this, &storage_type](__group_t & g) {
             g.storage_type = (storage_type_t)storage_type++;
-            g.__owner = this;
         });
     }
 
-    // Finds reset index.
-    msize_t locals_layout_t::__find_reset_index(msize_t index,
-                                        storage_type_t storage_type)
-    {
-        for (int k = __items.size() - 1; k >= 0; k--)
-        {
-            __item_t & it = __items[k];
-            if (it.index > index || it.storage_type != storage_type)
-                continue;
-
-            if (it.index == index)
-                return it.new_index;
-
-            return it.new_index + 1;
-        }
-
-        return 0;
-    }
-
     // Appends a variable defination.
     void locals_layout_t::append(local_variable_defination_t & def)
     {
@@ -478,27 +458,11 @@ namespace X_ROOT_NS::modules::rt {
             return;
         }
 
-        // The last variable, temporary ones have no index.
-        int last = __items.size() - 1;
-        while (last >= 0 && __items[last].index == local_variable_defination_t::temp_index)
-            last--;
-
-        if (last >= 0 && def.index <= __items[last].index)
-        {
-            for (int k = 0; k < X_ARRAY_SIZE(__groups); k++)
-            {
-                __group_t & g = __groups[k];
-                msize_t reset_index = __find_reset_index(def.index, (storage_type_t)k);
-
-                g.reset(reset_index);
-            }
-        }
-
         __item_t * item = __items.new_obj(
             def.index, __current_identity(), size, storage_type, type
         );
 
-        __groups[(size_t)storage_type].append(item);
+        __groups[(size_t)storage_type].items.push_back(item);
     }
 
     // Converts to string.
@@ -509,30 +473,6 @@ namespace X_ROOT_NS::modules::rt {
         );
     }
 
-    // Append a iterm to a group.
-    void locals_layout_t::__group_t::append(__item_t * item)
-    {
-        item->new_index = __index++;
-        items.push_back(item);
-
-        if (__is_reset)
-        {
-            __is_reset = false;
-            msize_t new_index = item->new_index;
-
-            partials.push_back(
-                __owner->__partial_heap.new_obj(new_index, items.size() - 1)
-            );
-        }
-    }
-
-    // Resets the index.
-    void locals_layout_t::__group_t::reset(msize_t index)
-    {
-        __index = index;
-        __is_reset = true;
-    }
-
     // Commits it.
     void locals_layout_t::commit()
     {
@@ -547,9 +487,7 @@ namespace X_ROOT_NS::modules::rt {
                     case storage_type_t::ref:
                     case storage_type_t::value:
                     case storage_type_t::mixture:
-                        offset = __arrange_variables(
-                            g, offset, g.partials.begin(), g.partials.end()
-                        );
+                        offset = __arrange_variables(g, offset);
                         break;
 
                     default:
@@ -569,128 +507,26 @@ namespace X_ROOT_NS::modules::rt {
     }
 
     // Arrange variables.
-    template<typename _f_t, typename _caller_t>
-    msize_t locals_layout_t::__arrange_variables_f(__group_t & g,
-            msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end,
-            _f_t f, _caller_t caller)
+    msize_t locals_layout_t::__arrange_variables(__group_t & g, msize_t offset)
     {
-        __partial_t * partial = *it_begin;
-
-        msize_t end_idx;
-        msize_t child_index = __min_index(it_begin, it_end, &end_idx);
-
-        __item_iterator_t begin = g.items.begin() + partial->begin;
-        __item_iterator_t end   = (child_index != __empty_msize)?
-                  begin + (child_index - partial->index)
-                : (end_idx != __empty_msize)? g.items.begin() + end_idx : g.items.end();
+        // Variables whose scopes contain the current one, ordered by their indexes.
+        std::vector<__item_t *> scope;
+        msize_t max_offset = offset;
 
-        msize_t new_offset = f(offset, begin, end);
-
-        if (child_index != __empty_msize)
+        for (__item_t * item : g.items)
         {
-            msize_t max_offset = 0;
-
-            __partial_t bk = **it_begin;
-            **it_begin = __partial_t(child_index, end - g.items.begin());
-            max_offset = al::max(max_offset, caller(g, new_offset, it_begin, it_end));
-            **it_begin = bk;
-
-            for (__partial_iterator_t it = it_begin + 1; it < it_end; it++)
-            {
-                __partial_t * partial1 = *it;
-                if (partial1->index <= partial->index)
-                    break;
-
-                if (partial1->index == child_index)
-                    max_offset = al::max(max_offset, caller(g, new_offset, it, it_end));
-            }
-
-            return al::max(new_offset, max_offset);
-        }
+            // The scope of a variable ends where a variable with the same or a smaller index begins.
+            while (!scope.empty() && scope.back()->index >= item->index)
+                scope.pop_back();
 
-        if (it_begin + 1 < it_end)
-        {
-            return al::max(new_offset,
-                __arrange_variables_f(g, offset, it_begin + 1, it_end, f, caller)
-            );
-        }
-
-        return new_offset;
-    }
-
-    // Arrange variables.
-    msize_t locals_layout_t::__arrange_variables(__group_t & g,
-            msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end)
-    {
-        using namespace std::placeholders;
-        return __arrange_variables_f(g, offset, it_begin, it_end,
-            std::bind(&locals_layout_t::__set_offsets, this, _1, _2, _3),
-            std::bind(&locals_layout_t::__arrange_variables, this, _1, _2, _3, _4)
-        );
-    }
-
-    // The min index of specified local variable sequences.
-    msize_t locals_layout_t::__min_index(__partial_iterator_t it_begin,
-                                         __partial_iterator_t it_end, msize_t * out_end)
-    {
-        __partial_t * partial = *it_begin;
-
-        msize_t min_index = __empty_msize;
-        for (__partial_iterator_t it = it_begin + 1; it < it_end; it++)
-        {
-            __partial_t * partial1 = *it;
-
-            if (partial1->index <= partial->index)
-            {
-                *out_end = partial1->begin;
-                return min_index;
-            }
-
-            min_index = al::min(partial1->index, min_index);
-        }
-
-        *out_end = __empty_msize;
-        return min_index;
-    }
-
-    // Sets offset.
-    msize_t locals_layout_t::__set_offsets(msize_t offset,
-                            __item_iterator_t it_begin, __item_iterator_t it_end)
-    {
-        //_PF(_T("__set_offsets: %1%, %2%"), (*it_begin)->identity, (*(it_end - 1))->identity);
-
-        std::sort(it_begin, it_end, [](__item_t * it1, __item_t * it2) {
-            return it1->size > it2->size;
-        });
-
-        msize_t offset_aligned = unit_align(offset, (*it_begin)->size);
-
-        for (; it_end > it_begin + 1 && !unit_is_aligned(offset, (*it_begin)->size); )
-        {
-            __item_t * it = *(it_end - 1);
-            msize_t offset0 = unit_align(offset, it->size) + it->size;
-            if (offset0 <= offset_aligned)
-            {
-                it->offset = offset;
-                offset = offset0;
-                //_PF(_T("* %1%: size %2% offset %3%"), it->identity, it->size, it->offset);
-                it_end--;
-            }
-
-            if (offset0 >= offset_aligned)
-                break;
-        }
-
-        for (__item_iterator_t it = it_begin; it < it_end; it++)
-        {
-            msize_t size = (*it)->size;
-            (*it)->offset = offset;
+            msize_t begin = scope.empty()? offset : scope.back()->offset + scope.back()->size;
+            item->offset = unit_align(begin, item->size);
 
-            offset = unit_align(offset, size) + size;
-            //_PF(_T("# %1%: size %2% offset %3%"), (*it)->identity, size, (*it)->offset);
+            scope.push_back(item);
+            max_offset = al::max(max_offset, (msize_t)(item->offset + item->size));
         }
 
-        return offset;
+        return max_offset;
     }
 
     // Returns offset of local variable identity.
-- 
2.43.0


From a48b6d27bda91cc9fac0af738c0fc2d312cb3d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:18 +0000
Subject: [PATCH 69/76] fix: a separator may follow a letter digit of a
 hexadecimal literal

0x3e'7 was rejected as 'numeric format error'.
---
 algorithm/numeric.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/algorithm/numeric.cpp b/algorithm/numeric.cpp
index d942583..532c7e7 100644
--- a/algorithm/numeric.cpp
+++ b/algorithm/numeric.cpp
@@ -498,8 +498,11 @@ namespace X_ROOT_NS::algorithm {
                         break;
 
                     case _T('\''):
-                        if (!al::is_digit(*(__p - 1)))
+                        if (!al::is_digit(*(__p - 1))
+                            && !(__radix == 16 && std::isxdigit(*(__p - 1))))
+                        {
                             __set_error(__e_t::format_error);
+                        }
                         break;
 
                     default:
-- 
2.43.0


From 2e44f8b0cb9d11786f9693fae6471d59828d0e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:18 +0000
Subject: [PATCH 70/76] fix: the subject of a switch is converted to int

A switch on a byte, sbyte, short, ushort or bool read more bytes than the
subject has and took the wrong section.
---
 modules/compile/__xilx.h       |  5 +++--
 modules/compile/statements.cpp |  7 ++++---
 modules/compile/xilx.cpp       | 15 +++++++++++++++
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/modules/compile/__xilx.h b/modules/compile/__xilx.h
index 942d9c6..0ef15b0 100644
--- a/modules/compile/__xilx.h
+++ b/modules/compile/__xilx.h
@@ -455,8 +455,8 @@ namespace X_ROOT_NS::modules::compile {
     public:
 
         // Constructor.
-        switch_jmp_xilx_t(__region_t & region, switch_table_t * table)
-            : __super_t(region), table(table)
+        switch_jmp_xilx_t(__region_t & region, switch_table_t * table, expression_t * expression)
+            : __super_t(region), table(table), expression(expression)
         {
             _A(table != nullptr);
         }
@@ -465,6 +465,7 @@ namespace X_ROOT_NS::modules::compile {
         virtual void write(__xw_context_t & ctx, xil_pool_t & pool) override;
 
         switch_table_t * table;
+        expression_t * expression;      // The value switched on.
 
         // Converts to a string.
         virtual const string_t to_string() const override
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 183023f..05d0161 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -57,9 +57,10 @@ namespace X_ROOT_NS::modules::compile {
         }
 
         // Appends switch jmp xilx.
-        switch_jmp_xilx_t * __append_switch(__context_t & ctx, switch_table_t * tbl)
+        switch_jmp_xilx_t * __append_switch(__context_t & ctx, switch_table_t * tbl,
+                                                               expression_t * expression)
         {
-            return append_xilx<switch_jmp_xilx_t>(ctx, tbl);
+            return append_xilx<switch_jmp_xilx_t>(ctx, tbl, expression);
         }
 
         //-------- ---------- ---------- ---------- ----------
@@ -1210,7 +1211,7 @@ namespace X_ROOT_NS::modules::compile {
         append_expression(ctx, expression);
 
         switch_table_t * tbl = ctx.switch_manager.append_table(row_count);
-        __append_switch (ctx, tbl);
+        __append_switch (ctx, tbl, expression);
 
         switch_row_t * rows = (switch_row_t *)tbl->rows;
 
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 1f29412..ab81e1b 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -607,6 +607,21 @@ namespace X_ROOT_NS::modules::compile {
     // Writes xils to pool.
     void switch_jmp_xilx_t::write(__xw_context_t & ctx, xil_pool_t & pool)
     {
+        // The switch command takes an int, values of smaller types are converted.
+        switch (xil_type_t dtype = to_xil_type(expression->get_type()))
+        {
+            case xil_type_t::int8:
+            case xil_type_t::uint8:
+            case xil_type_t::int16:
+            case xil_type_t::uint16:
+            case xil_type_t::bool_:
+                pool.append<x_push_convert_xil_t>(dtype, xil_type_t::int32);
+                break;
+
+            default:
+                break;
+        }
+
         x_switch_xil_t * xil = pool.append<x_switch_xil_t>(table->index);
         table->jmp_xil = xil;
     }
-- 
2.43.0


From e955528a9be886ca334101e7f6df28020375d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:48 +0000
Subject: [PATCH 71/76] fix: an unused cast still evaluates its operand

A switch with only a default section did not evaluate a subject that is
a cast.
---
 modules/compile/expression.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 07bf4a3..5915afe 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3027,12 +3027,15 @@ namespace X_ROOT_NS::modules::compile {
     void __sys_t<type_cast_expression_t>::compile(__cctx_t & ctx, xil_pool_t & pool,
                                                         const __environment_t & env)
     {
-        if (!is_effective(ctx, this))
-            return;
-
         expression_t * exp = this->expression();
         __FailedWhenNull(exp, _T("expresion empty"));
 
+        if (!is_effective(ctx, this))
+        {
+            exp->compile(ctx, pool);    // The operand may have effects.
+            return;
+        }
+
         type_t * type = this->get_type();
         __FailedWhenNull(type, _T("type empty"));
 
-- 
2.43.0


From 3fc13b5cb3d34a295d0cf198390edcdd1947ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:25 +0000
Subject: [PATCH 72/76] fix: a switch without case labels evaluates its subject

The value of the subject was taken for unused, so that the condition of a
?: in it was not evaluated, or its value was missing on the stack.
---
 modules/compile/__xilx.h       | 28 ++++++++++++++++++++++++++++
 modules/compile/statements.cpp | 11 +++++++++--
 modules/compile/xilx.cpp       |  8 ++++++++
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/modules/compile/__xilx.h b/modules/compile/__xilx.h
index 0ef15b0..0084d1a 100644
--- a/modules/compile/__xilx.h
+++ b/modules/compile/__xilx.h
@@ -476,6 +476,34 @@ namespace X_ROOT_NS::modules::compile {
 
     //-------- ---------- ---------- ---------- ----------
 
+    // Removes the value of an expression from the stack.
+    class pop_value_xilx_t : public xilx_base_t
+    {
+        typedef xilx_base_t __super_t;
+
+    public:
+
+        // Constructor.
+        pop_value_xilx_t(__region_t & region, expression_t * expression)
+            : __super_t(region), expression(expression)
+        {
+            _A(expression != nullptr);
+        }
+
+        // Writes xils to a pool.
+        virtual void write(__xw_context_t & ctx, xil_pool_t & pool) override;
+
+        expression_t * expression;
+
+        // Converts to a string.
+        virtual const string_t to_string() const override
+        {
+            return _F(_T("pop value: %1%"), expression);
+        }
+    };
+
+    //-------- ---------- ---------- ---------- ----------
+
     // Block copy xilx.
     class block_copy_xilx_t : public xilx_base_t
     {
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 05d0161..26b7b27 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -1326,10 +1326,17 @@ namespace X_ROOT_NS::modules::compile {
         return count;
     }
 
+    // Appends a subject whose value decides nothing, for its effects.
+    static void __append_subject(statement_compile_context_t & ctx, expression_t * expression)
+    {
+        append_expression(ctx, expression, true);
+        append_xilx<pop_value_xilx_t>(ctx, expression);
+    }
+
     // Compiles as statement.
     void switch_statement_t::__compile_as_statement(statement_compile_context_t & ctx)
     {
-        append_expression(ctx, expression, false);
+        __append_subject(ctx, expression);
 
         if (cases.size() == 0)
             return;
@@ -1376,7 +1383,7 @@ namespace X_ROOT_NS::modules::compile {
 
         if (if_statements == else_statements)
         {
-            append_expression(ctx, expression, false);
+            __append_subject(ctx, expression);
             compile_statements(ctx, if_statements);
         }
         else
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index ab81e1b..ded3777 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -626,6 +626,14 @@ namespace X_ROOT_NS::modules::compile {
         table->jmp_xil = xil;
     }
 
+    //-------- ---------- ---------- ---------- ----------
+
+    // Writes xils to pool.
+    void pop_value_xilx_t::write(__xw_context_t & ctx, xil_pool_t & pool)
+    {
+        pool.append<x_pop_empty_xil_t>(to_xil_type(expression->get_type()));
+    }
+
     ////////// ////////// ////////// ////////// //////////
 
 }   // namespace X_ROOT_NS::modules::compile
-- 
2.43.0


From bb7329d6e37148b9d1e5dbad30f1f5032f8e6ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:03 +0000
Subject: [PATCH 73/76] fix: report an override that changes the access
 modifier instead of asserting

---
 modules/compile/ast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index 00240c6..ed274e8 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -506,7 +506,7 @@ namespace X_ROOT_NS::modules::compile {
         // Cannot change access modifiers when overriding inherited member.
         X_D(access_modifier_changed,
                 _T("%1%: cannot change access modifiers when overriding '%2%' inherited ")
-                _T("member '%2%'"))
+                _T("member '%3%'"))
 
         // Cannot change return types when override inherited members.
         X_D(return_type_changed,
-- 
2.43.0


From 523f83be662e84076685633ef7b78f092f12bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:03 +0000
Subject: [PATCH 74/76] fix: report a method body in an interface instead of
 asserting

---
 modules/compile/ast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index ed274e8..3404d27 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -775,7 +775,8 @@ namespace X_ROOT_NS::modules::compile {
                 method_t * method = (method_t *)member;
                 if (method->body != nullptr)
                 {
-                    this->__log(ce, c_t::interface_members_cannot_have_defination);
+                    this->__log(ce, c_t::interface_members_cannot_have_defination,
+                                                            member->to_prototype());
                     return false;
                 }
             }
-- 
2.43.0


From ac520e5cbb7b8adf716510c00178a18f8dd7b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:03 +0000
Subject: [PATCH 75/76] fix: report a local variable declared twice instead of
 crashing

---
 modules/compile/ast.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index 3404d27..1a1b3a6 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -3991,6 +3991,9 @@ namespace X_ROOT_NS::modules::compile {
         for (int index = 0, count = this->items.size(); index < count; ++index)
         {
             defination_statement_item_t * var_item = this->items[index];
+            if (var_item->variable == nullptr)      // Not defined, already reported.
+                continue;
+
             if (__is_uncertain(var_item->variable->type_name))
             {
                 type_t * type = nullptr;
-- 
2.43.0


From 8b51069ffd08caad226d8bc7f0a8cdcb6f0027c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:03 +0000
Subject: [PATCH 76/76] fix: a method of an object is not hidden by a variable
 of the same name

---
 modules/compile/ast_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index 4e1c682..bcef6db 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1568,8 +1568,10 @@ namespace X_ROOT_NS::modules::compile {
                     name_expression_t * name_exp = (name_expression_t *)namex_exp;
                     variable_t * variable;
 
+                    // A member of another object is hidden only by a delegate variable.
                     if (__region != nullptr && (variable = __region->get(name_exp->name)) != nullptr
-                                && variable->this_type() != variable_type_t::method)
+                        && variable->this_type() != variable_type_t::method
+                        && (type == nullptr || __try_fetch_delegate_type(variable->get_type())))
                     {
                         function_exp->set_variable(variable);
                         __walk_arguments(function_exp->arguments());
-- 
2.43.0

