From 7abcdb334ab5ff6246821cf9f41537c652844ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:48 +0000
Subject: [PATCH 01/55] fix: do not print compiler debug output when a struct
 is passed by value

---
 modules/compile/expression.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index eb964ab..77d3b0a 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1092,8 +1092,6 @@ namespace X_ROOT_NS::modules::compile {
             ref_t type_ref = __ref_of(ctx, atype);
             pool.append<x_stack_alloc_xil_t>(type_ref);
 
-            _PP(atype);
-
             exp->compile(ctx, pool);
         }
         else
-- 
2.43.0


From 6569ec1e8acf9f24029e99f432b0c2fab25319dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:48 +0000
Subject: [PATCH 02/55] fix: Console.WriteLine(ulong) ends the line

---
 modules/rtlib/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/rtlib/system.cpp b/modules/rtlib/system.cpp
index fa9995e..8abed2f 100644
--- a/modules/rtlib/system.cpp
+++ b/modules/rtlib/system.cpp
@@ -138,7 +138,7 @@ namespace X_ROOT_NS::modules::rtlib {
 
     void console_write_uint64_line(rtlib_context_t & ctx)
     {
-        __console_write<ruint64_t>(ctx);
+        __console_write_line<ruint64_t>(ctx);
     }
 
     void console_write_float(rtlib_context_t & ctx)
-- 
2.43.0


From 73fb000237f6fb72aba6fa8bb41d7d53ded35fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:12 +0000
Subject: [PATCH 03/55] fix: && and || evaluate their right operand only when
 needed

---
 modules/compile/expression.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 77d3b0a..f56deb2 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -916,10 +916,16 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        // The right operand is evaluated only when the left one does not decide the result.
         exp1->compile(ctx, pool);
+        pool.append<x_push_duplicate_xil_t>();
+
+        jmp_xil_t * jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::false_);
+
+        pool.append<x_pop_empty_xil_t>(xil_type_t::bool_);
         exp2->compile(ctx, pool);
 
-        pool.append<x_logic_xil_t>(xil_logic_command_t::and_);
+        xil::append_label_xil(ctx.statement_ctx, pool, jmp_xil);
     }
 
     // Compiles logic or expression.
@@ -941,10 +947,16 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        // The right operand is evaluated only when the left one does not decide the result.
         exp1->compile(ctx, pool);
+        pool.append<x_push_duplicate_xil_t>();
+
+        jmp_xil_t * jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::true_);
+
+        pool.append<x_pop_empty_xil_t>(xil_type_t::bool_);
         exp2->compile(ctx, pool);
 
-        pool.append<x_logic_xil_t>(xil_logic_command_t::or_);
+        xil::append_label_xil(ctx.statement_ctx, pool, jmp_xil);
     }
 
     // Compiles logic not expression.
-- 
2.43.0


From d032b2b897460671d35500c43aa23831540720ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:07 +0000
Subject: [PATCH 04/55] fix: return in a try block evaluates its value before
 running finally blocks

---
 modules/compile/__xilx.h       | 7 +++++--
 modules/compile/statements.cpp | 7 ++-----
 modules/compile/xilx.cpp       | 3 +++
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/modules/compile/__xilx.h b/modules/compile/__xilx.h
index 3d59a6f..41bf7a4 100644
--- a/modules/compile/__xilx.h
+++ b/modules/compile/__xilx.h
@@ -178,13 +178,16 @@ namespace X_ROOT_NS::modules::compile {
     public:
 
         // Constructor.
-        return_xilx_t(__region_t & region, expression_t * expression)
+        return_xilx_t(__region_t & region, expression_t * expression, bool leave = false)
             : __super_t(region)
-            , expression(expression) { }
+            , expression(expression), leave(leave) { }
 
         // Return expression.
         expression_t * expression;
 
+        // Whether leaves protected regions, after the expression was evaluated.
+        bool leave;
+
         // Writes xilx to a pool.
         virtual void write(__xw_context_t & ctx, xil_pool_t & pool) override;
 
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 2ee30bf..4a8c4be 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -648,17 +648,14 @@ namespace X_ROOT_NS::modules::compile {
     // Compiles this statement.
     void return_statement_t::compile(statement_compile_context_t & ctx) 
     {
-        // Insert leave command before return in protected regions.
-        if (__need_leave(ctx))
-            xilx::append_xilx<leave_ret_xilx_t>(ctx);
-
         if (expression != nullptr)
         {
             __walk_variables(expression);
             set_assign_parent(expression);
         }
 
-        append_xilx<return_xilx_t>(ctx, expression);
+        // Insert leave command before return in protected regions.
+        append_xilx<return_xilx_t>(ctx, expression, __need_leave(ctx));
     }
 
     // Returns exit type.
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 40f49e2..4e64683 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -492,6 +492,9 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        if (leave)
+            xil::append_jmp_xil(pool, xil_jmp_model_t::leave);
+
         xil::append_ret(pool);
     }
 
-- 
2.43.0


From 2b94eb90726edac765259f3d6c1e2a784a21fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:07 +0000
Subject: [PATCH 05/55] fix: do not read past the block table when no block
 covers the point

---
 include/modules/exec.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index ea40ec2..626c1d4 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -608,6 +608,9 @@ namespace X_ROOT_NS::modules::exec {
                 }
             }
 
+            if (block == block_end)     // Not found.
+                return;
+
             while ((block = block->parent) != nullptr)
             {
                 if (__MatchBlockType(block) && !f(block))
-- 
2.43.0


From eb8810a61e2394eaa103d11c609c6aeaeb15f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:07 +0000
Subject: [PATCH 06/55] fix: allocate and clear all the elements of a
 multi-dimensional array

---
 modules/mm/mm.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index d05be4f..005cb52 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -140,6 +140,11 @@ namespace X_ROOT_NS::modules::mm {
         dimension_t dimension = type->dimension;
 
         array_length_t length = *lengths;
+        for (const l_t * l = lengths + 1, * l_end = lengths + dimension; l < l_end; l++)
+        {
+            length *= *l;
+        }
+
         size_t element_size = unit_align(1, type->element_type->get_size());
         size_t size = _alignf(length * element_size, sizeof(rt_stack_unit_t));
 
@@ -158,11 +163,6 @@ namespace X_ROOT_NS::modules::mm {
         }
         else if (dimension >= 2)
         {
-            for (const l_t * l = lengths + 1, * l_end = lengths + dimension; l < l_end; l++)
-            {
-                length *= *l;
-            }
-
             // type info + length of each dimensions + array length.
             const size_t extern_size = _alignf(
                 sizeof(rt_type_t *) + sizeof(array_length_t) * dimension + sizeof(array_length_t),
-- 
2.43.0


From ff299cbdc6684e0a691c583081227ce32127fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 07/55] fix: accessing a field or an array element of null
 raises NullReferenceException

---
 modules/exec/commands.cpp | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 5125de2..1a0bc7e 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1044,8 +1044,11 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
             ctx.stack.push(static_cast<__value2_t>(
-                __Field(__value1_t, ctx.stack.pop<rt_ref_t>(), __This->__offset)
+                __Field(__value1_t, obj, __This->__offset)
             ));
 
         __EndExecute()
@@ -1078,9 +1081,10 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
-            ctx.stack.push(
-                __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset)
-            );
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
+            ctx.stack.push(__FieldAddress(obj, __This->__offset));
 
         __EndExecute()
 
@@ -1254,6 +1258,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
 
             if constexpr (_dimension >= 2)
@@ -1295,6 +1301,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
@@ -1368,6 +1376,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
 
             if constexpr (_dimension >= 2)
@@ -1408,6 +1418,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
@@ -2922,7 +2934,10 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
-            void * field = __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset);
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
+            void * field = __FieldAddress(obj, __This->__offset);
             *(__value1_t *)field = static_cast<__value1_t>(ctx.stack.pop<__value2_t>());
 
         __EndExecute()
@@ -2967,6 +2982,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
 
             if (_dimension >= 2)
@@ -3007,6 +3024,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
@@ -3495,7 +3514,10 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
-            void * field = __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset);
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
+            void * field = __FieldAddress(obj, __This->__offset);
             *(__value1_t *)field = static_cast<__value1_t>(ctx.stack.pick<__value2_t>());
 
         __EndExecute()
@@ -3541,6 +3563,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
 
             if (_dimension >= 2)
@@ -3578,6 +3602,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
+            __CheckNullReference(ctx, array_ref);
+
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-- 
2.43.0


From c24272a0ffae8e0b1121d77125b677e2574943db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:44 +0000
Subject: [PATCH 08/55] fix: every array element access out of range raises
 OutOfRangeException, negative indexes included

---
 modules/exec/commands.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 1a0bc7e..4ac5317 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1234,6 +1234,12 @@ namespace X_ROOT_NS::modules::exec {
         }
     }
 
+    // Returns whether the index is out of range of the array, a negative index is out of range.
+    __AlwaysInline static bool __out_of_array_range(rt_ref_t array_ref, array_length_t index)
+    {
+        return index < 0 || index >= mm::get_array_length(array_ref);
+    }
+
     //-------- ---------- ---------- ---------- ----------
     // Push array element.
 
@@ -1268,7 +1274,7 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (__out_of_array_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1308,7 +1314,7 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
-            if (index >= mm::get_array_length(array_ref))
+            if (__out_of_array_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1386,7 +1392,7 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (__out_of_array_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -1425,7 +1431,7 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
-            if (index >= mm::get_array_length(array_ref))
+            if (__out_of_array_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -2992,7 +2998,7 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (__out_of_array_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
@@ -3031,6 +3037,9 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
+            if (__out_of_array_range(array_ref, index))
+                __RaiseOutOfRangeException(ctx);
+
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pop<__value2_t>())
             );
@@ -3573,6 +3582,9 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
+            if (__out_of_array_range(array_ref, index))
+                __RaiseOutOfRangeException(ctx);
+
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
             );
@@ -3609,6 +3621,9 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
+            if (__out_of_array_range(array_ref, index))
+                __RaiseOutOfRangeException(ctx);
+
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
             );
-- 
2.43.0


From 8703a92a781590c94e191bd7225c6637aeead221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:09 +0000
Subject: [PATCH 09/55] fix: continue in a do-while loop evaluates the
 condition

---
 modules/compile/statements.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 4a8c4be..21fb1e6 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -682,15 +682,20 @@ namespace X_ROOT_NS::modules::compile {
     {
         ctx.begin_region<__do_while_statement_region_t>();
 
-        set_point(ctx, __exit_point_type_t::continue_);
+        local_label_t label_body = ctx.next_local_label();
+
+        append_local_label(ctx, label_body);
         compile_statement(ctx, body);
 
+        // A continue statement in the body goes to the condition.
+        set_point(ctx, __exit_point_type_t::continue_);
+
         cvalue_t condition_value = __remove_unreached_codes(ctx)?
                         execute_expression(condition) : cvalue_t::nan;
 
         if (condition_value == true || condition == nullptr)
         {
-            append_jmp(ctx, __exit_point_type_t::continue_);
+            append_jmp(ctx, label_body);
         }
         else if (condition_value == false)
         {
@@ -699,7 +704,7 @@ namespace X_ROOT_NS::modules::compile {
         else
         {
             append_expression(ctx, condition, true);
-            append_jmp(ctx, __exit_point_type_t::continue_, xil_jmp_model_t::true_);
+            append_jmp(ctx, label_body, xil_jmp_model_t::true_);
         }
 
         set_point(ctx, __exit_point_type_t::break_);
-- 
2.43.0


From b9a349057ab627a3a898ac2cdbada390db5e2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:16 +0000
Subject: [PATCH 10/55] fix: reachability of the end of loops and try
 statements

---
 modules/compile/statements.cpp | 87 ++++++++++++++++------------------
 1 file changed, 42 insertions(+), 45 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 21fb1e6..67c90de 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -173,6 +173,30 @@ namespace X_ROOT_NS::modules::compile {
         return et == __exit_type_t::none || et.has(__exit_type_t::pass);
     }
 
+    // Returns exit type of a loop.
+    // finish: whether the loop can be finished by its condition.
+    __exit_type_t __loop_exit_type(__e_exit_type_t et_body, bool finish)
+    {
+        if (!finish && !et_body.has(__FreeExitFlags))
+            return __exit_type_t::dead_cycle;
+
+        bool pass = finish || et_body.has(__exit_type_t::break_);
+        et_body.remove(__exit_type_t::break_, __exit_type_t::continue_, __exit_type_t::pass);
+
+        if (pass)
+            et_body.add(__exit_type_t::pass);
+
+        return *et_body;
+    }
+
+    // Returns exit type of a loop that checks its condition after the body.
+    __exit_type_t __post_check_loop_exit_type(__e_exit_type_t et_body)
+    {
+        return __loop_exit_type(et_body, et_body == __exit_type_t::none
+            || et_body.has(__exit_type_t::pass) || et_body.has(__exit_type_t::continue_)
+        );
+    }
+
     // Remove unreached codes.
     bool __remove_unreached_codes(statement_compile_context_t & ctx)
     {
@@ -718,17 +742,9 @@ namespace X_ROOT_NS::modules::compile {
 
         // When condition always true.
         if (condition_value == true || condition == nullptr)
-        {
-            __e_exit_type_t et_body = __exit_type(ctx, body);
-            if (!et_body.has(__FreeExitFlags))
-                return __exit_type_t::dead_cycle;
-
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
-        }
+            return __loop_exit_type(__exit_type(ctx, body), false);
 
-        __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __post_check_loop_exit_type(__exit_type(ctx, body));
     }
 
     X_DEFINE_TO_STRING(do_while_statement_t)
@@ -786,21 +802,13 @@ namespace X_ROOT_NS::modules::compile {
 
         // When condition always false.
         if (condition_value == false || condition == nullptr)
-        {
-            __e_exit_type_t et_body = __exit_type(ctx, body);
-            if (!et_body.has(__FreeExitFlags))
-                return __exit_type_t::dead_cycle;
-
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
-        }
+            return __loop_exit_type(__exit_type(ctx, body), false);
 
         // When condition always true.
         if (condition_value == true)
             return __exit_type_t::none;
 
-        __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __post_check_loop_exit_type(__exit_type(ctx, body));
     }
 
     X_DEFINE_TO_STRING(loop_until_statement_t)
@@ -860,17 +868,9 @@ namespace X_ROOT_NS::modules::compile {
 
         // When condition always true.
         if (condition_value == true || condition == nullptr)
-        {
-            __e_exit_type_t et_body = __exit_type(ctx, body);
-            if (!et_body.has(__FreeExitFlags))
-                return __exit_type_t::dead_cycle;
-
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
-        }
+            return __loop_exit_type(__exit_type(ctx, body), false);
 
-        __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __loop_exit_type(__exit_type(ctx, body), true);
     }
 
     X_DEFINE_TO_STRING(while_statement_t)
@@ -953,17 +953,9 @@ namespace X_ROOT_NS::modules::compile {
 
         // When condition always true.
         if (condition_value == true || condition == nullptr)
-        {
-            __e_exit_type_t et_body = __exit_type(ctx, body);
-            if (!et_body.has(__FreeExitFlags))
-                return __exit_type_t::dead_cycle;
-
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
-        }
+            return __loop_exit_type(__exit_type(ctx, body), false);
 
-        __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        return __loop_exit_type(__exit_type(ctx, body), true);
     }
 
     X_DEFINE_TO_STRING(for_statement_t)
@@ -1668,17 +1660,22 @@ namespace X_ROOT_NS::modules::compile {
         if (et_finally != __exit_type_t::none && !et_finally.has(__exit_type_t::pass))
             return et_finally;
 
+        // The end of try statement can be reached from try block and catch blocks.
         __e_exit_type_t et = __exit_type_of(ctx, try_statement);
-        if (!et.has(__exit_type_t::throw_))
-            return et;
+        bool pass = et == __exit_type_t::none || et.has(__exit_type_t::pass);
 
-        general_type_t * exception_type = __XPool.get_exception_type();
         for (catch_t * c : catches)
         {
-            if (c != nullptr && to_type(c->type_name) == exception_type)
-                et.remove(__exit_type_t::throw_);
+            __e_exit_type_t et_catch = __exit_type_of(ctx, c->body);
+            if (et_catch == __exit_type_t::none || et_catch.has(__exit_type_t::pass))
+                pass = true;
+
+            et |= et_catch;
         }
 
+        if (pass && et != __exit_type_t::none)
+            et.add(__exit_type_t::pass);
+
         return *et;
     }
 
-- 
2.43.0


From b717d997e2302c91ddf206783d437a6131e39aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:38 +0000
Subject: [PATCH 11/55] fix: operations mixing uint32 and signed integers are
 performed in int64, their result type

---
 modules/core/__vtype_traits.h | 59 ++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/modules/core/__vtype_traits.h b/modules/core/__vtype_traits.h
index 0b750a8..c739009 100644
--- a/modules/core/__vtype_traits.h
+++ b/modules/core/__vtype_traits.h
@@ -170,7 +170,14 @@ namespace X_ROOT_NS::modules::core {
 
         // Unitary operations.
         __DefineUnitaryOp(positive, +) 
-        __DefineUnitaryOp(minus, -) 
+
+        __BeginDefineUnitaryOp(minus, -)
+            if constexpr (std::is_same<vnum_t, uint32_t>::value)
+                return -(int64_t)v;     // The result type is int64.
+            else
+                return -v;
+        __EndDefineUnitaryOp()
+
         __DefineUnitaryOp(bit_not, ~) 
         __DefineUnitaryOp(logic_not, !) 
         __DefineUnitaryOp(left_increment, ++) 
@@ -206,12 +213,34 @@ namespace X_ROOT_NS::modules::core {
                 }                                                   \
             };
 
+        // Whether operands are an uint32 and a signed integer not wider than it, their
+        // operations are performed in int64.
+        template<typename vnum1_t, typename vnum2_t>
+        constexpr bool __is_mixed_uint32 =
+            (std::is_same<vnum1_t, uint32_t>::value && std::is_integral<vnum2_t>::value
+                && std::is_signed<vnum2_t>::value && sizeof(vnum2_t) <= sizeof(vnum1_t))
+            || (std::is_same<vnum2_t, uint32_t>::value && std::is_integral<vnum1_t>::value
+                && std::is_signed<vnum1_t>::value && sizeof(vnum1_t) <= sizeof(vnum2_t));
+
+        #define __DefineMixedBinaryOp(name, op)                     \
+            template<> struct __binary_op_t<operator_t::name>       \
+            {                                                       \
+                template<typename vnum1_t, typename vnum2_t>        \
+                auto operator()(vnum1_t v1, vnum2_t v2)             \
+                {                                                   \
+                    if constexpr (__is_mixed_uint32<vnum1_t, vnum2_t>) \
+                        return (int64_t)v1 op (int64_t)v2;          \
+                    else                                            \
+                        return v1 op v2;                            \
+                }                                                   \
+            };
+
         // Defines binary operations.
-        __DefineBinaryOp(add, +)
-        __DefineBinaryOp(sub, -)
-        __DefineBinaryOp(mul, *)
-        __DefineBinaryOp(div, /)
-        __DefineBinaryOp(mod, %)
+        __DefineMixedBinaryOp(add, +)
+        __DefineMixedBinaryOp(sub, -)
+        __DefineMixedBinaryOp(mul, *)
+        __DefineMixedBinaryOp(div, /)
+        __DefineMixedBinaryOp(mod, %)
 
         __DefineBinaryOp(add_assign, +=)
         __DefineBinaryOp(sub_assign, -=)
@@ -219,16 +248,16 @@ namespace X_ROOT_NS::modules::core {
         __DefineBinaryOp(div_assign, /=)
         __DefineBinaryOp(mod_assign, %=)
 
-        __DefineBinaryOp(greater, >)
-        __DefineBinaryOp(greater_equal, >=)
-        __DefineBinaryOp(less, <)
-        __DefineBinaryOp(less_equal, <=)
-        __DefineBinaryOp(equal, ==)
-        __DefineBinaryOp(not_equal, !=)
+        __DefineMixedBinaryOp(greater, >)
+        __DefineMixedBinaryOp(greater_equal, >=)
+        __DefineMixedBinaryOp(less, <)
+        __DefineMixedBinaryOp(less_equal, <=)
+        __DefineMixedBinaryOp(equal, ==)
+        __DefineMixedBinaryOp(not_equal, !=)
 
-        __DefineBinaryOp(bit_and, &)
-        __DefineBinaryOp(bit_or, |)
-        __DefineBinaryOp(bit_xor, ^)
+        __DefineMixedBinaryOp(bit_and, &)
+        __DefineMixedBinaryOp(bit_or, |)
+        __DefineMixedBinaryOp(bit_xor, ^)
         __DefineBinaryOp(left_shift, <<)
         __DefineBinaryOp(right_shift, >>)
 
-- 
2.43.0


From 0f135882bc40f9ec9b9b224aa4f2df6c83ca3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:46 +0000
Subject: [PATCH 12/55] fix: variable commands with an identity above 14 are
 written with it

---
 modules/core/__xil.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/core/__xil.h b/modules/core/__xil.h
index e50b6ae..355650c 100644
--- a/modules/core/__xil.h
+++ b/modules/core/__xil.h
@@ -887,6 +887,8 @@ namespace X_ROOT_NS::modules::core {
             case xil_storage_type_t::local_addr:
             case xil_storage_type_t::argument:
             case xil_storage_type_t::argument_addr:
+            case xil_storage_type_t::local_content:
+            case xil_storage_type_t::argument_content:
                 if (xil.identity == 15)
                     size += sizeof(uint16_t);
                 break;
@@ -1027,6 +1029,8 @@ namespace X_ROOT_NS::modules::core {
 
             case xil_storage_type_t::local:
             case xil_storage_type_t::argument:
+            case xil_storage_type_t::local_addr:
+            case xil_storage_type_t::argument_addr:
                 if (xil.identity == 15)
                     size += sizeof(uint16_t);
                 break;
@@ -1131,6 +1135,8 @@ namespace X_ROOT_NS::modules::core {
         {
             case xil_storage_type_t::local:
             case xil_storage_type_t::argument:
+            case xil_storage_type_t::local_addr:
+            case xil_storage_type_t::argument_addr:
                 if (xil.identity == 15)
                     size += sizeof(uint16_t);
                 break;
-- 
2.43.0


From 880c43d0ef2545b7b93b81c21bdd97689c6a4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:55 +0000
Subject: [PATCH 13/55] fix: allocate the whole size of the elements of struct
 and reference arrays

---
 include/modules/rt.h | 3 +++
 modules/mm/mm.cpp    | 3 +--
 modules/rt/rt.cpp    | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/modules/rt.h b/include/modules/rt.h
index c219c6d..6765013 100644
--- a/include/modules/rt.h
+++ b/include/modules/rt.h
@@ -1516,6 +1516,9 @@ namespace X_ROOT_NS::modules::rt {
         // Dimension
         dimension_t dimension = 0;
 
+        // Size of an element, known after pre_new.
+        msize_t element_size = 0;
+
         // Gets assembly.
         virtual rt_assembly_t * get_assembly() override final;
 
diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index 005cb52..8265562 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -145,8 +145,7 @@ namespace X_ROOT_NS::modules::mm {
             length *= *l;
         }
 
-        size_t element_size = unit_align(1, type->element_type->get_size());
-        size_t size = _alignf(length * element_size, sizeof(rt_stack_unit_t));
+        size_t size = _alignf(length * type->element_size, sizeof(rt_stack_unit_t));
 
         void * obj;
         if (dimension == 1)
diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index bdcb780..90accd8 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1792,6 +1792,7 @@ namespace X_ROOT_NS::modules::rt {
     void rt_array_type_t::pre_new(analyzer_env_t & env)
     {
         this->pre_static_call(env);
+        this->element_size = element_type->get_variable_size(env);
     }
 
     // Pre calling static method.
-- 
2.43.0


From adb994148fb23ec496301063610600cea9bcacb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:15 +0000
Subject: [PATCH 14/55] fix: assignments to array elements and ref parameters
 keep their value for the enclosing expression

---
 modules/compile/__xil_struct.h | 12 ++++++++++++
 modules/compile/expression.cpp |  9 ++++++---
 modules/compile/xilx.cpp       |  7 +++++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/modules/compile/__xil_struct.h b/modules/compile/__xil_struct.h
index ddc2afe..8837a3c 100644
--- a/modules/compile/__xil_struct.h
+++ b/modules/compile/__xil_struct.h
@@ -700,6 +700,18 @@ namespace X_ROOT_NS::modules::compile {
         }
     };
 
+    // Pick array element xil.
+    struct x_pick_array_element_xil_t : xil_extra_t<pick_xil_t>
+    {
+        typedef xil_extra_t<pick_xil_t> __super_t;
+
+        x_pick_array_element_xil_t(xil_type_t xtype, ref_t array_type_ref)
+            : __super_t(xil_storage_type_t::array_element, xtype)
+        {
+            this->set_ref(array_type_ref);
+        }
+    };
+
     //-------- ---------- ---------- ---------- ----------
     // Pick variable address.
 
diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index f56deb2..b8e3e11 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1270,9 +1270,12 @@ namespace X_ROOT_NS::modules::compile {
 
                 ref_t type_ref = __ref_of(ctx, array_type);
 
-                pool.append<x_pop_array_element_xil_t>(
-                    __to_xil_type(element_type), type_ref
-                );
+                xil_type_t xil_type = __to_xil_type(element_type);
+
+                if (pick)
+                    pool.append<x_pick_array_element_xil_t>(xil_type, type_ref);
+                else
+                    pool.append<x_pop_array_element_xil_t>(xil_type, type_ref);
 
             }   break;
 
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 4e64683..eb41c72 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -183,6 +183,13 @@ namespace X_ROOT_NS::modules::compile {
         if (call_type_of_method(sctx.method, true) != xil_call_type_t::static_)
             index++;
 
+        // No pick command for addresses, keeps a copy of the value instead.
+        if (pick && __is_addr(param_var))
+        {
+            pool.append<x_push_duplicate_xil_t>();
+            pick = false;
+        }
+
         #define __Append(name, xil_type)                                                \
             if (__is_addr(param_var))                                                   \
                 pool.append<x_##name##_argument_addr_xil_t>(xil_type_t::xil_type, index); \
-- 
2.43.0


From d1e9088cf7ad57e95eb49a24572ec9954373117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:30 +0000
Subject: [PATCH 15/55] fix: array elements and call results are converted or
 boxed to the type they are assigned to

---
 modules/compile/expression.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index b8e3e11..bf273e7 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -513,6 +513,22 @@ namespace X_ROOT_NS::modules::compile {
         return false;
     }
 
+    // Converts or boxes the value on the top of stack, as required by the environment.
+    static void __append_convert_xil(__cctx_t & ctx, xil_pool_t & pool, type_t * from_type,
+                                                            const __environment_t & env)
+    {
+        if (from_type == nullptr)
+            return;
+
+        vtype_t vtype = from_type->this_vtype();
+
+        if (env.is_ref() && vtype != vtype_t::void_ && is_value_type(from_type)
+                                                    && !__is_custom_struct_like(from_type))
+            pool.append<x_push_box_xil_t>(__ref_of(ctx, from_type));
+        else
+            __try_append_convert_xil(pool, from_type, env.dtype);
+    }
+
     // Returns whether it is a member expression.
     static bool __is_member_expression(expression_t * exp)
     {
@@ -2793,7 +2809,7 @@ namespace X_ROOT_NS::modules::compile {
             }
 
             if (env.dtype != xil_type_t::empty)
-                __try_append_convert_xil(pool, method->get_type(), env);
+                __append_convert_xil(ctx, pool, method->get_type(), env);
             else
                 __try_pop_empty_for_method(ctx, pool, method, this);
         }
@@ -2838,7 +2854,7 @@ namespace X_ROOT_NS::modules::compile {
         pool.append<x_method_call_xil_t>(xil_call_type_t::instance, method_ref);
 
         if (env.dtype != xil_type_t::empty)
-            __try_append_convert_xil(pool, method->get_type(), env);
+            __append_convert_xil(ctx, pool, method->get_type(), env);
         else
             __try_pop_empty_for_method(ctx, pool, method, this);
     }
@@ -2875,7 +2891,7 @@ namespace X_ROOT_NS::modules::compile {
         pool.append<x_method_call_xil_t>(xil_call_type_t::instance, method_ref);
 
         if (env.dtype != xil_type_t::empty)
-            __try_append_convert_xil(pool, method->get_type(), env);
+            __append_convert_xil(ctx, pool, method->get_type(), env);
         else
             __try_pop_empty_for_method(ctx, pool, method, this);
     }
@@ -3048,6 +3064,8 @@ namespace X_ROOT_NS::modules::compile {
             pool.append<x_push_array_element_xil_t>(
                 __to_xil_type(element_type), array_type_ref
             );
+
+            __append_convert_xil(ctx, pool, element_type, env);
         }
     }
 
-- 
2.43.0


From 7756f14e958c076b193dfdf5daae72248ac12a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:13 +0000
Subject: [PATCH 16/55] fix: objects holding a token reader are destroyed
 through their own destructor

token_enumerator_base_t did not have object_t as its first base, so that the heap that owns
it called next() in place of the destructor, reading source text that was already freed:
compiling a large source file crashed.
---
 modules/compile/__token_reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/__token_reader.h b/modules/compile/__token_reader.h
index b6352f8..a5edc41 100644
--- a/modules/compile/__token_reader.h
+++ b/modules/compile/__token_reader.h
@@ -43,7 +43,7 @@ namespace X_ROOT_NS::modules::compile {
     ////////// ////////// ////////// ////////// //////////
 
     // Base class of token enumerator.
-    class token_enumerator_base_t : public token_enumerator_t, public object_t
+    class token_enumerator_base_t : public object_t, public token_enumerator_t
     {
     public:
 
-- 
2.43.0


From 7c63be67496d14c85f090d210f0f4b8cbc4216dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:27 +0000
Subject: [PATCH 17/55] fix: a conditional expression has the type that its
 context converts it to

Both alternatives were compiled without the type of the destination, so that a conversion
of the result (long x = b ? 1 : i) read past the value.
---
 modules/lang_cs/expressions.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/lang_cs/expressions.cpp b/modules/lang_cs/expressions.cpp
index 70fd96d..37cef66 100644
--- a/modules/lang_cs/expressions.cpp
+++ b/modules/lang_cs/expressions.cpp
@@ -39,24 +39,24 @@ namespace X_ROOT_NS::modules::lang_cs {
         {
             if (condition_value == true)
             {
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
             }
             else if (condition_value == false)
             {
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
             }
             else
             {
                 condition()->compile(ctx, pool);
                 jmp_xil_t * false_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::false_);
 
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
                 jmp_xil_t * finally_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::none);
 
                 if (false_jmp_xil != nullptr)
                     xil::append_label_xil(sctx, pool, false_jmp_xil);
 
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
 
                 xil::append_label_xil(sctx, pool, finally_jmp_xil);
             }
@@ -105,7 +105,7 @@ namespace X_ROOT_NS::modules::lang_cs {
 
         // last expression
         expression_t * last_exp = *(this->end() - 1);
-        last_exp->compile(ctx, pool);
+        last_exp->compile(ctx, pool, env);
     }
 
     // Executes this expression.
-- 
2.43.0


From 5fb1f4c1df3cf4aa5e97077782b696a087a41bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 18/55] fix: popping an argument and popping what an argument
 points to are different commands

---
 modules/exec/commands.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 4ac5317..b39516c 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -3262,7 +3262,7 @@ namespace X_ROOT_NS::modules::exec {
             #define __CaseArgumentAddr(_xt1, _xt2)                                      \
                 case __V(xil_storage_type_t::argument_addr, xil_type_t::_xt1, xil_type_t::_xt2): \
                     return __command_manager.template get_command<                      \
-                        __StCmd(pop, argument, _xt1, _xt2),                             \
+                        __StCmd(pop, argument_addr, _xt1, _xt2),                        \
                         xil_storage_type_t::argument_addr, xil_type_t::_xt1, xil_type_t::_xt2 \
                     >(ctx.params_layout.offset_of(xil.get_identity()));
 
-- 
2.43.0


From b1e639226fa62de439d6ae8c219d7dd226d416f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:49 +0000
Subject: [PATCH 19/55] fix: this and base have the value type of their type,
 so that they can start an operand

---
 modules/core/core.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 0bdea18..be33687 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -8019,7 +8019,7 @@ namespace X_ROOT_NS::modules::core {
     // Returns vtype of this expression.
     vtype_t this_expression_t::get_vtype() const
     {
-        return vtype_t::__unknown__;
+        return __get_vtype(__type);
     }
 
     // Returns type of this expression.
@@ -8046,7 +8046,7 @@ namespace X_ROOT_NS::modules::core {
     // Returns vtype of the base expression.
     vtype_t base_expression_t::get_vtype() const
     {
-        return vtype_t::__unknown__;
+        return __get_vtype(__type);
     }
 
     // Returns type of the base expression.
-- 
2.43.0


From 61dff9407c17abb9f191a94b5ba26a2c80ead92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:07 +0000
Subject: [PATCH 20/55] fix: arrays of interfaces can be created

---
 modules/rt/rt.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 90accd8..39e0956 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1800,7 +1800,9 @@ namespace X_ROOT_NS::modules::rt {
     {
         _A(element_type != nullptr);
 
-        element_type->pre_new(env);
+        // There are no objects of an interface itself, nothing to prepare.
+        if (element_type->get_ttype(env) != ttype_t::interface_)
+            element_type->pre_new(env);
     }
 
     // Gets ttype.
-- 
2.43.0


From d2f9b64b26f5d3523521b95e482c78d2a47c8a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:50 +0000
Subject: [PATCH 21/55] fix: new virtual methods are stored before overriding
 ones, as the virtual table expects

---
 modules/core/assembly_writer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/core/assembly_writer.cpp b/modules/core/assembly_writer.cpp
index 82cd460..bdf723d 100644
--- a/modules/core/assembly_writer.cpp
+++ b/modules/core/assembly_writer.cpp
@@ -148,8 +148,10 @@ namespace X_ROOT_NS::modules::core {
             if (type->host_type != nullptr)
                 __W->__commit_type(type->host_type);
 
+            // Methods that introduce a virtual function come first, in the order of the functions.
             al::sort(type->methods, [](method_t * m1, method_t * m2) {
-                return (int)call_type_of_method(m1) < (int)call_type_of_method(m2);
+                int c1 = (int)call_type_of_method(m1), c2 = (int)call_type_of_method(m2);
+                return c1 != c2? c1 < c2 : (int)m1->is_override() < (int)m2->is_override();
             });
 
             __sort_members(type->fields);
-- 
2.43.0


From 7783a45155b5fd54d86bc38f0c4d2dfa5fe16170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:04 +0000
Subject: [PATCH 22/55] fix: interface methods run the overriding method of the
 most derived class

---
 modules/rt/rt.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 39e0956..3fb3f9a 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -991,6 +991,24 @@ namespace X_ROOT_NS::modules::rt {
         return stop_build;
     }
 
+    // Applies the overrides of the types derived from type, down to raw_type.
+    // Returns stop means stop build.
+    static bool __build_interface_overrides(assembly_analyzer_t & analyzer, rt_type_t * type,
+        rt_type_t * raw_type, __rt_interface_vfunctions_t & vfs, int index,
+        rt_type_t * interface_type, method_prototype_t & prototype)
+    {
+        if (raw_type == type)
+            return false;
+
+        rt_type_t * base_type = raw_type->get_base_type(analyzer.env);
+        if (base_type != nullptr && __build_interface_overrides(analyzer, type, base_type, vfs,
+                                                        index, interface_type, prototype))
+            return true;
+
+        return __build_interface_override(analyzer, raw_type, vfs, index,
+                                                        interface_type, prototype);
+    }
+
     // Builds virtual functions for interfaces.
     static void __build_interfaces(analyzer_env_t & env, rt_type_t * type,
             __rt_interfaces_t & interfaces, rt_type_t * interface_type,
@@ -1027,17 +1045,11 @@ namespace X_ROOT_NS::modules::rt {
             }
 
             rt_method_base_t * method1 = vfs[index].method;
-            if (method1->is_virtual() && method1->get_owner_type(env) == nullptr)
+            if ((method1->is_virtual() || method1->is_override())
+                && method1->get_owner_type(env) == nullptr)
             {
-                rt_type_t * type1 = raw_type;
-                while (type1 != type)
-                {
-                    if (!__build_interface_override(analyzer, type1, vfs, index,
-                                                            interface_type, prototype))
-                        break;
-
-                    type1 = type1->get_base_type(env);
-                }
+                __build_interface_overrides(analyzer, type, raw_type, vfs, index,
+                                                        interface_type, prototype);
             }
 
             index++;
-- 
2.43.0


From f45d621330de2b269179a83237c66fd01f52fc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:05 +0000
Subject: [PATCH 23/55] fix: an override replaces the latest introduced virtual
 method of its signature

---
 modules/rt/rt.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 3fb3f9a..bd7aa0d 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -861,9 +861,11 @@ namespace X_ROOT_NS::modules::rt {
                 method_prototype_t prototype;
                 analyzer.get_prototype(method_ref, &prototype);
 
+                // The method overrides the latest introduced one, that may hide others.
                 bool found = false;
-                for (rt_vtable_function_t & func : vfuncs)
+                for (size_t k = vfuncs.size(); k > 0; k--)
                 {
+                    rt_vtable_function_t & func = vfuncs[k - 1];
                     rt_assembly_t * rt_assembly0 = env.assemblies.at(func.assembly_idx);
                     rt_method_t * rt_method0 = rt_assembly0->get_method(ref_t(func.method_idx));
                     assembly_analyzer_t analyzer0(env, rt_assembly0);
-- 
2.43.0


From d5dd355c1c9bdf7f68e53052840118a395288c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:47 +0000
Subject: [PATCH 24/55] fix: a struct read from an array element is copied
 whole

---
 modules/compile/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index bf273e7..316f2db 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3057,7 +3057,7 @@ namespace X_ROOT_NS::modules::compile {
             );
 
             if (__need_object_copy(this))
-                __append_object_copy_xil(ctx, pool, array_type, xil_copy_kind_t::reverse);
+                __append_object_copy_xil(ctx, pool, element_type, xil_copy_kind_t::reverse);
         }
         else
         {
-- 
2.43.0


From a5cc83cbf8f0df27c7470bc1cef38a6b8112a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:47 +0000
Subject: [PATCH 25/55] fix: a struct variable, field or element is boxed when
 passed, returned or cast to a reference type

---
 modules/compile/expression.cpp | 47 +++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 316f2db..d1e5ba7 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2141,6 +2141,14 @@ namespace X_ROOT_NS::modules::compile {
         }
         else
         {
+            bool box = env.is_ref() && __is_custom_struct_like(this->get_type());
+
+            if (box)    // Copies to a new object.
+            {
+                pool.append<x_new_xil_t>(__ref_of(ctx, this->get_type()));
+                pool.append<x_push_duplicate_xil_t>();
+            }
+
             #define __Case(op_)                                                         \
                 case operator_t::op_:                                                   \
                     __compile_##op_(ctx, pool, exp1, exp2);                             \
@@ -2196,7 +2204,8 @@ namespace X_ROOT_NS::modules::compile {
 
             #undef __Case
 
-            __post_compile_expression(ctx, pool, this, env);
+            if (!box)
+                __post_compile_expression(ctx, pool, this, env);
         }
     }
 
@@ -2443,15 +2452,23 @@ namespace X_ROOT_NS::modules::compile {
             case name_expression_type_t::variable:
             {
                 type_t * type = this->get_type();
-                __compile_variable(ctx, pool, this->variable, __only_value_type(env), this);
+                bool copy = __is_custom_struct_like(type) && is_real_variable(this->variable)
+                                           && __need_object_copy(this);
+                bool box = copy && env.is_ref();
 
-                if (__is_custom_struct_like(type) && is_real_variable(this->variable)
-                                           && __need_object_copy(this))
+                if (box)    // Copies to a new object.
                 {
-                    __append_object_copy_xil(ctx, pool, type, xil_copy_kind_t::reverse);
+                    pool.append<x_new_xil_t>(__ref_of(ctx, type));
+                    pool.append<x_push_duplicate_xil_t>();
                 }
-                    
-                __post_compile_expression(ctx, pool, this, env);
+
+                __compile_variable(ctx, pool, this->variable, __only_value_type(env), this);
+
+                if (copy)
+                    __append_object_copy_xil(ctx, pool, type, xil_copy_kind_t::reverse);
+
+                if (!box)
+                    __post_compile_expression(ctx, pool, this, env);
             }   break;
 
             case name_expression_type_t::type:
@@ -2934,11 +2951,8 @@ namespace X_ROOT_NS::modules::compile {
                     exp->compile(ctx, pool, type);
                     pool.append<x_cast_xil_t>(xil_cast_command_t::default_, __ref_of(ctx, type));
                 }
-                else if (behaviour == expression_behaviour_t::execute &&
-                        __is_custom_struct_like(exp_type))
+                else if (__is_custom_struct_like(exp_type))
                 {
-                    pool.append<x_new_xil_t>(__ref_of(ctx, exp_type));
-                    pool.append<x_push_duplicate_xil_t>();
                     exp->compile(ctx, pool, type);
                 }
                 else
@@ -3040,10 +3054,19 @@ namespace X_ROOT_NS::modules::compile {
                 array_index_variable_t * variable, expression_t * namex,
                 const __environment_t & env)
     {
+        type_t * element_type = __array_element_type_of(ctx, this);
+        bool box = env.is_ref() && __is_custom_struct_like(element_type)
+                                && __need_object_copy(this);
+
+        if (box)    // Copies to a new object.
+        {
+            pool.append<x_new_xil_t>(__ref_of(ctx, element_type));
+            pool.append<x_push_duplicate_xil_t>();
+        }
+
         __compile_arguments(ctx, pool, this->arguments());
         namex->compile(ctx, pool);
 
-        type_t * element_type = __array_element_type_of(ctx, this);
         type_t * array_type = __XPool.new_array_type(
             element_type, variable->dimension()
         );
-- 
2.43.0


From e05a4518c51eb80d666a1510a9ada64d9fd1b4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:08 +0000
Subject: [PATCH 26/55] fix: the indexes of an assigned struct element are
 compiled as indexes

---
 modules/compile/expression.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index d1e5ba7..6ad073b 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -433,8 +433,7 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(var->arguments, "index '%1%' arguments missing", var);
                 __FailedWhenNull(var->body, "index '%1%' body missing", var);
 
-                __static_param_types_t param_types(var);
-                __compile_arguments(ctx, pool, var->arguments, &param_types);
+                __compile_arguments(ctx, pool, var->arguments);
                 var->body->compile(ctx, pool);
 
                 pool.append<x_push_array_element_addr_xil_t>(
-- 
2.43.0


From 70052b1bee5d4d09fd291ac2fd1efbe6e64d1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:08 +0000
Subject: [PATCH 27/55] fix: new S() of a struct without constructor clears the
 struct

---
 modules/compile/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 6ad073b..a0dc716 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3227,8 +3227,8 @@ namespace X_ROOT_NS::modules::compile {
         }
         else
         {
-            // Pop the address of struct object.
-            pool.append<x_pop_empty_xil_t>(xil_type_t::ptr);
+            // Clears the struct object, its address is on the top of stack.
+            pool.append<x_object_copy_xil_t>(__ref_of(ctx, type), xil_copy_kind_t::zero);
         }
 
         if (this->arguments() != nullptr)
-- 
2.43.0


From 77abdb116a994f40dbaedaeb2a2a53600c6062ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:08 +0000
Subject: [PATCH 28/55] fix: the assignment of a struct has the assigned value

---
 modules/compile/expression.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index a0dc716..a2afe72 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1346,6 +1346,14 @@ namespace X_ROOT_NS::modules::compile {
 
                     __push_variable_address(ctx, pool, ca.var, ca.this_);
                     exp2->compile(ctx, pool, type1);
+
+                    if (ca.exp != nullptr && is_effective(ctx, ca.exp->parent->parent))
+                    {
+                        // The value of the assignment is copied to the address on top of stack.
+                        __push_variable_address(ctx, pool, ca.var, ca.this_);
+                        pool.append<x_object_copy_xil_t>(__ref_of(ctx, type1),
+                                                                xil_copy_kind_t::reverse);
+                    }
                 }
             }
             else
-- 
2.43.0


From 67ecc73da3399117bbc9fa57d456af4a59074165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:08 +0000
Subject: [PATCH 29/55] fix: this can be used as a value in a struct's methods

---
 modules/compile/expression.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index a2afe72..2c48a07 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3496,7 +3496,19 @@ namespace X_ROOT_NS::modules::compile {
             }
             else if (__is_custom_struct_like(method->host_type))
             {
-                pool.append<x_push_this_xil_t>(xil_type_t::ptr);
+                bool box = env.is_ref();
+
+                if (box)    // Copies to a new object.
+                {
+                    pool.append<x_new_xil_t>(__ref_of(ctx, method->host_type));
+                    pool.append<x_push_duplicate_xil_t>();
+                }
+
+                pool.append<x_push_this_ref_xil_t>();
+                __append_object_copy_xil(ctx, pool, method->host_type, xil_copy_kind_t::reverse);
+
+                if (box)
+                    return;
             }
             else
             {
-- 
2.43.0


From f849e17cce9d82477bb57dad93c522090b8ecc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:08 +0000
Subject: [PATCH 30/55] fix: members of an unboxed struct can be used

---
 modules/compile/expression.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 2c48a07..51006e3 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2980,8 +2980,18 @@ namespace X_ROOT_NS::modules::compile {
             {
                 if (__is_custom_struct_like(type)) // Unbox custom struct.
                 {
+                    local_variable_t * variable = nullptr;
+                    if (__is_left_member(this))     // Unbox to a temp variable.
+                    {
+                        variable = ctx.define_temp_local(type);
+                        __compile_local_variable(ctx, pool, variable);
+                    }
+
                     exp->compile(ctx, pool);
                     pool.append<x_object_copy_xil_t>(__ref_of(ctx, type), xil_copy_kind_t::reverse);
+
+                    if (variable != nullptr)
+                        __compile_local_variable(ctx, pool, variable);
                 }
                 else    // internal value types.
                 {
-- 
2.43.0


From b128dae05d66ab8cec4d8badbd1ee13d1a669772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:56 +0000
Subject: [PATCH 31/55] fix: struct arguments are copied also when a member of
 the call's result is used

---
 modules/compile/expression.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 51006e3..21caf34 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2430,6 +2430,11 @@ namespace X_ROOT_NS::modules::compile {
                     break;
                 }
 
+                case expression_family_t::function:     // An argument.
+                case expression_family_t::index:
+                case expression_family_t::new_:
+                    return true;
+
                 default:
                     break;
             }
-- 
2.43.0


From a78440b578883b84d7b13fad0ee4f5818033ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:27 +0000
Subject: [PATCH 32/55] fix: temporaries of nested blocks do not share storage
 with live local variables

---
 modules/rt/__layout.h |  52 +-----------
 modules/rt/layout.cpp | 188 +++++-------------------------------------
 2 files changed, 20 insertions(+), 220 deletions(-)

diff --git a/modules/rt/__layout.h b/modules/rt/__layout.h
index 3e2a71b..b2e6de7 100644
--- a/modules/rt/__layout.h
+++ b/modules/rt/__layout.h
@@ -316,7 +316,6 @@ namespace X_ROOT_NS::modules::rt {
             bool region_flag = false;       // Region flag.
 
             msize_t offset;                 // Offset
-            msize_t new_index;              // The new index.
 
             // Converts to string.
             operator string_t() const;
@@ -327,68 +326,19 @@ namespace X_ROOT_NS::modules::rt {
 
         al::heap_t<__item_t> __items;
 
-        // Local variable partial.
-        struct __partial_t
-        {
-            // Constructor.
-            __partial_t(msize_t index, msize_t begin)
-                : index(index), begin(begin) { }
-
-            msize_t index, begin;
-            msize_t offset = 0;
-
-            // Converts to string.
-            operator string_t() const
-            {
-                return _F(_T("index: %1%, offset: %2%"), index, offset);
-            }
-        };
-
-        typedef al::svector_t<__partial_t *, 16> __partials_t;
-        typedef typename __partials_t::iterator __partial_iterator_t;
-
         // Local variable group.
         struct __group_t
         {
-            void append(__item_t * item);
-            void reset(msize_t index);
-
-            __self_t * __owner;
-            msize_t __index = 0;
-            bool __is_reset = true;
-            storage_type_t storage_type;
-
             __vector_t<__item_t *> items;
-            __partials_t partials;
-
         } __groups[(size_t)storage_type_t::__end__];
 
         typedef typename __vector_t<__item_t *>::iterator __item_iterator_t;
-        al::heap_t<__partial_t> __partial_heap;
-
-        // Finds reset index.
-        msize_t __find_reset_index(msize_t index, storage_type_t storage_type);
 
         // Returns current identity.
         msize_t __current_identity() { return __items.size(); }
 
         // Arrange variables.
-        template<typename _f_t, typename _caller_t>
-        msize_t __arrange_variables_f(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end,
-                    _f_t f, _caller_t caller);
-
-        // Arrange variables.
-        msize_t __arrange_variables(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end);
-
-        // Arrange mixture variables.
-        msize_t __arrange_mixture_variables(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end);
-
-        // The min index of specified local variable sequences.
-        msize_t __min_index(__partial_iterator_t it_begin,
-                    __partial_iterator_t it_end, msize_t * out_end);
+        msize_t __arrange_variables(__group_t & g, msize_t offset);
 
         // Sets offset.
         msize_t __set_offsets(msize_t offset,
diff --git a/modules/rt/layout.cpp b/modules/rt/layout.cpp
index 82e1a26..1b5ea3f 100644
--- a/modules/rt/layout.cpp
+++ b/modules/rt/layout.cpp
@@ -435,32 +435,7 @@ namespace X_ROOT_NS::modules::rt {
     // Constructor.
     locals_layout_t::locals_layout_t(assembly_analyzer_t & ctx)
         : __super_t(ctx)
-    {
-        int storage_type = 0;
-        al::for_each(__groups, [this, &storage_type](__group_t & g) {
-            g.storage_type = (storage_type_t)storage_type++;
-            g.__owner = this;
-        });
-    }
-
-    // Finds reset index.
-    msize_t locals_layout_t::__find_reset_index(msize_t index,
-                                        storage_type_t storage_type)
-    {
-        for (int k = __items.size() - 1; k >= 0; k--)
-        {
-            __item_t & it = __items[k];
-            if (it.index > index || it.storage_type != storage_type)
-                continue;
-
-            if (it.index == index)
-                return it.new_index;
-
-            return it.new_index + 1;
-        }
-
-        return 0;
-    }
+    { }
 
     // Appends a variable defination.
     void locals_layout_t::append(local_variable_defination_t & def)
@@ -469,22 +444,11 @@ namespace X_ROOT_NS::modules::rt {
         rt_type_t * type = __get_type(def.type);
         msize_t size = __ctx.variable_size_of(type, &storage_type);
 
-        if (__items.size() > 0 && def.index <= __items[__items.size() - 1].index)
-        {
-            for (int k = 0; k < X_ARRAY_SIZE(__groups); k++)
-            {
-                __group_t & g = __groups[k];
-                msize_t reset_index = __find_reset_index(def.index, (storage_type_t)k);
-
-                g.reset(reset_index);
-            }
-        }
-
         __item_t * item = __items.new_obj(
             def.index, __current_identity(), size, storage_type, type
         );
 
-        __groups[(size_t)storage_type].append(item);
+        __groups[(size_t)storage_type].items.push_back(item);
     }
 
     // Converts to string.
@@ -495,161 +459,47 @@ namespace X_ROOT_NS::modules::rt {
         );
     }
 
-    // Append a iterm to a group.
-    void locals_layout_t::__group_t::append(__item_t * item)
-    {
-        item->new_index = __index++;
-        items.push_back(item);
-
-        if (__is_reset)
-        {
-            __is_reset = false;
-            msize_t new_index = item->new_index;
-
-            partials.push_back(
-                __owner->__partial_heap.new_obj(new_index, items.size() - 1)
-            );
-        }
-    }
-
-    // Resets the index.
-    void locals_layout_t::__group_t::reset(msize_t index)
-    {
-        __index = index;
-        __is_reset = true;
-    }
-
     // Commits it.
     void locals_layout_t::commit()
     {
         msize_t offset = 0;
-        for (int storage_type = 0; storage_type < (int)storage_type_t::__end__; storage_type++)
+        for (__group_t & g : __groups)
         {
-            __group_t & g = __groups[storage_type];
             if (!g.items.empty())
-            {
-                switch ((storage_type_t)storage_type)
-                {
-                    case storage_type_t::ref:
-                    case storage_type_t::value:
-                        offset = __arrange_variables(
-                            g, offset, g.partials.begin(), g.partials.end()
-                        );
-                        break;
-
-                    case storage_type_t::mixture:
-                        offset = __arrange_mixture_variables(
-                            g, offset, g.partials.begin(), g.partials.end()
-                        );
-                        break;
-
-                    default:
-                        X_UNEXPECTED();
-                }
-            }
+                offset = __arrange_variables(g, offset);
         }
 
         __local_unit_size = unit_align(offset, sizeof(rt_stack_unit_t)) / sizeof(rt_stack_unit_t);
     }
 
     // Arrange variables.
-    template<typename _f_t, typename _caller_t>
-    msize_t locals_layout_t::__arrange_variables_f(__group_t & g,
-            msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end,
-            _f_t f, _caller_t caller)
+    // The variables alive at the same time always have different indexes, the ones with
+    // the same index share the storage, wherever they are defined.
+    msize_t locals_layout_t::__arrange_variables(__group_t & g, msize_t offset)
     {
-        __partial_t * partial = *it_begin;
-
-        msize_t end_idx;
-        msize_t child_index = __min_index(it_begin, it_end, &end_idx);
-
-        __item_iterator_t begin = g.items.begin() + partial->begin;
-        __item_iterator_t end   = (child_index != __empty_msize)?
-                  begin + (child_index - partial->index)
-                : (end_idx != __empty_msize)? g.items.begin() + end_idx : g.items.end();
-
-        msize_t new_offset = f(offset, begin, end);
+        std::map<msize_t, __item_t *> slots;    // The largest variable of each index.
 
-        if (child_index != __empty_msize)
+        for (__item_t * item : g.items)
         {
-            msize_t max_offset = 0;
-
-            __partial_t bk = **it_begin;
-            **it_begin = __partial_t(child_index, end - g.items.begin());
-            max_offset = al::max(max_offset, caller(g, new_offset, it_begin, it_end));
-            **it_begin = bk;
-
-            for (__partial_iterator_t it = it_begin + 1; it < it_end; it++)
-            {
-                __partial_t * partial1 = *it;
-                if (partial1->index <= partial->index)
-                    break;
-
-                if (partial1->index == child_index)
-                    max_offset = al::max(max_offset, caller(g, new_offset, it, it_end));
-            }
-
-            return al::max(new_offset, max_offset);
+            __item_t *& slot = slots[item->index];
+            if (slot == nullptr || item->size > slot->size)
+                slot = item;
         }
 
-        if (it_begin + 1 < it_end)
+        __vector_t<__item_t *> items;
+        for (auto && it : slots)
         {
-            return al::max(new_offset,
-                __arrange_variables_f(g, offset, it_begin + 1, it_end, f, caller)
-            );
+            items.push_back(it.second);
         }
 
-        return new_offset;
-    }
-
-    // Arrange variables.
-    msize_t locals_layout_t::__arrange_variables(__group_t & g,
-            msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end)
-    {
-        using namespace std::placeholders;
-        return __arrange_variables_f(g, offset, it_begin, it_end,
-            std::bind(&locals_layout_t::__set_offsets, this, _1, _2, _3),
-            std::bind(&locals_layout_t::__arrange_variables, this, _1, _2, _3, _4)
-        );
-    }
-
-    // Arrange mixture variables.
-    msize_t locals_layout_t::__arrange_mixture_variables(__group_t & g,
-        msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end)
-    {
-        using namespace std::placeholders;
-        __vector_t<__item_t *> items;
-
-        __arrange_variables_f(g, 0, it_begin, it_end, [&](msize_t offset,
-            __item_iterator_t it_begin, __item_iterator_t it_end) {
-            return std::copy(it_begin, it_end, std::back_inserter(items)), 0;
-        }, std::bind(&locals_layout_t::__arrange_mixture_variables, this, _1, _2, _3, _4));
-
-        return __set_offsets(offset, items.begin(), items.end());
-    }
+        offset = __set_offsets(offset, items.begin(), items.end());
 
-    // The min index of specified local variable sequences.
-    msize_t locals_layout_t::__min_index(__partial_iterator_t it_begin,
-                                         __partial_iterator_t it_end, msize_t * out_end)
-    {
-        __partial_t * partial = *it_begin;
-
-        msize_t min_index = __empty_msize;
-        for (__partial_iterator_t it = it_begin + 1; it < it_end; it++)
+        for (__item_t * item : g.items)
         {
-            __partial_t * partial1 = *it;
-
-            if (partial1->index <= partial->index)
-            {
-                *out_end = partial1->begin;
-                return min_index;
-            }
-
-            min_index = al::min(partial1->index, min_index);
+            item->offset = slots[item->index]->offset;
         }
 
-        *out_end = __empty_msize;
-        return min_index;
+        return offset;
     }
 
     // Sets offset.
-- 
2.43.0


From 8adfea896735720cebe78fbb8934460937850da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:08 +0000
Subject: [PATCH 33/55] fix: array indexes and lengths are converted to int,
 initialising elements to the element type

---
 modules/compile/expression.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 21caf34..214d6ba 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -371,8 +371,10 @@ namespace X_ROOT_NS::modules::compile {
             _A(type != nullptr);
         }
 
+        // Param types of the indexes of an array.
         __static_param_types_t(array_index_variable_t * arr_var)
-            : __static_param_types_t(arr_var->get_type(), arr_var->dimension())
+            : __static_param_types_t(__XPool.get_internal_type(vtype_t::int32_),
+                                     arr_var->dimension())
         { }
 
         // Returns type count
@@ -433,7 +435,8 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(var->arguments, "index '%1%' arguments missing", var);
                 __FailedWhenNull(var->body, "index '%1%' body missing", var);
 
-                __compile_arguments(ctx, pool, var->arguments);
+                __static_param_types_t param_types(var);
+                __compile_arguments(ctx, pool, var->arguments, &param_types);
                 var->body->compile(ctx, pool);
 
                 pool.append<x_push_array_element_addr_xil_t>(
@@ -1277,7 +1280,7 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(args, "index '%1%' arguments missing", var);
 
                 __static_param_types_t param_types(arr_var);
-                __compile_arguments(ctx, pool, args);
+                __compile_arguments(ctx, pool, args, &param_types);
                 body->compile(ctx, pool);
 
                 type_t * element_type = arr_var->get_type();
@@ -3086,7 +3089,8 @@ namespace X_ROOT_NS::modules::compile {
             pool.append<x_push_duplicate_xil_t>();
         }
 
-        __compile_arguments(ctx, pool, this->arguments());
+        __static_param_types_t param_types(variable);
+        __compile_arguments(ctx, pool, this->arguments(), &param_types);
         namex->compile(ctx, pool);
 
         type_t * array_type = __XPool.new_array_type(
@@ -3346,9 +3350,9 @@ namespace X_ROOT_NS::modules::compile {
                 if (expression == nullptr)
                     __Failed("unknown array length: '%1%'", this);
 
-                // TODO: must be int type
-
-                expression->compile(ctx, pool);
+                type_t * length_type = __XPool.get_internal_type(vtype_t::int32_);
+                if (!__try_compile_constant_expression(ctx, pool, expression, xil_type_t::int32))
+                    expression->compile(ctx, pool, length_type);
             }
         }
 
@@ -3380,7 +3384,8 @@ namespace X_ROOT_NS::modules::compile {
 
                 // TODO: check init expression type.
 
-                element_exp->compile(ctx, pool);
+                if (!__try_compile_constant_expression(ctx, pool, element_exp, dtype))
+                    element_exp->compile(ctx, pool, element_type);
 
                 if (this_effective)
                     pool.append<x_array_element_xil_t>(dtype);  // TODO: struct?
-- 
2.43.0


From 94f6c25d46fd65c59e50361ee226ff3211948dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:08 +0000
Subject: [PATCH 34/55] fix: initialised elements of reference type take the
 size of a reference

---
 modules/exec/commands.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index b39516c..872211e 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -7013,7 +7013,16 @@ namespace X_ROOT_NS::modules::exec {
             return 0;
         }
 
-        return size_of(xil.dtype());
+        switch (xil.dtype())
+        {
+            case xil_type_t::object:
+            case xil_type_t::string:
+            case xil_type_t::ptr:
+                return sizeof(rt_ref_t);
+
+            default:
+                return size_of(xil.dtype());
+        }
     }
 
     static command_t * __new_init_command(__context_t & ctx, const init_xil_t & xil)
-- 
2.43.0


From df54d599847258e6e7ef995c7281d738bca812d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:08 +0000
Subject: [PATCH 35/55] fix: each index of an array is checked against its own
 dimension

---
 modules/exec/commands.cpp | 65 ++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 872211e..92c6e50 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1174,11 +1174,27 @@ namespace X_ROOT_NS::modules::exec {
             typedef array_length_t      __l_t;
             typedef executor_stack_t    __stack_t;
 
+            // Returned when an index is out of the range of its dimension.
+            constexpr __l_t __out_of_range = min_value<__l_t>();
+
+            // Adds the offsets of two dimensions.
+            X_ALWAYS_INLINE __l_t __add(__l_t offset1, __l_t offset2)
+            {
+                return offset1 < 0 || offset2 < 0? __out_of_range : offset1 + offset2;
+            }
+
+            // Offset of an index, each element of the dimension has size 'unit', all 'total'.
+            X_ALWAYS_INLINE __l_t __offset(__l_t index, __l_t unit, __l_t total)
+            {
+                return index < 0 || (int64_t)index * unit >= total? __out_of_range : index * unit;
+            }
+
             template<__d_t _d> struct __mul_t
             {
                 X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * ls)
                 {
-                    return stack.pop<__l_t>() * (*ls) + __mul_t<_d - 1>()(stack, ls - 1);
+                    __l_t offset = __offset(stack.pop<__l_t>(), *ls, *(ls - 1));
+                    return __add(offset, __mul_t<_d - 1>()(stack, ls - 1));
                 }
             };
 
@@ -1202,6 +1218,8 @@ namespace X_ROOT_NS::modules::exec {
     __AlwaysInline static array_length_t __array_index(executor_stack_t & stack,
                                 dimension_t dimension, array_length_t * lengths)
     {
+        using __mul_array_index_ns::__add;
+
         array_length_t index = 0;
         const dimension_t partical_dimension = 8;
 
@@ -1213,8 +1231,9 @@ namespace X_ROOT_NS::modules::exec {
 
                 #define __Case(_d)                                                      \
                     case _d:                                                            \
-                        return index + __mul_array_index<_d>(stack, lengths);
+                        return __add(index, __mul_array_index<_d>(stack, lengths));
 
+                __Case(1)
                 __Case(2)
                 __Case(3)
                 __Case(4)
@@ -1226,7 +1245,7 @@ namespace X_ROOT_NS::modules::exec {
                 #undef __Case
 
                 default:
-                    index += __mul_array_index<partical_dimension>(stack, lengths);
+                    index = __add(index, __mul_array_index<partical_dimension>(stack, lengths));
                     lengths -= partical_dimension;
                     dimension -= partical_dimension;
                     continue;
@@ -1271,7 +1290,10 @@ namespace X_ROOT_NS::modules::exec {
             if constexpr (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                index = __mul_array_index_ns::__add(
+                    __mul_array_index_ns::__offset(index, 1, *lengths),
+                    __mul_array_index<_dimension - 1>(ctx.stack, lengths)
+                );
             }
 
             if (__out_of_array_range(array_ref, index))
@@ -1312,7 +1334,10 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            index = __mul_array_index_ns::__add(
+                __mul_array_index_ns::__offset(index, 1, *lengths),
+                __array_index(ctx.stack, __This->__dimension - 1, lengths)
+            );
 
             if (__out_of_array_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
@@ -1389,7 +1414,10 @@ namespace X_ROOT_NS::modules::exec {
             if constexpr (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                index = __mul_array_index_ns::__add(
+                    __mul_array_index_ns::__offset(index, 1, *lengths),
+                    __mul_array_index<_dimension - 1>(ctx.stack, lengths)
+                );
             }
 
             if (__out_of_array_range(array_ref, index))
@@ -1429,7 +1457,10 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            index = __mul_array_index_ns::__add(
+                __mul_array_index_ns::__offset(index, 1, *lengths),
+                __array_index(ctx.stack, __This->__dimension - 1, lengths)
+            );
 
             if (__out_of_array_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
@@ -2995,7 +3026,10 @@ namespace X_ROOT_NS::modules::exec {
             if (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                index = __mul_array_index_ns::__add(
+                    __mul_array_index_ns::__offset(index, 1, *lengths),
+                    __mul_array_index<_dimension - 1>(ctx.stack, lengths)
+                );
             }
 
             if (__out_of_array_range(array_ref, index))
@@ -3035,7 +3069,10 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            index = __mul_array_index_ns::__add(
+                __mul_array_index_ns::__offset(index, 1, *lengths),
+                __array_index(ctx.stack, __This->__dimension - 1, lengths)
+            );
 
             if (__out_of_array_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
@@ -3579,7 +3616,10 @@ namespace X_ROOT_NS::modules::exec {
             if (_dimension >= 2)
             {
                 array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
+                index = __mul_array_index_ns::__add(
+                    __mul_array_index_ns::__offset(index, 1, *lengths),
+                    __mul_array_index<_dimension - 1>(ctx.stack, lengths)
+                );
             }
 
             if (__out_of_array_range(array_ref, index))
@@ -3619,7 +3659,10 @@ namespace X_ROOT_NS::modules::exec {
             array_length_t index = ctx.stack.pop<array_length_t>();
             array_length_t * lengths = mm::get_array_lengths(array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            index = __mul_array_index_ns::__add(
+                __mul_array_index_ns::__offset(index, 1, *lengths),
+                __array_index(ctx.stack, __This->__dimension - 1, lengths)
+            );
 
             if (__out_of_array_range(array_ref, index))
                 __RaiseOutOfRangeException(ctx);
-- 
2.43.0


From 3adc0e937d8156b834b258d855255ae6ada40a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:20 +0000
Subject: [PATCH 36/55] fix: calling a delegate of a static method leaves the
 stack balanced

---
 modules/exec/commands.cpp | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 92c6e50..0de424a 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4745,7 +4745,11 @@ namespace X_ROOT_NS::modules::exec {
 
             exec_method_t * exec_method = ctx.env.exec_method_of(method);
 
-            __Argument(rt_object_t *, __this_offset) = object;
+            if (__is_static(method))
+                __remove_self(ctx);
+            else
+                __Argument(rt_object_t *, __this_offset) = object;
+
             ctx.switch_to(exec_method);
 
         __EndExecute()
@@ -4756,6 +4760,37 @@ namespace X_ROOT_NS::modules::exec {
 
         #endif  // EXEC_TRACE
 
+    private:
+
+        // Returns whether it's a static method, whose arguments do not include 'this'.
+        static bool __is_static(rt_method_base_t * method) _NE
+        {
+            switch (method->this_type())
+            {
+                case rt_member_type_t::general:
+                    return ((decorate_value_t)(*(rt_method_t *)method)->decorate).is_static;
+
+                case rt_member_type_t::generic: {
+                    rt_method_t * template_ = ((rt_generic_method_t *)method)->template_;
+                    return ((decorate_value_t)(*template_)->decorate).is_static;
+                }
+
+                default:
+                    return false;
+            }
+        }
+
+        // Removes the 'this' argument, the first one, from the stack.
+        void __remove_self(__ctx_t & ctx) _NE
+        {
+            rt_stack_unit_t * lp = (rt_stack_unit_t *)ctx.stack.lp();
+            rt_stack_unit_t * self = lp - __this_offset;
+
+            std::memmove(self, self + 1, (__this_offset - 1) * sizeof(rt_stack_unit_t));
+
+            ctx.stack.set_lp(lp - 1);
+            ctx.stack.increase_top(-1);
+        }
     };
 
 
-- 
2.43.0


From b92ff7f685720997bb4c340d192961b416c93540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:20 +0000
Subject: [PATCH 37/55] fix: a delegate of an unqualified instance method takes
 this object

---
 modules/compile/expression.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 214d6ba..b414013 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1909,7 +1909,8 @@ namespace X_ROOT_NS::modules::compile {
 
     // Compiles method variable.
     static void __compile_method_variable(__cctx_t & ctx, xil_pool_t & pool,
-            method_variable_t * method_var, xil_type_t dtype, xil_call_type_t call_type)
+            method_variable_t * method_var, xil_type_t dtype, xil_call_type_t call_type,
+            expression_t * owner_exp)
     {
         method_t * method = method_var->method;
 
@@ -1918,6 +1919,8 @@ namespace X_ROOT_NS::modules::compile {
 
         if (method->is_static())
             pool.append<x_push_null_xil_t>();
+        else if (!__is_member_expression(owner_exp->parent))
+            pool.append<x_push_this_ref_xil_t>();
 
         // Pushes method info.
         _A(method_var->method != nullptr);
@@ -2071,7 +2074,8 @@ namespace X_ROOT_NS::modules::compile {
             case variable_type_t::method:
                 __compile_method_variable(ctx, pool, (method_variable_t *)variable, env,
                     __left_is_base(owner_exp->parent)? xil_call_type_t::instance
-                                                     : xil_call_type_t::empty
+                                                     : xil_call_type_t::empty,
+                    owner_exp
                 );
                 break;
 
-- 
2.43.0


From a2c96d7a23105a094a91b682af968da586dc2d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:20 +0000
Subject: [PATCH 38/55] fix: base.P calls the accessor of the base class

---
 modules/compile/expression.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index b414013..b384a6b 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -51,6 +51,17 @@ namespace X_ROOT_NS::modules::compile {
         return call_type_of_method(method, true);
     }
 
+    // Returns call type of a property accessor: base.xxx calls the base's accessor itself.
+    static xil_call_type_t __call_type_of_accessor(method_base_t * method, bool is_base)
+    {
+        xil_call_type_t call_type = __call_type_of_method(method);
+
+        if (is_base && call_type == xil_call_type_t::virtual_)
+            return xil_call_type_t::instance;
+
+        return call_type;
+    }
+
     // Returns whether the type is custom struct of generic param.
     static bool __is_custom_struct_like(type_t * type)
     {
@@ -1267,7 +1278,11 @@ namespace X_ROOT_NS::modules::compile {
                 __compile_argument(ctx, pool, exp2, method, 0);
 
                 ref_t method_ref = __search_method_ref(ctx, method);
-                pool.append<x_method_call_xil_t>(__call_type_of_method(method), method_ref);
+                bool is_base = ca.this_ != nullptr
+                                && ca.this_->this_family() == expression_family_t::base;
+                pool.append<x_method_call_xil_t>(
+                    __call_type_of_accessor(method, is_base), method_ref
+                );
 
             }   break;
 
@@ -1880,7 +1895,9 @@ namespace X_ROOT_NS::modules::compile {
         __compile_arguments(ctx, pool, arguments, method);
 
         ref_t method_ref = __search_method_ref(ctx, method);
-        pool.append<x_method_call_xil_t>(__call_type_of_method(method), method_ref);
+        pool.append<x_method_call_xil_t>(
+            __call_type_of_accessor(method, __left_is_base(owner_exp->parent)), method_ref
+        );
 
         __try_pop_empty_for_method(ctx, pool, method, owner_exp);
     }
-- 
2.43.0


From 321e0a9ed84c007ce04f8710eff7934eac2fac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:20 +0000
Subject: [PATCH 39/55] fix: compound assignment and ++ on a property pass the
 computed value

---
 modules/compile/expression.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index b384a6b..6e3765f 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1229,6 +1229,21 @@ namespace X_ROOT_NS::modules::compile {
         return __compile_assign_t { this_exp, var, exp, custom_struct };
     }
 
+    // Compiles the value that is assigned to a property.
+    static void __compile_property_value(__cctx_t & ctx, xil_pool_t & pool,
+        property_variable_t * var, expression_t * exp)
+    {
+        property_t * property = var->property;
+        if (property == nullptr)
+            __Failed("unknown property '%1%'", var);
+
+        method_t * method = property->set_method;
+        if (method == nullptr)
+            __Failed("property '%1%' cannot be write", var);
+
+        __compile_argument(ctx, pool, exp, method, 0);
+    }
+
     // Compiles assign to expression.
     static void __compile_assign_to(__cctx_t & ctx, xil_pool_t & pool, __compile_assign_t & ca,
         expression_t * exp2, __assign_to_type_t assign_type = __assign_to_type_t::default_)
@@ -1275,7 +1290,6 @@ namespace X_ROOT_NS::modules::compile {
                     __Failed("property '%1%' cannot be write", var);
 
                 __validate_set_method(ctx, method);
-                __compile_argument(ctx, pool, exp2, method, 0);
 
                 ref_t method_ref = __search_method_ref(ctx, method);
                 bool is_base = ca.this_ != nullptr
@@ -1382,6 +1396,9 @@ namespace X_ROOT_NS::modules::compile {
         }
         else
         {
+            if (ca.var->this_type() == variable_type_t::property)
+                __compile_property_value(ctx, pool, (property_variable_t *)ca.var, exp2);
+
             __compile_assign_to(ctx, pool, ca, exp2, assign_type);
         }
     }
-- 
2.43.0


From 4dfb56421bbb4b851017832a4b92ff7a2998e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:40 +0000
Subject: [PATCH 40/55] fix: overridden methods of another assembly are found
 in that assembly

---
 modules/rt/rt.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index bd7aa0d..4d45fd6 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -3165,6 +3165,13 @@ namespace X_ROOT_NS::modules::rt {
         method = _M(rt_method_t *, this->get_method(method_ref, &method_ref));
         _A(method != nullptr);
 
+        // The reference is now one of the assembly which declares the method.
+        if (!__is_current(method->get_assembly()))
+        {
+            assembly_analyzer_t analyzer0(*this, method->get_assembly());
+            return analyzer0.get_virtual_method_offset(method_ref);
+        }
+
         rt_type_t * rt_type = method->get_host_type();
 
         // All methods in interface types are all virtual members.
@@ -3199,7 +3206,8 @@ namespace X_ROOT_NS::modules::rt {
 
             } while (method_ref == ref_t::null);
 
-            return get_virtual_method_offset( method_ref);
+            assembly_analyzer_t analyzer0(*this, rt_type->get_assembly());
+            return analyzer0.get_virtual_method_offset(method_ref);
         }
 
         throw __RtAssemblyErrorF("virtual method '%1%' not found", method->get_name());
-- 
2.43.0


From 5007ee8f4c017e03c8bbd1ff98febc3ff4271c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:20 +0000
Subject: [PATCH 41/55] fix: throw of a null reference raises
 NullReferenceException

---
 modules/exec/commands.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 0de424a..bb8d3e6 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -6078,6 +6078,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t exception = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, exception);
+
             ctx.restore_stack();
 
             ctx.push_exception(exception);
-- 
2.43.0


From 97547d90f94a1d7171e97d44e10be0ccf1a261ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:48 +0000
Subject: [PATCH 42/55] fix: only the sum of constant strings is a constant
 string

---
 modules/core/expression_executor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index c784173..e9fabf4 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -547,6 +547,9 @@ namespace X_ROOT_NS::modules::core {
         cvalue_t cv1 = e1->execute(), cv2 = e2->execute();
         if (is_string(cv1) || is_string(cv2))
         {
+            if (this->op() != operator_t::add || is_nan(cv1) || is_nan(cv2))
+                return cvalue_t::nan;
+
             string_t s = _F(_T("%1%%2%"), cv1, cv2);
             return cvalue_t(__SPool.to_sid(s).c_str());
         }
-- 
2.43.0


From 43f582126b9404ae0ec7707f3bddbb4ea8a8c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:48 +0000
Subject: [PATCH 43/55] fix: constants are boxed when an object is required

---
 modules/compile/expression.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 6e3765f..033acd6 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -160,7 +160,19 @@ namespace X_ROOT_NS::modules::compile {
         if (!is_nan(cvalue) && cvalue.value_type != cvalue_type_t::__default__)
         {
             if (is_effective(ctx, expression))
-                __compile_cvalue(ctx, pool, cvalue, env);
+            {
+                type_t * type = expression->get_type();
+
+                if ((env.is_ref() || env.dtype == xil_type_t::object) && is_value_type(type)) // Box.
+                {
+                    __compile_cvalue(ctx, pool, cvalue, __xil_type(expression));
+                    pool.append<x_push_box_xil_t>(__ref_of(ctx, type));
+                }
+                else
+                {
+                    __compile_cvalue(ctx, pool, cvalue, env);
+                }
+            }
 
             return true;
         }
-- 
2.43.0


From bff6ef992f807449f005eb4a8b16977186146097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:48 +0000
Subject: [PATCH 44/55] fix: operations simplified by the optimiser give a
 value of the result's type

---
 modules/compile/expression.cpp | 39 ++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 033acd6..11101fb 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -712,6 +712,16 @@ namespace X_ROOT_NS::modules::compile {
         return is_optimize(ctx, compile_optimize_code_t::optimize_basic_algorighm);
     }
 
+    // Compiles an operand that is also the result of the operation, as the type of the result.
+    static void __compile_operand(__cctx_t & ctx, xil_pool_t & pool, expression_t * exp)
+    {
+        exp->compile(ctx, pool);
+
+        xil_type_t dtype = __xil_type(exp->parent);
+        if (dtype != xil_type_t::__unknown__)
+            __try_append_convert_xil(pool, __xil_type(exp), dtype);
+    }
+
     // Compiles add expression.
     static void __compile_add(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
@@ -720,13 +730,13 @@ namespace X_ROOT_NS::modules::compile {
         {
             if (__execute_expression(exp1) == cvalue_t(0))  // x + 0
             {
-                exp2->compile(ctx, pool);
+                __compile_operand(ctx, pool, exp2);
                 return;
             }
 
             if (__execute_expression(exp2) == cvalue_t(0)) // 0 + x
             {
-                exp1->compile(ctx, pool);
+                __compile_operand(ctx, pool, exp1);
                 return;
             }
         }
@@ -745,16 +755,17 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(0))  // 0 * x
+            if (__execute_expression(exp1) == cvalue_t(0)   // 0 - x
+                && __xil_type(exp2->parent) != xil_type_t::uint64)
             {
-                exp2->compile(ctx, pool);
-                pool.append<x_al_xil_t>(xil_al_command_t::minus, __xil_type(exp1));
+                __compile_operand(ctx, pool, exp2);
+                pool.append<x_al_xil_t>(xil_al_command_t::minus, __xil_type(exp2->parent));
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(0))  // x * 0
+            if (__execute_expression(exp2) == cvalue_t(0))  // x - 0
             {
-                exp1->compile(ctx, pool);
+                __compile_operand(ctx, pool, exp1);
                 return;
             }
         }
@@ -775,13 +786,13 @@ namespace X_ROOT_NS::modules::compile {
         {
             if (__execute_expression(exp1) == cvalue_t(1)) // 1 * x
             {
-                exp2->compile(ctx, pool);
+                __compile_operand(ctx, pool, exp2);
                 return;
             }
 
             if (__execute_expression(exp2) == cvalue_t(1))  // x * 1
             {
-                exp1->compile(ctx, pool);
+                __compile_operand(ctx, pool, exp1);
                 return;
             }
         }
@@ -804,7 +815,7 @@ namespace X_ROOT_NS::modules::compile {
         {
             if (__execute_expression(exp2) == cvalue_t(1))      // x / 1
             {
-                exp1->compile(ctx, pool);
+                __compile_operand(ctx, pool, exp1);
                 return;
             }
         }
@@ -849,13 +860,13 @@ namespace X_ROOT_NS::modules::compile {
         {
             if (__execute_expression(exp1) == cvalue_t(0))     // 0 | x
             {
-                exp2->compile(ctx, pool);
+                __compile_operand(ctx, pool, exp2);
                 return;
             }
 
             if (__execute_expression(exp2) == cvalue_t(0))     // x | 0
             {
-                exp1->compile(ctx, pool);
+                __compile_operand(ctx, pool, exp1);
                 return;
             }
         }
@@ -888,7 +899,7 @@ namespace X_ROOT_NS::modules::compile {
         {
             if (__execute_expression(exp2) == cvalue_t(0))     // x << 0
             {
-                exp1->compile(ctx, pool);
+                __compile_operand(ctx, pool, exp1);
                 return;
             }
         }
@@ -909,7 +920,7 @@ namespace X_ROOT_NS::modules::compile {
         {
             if (__execute_expression(exp2) == cvalue_t(0))     // x >> 0
             {
-                exp1->compile(ctx, pool);
+                __compile_operand(ctx, pool, exp1);
                 return;
             }
         }
-- 
2.43.0


From 06e6adb85ed8e7cbc370b56ab4033823c2b6314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:48 +0000
Subject: [PATCH 45/55] fix: the optimiser takes a variable as constant only
 when it is

---
 include/modules/core.h         |  2 +-
 modules/compile/expression.cpp |  2 +-
 modules/compile/statements.cpp | 86 +++++++++++++++++++++++++++-------
 modules/compile/xilx.cpp       |  3 +-
 modules/core/core.cpp          |  7 ++-
 5 files changed, 78 insertions(+), 22 deletions(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index 74f79a7..26e831b 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -6732,7 +6732,7 @@ namespace X_ROOT_NS::modules::core {
     // Returns whether it is a constant expression.
     X_INLINE bool is_constant_expression(expression_t * exp)
     {
-        return exp->execute() == cvalue_t::nan;
+        return exp->execute() != cvalue_t::nan;
     }
 
     // Executes the expression.
diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 11101fb..90c2dcd 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1755,7 +1755,7 @@ namespace X_ROOT_NS::modules::compile {
 
         if (variable->constant)
         {
-            cvalue_t cvalue = __execute_expression(variable->expression);
+            cvalue_t cvalue = variable->execute();
             _A(cvalue != cvalue_t::nan);
 
             __compile_cvalue(ctx, pool, cvalue, dtype);
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 67c90de..5efb003 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -409,34 +409,86 @@ namespace X_ROOT_NS::modules::compile {
         return nullptr;
     }
 
+    // Adds reference count of the variable of an expression.
+    static void __count_variable(expression_t * exp)
+    {
+        variable_t * var = __pick_variable(exp);
+        if (var == nullptr)
+            return;
+
+        op_expression_base_t * op_exp = as<op_expression_base_t *>(exp->parent);
+        const operator_property_t * op_property;
+
+        if (op_exp && (op_property = op_exp->get_operator_property()) != nullptr
+                  && op_property->is_assign)
+        {
+            var->write_count++;
+        }
+        else
+        {
+            var->read_count++;
+        }
+    }
+
+    // Adds write count of the variables which are passed by reference.
+    static void __count_ref_arguments(arguments_t * arguments)
+    {
+        if (arguments == nullptr)
+            return;
+
+        for (argument_t * argument : *arguments)
+        {
+            if (argument->atype == param_type_t::ref || argument->atype == param_type_t::out)
+            {
+                variable_t * var = __pick_variable(argument->expression);
+                if (var != nullptr)
+                    var->write_count++;
+            }
+        }
+    }
+
     // Walk variables, add variable reference count.
     void __walk_variables(expression_t * exp)
     {
         if (exp == nullptr)
             return;
 
-        each_expression(exp, [](expression_t * e) {
+        switch (exp->this_family())
+        {
+            case expression_family_t::function: {
+                function_expression_t * function_exp = (function_expression_t *)exp;
+                __count_ref_arguments(function_exp->arguments());
+                __walk_variables(function_exp->namex);
+            }   break;
 
-            variable_t * var = __pick_variable(e);
-            if (var == nullptr)
-                return true;
+            case expression_family_t::new_:
+                __count_ref_arguments(((new_expression_t *)exp)->arguments());
+                break;
 
-            op_expression_base_t * op_exp = as<op_expression_base_t *>(e->parent);
-            const operator_property_t * op_property;
+            case expression_family_t::index:
+                __walk_variables(((index_expression_t *)exp)->namex());
+                break;
 
-            if (op_exp && (op_property = op_exp->get_operator_property()) != nullptr
-                      && op_property->is_assign)
-            {
-                var->write_count++;
-            }
-            else
-            {
-                var->read_count++;
-            }
+            case expression_family_t::new_array: {
+                array_initializer_t * initializer = ((new_array_expression_t *)exp)->initializer();
+                if (initializer != nullptr)
+                {
+                    initializer->each_element([](expression_t * e) {
+                        __walk_variables(e);
+                        return true;
+                    });
+                }
+            }   break;
 
-            return true;
+            default:
+                break;
+        }
 
-        }, true);
+        each_expression(exp, [](expression_t * e) {
+            __count_variable(e);
+            __walk_variables(e);
+            return true;
+        });
     }
 
     // Compiles this expression statement.
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index eb41c72..92484d0 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -455,7 +455,8 @@ namespace X_ROOT_NS::modules::compile {
 
         if (local->write_count == 1)
         {
-            if (is_constant_expression(expression))
+            if (is_constant_expression(expression)
+                && !is_nan(expression->execute().change_type(local->get_vtype())))
             {
                 if (is_optimize(ctx, compile_optimize_code_t::auto_determine_constant_variables))
                 {
diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index be33687..7ce499d 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -5434,8 +5434,11 @@ namespace X_ROOT_NS::modules::core {
     // Execute the variable.
     cvalue_t local_variable_t::execute()
     {
-        return expression == nullptr || !constant?
-            cvalue_t::nan : expression->execute();
+        if (expression == nullptr || !constant)
+            return cvalue_t::nan;
+
+        cvalue_t cvalue = expression->execute();
+        return is_number(cvalue)? cvalue.change_type(get_vtype()) : cvalue;
     }
 
     // Returns vtype.
-- 
2.43.0


From 733b9124d23a5ecae660ddcacbf38ba6105368f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:48 +0000
Subject: [PATCH 46/55] fix: the optimisation level applies to source files and
 projects too

---
 modules/april/compiler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index 5e9105c..eb50351 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -354,7 +354,7 @@ namespace X_ROOT_NS::modules::april {
     // Compiles projects.
     bool april_xcompiler_t::__compile_projects()
     {
-        april_compiler_t compiler;
+        april_compiler_t compiler(_T("solution1"), &__controller);
         __init_compiler(compiler);
 
         __cassemblies_t cas;
@@ -391,7 +391,7 @@ namespace X_ROOT_NS::modules::april {
     // Compiles sources.
     bool april_xcompiler_t::__compile_sources()
     {
-        april_compiler_t compiler;
+        april_compiler_t compiler(_T("solution1"), &__controller);
         __init_compiler(compiler);
 
         project_t * project = compiler.begin_project();
-- 
2.43.0


From 40d07eebb4e2f82b93786c79254d004d3640479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:52 +0000
Subject: [PATCH 47/55] fix: characters and booleans are compared by the
 constant folder too

---
 modules/core/expression_executor.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index e9fabf4..5f7fe45 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -408,6 +408,10 @@ namespace X_ROOT_NS::modules::core {
                 case operator_t::sub:
                 case operator_t::equal:
                 case operator_t::not_equal:
+                case operator_t::greater:
+                case operator_t::greater_equal:
+                case operator_t::less:
+                case operator_t::less_equal:
 
                     switch (((int)v1.type << 8) | (int)v2.type)
                     {
@@ -417,10 +421,6 @@ namespace X_ROOT_NS::modules::core {
                     // continue case operator_t::add
 
                 case operator_t::add:
-                case operator_t::greater:
-                case operator_t::greater_equal:
-                case operator_t::less:
-                case operator_t::less_equal:
 
                     switch (((int)v1.type << 8) | (int)v2.type)
                     {
@@ -613,22 +613,22 @@ namespace X_ROOT_NS::modules::core {
                 return __binary_execute<operator_t::bit_xor_assign, d>(cv1, cv2);
 
             case operator_t::greater:
-                return __binary_execute<operator_t::greater, df>(cv1, cv2);
+                return __binary_execute<operator_t::greater, dfc>(cv1, cv2);
 
             case operator_t::greater_equal:
-                return __binary_execute<operator_t::greater_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::greater_equal, dfc>(cv1, cv2);
 
             case operator_t::less:
-                return __binary_execute<operator_t::less, df>(cv1, cv2);
+                return __binary_execute<operator_t::less, dfc>(cv1, cv2);
 
             case operator_t::less_equal:
-                return __binary_execute<operator_t::less_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::less_equal, dfc>(cv1, cv2);
 
             case operator_t::equal:
                 return __binary_execute<operator_t::equal>(cv1, cv2);
 
             case operator_t::not_equal:
-                return __binary_execute<operator_t::not_equal, df>(cv1, cv2);
+                return __binary_execute<operator_t::not_equal>(cv1, cv2);
 
             case operator_t::logic_and:
                 return __binary_execute<operator_t::logic_and, g_t::bool_>(cv1, cv2);
-- 
2.43.0


From 9a28cd46d27ea2252af0469c9100895b52d7909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:39 +0000
Subject: [PATCH 48/55] fix: an assignment or increment is never a constant, so
 its target is always checked

---
 modules/core/expression_executor.cpp | 33 ++--------------------------
 1 file changed, 2 insertions(+), 31 deletions(-)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index 5f7fe45..341334a 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -226,17 +226,12 @@ namespace X_ROOT_NS::modules::core {
             case operator_t::positive:
                 return __unitary_execute<operator_t::positive, df>(cv);
 
+            // It changes a variable, so it's not a constant.
             case operator_t::left_increment:
-                return __unitary_execute<operator_t::left_increment, df>(cv);
-
             case operator_t::left_decrement:
-                return __unitary_execute<operator_t::right_increment, df>(cv);
-
             case operator_t::right_increment:
-                return __unitary_execute<operator_t::left_decrement, df>(cv);
-
             case operator_t::right_decrement:
-                return __unitary_execute<operator_t::right_decrement, df>(cv);
+                return cvalue_t::nan;
 
             case operator_t::bit_not:
                 return __unitary_execute<operator_t::bit_not, g_t::default_>(cv);
@@ -588,30 +583,6 @@ namespace X_ROOT_NS::modules::core {
             case operator_t::bit_xor:
                 return __binary_execute<operator_t::bit_xor, d>(cv1, cv2);
 
-            case operator_t::add_assign:
-                return __binary_execute<operator_t::add_assign, df>(cv1, cv2);
-
-            case operator_t::sub_assign:
-                return __binary_execute<operator_t::sub_assign, df>(cv1, cv2);
-
-            case operator_t::mul_assign:
-                return __binary_execute<operator_t::mul_assign, df>(cv1, cv2);
-
-            case operator_t::div_assign:
-                return __binary_execute<operator_t::div_assign, df>(cv1, cv2);
-
-            case operator_t::mod_assign:
-                return __binary_execute<operator_t::mod_assign, d>(cv1, cv2);
-
-            case operator_t::bit_and_assign:
-                return __binary_execute<operator_t::bit_and_assign, d>(cv1, cv2);
-
-            case operator_t::bit_or_assign:
-                return __binary_execute<operator_t::bit_or_assign, d>(cv1, cv2);
-
-            case operator_t::bit_xor_assign:
-                return __binary_execute<operator_t::bit_xor_assign, d>(cv1, cv2);
-
             case operator_t::greater:
                 return __binary_execute<operator_t::greater, dfc>(cv1, cv2);
 
-- 
2.43.0


From 829e1a737e4f8aeb53e7c7b100456e34da361f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:55 +0000
Subject: [PATCH 49/55] fix: a constant local variable cannot be assigned or
 passed by ref or out

---
 include/modules/core.h         | 2 +-
 modules/compile/expression.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index 26e831b..c9ee1d0 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -5338,7 +5338,7 @@ namespace X_ROOT_NS::modules::core {
         virtual name_t get_name() const override { return name; }
 
         // Returns whether it's a left value.
-        virtual bool is_lvalue() override { return true; }
+        virtual bool is_lvalue() override { return !constant; }
 
         // Execute the variable.
         cvalue_t execute() override;
diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 90c2dcd..f60d9c1 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1224,6 +1224,9 @@ namespace X_ROOT_NS::modules::compile {
         }
 
         variable_t * var = __pick_var(r_exp);
+        if (var->this_type() == variable_type_t::local && !var->is_lvalue())
+            __Failed("constant '%1%' cannot be assigned", var);
+
         bool custom_struct = __is_custom_struct_like(var->get_type());
 
         switch (var->this_type())
-- 
2.43.0


From 8f9d106a506f8d24147b90f93914fd7b3ad76fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:04 +0000
Subject: [PATCH 50/55] fix: what is assigned or passed by ref or out is
 checked in unreached code too

---
 modules/compile/ast_utils.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index 14379f5..a19fb63 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1154,6 +1154,30 @@ namespace X_ROOT_NS::modules::compile {
                 __walk(exp2);
         }
 
+        // Checks an expression to be assigned, or passed by ref or out.
+        void __check_variable(expression_t * exp)
+        {
+            expression_t * exp0 = exp;
+            if (exp0->this_family() == expression_family_t::binary &&
+                ((binary_expression_t *)exp0)->op() == operator_t::member_point)
+            {
+                exp0 = ((binary_expression_t *)exp0)->exp2();
+            }
+
+            if (as<variable_expression_t *>(exp0) == nullptr)
+            {
+                ast_log(__cctx, exp, __c_t::unexpected_expression, exp);
+                return;
+            }
+
+            variable_t * variable = to_variable(exp0);
+            if (variable != nullptr && variable->this_type() == variable_type_t::local
+                && !variable->is_lvalue())
+            {
+                ast_log(__cctx, exp, __c_t::unexpected_expression, exp);
+            }
+        }
+
         // Walks binary expression.
         template<size_t _exp_count>
         void __walk_op_expression(op_expression_t<_exp_count> * exp)
@@ -1162,6 +1186,9 @@ namespace X_ROOT_NS::modules::compile {
             const operator_property_t * op_property = exp->op_property;
             _A(op_property != nullptr);
 
+            if (op_property->is_assign)
+                __check_variable(exp->expression_at(0));
+
             if (op_property->overload == operator_overload_model_t::no_check)
                 return;
 
@@ -1596,7 +1623,12 @@ namespace X_ROOT_NS::modules::compile {
                 return;
 
             for (argument_t * argument : *arguments)
+            {
                 __walk(argument->expression);
+
+                if (argument->atype == param_type_t::ref || argument->atype == param_type_t::out)
+                    __check_variable(argument->expression);
+            }
         }
 
         // Walks methods.
-- 
2.43.0


From 471c1878c31f4d2ada8268a5ae79c8ad34219cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:46 +0000
Subject: [PATCH 51/55] fix: enum values are converted to the required type

---
 modules/compile/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index f60d9c1..ff7f773 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2168,9 +2168,9 @@ namespace X_ROOT_NS::modules::compile {
         }
 
         // When need to convert.
-        if (type_t * type = env.type; type != nullptr && is_value_type(type))
+        if (type_t * type = env.type; type != nullptr && (is_value_type(type) || is_enum(type)))
         {
-            if (env.dtype != xil_type_t::empty && is_value_type(__ExpType))
+            if (env.dtype != xil_type_t::empty && (is_value_type(__ExpType) || is_enum(exp_type)))
             {
                 xil_type_t xil_type = to_xil_type(exp_type);
                 __try_append_convert_xil(pool, xil_type, env.dtype);
-- 
2.43.0


From 2f70fe361cc90bf3f2ee21be38b2585ef99e4952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:26 +0000
Subject: [PATCH 52/55] fix: the range of an enum's values is checked across
 signedness

---
 modules/compile/ast.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index 00d953a..bef33f7 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -2955,13 +2955,13 @@ namespace X_ROOT_NS::modules::compile {
                     return __fill_ret_t::break_;
                 }
 
-                if (v > __cvalue_max)
+                if (__is_too_large(v))
                 {
                     __log(__c_t::enum_value_too_large, __Exp(v), _vtype);
                     return __fill_ret_t::error;
                 }
 
-                if (v < __cvalue_min)
+                if (__is_too_small(v))
                 {
                     __log(__c_t::enum_value_too_small, __Exp(v), _vtype);
                     return __fill_ret_t::error;
@@ -3012,6 +3012,24 @@ namespace X_ROOT_NS::modules::compile {
 
         static const cvalue_t __cvalue_min;
         static const cvalue_t __cvalue_max;
+
+        // Returns whether a value is negative.
+        static bool __is_negative(const cvalue_t & v)
+        {
+            return v < cvalue_t((int32_t)0);
+        }
+
+        // Returns whether a value is larger than the largest one of the underlying type.
+        static bool __is_too_large(const cvalue_t & v)
+        {
+            return !__is_negative(v) && v > __cvalue_max;
+        }
+
+        // Returns whether a value is smaller than the smallest one of the underlying type.
+        static bool __is_too_small(const cvalue_t & v)
+        {
+            return __is_negative(v) && (__min == 0 || v < __cvalue_min);
+        }
     };
 
     template<vtype_t _vtype>
-- 
2.43.0


From 9efc624a5bca870c79bc3afd24be28847d050022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:27 +0000
Subject: [PATCH 53/55] fix: an enum item defined by a later one without a
 value of its own takes that value

---
 modules/core/core.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 7ce499d..8cac157 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -5502,7 +5502,13 @@ namespace X_ROOT_NS::modules::core {
             return cvalue_t::nan;
 
         if (field->init_value == nullptr)
+        {
+            // The value of an enum field that follows another is not known yet.
+            if (is_enum(field->host_type))
+                return cvalue_t::nan;
+
             return default_value_of(get_vtype());
+        }
 
         return field->init_value->execute();
     }
-- 
2.43.0


From 9a757f3843a686f68577f3a5750c5a5324908f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:41 +0000
Subject: [PATCH 54/55] fix: the upper half of a 64-bit constant in an assembly
 is read from its own two bytes

---
 modules/core/__assembly_layout.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/__assembly_layout.h b/modules/core/__assembly_layout.h
index 63b65ca..aaf2da3 100644
--- a/modules/core/__assembly_layout.h
+++ b/modules/core/__assembly_layout.h
@@ -1816,7 +1816,7 @@ namespace X_ROOT_NS::modules::core {
             if (!mt.constant_flag.extern_)
             {
                 uint32_t v2 = *(uint32_t *)mt.data2;
-                uint32_t v1 = *(uint32_t *)mt.data1;
+                uint32_t v1 = *(uint16_t *)mt.data1;
 
                 if (mt.constant_flag.cpl)
                     v1 = ~v1;
-- 
2.43.0


From 5209838e75c52d03f23d48730a7cc6e2c7beac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:38 +0000
Subject: [PATCH 55/55] fix: numbers of different types are different constants
 of an assembly

---
 modules/core/__assembly_layout.h | 17 ++++++++++++++++-
 modules/core/assembly_reader.cpp |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/modules/core/__assembly_layout.h b/modules/core/__assembly_layout.h
index aaf2da3..362c7c9 100644
--- a/modules/core/__assembly_layout.h
+++ b/modules/core/__assembly_layout.h
@@ -368,6 +368,21 @@ namespace X_ROOT_NS::modules::core {
 
     //-------- ---------- ---------- ---------- ----------
 
+    // Order of entities, numbers of different types are different constants.
+    template<typename _entity_t> struct mt_less_t : std::less<_entity_t> { };
+
+    template<> struct mt_less_t<cvalue_t>
+    {
+        bool operator() (const cvalue_t & x, const cvalue_t & y) const
+        {
+            if (x.value_type == cvalue_type_t::number && y.value_type == cvalue_type_t::number
+                && x.number.type != y.number.type)
+                return x.number.type < y.number.type;
+
+            return x < y;
+        }
+    };
+
     // Base class of metadata manager.
     template<__tidx_t tidx, typename _mt_t=mt_t<tidx>>
     class mt_manager_base_t : public mt_manager_object_t
@@ -563,7 +578,7 @@ namespace X_ROOT_NS::modules::core {
         X_TO_STRING_IMPL(_T("mt_manager_base_t"))
 
     private:
-        std::map<entity_t, ref_t> __mt_map;
+        std::map<entity_t, ref_t, mt_less_t<entity_t>> __mt_map;
         __heap_t __heap;
     };
 
diff --git a/modules/core/assembly_reader.cpp b/modules/core/assembly_reader.cpp
index e3b9b13..14bb28c 100644
--- a/modules/core/assembly_reader.cpp
+++ b/modules/core/assembly_reader.cpp
@@ -939,7 +939,7 @@ namespace X_ROOT_NS::modules::core {
         // Load constants.
         void __load_constants()
         {
-            std::map<cvalue_t, expression_t *> map;
+            std::map<cvalue_t, expression_t *, mt_less_t<cvalue_t>> map;
 
             auto & mgr = __mt_manager<__tidx_t::constant>();
             for (mt_constant_t * mt : mgr)
-- 
2.43.0

