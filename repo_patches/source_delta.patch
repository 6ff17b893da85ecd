From 9c98b71aa4c96780e01d883d0a2f1677857e0e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:01 +0000
Subject: [PATCH 01/79] fix: buzzvm_tget() passed a type tag to %s when
 rejecting a table key

Reading t[{}] crashed the VM instead of reporting a type error.
---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index d8b2dff..b64f5e9 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1322,7 +1322,7 @@ buzzvm_state buzzvm_tget(buzzvm_t vm) {
    if(k->o.type != BUZZTYPE_INT &&
       k->o.type != BUZZTYPE_FLOAT &&
       k->o.type != BUZZTYPE_STRING) {
-      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", k->o.type);
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", buzztype_desc[k->o.type]);
       return vm->state;
    }
    const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t);
-- 
2.43.0


From f31fc17ff8e418f5b2b2b182163d4a3af4dfd5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:01 +0000
Subject: [PATCH 02/79] fix: mixed int/float modulo read the divisor through
 the wrong union member

-5.0 % 3 was -2.0 and -5 % 3.0 was about 1e9; both are 1.0 now.
---
 src/buzz/buzzvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index b64f5e9..f9b56ad 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1478,14 +1478,14 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->i.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += op1->i.value;
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->i.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->i.value;
+      if(res->f.value < 0.) res->f.value += op1->f.value;
       return buzzvm_push(vm, res);
    }
    else {
-- 
2.43.0


From 5775f845191ad8d8d8521591b1c46940183af5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:01 +0000
Subject: [PATCH 03/79] fix: arithmetic type errors carried no error message

The state and code were set by hand, so buzzvm_strerror() returned NULL (or the
message of an older error) after e.g. 5 + nil.
---
 src/buzz/buzzvm.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index f9b56ad..e74708b 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -40,8 +40,7 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
        op1->o.type != BUZZTYPE_FLOAT) ||                                \
       (op2->o.type != BUZZTYPE_INT &&                                   \
        op2->o.type != BUZZTYPE_FLOAT))  {                               \
-      (vm)->state = BUZZVM_STATE_ERROR;                                 \
-      (vm)->error = BUZZVM_ERROR_TYPE;                                  \
+      buzzvm_seterror((vm), BUZZVM_ERROR_TYPE, NULL);                   \
       return (vm)->state;                                               \
    }                                                                    \
    buzzdarray_pop(vm->stack);                                           \
@@ -1489,8 +1488,7 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror((vm), BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
@@ -1529,8 +1527,7 @@ buzzvm_state buzzvm_pow(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror((vm), BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
@@ -1553,8 +1550,7 @@ buzzvm_state buzzvm_unm(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror((vm), BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
-- 
2.43.0


From 94584ba1cc2bffc8995e8128d5ff12bceb048a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:01 +0000
Subject: [PATCH 04/79] fix: buzzvm_lremove() removed the symbols even after
 reporting they are too few

---
 src/buzz/buzzvm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index e74708b..bea5e34 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1695,11 +1695,13 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
 }
 
 buzzvm_state buzzvm_lremove(buzzvm_t vm, uint32_t num) {
-   if(buzzvm_lnum(vm) < num)
+   if(buzzvm_lnum(vm) < num) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack"
          );
+      return vm->state;
+   }
   for( uint32_t i =0 ; i < num ; i++ )
     buzzdarray_pop((vm)->lsyms->syms);
    return vm->state;
-- 
2.43.0


From b19d0e949df3ef103be5544bf35d8d7955c708e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 05/79] fix: calling a C closure from C executed one
 instruction of the caller

A C closure has already returned when buzzvm_callc() returns, but the loop always
stepped once: foreach({.1=2}, log) ran the instruction after the foreach call early.
---
 src/buzz/buzzdebug.c | 6 +++---
 src/buzz/buzzvm.c    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 763d78a..b561321 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -315,14 +315,14 @@ buzzvm_state buzzdebug_closure_call(buzzvm_t vm,
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do {
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY)
+      return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks)) {
       if(buzzdebug_breakpoint_exists(dbg, vm->pc))
          vm->state = BUZZVM_STATE_STOPPED;
       if(buzzvm_step(vm) != BUZZVM_STATE_READY)
          return vm->state;
    }
-   while(stacks < buzzdarray_size(vm->stacks));
    return vm->state;
 }
 
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index bea5e34..118c2aa 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1015,9 +1015,9 @@ buzzvm_state buzzvm_closure_call(buzzvm_t vm,
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-   while(stacks < buzzdarray_size(vm->stacks));
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks))
+      if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    return vm->state;
 }
 
-- 
2.43.0


From b5258b0dc9af1906938cf6cdef8104b050368005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 06/79] fix: function calls with arguments inserted object
 contents instead of the object

buzzdarray_insert() copies from the address of the element; the closure (and, in the
debugger, the self object) were passed by value, so the stack received garbage.
---
 src/buzz/buzzdebug.c | 6 ++++--
 src/buzz/buzzvm.c    | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index b561321..5332d41 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -308,7 +308,8 @@ buzzvm_state buzzdebug_closure_call(buzzvm_t vm,
       else return vm->state;
    }
    /* Insert the self table */
-   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, buzzobj_new(BUZZTYPE_NIL));
+   buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, &o);
    /* Push the argument count */
    buzzvm_pushi(vm, argc);
    /* Save the current stack depth */
@@ -348,9 +349,10 @@ buzzvm_state buzzdebug_function_call(buzzvm_t vm,
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    /* Move closure before arguments */
    if(argc > 0) {
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzdarray_insert(vm->stack,
                         buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+                        &c);
       buzzvm_pop(vm);
    }
    /* Call the closure */
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 118c2aa..173cd31 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1056,9 +1056,10 @@ buzzvm_state buzzvm_function_call(buzzvm_t vm,
    }
    /* Move closure before arguments */
    if(argc > 0) {
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzdarray_insert(vm->stack,
                         buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+                        &c);
       buzzvm_pop(vm);
    }
    /* Call the closure */
-- 
2.43.0


From 78707831fdae56cae2d090f5a321270e31f00cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 07/79] fix: buzzvm_function_register() compared code bytes
 instead of function pointers

The same function was registered again on every call.
---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 173cd31..9fc26bc 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1078,7 +1078,7 @@ int buzzvm_function_cmp(const void* a, const void* b) {
 uint32_t buzzvm_function_register(buzzvm_t vm,
                                   buzzvm_funp funp) {
    /* Look for function pointer to avoid duplicates */
-   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, funp);
+   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, &funp);
    if(fpos == buzzdarray_size(vm->flist)) {
       /* Add function to the list */
       buzzdarray_push(vm->flist, &funp);
-- 
2.43.0


From 649ab59c343a1ee7c01ba50f8a267300a40508a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 08/79] fix: buzzobj_cmp() returned raw strcmp() values

The documented values are -1, 0, 1 and 2, and 2 means "exactly one is nil": "c" == "a"
was true because strcmp() happened to return 2.
---
 src/buzz/buzztype.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 35e57b0..6d76945 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -133,6 +133,13 @@ int buzzobj_eq(const buzzobj_t a,
 /****************************************/
 /****************************************/
 
+static int str_cmp(const char* a,
+                   const char* b) {
+   /* The value of strcmp() is not normalized; make it -1, 0, 1 */
+   int c = strcmp(a, b);
+   return (c > 0) - (c < 0);
+}
+
 int buzzobj_cmp(const buzzobj_t a,
                 const buzzobj_t b) {
    /* Nil */
@@ -165,29 +172,29 @@ int buzzobj_cmp(const buzzobj_t a,
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
-      return strcmp(a->s.value.str, b->s.value.str);
+      return str_cmp(a->s.value.str, b->s.value.str);
    }
 
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_INT) {
       char str[30];
       sprintf(str, "%d", b->i.value);
-      return strcmp(a->s.value.str, str);
+      return str_cmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
       char str[30];
       sprintf(str, "%f", b->f.value);
-      return strcmp(a->s.value.str, str);
+      return str_cmp(a->s.value.str, str);
    }
 
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_STRING) {
       char str[30];
       sprintf(str, "%d", a->i.value);
-      return strcmp(str, b->s.value.str);
+      return str_cmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
       char str[30];
       sprintf(str, "%f", a->f.value);
-      return strcmp(str, b->s.value.str);
+      return str_cmp(str, b->s.value.str);
    }
    /* Tables */
    if(a->o.type == BUZZTYPE_TABLE || b->o.type == BUZZTYPE_TABLE) {
-- 
2.43.0


From 08dd5970876e0a7ec68aef58b5a44ef6632358dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 09/79] fix: every comparison between nil and another value was
 true

nil == 5 held at the same time as nil != 5, and nil < 5 at the same time as nil > 5.
---
 src/buzz/buzzvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 9fc26bc..0373d03 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -132,7 +132,8 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    buzzdarray_pop(vm->stack);                                           \
    buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);                 \
    int cmp = buzzobj_cmp(op2, op1);                                     \
-   res->i.value = (cmp == 2 || cmp oper 0);                             \
+   /* Exactly one operand is nil: they differ and are not ordered */    \
+   res->i.value = (cmp == 2) ? (0 oper 1 && 1 oper 0) : (cmp oper 0);   \
    return buzzvm_push(vm, res);
 
 /****************************************/
-- 
2.43.0


From a39a327b469ca30d44877856c25b2f679f1b12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 10/79] fix: integer division or modulo by zero killed the
 process with SIGFPE

Report a VM error instead (also for INT32_MIN / -1, which traps as well).
---
 src/buzz/buzzvm.c | 17 +++++++++++++++--
 src/buzz/buzzvm.h |  3 ++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 0373d03..e874f4a 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -14,7 +14,7 @@
 
 const char *buzzvm_state_desc[] = { "no code", "ready", "done", "error", "stopped" };
 
-const char *buzzvm_error_desc[] = { "none", "unknown instruction", "stack error", "wrong number of local variables", "pc out of range", "function id out of range", "type mismatch", "unknown string id", "unknown swarm id" };
+const char *buzzvm_error_desc[] = { "none", "unknown instruction", "stack error", "wrong number of local variables", "pc out of range", "function id out of range", "type mismatch", "unknown string id", "unknown swarm id", "math error" };
 
 const char *buzzvm_instr_desc[] = {"nop", "done", "pushnil", "dup", "pop", "ret0", "ret1", "add", "sub", "mul", "div", "mod", "pow", "unm", "land", "lor", "lnot", "band", "bor", "bnot", "lshift", "rshift", "eq", "neq", "gt", "gte", "lt", "lte", "gload", "gstore", "pusht", "tput", "tget", "callc", "calls", "pushf", "pushi", "pushs", "pushcn", "pushcc", "pushl", "lload", "lstore", "lremove", "jump", "jumpz", "jumpnz"};
 
@@ -1448,7 +1448,20 @@ buzzvm_state buzzvm_mul(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/* Integer division traps if the quotient is not representable */
+#define buzzvm_int_division_assert(vm)                                  \
+   buzzvm_stack_assert((vm), 2);                                        \
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_INT &&                 \
+      buzzvm_stack_at(vm, 2)->o.type == BUZZTYPE_INT &&                 \
+      (buzzvm_stack_at(vm, 1)->i.value == 0 ||                          \
+       (buzzvm_stack_at(vm, 1)->i.value == -1 &&                        \
+        buzzvm_stack_at(vm, 2)->i.value == INT32_MIN))) {               \
+      buzzvm_seterror((vm), BUZZVM_ERROR_MATH, "integer division by zero or overflow"); \
+      return (vm)->state;                                               \
+   }
+
 buzzvm_state buzzvm_div(buzzvm_t vm) {
+   buzzvm_int_division_assert(vm);
    buzzvm_binary_op_arith(vm, /);
 }
 
@@ -1456,7 +1469,7 @@ buzzvm_state buzzvm_div(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_mod(buzzvm_t vm) {
-   buzzvm_stack_assert((vm), 2);
+   buzzvm_int_division_assert(vm);
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);
    buzzdarray_pop(vm->stack);
diff --git a/src/buzz/buzzvm.h b/src/buzz/buzzvm.h
index 4f0aa09..84ab169 100644
--- a/src/buzz/buzzvm.h
+++ b/src/buzz/buzzvm.h
@@ -44,7 +44,8 @@ extern "C" {
       BUZZVM_ERROR_FLIST,    // Function call id out of range
       BUZZVM_ERROR_TYPE,     // Type mismatch
       BUZZVM_ERROR_STRING,   // Unknown string id
-      BUZZVM_ERROR_SWARM     // Unknown swarm id
+      BUZZVM_ERROR_SWARM,    // Unknown swarm id
+      BUZZVM_ERROR_MATH      // Integer division by zero or overflow
    } buzzvm_error;
    extern const char *buzzvm_error_desc[];
 
-- 
2.43.0


From b44a5d12c402b0876a8b43f23128c85a69820fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 11/79] fix: storing past the last local symbol left
 uninitialized pointers behind

With fewer arguments than parameters, the first 'var' of a function stored beyond the
end of the symbol table; the skipped slots were garbage the collector then followed.
---
 src/buzz/buzzvm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index e874f4a..a9599f2 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1705,6 +1705,11 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
    buzzvm_stack_assert((vm), 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
+   /* Parameters the caller did not pass are nil */
+   while(buzzdarray_size(vm->lsyms->syms) < idx) {
+      buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL);
+      buzzdarray_push(vm->lsyms->syms, &nil);
+   }
    buzzdarray_set((vm)->lsyms->syms, idx, &o);
    return vm->state;
 }
-- 
2.43.0


From 8bbb378660e74355ac1ca445d9b8e281914bb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:56 +0000
Subject: [PATCH 12/79] fix: the VM fetched instructions past the end of the
 bytecode

The pc was checked after an instruction, but not when it comes from the bytecode header
or from a closure called from C.
---
 src/buzz/buzzvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index a9599f2..10468ab 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -679,7 +679,7 @@ int buzzvm_set_bcode(buzzvm_t vm,
     * Register function definitions
     * Stop when you find a 'nop'
     */
-   while(vm->bcode[vm->pc] != BUZZVM_INSTR_NOP)
+   while(vm->pc >= vm->bcode_size || vm->bcode[vm->pc] != BUZZVM_INSTR_NOP)
       if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    buzzvm_step(vm);
    /* Initialize empty neighbors */
@@ -720,6 +720,7 @@ buzzvm_state buzzvm_step(buzzvm_t vm) {
    /* Execute GC */
    buzzheap_gc(vm);
    /* Fetch instruction and (potential) argument */
+   assert_pc(vm->pc);
    uint8_t instr = vm->bcode[vm->pc];
    /* Execute instruction */
    switch(instr) {
-- 
2.43.0


From a81a2bdcb18b320580f72deaedd9b2061bcc23dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:56 +0000
Subject: [PATCH 13/79] fix: buzzvm_set_bcode() read strings past the end of
 truncated bytecode

---
 src/buzz/buzzvm.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 10468ab..7f0d5ae 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -654,12 +654,21 @@ int buzzvm_set_bcode(buzzvm_t vm,
                      const uint8_t* bcode,
                      uint32_t bcode_size) {
    /* Fetch the string count */
+   if(bcode_size < sizeof(uint16_t)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_PC, "bytecode too short");
+      return vm->state;
+   }
    uint16_t count;
    memcpy(&count, bcode, sizeof(uint16_t));
    /* Go through the strings and store them */
    uint32_t i = sizeof(uint16_t);
    long int c = 0;
    for(; (c < count) && (i < bcode_size); ++c) {
+      /* Make sure the string ends within the bytecode */
+      if(!memchr(bcode + i, 0, bcode_size - i)) {
+         buzzvm_seterror(vm, BUZZVM_ERROR_STRING, "unterminated string in bytecode");
+         return vm->state;
+      }
       /* Store string */
       buzzvm_string_register(vm, (char*)(bcode + i), 1);
       /* Advance to first character of next string */
-- 
2.43.0


From e55de7299214e5bf307b75d220dd35878ba21b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:56 +0000
Subject: [PATCH 14/79] fix: negative argument counts and C function ids
 escaped the checks of a call

Both are signed values taken from the bytecode; negative ones read outside the stack
and the function list.
---
 src/buzz/buzzvm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 7f0d5ae..c3055f0 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1107,13 +1107,17 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
    int32_t argn = buzzvm_stack_at(vm, 1)->i.value;
    buzzvm_pop(vm);
    /* Make sure the stack has enough elements */
-   buzzvm_stack_assert(vm, argn+1);
+   if(argn < 0 || argn >= buzzvm_stack_top(vm)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "wrong argument count %d", argn);
+      return vm->state;
+   }
    /* Make sure the closure is where expected */
    buzzvm_type_assert(vm, argn+1, BUZZTYPE_CLOSURE);
    buzzobj_t c = buzzvm_stack_at(vm, argn+1);
    /* Make sure that that data about C closures is correct */
    if((!c->c.value.isnative) &&
-      ((c->c.value.ref) >= buzzdarray_size(vm->flist))) {
+      (c->c.value.ref < 0 ||
+       (c->c.value.ref) >= buzzdarray_size(vm->flist))) {
       buzzvm_seterror(vm, BUZZVM_ERROR_FLIST, NULL);
       return vm->state;
    }
-- 
2.43.0


From 927c7b139da2bcc8bca4fbf484a0cac762e51d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:14 +0000
Subject: [PATCH 15/79] fix: accessing a local symbol outside a function
 dereferenced NULL

A 'var' in a block at global scope crashed the VM; report an error instead.
---
 src/buzz/buzzvm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index c3055f0..4edd276 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1700,7 +1700,7 @@ buzzvm_state buzzvm_lte(buzzvm_t vm) {
 
 buzzvm_state buzzvm_lload(buzzvm_t vm, uint32_t idx) {
    /* Make sure there are sufficient local symbols in the stack */
-   if(buzzvm_lnum(vm) < idx) {
+   if(!vm->lsyms || buzzvm_lnum(vm) < idx) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack (maybe you called a function with an insufficient number of parameters?)"
@@ -1719,6 +1719,10 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
    buzzvm_stack_assert((vm), 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
+   if(!vm->lsyms) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_LNUM, "no local symbols outside functions");
+      return vm->state;
+   }
    /* Parameters the caller did not pass are nil */
    while(buzzdarray_size(vm->lsyms->syms) < idx) {
       buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL);
@@ -1729,7 +1733,7 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
 }
 
 buzzvm_state buzzvm_lremove(buzzvm_t vm, uint32_t num) {
-   if(buzzvm_lnum(vm) < num) {
+   if(!vm->lsyms || buzzvm_lnum(vm) < num) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack"
-- 
2.43.0


From 6ce3a958f37b07da381d8bf8a4d18868cc4dd6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:53 +0000
Subject: [PATCH 16/79] fix: comparing closures, or userdata with numbers,
 aborted the process

Comparison operators, math.min() and math.max() report a type error instead.
---
 src/buzz/buzzmath.c | 10 ++++++++++
 src/buzz/buzztype.c | 12 ++++++++++++
 src/buzz/buzztype.h |  9 +++++++++
 src/buzz/buzzvm.c   |  6 ++++++
 4 files changed, 37 insertions(+)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index a2479cb..eff6af6 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -432,6 +432,11 @@ int buzzmath_min(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzobj_t b = buzzvm_stack_at(vm, 1);
    /* Compare them and return the smaller one */
+   if(!buzzobj_comparable(a, b)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "can't compare %s and %s",
+                      buzztype_desc[a->o.type], buzztype_desc[b->o.type]);
+      return vm->state;
+   }
    int cmp = buzzobj_cmp(a, b);
    if(cmp != 1)
       buzzvm_push(vm, a);
@@ -451,6 +456,11 @@ int buzzmath_max(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzobj_t b = buzzvm_stack_at(vm, 1);
    /* Compare them and return the bigger one */
+   if(!buzzobj_comparable(a, b)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "can't compare %s and %s",
+                      buzztype_desc[a->o.type], buzztype_desc[b->o.type]);
+      return vm->state;
+   }
    int cmp = buzzobj_cmp(a, b);
    if(cmp >= 0)
       buzzvm_push(vm, a);
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 6d76945..182e375 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -133,6 +133,18 @@ int buzzobj_eq(const buzzobj_t a,
 /****************************************/
 /****************************************/
 
+int buzzobj_comparable(const buzzobj_t a,
+                       const buzzobj_t b) {
+   if(a->o.type == BUZZTYPE_NIL || b->o.type == BUZZTYPE_NIL) return 1;
+   if(a->o.type == BUZZTYPE_TABLE || b->o.type == BUZZTYPE_TABLE) return 1;
+   if(a->o.type == BUZZTYPE_CLOSURE || b->o.type == BUZZTYPE_CLOSURE) return 0;
+   /* Numbers and strings are comparable, userdata only with userdata */
+   return (a->o.type == BUZZTYPE_USERDATA) == (b->o.type == BUZZTYPE_USERDATA);
+}
+
+/****************************************/
+/****************************************/
+
 static int str_cmp(const char* a,
                    const char* b) {
    /* The value of strcmp() is not normalized; make it -1, 0, 1 */
diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index 92fe8c4..bc15253 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -147,6 +147,15 @@ extern "C" {
    extern int buzzobj_eq(const buzzobj_t a,
                          const buzzobj_t b);
 
+   /*
+    * Returns 1 if buzzobj_cmp() is defined on the given objects, 0 otherwise.
+    * @param a The first object.
+    * @param b The second object.
+    * @return 1 if the objects can be compared, 0 otherwise
+    */
+   extern int buzzobj_comparable(const buzzobj_t a,
+                                 const buzzobj_t b);
+
    /*
     * Compares two Buzz objects.
     * Returns:
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 4edd276..2952ffd 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -128,6 +128,12 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    buzzvm_stack_assert((vm), 2);                                        \
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);                              \
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);                              \
+   if(!buzzobj_comparable(op2, op1)) {                                  \
+      buzzvm_seterror((vm), BUZZVM_ERROR_TYPE, "can't compare %s and %s", \
+                      buzztype_desc[op2->o.type],                       \
+                      buzztype_desc[op1->o.type]);                      \
+      return (vm)->state;                                               \
+   }                                                                    \
    buzzdarray_pop(vm->stack);                                           \
    buzzdarray_pop(vm->stack);                                           \
    buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);                 \
-- 
2.43.0


From 434f3816476dd24af105fd1b98ca43cda99260a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:02 +0000
Subject: [PATCH 17/79] fix: 'return' outside of a function dereferenced NULL

buzzvm_ret0() and buzzvm_ret1() now report an error when no function is being executed.
---
 src/buzz/buzzvm.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 2952ffd..57bc8e4 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1384,6 +1384,11 @@ buzzvm_state buzzvm_gstore(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret0(buzzvm_t vm) {
+   /* There is nothing to return from outside a function */
+   if(!vm->lsyms) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
@@ -1414,6 +1419,11 @@ buzzvm_state buzzvm_ret0(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret1(buzzvm_t vm) {
+   /* There is nothing to return from outside a function */
+   if(!vm->lsyms) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
-- 
2.43.0


From 71ea581c008eeb786a17d983124abd464e7c70ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:03 +0000
Subject: [PATCH 18/79] fix: buzzvm_set_bcode() skips strings by the terminator
 it found

---
 src/buzz/buzzvm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 57bc8e4..e381676 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -671,15 +671,15 @@ int buzzvm_set_bcode(buzzvm_t vm,
    long int c = 0;
    for(; (c < count) && (i < bcode_size); ++c) {
       /* Make sure the string ends within the bytecode */
-      if(!memchr(bcode + i, 0, bcode_size - i)) {
+      const uint8_t* end = memchr(bcode + i, 0, bcode_size - i);
+      if(!end) {
          buzzvm_seterror(vm, BUZZVM_ERROR_STRING, "unterminated string in bytecode");
          return vm->state;
       }
       /* Store string */
       buzzvm_string_register(vm, (char*)(bcode + i), 1);
       /* Advance to first character of next string */
-      while(*(bcode + i) != 0) ++i;
-      ++i;
+      i = end - bcode + 1;
    }
    /* Initialize VM state */
    vm->state = BUZZVM_STATE_READY;
-- 
2.43.0


From bbf94ed9d9186b7d769f0328a9e6da8e0f4f6e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:14 +0000
Subject: [PATCH 19/79] fix: malformed broadcast messages and empty messages
 were not rejected

---
 src/buzz/buzzvm.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index e381676..1ebc3f9 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -252,12 +252,22 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
       uint16_t rid;
       buzzmsg_payload_t msg;
       buzzinmsg_queue_extract(vm, &rid, &msg);
+      /* Ignore messages that do not even contain a type */
+      if(buzzmsg_payload_size(msg) == 0) {
+         fprintf(stderr, "[WARNING] [ROBOT %u] Empty message received\n", vm->robot);
+         buzzmsg_payload_destroy(&msg);
+         continue;
+      }
       /* Dispatch the message wrt its type in msg->payload[0] */
       switch(buzzmsg_payload_get(msg, 0)) {
          case BUZZMSG_BROADCAST: {
             /* Deserialize the topic */
             buzzobj_t topic;
             int64_t pos = buzzobj_deserialize(&topic, msg, 1, vm);
+            if(pos < 0 || topic->o.type != BUZZTYPE_STRING) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make sure there's a listener to call */
             const buzzobj_t* l = buzzdict_get(vm->listeners, &topic->s.value.sid, buzzobj_t);
             if(!l) {
@@ -267,6 +277,10 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             /* Deserialize value */
             buzzobj_t value;
             pos = buzzobj_deserialize(&value, msg, pos, vm);
+            if(pos < 0) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make an object for the robot id */
             buzzobj_t rido = buzzheap_newobj(vm, BUZZTYPE_INT);
             rido->i.value = rid;
-- 
2.43.0


From 6d3b0be9b404dee5c76bdbfde32a373a84a15617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:14 +0000
Subject: [PATCH 20/79] fix: a truncated swarm list message updated the
 membership with garbage

---
 src/buzz/buzzvm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 1ebc3f9..f9142a5 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -469,6 +469,11 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   break;
                }
             }
+            /* Discard the message if not all the ids could be read */
+            if(pos < 0) {
+               buzzdarray_destroy(&sids);
+               break;
+            }
             /* Update the information */
             buzzswarm_members_refresh(vm->swarmmembers, rid, sids);
             break;
-- 
2.43.0


From 6f21d2be65aa34475fe5b48caef554f222d5fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 21/79] fix: an unknown type tag in a message indexed past the
 type descriptions

---
 src/buzz/buzztype.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 182e375..dac58df 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -598,6 +598,8 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
    uint8_t type;
    p = buzzmsg_deserialize_u8(&type, buf, p);
    if(p < 0) return -1;
+   /* Reject unknown types */
+   if(type > BUZZTYPE_USERDATA) return -1;
    *data = buzzheap_newobj(vm, type);
    switch(type) {
       case BUZZTYPE_NIL: {
-- 
2.43.0


From 76ec6a1df7a055482f72420f5cb2f6fa706a96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 22/79] fix: a received table with a closure as key aborted the
 process

---
 src/buzz/buzztype.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index dac58df..60db034 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -630,6 +630,10 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
             buzzobj_t v;
             p = buzzobj_deserialize(&k, buf, p, vm);
             if(p < 0) return -1;
+            /* The same types accepted by buzzvm_tput() can be keys */
+            if(k->o.type != BUZZTYPE_INT &&
+               k->o.type != BUZZTYPE_FLOAT &&
+               k->o.type != BUZZTYPE_STRING) return -1;
             p = buzzobj_deserialize(&v, buf, p, vm);
             if(p < 0) return -1;
             buzzdict_set((*data)->t.value, &k, &v);
-- 
2.43.0


From c2cd8f19fa7c62b9efc325836343005a6ef0ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 23/79] fix: values that cannot be serialized corrupted the
 rest of the message

---
 src/buzz/buzztype.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 60db034..661b191 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -541,6 +541,15 @@ void buzzobj_serialize_tableelem(const void* key, void* data, void* params) {
 
 void buzzobj_serialize(buzzdarray_t buf,
                        const buzzobj_t data) {
+   /* Values that can't be serialized are replaced by nil, so that
+    * whatever follows them in the message can still be parsed */
+   if(data->o.type == BUZZTYPE_USERDATA ||
+      (data->o.type == BUZZTYPE_CLOSURE &&
+       buzzdarray_size(data->c.value.actrec) != 1)) {
+      fprintf(stderr, "[TODO] %s:%d Can't serialize an object of type %s\n", __FILE__, __LINE__, buzztype_desc[data->o.type]);
+      buzzmsg_serialize_u8(buf, BUZZTYPE_NIL);
+      return;
+   }
    buzzmsg_serialize_u8(buf, data->o.type);
    switch(data->o.type) {
       case BUZZTYPE_NIL: {
@@ -573,13 +582,8 @@ void buzzobj_serialize(buzzdarray_t buf,
          // closures completely. The only supported cases are
          // serializing a function and the test case in
          // testmobilecode.bzz, which involves a table.
-         if(buzzdarray_size(data->c.value.actrec) == 1) {
-            buzzmsg_serialize_u8(buf, data->c.value.isnative);
-            buzzmsg_serialize_u32(buf, data->c.value.ref);
-         }
-         else {
-            fprintf(stderr, "[TODO] %s:%d: can't serialize a nested closure\n", __FILE__, __LINE__);
-         }
+         buzzmsg_serialize_u8(buf, data->c.value.isnative);
+         buzzmsg_serialize_u32(buf, data->c.value.ref);
          break;
       }
       default:
@@ -636,7 +640,9 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
                k->o.type != BUZZTYPE_STRING) return -1;
             p = buzzobj_deserialize(&v, buf, p, vm);
             if(p < 0) return -1;
-            buzzdict_set((*data)->t.value, &k, &v);
+            /* A nil value means that there is no such entry */
+            if(v->o.type != BUZZTYPE_NIL)
+               buzzdict_set((*data)->t.value, &k, &v);
          }
          return p;
       }
-- 
2.43.0


From 6dc7fe282cb664e6b88f1cd85705b0f62ec4ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 24/79] fix: tables with more than 255 entries were serialized
 with a truncated size

---
 src/buzz/buzztype.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 661b191..7d34417 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -568,7 +568,7 @@ void buzzobj_serialize(buzzdarray_t buf,
          break;
       }
       case BUZZTYPE_TABLE: {
-         buzzmsg_serialize_u8(buf, buzzdict_size(data->t.value));
+         buzzmsg_serialize_u16(buf, buzzdict_size(data->t.value));
          buzzdict_foreach(data->t.value, buzzobj_serialize_tableelem, buf);
          break;
       }
@@ -625,9 +625,9 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
          return p;
       }
       case BUZZTYPE_TABLE: {
-         uint8_t size;
+         uint16_t size;
          uint16_t i;
-         p = buzzmsg_deserialize_u8(&size, buf, p);
+         p = buzzmsg_deserialize_u16(&size, buf, p);
          if(p < 0) return -1;
          for(i = 0; i < size; ++i) {
             buzzobj_t k;
-- 
2.43.0


From 42d46e3ab3cae3d2fe86c4b2df905886085b98e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 25/79] fix: strings longer than 65535 characters corrupted the
 rest of the message

---
 src/buzz/buzzmsg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzmsg.c b/src/buzz/buzzmsg.c
index 640c9aa..dd481b6 100644
--- a/src/buzz/buzzmsg.c
+++ b/src/buzz/buzzmsg.c
@@ -167,13 +167,14 @@ int64_t buzzmsg_deserialize_float(float* data,
 
 void buzzmsg_serialize_string(buzzdarray_t buf,
                               const char* data) {
-   /* Get the length of the string */
-   uint16_t len = strlen(data);
+   /* Get the length of the string (no more than what fits the length field) */
+   size_t slen = strlen(data);
+   uint16_t len = slen < UINT16_MAX ? slen : UINT16_MAX;
    /* Push that into the buffer */
    buzzmsg_serialize_u16(buf, len);
    /* Go through the characters and push them into the buffer */
    const char* c = data;
-   while(*c) {
+   while(c < data + len) {
       buzzdarray_push(buf, (uint8_t*)(c));
       ++c;
    }
-- 
2.43.0


From 9bb184c8eadb33ef7eb309b631fd532b6b72a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 26/79] fix: messages of the same robot were processed last to
 first

---
 src/buzz/buzzinmsg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 1185491..69195fe 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -60,8 +60,8 @@ int buzzinmsg_queue_extract(buzzvm_t vm,
       }
    }
    /* Extract payload from array */
-   *payload = buzzdarray_last(q, buzzmsg_payload_t);
-   buzzdarray_pop(q);
+   *payload = buzzdarray_get(q, 0, buzzmsg_payload_t);
+   buzzdarray_remove(q, 0);
    /* If array is empty, remove (id,array entry) from dict */
    if(buzzdarray_isempty(q))
       buzzdict_remove(vm->inmsgs, rid);
-- 
2.43.0


From 6db573f828884a53d4c3acfb4b9d62923ff17355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 27/79] fix: replacing a conflict manager freed an object owned
 by the garbage collector

---
 src/buzz/buzzvstig.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 9375e3e..b8236ec 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -359,7 +359,6 @@ int buzzvstig_onconflict(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       /* Clone the closure */
-      if((*vs)->onconflict) free((*vs)->onconflict);
       (*vs)->onconflict = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
@@ -387,7 +386,6 @@ int buzzvstig_onconflictlost(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       /* Clone the closure */
-      if((*vs)->onconflictlost) free((*vs)->onconflictlost);
       (*vs)->onconflictlost = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
-- 
2.43.0


From 3306c9264355660cdaa0594494c5b437d9a95fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:07 +0000
Subject: [PATCH 28/79] fix: conflict managers that fail, or that change the
 stigmergy, corrupted the VM state

---
 src/buzz/buzzvm.c    | 31 +++++++++++++++++++++++++------
 src/buzz/buzzvstig.c | 26 ++++++++++++++++++++++----
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index f9142a5..e5be7ca 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -289,8 +289,8 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             buzzvm_push(vm, topic);
             buzzvm_push(vm, value);
             buzzvm_push(vm, rido);
-            buzzvm_closure_call(vm, 3);
-            buzzvm_pop(vm);
+            if(buzzvm_closure_call(vm, 3) == BUZZVM_STATE_READY)
+               buzzvm_pop(vm);
             break;
          }
          case BUZZMSG_VSTIG_PUT: {
@@ -332,27 +332,37 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   buzzvstig_onconflict_call(vm, *vs, k, *l, v);
                if(!c) {
                   fprintf(stderr, "[WARNING] [ROBOT %u] Error resolving PUT conflict\n", vm->robot);
+                  free(v);
                   break;
                }
                /* Get rid of useless vstig element */
                free(v);
+               /* The conflict manager could have removed the local element */
+               vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
+               l = vs ? buzzvstig_fetch(*vs, &k) : NULL;
+               if(!l) {
+                  free(c);
+                  break;
+               }
                /* Did this robot lose the conflict? */
                if((c->robot != vm->robot) &&
                   ((*l)->robot == vm->robot)) {
                   /* Yes */
                   /* Save current local entry */
                   buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
-                  /* Store winning value */
+                  /* Store winning value and propagate it */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                   /* Call conflict lost manager */
                   buzzvstig_onconflictlost_call(vm, *vs, k, ol);
+                  free(ol);
                }
                else {
                   /* This robot did not lose the conflict */
                   /* Just propagate the PUT message */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
             }
             else {
                /* Remote element is older, ignore it */
@@ -425,23 +435,32 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                free(v);
                /* Make sure conflict manager returned with an element to process */
                if(!c) break;
+               /* The conflict manager could have removed the local element */
+               vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
+               l = vs ? buzzvstig_fetch(*vs, &k) : NULL;
+               if(!l) {
+                  free(c);
+                  break;
+               }
                /* Did this robot lose the conflict? */
                if((c->robot != vm->robot) &&
                   ((*l)->robot == vm->robot)) {
                   /* Yes */
                   /* Save current local entry */
                   buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
-                  /* Store winning value */
+                  /* Store winning value and propagate it */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                   /* Call conflict lost manager */
                   buzzvstig_onconflictlost_call(vm, *vs, k, ol);
+                  free(ol);
                }
                else {
                   /* This robot did not lose the conflict */
                   /* Just propagate the PUT message */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
             }
             else {
                /* Remote element is same as local, ignore it */
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index b8236ec..6399376 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -408,6 +408,10 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
                                            buzzvstig_elem_t rv) {
    /* Was a conflict manager defined? */
    if(vs->onconflict) {
+      /* The manager could change the local element */
+      uint16_t timestamp = lv->timestamp;
+      /* Keep the key alive while the manager runs */
+      buzzvm_push(vm, k);
       /* Push closure */
       buzzvm_push(vm, vs->onconflict);
       /* Push key */
@@ -423,19 +427,25 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       add_field(data, rv, push);
       add_field(timestamp, rv, pushi);
       /* Call closure (key, lv, rv on the stack) */
-      buzzvm_closure_call(vm, 3);
+      if(buzzvm_closure_call(vm, 3) != BUZZVM_STATE_READY)
+         return NULL;
       /* Make new entry with return value */
       /* Make sure it's a table */
       if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
          fprintf(stderr, "[WARNING] [ROBOT %u] virtual stigmergy onconflict(): Return value type is %s, expected table\n", vm->robot, buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
+         buzzvm_pop(vm);
+         buzzvm_pop(vm);
          return NULL;
       }
       /* Get the robot id */
       buzzobj_t ret = buzzvm_stack_at(vm, 1);
       buzzvm_pushs(vm, buzzvm_string_register(vm, "robot", 1));
       buzzvm_tget(vm);
-      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT)
+      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT) {
+         buzzvm_pop(vm);
+         buzzvm_pop(vm);
          return NULL;
+      }
       uint16_t robot = buzzvm_stack_at(vm, 1)->i.value;
       buzzvm_pop(vm);
       /* Get the data */
@@ -444,8 +454,10 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       buzzvm_tget(vm);
       buzzobj_t data = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
+      /* Get rid of the key */
+      buzzvm_pop(vm);
       /* Make new entry */
-      return buzzvstig_elem_new(data, lv->timestamp, robot);
+      return buzzvstig_elem_new(data, timestamp, robot);
    }
    else {
       /* No conflict manager, use default behavior */
@@ -477,6 +489,8 @@ void buzzvstig_onconflictlost_call(buzzvm_t vm,
                                    buzzvstig_elem_t lv) {
    /* Was a conflict manager defined? */
    if(vs->onconflictlost) {
+      /* Keep the key alive while the manager runs */
+      buzzvm_push(vm, k);
       /* Push closure */
       buzzvm_push(vm, vs->onconflictlost);
       /* Push key */
@@ -487,7 +501,11 @@ void buzzvstig_onconflictlost_call(buzzvm_t vm,
       add_field(data, lv, push);
       add_field(timestamp, lv, pushi);
       /* Call closure (key and table are on the stack) */
-      buzzvm_closure_call(vm, 2);
+      if(buzzvm_closure_call(vm, 2) != BUZZVM_STATE_READY)
+         return;
+      /* Get rid of the return value and of the key */
+      buzzvm_pop(vm);
+      buzzvm_pop(vm);
    }
 }
 
-- 
2.43.0


From 06b33f4d44a01d637f007b388dd4fcdc73f34c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:09 +0000
Subject: [PATCH 29/79] fix: closures and userdata as virtual stigmergy keys
 aborted the process

---
 src/buzz/buzzvstig.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 6399376..963186e 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -19,6 +19,15 @@
    buzzvm_tget(vm);                                       \
    uint16_t id = buzzvm_stack_at(vm, 1)->i.value;
 
+#define key_assert(KEY)                                                 \
+   if((KEY)->o.type == BUZZTYPE_CLOSURE ||                              \
+      (KEY)->o.type == BUZZTYPE_USERDATA) {                             \
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE,                            \
+                      "a %s value can't be used as a virtual stigmergy key", \
+                      buzztype_desc[(KEY)->o.type]);                    \
+      return vm->state;                                                 \
+   }
+
 #define add_field(FIELD, VAL, METHOD)                       \
    buzzvm_dup(vm);                                          \
    buzzvm_pushs(vm, buzzvm_string_register(vm, #FIELD, 1)); \
@@ -137,6 +146,9 @@ int64_t buzzvstig_elem_deserialize(buzzobj_t* key,
    /* Deserialize the key */
    p = buzzobj_deserialize(key, buf, p, vm);
    if(p < 0) return -1;
+   /* Closures and userdata can't be keys */
+   if((*key)->o.type == BUZZTYPE_CLOSURE ||
+      (*key)->o.type == BUZZTYPE_USERDATA) return -1;
    /* Deserialize the data */
    p = buzzobj_deserialize(&((*data)->data), buf, p, vm);
    if(p < 0) return -1;
@@ -195,6 +207,7 @@ int buzzvstig_put(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   key_assert(k);
    /* Get value */
    buzzvm_lload(vm, 2);
    buzzobj_t v = buzzvm_stack_at(vm, 1);
@@ -311,6 +324,7 @@ int buzzvstig_get(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   key_assert(k);
    /* Look for virtual stigmergy */
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
-- 
2.43.0


From 743227f0476dbde648c2bdfdc06be20f04f6bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:04 +0000
Subject: [PATCH 30/79] fix: removing elements from a table while iterating on
 it crashed

---
 src/buzz/buzzdict.c |  5 +++--
 src/buzz/buzztype.c | 27 +++++++++++++++++++--------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/buzz/buzzdict.c b/src/buzz/buzzdict.c
index acefe98..8bd4572 100644
--- a/src/buzz/buzzdict.c
+++ b/src/buzz/buzzdict.c
@@ -168,8 +168,9 @@ void buzzdict_foreach(buzzdict_t dt,
    for(i = 0; i < dt->num_buckets; ++i) {
       /* Is the bucket used? */
       if(dt->buckets[i] != NULL) {
-         /* Go through elements in the bucket */
-         for(j = 0; j < buzzdarray_size(dt->buckets[i]); ++j) {
+         /* Go through elements in the bucket
+          * (fun could remove elements, and the bucket with them) */
+         for(j = 0; dt->buckets[i] != NULL && j < buzzdarray_size(dt->buckets[i]); ++j) {
             const struct buzzdict_entry_s* e = &buzzdarray_get(dt->buckets[i], j, struct buzzdict_entry_s);
             fun(e->key, e->data, params);
          }
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 7d34417..f79c4ce 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -358,11 +358,14 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_map_params* p = (struct buzzobj_map_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* The function could remove the element: keep a reference to the key */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzvm_push(p->vm, k);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
    buzzvm_push(p->vm, p->fun);
-   buzzvm_push(p->vm, *(buzzobj_t*)key);
+   buzzvm_push(p->vm, k);
    buzzvm_push(p->vm, *(buzzobj_t*)data);
    /* Call closure */
    p->vm->state = buzzvm_closure_call(p->vm, 2);
@@ -378,12 +381,13 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Manage return value */
    buzzobj_t r = buzzvm_stack_at(p->vm, 1);
    if(r->o.type != BUZZTYPE_NIL) {
-      buzzdict_set(p->result, key, &r);
+      buzzdict_set(p->result, &k, &r);
    }
    else {
-      buzzdict_remove(p->result, key);
+      buzzdict_remove(p->result, &k);
    }
-   /* Get rid of return value */
+   /* Get rid of return value and key */
+   buzzvm_pop(p->vm);
    buzzvm_pop(p->vm);
 }
 
@@ -478,12 +482,17 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_filter_params* p = (struct buzzobj_filter_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* The predicate could remove the element: keep a reference to it */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzobj_t d = *(buzzobj_t*)data;
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, d);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
    buzzvm_push(p->vm, p->fun);
-   buzzvm_push(p->vm, *(buzzobj_t*)key);
-   buzzvm_push(p->vm, *(buzzobj_t*)data);
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, d);
    /* Call closure */
    p->vm->state = buzzvm_closure_call(p->vm, 2);
    if(p->vm->state != BUZZVM_STATE_READY) return;
@@ -500,9 +509,11 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    if(retval->o.type != BUZZTYPE_NIL &&
       (retval->o.type != BUZZTYPE_INT ||
        retval->i.value != 0)) {
-      buzzdict_set(p->result, key, data);
+      buzzdict_set(p->result, &k, &d);
    }
-   /* Get rid of return value */
+   /* Get rid of return value, key and data */
+   buzzvm_pop(p->vm);
+   buzzvm_pop(p->vm);
    buzzvm_pop(p->vm);
 }
 
-- 
2.43.0


From 777793c792df46dd78c92b17c254546e3d918732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:04 +0000
Subject: [PATCH 31/79] fix: deleting a virtual stigmergy element leaked an
 object and an element

---
 src/buzz/buzzvstig.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 963186e..a5079ad 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -230,11 +230,12 @@ int buzzvstig_put(buzzvm_t vm) {
             /* New value is nil, must delete the existing element */
             /* Make a new element with nil as value to update neighbors */
             buzzvstig_elem_t y = buzzvstig_elem_new(
-               buzzobj_new(BUZZTYPE_NIL), // nil value
-               (*x)->timestamp + 1,       // new timestamp
-               vm->robot);                // robot id
+               v,                   // nil value
+               (*x)->timestamp + 1, // new timestamp
+               vm->robot);          // robot id
             /* Append a PUT message to the out message queue with nil in it */
             buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, y);
+            free(y);
             /* Delete the existing element */
             buzzvstig_remove(*vs, &k);
          }
-- 
2.43.0


From 69c6401d2aa162ddfb6103300751226e6700fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 32/79] fix: math.rng.exponential() read its argument from an
 empty stack

---
 src/buzz/buzzmath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index eff6af6..69fa456 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -649,6 +649,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
 int buzzmath_rng_exponential(buzzvm_t vm) {
    /* Get the mean */
    buzzvm_lnum_assert(vm, 1);
+   buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    float mean;
    if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
-- 
2.43.0


From 6c7b9a13792a2116e96fc3cf49e2b39780299a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 33/79] fix: math.rng.gaussian() refused one argument and
 ignored the second

---
 src/buzz/buzzmath.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 69fa456..969772a 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -604,7 +604,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
       }
       if(buzzvm_lnum(vm) == 2) {
          /* Take second argument */
-         buzzvm_lload(vm, 1);
+         buzzvm_lload(vm, 2);
          o = buzzvm_stack_at(vm, 1);
          if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
          else if(o->o.type == BUZZTYPE_INT) mean = o->i.value;
@@ -618,7 +618,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
             return vm->state;
          }
       }
-      else {
+      else if(buzzvm_lnum(vm) > 2) {
          /* Error */
          buzzvm_seterror(vm,
                          BUZZVM_ERROR_LNUM,
-- 
2.43.0


From cf77c5faa7b110160e8d20aded46ed9562198108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 34/79] fix: string.sub() with a negative index read before the
 string

---
 src/buzz/buzzstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 288dc7e..1a25d74 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -71,7 +71,7 @@ int buzzstring_sub(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t n = buzzvm_stack_at(vm, 1)->i.value;
-   if(n >= ls) {
+   if(n < 0 || n >= ls) {
       /* Out of bounds */
       buzzvm_pushnil(vm);
       return buzzvm_ret1(vm);
-- 
2.43.0


From b8208cab7e0cc987056e0b05fc7a8df69686435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 35/79] fix: string.tostring() of a non-number converted
 garbage

---
 src/buzz/buzzstring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 1a25d74..6a9bddb 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -152,6 +152,7 @@ int buzzstring_tostring(buzzvm_t vm) {
       o->o.type != BUZZTYPE_FLOAT) {
       /* Can't convert */
       buzzvm_pushnil(vm);
+      return buzzvm_ret1(vm);
    }
    /* Perform conversion */
    char* str;
-- 
2.43.0


From e05ed7feffb8ae62bae159b8b32d3e93cae4fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 36/79] fix: io.fforeach() popped its own closure and went on
 after errors

---
 src/buzz/buzzio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index e1d6a1f..b451c55 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -172,16 +172,18 @@ int buzzio_fforeach(buzzvm_t vm) {
       buzzvm_pushs(vm, buzzvm_string_register(vm, line, 0));
       /* Call closure */
       vmstate = buzzvm_closure_call(vm, 1);
-      buzzvm_pop(vm);
+      /* Don't touch the stack if the closure failed */
+      if(vmstate != BUZZVM_STATE_READY) break;
       /* Next line */
       len = getline(&line, &cap, f);
       /* Remove the nil (return value) left by closure_call */
       buzzvm_pop(vm);
    }
+   free(line);
+   if(vmstate != BUZZVM_STATE_READY) return vmstate;
    /* Register error information */
    buzzio_update_error(vm);
    /* All done */
-   free(line);
    return buzzvm_ret0(vm);
 }
 
-- 
2.43.0


From e3060764e308c2e42e5e843390e371cd1cd46e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 37/79] fix: the io functions used tables that are not file
 handles as such

---
 src/buzz/buzzio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index b451c55..1416199 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -17,6 +17,7 @@
    buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);                 \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1)); \
    buzzvm_tget(vm);                                           \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_USERDATA);              \
    FILE* VAR = buzzvm_stack_at(vm, 1)->u.value;               \
    buzzvm_pop(vm);
 
-- 
2.43.0


From 52db2ec63b9a1ef3748c776140cdffba1c0f444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 38/79] fix: using a file after io.fclose() accessed freed
 memory

---
 src/buzz/buzzio.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 1416199..d7ddb34 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -118,6 +118,11 @@ int buzzio_fclose(buzzvm_t vm) {
    filehandle_get(f);
    /* Close the file */
    fclose(f);
+   /* The handle is not usable anymore */
+   buzzvm_lload(vm, 1);
+   buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1));
+   buzzvm_pushnil(vm);
+   buzzvm_tput(vm);
    /* Register error information */
    buzzio_update_error(vm);
    /* All done */
-- 
2.43.0


From e566278508aa7e95077b54140c602246dcb09d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:32 +0000
Subject: [PATCH 39/79] fix: swarm.id() ignored its argument

---
 src/buzz/buzzswarm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 996ddd9..87bc06b 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -317,12 +317,14 @@ int buzzswarm_id(struct buzzvm_s* vm) {
       /* Take the stack top by default */
       uint16_t stackpos = 1;
       /* Do we have an argument? */
-      if(buzzvm_lnum(vm) > 1) {
+      if(buzzvm_lnum(vm) > 0) {
          buzzvm_lload(vm, 1);
          buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
          stackpos = buzzvm_stack_at(vm, 1)->i.value;
       }
       /* Limit stackpos value to avoid out-of-bounds operations */
+      if(stackpos < 1)
+         stackpos = 1;
       if(stackpos > buzzdarray_size(vm->swarmstack))
          stackpos = buzzdarray_size(vm->swarmstack);
       /* Push the swarm id located at stackpos */
-- 
2.43.0


From f592b82649db3f9c2170122b57fd624cd2819386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:32 +0000
Subject: [PATCH 40/79] fix: swarm and stigmergy methods took any value as the
 id of their object

---
 src/buzz/buzzswarm.c | 8 ++++++--
 src/buzz/buzzvstig.c | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 87bc06b..9990222 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -15,7 +15,9 @@
 #define id_get()                                          \
    buzzvm_lload(vm, 0);                                   \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1)); \
-   buzzvm_tget(vm);                                       \
+   if(buzzvm_tget(vm) != BUZZVM_STATE_READY)              \
+      return vm->state;                                   \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);               \
    uint16_t id = buzzvm_stack_at(vm, 1)->i.value;
 
 /****************************************/
@@ -346,7 +348,9 @@ int buzzswarm_others(buzzvm_t vm) {
    /* Get the id of the current swarm */
    buzzvm_lload(vm, 0);
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1));
-   buzzvm_tget(vm);
+   if(buzzvm_tget(vm) != BUZZVM_STATE_READY)
+      return vm->state;
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    uint16_t id1 = buzzvm_stack_at(vm, 1)->i.value;
    /* Get the swarm entry */
    const uint8_t* x = buzzdict_get(vm->swarms, &id1, uint8_t);
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index a5079ad..6e4f046 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -16,7 +16,9 @@
 #define id_get()                                          \
    buzzvm_lload(vm, 0);                                   \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1)); \
-   buzzvm_tget(vm);                                       \
+   if(buzzvm_tget(vm) != BUZZVM_STATE_READY)              \
+      return vm->state;                                   \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);               \
    uint16_t id = buzzvm_stack_at(vm, 1)->i.value;
 
 #define key_assert(KEY)                                                 \
-- 
2.43.0


From ecccd58b1368dddbcce5ec451ccee4d799af2665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:05 +0000
Subject: [PATCH 41/79] fix: inserting past the end of a dynamic array left
 uninitialized elements behind

---
 src/buzz/buzzdarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdarray.c b/src/buzz/buzzdarray.c
index 65bc57d..db5c51b 100644
--- a/src/buzz/buzzdarray.c
+++ b/src/buzz/buzzdarray.c
@@ -116,7 +116,7 @@ void* buzzdarray_makeslot(buzzdarray_t da,
    /* Increase size */
    ++(da->size);
    /* Return pointer to the slot */
-   return buzzdarray_rawget(da, pos);
+   return buzzdarray_rawget(da, i);
 }
 
 /****************************************/
@@ -128,7 +128,7 @@ void buzzdarray_insert(buzzdarray_t da,
    /* Create the slot */
    void* slot = buzzdarray_makeslot(da, pos);
    /* Add element at the specified position */
-   if(slot != NULL) buzzdarray_set(da, pos, data);
+   if(slot != NULL) memcpy(slot, data, da->elem_size);
 }
 
 /****************************************/
-- 
2.43.0


From 6258c2d905db7dff18a574c2c703c0b1d7955617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:17 +0000
Subject: [PATCH 42/79] fix: swarm.select() looked only at the low byte of its
 condition

---
 src/buzz/buzzswarm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 9990222..12ffcde 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -460,7 +460,7 @@ int buzzswarm_select(buzzvm_t vm) {
    /* Get the result of the condition check */
    buzzvm_lload(vm, 1);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
-   uint8_t in = buzzvm_stack_at(vm, 1)->i.value;
+   uint8_t in = (buzzvm_stack_at(vm, 1)->i.value != 0);
    /* Update the swarm, if known */
    if(buzzdict_exists(vm->swarms, &id)) {
       /* Store membership */
-- 
2.43.0


From b118e69fab2e05993a303e7cd6ab650ffdd99d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:21 +0000
Subject: [PATCH 43/79] fix: swarm set operations went on after refusing an
 argument that is not a swarm

---
 src/buzz/buzzswarm.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 12ffcde..b49f223 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -531,7 +531,15 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
     * Assert that the top of the stack element is a valid swarm
     */
    /* Mke sure it's a table */
-   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
+   if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_TYPE,
+                      "expected %s, got %s",
+                      buzztype_desc[BUZZTYPE_TABLE],
+                      buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
+      /* Return error */
+      return -1;
+   }
    /* Get the 'id' element */
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1));
    buzzvm_tget(vm);
-- 
2.43.0


From 4f434e48b21758df4d5e4495ce551dfd9f30db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:25 +0000
Subject: [PATCH 44/79] fix: swarm.exec() of a C closure executed one
 instruction of its caller

---
 src/buzz/buzzswarm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index b49f223..03c132d 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -513,8 +513,9 @@ int buzzswarm_exec(buzzvm_t vm) {
       int32_t numargs = 0;
       buzzvm_pushi(vm, numargs);
       buzzvm_calls(vm);
-      do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-      while(stacks < buzzdarray_size(vm->stacks));
+      while(vm->state == BUZZVM_STATE_READY &&
+            stacks < buzzdarray_size(vm->stacks))
+         buzzvm_step(vm);
       return vm->state;
    }
    else {
-- 
2.43.0


From 28637c2bd8d870b1d07b851eadb563e24a1539d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:43 +0000
Subject: [PATCH 45/79] fix: neighbors.count() took whatever 'poses' is for a
 table

---
 src/buzz/buzzneighbors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index b8d07e6..a30a1ab 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -618,8 +618,8 @@ int buzzneighbors_count(struct buzzvm_s* vm) {
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
    int32_t count = 0;
-   if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_NIL) {
-      count = buzzdarray_size(buzzvm_stack_at(vm, 1)->t.value);
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_TABLE) {
+      count = buzzdict_size(buzzvm_stack_at(vm, 1)->t.value);
    }
    buzzvm_pushi(vm, count);
    return buzzvm_ret1(vm);
-- 
2.43.0


From 6aafa52899c67cebc212f9a013e7e3d4d3b8adf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:08 +0000
Subject: [PATCH 46/79] fix: neighbors.map/filter used elements removed by the
 function they call

---
 src/buzz/buzzneighbors.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index a30a1ab..3e7dc79 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -395,6 +395,8 @@ void neighbor_map_each(const void* key, void* data, void* params) {
    struct neighbor_map_each_s* d = (struct neighbor_map_each_s*)params;
    if(d->vm->state != BUZZVM_STATE_READY) return;
    buzzobj_t rid = *(buzzobj_t*)key;
+   /* The function could remove the element: keep a reference to the key */
+   buzzvm_push(d->vm, rid);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(d->vm);
    /* Push closure and params (key, value) */
@@ -415,7 +417,8 @@ void neighbor_map_each(const void* key, void* data, void* params) {
    /* Add entry to the return table */
    buzzobj_t retval = buzzvm_stack_at(d->vm, 1);
    buzzdict_set(d->result, &rid, &retval);
-   /* Get rid of return value */
+   /* Get rid of return value and key */
+   buzzvm_pop(d->vm);
    buzzvm_pop(d->vm);
 }
 
@@ -539,12 +542,16 @@ void neighbor_filter_each(const void* key, void* data, void* params) {
    struct neighbor_filter_each_s* d = (struct neighbor_filter_each_s*)params;
    if(d->vm->state != BUZZVM_STATE_READY) return;
    buzzobj_t rid = *(buzzobj_t*)key;
+   buzzobj_t value = *(buzzobj_t*)data;
+   /* The predicate could remove the element: keep a reference to it */
+   buzzvm_push(d->vm, rid);
+   buzzvm_push(d->vm, value);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(d->vm);
    /* Push closure and params (key, value) */
    buzzvm_push(d->vm, d->closure);
    buzzvm_push(d->vm, rid);
-   buzzvm_push(d->vm, *(buzzobj_t*)data);
+   buzzvm_push(d->vm, value);
    /* Call closure */
    d->vm->state = buzzvm_closure_call(d->vm, 2);
    if(d->vm->state != BUZZVM_STATE_READY) return;
@@ -561,9 +568,11 @@ void neighbor_filter_each(const void* key, void* data, void* params) {
    if(retval->o.type != BUZZTYPE_NIL &&
       (retval->o.type != BUZZTYPE_INT ||
        retval->i.value != 0)) {
-      buzzdict_set(d->result, &rid, data);
+      buzzdict_set(d->result, &rid, &value);
    }
-   /* Get rid of return value */
+   /* Get rid of return value, key and data */
+   buzzvm_pop(d->vm);
+   buzzvm_pop(d->vm);
    buzzvm_pop(d->vm);
 }
 
-- 
2.43.0


From 0476b0974492c64a8c4b27064b39db5785bfe703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:40 +0000
Subject: [PATCH 47/79] fix: a dynamic array made from an empty buffer can grow

---
 src/buzz/buzzdarray.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzdarray.c b/src/buzz/buzzdarray.c
index db5c51b..4d11a75 100644
--- a/src/buzz/buzzdarray.c
+++ b/src/buzz/buzzdarray.c
@@ -60,12 +60,13 @@ buzzdarray_t buzzdarray_frombuffer(const void* buf,
    /* Create the dynamic array. calloc() zeroes everything. */
    buzzdarray_t da = (buzzdarray_t)calloc(1, sizeof(struct buzzdarray_s));
    /* Set info */
-   da->capacity = buf_size / elem_size;
+   da->size = buf_size / elem_size;
+   /* The capacity can't be zero, or the array could never grow */
+   da->capacity = da->size > 0 ? da->size : 1;
    da->elem_size = elem_size;
    da->elem_destroy = elem_destroy ? elem_destroy : buzzdarray_elem_destroy;
-   da->size = da->capacity;
    /* Create initial data */
-   da->data = malloc(buf_size);
+   da->data = malloc(buf_size > 0 ? buf_size : elem_size);
    memcpy(da->data, buf, buf_size);
    /* Done */
    return da;
-- 
2.43.0


From 5fc9152a687e8e982af9df79bdb5192347dedce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:37 +0000
Subject: [PATCH 48/79] fix: a string and a number are never the same table or
 stigmergy key; negative float keys hash like the equal integer

---
 src/buzz/buzzoutmsg.c |  2 +-
 src/buzz/buzztype.c   | 13 +++++++++++--
 src/buzz/buzztype.h   | 10 ++++++++++
 src/buzz/buzzvstig.c  |  2 +-
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index e7af5b1..dbcb2a8 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -57,7 +57,7 @@ uint32_t buzzoutmsg_obj_hash(const void* key) {
 }
 
 int buzzoutmsg_obj_cmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(const buzzobj_t*)a, *(const buzzobj_t*)b);
+   return buzzobj_keycmp(*(const buzzobj_t*)a, *(const buzzobj_t*)b);
 }
 
 void buzzoutmsg_destroy(uint32_t pos, void* data, void* params) {
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index f79c4ce..5139d37 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -20,7 +20,8 @@ uint32_t buzzobj_table_hash(const void* key) {
          return (k->i.value % BUZZTYPE_TABLE_BUCKETS);
       }
       case BUZZTYPE_FLOAT: {
-         return ((uint32_t)(k->f.value) % BUZZTYPE_TABLE_BUCKETS);
+         /* Same bucket as the integer of equal value, negative ones too */
+         return ((int32_t)(k->f.value) % BUZZTYPE_TABLE_BUCKETS);
       }
       case BUZZTYPE_STRING: {
          return ((uint32_t)(k->s.value.sid) % BUZZTYPE_TABLE_BUCKETS);
@@ -31,8 +32,16 @@ uint32_t buzzobj_table_hash(const void* key) {
    }
 }
 
+int buzzobj_keycmp(const buzzobj_t a,
+                   const buzzobj_t b) {
+   /* A string and a number have different hashes, even when the string
+    * is the text of the number: they are different keys */
+   if((a->o.type == BUZZTYPE_STRING) != (b->o.type == BUZZTYPE_STRING)) return 2;
+   return buzzobj_cmp(a, b);
+}
+
 int buzzobj_table_keycmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
+   return buzzobj_keycmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
 buzzobj_t buzzobj_new(uint16_t type) {
diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index bc15253..268f262 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -173,6 +173,16 @@ extern "C" {
    extern int buzzobj_cmp(const buzzobj_t a,
                           const buzzobj_t b);
 
+   /*
+    * Compares two Buzz objects used as keys.
+    * Works like buzzobj_cmp(), but a string is never equal to a number.
+    * @param a The first object.
+    * @param b The second object.
+    * @return 0 if the objects are the same key, another value otherwise
+    */
+   extern int buzzobj_keycmp(const buzzobj_t a,
+                             const buzzobj_t b);
+
    /*
     * C-closure to return the type of an object.
     * @param vm The VM data.
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 6e4f046..6ba7bb7 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -61,7 +61,7 @@ uint32_t buzzvstig_key_hash(const void* key) {
 }
 
 int buzzvstig_key_cmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
+   return buzzobj_keycmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
 /****************************************/
-- 
2.43.0


From 892ed57787428b2d153c8c53c1f5c0bef267c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:46 +0000
Subject: [PATCH 49/79] fix: removing an element with two children from a set
 destroyed another element and leaked memory

---
 src/buzz/buzzset.c | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/buzz/buzzset.c b/src/buzz/buzzset.c
index 5126bc2..cdd1cf0 100644
--- a/src/buzz/buzzset.c
+++ b/src/buzz/buzzset.c
@@ -112,33 +112,25 @@ static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
    else {
       /* We found the node to remove */
       *removed = 1;
-      /* Get rid of the data */
-      if(s->dstryf) s->dstryf(n->data, NULL);
-      /* If the node has no children, simply remove it */
-      if(!n->left && !n->right) {
-         free(n);
-         n = NULL;
-      }
-      /* If the element has one child, put the child in place of this
-       * tree, and remove the tree */
-      else if(!n->right) {
-         buzzset_tree_t x = n;
-         n = n->left;
-         free(x);
-      }
-      else if(!n->left) {
+      /* If the node has at most one child, put the child in place of
+       * this tree, and remove the node with its data */
+      if(!n->left || !n->right) {
          buzzset_tree_t x = n;
-         n = n->right;
+         n = n->left ? n->left : n->right;
+         if(s->dstryf) s->dstryf(x->data, NULL);
+         free(x->data);
          free(x);
       }
       /* Both children exist for this node */
       else {
          /* Look for the minimum id on the right of the node to eliminate */
          buzzset_tree_t m = buzzset_tree_find_min(n->right);
-         /* Copy its value over the current root */
+         /* Swap its value with that of the current root */
+         void* x = n->data;
          n->data = m->data;
+         m->data = x;
          /* Delete the minimum node */
-         n->right = buzzset_tree_remove(s, n->right, m->data, removed);
+         n->right = buzzset_tree_remove(s, n->right, x, removed);
       }
    }
    return n;
-- 
2.43.0


From ea06cb69ee998eee5f1ce543368122462b1ccbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 50/79] fix: strings with escape sequences contained characters
 past their closing quote

---
 src/buzz/buzzlex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index f80003f..a14102f 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -144,7 +144,8 @@ static char* buzzlex_newstring(const char* s,
    /* Pointer for current current */
    char* pns = ns;
    /* Go through original string */
-   for(size_t i = 0; i < len; ++i) {
+   const char* end = s + len;
+   while(s < end) {
       /* Escape sequence? */
       if(*s != '\\') {
          /* No, normal character - just copy it */
-- 
2.43.0


From bca38e47878f0c1cedb3f27ea1acb5ec4f1a9b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 51/79] fix: an escaped quote after an escaped backslash ended
 the string

---
 src/buzz/buzzlex.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index a14102f..2d07eff 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -560,14 +560,12 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    else if(buzzlex_isquote(c)) {
       /* String - eat any character until you find the next matching quote */
       size_t start = lexf->cur_c;
-      char last1 = 0, last2 = 0;
+      int escaped = 0;
       while(lexf->cur_c < lexf->buf_size &&    /* Not end of stream */
-            ((lexf->buf[lexf->cur_c] != c) ||  /* Matching quote not found */
-             (lexf->buf[lexf->cur_c] == c &&   /* Matching quote found, but preceded by \ and not \\ */
-              last1 == '\\' && last2 != '\\'))) {
-         /* Remember the last two characters read */
-         last2 = last1;
-         last1 = lexf->buf[lexf->cur_c];
+            (lexf->buf[lexf->cur_c] != c ||    /* Matching quote not found */
+             escaped)) {                       /* Matching quote found, but part of an escape sequence */
+         /* Remember whether the next character is escaped */
+         escaped = !escaped && lexf->buf[lexf->cur_c] == '\\';
          /* Keep parsing the string */
          nextchar();
       }
-- 
2.43.0


From 178feffe99881a902b503f29f35207eab13b1944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 52/79] fix: identifiers starting with 'include' were taken for
 file inclusions

---
 src/buzz/buzzlex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 2d07eff..f5db7b4 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -308,7 +308,8 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
             ++lexf->cur_c;
          }
       }
-      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0) {
+      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0 &&
+              !buzzlex_isid(lexf->buf[lexf->cur_c + 7])) {
          /* Manage file inclusion */
          lexf->cur_c += 7;
          lexf->cur_col += 7;
-- 
2.43.0


From 3a3d87b60f03e1bd61ca4fddbe154d5f303b4c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 53/79] fix: long include paths overflowed a buffer

---
 src/buzz/buzzlex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index f5db7b4..d7eeb29 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -44,11 +44,11 @@ buzzlex_file_t buzzlex_file_new(const char* fname) {
             fpath[PATH_MAX-1] = '\0';
             /* Add / at the end if missing */
             if(fpath[strlen(fpath)-1] != '/') {
-               strncat(fpath, "/", PATH_MAX-1);
+               strncat(fpath, "/", PATH_MAX-1 - strlen(fpath));
                fpath[PATH_MAX-1] = '\0';
             }
             /* fpath += fname */
-            strncat(fpath, fname, PATH_MAX-1);
+            strncat(fpath, fname, PATH_MAX-1 - strlen(fpath));
             fpath[PATH_MAX-1] = '\0';
             /* Try to open the file */
             fd = fopen(fpath, "rb");
-- 
2.43.0


From 0a53c62a28c61e886a426b84661947acd38e099f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 54/79] fix: scripts were silently cut at the first lexical
 error

---
 src/buzz/buzzparser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 0c62721..3473e74 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -432,6 +432,8 @@ int parse_script(buzzparser_t par) {
    chunk_push(0);
    /* Parse the statements */
    if(!parse_statlist(par)) return PARSE_ERROR;
+   /* The lexer returns an end-of-file token upon errors, too */
+   if(!buzzlex_done(par->lex)) return PARSE_ERROR;
    /* Finalize the output */
    chunk_append("\n@__exitpoint");
    chunk_append("\tdone");
-- 
2.43.0


From a4bdcaf9dddd726998789c9040834af193c0307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 55/79] fix: the code of a script without statements had no end

---
 src/buzz/buzzparser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 3473e74..ae3bf17 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -425,13 +425,13 @@ int parse_script(buzzparser_t par) {
       buzzlex_destroytok(&par->tok);
       par->tok = buzzlex_nexttok(par->lex);
    }
-   if(par->tok->type == BUZZTOK_EOF) return PARSE_OK;
    /* Add a symbol table */
    symt_push();
    /* Add the first chunk for the global scope */
    chunk_push(0);
    /* Parse the statements */
-   if(!parse_statlist(par)) return PARSE_ERROR;
+   if(par->tok->type != BUZZTOK_EOF &&
+      !parse_statlist(par)) return PARSE_ERROR;
    /* The lexer returns an end-of-file token upon errors, too */
    if(!buzzlex_done(par->lex)) return PARSE_ERROR;
    /* Finalize the output */
-- 
2.43.0


From cd2b975fed88f3f203fccd39905884481d6b62d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 56/79] fix: a syntax error at the end of a script crashed the
 parser

---
 src/buzz/buzzparser.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index ae3bf17..0703706 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -349,6 +349,11 @@ void chunk_print(uint32_t pos, void* data, void* params) {
       } while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND); \
    }
 
+/* The file of the current token (at the end of the script, the lexer has no file any longer) */
+static const char* tokfile(buzzparser_t par) {
+   return par->tok->fname ? par->tok->fname : par->scriptfn;
+}
+
 int match(buzzparser_t par,
           buzztok_type_e type) {
    if(par->tok->type == BUZZTOK_EOF) {
@@ -361,7 +366,7 @@ int match(buzzparser_t par,
    if(par->tok->type != type) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected %s, found %s\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfile(par),
               par->tok->line,
               par->tok->col,
               buzztok_desc[type],
@@ -572,7 +577,7 @@ int parse_var(buzzparser_t par) {
    if(s && s->global == SCOPE_LOCAL) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Duplicated symbol '%s'\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfile(par),
               par->tok->line,
               par->tok->col,
               par->tok->value);
@@ -624,7 +629,7 @@ int parse_fun(buzzparser_t par) {
    if(buzzdarray_size(par->symstack) > 1) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: the definition of function %s() is nested within another scope. To define local functions, use the lambda syntax %s = function() { ... }.\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfile(par),
               par->tok->line,
               par->tok->col,
               par->tok->value,
@@ -860,7 +865,7 @@ int parse_expression(buzzparser_t par) {
          par->tok->type != BUZZTOK_BLOCKCLOSE) {
          fprintf(stderr,
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected .id = expression or }, found %s\n",
-                 buzzlex_getfile(par->lex)->fname,
+                 tokfile(par),
                  par->tok->line,
                  par->tok->col,
                  buzztok_desc[par->tok->type]);
@@ -887,7 +892,7 @@ int parse_expression(buzzparser_t par) {
          else {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    tokfile(par),
                     par->tok->line,
                     par->tok->col,
                     buzztok_desc[par->tok->type]);
@@ -923,7 +928,7 @@ int parse_expression(buzzparser_t par) {
             else {
                fprintf(stderr,
                        "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                       buzzlex_getfile(par->lex)->fname,
+                       tokfile(par),
                        par->tok->line,
                        par->tok->col,
                        buzztok_desc[par->tok->type]);
@@ -1117,7 +1122,7 @@ int parse_command(buzzparser_t par) {
          if(idrefinfo.info == TYPE_CLOSURE) {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: can't have a function call as lvalue\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    tokfile(par),
                     par->tok->line,
                     par->tok->col);
             return PARSE_ERROR;
@@ -1153,7 +1158,7 @@ int parse_command(buzzparser_t par) {
       }
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected function call or assignment\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfile(par),
               par->tok->line,
               par->tok->col);
       return PARSE_ERROR;
@@ -1211,7 +1216,7 @@ int parse_idreflist(buzzparser_t par) {
    }
    fprintf(stderr,
            "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected , or ), found %s\n",
-           buzzlex_getfile(par->lex)->fname,
+           tokfile(par),
            par->tok->line,
            par->tok->col,
            buzztok_desc[par->tok->type]);
-- 
2.43.0


From 80e1e075a073190db37e67b726f3316a84cf76b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 57/79] fix: scripts were silently cut at the first unmatched
 closing brace

---
 src/buzz/buzzparser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 0703706..417e063 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -437,6 +437,15 @@ int parse_script(buzzparser_t par) {
    /* Parse the statements */
    if(par->tok->type != BUZZTOK_EOF &&
       !parse_statlist(par)) return PARSE_ERROR;
+   if(par->tok->type == BUZZTOK_BLOCKCLOSE) {
+      fprintf(stderr,
+              "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: unexpected %s\n",
+              tokfile(par),
+              par->tok->line,
+              par->tok->col,
+              buzztok_desc[par->tok->type]);
+      return PARSE_ERROR;
+   }
    /* The lexer returns an end-of-file token upon errors, too */
    if(!buzzlex_done(par->lex)) return PARSE_ERROR;
    /* Finalize the output */
-- 
2.43.0


From 8fdc976c7a8997d3ce89557e4d90e90054a87d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 58/79] fix: 'return' without a value returned the value of the
 next statement

---
 src/buzz/buzzparser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 417e063..05a637e 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1111,10 +1111,13 @@ int parse_operand(buzzparser_t par) {
 int parse_command(buzzparser_t par) {
    if(par->tok->type == BUZZTOK_RETURN) {
       /* Return statement */
-      fetchtok();
+      /* Do not skip the end of the statement: what follows it is not the return value */
+      buzzlex_destroytok(&par->tok);
+      par->tok = buzzlex_nexttok(par->lex);
       if(par->tok->type == BUZZTOK_STATEND ||
          par->tok->type == BUZZTOK_BLOCKCLOSE) {
          chunk_append("\tret0");
+         if(par->tok->type == BUZZTOK_STATEND) fetchtok();
       }
       else {
          if(!parse_condition(par)) return PARSE_ERROR;
-- 
2.43.0


From 24830c34f8fcafd345824bd58680fcd0703f70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 59/79] fix: declaring a variable with the name of a function
 made the parser use freed memory

---
 src/buzz/buzzparser.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 05a637e..507613d 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -212,8 +212,10 @@ struct chunk_s {
    uint32_t label;
    /* The code for this chunk */
    char* code;
-   /* not-NULL if a symbol must be registered (function), NULL if not (lambda) */
-   const struct sym_s* sym;
+   /* 1 if a symbol must be registered (function), 0 if not (lambda) */
+   int hassym;
+   /* The symbol to register, if any */
+   struct sym_s sym;
    /* The code size */
    size_t csize;
    /* The buffer capacity */
@@ -227,7 +229,9 @@ chunk_t chunk_new(uint32_t label, const struct sym_s* sym) {
    c->csize = 0;
    c->ccap = 10;
    c->code = (char*)malloc(c->ccap);
-   c->sym = sym;
+   /* Copy the symbol, as the symbol table can change */
+   c->hassym = (sym != NULL);
+   if(sym) c->sym = *sym;
    return c;
 }
 
@@ -282,11 +286,11 @@ void chunk_register(uint32_t pos, void* data, void* params) {
    chunk_t c = *(chunk_t*)data;
    FILE* f = (FILE*)params;
    /* Print registration code */
-   if(c->sym) {
-      if(c->sym->global) fprintf(f, "\tpushs %" PRId64 "\n", c->sym->pos);
+   if(c->hassym) {
+      if(c->sym.global) fprintf(f, "\tpushs %" PRId64 "\n", c->sym.pos);
       fprintf(f, "\tpushcn " LABELREF "%u\n", c->label);
-      if(c->sym->global) fprintf(f, "\tgstore\n");
-      else               fprintf(f, "\tlstore %" PRId64 "\n", c->sym->pos);
+      if(c->sym.global) fprintf(f, "\tgstore\n");
+      else              fprintf(f, "\tlstore %" PRId64 "\n", c->sym.pos);
    }
 }
 
-- 
2.43.0


From b127258a61268170d4faf133007aa2f049a19f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 60/79] fix: instructions at the end of a script referred to a
 file named (null)

---
 src/buzz/buzzparser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 507613d..f74a149 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -245,7 +245,7 @@ void chunk_destroy(uint32_t pos, void* data, void* params) {
 void chunk_addcode(chunk_t c, char* code, buzztok_t tok) {
    /* Append code to debug information */
    char* instr;
-   if(tok) {
+   if(tok && tok->fname) {
       asprintf(&instr, "%s\t|%" PRIu64 ",%" PRIu64 ",%s\n", code, tok->line, tok->col, tok->fname);
    }
    else {
@@ -1385,6 +1385,7 @@ buzzparser_t buzzparser_new(int argc,
    /* Create parser state */
    buzzparser_t par = (buzzparser_t)malloc(sizeof(struct buzzparser_s));
    /* Create lexer */
+   par->tok = NULL;
    par->lex = buzzlex_new(argv[1]);
    if(!par->lex) {
       free(par);
-- 
2.43.0


From 8cc4ba19abbd5147a4cadcdbeb74621b83d02e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 61/79] fix: parameters of a lambda named as a variable of its
 parent had the value of the latter

---
 src/buzz/buzzparser.c | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index f74a149..cca48d2 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -107,6 +107,20 @@ const struct sym_s* sym_lookup(const char* sym,
    return NULL;
 }
 
+/* Keeps the maximum number of local variables implied by the position of a symbol */
+void sym_maxpos(const void* key, void* data, void* params) {
+   uint32_t* num = (uint32_t*)params;
+   if(((struct sym_s*)data)->pos >= *num) *num = ((struct sym_s*)data)->pos + 1;
+}
+
+/* Returns the size of the activation record described by a symbol table.
+ * A parameter can hide a local variable of the parent, which keeps its place. */
+uint32_t sym_numlocals(buzzdict_t syms) {
+   uint32_t num = 0;
+   buzzdict_foreach(syms, sym_maxpos, &num);
+   return num;
+}
+
 void sym_add(buzzparser_t par, const char* sym, int scope) {
    /* Copy string */
    char* key = strdup(sym);
@@ -123,7 +137,7 @@ void sym_add(buzzparser_t par, const char* sym, int scope) {
    /* For a global symbol, the position corresponds to the string id */
    if(global) pos = string_add(par->strings, sym);
    /* For a local symbol, the position is that in the activation record */
-   else       pos = buzzdict_size(par->syms);
+   else       pos = sym_numlocals(par->syms);
    /* Create symbol and save it */
    struct sym_s symdata = {
       .pos  = pos,
@@ -536,7 +550,7 @@ int parse_block(buzzparser_t par, int pushsymt) {
          }
       }
       /* Save the current number of variables */
-      uint32_t numvars = buzzdict_size(par->syms);
+      uint32_t numvars = sym_numlocals(par->syms);
       if(parse_statlist(par)) {
          tokmatch(BUZZTOK_BLOCKCLOSE);
          fetchtok();
@@ -546,8 +560,8 @@ int parse_block(buzzparser_t par, int pushsymt) {
             .maxpos = numvars
          };
          /* Free the stack from the new local variables */
-	 if( buzzdict_size(par->syms) - numvars ) 
-	   chunk_append("\tlremove %" PRId32, buzzdict_size(par->syms) - numvars); 
+	 if( sym_numlocals(par->syms) - numvars ) 
+	   chunk_append("\tlremove %" PRId32, sym_numlocals(par->syms) - numvars); 
 
          buzzdict_foreach(par->syms, buzzparser_symtodel, &symdeldata);
          buzzdarray_foreach(symdeldata.dellist, buzzparser_symdel, par->syms);
@@ -1190,26 +1204,17 @@ int parse_idlist(buzzparser_t par) {
       return PARSE_OK;
    /* Match an id for the first argument */
    tokmatch(BUZZTOK_ID);
-   /* Look for the argument symbol in the context
-    * If a symbol is found and is not global,
-    * do not add a new symbol; otherwise do
-    * This allows lambdas and nested functions to
-    * reuse the parameters and local variables of
-    * the parent
+   /* Add a symbol for the argument
+    * In a lambda, an argument hides the parameter or
+    * local variable of the parent that has the same name
     */
-   const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-   if(!sym || sym->global) {
-      sym_add(par, par->tok->value, SCOPE_LOCAL);
-   }
+   sym_add(par, par->tok->value, SCOPE_LOCAL);
    fetchtok();
    /* Match rest of the argument list */
    while(par->tok->type == BUZZTOK_LISTSEP) {
       fetchtok();
       tokmatch(BUZZTOK_ID);
-      const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-      if(!sym || sym->global) {
-         sym_add(par, par->tok->value, SCOPE_LOCAL);
-      }
+      sym_add(par, par->tok->value, SCOPE_LOCAL);
       fetchtok();
    }
    return PARSE_OK;
-- 
2.43.0


From 7e51d6593816c7b6b40cc51acadc477f8bd13191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:53 +0000
Subject: [PATCH 62/79] fix: variables and lambdas in blocks outside functions
 were compiled as if in a function

---
 src/buzz/buzzparser.c | 21 ++++++++++++---------
 src/buzz/buzzparser.h |  2 ++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index cca48d2..be775f6 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -540,15 +540,16 @@ int parse_block(buzzparser_t par, int pushsymt) {
       return PARSE_OK;
    }
    else {
-      if(pushsymt) {
-         if(buzzdarray_size(par->symstack) == 1) {
-            /* Add new symtable */
-            symt_push();
-         }
-         else {
-            symt_clone();
-         }
+      if(buzzdarray_size(par->symstack) == 1) {
+         /* Outside functions there is no activation record: variables are global */
+         ++par->blocks;
+         if(!parse_statlist(par)) return PARSE_ERROR;
+         --par->blocks;
+         tokmatch(BUZZTOK_BLOCKCLOSE);
+         fetchtok();
+         return PARSE_OK;
       }
+      if(pushsymt) symt_clone();
       /* Save the current number of variables */
       uint32_t numvars = sym_numlocals(par->syms);
       if(parse_statlist(par)) {
@@ -653,7 +654,7 @@ int parse_fun(buzzparser_t par) {
    fetchtok();
    tokmatch(BUZZTOK_ID);
    /* Make sure this function definition is not nested within another function definition */
-   if(buzzdarray_size(par->symstack) > 1) {
+   if(buzzdarray_size(par->symstack) > 1 || par->blocks > 0) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: the definition of function %s() is nested within another scope. To define local functions, use the lambda syntax %s = function() { ... }.\n",
               tokfile(par),
@@ -1408,6 +1409,8 @@ buzzparser_t buzzparser_new(int argc,
       free(par);
       return NULL;
    }
+   /* Initialize block nesting depth */
+   par->blocks = 0;
    /* Initialize label counter */
    par->labels = 0;
    /* Initialize chunk list */
diff --git a/src/buzz/buzzparser.h b/src/buzz/buzzparser.h
index b546293..51a6af3 100644
--- a/src/buzz/buzzparser.h
+++ b/src/buzz/buzzparser.h
@@ -41,6 +41,8 @@ extern "C" {
       buzzdict_t strings;
       /* Label counter */
       uint32_t labels;
+      /* Number of blocks being parsed outside functions */
+      uint32_t blocks;
    };
    typedef struct buzzparser_s* buzzparser_t;
 
-- 
2.43.0


From a8efe069d34376b387a9634c8dff50de3bf511cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 63/79] fix: strings with newlines were split among several
 lines of assembly

---
 src/buzz/buzzasm.c    | 33 ++++++++++++++++++++++++++++++++-
 src/buzz/buzzparser.c | 11 ++++++++++-
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index bcd8c25..42b8b27 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -102,6 +102,36 @@ void strdatadstryf(const void* key, void* data, void* params) {
 /****************************************/
 /****************************************/
 
+/*
+ * Writes a string, escaping newlines and backslashes so that it fits in a line
+ */
+static void buzz_asm_writestring(FILE* fd,
+                                 const char* str) {
+   fprintf(fd, "'");
+   for(; *str != 0; ++str) {
+      if(*str == '\n')      fprintf(fd, "\\n");
+      else if(*str == '\\') fprintf(fd, "\\\\");
+      else                  fprintf(fd, "%c", *str);
+   }
+   fprintf(fd, "\n");
+}
+
+/*
+ * Replaces the escape sequences in a string, in place
+ */
+static void buzz_asm_readstring(char* str) {
+   char* out = str;
+   for(; *str != 0; ++str, ++out) {
+      if(str[0] == '\\' && str[1] == 'n')       { *out = '\n'; ++str; }
+      else if(str[0] == '\\' && str[1] == '\\') { *out = '\\'; ++str; }
+      else                                      { *out = *str; }
+   }
+   *out = 0;
+}
+
+/****************************************/
+/****************************************/
+
 struct buzz_asm_info_s {
    const char* fname;
    uint8_t* buf;
@@ -190,6 +220,7 @@ int buzz_asm(const char* fname,
       if(*trimline == '\'') {
          ++trimline;
          trimline[strlen(trimline)-1] = 0;
+         buzz_asm_readstring(trimline);
          size_t l = strlen(trimline) + 1;
          bcode_resize(l);
          strcpy((char*)(*buf + *size), trimline);
@@ -369,7 +400,7 @@ int buzz_deasm(const uint8_t* buf,
    long int c = 0;
    for(; (c < count) && (i < size); ++c) {
       /* Print string */
-      fprintf(fd, "'%s\n", ((char*)buf + i));
+      buzz_asm_writestring(fd, (const char*)buf + i);
       /* Advance to first character of next string */
       while(*(buf + i) != 0) ++i;
       ++i;
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index be775f6..d5f8734 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -73,7 +73,16 @@ uint32_t string_add(buzzdict_t strings, const char* str) {
 }
 
 void string_print(uint32_t pos, void* data, void* params) {
-   fprintf((FILE*)params, "'%s\n", (*(struct strarray_data_s**)data)->str);
+   FILE* f = (FILE*)params;
+   const char* c;
+   fprintf(f, "'");
+   for(c = (*(struct strarray_data_s**)data)->str; *c != 0; ++c) {
+      /* A string must fit in a line: escape newlines and backslashes */
+      if(*c == '\n')      fprintf(f, "\\n");
+      else if(*c == '\\') fprintf(f, "\\\\");
+      else                fprintf(f, "%c", *c);
+   }
+   fprintf(f, "\n");
 }
 
 /****************************************/
-- 
2.43.0


From 9c8225b9c69305c3a6bd8cc30b2f5677acc93144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 64/79] fix: the disassembler read past the end of truncated
 bytecode

---
 src/buzz/buzzasm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 42b8b27..dc70fdd 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -393,12 +393,19 @@ int buzz_deasm(const uint8_t* buf,
     */
    /* Fetch and print the string count */
    uint16_t count;
+   if(size < sizeof(uint16_t)) {
+      fprintf(stderr, "ERROR: %s: not enough bytes in bytecode for the string count\n", fname);
+      fclose(fd);
+      return 2;
+   }
    memcpy(&count, buf, sizeof(uint16_t));
    fprintf(fd, "!%u\n", count);
    /* Go through the strings and print them */
    uint32_t i = sizeof(uint16_t);
    long int c = 0;
    for(; (c < count) && (i < size); ++c) {
+      /* Make sure the string ends within the bytecode */
+      if(!memchr(buf + i, 0, size - i)) break;
       /* Print string */
       buzz_asm_writestring(fd, (const char*)buf + i);
       /* Advance to first character of next string */
-- 
2.43.0


From 1a47eaa665a2e990538bd0f467ead9ad8ebedda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 65/79] fix: the assembler dropped the last character of a
 string at the end of the file

---
 src/buzz/buzzasm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index dc70fdd..26d8819 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -219,7 +219,8 @@ int buzz_asm(const char* fname,
       /* Is the line a string? */
       if(*trimline == '\'') {
          ++trimline;
-         trimline[strlen(trimline)-1] = 0;
+         size_t sl = strlen(trimline);
+         if(sl > 0 && trimline[sl-1] == '\n') trimline[sl-1] = 0;
          buzz_asm_readstring(trimline);
          size_t l = strlen(trimline) + 1;
          bcode_resize(l);
-- 
2.43.0


From 74f5dafb1a683f8b3975b50cae7aa63ef3fdc5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 66/79] fix: debug information with a long file name overflowed
 a buffer

---
 src/buzz/buzzdebug.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 5332d41..bcfae0e 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -120,7 +120,8 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
    /* Keep reading until you reach the end of the data or an error */
    uint32_t offset;
    uint64_t line, col;
-   uint16_t srcfnlen, srcfnlenmax = 512;
+   uint16_t srcfnlen;
+   uint32_t srcfnlenmax = 512;
    char* srcfname = (char*)malloc(srcfnlenmax);
    /* char fepmark; */
    while(!feof(fd) && !ferror(fd)) {
@@ -130,7 +131,7 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
          fread(&col,      sizeof(col),      1, fd) == 1 &&
          fread(&srcfnlen, sizeof(srcfnlen), 1, fd) == 1) {
          /* Read source file name, resizing buffer if necessary */
-         if(srcfnlen > srcfnlenmax) {
+         if(srcfnlen >= srcfnlenmax) {
             srcfnlenmax = srcfnlen + 1;
             srcfname = realloc(srcfname, srcfnlenmax);
          }
-- 
2.43.0


From 87b3cff635a549766ef838d2e1c046254f1959e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 67/79] fix: buzzdebug_tofile() reported success as an error
 and errors as success

---
 src/buzz/buzzdebug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index bcfae0e..515059d 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -188,8 +188,8 @@ int buzzdebug_tofile(const char* fname,
    };
    buzzdict_foreach(dbg->off2script, buzzdebug_entry_dump, &i);
    /* Close file */
-   fclose(fd);
-   return i.ok ? 0 : 1;
+   if(fclose(fd) != 0) i.ok = 0;
+   return i.ok;
 }
 
 /****************************************/
-- 
2.43.0


From 9067867483ed0d8b5654c9d35f85441a07b8d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 68/79] fix: bzzasm reported success although it could not
 write its output

---
 src/buzz/buzzasm_main.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzasm_main.c b/src/buzz/buzzasm_main.c
index 80332bc..f7e4f75 100644
--- a/src/buzz/buzzasm_main.c
+++ b/src/buzz/buzzasm_main.c
@@ -16,7 +16,10 @@ int main(int argc, char** argv) {
    int of = open(argv[2],
                  O_WRONLY | O_CREAT | O_TRUNC,
                  S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
-   if(of < 0) perror(argv[2]);
+   if(of < 0) {
+      perror(argv[2]);
+      return 1;
+   }
    /* Parse script */
    uint8_t* bcode_buf;
    uint32_t bcode_size;
@@ -29,10 +32,16 @@ int main(int argc, char** argv) {
    size_t tot = 0;
    while(tot < bcode_size) {
       written = write(of, bcode_buf + tot, bcode_size - tot);
-      if(written < 0) perror(argv[2]);
+      if(written < 0) {
+         perror(argv[2]);
+         return 1;
+      }
       tot += written;
    }
-   buzzdebug_tofile(argv[3], dbg);
+   if(!buzzdebug_tofile(argv[3], dbg)) {
+      perror(argv[3]);
+      return 1;
+   }
    /* Cleanup */
    free(bcode_buf);
    buzzdebug_destroy(&dbg);
-- 
2.43.0


From a880d66a273c0b0f33901e16e8d49b4bafcf92bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 69/79] fix: bzzdeasm went on after failing to read its input

---
 src/buzz/buzzdeasm_main.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzdeasm_main.c b/src/buzz/buzzdeasm_main.c
index 10416fc..5369702 100644
--- a/src/buzz/buzzdeasm_main.c
+++ b/src/buzz/buzzdeasm_main.c
@@ -16,7 +16,10 @@ int main(int argc, char** argv) {
    }
    /* Open bytecode file */
    int ifd = open(argv[1], O_RDONLY);
-   if(ifd < 0) perror(argv[1]);
+   if(ifd < 0) {
+      perror(argv[1]);
+      return 1;
+   }
    /* Read data */
    size_t bcode_size = lseek(ifd, 0, SEEK_END);
    lseek(ifd, 0, SEEK_SET);
@@ -25,14 +28,19 @@ int main(int argc, char** argv) {
    size_t tot = 0;
    while(tot < bcode_size) {
       rd = read(ifd, bcode_buf + tot, bcode_size - tot);
-      if(rd < 0) perror(argv[1]);
+      if(rd <= 0) {
+         perror(argv[1]);
+         return 1;
+      }
       tot += rd;
    }
    close(ifd);
    /* Read debug information */
    buzzdebug_t dbg = buzzdebug_new();
-   if(!buzzdebug_fromfile(dbg, argv[2]))
+   if(!buzzdebug_fromfile(dbg, argv[2])) {
       perror(argv[2]);
+      return 1;
+   }
    /* Go through bytecode */
    int rv = buzz_deasm(bcode_buf, bcode_size, dbg, argv[3]);
    /* Cleanup */
-- 
2.43.0


From bfe48618a38aa1b856624b4719f5a39d5b7419be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 70/79] fix: bzzrun went on after failing to read the bytecode

---
 src/buzz/buzzrun.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzrun.c b/src/buzz/buzzrun.c
index 2455043..c531c5a 100644
--- a/src/buzz/buzzrun.c
+++ b/src/buzz/buzzrun.c
@@ -70,13 +70,17 @@ int main(int argc, char** argv) {
    }
    /* Read bytecode and fill in data structure */
    FILE* fd = fopen(bcfname, "rb");
-   if(!fd) perror(bcfname);
+   if(!fd) {
+      perror(bcfname);
+      return 1;
+   }
    fseek(fd, 0, SEEK_END);
    size_t bcode_size = ftell(fd);
    rewind(fd);
    uint8_t* bcode_buf = (uint8_t*)malloc(bcode_size);
    if(fread(bcode_buf, 1, bcode_size, fd) < bcode_size) {
       perror(bcfname);
+      return 1;
    }
    fclose(fd);
    /* Read debug information */
-- 
2.43.0


From 54e2df916ac7eed0739c434552e669cf6d160d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 71/79] fix: bzzparse and bzzdeasm reported success although
 writing their output failed

---
 src/buzz/buzzasm.c    | 8 ++++++--
 src/buzz/buzzparser.c | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 26d8819..f4f9007 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -455,8 +455,12 @@ int buzz_deasm(const uint8_t* buf,
       /* Newline */
       fprintf(fd, "\n");
    }
-   /* Close file */
-   fclose(fd);
+   /* Close file and make sure everything was written */
+   int err = ferror(fd);
+   if(fclose(fd) != 0 || err) {
+      perror(fname);
+      return 1;
+   }
    return 0;
 }
 
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index d5f8734..78fc633 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1503,6 +1503,11 @@ int buzzparser_parse(buzzparser_t par) {
    fprintf(par->asmstream, "\tnop\n");
    /* Write actual chunks */
    buzzdarray_foreach(par->chunks, chunk_print, par->asmstream);
+   /* Make sure everything was written */
+   if(fflush(par->asmstream) != 0 || ferror(par->asmstream)) {
+      perror(par->asmfn);
+      return PARSE_ERROR;
+   }
    return PARSE_OK;
 }
 
-- 
2.43.0


From e4bf0d4a0820b696e59fb7ad409c852e8a3901f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 72/79] fix: the assembler took a read error for the end of the
 file

---
 src/buzz/buzzasm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index f4f9007..cd0f778 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -340,8 +340,14 @@ int buzz_asm(const char* fname,
       fprintf(stderr, "ERROR: %s:%zu unknown instruction \"%s\"\n", fname, lineno, instr);
       return 2;
    }
+   /* Are we done because of an error? */
+   int rderr = ferror(fd);
    /* Close file */
    fclose(fd);
+   if(rderr) {
+      perror(fname);
+      return 1;
+   }
    /*
     * Perform second pass: label substitution
     */
-- 
2.43.0


From 0b0dc7b2d4a1faf5c304ef8ce34befeb2a84c281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 73/79] fix: math.rng.uniform() of integers ignored its bounds
 if the upper one is negative or the range large

---
 src/buzz/buzzmath.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 969772a..24c36cc 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -485,6 +485,15 @@ int buzzmath_rng_setseed(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/* Returns a random integer between a and b, bounds included, in any order */
+static int32_t buzzmath_rng_uniformint(buzzvm_t vm,
+                                       int64_t a,
+                                       int64_t b) {
+   int64_t lo = a < b ? a : b;
+   int64_t hi = a < b ? b : a;
+   return lo + (int64_t)((uint64_t)mt_uniform32(vm) * (uint64_t)(hi - lo) / INT_MAX);
+}
+
 int buzzmath_rng_uniform(buzzvm_t vm) {
    /*
     * - No arguments: return value in [-int_max,int_max]
@@ -512,7 +521,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
       if(max->o.type == BUZZTYPE_INT) {
          /* Integer value */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * max->i.value / INT_MAX);
+                      buzzmath_rng_uniformint(vm, 0, max->i.value));
       }
       else if(max->o.type == BUZZTYPE_FLOAT) {
          /* Float value */
@@ -531,7 +540,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
          max->o.type == BUZZTYPE_INT) {
          /* Both integers */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->i.value - min->i.value) / INT_MAX + min->i.value);
+                      buzzmath_rng_uniformint(vm, min->i.value, max->i.value));
       }
       else if(min->o.type == BUZZTYPE_FLOAT &&
               max->o.type == BUZZTYPE_INT) {
-- 
2.43.0


From 76a81fddf55d3bfec2a7c6c238471351c5040c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:20 +0000
Subject: [PATCH 74/79] fix: io.errno reported errors of earlier operations
 after a success

---
 src/buzz/buzzio.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index d7ddb34..82a8906 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -81,6 +81,7 @@ int buzzio_fopen(buzzvm_t vm) {
    const char* fmode = buzzvm_stack_at(vm, 1)->s.value.str;
    buzzvm_pop(vm);
    /* Try to open the file */
+   errno = 0;
    FILE* f = fopen(fname, fmode);
    /* Register error information */
    buzzio_update_error(vm);
@@ -117,6 +118,7 @@ int buzzio_fclose(buzzvm_t vm) {
    /* Get file handle */
    filehandle_get(f);
    /* Close the file */
+   errno = 0;
    fclose(f);
    /* The handle is not usable anymore */
    buzzvm_lload(vm, 1);
@@ -137,6 +139,7 @@ int buzzio_fsize(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get file handle */
    filehandle_get(f);
+   errno = 0;
    /* Remember the current position */
    long int cur = ftell(f);
    /* Get the file size */
@@ -167,6 +170,7 @@ int buzzio_fforeach(buzzvm_t vm) {
    int vmstate = vm->state;
    size_t cap; /* line buffer capacity */
    char* line = NULL;
+   errno = 0;
    ssize_t len = getline(&line, &cap, f);
    while(len >= 0 &&
          vmstate == BUZZVM_STATE_READY) {
@@ -210,6 +214,7 @@ int buzzio_fwrite(buzzvm_t vm) {
    /* Get file handle */
    filehandle_get(f);
    /* Go through the arguments */
+   errno = 0;
    for(int i = 2; err >= 0 && i <= buzzvm_lnum(vm); ++i) {
       /* Get argument */
       buzzvm_lload(vm, i);
-- 
2.43.0


From a642f94d9dcd226f72041a6bc6fec6bb0454bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:20 +0000
Subject: [PATCH 75/79] fix: closing a file within io.fforeach() made it read
 from a closed file

---
 src/buzz/buzzio.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 82a8906..de9589f 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -184,10 +184,18 @@ int buzzio_fforeach(buzzvm_t vm) {
       vmstate = buzzvm_closure_call(vm, 1);
       /* Don't touch the stack if the closure failed */
       if(vmstate != BUZZVM_STATE_READY) break;
-      /* Next line */
-      len = getline(&line, &cap, f);
       /* Remove the nil (return value) left by closure_call */
       buzzvm_pop(vm);
+      /* Stop if the closure closed the file */
+      buzzvm_lload(vm, 1);
+      buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1));
+      buzzvm_tget(vm);
+      int open = (buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_USERDATA);
+      buzzvm_pop(vm);
+      if(!open) break;
+      /* Next line */
+      errno = 0;
+      len = getline(&line, &cap, f);
    }
    free(line);
    if(vmstate != BUZZVM_STATE_READY) return vmstate;
-- 
2.43.0


From e155226bd1517f5dfc245a4b99ff91848fa4f76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:54 +0000
Subject: [PATCH 76/79] fix: the parser used its current code chunk before
 initializing it

---
 src/buzz/buzzparser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 78fc633..71dce0e 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1422,6 +1422,8 @@ buzzparser_t buzzparser_new(int argc,
    par->blocks = 0;
    /* Initialize label counter */
    par->labels = 0;
+   /* No code chunk yet */
+   par->chunk = NULL;
    /* Initialize chunk list */
    par->chunks = buzzdarray_new(1, sizeof(chunk_t), chunk_destroy);
    /* Initialize symbol table stack */
-- 
2.43.0


From 92abc01335a7e15a6f57d9575f66169ca7e176e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:54 +0000
Subject: [PATCH 77/79] fix: buzzdebug_continue() never got past a breakpoint
 and hid errors next to one

---
 src/buzz/buzzdebug.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 515059d..534a30a 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -284,14 +284,17 @@ buzzvm_state buzzdebug_continue(buzzvm_t vm,
                                 buzzdebug_t dbg) {
    /* Make sure the VM is either ready or stopped */
    if(vm->state != BUZZVM_STATE_READY) {
-      if(vm->state == BUZZVM_STATE_STOPPED)
+      if(vm->state == BUZZVM_STATE_STOPPED) {
          vm->state = BUZZVM_STATE_READY;
+         /* Get past the breakpoint at which the VM was stopped */
+         if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
+      }
       else return vm->state;
    }
    /* Go on until the end, an error, or a breakpoint */
    while(!buzzdebug_breakpoint_exists(dbg, vm->pc) &&
          buzzvm_step(vm) == BUZZVM_STATE_READY);
-   if(buzzdebug_breakpoint_exists(dbg, vm->pc))
+   if(vm->state == BUZZVM_STATE_READY)
       vm->state = BUZZVM_STATE_STOPPED;
    return vm->state;
 }
-- 
2.43.0


From c9ade0fa55271d302b3fd289460ed36211e016d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:14 +0000
Subject: [PATCH 78/79] fix: buzzvm_destroy() leaked the error message of a
 failed machine

---
 src/buzz/buzzvm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index e5be7ca..4b424f3 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -629,6 +629,8 @@ buzzvm_t buzzvm_new(uint16_t robot) {
 void buzzvm_destroy(buzzvm_t* vm) {
    /* Get rid of the rng state */
    free((*vm)->rngstate);
+   /* Get rid of the error message */
+   free((*vm)->errormsg);
    /* Get rid of the stack */
    buzzstrman_destroy(&(*vm)->strings);
    /* Get rid of the global variable table */
-- 
2.43.0


From 934543e89630e6bb77ec46d29d10aecf9c06f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:51 +0000
Subject: [PATCH 79/79] fix: destroying a machine leaked the messages still in
 its input queue

---
 src/buzz/buzzinmsg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 69195fe..a463e35 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -9,6 +9,12 @@
 /****************************************/
 
 void buzzvm_inmsg_queue_destroy_entry(const void* key, void* data, void* param) {
+   /* The queue owns the payloads that were not extracted */
+   buzzdarray_t q = *(buzzdarray_t*)data;
+   for(uint32_t i = 0; i < buzzdarray_size(q); ++i) {
+      buzzmsg_payload_t p = buzzdarray_get(q, i, buzzmsg_payload_t);
+      buzzmsg_payload_destroy(&p);
+   }
    free((void*)key);
    buzzdarray_destroy((buzzdarray_t*)data);
    free(data);
-- 
2.43.0

