From 3c9d6405cd9aa9923b01b6c812dec85865cd11e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:31 +0000
Subject: [PATCH 01/96] fix: constant addition and subtraction apply the usual
 arithmetic conversions

A folded + or - took the left operand's type when both had the same rank, so
1 + 4294967295U was a negative int, and double + float was a float.
---
 src/cc/frontend/fe_misc.c | 35 ++++++-----------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b97f692..a884042 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -925,11 +925,13 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
   assert(ltype != NULL);
   assert(rtype != NULL);
   if (is_number(ltype) && is_number(rtype)) {
+    cast_numbers(&lhs, &rhs, true);
+    type = lhs->type;
     if (is_const(lhs) && is_const(rhs)) {
 #ifndef __NO_FLONUM
-      if (is_flonum(lhs->type) || is_flonum(rhs->type)) {
-        Flonum lval = is_flonum(lhs->type) ? lhs->flonum : lhs->fixnum;
-        Flonum rval = is_flonum(rhs->type) ? rhs->flonum : rhs->fixnum;
+      if (is_flonum(type)) {
+        Flonum lval = lhs->flonum;
+        Flonum rval = rhs->flonum;
         Flonum value;
         switch (kind) {
         case EX_ADD:     value = lval + rval; break;
@@ -939,28 +941,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
           value = -1;  // Dummy
           break;
         }
-        Type *type = lhs->type;
-        if (is_flonum(rhs->type))
-          type = rhs->type;
-        if (is_flonum(type)) {
-          return new_expr_flolit(type, lhs->token, value);
-        } else {
-          Fixnum fixnum = value;
-          return new_expr_fixlit(type, lhs->token, fixnum);
-        }
+        return new_expr_flolit(type, lhs->token, value);
       }
 #endif
-      enum FixnumKind lnt = ltype->fixnum.kind;
-      enum FixnumKind rnt = rtype->fixnum.kind;
-      if (lnt >= FX_ENUM) {
-        ltype = &tyInt;
-        lnt = FX_INT;
-      }
-      if (rnt >= FX_ENUM) {
-        rtype = &tyInt;
-        rnt = FX_INT;
-      }
-
       Fixnum lval = lhs->fixnum;
       Fixnum rval = rhs->fixnum;
       Fixnum value;
@@ -972,15 +955,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
         value = -1;
         break;
       }
-      Type *type = lnt >= rnt ? ltype : rtype;
-      if (type->fixnum.kind < FX_INT)
-        type = &tyInt;
       return new_expr_fixlit(type, lhs->token,
                              wrap_value(value, type_size(type), type->fixnum.is_unsigned));
     }
-
-    cast_numbers(&lhs, &rhs, true);
-    type = lhs->type;
   } else if (ptr_or_array(ltype)) {
     if (is_fixnum(rtype->kind)) {
       type = ltype;
-- 
2.43.0


From 4a61803290d8da8c7f1322eac38051e24a6070a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:31 +0000
Subject: [PATCH 02/96] fix: the conditional operator's type follows the usual
 arithmetic conversions

u32 ? : i32 gave int, u64 ? : i64 gave long, and float ? : double gave float.
---
 src/cc/frontend/fe_misc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index a884042..feeb607 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1549,10 +1549,8 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
     return choose_ternary_result_type(fval, tval);  // Make ttype to pointer, and check again.
   } else if (is_number(ttype) && is_number(ftype)) {
     if (is_flonum(ttype)) {
-      // TODO: Choose lager one.
-      // if (is_flonum(ftype)) {
-      //   return ttype;
-      // }
+      if (is_flonum(ftype) && ftype->flonum.kind > ttype->flonum.kind)
+        return ftype;
       return ttype;
     } else if (is_flonum(ftype)) {
       return ftype;
@@ -1563,7 +1561,9 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
       ttype = &tyInt;
     if (ftype->fixnum.kind >= FX_ENUM)
       ftype = &tyInt;
-    return ttype->fixnum.kind > ftype->fixnum.kind ? ttype : ftype;
+    int t = (type_size(ttype) << 1) | (ttype->fixnum.is_unsigned ? 1 : 0);
+    int f = (type_size(ftype) << 1) | (ftype->fixnum.is_unsigned ? 1 : 0);
+    return t >= f ? ttype : ftype;
   }
   return NULL;
 }
-- 
2.43.0


From 9c398a182cb32cb30a3219611be7883b43baaea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:53 +0000
Subject: [PATCH 03/96] fix: do not fold multiplication by a constant floating
 zero

NaN, infinities and the sign of the other operand make x * 0.0 differ from 0.0.
---
 src/cc/frontend/fe_misc.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index feeb607..9809c5a 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -814,8 +814,7 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum rval = rhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (rval == 0.0)
-              return new_expr_bop(EX_COMMA, rhs->type, tok, lhs, rhs);  // 0.0
+            // `x * 0.0` is not always 0.0: NaN, infinity and the sign of x matter.
             if (rval == -1.0)
               return new_expr_unary(EX_NEG, lhs->type, lhs->token, lhs);  // -lhs
             // Fallthrough.
@@ -860,8 +859,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum lval = lhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (lval == 0.0)
-              return new_expr_bop(EX_COMMA, lhs->type, tok, rhs, lhs);  // 0.0
             if (lval == 1.0)
               return rhs;  // no effect.
             if (lval == -1.0)
-- 
2.43.0


From 2e94520e3d7503ea9a5b499e74fd0b868b576b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 04/96] fix: negating a floating relational expression is
 correct for NaN

!(x < y) was rewritten as x >= y, which is false when an operand is NaN.
---
 src/cc/frontend/fe_misc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 9809c5a..4829a74 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1311,6 +1311,8 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
           p->kind = (EX_EQ + EX_NE) - p->kind;  // EQ <-> NE
         return p;
       case EX_LT: case EX_LE: case EX_GE: case EX_GT:
+        if (k == EX_EQ && is_flonum(p->bop.lhs->type))
+          break;  // Cannot invert: every relation is false for NaN.
         if (k == EX_EQ)
           p->kind = EX_LT + ((p->kind - EX_LT) ^ 2);  // LT <-> GE, LE <-> GT
         return p;
-- 
2.43.0


From 25eb98ac0cb43b10450b94dacddfd755f158d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 05/96] fix: conversions between floating types and unsigned
 integers on x86-64

An explicit cast to unsigned long of a value >= 2^63, a conversion to unsigned
int of a value >= 2^31 and the folded conversions gave 1 << 63; an implicit
conversion of a function's result to unsigned long made the compiler abort;
unsigned long to float/double did not round correctly, and a static
initializer from unsigned long took the value as signed.
---
 src/cc/arch/x64/ir_x64.c      | 37 +++++++++++++++++++++++++++++------
 src/cc/frontend/fe_misc.c     | 27 ++++---------------------
 src/cc/frontend/initializer.c |  5 +----
 3 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index 257d166..c45ebb4 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -689,8 +689,7 @@ static void ei_cast(IR *ir) {
         default: assert(false); break;
         }
       } else {
-        // x64 support signed 64bit-signed-int to double only, so pass half value
-        // (precision is lost anyway).
+        // x64 support signed 64bit-signed-int to double only, so pass half value.
         const Name *neglabel = alloc_label();
         const Name *skiplabel = alloc_label();
         TEST(s, s);
@@ -702,9 +701,13 @@ static void ei_cast(IR *ir) {
         }
         JMP(fmt_name(skiplabel));
         EMIT_LABEL(fmt_name(neglabel));
+        const Name *evenlabel = alloc_label();
         PUSH(RAX);  // Push %rax to avoid Break
         MOV(s, RAX);
         SHR(IM(1), RAX);
+        JAE(fmt_name(evenlabel));  // Carry: keep the lost bit as sticky, to round correctly.
+        OR(IM(1), RAX);
+        EMIT_LABEL(fmt_name(evenlabel));
         switch (ir->dst->vsize) {
         case SZ_FLOAT:   CVTSI2SS(RAX, d); ADDSS(d, d); break;
         case SZ_DOUBLE:  CVTSI2SD(RAX, d); ADDSD(d, d); break;
@@ -716,15 +719,37 @@ static void ei_cast(IR *ir) {
     }
   } else if (ir->opr1->flag & VRF_FLONUM) {
     assert(!(ir->opr1->flag & VRF_CONST));
-    // flonum->fix
-    int powd = ir->dst->vsize;
-    if (powd < 2)
-      powd = 2;
+    // flonum->fix: Always convert in 64bit, because 32bit conversion cannot represent uint32_t.
+    const int powd = 3;
     switch (ir->opr1->vsize) {
     case SZ_FLOAT:   CVTTSS2SI(kFReg64s[ir->opr1->phys], kRegSizeTable[powd][ir->dst->phys]); break;
     case SZ_DOUBLE:  CVTTSD2SI(kFReg64s[ir->opr1->phys], kRegSizeTable[powd][ir->dst->phys]); break;
     default: assert(false); break;
     }
+    if (ir->dst->vsize == VRegSize8 && (ir->flag & IRF_UNSIGNED)) {
+      // The result is the "integer indefinite" (1 << 63) for values in [2^63, 2^64),
+      // so put the bits of the significand under it.
+      const Name *neglabel = alloc_label();
+      const Name *skiplabel = alloc_label();
+      const char *d = kReg64s[ir->dst->phys];
+      const char *tmp = ir->dst->phys != GET_AREG_INDEX() ? RAX : RDX;
+      TEST(d, d);
+      JS(fmt_name(neglabel));
+      JMP(fmt_name(skiplabel));
+      EMIT_LABEL(fmt_name(neglabel));
+      PUSH(tmp);
+      PUSH(tmp);
+      switch (ir->opr1->vsize) {
+      case SZ_FLOAT:   MOVSS(kFReg64s[ir->opr1->phys], INDIRECT(RSP, NULL, 1)); break;
+      case SZ_DOUBLE:  MOVSD(kFReg64s[ir->opr1->phys], INDIRECT(RSP, NULL, 1)); break;
+      default: assert(false); break;
+      }
+      POP(tmp);
+      SHL(IM(ir->opr1->vsize == SZ_FLOAT ? 40 : 11), tmp);
+      OR(tmp, d);
+      POP(tmp);
+      EMIT_LABEL(fmt_name(skiplabel));
+    }
   } else {
     // fix->fix
     assert(ir->dst->vsize != ir->opr1->vsize);
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 4829a74..b2f440a 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -359,12 +359,13 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
         if (is_bool(type))
           fixnum = sub->flonum != 0;
         else
-          fixnum = wrap_value(sub->flonum, type_size(type), type->fixnum.is_unsigned);
+          fixnum = wrap_value(sub->flonum > INT64_MAX ? (Fixnum)(UFixnum)sub->flonum
+                                                      : (Fixnum)sub->flonum,
+                              type_size(type), type->fixnum.is_unsigned);
         return new_expr_fixlit(type, sub->token, fixnum);
       }
       assert(type->kind == TY_FLONUM);
-      sub->type = type;
-      return sub;
+      return new_expr_flolit(type, sub->token, sub->flonum);
     case EX_FIXNUM:
       if (type->kind == TY_FLONUM) {
         Flonum flonum = (sub->type->kind != TY_FIXNUM || sub->type->fixnum.is_unsigned)
@@ -393,26 +394,6 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
   if (is_bool(type))
     return make_cond(sub);
 
-#if XCC_TARGET_ARCH == XCC_ARCH_X64 && !defined(__NO_FLONUM)
-  // On x64, cannot cast from double to uint64_t directly.
-  size_t dst_size = type_size(type);
-  if (is_flonum(sub->type) &&
-      is_fixnum(type->kind) && type->fixnum.is_unsigned && dst_size >= 8) {
-    // Transform from (uint64_t)flonum
-    //   to: (flonum <= INT64_MAX) ? (int64_t)flonum
-    //                             : ((int64_t)(flonum - (INT64_MAX + 1UL)) ^ (1L << 63))
-    Type *i64t = get_fixnum_type_from_size(dst_size);
-    Expr *cond = new_expr_bop(EX_LE, &tyBool, token, sub,
-                              new_expr_flolit(sub->type, sub->token, INT64_MAX));
-    Expr *offsetted = new_expr_addsub(
-        EX_SUB, token, sub,
-        new_expr_flolit(sub->type, sub->token, (uint64_t)INT64_MAX + 1UL));
-    Expr *xorred = new_expr_bop(EX_BITXOR, i64t, token, make_cast(i64t, token, offsetted, false),
-                                new_expr_fixlit(i64t, token, (uint64_t)1 << 63));
-    sub = new_expr_ternary(token, cond, make_cast(i64t, token, sub, false), xorred, i64t);
-  }
-#endif
-
   return new_expr_cast(type, token, sub);
 }
 
diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index c2260f3..60e0019 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -635,10 +635,7 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
     if (init->kind == IK_SINGLE) {
       switch (init->single->kind) {
       case EX_FIXNUM:
-        {
-          Fixnum fixnum = init->single->fixnum;
-          init->single = new_expr_flolit(type, init->single->token, fixnum);
-        }
+        init->single = make_cast(type, init->single->token, init->single, false);
         // Fallthrough
       case EX_FLONUM:
         return init;
-- 
2.43.0


From b805df4663dc5c082b70b1e56ae5d7baae97c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 06/96] fix: folded floating constants are rounded to their
 type

(double)(float)0.1 kept the value 0.1, float constant expressions were
evaluated in long double, and integer to float rounded twice.
---
 src/cc/backend/optimize.c | 6 +++++-
 src/cc/backend/regalloc.c | 2 ++
 src/cc/frontend/ast.c     | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index a6580df..d690549 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -444,7 +444,11 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
       if (ir->dst->flag & VRF_FLONUM) {
         double value;
         if (!(ir->opr1->flag & VRF_FLONUM)) {
-          value = (ir->flag & IRF_UNSIGNED) ? (double)(uint64_t)ir->opr1->fixnum : (double)ir->opr1->fixnum;
+          int64_t fixnum = ir->opr1->fixnum;
+          if (ir->dst->vsize == VRegSize4)  // Round only once.
+            value = (ir->flag & IRF_UNSIGNED) ? (float)(uint64_t)fixnum : (float)fixnum;
+          else
+            value = (ir->flag & IRF_UNSIGNED) ? (double)(uint64_t)fixnum : (double)fixnum;
         } else {
           value = ir->opr1->flonum.value;
         }
diff --git a/src/cc/backend/regalloc.c b/src/cc/backend/regalloc.c
index 488762c..c4b3d8b 100644
--- a/src/cc/backend/regalloc.c
+++ b/src/cc/backend/regalloc.c
@@ -72,6 +72,8 @@ VReg *reg_alloc_spawn_const(RegAlloc *ra, int64_t value, enum VRegSize vsize) {
 #ifndef __NO_FLONUM
 VReg *reg_alloc_spawn_fconst(RegAlloc *ra, double value, enum VRegSize vsize) {
   union { double d; uint64_t q; } u1, u2;
+  if (vsize == VRegSize4)
+    value = (float)value;
   u1.d = value;
   for (int i = 0; i < ra->consts->len; ++i) {
     VReg *v = ra->consts->data[i];
diff --git a/src/cc/frontend/ast.c b/src/cc/frontend/ast.c
index d71075a..1e1b22a 100644
--- a/src/cc/frontend/ast.c
+++ b/src/cc/frontend/ast.c
@@ -100,7 +100,8 @@ Expr *new_expr_fixlit(Type *type, const Token *token, Fixnum fixnum) {
 Expr *new_expr_flolit(Type *type, const Token *token, Flonum flonum) {
   assert(type->kind == TY_FLONUM);
   Expr *expr = new_expr(EX_FLONUM, type, token);
-  expr->flonum = flonum;
+  // Round to the precision of the type (long double is same as double).
+  expr->flonum = type->flonum.kind == FL_FLOAT ? (float)flonum : (double)flonum;
   return expr;
 }
 #endif
-- 
2.43.0


From a2e57790e65ad8ea453142a3484c18a8d6f8f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:45 +0000
Subject: [PATCH 07/96] fix: switch compares with the promoted controlling
 expression and detects duplicates after conversion

---
 src/cc/frontend/parser.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 8430c04..43ac548 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -344,6 +344,8 @@ static Stmt *parse_switch(const Token *tok) {
   Expr *value = parse_expr();
   mark_var_used(value);
   not_void(value->type, value->token);
+  if (is_fixnum(value->type->kind))
+    value = promote_to_int(value);
   consume(TK_RPAR, "`)' expected");
 
   Stmt *stmt = new_stmt_switch(tok, value);
@@ -382,11 +384,9 @@ static Stmt *parse_case(const Token *tok) {
   }
 
   if (value != NULL) {
-    if (find_case(swtch, value->fixnum) >= 0) {
+    value = make_cast(swtch->switch_.value->type, value->token, value, false);
+    if (find_case(swtch, value->fixnum) >= 0)
       parse_error(PE_NOFATAL, tok, "Case value `%" PRId64 "' already defined", value->fixnum);
-    } else {
-      value = make_cast(swtch->switch_.value->type, value->token, value, false);
-    }
   } else {
     if (swtch->switch_.default_ != NULL) {
       parse_error(PE_NOFATAL, tok, "`default' already defined in `switch'");
-- 
2.43.0


From 3a1a3517105b8e26bfe0177e318b5b94c71c511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:45 +0000
Subject: [PATCH 08/96] fix: order and measure switch labels without overflow

---
 src/cc/backend/codegen.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cc/backend/codegen.c b/src/cc/backend/codegen.c
index 5e26fe7..9548dd7 100644
--- a/src/cc/backend/codegen.c
+++ b/src/cc/backend/codegen.c
@@ -391,8 +391,11 @@ static int compare_cases(const void *pa, const void *pb) {
     return 1;
   if (cb->case_.value == NULL)
     return -1;
-  Fixnum d = ca->case_.value->fixnum - cb->case_.value->fixnum;
-  return d > 0 ? 1 : d < 0 ? -1 : 0;
+  Fixnum a = ca->case_.value->fixnum;
+  Fixnum b = cb->case_.value->fixnum;
+  if (is_unsigned(ca->case_.value->type))
+    return (UFixnum)a > (UFixnum)b ? 1 : (UFixnum)a < (UFixnum)b ? -1 : 0;
+  return a > b ? 1 : a < b ? -1 : 0;
 }
 
 static void gen_switch_cond_table_jump(Stmt *swtch, VReg *vreg, Stmt **cases, int len, int cond_flag) {
@@ -435,8 +438,8 @@ static void gen_switch_cond_recur(Stmt *swtch, VReg *vreg, Stmt **cases, int len
   } else {
     Stmt *min = cases[0];
     Stmt *max = cases[len - 1];
-    Fixnum range = max->case_.value->fixnum - min->case_.value->fixnum + 1;
-    if (range >= 4 && len > (range >> 1)) {
+    UFixnum range = (UFixnum)max->case_.value->fixnum - (UFixnum)min->case_.value->fixnum;  // Inclusive.
+    if (range >= 3 && (UFixnum)len > (range >> 1) + (range & 1)) {
       gen_switch_cond_table_jump(swtch, vreg, cases, len, cond_flag);
       return;
     }
-- 
2.43.0


From 37f6248a7600a0e58be2fea2b414ae5f73cb0bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:42 +0000
Subject: [PATCH 09/96] fix: sequentialize phi moves as a parallel copy

---
 src/cc/backend/ssa.c | 145 +++++++++++--------------------------------
 1 file changed, 37 insertions(+), 108 deletions(-)

diff --git a/src/cc/backend/ssa.c b/src/cc/backend/ssa.c
index d95b630..65d1864 100644
--- a/src/cc/backend/ssa.c
+++ b/src/cc/backend/ssa.c
@@ -287,84 +287,8 @@ static int make_from_bb_unconditional(BBContainer *bbcon, int ibb, int ifb) {
   return at;
 }
 
-static Vector *extract_cyclic_dependency(int ifb, Vector *phis) {
-  // Check destination register dependency.
-  int n = phis->len;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    assert(ifb < phi->params->len);
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
-
-    // Move i before j: shift intermediate elements.
-    int d = i - j;
-    memmove(&phis->data[j + 1], &phis->data[j], d * sizeof(*phis->data));
-    phis->data[j] = phi;
-    ++i;
-  }
-
-  // Detect cyclic dependency.
-  Vector *cyclics = NULL;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
-
-    // Destination is dependent on predecessor: Pick up cyclic dependency to `cyclic`.
-    Vector *cyclic = new_vector();
-    for (;;) {
-      Phi *phi2 = phis->data[j];
-      vec_push(cyclic, phi2);
-      phis->data[j] = NULL;
-      if (j >= i)
-        break;
-
-      VReg *src2 = phi2->params->data[ifb];
-      while (++j < i) {
-        Phi *phi3 = phis->data[j];
-        if (phi3->dst == src2)
-          break;
-      }
-    }
-    assert(cyclic->len >= 2);
-
-    if (cyclics == NULL)
-      cyclics = new_vector();
-    vec_push(cyclics, cyclic);
-
-    // Eliminate them from phis.
-    for (int k = 0; k < n; ++k) {
-      if (phis->data[k] == NULL) {
-        phis->data[k] = phis->data[--n];
-        phis->data[n] = NULL;
-      }
-    }
-    for (; n > 0 && phis->data[n - 1] == NULL; --n)
-      ;
-    phis->len = n;  // Truncate (Recovered in later).
-  }
-  return cyclics;
-}
-
+// Put moves for phis, which must behave as if they were executed simultaneously.
 static void replace_phis(RegAlloc *ra, BB *bb, int ifb, Vector *phis) {
-  Vector *cyclics = extract_cyclic_dependency(ifb, phis);
-
   // Detect insertion point.
   BB *from = bb->from_bbs->data[ifb];
   int pos = from->irs->len;
@@ -375,43 +299,48 @@ static void replace_phis(RegAlloc *ra, BB *bb, int ifb, Vector *phis) {
       --pos;
   }
 
-  // Put non-cyclic phis.
-  for (int iphi = 0; iphi < phis->len; ++iphi) {
-    Phi *phi = phis->data[iphi];
-    VReg *src_vreg = phi->params->data[ifb];
-    IR *mov = new_ir_mov(phi->dst, src_vreg, 0);
-    vec_insert(from->irs, pos++, mov);
+  Vector *dsts = new_vector();
+  Vector *srcs = new_vector();
+  for (int i = 0; i < phis->len; ++i) {
+    Phi *phi = phis->data[i];
+    assert(ifb < phi->params->len);
+    vec_push(dsts, phi->dst);
+    vec_push(srcs, phi->params->data[ifb]);
   }
 
-  if (cyclics != NULL) {
-    Vector **vreg_table = ra->vreg_table;
-    for (int i = 0; i < cyclics->len; ++i) {
-      Vector *cyclic = cyclics->data[i];
-      assert(cyclic->len > 0);
-      Phi *first = cyclic->data[0];
-
-      // Allocate temporary vreg.
-      assert(first->dst->original != first->dst);  // phi's destination must not be an original virtual register.
-      VReg *original = first->dst->original;
-      Vector *vt = vreg_table[original->virt];
-      VReg *tmp = reg_alloc_with_original(ra, original);
-      vec_push(vt, tmp);
-
-      for (int j = 0; j < cyclic->len; ++j) {
-        Phi *phi = cyclic->data[j];
-        VReg *src_vreg = phi->params->data[ifb];
-        IR *mov = new_ir_mov(j == 0 ? tmp : phi->dst, src_vreg, 0);
-        vec_insert(from->irs, pos++, mov);
-        vec_push(phis, phi);  // Restore phi.
+  while (dsts->len > 0) {
+    // Find a move whose destination is not read by other pending moves.
+    int i, j;
+    for (i = 0; i < dsts->len; ++i) {
+      for (j = 0; j < srcs->len; ++j) {
+        if (j != i && srcs->data[j] == dsts->data[i])
+          break;
       }
+      if (j >= srcs->len)
+        break;
+    }
 
-      IR *mov = new_ir_mov(first->dst, tmp, 0);
-      vec_insert(from->irs, pos++, mov);
-
-      free_vector(cyclic);
+    if (i < dsts->len) {
+      vec_insert(from->irs, pos++, new_ir_mov(dsts->data[i], srcs->data[i], 0));
+      vec_remove_at(dsts, i);
+      vec_remove_at(srcs, i);
+    } else {
+      // All pending moves are cyclic: Save one of destinations to a temporary vreg.
+      VReg *dst = dsts->data[0];
+      assert(dst->original != dst);  // phi's destination must not be an original virtual register.
+      VReg *original = dst->original;
+      VReg *tmp = reg_alloc_with_original(ra, original);
+      vec_push(ra->vreg_table[original->virt], tmp);
+      vec_insert(from->irs, pos++, new_ir_mov(tmp, dst, 0));
+      for (j = 0; j < srcs->len; ++j) {
+        if (srcs->data[j] == dst)
+          srcs->data[j] = tmp;
+      }
     }
-    free_vector(cyclics);
   }
+
+  free_vector(dsts);
+  free_vector(srcs);
 }
 
 //
-- 
2.43.0


From ea7c5f973c23d6e6065e29611728671e69138f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:42 +0000
Subject: [PATCH 10/96] fix: cast of a value reduced to a constant during code
 generation

---
 src/cc/backend/codegen_expr.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index 3849bcd..32864c4 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -187,10 +187,17 @@ static VReg *gen_cast(Expr *expr) {
   }
 
   size_t dst_size = type_size(dst_type);
-  if (vreg->flag & VRF_CONST) {
-    assert(!(vreg->flag & VRF_FLONUM));  // No const vreg for flonum.
+  if ((vreg->flag & (VRF_CONST | VRF_FLONUM)) == VRF_CONST) {
     Fixnum value = vreg->fixnum;
-    if (dst_size < (1U << vreg->vsize) && dst_size < sizeof(Fixnum)) {
+#ifndef __NO_FLONUM
+    if (is_flonum(dst_type)) {
+      bool u = is_unsigned(src->type);
+      double fvalue = dst_size == sizeof(float) ? (u ? (float)(UFixnum)value : (float)value)
+                                                : (u ? (double)(UFixnum)value : (double)value);
+      return new_const_vfreg(fvalue, to_vsize(dst_type));
+    }
+#endif
+    if (dst_size < sizeof(Fixnum)) {
       // Assume that integer is represented in Two's complement
       size_t bit = dst_size * TARGET_CHAR_BIT;
       UFixnum mask = (-1UL) << bit;
-- 
2.43.0


From cb9d6d048eb9493157fdfd51cea4836e75be2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:56 +0000
Subject: [PATCH 11/96] fix: unsigned int to floating conversion does not rely
 on the upper half of the register

---
 src/cc/arch/x64/ir_x64.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index c45ebb4..102008b 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -683,6 +683,7 @@ static void ei_cast(IR *ir) {
         }
       } else if (pows < 3) {
         const char *s64 = kReg64s[ir->opr1->phys];
+        MOV(s, s);  // Upper half might be undefined (function result, for example).
         switch (ir->dst->vsize) {
         case SZ_FLOAT:   CVTSI2SS(s64, d); break;
         case SZ_DOUBLE:  CVTSI2SD(s64, d); break;
-- 
2.43.0


From 02e7601f6d00cce639ac48ed2c6ef22c43128cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:02 +0000
Subject: [PATCH 12/96] fix: unsigned bit-fields narrower than int are promoted
 to int

---
 src/cc/frontend/fe_misc.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b2f440a..9134823 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -419,9 +419,23 @@ const MemberInfo *search_from_anonymous(const Type *type, const Name *name, cons
   return NULL;
 }
 
+// `unsigned int` bit-field whose values all fit in `int` is promoted to `int`.
+static Expr *promote_bitfield(Expr *expr) {
+#ifndef __NO_BITFIELD
+  if (expr->kind == EX_MEMBER && expr->type->kind == TY_FIXNUM &&
+      expr->type->fixnum.kind == FX_INT && expr->type->fixnum.is_unsigned) {
+    const MemberInfo *minfo = expr->member.info;
+    if (minfo->bitfield.width > 0 &&
+        minfo->bitfield.width < (int)type_size(&tyInt) * TARGET_CHAR_BIT)
+      return make_cast(&tyInt, expr->token, expr, false);
+  }
+#endif
+  return expr;
+}
+
 static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
-  Expr *lhs = *pLhs;
-  Expr *rhs = *pRhs;
+  Expr *lhs = *pLhs = promote_bitfield(*pLhs);
+  Expr *rhs = *pRhs = promote_bitfield(*pRhs);
   Type *ltype = lhs->type;
   Type *rtype = rhs->type;
   assert(ltype != NULL);
@@ -722,7 +736,7 @@ Expr *promote_to_int(Expr *expr) {
   assert(expr->type->kind == TY_FIXNUM);
   enum FixnumKind kind = expr->type->fixnum.kind;
   if (kind >= FX_INT && kind <= FX_LLONG)
-    return expr;
+    return promote_bitfield(expr);
   return make_cast(&tyInt, expr->token, expr, false);
 }
 
-- 
2.43.0


From b2822af030945056b24420683b62e41194137bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:02 +0000
Subject: [PATCH 13/96] fix: bit-fields as wide as 64 bits keep their value

---
 src/cc/frontend/cc_misc.c |  2 +-
 src/cc/frontend/fe_misc.c | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/cc/frontend/cc_misc.c b/src/cc/frontend/cc_misc.c
index f0be4f0..40491af 100644
--- a/src/cc/frontend/cc_misc.c
+++ b/src/cc/frontend/cc_misc.c
@@ -86,7 +86,7 @@ static Fixnum calc_bitfield_initial_value(const StructInfo *sinfo, const Initial
       continue;  // 0
     assert(mem_init->kind == IK_SINGLE && mem_init->single->kind == EX_FIXNUM);
 
-    Fixnum mask = (1LL << member->bitfield.width) - 1;
+    Fixnum mask = ((UFixnum)2 << (member->bitfield.width - 1)) - 1;
     x |= (mem_init->single->fixnum & mask) << member->bitfield.position;
   }
   *pi = i - 1;
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 9134823..5e7355b 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1032,6 +1032,10 @@ void not_bitfield_member(Expr *expr) {
   }
 }
 
+static UFixnum bitfield_mask(const MemberInfo *minfo) {
+  return ((UFixnum)2 << (minfo->bitfield.width - 1)) - 1;
+}
+
 Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
   Expr *tmp = src;
   Type *type = src->type;
@@ -1040,7 +1044,7 @@ Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
     if (minfo->bitfield.position > 0)
       tmp = new_expr_bop(EX_RSHIFT, tmp->type, tmp->token, tmp,
                          new_expr_fixlit(tmp->type, tmp->token, minfo->bitfield.position));
-    UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
+    UFixnum mask = bitfield_mask(minfo);
     tmp = new_expr_bop(EX_BITAND, tmp->type, tmp->token, tmp,
                        new_expr_fixlit(tmp->type, tmp->token, mask));
   } else {
@@ -1060,15 +1064,13 @@ Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
 Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
                              const MemberInfo *minfo) {
   Type *type = dst->type;
-  Type *vtype = val->type;
 
-  UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
-  Expr *val_masked = new_expr_bop(EX_BITAND, vtype, tok, val, new_expr_fixlit(vtype, tok, mask));
-  val_masked = make_cast(type, tok, val_masked, false);
+  UFixnum mask = bitfield_mask(minfo);
+  Expr *val_masked = new_expr_bop(EX_BITAND, type, tok, make_cast(type, tok, val, false),
+                                  new_expr_fixlit(type, tok, mask));
   if (minfo->bitfield.position > 0)
     val_masked = new_expr_bop(EX_LSHIFT, type, tok, val_masked,
-                              new_expr_fixlit(vtype, tok, minfo->bitfield.position));
-  val_masked = make_cast(type, tok, val_masked, false);
+                              new_expr_fixlit(type, tok, minfo->bitfield.position));
   Expr *src_masked = new_expr_bop(EX_BITAND, type, tok, src,
                                   new_expr_fixlit(type, tok, ~(mask << minfo->bitfield.position)));
   return new_expr_bop(EX_ASSIGN, type, tok, dst,
-- 
2.43.0


From 1819085a6bc44f3904a6c20a2e706fc25ed19b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:02 +0000
Subject: [PATCH 14/96] fix: the value of an assignment or increment of a
 bit-field is the value of the field

---
 src/cc/frontend/fe_misc.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 5e7355b..363dad9 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1078,7 +1078,7 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
 }
 
 Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInfo *minfo) {
-  // Transform expression to (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), val)
+  // Transform expression to (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), (*ptr >> bitpos) & mask)
 
   Type *type = get_fixnum_type(minfo->bitfield.base_kind, minfo->type->fixnum.is_unsigned, 0);
 
@@ -1093,9 +1093,10 @@ Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInf
 
   Expr *dst = new_expr_unary(EX_DEREF, type, tok, ptr);
   Expr *assign = assign_bitfield_member(tok, dst, dst, val, minfo);
-  return new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
-                      new_expr_bop(EX_COMMA, vtype, tok, val_assign,
-                                   new_expr_bop(EX_COMMA, vtype, tok, assign, val)));
+  Expr *result = extract_bitfield_value(dst, minfo);
+  return new_expr_bop(EX_COMMA, result->type, tok, ptr_assign,
+                      new_expr_bop(EX_COMMA, result->type, tok, val_assign,
+                                   new_expr_bop(EX_COMMA, result->type, tok, assign, result)));
 }
 
 static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, const Token *tok,
@@ -1127,14 +1128,14 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
   Expr *val_assign, *after;
   if (post) {
     Expr *before = extract_bitfield_value(src, minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, before);
-    after = new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, before, new_expr_fixlit(type, NULL, 1));
+    val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, before);
+    after = new_expr_bop(!dec ? EX_ADD : EX_SUB, vtype, tok, before, new_expr_fixlit(vtype, NULL, 1));
   } else {
     Expr *tmp = extract_bitfield_value(
         new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, src,
-                     new_expr_fixlit(type, NULL, 1 << minfo->bitfield.position)),
+                     new_expr_fixlit(type, NULL, (UFixnum)1 << minfo->bitfield.position)),
         minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, tmp);
+    val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, tmp);
     after = val;
   }
   Expr *store = assign_bitfield_member(tok, dst, src, after, minfo);
@@ -1607,14 +1608,15 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
   Expr *src_assign = new_expr_bop(EX_ASSIGN, type, tok, src, dst);
 
   Expr *tmp = extract_bitfield_value(src, minfo);
-  tmp = calc_assign_with(tok, tmp, rhs);
+  tmp = make_cast(minfo->type, tok, calc_assign_with(tok, tmp, rhs), false);
   Expr *store = assign_bitfield_member(tok, dst, src, tmp, minfo);
 
-  Type *vtype = rhs->type;
+  Expr *result = extract_bitfield_value(dst, minfo);
+  Type *vtype = result->type;
   return new_expr_bop(EX_COMMA, vtype, tok,
                       new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
                                    new_expr_bop(EX_COMMA, vtype, tok, src_assign, store)),
-                      extract_bitfield_value(dst, minfo));
+                      result);
 }
 #endif
 
-- 
2.43.0


From 1dedca6bbc388530578d6c16d821e93f569d791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:23 +0000
Subject: [PATCH 15/96] fix: initializer lists: braced scalars after
 designators, strings exactly filling arrays, union re-designation, compound
 literals with designators

---
 src/cc/frontend/initializer.c | 69 +++++++++++------------------------
 src/cc/frontend/parser_expr.c |  4 +-
 2 files changed, 23 insertions(+), 50 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 60e0019..c376a36 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -153,7 +153,7 @@ static Stmt *init_char_array_by_string(Expr *dst, Initializer *src, const Token
   Expr *var = new_expr_variable(varinfo->ident->ident, strtype, NULL, curscope);
   assert(str->type->kind == TY_ARRAY);
   mark_var_used(var);
-  return build_memcpy(dst, var, len * type_size(str->type->pa.ptrof));
+  return build_memcpy(dst, var, MIN(len, dstlen) * type_size(str->type->pa.ptrof));
 }
 
 typedef struct {
@@ -214,6 +214,16 @@ static Type *get_multi_child_type(Type *type, int index) {
   }
 }
 
+// Whether the value initializes the whole of `type` (array or struct), not its first element.
+static bool is_whole_initializer(Type *type, Expr *value) {
+  // Special handling for string.
+  if (type->kind == TY_ARRAY && value->kind == EX_STR &&
+      is_char_type(type->pa.ptrof, value->str.kind))
+    return true;
+  // In the case that variable or funcall is used as initializer.
+  return is_multi_type(value->type->kind) && same_type_without_qualifier(type, value->type, true);
+}
+
 static Initializer *find_next_indices(InitFlattener *flattener, Initializer *elem_init) {
   Vector *indices = flattener->indices;
   for (;;) {
@@ -278,17 +288,8 @@ static Initializer *find_next_indices(InitFlattener *flattener, Initializer *ele
       if (elem_init != NULL) {
         switch (elem_init->kind) {
         case IK_SINGLE:
-          // Special handling for string.
-          if (type->kind == TY_ARRAY) {
-            if (elem_init->single->kind == EX_STR && is_char_type(type->pa.ptrof, elem_init->single->str.kind)) {
-              return elem_init;
-            }
-          }
-          if (is_multi_type(elem_init->single->type->kind)) {
-            // In the case that variable or funcall is used as initializer.
-            if (same_type_without_qualifier(type, elem_init->single->type, true))
-              return elem_init;
-          }
+          if (is_whole_initializer(type, elem_init->single))
+            return elem_init;
           break;
         case IK_MULTI:
           return flatten_initializer_multi(type, elem_init);
@@ -365,11 +366,9 @@ static Initializer *find_desig_indices(InitFlattener *flattener, Initializer *in
       }
       break;
     case IK_MULTI:
-      if (is_multi_type(type->kind))
-        init = flatten_initializer_multi(type, init);
-      return init;
+      return flatten_initializer(type, init);
     case IK_SINGLE:
-      if (is_multi_type(type->kind) && !is_multi_type(init->single->type->kind)) {
+      if (is_multi_type(type->kind) && !is_whole_initializer(type, init->single)) {
         // To search first element of `type`, dig indices.
         vec_push(indices, INT2VOIDP(-1));
         return find_next_indices(flattener, init);
@@ -390,6 +389,13 @@ static void store_to_current_position(InitFlattener *flattener, Initializer *ini
   for (int d = 0; ; ++d) {
     intptr_t index = VOIDP2INT(indices->data[d]);
     assert(index >= 0);
+    if (type->kind == TY_STRUCT && type->struct_.info->is_union) {
+      // Only the last initialized member of a union is effective.
+      for (int i = 0; i < target->multi->len; ++i) {
+        if (i != index)
+          target->multi->data[i] = NULL;
+      }
+    }
     if (index >= target->multi->len) {
       assert(type->kind == TY_ARRAY &&
              (type->pa.length == LEN_UND || type->pa.length == LEN_FAM));
@@ -462,34 +468,6 @@ static Initializer *flatten_initializer_multi(Type *type, Initializer *init) {
   return flattener.flattened;
 }
 
-static void flatten_initializer_single(Expr *value) {
-  switch (value->kind) {
-  case EX_REF:
-  case EX_DEREF:
-  case EX_CAST:
-    flatten_initializer_single(value->unary.sub);
-    break;
-
-  case EX_COMPLIT:
-    {
-      Initializer *init = flatten_initializer(value->type, value->complit.original_init);
-      value->complit.original_init = init;
-
-      Expr *var = value->complit.var;
-      if (is_global_scope(var->var.scope)) {
-        assert(init->kind == IK_MULTI);
-        VarInfo *varinfo = scope_find(var->var.scope, var->var.name, NULL);
-        assert(varinfo != NULL);
-        varinfo->global.init = init;
-      }
-    }
-    break;
-  default:
-    // TODO: Confirm.
-    break;
-  }
-}
-
 Initializer *flatten_initializer(Type *type, Initializer *init) {
   if (init == NULL)
     return NULL;
@@ -504,8 +482,6 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
         Expr *e = init->single;
         if (!same_type_without_qualifier(type, e->type, true))
           parse_error(PE_NOFATAL, init->token, "Incompatible type");
-        if (e->kind == EX_COMPLIT)
-          flatten_initializer_single(e);
       }
       break;
     case TY_ARRAY:
@@ -545,7 +521,6 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
       assert(init->kind == IK_SINGLE);
       // Fallthrough
     case IK_SINGLE:
-      flatten_initializer_single(init->single);
       break;
     default:
       parse_error(PE_NOFATAL, init->token, "Error initializer");
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 7e23cf1..5637a29 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -127,7 +127,7 @@ Type *parse_var_def(Type **prawType, int *pstorage, Token **pident) {
 
 static Expr *parse_compound_literal(Type *type) {
   Token *token = fetch_token();
-  Initializer *init = parse_initializer();
+  Initializer *init = flatten_initializer(type, parse_initializer());
 
   if (type->kind == TY_ARRAY)
     type = fix_array_size(type, init, token);
@@ -135,14 +135,12 @@ static Expr *parse_compound_literal(Type *type) {
   Expr *var = alloc_tmp_var(curscope, type);
   Vector *inits = NULL;
   if (is_global_scope(curscope)) {
-    // Global variable initializer is flattened in `check_vardecl()`
     const Name *name = var->var.name;
     VarInfo *varinfo = scope_find(curscope, name, NULL);
     assert(varinfo != NULL);
     varinfo->storage |= VS_STATIC;
     varinfo->global.init = init;
   } else {
-    init = flatten_initializer(type, init);
     inits = assign_initial_value(var, init, NULL);
   }
 
-- 
2.43.0


From e8dd0a05dea0700849373846dd1cc2f974e5cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:28 +0000
Subject: [PATCH 16/96] fix: escape sequences in wide strings, long hexadecimal
 escapes, and \?

---
 src/cc/frontend/lexer.c | 103 ++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 57 deletions(-)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index c466523..e801d43 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -173,28 +173,28 @@ static int backslash(int c, bool is_wide, const char **pp) {
   case '1': case '2': case '3': case '4': case '5': case '6': case '7':
     {
       const char *p = *pp + 1;
-      char vv = c - '0';
-      for (int i = 0, n = is_wide ? 11 : 2; i < n; ++i, ++p) {
+      unsigned int vv = c - '0';
+      for (int i = 0; i < 2; ++i, ++p) {
         char c2 = *p;
         if (!isoctal(c2))
           break;
         vv = (vv << 3) | (c2 - '0');
       }
       *pp = p - 1;
-      return vv;
+      return is_wide ? (int)vv : (char)vv;
     }
   case 'x':
     {
       const char *p = *pp + 1;
-      char vv = 0;
-      for (int i = 0, n = is_wide ? 8 : 2; i < n; ++i, ++p) {
+      unsigned int vv = 0;
+      for (;; ++p) {
         int v = xvalue(*p);
         if (v < 0)
           break;  // TODO: Error
         vv = (vv << 4) | v;
       }
       *pp = p - 1;
-      return vv;
+      return is_wide ? (int)vv : (char)vv;
     }
   case 'a':  return '\a';
   case 'b':  return '\b';
@@ -207,7 +207,7 @@ static int backslash(int c, bool is_wide, const char **pp) {
   default:
     lex_error(*pp, "Illegal escape");
     // Fallthrough
-  case '\'': case '"': case '\\':
+  case '\'': case '"': case '?': case '\\':
     return c;
   }
 }
@@ -572,38 +572,11 @@ static Token *read_char(const char **pp) {
   return tok;
 }
 
-#ifndef __NO_WCHAR
-static void *convert_str_to_wstr(const char *src, size_t *plen) {
-  // Count characters.
-  size_t len = 0;  // Include '\0'.
-  for (const char *p = src;; ) {
-    int c;
-    p = read_utf8_char(p, true, &c);
-    ++len;
-    if (c == '\0')
-      break;
-  }
-
-  wchar_t *wstr = malloc_or_die(len * sizeof(*wstr));
-  wchar_t *q = wstr;
-  for (const char *p = src;; ) {
-    int c;
-    p = read_utf8_char(p, true, &c);
-    *q++ = c;
-    if (c == '\0')
-      break;
-  }
-  *plen = len;
-  return wstr;
-}
-#endif
-
 static Token *read_string(const char **pp) {
-  const int ADD = 16;
   const char *p = *pp;
   const char *begin, *end;
-  size_t capa = 16, len = 0;
-  char *str = malloc_or_die(capa * sizeof(*str));
+  size_t capa = 1;  // For '\0'
+  Vector *segments = new_vector();  // [begin, end), ...
   bool is_wide = false;
   for (;;) {
     begin = p++;  // Skip first '"'
@@ -616,25 +589,16 @@ static Token *read_string(const char **pp) {
     ++p;
   }
 #endif
-    for (int c; (c = *(unsigned char*)p++) != '"'; ) {
-      if (c == '\0')
-        lex_error(p - 1, "String not closed");
-      if (len + 1 >= capa) {
-        capa += ADD;
-        str = realloc_or_die(str, capa * sizeof(*str));
-      }
-
-      if (c == '\\') {
-        c = *(unsigned char*)p;
-        if (c == '\0')
-          lex_error(p, "String not closed");
-        c = backslash(c, is_wide, &p);
+    vec_push(segments, (void*)p);
+    for (; *p != '"'; ++p) {
+      if (*p == '\\')
         ++p;
-      }
-      assert(len < capa);
-      str[len++] = c;
+      if (*p == '\0')
+        lex_error(p, "String not closed");
+      ++capa;
     }
-    end = p;
+    vec_push(segments, (void*)p);
+    end = ++p;
     if (for_preprocess)
       break;
 
@@ -647,16 +611,41 @@ static Token *read_string(const char **pp) {
     ))
       break;
   }
-  assert(len < capa);
-  str[len++] = '\0';
 
+  size_t len = 0;
+  char *str;
   enum StrKind kind = STR_CHAR;
 #ifndef __NO_WCHAR
   if (is_wide) {
-    str = convert_str_to_wstr(str, &len);
+    wchar_t *wstr = malloc_or_die(capa * sizeof(*wstr));
+    for (int i = 0; i < segments->len; i += 2) {
+      for (const char *q = segments->data[i], *e = segments->data[i + 1]; q < e; ) {
+        int c;
+        q = read_utf8_char(q, true, &c);
+        wstr[len++] = c;
+      }
+    }
+    wstr[len++] = L'\0';
+    str = (char*)wstr;
     kind = STR_WIDE;
-  }
+  } else
 #endif
+  {
+    str = malloc_or_die(capa * sizeof(*str));
+    for (int i = 0; i < segments->len; i += 2) {
+      for (const char *q = segments->data[i], *e = segments->data[i + 1]; q < e; ++q) {
+        int c = *(unsigned char*)q;
+        if (c == '\\') {
+          ++q;
+          c = backslash(*(unsigned char*)q, false, &q);
+        }
+        str[len++] = c;
+      }
+    }
+    str[len++] = '\0';
+  }
+  assert(len <= capa);
+  free_vector(segments);
   Token *tok = alloc_token(TK_STR, lexer.line, begin, end);
   tok->str.buf = str;
   tok->str.len = len;
-- 
2.43.0


From 36e7330ddbf9a86c940caeca3ef463598524c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:28 +0000
Subject: [PATCH 17/96] fix: sizeof applied to a compound literal

---
 src/cc/frontend/parser_expr.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 5637a29..5bee10a 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -232,17 +232,7 @@ typedef struct {
 
 static const ParseRule *get_rule(enum TokenKind kind);
 
-static Expr *parse_precedence(Precedence precedence) {
-  Token *previous = match(-1);
-  ParsePrefixFn prefixRule = get_rule(previous->kind)->prefix;
-  if (prefixRule == NULL) {
-    parse_error(PE_NOFATAL, previous, "expression expected");
-    unget_token(previous);
-    return NULL;
-  }
-
-  Expr *expr = prefixRule(previous);
-
+static Expr *parse_infix(Expr *expr, Precedence precedence) {
   for (;;) {
     Token *current = fetch_token();
     const ParseRule *rule = get_rule(current->kind);
@@ -256,6 +246,18 @@ static Expr *parse_precedence(Precedence precedence) {
   return expr;
 }
 
+static Expr *parse_precedence(Precedence precedence) {
+  Token *previous = match(-1);
+  ParsePrefixFn prefixRule = get_rule(previous->kind)->prefix;
+  if (prefixRule == NULL) {
+    parse_error(PE_NOFATAL, previous, "expression expected");
+    unget_token(previous);
+    return NULL;
+  }
+
+  return parse_infix(prefixRule(previous), precedence);
+}
+
 static Expr *literal(Token *tok) {
   switch (tok->kind) {
   case TK_INTLIT:
@@ -687,6 +689,12 @@ static Expr *size_align_of(Token *token) {
     type = parse_var_def(NULL, NULL, NULL);
     if (type != NULL) {
       consume(TK_RPAR, "`)' expected");
+      if (fetch_token()->kind == TK_LBRACE) {
+        Expr *expr = parse_infix(parse_compound_literal(type), PREC_POSTFIX);
+        not_bitfield_member(expr);
+        type = expr->type;
+        tok = expr->token;
+      }
 #ifndef __NO_VLA
       Expr *vla_size = calc_vla_size(type);
       if (vla_size != NULL)
-- 
2.43.0


From 593ea2428e5dd481832b3aeed0fb1187872da3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:28 +0000
Subject: [PATCH 18/96] fix: address of a member through a constant address in
 a static initializer

---
 src/cc/frontend/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index c376a36..827a816 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -587,7 +587,7 @@ static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
     break;
   case EX_MEMBER:
     value->member.target = check_global_initializer_fixnum(value->member.target, isconst);
-    if (value->token->kind != TK_DOT) {
+    if (value->token->kind != TK_DOT && !*isconst) {
       parse_error(PE_NOFATAL, value->token, "Allowed global reference only");
       return NULL;
     }
-- 
2.43.0


From 6c971c0df5f9e957e12ef0290f0f33d28ad20ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:30 +0000
Subject: [PATCH 19/96] fix: overriding one character of a string initializer
 discarded the others

---
 src/cc/frontend/initializer.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 827a816..8fd696f 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -3,6 +3,7 @@
 
 #include <assert.h>
 #include <stdbool.h>
+#include <stddef.h>  // wchar_t
 
 #include "fe_misc.h"
 #include "table.h"
@@ -380,6 +381,27 @@ static Initializer *find_desig_indices(InitFlattener *flattener, Initializer *in
   }
 }
 
+// Replace a string for an array with initializers for each element, to override some of them.
+static Initializer *expand_initializer(Type *type, Initializer *init, const Token *token) {
+  Initializer *expanded = reserve_init_for_multi(type, token);
+  if (type->kind == TY_ARRAY && init->kind == IK_SINGLE && init->single->kind == EX_STR) {
+    const Expr *str = init->single;
+    for (ssize_t i = 0, n = MIN((ssize_t)str->str.len, expanded->multi->len); i < n; ++i) {
+      Fixnum c;
+#ifndef __NO_WCHAR
+      if (str->str.kind == STR_WIDE)
+        c = ((const wchar_t*)str->str.buf)[i];
+      else
+#endif
+        c = str->str.buf[i];
+      Initializer *elem = new_initializer(IK_SINGLE, init->token);
+      elem->single = new_expr_fixlit(type->pa.ptrof, init->token, c);
+      expanded->multi->data[i] = elem;
+    }
+  }
+  return expanded;
+}
+
 static void store_to_current_position(InitFlattener *flattener, Initializer *init) {
   Vector *indices = flattener->indices;
   Type *type = flattener->root_type;
@@ -420,7 +442,7 @@ static void store_to_current_position(InitFlattener *flattener, Initializer *ini
     }
     if (elem_init->kind != IK_MULTI) {
       parse_error(PE_WARNING, init->token, "Initializer overlapped");
-      elem_init = reserve_init_for_multi(elem_type, init->token);
+      elem_init = expand_initializer(elem_type, elem_init, init->token);
       target->multi->data[index] = elem_init;
     }
     type = elem_type;
-- 
2.43.0


From 9c849957ab77d8e5a1875de2b0fb2e97bbe4ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:28 +0000
Subject: [PATCH 20/96] fix: macro expansion keeps token boundaries, hide sets,
 placemarkers and arguments apart

Hide sets were added to the tokens of macro bodies themselves, so a later
expansion of the same macro could be suppressed; adjacent tokens were printed
without separation (`-A` with A=-1 became `--1`); `##` with empty arguments,
`F()`, __VA_OPT__ contents, and calls completed by source tokens while an
argument is pre-expanded were wrong; pp-numbers were split.
---
 src/cc/frontend/lexer.c |  10 +-
 src/cpp/macro.c         | 220 +++++++++++++++++++++-------------------
 src/cpp/macro.h         |   8 +-
 src/cpp/pp_parser.c     |  22 ++--
 src/cpp/pp_parser.h     |   2 +-
 src/cpp/preprocessor.c  |  83 +++++++++++----
 6 files changed, 211 insertions(+), 134 deletions(-)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index e801d43..ee82322 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -457,7 +457,7 @@ static Token *read_num(const char **pp) {
   }
   const char *q = p;
   unsigned long long val = strtoull(p, (char**)&p, base);
-  if (p == q)
+  if (p == q && !for_preprocess)
     lex_error(p, "Illegal literal");
 
 #ifndef __NO_FLONUM
@@ -765,6 +765,14 @@ static Token *get_token(void) {
   }
 
   assert(tok != NULL);
+  if (for_preprocess && (tok->kind == TK_INTLIT ||
+                         (tok->kind >= TK_FLOATLIT && tok->kind <= TK_LDOUBLELIT)) &&
+      p[-1] != '\'') {
+    // Preprocessing number: might be longer than the literal.
+    while (isalnum_(*p) || *p == '.')
+      ++p;
+    tok->end = p;
+  }
   lexer.p = p;
   return tok;
 }
diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 793fcc8..7ea947b 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -118,35 +118,33 @@ static void intersection_hideset(HideSet *hs, HideSet *hs2) {
   }
 }
 
-static void glue1(Vector *ls, const Token *tok2) {
-  if (ls->len > 0) {
-    const Token *tok1 = ls->data[ls->len - 1];
-    // TODO: Check whether the concatenated is ident.
-    size_t len1 = tok1->end - tok1->begin;
-    size_t len2 = tok2->end - tok2->begin;
-    char *str = malloc_or_die(len1 + len2 + 1);
-    memcpy(str, tok1->begin, len1);
-    memcpy(str + len1, tok2->begin, len2);
-    str[len1 + len2] = '\0';
-    const Name *name = alloc_name(str, str + (len1 + len2), false);
-    Token *tok = alloc_token(TK_IDENT, NULL, str, str + (len1 + len2));
-    tok->ident = name;
-    ls->data[ls->len - 1] = tok;
-  } else {
-    vec_push(ls, tok2);
-  }
-}
+static const char kEmptyStr[] = "";
+const Token kJoinToken = {.kind = PPTK_SPACE, .begin = kEmptyStr, .end = kEmptyStr};
+
+// Substitution for an empty argument next to `##`.
+static const Token kPlacemarker = {.kind = PPTK_SPACE};
 
-static void glue(Vector *ls, const Vector *rs) {
-  int start = 0;
-  if (ls->len > 0) {
-    assert(rs->len > 0);
-    const Token *tok2 = rs->data[0];
-    glue1(ls, tok2);
-    start = 1;
+static void glue1(Vector *ls, const Token *tok2) {
+  assert(ls->len > 0);
+  const Token *tok1 = ls->data[ls->len - 1];
+  if (tok1 == &kPlacemarker) {
+    ls->data[ls->len - 1] = (void*)tok2;
+    return;
   }
-  for (int i = start; i < rs->len; ++i)
-    vec_push(ls, rs->data[i]);
+  if (tok2 == &kPlacemarker)
+    return;
+
+  // TODO: Check whether the concatenated is ident.
+  size_t len1 = tok1->end - tok1->begin;
+  size_t len2 = tok2->end - tok2->begin;
+  char *str = malloc_or_die(len1 + len2 + 1);
+  memcpy(str, tok1->begin, len1);
+  memcpy(str + len1, tok2->begin, len2);
+  str[len1 + len2] = '\0';
+  const Name *name = alloc_name(str, str + (len1 + len2), false);
+  Token *tok = alloc_token(TK_IDENT, NULL, str, str + (len1 + len2));
+  tok->ident = name;
+  ls->data[ls->len - 1] = tok;
 }
 
 static Token *stringize(const Vector *arg) {
@@ -176,17 +174,22 @@ static void hsadd(HideSet *hs, Vector *ts) {
   for (int i = 0; i < ts->len; ++i) {
     const Token *tok = ts->data[i];
     if (tok->kind == TK_IDENT || tok->kind == TK_RPAR) {
-      HideSet *h = get_hideset(tok);
-      if (h == NULL) {
-        h = clone_hideset(hs);
-        set_token_hideset(tok, h);
-      } else {
-        union_hideset(h, hs);
-      }
+      // The token might be shared with a macro body or other arguments: hide the copied one.
+      Token *copied = alloc_token(tok->kind, tok->line, tok->begin, tok->end);
+      *copied = *tok;
+      HideSet *h = clone_hideset(get_hideset(tok));
+      union_hideset(h, hs);
+      set_token_hideset(copied, h);
+      ts->data[i] = copied;
     }
   }
 }
 
+static bool get_param_index(Table *param_table, const Token *tok, intptr_t *pindex) {
+  return tok->kind == TK_IDENT && param_table != NULL &&
+         table_try_get(param_table, tok->ident, (void**)pindex);
+}
+
 static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs) {
   Vector *os = new_vector();
   Vector *body = macro->body;
@@ -205,117 +208,95 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
   static const Name *va_opt;
   if (va_opt == NULL && macro->vaargs_ident != NULL)
     va_opt = alloc_name("__VA_OPT__", NULL, false);
+  int va_opt_end = -1;
 
+  bool concat = false;
+  Vector single;
+  vec_init(&single);
   for (int i = 0; i < body->len; ++i) {
     const Token *tok = body->data[i];
+    const Token *next = i + 1 < body->len ? body->data[i + 1] : NULL;
+    const Vector *operand = NULL;
 
     switch (tok->kind) {
     case PPTK_STRINGIFY:
-      if (i + 1 < body->len) {
-        const Token *next = body->data[i + 1];
+      {
         intptr_t j;
-        if (next->kind == TK_IDENT &&
-            param_table != NULL && table_try_get(param_table, next->ident, (void**)&j)) {
+        if (next != NULL && get_param_index(param_table, next, &j)) {
           assert(j < args->len);
-          const Vector *arg = args->data[j];
-          const Token *str = stringize(arg);
-          vec_push(os, str);
+          tok = stringize(args->data[j]);
           ++i;
-          continue;
         }
       }
       break;
 
     case PPTK_CONCAT:
-      if (os->len > 0 && i + 1 < body->len) {
-        const Token *next = body->data[i + 1];
-        if (next->kind == TK_IDENT) {
-          intptr_t j;
-          if (param_table != NULL && table_try_get(param_table, next->ident, (void**)&j)) {
-            assert(j < args->len);
-            const Vector *arg = args->data[j];
-            if (arg->len > 0)
-              glue(os, arg);
-            ++i;
-            continue;
-          }
-        }
-        glue1(os, next);
-        ++i;
+      if (os->len > 0 && next != NULL) {
+        concat = true;
         continue;
       }
       break;
 
     case TK_IDENT:
-      if (body->len > i + 1 && ((Token*)body->data[i + 1])->kind == PPTK_CONCAT) {
+      {
         intptr_t j;
-        if (param_table != NULL && table_try_get(param_table, tok->ident, (void**)&j)) {
+        if (get_param_index(param_table, tok, &j)) {
           assert(j < args->len);
-          const Vector *arg = args->data[j];
-          if (arg->len == 0) {  // only if actuals can be empty
-            intptr_t k;
-            if (body->len > i + 2 && ((Token*)body->data[i + 2])->kind == TK_IDENT &&
-                table_try_get(param_table, ((Token*)body->data[i + 2])->ident, (void**)&k)) {
-              assert(k < args->len);
-              const Vector *arg2 = args->data[k];
-              vec_concat(os, arg2);
+          Vector *arg = args->data[j];
+          if (concat || (next != NULL && next->kind == PPTK_CONCAT)) {
+            operand = arg;
+            if (arg->len == 0) {
+              operand = NULL;
+              tok = &kPlacemarker;
             }
-            i += 2;
           } else {
-            vec_concat(os, arg);
-            // Handle `##` at next iteration.
-          }
-          continue;
-        }
-      }
-
-      if (param_table != NULL) {
-        intptr_t j;
-        if (table_try_get(param_table, tok->ident, (void**)&j)) {
-          assert(j < args->len);
-          Vector *expanded = expanded_args[j];
-          if (expanded == NULL) {
-            Vector *arg = args->data[j];
-            expanded = new_vector();
-            vec_concat(expanded, arg);
-            macro_expand(expanded);
-            expanded_args[j] = expanded;
+            Vector *expanded = expanded_args[j];
+            if (expanded == NULL) {
+              expanded = new_vector();
+              vec_concat(expanded, arg);
+              macro_expand(expanded, false);
+              expanded_args[j] = expanded;
+            }
+            operand = expanded;
           }
-          vec_concat(os, expanded);
-          continue;
+          break;
         }
       }
 
       // Handle GNU extension: __VA_OPT__
       if (macro->vaargs_ident != NULL && equal_name(tok->ident, va_opt) &&
-          i + 2 < body->len && ((Token*)body->data[i + 1])->kind == TK_LPAR) {
-        int j;
-        for (j = i + 2; j < body->len; ++j) {
-          if (((Token*)body->data[j])->kind == TK_RPAR)
+          next != NULL && next->kind == TK_LPAR) {
+        int j, paren = 0;
+        for (j = i + 1; j < body->len; ++j) {
+          enum TokenKind kind = ((Token*)body->data[j])->kind;
+          if (kind == TK_LPAR)
+            ++paren;
+          else if (kind == TK_RPAR && --paren == 0)
             break;
         }
         if (j < body->len) {
           Vector *arg = args->data[args->len - 1];
           if (arg->len > 0) {  // vaargs is not empty
-            // TODO: expand?
-            for (int k = i + 2; k < j; ++k) {
-              vec_push(os, body->data[k]);
-            }
+            va_opt_end = j;
+            ++i;
+          } else {
+            i = j;
           }
-          i = j;
           continue;
         }
       }
       break;
 
+    case TK_RPAR:
+      if (i == va_opt_end)
+        continue;
+      break;
+
     case TK_COMMA:
       // Handle GNU extension: , ## __VA_ARGS__
-      if (body->len > i + 2 && ((Token*)body->data[i + 1])->kind == PPTK_CONCAT &&
-          macro->vaargs_ident != NULL &&
-          ((Token*)body->data[i + 2])->kind == TK_IDENT && param_table != NULL) {
-        const Token *next = body->data[i + 2];
+      if (body->len > i + 2 && next->kind == PPTK_CONCAT && macro->vaargs_ident != NULL) {
         intptr_t j;
-        if (table_try_get(param_table, next->ident, (void**)&j) && j == macro->params_len) {
+        if (get_param_index(param_table, body->data[i + 2], &j) && j == macro->params_len) {
           const Vector *arg = args->data[j];
           if (arg->len == 0) {
             i += 2;  // Argument is empty, so omit `,` and `##`.
@@ -329,7 +310,29 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
     default: break;
     }
 
-    vec_push(os, tok);
+    if (operand == NULL) {
+      vec_clear(&single);
+      vec_push(&single, tok);
+      operand = &single;
+    }
+    int start = 0;
+    if (concat) {
+      const Token *first = operand->data[0];
+      glue1(os, first);
+      start = 1;
+      concat = false;
+      if (operand->len > 1 && ((Token*)operand->data[1])->begin == first->end)
+        vec_push(os, &kJoinToken);  // Keep them contiguous, as in the source.
+    }
+    for (int j = start; j < operand->len; ++j)
+      vec_push(os, operand->data[j]);
+  }
+
+  for (int i = 0; i < os->len; ) {
+    if (os->data[i] == &kPlacemarker)
+      vec_remove_at(os, i);
+    else
+      ++i;
   }
   hsadd(hs, os);
   return os;
@@ -356,7 +359,8 @@ void macro_delete(const Name *name) {
   table_delete(&macro_table, name);
 }
 
-void macro_expand(Vector *tokens) {
+// `source`: whether arguments can be continued to the source following the tokens.
+void macro_expand(Vector *tokens, bool source) {
   for (int i = 0; i < tokens->len; ++i) {
     const Token *tok = tokens->data[i];
     if (tok->kind != TK_IDENT)
@@ -376,8 +380,14 @@ void macro_expand(Vector *tokens) {
       replaced = subst(macro, NULL, NULL, hs);
     } else {  // "()'d macro"
       Vector *args = pp_funargs(tokens, &next,
-                                macro->vaargs_ident != NULL ? macro->params_len : INT_MAX);
+                                macro->vaargs_ident != NULL ? macro->params_len : INT_MAX,
+                                source);
       if (args != NULL) {
+        if (args->len == 0 && macro->params_len > 0) {  // `()` is one empty argument.
+          vec_push(args, new_vector());
+          if (macro->vaargs_ident != NULL && macro->params_len == 1)
+            vec_push(args, new_vector());
+        }
         int count = macro->params_len +
                     (macro->vaargs_ident != NULL);  // variadic argument is concatenated.
         if (count != args->len) {
diff --git a/src/cpp/macro.h b/src/cpp/macro.h
index a74a2ba..783b74a 100644
--- a/src/cpp/macro.h
+++ b/src/cpp/macro.h
@@ -1,7 +1,10 @@
 #pragma once
 
+#include <stdbool.h>
+
 typedef struct Name Name;
 typedef struct Table Table;
+typedef struct Token Token;
 typedef struct Vector Vector;
 
 typedef struct Macro {
@@ -15,8 +18,11 @@ Macro *new_macro(Vector *params, const Name *vaargs_ident, Vector *body);
 
 //
 
+// Put between tokens which must be written without a separator.
+extern const Token kJoinToken;
+
 void macro_init(void);
 void macro_add(const Name *name, Macro *macro);
 Macro *macro_get(const Name *name);
 void macro_delete(const Name *name);
-void macro_expand(Vector *tokens);
+void macro_expand(Vector *tokens, bool source);
diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index a5651ee..68d3885 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -166,7 +166,7 @@ static Token *match2(enum TokenKind kind) {
   return pp_match(kind);
 }
 
-static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
+static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex, bool source) {
   int index = *pindex;
   Token *tok;
   if (index < tokens->len) {
@@ -175,6 +175,8 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
       ++index;
     else
       tok = NULL;
+  } else if (!source) {
+    tok = NULL;
   } else {
     tok = match2(kind);
     if (tok != NULL && tok->kind != TK_EOF) {
@@ -186,11 +188,16 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
   return tok;
 }
 
-Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
+static void trim_trailing_space(Vector *arg) {
+  while (arg->len > 0 && ((Token*)arg->data[arg->len - 1])->kind == PPTK_SPACE)
+    vec_pop(arg);
+}
+
+Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool source) {
   Vector *args = NULL;
-  while (match3(PPTK_SPACE, tokens, pindex))
+  while (match3(PPTK_SPACE, tokens, pindex, source))
     ;
-  if (match3(TK_LPAR, tokens, pindex)) {
+  if (match3(TK_LPAR, tokens, pindex, source)) {
     args = new_vector();
     Vector *arg = NULL;
     int paren = 0;
@@ -199,7 +206,7 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
     for (;;) {
       const char *start = get_lex_p();
       bool fetched = *pindex >= tokens->len;
-      Token *tok = match3(-1, tokens, pindex);
+      Token *tok = match3(-1, tokens, pindex, source);
       if (tok == NULL /*|| tok->kind == TK_EOF*/) {
         pp_parse_error(NULL, "`)' expected");
       }
@@ -216,6 +223,7 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
         arg = new_vector();
 
       if (tok->kind == TK_COMMA && paren <= 0 && args->len < vaarg) {
+        trim_trailing_space(arg);
         vec_push(args, arg);
         arg = new_vector();
         continue;
@@ -231,8 +239,10 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
       if (tok->kind != PPTK_SPACE || arg->len > 0)
         vec_push(arg, tok);
     }
-    if (arg != NULL)
+    if (arg != NULL) {
+      trim_trailing_space(arg);
       vec_push(args, arg);
+    }
 
     if (args->len == vaarg)
       vec_push(args, new_vector());
diff --git a/src/cpp/pp_parser.h b/src/cpp/pp_parser.h
index 580020a..8c00d2d 100644
--- a/src/cpp/pp_parser.h
+++ b/src/cpp/pp_parser.h
@@ -18,7 +18,7 @@ typedef struct {
 
 Stream *set_pp_stream(Stream *stream);
 PpResult pp_expr(void);
-Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg);  // <Vector*<Token*>>
+Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool source);  // <Vector*<Token*>>
 
 Token *pp_match(enum TokenKind kind);
 Token *pp_consume(enum TokenKind kind, const char *error);
diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 174ec2e..fb716ee 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -134,10 +134,44 @@ static bool handle_block_comment(const char **pp, Stream *stream) {
   return true;
 }
 
+// Whether two tokens would be read as another token if they are written without a separator.
+static bool need_separator(int prev, int next) {
+  if (isalnum_(prev) || isutf8follow(prev)) {
+    if (isalnum_(next) || isutf8first(next) || next == '"' || next == '\'' || next == '.')
+      return true;
+    int c = tolower(prev);
+    return (c == 'e' || c == 'p') && (next == '+' || next == '-');
+  }
+  switch (prev) {
+  case '.':  return next == '.' || isalnum_(next);
+  case '+': case '&': case '|': case '=': case '<': case '>': case ':': case '#':
+    return next == prev || (next == '=' && prev != ':' && prev != '#') ||
+           (prev == '<' && (next == ':' || next == '%'));
+  case '-':  return next == '-' || next == '=' || next == '>';
+  case '/':  return next == '/' || next == '*' || next == '=';
+  case '%':  return next == '=' || next == ':' || next == '>';
+  case '*': case '^': case '!':  return next == '=';
+  default:  return false;
+  }
+}
+
+static int last_char;  // The last character in the output.
+
+static void output_text(const char *begin, const char *end, bool boundary) {
+  if (begin >= end)
+    return;
+  if (boundary && need_separator(last_char, *(unsigned char*)begin))
+    fputc(' ', pp_ofp);
+  fwrite(begin, end - begin, 1, pp_ofp);
+  last_char = *(unsigned char*)(end - 1);
+}
+
 static void process_line(const char *line, Stream *stream) {
   set_source_string(line, stream->filename, stream->lineno);
 
   const char *begin = get_lex_p();
+  bool expanded = false;  // Is `begin` just after an expanded macro?
+  last_char = '\n';
 
   const Name *defined = alloc_name("defined", NULL, false);
   for (;;) {
@@ -145,8 +179,8 @@ static void process_line(const char *line, Stream *stream) {
     if (p != NULL) {
       p = skip_whitespaces(p);
       if (begin < p) {
-        OUTPUT_PPLINE("%.*s", (int)(p - begin), begin);
-        --curpf->out_lineno;
+        output_text(begin, p, expanded);
+        expanded = false;
         begin = p;
       }
 
@@ -178,19 +212,22 @@ static void process_line(const char *line, Stream *stream) {
 
         Vector *tokens = new_vector();
         vec_push(tokens, ident);
-        macro_expand(tokens);
+        macro_expand(tokens, true);
 
-        if (ident->begin != p)
-          fwrite(p, ident->begin - p, 1, pp_ofp);
+        if (p < ident->begin) {
+          output_text(p, ident->begin, expanded);
+        }
 
         // Everything should have been expanded, so output
         for (int i = 0; i < tokens->len; ++i) {
           const Token *tok = tokens->data[i];
-          fwrite(tok->begin, tok->end - tok->begin, 1, pp_ofp);
+          output_text(tok->begin, tok->end, i == 0 || tokens->data[i - 1] != &kJoinToken);
         }
+        expanded = true;
         if (macro->params_len >= 0) {
           // Put whitespace to avoid unexpected concatenation.
           fputc(' ', pp_ofp);
+          last_char = ' ';
         }
         begin = get_lex_p();
       }
@@ -200,8 +237,10 @@ static void process_line(const char *line, Stream *stream) {
     match(-1);
   }
 
-  if (begin != NULL)
-    OUTPUT_PPLINE("%s\n", begin);
+  if (begin != NULL) {
+    output_text(begin, begin + strlen(begin), expanded);
+    OUTPUT_PPLINE("\n");
+  }
 }
 
 // Preprocess one line and receive result into memory.
@@ -300,7 +339,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
     if (can_expand_ident(ident->ident)) {
       Vector *tokens = new_vector();
       vec_push(tokens, ident);
-      macro_expand(tokens);
+      macro_expand(tokens, true);
       StringBuffer sb;
       sb_init(&sb);
       for (int i = 0; i < tokens->len; ++i) {
@@ -428,6 +467,10 @@ static void handle_line_directive(const char **pp, Stream *stream) {
   *pp = next;
 }
 
+static bool is_concat_or_stringify(const Token *tok) {
+  return tok->kind == PPTK_CONCAT || tok->kind == PPTK_STRINGIFY;
+}
+
 static Vector *parse_macro_body(const char *p, Stream *stream) {
   p = skip_whitespaces(p);
   if (*p == '\0')
@@ -437,11 +480,13 @@ static Vector *parse_macro_body(const char *p, Stream *stream) {
   set_source_string(p, stream == NULL ? "?" : stream->filename,
                     stream == NULL ? 0 : stream->lineno);
   Token *tok_space = NULL;
-  bool need_space = false;
+  bool need_space = false, joined = false;
   for (;;) {
     const char *start = get_lex_p();
     const char *q = block_comment_start(start);
     if (q != NULL) {
+      if (q != start)
+        need_space = true;
       const char *comment_start = q;
       q += 2;
       for (;;) {
@@ -464,28 +509,26 @@ static Vector *parse_macro_body(const char *p, Stream *stream) {
                         stream == NULL ? 0 : stream->lineno);
       // GNUC insert whitespace, but old compilers not and it is used to concatenate identifiers.
       // need_space = true;
+      joined = true;
       continue;
     }
 
     Token *tok = match(-1);
     if (tok->kind == TK_EOF)
       break;
-    if (need_space || tok->begin != start) {
-      if (tok->kind != PPTK_CONCAT) {
+    // Spaces around `##' and after `#' are ignored.
+    if (tokens->len > 0 && tok->kind != PPTK_CONCAT &&
+        !is_concat_or_stringify(tokens->data[tokens->len - 1])) {
+      if (need_space || tok->begin != start) {
         if (tok_space == NULL)
           tok_space = alloc_token(PPTK_SPACE, NULL, " ", NULL);
         vec_push(tokens, tok_space);
+      } else if (joined) {
+        vec_push(tokens, &kJoinToken);
       }
-      need_space = false;
     }
+    need_space = joined = false;
     vec_push(tokens, tok);
-
-    if (tok->kind == PPTK_CONCAT || tok->kind == PPTK_STRINGIFY) {
-      // Ignore after space.
-      const char *s = skip_whitespaces(get_lex_p());
-      set_source_string(s, stream == NULL ? "?" : stream->filename,
-                        stream == NULL ? 0 : stream->lineno);
-    }
   }
   return tokens;
 }
-- 
2.43.0


From 04c547f81d188fa2cde7d41df904a3db34ca10f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:20 +0000
Subject: [PATCH 21/96] fix: #if arithmetic in uintmax_t when an operand is
 unsigned

---
 src/cpp/pp_parser.c    | 97 ++++++++++++++++++++++++++----------------
 src/cpp/pp_parser.h    |  5 ++-
 src/cpp/preprocessor.c |  4 +-
 3 files changed, 67 insertions(+), 39 deletions(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 68d3885..913ad53 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -153,7 +153,7 @@ static PpResult parse_defined(void) {
   if (lpar)
     pp_consume(TK_RPAR, "No close paren");
 
-  return macro_get(alloc_name(start, end, false)) != NULL;
+  return (PpResult){.value = macro_get(alloc_name(start, end, false)) != NULL};
 }
 
 static Token *match2(enum TokenKind kind) {
@@ -304,23 +304,32 @@ static PpResult parse_precedence(Precedence precedence) {
   return expr;
 }
 
+static PpResult pp_signed(int64_t value) {
+  return (PpResult){.value = value, .is_unsigned = false};
+}
+
 static PpResult literal(Token *tok) {
   switch (tok->kind) {
   case TK_INTLIT:
-    return tok->fixnum.value;
+    return (PpResult){
+      .value = tok->fixnum.value,
+      .is_unsigned = (tok->fixnum.flag & TKF_CHAR) == 0 &&
+                     ((tok->fixnum.flag & TKF_UNSIGNED) != 0 || tok->fixnum.value < 0),
+    };
   // case TK_STR:     return string_expr(tok, tok->str.buf, tok->str.len, tok->str.kind);
 #ifndef __NO_FLONUM
   case TK_FLOATLIT: case TK_DOUBLELIT: case TK_LDOUBLELIT:
-    return tok->flonum;
+    return pp_signed(tok->flonum);
 #endif
-  default: assert(false); return 0;  // Unreachable.
+  default:
+    pp_parse_error(tok, "Expect expression.");
   }
 }
 
 static PpResult variable(Token *ident) {
   if (equal_name(ident->ident, alloc_name("defined", NULL, false)))
     return parse_defined();
-  return 0;  // Undefined identifier is 0.
+  return pp_signed(0);  // Undefined identifier is 0.
 }
 
 static PpResult unary(Token *tok) {
@@ -328,12 +337,13 @@ static PpResult unary(Token *tok) {
 
   enum TokenKind kind = tok->kind;
   switch (kind) {
-  case TK_ADD: return expr;
-  case TK_SUB: return -expr;
-  case TK_NOT: return expr ? 0 : 1;
-  case TK_TILDA: return ~expr;
-  default: assert(false); return 0;  // Unreachable.
+  case TK_ADD: break;
+  case TK_SUB: expr.value = -(uint64_t)expr.value; break;
+  case TK_NOT: return pp_signed(expr.value ? 0 : 1);
+  case TK_TILDA: expr.value = ~expr.value; break;
+  default: pp_parse_error(tok, "Expect expression.");
   }
+  return expr;
 }
 
 static PpResult binary(PpResult lhs, Token *tok) {
@@ -341,42 +351,56 @@ static PpResult binary(PpResult lhs, Token *tok) {
   assert(rule != NULL);
   PpResult rhs = parse_precedence(rule->precedence + 1);
 
+  // Arithmetics are done in `intmax_t' or `uintmax_t'.
+  const bool is_unsigned = lhs.is_unsigned || rhs.is_unsigned;
+  const int64_t l = lhs.value, r = rhs.value;
+  const uint64_t ul = l, ur = r;
+  int64_t value;
   enum TokenKind kind = tok->kind;
   switch (kind) {
-  case TK_ADD:  return lhs + rhs;
-  case TK_SUB:  return lhs - rhs;
-  case TK_MUL:  return lhs * rhs;
+  case TK_ADD:  value = ul + ur; break;
+  case TK_SUB:  value = ul - ur; break;
+  case TK_MUL:  value = ul * ur; break;
   case TK_DIV:
-    if (rhs != 0) {
-      return lhs / rhs;
-    } else {
+    if (r == 0) {
       // pp_parse_error(tok, "Division by zero");
-      return lhs;
+      value = l;
+    } else if (is_unsigned) {
+      value = ul / ur;
+    } else {
+      value = r == -1 ? (int64_t)-ul : l / r;
     }
+    break;
   case TK_MOD:
-    if (rhs != 0) {
-      return lhs % rhs;
-    } else {
+    if (r == 0) {
       // pp_parse_error(tok, "Modulo by zero");
-      return lhs;
+      value = l;
+    } else if (is_unsigned) {
+      value = ul % ur;
+    } else {
+      value = r == -1 ? 0 : l % r;
     }
-  case TK_LSHIFT:  return lhs << rhs;
-  case TK_RSHIFT:  return lhs >> rhs;
-  case TK_AND:  return lhs & rhs;
-  case TK_OR:   return lhs | rhs;
-  case TK_HAT:  return lhs ^ rhs;
-  case TK_EQ:  return lhs == rhs;
-  case TK_NE:  return lhs != rhs;
-  case TK_LT:  return lhs < rhs;
-  case TK_LE:  return lhs <= rhs;
-  case TK_GE:  return lhs >= rhs;
-  case TK_GT:  return lhs > rhs;
-  case TK_LOGAND:  return lhs && rhs;
-  case TK_LOGIOR:  return lhs || rhs;
+    break;
+  case TK_LSHIFT:  return (PpResult){.value = ul << r, .is_unsigned = lhs.is_unsigned};
+  case TK_RSHIFT:
+    return (PpResult){.value = lhs.is_unsigned ? (int64_t)(ul >> r) : l >> r,
+                      .is_unsigned = lhs.is_unsigned};
+  case TK_AND:  value = l & r; break;
+  case TK_OR:   value = l | r; break;
+  case TK_HAT:  value = l ^ r; break;
+  case TK_EQ:  return pp_signed(l == r);
+  case TK_NE:  return pp_signed(l != r);
+  case TK_LT:  return pp_signed(is_unsigned ? ul < ur : l < r);
+  case TK_LE:  return pp_signed(is_unsigned ? ul <= ur : l <= r);
+  case TK_GE:  return pp_signed(is_unsigned ? ul >= ur : l >= r);
+  case TK_GT:  return pp_signed(is_unsigned ? ul > ur : l > r);
+  case TK_LOGAND:  return pp_signed(l && r);
+  case TK_LOGIOR:  return pp_signed(l || r);
   case TK_COMMA:  return rhs;
 
-  default: assert(false); return 0;  // Unreachable.
+  default: assert(false); value = 0; break;  // Unreachable.
   }
+  return (PpResult){.value = value, .is_unsigned = is_unsigned};
 }
 
 static PpResult ternary(PpResult expr, Token *tok) {
@@ -387,7 +411,8 @@ static PpResult ternary(PpResult expr, Token *tok) {
   pp_consume(TK_COLON, "`:' expected");
   PpResult fval = parse_precedence(rule->precedence);
 
-  return expr ? tval : fval;
+  return (PpResult){.value = expr.value ? tval.value : fval.value,
+                    .is_unsigned = tval.is_unsigned || fval.is_unsigned};
 }
 
 static PpResult grouping(Token *tok) {
diff --git a/src/cpp/pp_parser.h b/src/cpp/pp_parser.h
index 8c00d2d..ce55ed3 100644
--- a/src/cpp/pp_parser.h
+++ b/src/cpp/pp_parser.h
@@ -8,7 +8,10 @@
 typedef struct Macro Macro;
 typedef struct Vector Vector;
 
-typedef int64_t PpResult;
+typedef struct {
+  int64_t value;
+  bool is_unsigned;
+} PpResult;
 
 typedef struct {
   const char *filename;
diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index fb716ee..77b5a58 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -449,7 +449,7 @@ static void handle_line_directive(const char **pp, Stream *stream) {
     set_pp_stream(bak_stream);
     fclose(memfp);
   }
-  stream->lineno = num;
+  stream->lineno = num.value;
 
   const char *next = get_lex_p();
   if (next != NULL) {
@@ -699,7 +699,7 @@ static bool handle_if(const char **pp, Stream *stream, bool enable) {
     fclose(memfp);
     *pp = get_lex_p();
   }
-  return result != 0;
+  return result.value != 0;
 }
 
 static intptr_t cond_value(bool enable, enum Satisfy satisfy) {
-- 
2.43.0


From 04c94e00ef4cc53f76e5a29b296f39db5e515cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:20 +0000
Subject: [PATCH 22/96] fix: do not evaluate conditions in skipped groups

---
 src/cpp/preprocessor.c | 47 +++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 77b5a58..227146a 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -673,7 +673,7 @@ static bool handle_ifdef(const char **pp) {
   return macro_get(name) != NULL;
 }
 
-static bool handle_if(const char **pp, Stream *stream, bool enable) {
+static bool handle_if(const char **pp, Stream *stream) {
   size_t size;
   char *expanded = preprocess_one_line(*pp, stream, &size);
 
@@ -692,7 +692,7 @@ static bool handle_if(const char **pp, Stream *stream, bool enable) {
     result = pp_expr();
 
     const char *p = get_lex_p();
-    if (p != NULL && enable)
+    if (p != NULL)
       error("illegal expression");
 
     set_pp_stream(bak_stream);
@@ -745,19 +745,31 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
   const char *next;
   if ((next = keyword(directive, "ifdef")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool defined = handle_ifdef(&next);
-    ppf->satisfy = defined ? Satisfied : NotSatisfied;
-    ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
+    if (!ppf->enable) {
+      ppf->satisfy = Satisfied;
+    } else {
+      bool defined = handle_ifdef(&next);
+      ppf->satisfy = defined ? Satisfied : NotSatisfied;
+      ppf->enable = ppf->satisfy == Satisfied;
+    }
   } else if ((next = keyword(directive, "ifndef")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool defined = handle_ifdef(&next);
-    ppf->satisfy = defined ? NotSatisfied : Satisfied;
-    ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
+    if (!ppf->enable) {
+      ppf->satisfy = Satisfied;
+    } else {
+      bool defined = handle_ifdef(&next);
+      ppf->satisfy = defined ? NotSatisfied : Satisfied;
+      ppf->enable = ppf->satisfy == Satisfied;
+    }
   } else if ((next = keyword(directive, "if")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool cond = handle_if(&next, &ppf->stream, ppf->enable);
-    ppf->satisfy = cond ? Satisfied : NotSatisfied;
-    ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
+    if (!ppf->enable) {
+      ppf->satisfy = Satisfied;
+    } else {
+      bool cond = handle_if(&next, &ppf->stream);
+      ppf->satisfy = cond ? Satisfied : NotSatisfied;
+      ppf->enable = ppf->satisfy == Satisfied;
+    }
   } else if ((next = keyword(directive, "else")) != NULL) {
     int last = ppf->condstack->len - 1;
     if (last < 0)
@@ -775,15 +787,12 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
     if (ppf->satisfy == ElseAppeared)
       error("Illegal #elif");
 
-    bool cond = false;
-    bool cond2 = handle_if(&next, &ppf->stream, ppf->enable);
-    if (ppf->satisfy == NotSatisfied) {
-      cond = cond2;
-      if (cond)
-        ppf->satisfy = Satisfied;
+    ppf->enable = false;
+    if (ppf->satisfy == NotSatisfied && (flag & CF_ENABLE) != 0 &&
+        handle_if(&next, &ppf->stream)) {
+      ppf->satisfy = Satisfied;
+      ppf->enable = true;
     }
-
-    ppf->enable = !ppf->enable && cond && ((flag & CF_ENABLE) != 0);
   } else if ((next = keyword(directive, "endif")) != NULL) {
     if (ppf->condstack->len <= 0)
       error("`#endif' used without `#if'");
-- 
2.43.0


From 610111d386b4bef4c0c594ba6ed1d91fbce0fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:20 +0000
Subject: [PATCH 23/96] fix: line numbers after skipped comments and #pragma
 once'd includes

---
 src/cpp/preprocessor.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 227146a..42703c0 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -414,6 +414,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
 
   // Put linemarker to restore line and filename.
   fprintf(pp_ofp, "# %d \"%s\" 2\n", stream->lineno + 1, stream->filename);
+  curpf->out_lineno = stream->lineno;
 }
 
 static void handle_pragma(const char **pp, const char *filename) {
@@ -802,7 +803,6 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
   } else if (ppf->enable) {
     if ((next = keyword(directive, "include")) != NULL) {
       handle_include(next, &ppf->stream, false);
-      ++ppf->out_lineno;
       next = NULL;
     } else if ((next = keyword(directive, "include_next")) != NULL) {
       handle_include(next, &ppf->stream, true);
@@ -838,7 +838,7 @@ static void adjust_output_lineno(PreprocessFile *ppf) {
   int d = ppf->stream.lineno - ppf->out_lineno;
   if (d > 0) {
     if (d >= 5) {
-      fprintf(pp_ofp, "# %d \"%s\"\n", ppf->stream.lineno, ppf->stream.filename);
+      fprintf(pp_ofp, "# %d \"%s\"\n", ppf->stream.lineno + 1, ppf->stream.filename);
     } else {
       for (int i = 0; i < d; ++i)
         fprintf(pp_ofp, "\n");
@@ -847,6 +847,31 @@ static void adjust_output_lineno(PreprocessFile *ppf) {
   }
 }
 
+// Skip block comment over lines at the beginning of the line, because directive might follow.
+static char *skip_leading_comment(PreprocessFile *ppf, char *line) {
+  for (;;) {
+    const char *p = block_comment_start(skip_whitespaces(line));
+    if (p == NULL)
+      return line;
+    const char *q = block_comment_end(p + 2);
+    while (q == NULL) {
+      char *next = NULL;
+      size_t capa = 0;
+      ssize_t len = getline_cont(&next, &capa, ppf->stream.fp, &ppf->stream.lineno);
+      if (len == -1)
+        lex_error(p, "Block comment not closed");
+      line = next;
+      q = block_comment_end(line);
+    }
+    line = (char*)q;
+
+    // Keep the line number of the rest.
+    --ppf->stream.lineno;
+    adjust_output_lineno(ppf);
+    ++ppf->stream.lineno;
+  }
+}
+
 const char *get_processed_next_line(void) {
   PreprocessFile *ppf = curpf;
   for (;;) {
@@ -856,6 +881,9 @@ const char *get_processed_next_line(void) {
     if (len == -1)
       return NULL;
 
+    if (ppf->enable && !preserve_comment)
+      line = skip_leading_comment(ppf, line);
+
     int ln = snprintf(ppf->linenobuf, sizeof(ppf->linenobuf), "%d", ppf->stream.lineno);
     ppf->tok_lineno->end = ppf->tok_lineno->begin + ln;
 
-- 
2.43.0


From c9f646f841b962475a7fc6bc0361d6656791a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:20 +0000
Subject: [PATCH 24/96] fix: a comment separates tokens, also in directives; do
 not split adjacent tokens of a macro

---
 src/cpp/preprocessor.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 42703c0..a973387 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -58,7 +58,14 @@ static const char *keyword(const char *s, const char *word) {
   size_t len = strlen(word);
   if (strncmp(s, word, len) != 0 || isalnum_(s[len]))
     return NULL;
-  return skip_whitespaces(s + len);
+  const char *next = skip_whitespaces(s + len);
+  // Skip comments before an identifier.
+  for (const char *p = next;;) {
+    const char *q = block_comment_start(p);
+    if (q == NULL || (q = block_comment_end(q + 2)) == NULL)
+      return p != next && read_ident(p) != NULL ? p : next;
+    p = skip_whitespaces(q);
+  }
 }
 
 static const char *find_directive(const char *line) {
@@ -186,6 +193,7 @@ static void process_line(const char *line, Stream *stream) {
 
       if (handle_block_comment(&p, stream)) {
         begin = p;
+        expanded = true;  // A comment separates tokens.
         set_source_string(begin, stream->filename, stream->lineno);
         continue;
       }
@@ -221,7 +229,9 @@ static void process_line(const char *line, Stream *stream) {
         // Everything should have been expanded, so output
         for (int i = 0; i < tokens->len; ++i) {
           const Token *tok = tokens->data[i];
-          output_text(tok->begin, tok->end, i == 0 || tokens->data[i - 1] != &kJoinToken);
+          const Token *prev = i > 0 ? tokens->data[i - 1] : NULL;
+          bool joined = prev != NULL && (prev == &kJoinToken || prev->end == tok->begin);
+          output_text(tok->begin, tok->end, !joined);
         }
         expanded = true;
         if (macro->params_len >= 0) {
-- 
2.43.0


From 5ad92d1dbeec49ea63ebdba96b4654c46eae425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:25 +0000
Subject: [PATCH 25/96] fix: decimal floating literals may start with 0

---
 src/cc/frontend/lexer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index ee82322..5356eae 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -451,6 +451,13 @@ static Token *read_num(const char **pp) {
       flag = TKF_KIND_BIN;
       p += 2;
     } else if (isdigit(c)) {
+#ifndef __NO_FLONUM
+      const char *q = p;
+      while (isdigit(*q))
+        ++q;
+      if (*q == '.' || tolower(*q) == 'e')  // Decimal float literal starts with `0'.
+        return read_flonum(pp, 10);
+#endif
       base = 8;
       flag = TKF_KIND_OCT;
     }
-- 
2.43.0


From c32fe3409385efcba0a316dfeb670aa4e17c828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:26 +0000
Subject: [PATCH 26/96] fix: types of character constants and unsigned long
 literals

---
 src/cc/frontend/parser_expr.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 5bee10a..871ac22 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -267,13 +267,7 @@ static Expr *literal(Token *tok) {
       enum FixnumKind fx;
       bool u = flag & TKF_UNSIGNED;
       if (flag & TKF_CHAR) {
-#ifndef __NO_WCHAR
-        static const enum FixnumKind kCharTable[] = { FX_CHAR, FX_INT };
-        assert(long_count < (int)ARRAY_SIZE(kCharTable));
-        fx = kCharTable[long_count];
-#else
-        fx = FX_CHAR;
-#endif
+        fx = FX_INT;  // Type of character constants is `int' (`wchar_t' if wide).
       } else {
         static const enum FixnumKind kFxTable[] = { FX_INT, FX_LONG, FX_LLONG };
         assert(long_count < (int)ARRAY_SIZE(kFxTable));
@@ -284,10 +278,10 @@ static Expr *literal(Token *tok) {
         while (fx < FX_LLONG) {
           Type *type = get_fixnum_type(fx, u, 0);
           int bits = type_size(type) * TARGET_CHAR_BIT - (u ? 0 : 1);
-          if ((value <= (((UFixnum)1U << bits) - 1U)) &&
-              (u || (Fixnum)value >= -((Fixnum)1 << (bits - 1))))
+          UFixnum max = ((UFixnum)2U << (bits - 1)) - 1U;  // Avoid shift by 64.
+          if (value <= max)
             break;
-          if (!u && value <= ((UFixnum)1U << (bits + 1)) - 1U &&
+          if (!u && value <= max * 2U + 1U &&
               (tok->fixnum.flag & TKF_KIND_MASK) != 0) {
             u = true;
             break;
@@ -303,7 +297,7 @@ static Expr *literal(Token *tok) {
         }
       }
       Type *type = get_fixnum_type(fx, u, 0);
-      return new_expr_fixlit(type, tok, tok->fixnum.value);
+      return new_expr_fixlit(type, tok, wrap_value(tok->fixnum.value, type_size(type), u));
     }
 #ifndef __NO_FLONUM
   case TK_FLOATLIT: case TK_DOUBLELIT: case TK_LDOUBLELIT:
-- 
2.43.0


From f660833fa89826991b041d78f75dce81a8680c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:57 +0000
Subject: [PATCH 27/96] fix: x64 assembler encodes memory operands, 8-bit
 neg/not and subq as written

---
 src/as/arch/x64/asm_code.c | 210 +++++++++++++------------------------
 1 file changed, 70 insertions(+), 140 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 33ca14d..741f44e 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -78,8 +78,8 @@ static unsigned char *put_rex2(unsigned char *p, enum RegSize size, int sno, int
 #define MAKE_REX_INDIRECT(size, reg, indirect_reg, opcode, op2, offset) \
   MAKE_REX0(size, reg, indirect_reg, \
             (size) == REG8 ? opcode : (unsigned char)((opcode) + 1)), \
-  (((offset) == 0 && indirect_reg != RBP - RAX) ? op2 : is_im8(offset) ? 0x40 : 0x80) | (indirect_reg & 7) | ((reg & 7) << 3), \
-  indirect_reg == RSP - RAX ? 0x24 : -1
+  (((offset) == 0 && (indirect_reg & 7) != RBP - RAX) ? op2 : is_im8(offset) ? 0x40 : 0x80) | (indirect_reg & 7) | ((reg & 7) << 3), \
+  (indirect_reg & 7) == RSP - RAX ? 0x24 : -1
 
 #define MAKE_OFFSET(offset, no) \
   ((offset) == 0 && no) ? -1 : (offset) & 0xff, \
@@ -97,6 +97,49 @@ static unsigned char *put_rex2(unsigned char *p, enum RegSize size, int sno, int
   size < REG64 ? -1 : ((value) >>  48) & 0xff, \
   size < REG64 ? -1 : ((value) >>  56) & 0xff
 
+// Put displacement of memory operand.
+static unsigned char *put_disp(unsigned char *p, long offset, bool noofs) {
+  if (noofs) {
+    // Nothing.
+  } else if (is_im8(offset)) {
+    *p++ = IM8(offset);
+  } else {
+    PUT_CODE(p, IM32(offset));
+    p += 4;
+  }
+  return p;
+}
+
+// Instruction which takes `offset(base, index, scale)` and a register.
+static unsigned char *assemble_iir(Inst *inst, Code *code, unsigned char opcode) {
+  Expr *offset_expr = inst->opr[0].indirect_with_index.offset;
+  Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
+  if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM) &&
+      (scale_expr == NULL || scale_expr->kind == EX_FIXNUM)) {
+    long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
+    long scale = scale_expr != NULL ? scale_expr->fixnum : 1;
+    int bno = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
+    int ino = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
+    int dno = opr_regno(&inst->opr[1].reg);
+    enum RegSize size = inst->opr[1].reg.size;
+    // %rsp cannot be used as an index.
+    if (is_im32(offset) && 1 <= scale && scale <= 8 && IS_POWER_OF_2(scale) && ino != RSP - RAX) {
+      bool noofs = offset == 0 && (bno & 7) != RBP - RAX;
+      short buf[] = {
+        size == REG16 ? 0x66 : -1,
+        size == REG64 || bno >= 8 || ino >= 8 || dno >= 8
+            ? 0x40 | (size == REG64 ? 8 : 0) | ((bno & 8) >> 3) | ((ino & 8) >> 2) | ((dno & 8) >> 1) : -1,
+        opcode,
+        (noofs ? 0x00 : is_im8(offset) ? 0x40 : 0x80) | ((dno & 7) << 3) | 0x04,
+        (most_significant_bit(scale) << 6) | ((ino & 7) << 3) | (bno & 7),
+      };
+      unsigned char *p = put_code_filtered(code->buf, buf, ARRAY_SIZE(buf));
+      return put_disp(p, offset, noofs);
+    }
+  }
+  return NULL;
+}
+
 static unsigned char *asm_noop(Inst *inst, Code *code) {
   UNUSED(inst);
   unsigned char *p = code->buf;
@@ -160,7 +203,7 @@ static unsigned char *asm_mov_ir(Inst *inst, Code *code) {
       return p;
     }
   } else {
-    if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM) {
+    if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM && inst->opr[1].reg.size == REG64) {
       int pre = !inst->opr[1].reg.x ? 0x48 : 0x4c;
       int d = inst->opr[1].reg.no;
       MAKE_CODE(inst, code, pre, 0x8b, 0x05 | (d << 3), IM32(0));
@@ -203,51 +246,15 @@ static unsigned char *asm_mov_ri(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM) {
-    long offset = inst->opr[0].indirect_with_index.offset->fixnum;
-    assert(is_im32(offset));
-    short offset_bit = offset == 0 ? 0x04 : is_im8(offset) ? 0x44 : 0x84;
-    enum RegSize size = inst->opr[1].reg.size;
-    assert(inst->opr[0].indirect_with_index.base_reg.no != RIP);
-    int bno = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
-    int ino = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
-    int dno = opr_regno(&inst->opr[1].reg);
-    Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
-    char scale_bit = 0;
-    if (scale_expr != NULL) {
-      scale_bit = most_significant_bit(scale_expr->fixnum);
-      assert(IS_POWER_OF_2(scale_expr->fixnum) && scale_bit < 4);
-    }
-    short x = ((bno & 8) >> 3) | ((ino & 8) >> 2) | ((dno & 8) >> 1);
-    short prefix = size == REG16 ? 0x66 : size == REG64 || x != 0 ? 0x48 | x : -1;
-    short buf[] = {
-      prefix,
-      size == REG8 ? 0x8a : 0x8b,
-      ((dno & 7) << 3) | offset_bit,
-      (scale_bit << 6) | ((ino & 7) << 3) | (bno & 7),
-    };
-    unsigned char *p = code->buf;
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-    if (offset != 0) {
-      if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-    }
-    return p;
-  }
-  return NULL;
+  return assemble_iir(inst, code, inst->opr[1].reg.size == REG8 ? 0x8a : 0x8b);
 }
 
 static unsigned char *asm_mov_dr(Inst *inst, Code *code) {
   enum RegSize size = inst->opr[1].reg.size;
   int dno = opr_regno(&inst->opr[1].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
   short buf[] = {
-    prefix,
+    size == REG16 ? 0x66 : -1,
+    size == REG64 || dno >= 8 ? 0x40 | (size == REG64 ? 8 : 0) | ((dno & 8) >> 1) : -1,
     size == REG8 ? 0x8a : 0x8b,
     ((dno & 7) << 3) | 0x04,
     0x25,
@@ -263,9 +270,9 @@ static unsigned char *asm_mov_dr(Inst *inst, Code *code) {
 static unsigned char *asm_mov_rd(Inst *inst, Code *code) {
   enum RegSize size = inst->opr[0].reg.size;
   int sno = opr_regno(&inst->opr[0].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
   short buf[] = {
-    prefix,
+    size == REG16 ? 0x66 : -1,
+    size == REG64 || sno >= 8 ? 0x40 | (size == REG64 ? 8 : 0) | ((sno & 8) >> 1) : -1,
     size == REG8 ? 0x88 : 0x89,
     ((sno & 7) << 3) | 0x04,
     0x25,
@@ -297,6 +304,8 @@ static unsigned char *asm_mov_sr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_movbwlq_imi(Inst *inst, Code *code) {
+  if (inst->opr[1].indirect.offset.expr->kind != EX_FIXNUM || inst->opr[1].indirect.reg.no == RIP)
+    return NULL;
   long offset = inst->opr[1].indirect.offset.expr->fixnum;
   unsigned char sno = 0;
   unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
@@ -723,41 +732,7 @@ static unsigned char *asm_lea_ir(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_lea_iir(Inst *inst, Code *code) {
-  Expr *offset_expr = inst->opr[0].indirect_with_index.offset;
-  Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
-  if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM) &&
-      (scale_expr == NULL || scale_expr->kind == EX_FIXNUM)) {
-    long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
-    long scale = scale_expr != NULL ? scale_expr->fixnum : 1;
-    if (is_im32(offset) && 1 <= scale && scale <= 8 && IS_POWER_OF_2(scale)) {
-      int breg = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
-      int ireg = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
-      int dreg = opr_regno(&inst->opr[1].reg);
-      bool noofs = offset == 0 && breg != RBP - RAX;
-      int pow = most_significant_bit(scale);
-      assert(IS_POWER_OF_2(scale) && pow < 4);
-      short buf[] = {
-        0x48 | ((breg & 8) >> 3) | ((ireg & 8) >> 2) | ((dreg & 8) >> 1),
-        0x8d,
-        (noofs ? 0x00 : is_im8(offset) ? 0x40 : 0x80) | ((dreg & 7) << 3) | 0x04,
-        (breg & 7) | ((ireg & 7) << 3) | (pow << 6),
-        breg == RSP - RAX ? 0x24 : -1,
-      };
-
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (noofs) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else if (is_im32(offset)) {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  }
-  return NULL;
+  return assemble_iir(inst, code, 0x8d);
 }
 
 static unsigned char *asm_add_rr(Inst *inst, Code *code) {
@@ -818,31 +793,11 @@ static unsigned char *asm_add_ir(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_add_iir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM && inst->opr[0].indirect_with_index.offset->fixnum == 0);  // TODO
-  unsigned char scale = 0;
-  if (inst->opr[0].indirect_with_index.scale != NULL) {
-    assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
-    scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
-  }
-
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
-  short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x03,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  return p;
+  return assemble_iir(inst, code, inst->opr[1].reg.size == REG8 ? 0x02 : 0x03);
 }
 
 static unsigned char *asm_addq_imi(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
+  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[1].indirect.reg.no != RIP) {
     long value = inst->opr[0].immediate;
     if (is_im32(value)) {
       long offset = inst->opr[1].indirect.offset.expr->fixnum;
@@ -936,37 +891,17 @@ static unsigned char *asm_sub_ir(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_sub_iir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM && inst->opr[0].indirect_with_index.offset->fixnum == 0);  // TODO
-  unsigned char scale = 0;
-  if (inst->opr[0].indirect_with_index.scale != NULL) {
-    assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
-    scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
-  }
-
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
-  short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x2b,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  return p;
+  return assemble_iir(inst, code, inst->opr[1].reg.size == REG8 ? 0x2a : 0x2b);
 }
 
 static unsigned char *asm_subq_imi(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
+  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[1].indirect.reg.no != RIP) {
     long value = inst->opr[0].immediate;
     if (is_im32(value)) {
       long offset = inst->opr[1].indirect.offset.expr->fixnum;
-      unsigned char sno = 0;
+      unsigned char sno = 5;
       unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x28 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
+      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x00 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
       short buf[] = {
         (unsigned char)0x48 | ((dno & 8) >> 3) | ((sno & 8) >> 1),
         (is_im8(value) ? 0x83 : 0x81),
@@ -1038,14 +973,14 @@ static unsigned char *asm_idiv_r(Inst *inst, Code *code) {
 static unsigned char *asm_neg_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
   p = put_rex1(p, inst->opr[0].reg.size,
-               0xd8, opr_regno(&inst->opr[0].reg), 0xf7);
+               0xd8, opr_regno(&inst->opr[0].reg), inst->opr[0].reg.size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
 static unsigned char *asm_not_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
   p = put_rex1(p, inst->opr[0].reg.size,
-               0xd0, opr_regno(&inst->opr[0].reg), 0xf7);
+               0xd0, opr_regno(&inst->opr[0].reg), inst->opr[0].reg.size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
@@ -1058,7 +993,7 @@ static unsigned char *asm_inc_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_incbwlq_i(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
+  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
     enum RegSize size = inst->op + (REG8 - INCB);
     long offset = inst->opr[0].indirect.offset.expr->fixnum;
     unsigned char *p = code->buf;
@@ -1084,7 +1019,7 @@ static unsigned char *asm_dec_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_decbwlq_i(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
+  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
     enum RegSize size = inst->op + (REG8 - DECB);
     long offset = inst->opr[0].indirect.offset.expr->fixnum;
     unsigned char *p = code->buf;
@@ -1432,23 +1367,17 @@ static unsigned char *asm_jmp_dei(Inst *inst, Code *code) {
   if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM)) {
     long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
     if (is_im32(offset)) {
-      short offset_bit = offset == 0 ? 0x20 : is_im8(offset) ? 0x60 : 0xa0;
       short b = inst->opr[0].indirect.reg.no;
+      bool noofs = offset == 0 && b != RBP - RAX;
+      short offset_bit = noofs ? 0x20 : is_im8(offset) ? 0x60 : 0xa0;
       short buf[] = {
         inst->opr[0].indirect.reg.x ? 0x41 : -1,
         0xff, offset_bit | b,
+        b == RSP - RAX ? 0x24 : -1,
       };
       unsigned char *p = code->buf;
       p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset != 0) {
-        if (is_im8(offset)) {
-          *p++ = IM8(offset);
-        } else {
-          PUT_CODE(p, IM32(offset));
-          p += 4;
-        }
-      }
-      return p;
+      return put_disp(p, offset, noofs);
     }
   }
   return NULL;
@@ -1461,7 +1390,8 @@ static unsigned char *asm_jmp_deii(Inst *inst, Code *code) {
       (scale_expr == NULL || scale_expr->kind == EX_FIXNUM)) {
     long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
     long scale = scale_expr != NULL ? scale_expr->fixnum : 1;
-    if (is_im32(offset) && 1 <= scale && scale <= 8 && IS_POWER_OF_2(scale)) {
+    if (is_im32(offset) && 1 <= scale && scale <= 8 && IS_POWER_OF_2(scale) &&
+        opr_regno(&inst->opr[0].indirect_with_index.index_reg) != RSP - RAX) {
       short b = inst->opr[0].indirect_with_index.base_reg.no;
       short scale_bit = most_significant_bit(scale);
       assert(IS_POWER_OF_2(scale) && scale_bit < 4);
-- 
2.43.0


From 55d9e7576c17891c086c2591165d57712c30c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:57 +0000
Subject: [PATCH 28/96] fix: assembler labels with a statement, undeclared
 globals, cross-section jumps, expression folding

---
 src/as/arch/x64/ir_asm_x64.c | 25 ++++++++++++++++++-------
 src/as/ir_asm.c              |  1 +
 src/as/ir_asm.h              |  1 +
 src/as/parse_asm.c           | 30 ++++++++++++++++++++++--------
 4 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/as/arch/x64/ir_asm_x64.c b/src/as/arch/x64/ir_asm_x64.c
index 1f0a20d..c9a9029 100644
--- a/src/as/arch/x64/ir_asm_x64.c
+++ b/src/as/arch/x64/ir_asm_x64.c
@@ -136,10 +136,17 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
             if (inst->opr[0].indirect.reg.no == RIP) {
               Value value = calc_expr(label_table, inst->opr[0].indirect.offset.expr);
               if (value.label != NULL) {
+#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
                 LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
+                const bool resolve = label_info == NULL;
+                const int kind = UNRES_X64_GOT_LOAD;
+#else
+                const bool resolve = true;
+                const int kind = UNRES_EXTERN_PC32;
+#endif
+                if (resolve) {
                   UnresolvedInfo *info = malloc_or_die(sizeof(*info));
-                  info->kind = UNRES_X64_GOT_LOAD;
+                  info->kind = kind;
                   info->label = value.label;
                   info->src_section = section;
                   info->offset = address + 3 - start_address;
@@ -181,7 +188,7 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
               Value value = calc_expr(label_table, inst->opr[0].direct.expr);
               if (value.label != NULL) {
                 LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
+                if (label_info == NULL || !(label_info->flag & LF_DEFINED) || label_info->section != section) {
                   // Make unresolved label jmp to long.
                   size_upgraded |= make_jmp_long(ir);
 
@@ -189,7 +196,7 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
                   info->kind = UNRES_EXTERN;
                   info->label = value.label;
                   info->src_section = section;
-                  info->offset = address + 1 - start_address;
+                  info->offset = address + (inst->op == JMP_D ? 1 : 2) - start_address;
                   info->add = value.offset - 4;
                   vec_push(unresolved, info);
                   break;
@@ -243,14 +250,18 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
       case IR_EXPR_QUAD:
         {
           Value value = calc_expr(label_table, ir->expr.expr);
-          assert(value.label != NULL);
+          ir->expr.addend = value.offset;
+          ir->expr.constant = value.label == NULL;
+          if (ir->expr.constant)
+            break;
+          if (ir->kind != IR_EXPR_QUAD)
+            error("Address of `%.*s' doesn't fit", NAMES(value.label));
           UnresolvedInfo *info = malloc_or_die(sizeof(*info));
           info->kind = UNRES_ABS64;  // TODO:
           info->label = value.label;
           info->src_section = section;
           info->offset = address - start_address;
           info->add = value.offset;
-          ir->expr.addend = value.offset;
           vec_push(unresolved, info);
         }
         break;
@@ -304,7 +315,7 @@ void emit_irs(Vector *sections) {
 #if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
           int64_t value = ir->expr.addend;
 #else
-          int64_t value = 0;
+          int64_t value = ir->expr.constant ? ir->expr.addend : 0;
 #endif
           int size = 1 << (ir->kind - IR_EXPR_BYTE);
           sec_add_data(section, &value, size);  // TODO: Target endian
diff --git a/src/as/ir_asm.c b/src/as/ir_asm.c
index 6c6ce2a..8a13780 100644
--- a/src/as/ir_asm.c
+++ b/src/as/ir_asm.c
@@ -51,5 +51,6 @@ IR *new_ir_expr(enum IrKind kind, const Expr *expr) {
   ir->kind = kind;
   ir->expr.expr = expr;
   ir->expr.addend = 0;
+  ir->expr.constant = false;
   return ir;
 }
diff --git a/src/as/ir_asm.h b/src/as/ir_asm.h
index 365e401..3c536a1 100644
--- a/src/as/ir_asm.h
+++ b/src/as/ir_asm.h
@@ -74,6 +74,7 @@ typedef struct {
     struct {
       const Expr *expr;
       int64_t addend;  // Calculated in `resolve_relative_address`
+      bool constant;  // No relocation needed (likewise)
     } expr;
     size_t bss;
     size_t zero;
diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 3f9d160..2aa3c1a 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -509,7 +509,12 @@ static Expr *parse_mul(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_MUL:  lhs->fixnum *= rhs->fixnum; break;
-      case TK_DIV:  lhs->fixnum += rhs->fixnum; break;
+      case TK_DIV:
+        if (rhs->fixnum == 0)
+          parse_error(info, "Division by zero");
+        else
+          lhs->fixnum /= rhs->fixnum;
+        break;
       default:  assert(false); break;
       }
     } else {
@@ -539,7 +544,7 @@ static Expr *parse_add(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_ADD:  lhs->fixnum += rhs->fixnum; break;
-      case TK_SUB:  lhs->fixnum += rhs->fixnum; break;
+      case TK_SUB:  lhs->fixnum -= rhs->fixnum; break;
       default:  assert(false); break;
       }
     } else {
@@ -672,16 +677,25 @@ Line *parse_line(ParseInfo *info) {
     if (label == NULL) {
       parse_error(info, "Illegal label");
     } else {
-      info->p = p;
       line->label = label;
-      info->p = r + 1;
     }
-  } else {
+
+    // Statement might follow the label.
+    info->p = p = skip_whitespaces(r + 1);
+    if (*p == '.' || isalpha(*p)) {
+      q = get_label_end(info);
+      r = skip_whitespaces(q);
+    } else {
+      check_line_end(info);
+      p = NULL;
+    }
+  }
+  if (p != NULL) {
     if (*p == '.') {
       enum DirectiveType dir = find_directive(p + 1, q - p - 1);
       if (dir == NODIRECTIVE) {
         parse_error(info, "Unknown directive");
-        return NULL;
+        return line->label != NULL ? line : NULL;
       }
       line->dir = dir;
       info->p = r;
@@ -922,7 +936,7 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
         break;
       }
 
-      LabelInfo *label = add_label_table(info->label_table, name, section, false, false);
+      LabelInfo *label = add_label_table(info->label_table, name, NULL, false, false);
       if (label != NULL) {
         label->kind = kind;
       }
@@ -1005,7 +1019,7 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
         return;
       }
 
-      LabelInfo *label = add_label_table(info->label_table, name, section, false, dir == DT_GLOBL);
+      LabelInfo *label = add_label_table(info->label_table, name, NULL, false, dir == DT_GLOBL);
       if (label == NULL) {
         ++info->error_count;
       } else {
-- 
2.43.0


From baf42137fe73e8858ba05d46c88ad14c7ebdb95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:27 +0000
Subject: [PATCH 29/96] fix: assembler accepts a comment after a symbol operand

---
 src/as/parse_asm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 2aa3c1a..a08a4ec 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -373,6 +373,8 @@ static const Token *fetch_token(ParseInfo *info) {
     }
     break;
   case '+': case '-': case '*': case '/':
+    if (c == '/' && (p[1] == '/' || p[1] == '*'))  // Comment.
+      break;
     {
       enum TokenKind kind;
       switch (c) {
-- 
2.43.0


From e50542d4a266284fc31fcd39fc1194488013eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:32 +0000
Subject: [PATCH 30/96] fix: linker reports missing objects, accounts for
 section alignment, prefers an archive's first definition

---
 src/ld/ld.c        | 23 ++++++++++++-----------
 src/util/archive.c |  3 ++-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 2397ac9..44b3628 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -101,14 +101,13 @@ void ld_load(LinkEditor *ld, int i, const char *filename) {
   if (strcasecmp(ext, "o") == 0) {
     FILE *fp;
     if (!is_file(filename) || (fp = fopen(filename, "rb")) == NULL) {
-      fprintf(stderr, "cannot open: %s\n", filename);
-    } else {
-      ElfObj *elfobj = read_elf(fp, filename);
-      if (elfobj == NULL)
-        exit(1);
-      file->kind = FK_ELFOBJ;
-      file->elfobj = elfobj;
+      error("cannot open: %s", filename);
     }
+    ElfObj *elfobj = read_elf(fp, filename);
+    if (elfobj == NULL)
+      exit(1);
+    file->kind = FK_ELFOBJ;
+    file->elfobj = elfobj;
   } else if (strcasecmp(ext, "a") == 0) {
     Archive *archive = load_archive(filename);
     if (archive == NULL) {
@@ -595,6 +594,7 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
             ElfSectionInfo *p = list->data[j];
             Elf64_Shdr *shdr = p->shdr;
             size_t align = shdr->sh_addralign;
+            uint64_t prev_end = address;
             address = ALIGN(address, align);
             p->progbits.address = address;
             size_t size = shdr->sh_size;
@@ -604,7 +604,7 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
               secgroup->align = align;
 
             if (p->shdr->sh_type == SHT_NOBITS)
-              secgroup->bss_size += size;
+              secgroup->bss_size += address - prev_end;  // Includes padding.
           }
         }
         break;
@@ -695,13 +695,14 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
   const int flags = 0;
 #endif
   out_elf_header(fp, entry_address, phnum, 0, flags, 0);
-  out_program_header(fp, 0, PROG_START, section_groups[SEC_TEXT].start_address, code_rodata_sz,
+  uint64_t offset = ALIGN(PROG_START, section_groups[SEC_TEXT].align);
+  out_program_header(fp, 0, offset, section_groups[SEC_TEXT].start_address, code_rodata_sz,
                      code_rodata_sz);
   if (phnum > 1) {
     size_t datamemsz = section_groups[SEC_DATA].ds->len + section_groups[SEC_DATA].bss_size;
-    uint64_t offset = PROG_START + code_rodata_sz;
+    offset += code_rodata_sz;
     if (section_groups[SEC_DATA].ds->len > 0)
-      offset = ALIGN(offset, DATA_ALIGN);
+      offset = ALIGN(offset, section_groups[SEC_DATA].align);
     out_program_header(fp, 1, offset, section_groups[SEC_DATA].start_address,
                        section_groups[SEC_DATA].ds->len, datamemsz);
   }
diff --git a/src/util/archive.c b/src/util/archive.c
index 5d9c461..47debf5 100644
--- a/src/util/archive.c
+++ b/src/util/archive.c
@@ -131,7 +131,8 @@ Archive *load_archive(const char *filename) {
 
       ArSymbol *symbol = &symbols[i];
       const Name *name = alloc_name(p, q, false);
-      table_put(&ar->symbol_table, name, symbol);
+      if (!table_try_get(&ar->symbol_table, name, NULL))  // The first definition takes precedence.
+        table_put(&ar->symbol_table, name, symbol);
 
       p = q + 1;
     }
-- 
2.43.0


From 49a97e655e887b1b70e754d48467718ccd710ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:19 +0000
Subject: [PATCH 31/96] fix: string functions follow the C standard (character
 conversion, padding, return values, case folding, end of string)

---
 libsrc/misc/basename.c     | 18 ++++++++++++------
 libsrc/misc/dirname.c      | 23 ++++++++++++++++-------
 libsrc/string/memccpy.c    | 11 +++++++----
 libsrc/string/memchr.c     |  2 +-
 libsrc/string/stpcpy.c     |  4 ++--
 libsrc/string/stpncpy.c    |  5 +++--
 libsrc/string/strcasecmp.c |  6 +++---
 libsrc/string/strchr.c     |  2 +-
 libsrc/string/strncpy.c    |  6 ++----
 libsrc/string/strndup.c    |  1 +
 libsrc/string/strrchr.c    |  2 +-
 libsrc/string/strstr.c     |  6 ++++--
 libsrc/string/strtok_r.c   |  5 +++--
 13 files changed, 56 insertions(+), 35 deletions(-)

diff --git a/libsrc/misc/basename.c b/libsrc/misc/basename.c
index 4419ae0..f9f45f2 100644
--- a/libsrc/misc/basename.c
+++ b/libsrc/misc/basename.c
@@ -1,10 +1,16 @@
 #include "libgen.h"
-#include "string.h"  // strrchr
+#include "stddef.h"  // NULL
+#include "string.h"  // strlen
 
 char *basename(char *path) {
-  char *p = strrchr(path, '/');
-  if (p != NULL)
-    return p + 1;
-  else
-    return path;
+  if (path == NULL || *path == '\0')
+    return ".";
+
+  char *end = path + strlen(path);
+  while (end > path + 1 && end[-1] == '/')
+    *--end = '\0';
+  char *p = end;
+  while (p > path && p[-1] != '/')
+    --p;
+  return p == end ? p - 1 : p;  // All slashes: "/"
 }
diff --git a/libsrc/misc/dirname.c b/libsrc/misc/dirname.c
index 64b76ac..49e32d2 100644
--- a/libsrc/misc/dirname.c
+++ b/libsrc/misc/dirname.c
@@ -1,11 +1,20 @@
 #include "libgen.h"
-#include "string.h"  // strrchr
+#include "stddef.h"  // NULL
+#include "string.h"  // strlen
 
 char *dirname(char *path) {
-  char *p = strrchr(path, '/');
-  if (p != NULL) {
-    *p = '\0';
-    return path;
-  }
-  return ".";
+  if (path == NULL || *path == '\0')
+    return ".";
+
+  char *p = path + strlen(path);
+  while (p > path && p[-1] == '/')  // Trailing slashes.
+    --p;
+  while (p > path && p[-1] != '/')  // Last component.
+    --p;
+  if (p == path)
+    return *path == '/' ? "/" : ".";
+  while (p > path + 1 && p[-1] == '/')  // Separators.
+    --p;
+  *p = '\0';
+  return path;
 }
diff --git a/libsrc/string/memccpy.c b/libsrc/string/memccpy.c
index 427d8f7..2ed9621 100644
--- a/libsrc/string/memccpy.c
+++ b/libsrc/string/memccpy.c
@@ -1,8 +1,11 @@
 #include "string.h"
 
 void *memccpy(void *dst, const void *src, int c, size_t n) {
-  char *b = memchr(src, c, n);
-  if (b != NULL)
-    n = b - (char *)src;
-  return memcpy(dst, src, n);
+  const char *b = memchr(src, c, n);
+  if (b == NULL) {
+    memcpy(dst, src, n);
+    return NULL;
+  }
+  n = b - (const char*)src + 1;
+  return (char*)memcpy(dst, src, n) + n;
 }
diff --git a/libsrc/string/memchr.c b/libsrc/string/memchr.c
index ab1e6e7..5c9669c 100644
--- a/libsrc/string/memchr.c
+++ b/libsrc/string/memchr.c
@@ -2,7 +2,7 @@
 
 void *memchr(const void *buf, int c, size_t n) {
   for (const char *p = buf, *e = p + n; p < e; ++p) {
-    if (*p == c)
+    if (*p == (char)c)
       return (void*)p;
   }
   return NULL;
diff --git a/libsrc/string/stpcpy.c b/libsrc/string/stpcpy.c
index 0eb7f51..466d141 100644
--- a/libsrc/string/stpcpy.c
+++ b/libsrc/string/stpcpy.c
@@ -1,7 +1,7 @@
 #include "string.h"
 
 char *stpcpy(char *dst, const char *src) {
-  while ((*dst++ = *src++) != '\0')
-    ;
+  while ((*dst = *src++) != '\0')
+    ++dst;
   return dst;
 }
diff --git a/libsrc/string/stpncpy.c b/libsrc/string/stpncpy.c
index a6d7894..5b6f691 100644
--- a/libsrc/string/stpncpy.c
+++ b/libsrc/string/stpncpy.c
@@ -1,7 +1,8 @@
 #include "string.h"
 
 char *stpncpy(char *dst, const char *src, size_t n) {
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
-    ;
+  for (; n > 0 && (*dst = *src) != '\0'; --n)
+    ++dst, ++src;
+  memset(dst, 0, n);
   return dst;
 }
diff --git a/libsrc/string/strcasecmp.c b/libsrc/string/strcasecmp.c
index ed94ec0..42bcdf2 100644
--- a/libsrc/string/strcasecmp.c
+++ b/libsrc/string/strcasecmp.c
@@ -3,9 +3,9 @@
 
 int strcasecmp(const char *p, const char *q) {
   for (;; ++p, ++q) {
-    unsigned char c1 = *(unsigned char*)p;
-    unsigned char c2 = *(unsigned char*)q;
-    int d = (int)c1 - (int)c2;
+    int c1 = tolower(*(unsigned char*)p);
+    int c2 = tolower(*(unsigned char*)q);
+    int d = c1 - c2;
     if (d != 0)
       return d;
     if (c1 == 0)
diff --git a/libsrc/string/strchr.c b/libsrc/string/strchr.c
index 296b9c0..3f80fbc 100644
--- a/libsrc/string/strchr.c
+++ b/libsrc/string/strchr.c
@@ -2,7 +2,7 @@
 
 char *strchr(const char *s, int c) {
   for (;; ++s) {
-    if (*s == c)
+    if (*s == (char)c)
       return (char*)s;
     if (*s == '\0')
       return NULL;
diff --git a/libsrc/string/strncpy.c b/libsrc/string/strncpy.c
index 9dcceae..6433a8b 100644
--- a/libsrc/string/strncpy.c
+++ b/libsrc/string/strncpy.c
@@ -1,8 +1,6 @@
 #include "string.h"
 
 char *strncpy(char *dst, const char *src, size_t n) {
-  char *os = dst;
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
-    ;
-  return os;
+  stpncpy(dst, src, n);
+  return dst;
 }
diff --git a/libsrc/string/strndup.c b/libsrc/string/strndup.c
index ce14001..f366b53 100644
--- a/libsrc/string/strndup.c
+++ b/libsrc/string/strndup.c
@@ -2,6 +2,7 @@
 #include "stdlib.h"  // malloc
 
 char *strndup(const char *str, size_t size) {
+  size = strnlen(str, size);
   char *dup = malloc(size + 1);
   if (dup != NULL) {
     memcpy(dup, str, size);
diff --git a/libsrc/string/strrchr.c b/libsrc/string/strrchr.c
index b6bc79a..ae15d11 100644
--- a/libsrc/string/strrchr.c
+++ b/libsrc/string/strrchr.c
@@ -3,7 +3,7 @@
 char *strrchr(const char *s, int c) {
   char *last = NULL;
   for (;; ++s) {
-    if (*s == c)
+    if (*s == (char)c)
       last = (char*)s;
     if (*s == '\0')
       return last;
diff --git a/libsrc/string/strstr.c b/libsrc/string/strstr.c
index f8fa574..b0154fa 100644
--- a/libsrc/string/strstr.c
+++ b/libsrc/string/strstr.c
@@ -1,9 +1,11 @@
 #include "string.h"
 
 char *strstr(const char *s1, const char *s2) {
-  for (size_t len = strlen(s2); *s1 != '\0'; ++s1) {
+  size_t len = strlen(s2);
+  for (;; ++s1) {
     if (strncmp(s1, s2, len) == 0)
       return (char*)s1;
+    if (*s1 == '\0')
+      return NULL;
   }
-  return NULL;
 }
diff --git a/libsrc/string/strtok_r.c b/libsrc/string/strtok_r.c
index 07a17d7..f7382ff 100644
--- a/libsrc/string/strtok_r.c
+++ b/libsrc/string/strtok_r.c
@@ -8,7 +8,8 @@ char *strtok_r(char *src, const char *delim, char **ptr) {
     return NULL;
   char *r = *ptr;
   size_t n = strcspn(r, delim);
-  r[n] = '\0';
-  *ptr += n + 1;
+  *ptr += n;
+  if (**ptr != '\0')
+    *(*ptr)++ = '\0';
   return r;
 }
-- 
2.43.0


From db3220345c0c01978d2e5b9eef9e5a1657df9564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 32/96] fix: strtol family handles base 0, 0x prefix, sign,
 white space and range errors

---
 libsrc/stdlib/_strtoull_sub.c | 26 ++++++++++++++++++++------
 libsrc/stdlib/strtoul.c       | 20 +++++++++++++++++---
 libsrc/stdlib/strtoull.c      | 15 ++++++++++++---
 3 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/libsrc/stdlib/_strtoull_sub.c b/libsrc/stdlib/_strtoull_sub.c
index 016c418..9987efa 100644
--- a/libsrc/stdlib/_strtoull_sub.c
+++ b/libsrc/stdlib/_strtoull_sub.c
@@ -1,6 +1,20 @@
-#include "ctype.h"  // isspace, tolower
+#include "ctype.h"  // isxdigit, tolower
+#include "errno.h"
 
 unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max) {
+  if (base < 0 || base == 1 || base > 36) {
+    errno = EINVAL;
+    if (pp != 0)
+      *pp = (char*)p;
+    return 0;
+  }
+  if ((base == 0 || base == 16) && p[0] == '0' && tolower(p[1]) == 'x' && isxdigit(p[2])) {
+    p += 2;
+    base = 16;
+  }
+  if (base == 0)
+    base = *p == '0' ? 8 : 10;
+
   char digimax = '0' + (base <= 10 ? base : 10);
   char hexmax = 'a' - 10 + base;
   unsigned long long premax = max / base;
@@ -17,14 +31,14 @@ unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned lo
       else
         break;
     }
-    if (result > premax) {
+
+    unsigned long long r = result * base;
+    if (result > premax || n > max - r) {
       result = max;
+      errno = ERANGE;
       continue;
     }
-
-    unsigned long long r = result * base;
-    unsigned long long d = max - r;
-    result = n < d ? r + n : max;
+    result = r + n;
   }
 
   if (pp != 0)
diff --git a/libsrc/stdlib/strtoul.c b/libsrc/stdlib/strtoul.c
index d29abbf..f293802 100644
--- a/libsrc/stdlib/strtoul.c
+++ b/libsrc/stdlib/strtoul.c
@@ -1,13 +1,27 @@
 #include "stdlib.h"
+#include "ctype.h"  // isspace
+#include "errno.h"
+#include "stdbool.h"
 
+extern bool _parse_sign(const char **pp);
 extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
 
 unsigned long strtoul(const char *p, char **pp, int base) {
   const char *orig = p;
-  if (*p == '+')
-    ++p;
+
+  for (; isspace(*p); ++p)
+    ;
+
+  bool neg = _parse_sign(&p);
   char *q;
-  unsigned long result = _strtoull_sub(p, &q, base, -1UL);
+  int saved_errno = errno;
+  errno = 0;
+  unsigned long result = _strtoull_sub(p, &q, base, (unsigned long)-1);
+  if (errno == 0) {
+    errno = saved_errno;
+    if (neg)
+      result = -result;
+  }
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
   return result;
diff --git a/libsrc/stdlib/strtoull.c b/libsrc/stdlib/strtoull.c
index 5de6a7b..e4dec3d 100644
--- a/libsrc/stdlib/strtoull.c
+++ b/libsrc/stdlib/strtoull.c
@@ -1,6 +1,9 @@
 #include "stdlib.h"
 #include "ctype.h"  // isspace
+#include "errno.h"
+#include "stdbool.h"
 
+extern bool _parse_sign(const char **pp);
 extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
 
 unsigned long long strtoull(const char *p, char **pp, int base) {
@@ -9,10 +12,16 @@ unsigned long long strtoull(const char *p, char **pp, int base) {
   for (; isspace(*p); ++p)
     ;
 
-  if (*p == '+')
-    ++p;
+  bool neg = _parse_sign(&p);
   char *q;
-  unsigned long long result = _strtoull_sub(p, &q, base, -1ULL);
+  int saved_errno = errno;
+  errno = 0;
+  unsigned long long result = _strtoull_sub(p, &q, base, (unsigned long long)-1);
+  if (errno == 0) {
+    errno = saved_errno;
+    if (neg)
+      result = -result;
+  }
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
   return result;
-- 
2.43.0


From 26f0b635d2558ccd1daf63e4d12c42a30ed694b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 33/96] fix: strtod accepts every C99 form and rounds correctly

---
 libsrc/stdlib/strtod.c | 303 +++++++++++++++++++++++++++--------------
 1 file changed, 203 insertions(+), 100 deletions(-)

diff --git a/libsrc/stdlib/strtod.c b/libsrc/stdlib/strtod.c
index 9957d7c..ca75eaf 100644
--- a/libsrc/stdlib/strtod.c
+++ b/libsrc/stdlib/strtod.c
@@ -1,147 +1,250 @@
 #include "stdlib.h"
-#include "ctype.h"  // isspace, tolower
+#include "ctype.h"  // isdigit, isspace, isxdigit, tolower
+#include "errno.h"
 #include "stdbool.h"
 #include "string.h"
+#include "strings.h"  // strncasecmp
 #include "stdint.h"
 #include "../math/_ieee.h"
 
 extern bool _parse_sign(const char **pp);
 
 #ifndef __NO_FLONUM
-static double ipow(double base, long x) {
-  double result = 1;
-  double a = base;
-  for (; x > 0; x >>= 1, a *= a) {
-    if ((x & 1) != 0)
-      result *= a;
+#define MIN_EXPO     (-EXPO_BIAS)   // Exponent of minimum normalized number.
+#define MAX_DIGITS   (800)          // Sufficient number of significant digits to decide rounding.
+#define MAX_EXPONENT (100000)
+
+// Round `mant * 2^expo` (plus some fraction if sticky) to the nearest double.
+static double compose_double(uint64_t mant, int expo, bool sticky) {
+  if (mant == 0)
+    return 0;
+  for (expo += 63; (mant >> 63) == 0; mant <<= 1)
+    --expo;
+
+  int drop = 63 - FRAC_BIT;
+  if (expo < MIN_EXPO)  // Subnormal.
+    drop += MIN_EXPO - expo;
+  uint64_t bits = 0;
+  if (drop <= 64) {
+    uint64_t rest = mant;
+    if (drop < 64) {
+      bits = mant >> drop;
+      rest = mant & (((uint64_t)1 << drop) - 1);
+    }
+    uint64_t half = (uint64_t)1 << (drop - 1);
+    if (rest > half || (rest == half && (sticky || (bits & 1) != 0)))
+      ++bits;
+    if (expo > MIN_EXPO)
+      bits += (uint64_t)(expo - MIN_EXPO < 2047 ? expo - MIN_EXPO : 2047) << FRAC_BIT;
+  }
+  if (bits >= (uint64_t)EXPO_MASK) {  // Overflow.
+    bits = EXPO_MASK;
+    errno = ERANGE;
+  } else if (bits == 0) {
+    errno = ERANGE;
   }
-  return result;
+  return *(double*)&bits;
 }
 
-static double strtod_i(const char *p, const char **pp) {
-  double result = 0;
+static int parse_exponent(const char *p, const char **pp) {
+  const char *q = p + 1;
+  bool neg = _parse_sign(&q);
+  if (!isdigit(*q))
+    return 0;
+  int n = 0;
+  for (; isdigit(*q); ++q) {
+    if (n < MAX_EXPONENT)
+      n = n * 10 + (*q - '0');
+  }
+  *pp = q;
+  return neg ? -n : n;
+}
+
+static double strtod_hex(const char *p, const char **pp) {
+  uint64_t mant = 0;
+  int expo = 0;
+  bool sticky = false, point = false;
   for (;; ++p) {
-    char c = *p;
-    if (!(c >= '0' && c <= '9'))
+    char c = tolower(*p);
+    if (c == '.' && !point) {
+      point = true;
+      continue;
+    }
+    if (!isxdigit(c))
       break;
-    result = result * 10 + (c - '0');
+    if (point)
+      expo -= 4;
+    int n = c <= '9' ? c - '0' : c - 'a' + 10;
+    if ((mant >> 60) == 0) {
+      mant = (mant << 4) | n;
+    } else {
+      expo += 4;
+      sticky |= n != 0;
+    }
   }
+  if (tolower(*p) == 'p')
+    expo += parse_exponent(p, &p);
   *pp = p;
-  return result;
+  return compose_double(mant, expo, sticky);
 }
 
-static double strtod_i2(const char *p, const char **pp) {
-  const char *q = p, *r = p;
-  for (;;) {
-    char c = *q;
-    if (!(c >= '0' && c <= '9'))
-      break;
-    ++q;
-    if (c != '0')
-      r = q;
+// 0.{digits} * 10^point
+typedef struct {
+  int len, point;
+  unsigned char digits[MAX_DIGITS];
+} Decimal;
+
+// Multiply (k > 0) or divide (k < 0) by 2^|k|.  Returns true if non-zero digits are discarded.
+static bool shift_decimal(Decimal *d, int k) {
+  bool discarded = false;
+  uint64_t n = 0;
+  if (k > 0) {
+    int extra = (k * 30103 + 99999) / 100000;  // k * log10(2)
+    int w = d->len + extra;
+    for (int i = d->len; --i >= -extra; ) {
+      if (i >= 0)
+        n += (uint64_t)d->digits[i] << k;
+      --w;
+      if (w < MAX_DIGITS)
+        d->digits[w] = n % 10;
+      else
+        discarded |= n % 10 != 0;
+      n /= 10;
+    }
+    d->len += extra;
+    d->point += extra;
+    if (d->len > MAX_DIGITS)
+      d->len = MAX_DIGITS;
+  } else {
+    int w = 0;
+    uint64_t mask = ((uint64_t)1 << -k) - 1;
+    for (int r = 0; r < d->len || n != 0; ++r) {
+      n = n * 10 + (r < d->len ? d->digits[r] : 0);
+      int digit = n >> -k;
+      n &= mask;
+      if (w == 0 && digit == 0) {
+        --d->point;
+        continue;
+      }
+      if (w < MAX_DIGITS)
+        d->digits[w++] = digit;
+      else
+        discarded |= digit != 0;
+    }
+    d->len = w;
   }
 
-  double result = 0;
-  for (size_t order = r - p; r > p; --order) {
-    char c = *(--r);
-    result += (c - '0') / ipow(10, order);
+  // Normalize.
+  int z = 0;
+  for (; z < d->len && d->digits[z] == 0; ++z)
+    ;
+  if (z > 0) {
+    memmove(d->digits, d->digits + z, d->len - z);
+    d->len -= z;
+    d->point -= z;
   }
-  *pp = q;
-  return result;
+  for (; d->len > 0 && d->digits[d->len - 1] == 0; --d->len)
+    ;
+  return discarded;
 }
 
-#define strtod_h(p, pp)  strtoull(p, (char**)(pp), 16)
+static double strtod_dec(const char *p, const char **pp) {
+  static const double POW10[] = {
+    1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15,
+    1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22,
+  };
 
-static double strtod_hex(const char *p, const char **pp) {
-  double result = strtod_h(p, &p);
-  if (*p == '.') {
-    const char *q = p + 1;
-    unsigned long long frac = strtod_h(q, &p);
-    long order = p - q;
-    result += frac * ipow(1.0f / 16, order);
-  }
-  if (tolower(*p) == 'p') {
-    const char *q = p + 1;
-    bool neg2 = _parse_sign(&q);
-    double order = strtod_i(q, &p);
-    if (q == p) {
-      // Error.
+  Decimal dec;
+  dec.len = dec.point = 0;
+  uint64_t mant = 0;
+  bool sticky = false, point = false;
+  for (;; ++p) {
+    char c = *p;
+    if (c == '.' && !point) {
+      point = true;
+      continue;
+    }
+    if (!isdigit(c))
+      break;
+    if (dec.len == 0 && c == '0') {
+      dec.point -= point;
+      continue;
+    }
+    if (dec.len < MAX_DIGITS) {
+      if (dec.len < 19)
+        mant = mant * 10 + (c - '0');
+      dec.digits[dec.len++] = c - '0';
     } else {
-      double k = ipow(2, order);
-      if (neg2)
-        result /= k;
-      else
-        result *= k;
+      sticky |= c != '0';
     }
+    dec.point += !point;
   }
+  if (tolower(*p) == 'e')
+    dec.point += parse_exponent(p, &p);
   *pp = p;
-  return result;
+
+  if (dec.len == 0)
+    return 0;
+
+  // Exactly representable operands: The result of single operation is correctly rounded.
+  int order = dec.point - dec.len;
+  if (dec.len <= 15 && order >= -22 && order <= 22)
+    return order < 0 ? mant / POW10[-order] : mant * POW10[order];
+
+  if (dec.point > 310 || dec.point < -330)
+    return compose_double(1, dec.point > 0 ? 2000 : -2000, false);
+
+  // Scale to integer which has 19 decimal digits, by power of two.
+  int expo = 0;
+  while (dec.point > 19) {
+    sticky |= shift_decimal(&dec, -3);
+    expo += 3;
+  }
+  while (dec.point < 19) {
+    int k = dec.point < 2 ? 50 : 1;
+    sticky |= shift_decimal(&dec, k);
+    expo -= k;
+  }
+  mant = 0;
+  for (int i = 0; i < 19; ++i)
+    mant = mant * 10 + (i < dec.len ? dec.digits[i] : 0);
+  return compose_double(mant, expo, sticky || dec.len > 19);
 }
 
 double strtod(const char * restrict p_, char ** restrict pp) {
   const char *p = p_;
-  const char *orig = p;
 
   for (; isspace(*p); ++p)
     ;
 
   bool neg = _parse_sign(&p);
 
-  static const struct {
-    const char *str;
-    double pos, neg;
-  } CONST[] = {
-    {"infinity", 1.0 / 0.0, -1.0 / 0.0},
-    {"inf", 1.0 / 0.0, -1.0 / 0.0},
-    {"nan", 0.0 / 0.0, 0.0 / 0.0},
-  };
-  for (int i = 0; i < (int)(sizeof(CONST) / sizeof(*CONST)); ++i) {
-    const char *str = CONST[i].str;
-    size_t len = strlen(str);
-    if (strncmp(p, str, len) == 0) {
-      p += len;
-      if (pp != 0)
-        *pp = (char*)p;
-      return neg ? CONST[i].neg : CONST[i].pos;
-    }
-  }
-
-  const char *op;
-  double result;
-  if (p[0] == '0' && tolower(p[1]) == 'x') {
-    op = p += 2;
-    result = strtod_hex(p, &p);
-  } else {
-    op = p;
-    result = strtod_i(p, &p);
-    if (*p == '.') {
-      const char *q = p + 1;
-      double frac = strtod_i2(q, &p);
-      result += frac;
-    }
-    if (tolower(*p) == 'e') {
+  double result = 0;
+  if (strncasecmp(p, "inf", 3) == 0) {
+    p += strncasecmp(p, "infinity", 8) == 0 ? 8 : 3;
+    result = 1.0 / 0.0;
+  } else if (strncasecmp(p, "nan", 3) == 0) {
+    p += 3;
+    if (*p == '(') {
       const char *q = p + 1;
-      bool neg2 = _parse_sign(&q);
-      double order = strtod_i(q, &p);
-      if (q == p) {
-        // Error.
-      } else {
-        double k = ipow(10, order);
-        if (neg2)
-          result /= k;
-        else
-          result *= k;
-      }
+      for (; isalnum(*q) || *q == '_'; ++q)
+        ;
+      if (*q == ')')
+        p = q + 1;
     }
+    result = 0.0 / 0.0;
+  } else if (p[0] == '0' && tolower(p[1]) == 'x' && isxdigit(p[p[2] == '.' ? 3 : 2])) {
+    result = strtod_hex(p + 2, &p);
+  } else if (isdigit(p[*p == '.' ? 1 : 0])) {
+    result = strtod_dec(p, &p);
+  } else {
+    p = p_;
+    neg = false;
   }
-  if (p == op)
-    p = orig;
-  if (neg)
-    result = -result;
 
   if (pp != NULL)
     *pp = (char*)p;
 
-  return result;
+  return neg ? -result : result;
 }
 #endif
-- 
2.43.0


From 2f75186cd37f30a80e4b96616504cbdcf878a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:28 +0000
Subject: [PATCH 34/96] fix: malloc and calloc fail cleanly on huge or
 overflowing sizes

---
 libsrc/_wasm/unistd/brk.c | 11 +++++++----
 libsrc/stdlib/_malloc.h   |  4 +++-
 libsrc/stdlib/calloc.c    |  2 ++
 libsrc/stdlib/malloc.c    |  3 +++
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/libsrc/_wasm/unistd/brk.c b/libsrc/_wasm/unistd/brk.c
index f32fdc7..262a263 100644
--- a/libsrc/_wasm/unistd/brk.c
+++ b/libsrc/_wasm/unistd/brk.c
@@ -7,21 +7,24 @@ extern void *__curbrk;
 #define HEAP_ALIGN  (8)
 #define MEMORY_PAGE_BIT  (16)
 
-static void _growTo(void *ptr) {
+static int _growTo(void *ptr) {
   size_t page = (((size_t)ptr) + ((1 << MEMORY_PAGE_BIT) - 1)) >> MEMORY_PAGE_BIT;
   size_t count = __builtin_memory_size();
   if (page > count) {
     const size_t grow = page - count;
-    __builtin_memory_grow(grow);
+    if (__builtin_memory_grow(grow) == (size_t)-1)
+      return EOF;
   }
+  return 0;
 }
 
 int brk(void *addr) {
-  if (addr <= __curbrk)
+  if (addr < __curbrk)
     return EOF;
   void *p = (void*)((((intptr_t)addr) + (HEAP_ALIGN - 1)) & -HEAP_ALIGN);
+  if (_growTo(p) < 0)
+    return EOF;
   __curbrk = p;
-  _growTo(p);
   return 0;
 }
 
diff --git a/libsrc/stdlib/_malloc.h b/libsrc/stdlib/_malloc.h
index 1589908..af0f11a 100644
--- a/libsrc/stdlib/_malloc.h
+++ b/libsrc/stdlib/_malloc.h
@@ -1,11 +1,13 @@
 #pragma once
 
+#include "stddef.h"  // size_t
+
 typedef long Align;
 
 typedef union header {
   struct {
     union header *ptr;
-    unsigned int size;
+    size_t size;
   } s;
   Align x;
 } Header;
diff --git a/libsrc/stdlib/calloc.c b/libsrc/stdlib/calloc.c
index 5b53244..8ef7e45 100644
--- a/libsrc/stdlib/calloc.c
+++ b/libsrc/stdlib/calloc.c
@@ -3,6 +3,8 @@
 
 void *calloc(size_t nmemb, size_t size) {
   size_t nbytes = nmemb * size;
+  if (size != 0 && nbytes / size != nmemb)  // Overflow.
+    return NULL;
   void *adr = malloc(nbytes);
   if (adr != NULL)
     memset(adr, 0, nbytes);
diff --git a/libsrc/stdlib/malloc.c b/libsrc/stdlib/malloc.c
index 898482e..51008a9 100644
--- a/libsrc/stdlib/malloc.c
+++ b/libsrc/stdlib/malloc.c
@@ -52,6 +52,9 @@ void *malloc(size_t nbytes) {
   Header *p, *prevp;
   size_t nunits;
 
+  if (nbytes > (size_t)-1 / 2 - PAGESIZE - 2 * sizeof(Header))
+    return 0;
+
   nunits = (nbytes + sizeof(Header) - 1) / sizeof(Header) + 1;
   prevp = freep;
   for (p = prevp->s.ptr; ; prevp = p, p = p->s.ptr) {
-- 
2.43.0


From 8e17064a80519da281c5e28a7747bd62eff19a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:18 +0000
Subject: [PATCH 35/96] fix: stdio end-of-file, push-back, positioning, short
 transfers, error reporting and memory streams follow the C standard

---
 libsrc/_wasm/unistd/lseek.c   |  2 +-
 libsrc/_wasm/unistd/open.c    |  4 ++
 libsrc/_wasm/wasi.h           |  2 +-
 libsrc/stdio/_file.c          | 75 +++++++++++++++--------------------
 libsrc/stdio/_file.h          |  1 +
 libsrc/stdio/_fileman.c       | 19 +++++++--
 libsrc/stdio/fdopen.c         |  9 +++--
 libsrc/stdio/fflush.c         |  2 +
 libsrc/stdio/fgetc.c          |  8 ----
 libsrc/stdio/fgets.c          |  5 ++-
 libsrc/stdio/fmemopen.c       | 23 +++++------
 libsrc/stdio/fputs.c          |  6 +--
 libsrc/stdio/fread.c          | 17 +++++++-
 libsrc/stdio/fseek.c          |  3 +-
 libsrc/stdio/ftell.c          |  9 ++++-
 libsrc/stdio/fwrite.c         |  2 +
 libsrc/stdio/open_memstream.c | 18 ++++++---
 libsrc/stdio/puts.c           |  2 +-
 libsrc/stdio/stdin.c          |  7 ++--
 libsrc/stdio/ungetc.c         |  4 +-
 20 files changed, 126 insertions(+), 92 deletions(-)

diff --git a/libsrc/_wasm/unistd/lseek.c b/libsrc/_wasm/unistd/lseek.c
index f47b385..6f37d7c 100644
--- a/libsrc/_wasm/unistd/lseek.c
+++ b/libsrc/_wasm/unistd/lseek.c
@@ -3,7 +3,7 @@
 #include "../wasi.h"
 
 off_t lseek(int fd, off_t offset, int whence) {
-  size_t size;
+  uint64_t size;
   int result = fd_seek(fd, offset, whence, &size);
   if (result == 0)
     return size;
diff --git a/libsrc/_wasm/unistd/open.c b/libsrc/_wasm/unistd/open.c
index bed3f42..a740754 100644
--- a/libsrc/_wasm/unistd/open.c
+++ b/libsrc/_wasm/unistd/open.c
@@ -30,8 +30,12 @@ int open(const char *fn, int flag, ...) {
   if (fs_rights_base & FD_WRITE) {
     if (flag & O_CREAT)
       oflags |= OFLAGS_CREAT;
+    if (flag & O_EXCL)
+      oflags |= OFLAGS_EXCL;
     if (flag & O_TRUNC)
       oflags |= OFLAGS_TRUNC;
+    if (flag & O_APPEND)
+      fdflags |= FDFLAGS_APPEND;
   }
 
   // Search from preopens
diff --git a/libsrc/_wasm/wasi.h b/libsrc/_wasm/wasi.h
index 5e21730..07a842c 100644
--- a/libsrc/_wasm/wasi.h
+++ b/libsrc/_wasm/wasi.h
@@ -118,7 +118,7 @@ WASI_MODULE int path_filestat_get(int fd, int flags, const char *path, size_t pa
 WASI_MODULE int fd_read(int fd, const void *iov, int count, size_t *out);
 WASI_MODULE int fd_write(int fd, const void *iov, int count, size_t *out);
 WASI_MODULE int fd_close(int fd);
-WASI_MODULE int fd_seek(int fd, int64_t offset, int whence, size_t *psize);
+WASI_MODULE int fd_seek(int fd, int64_t offset, int whence, uint64_t *psize);
 WASI_MODULE int fd_filestat_get(int fd, Filestat *out);
 
 WASI_MODULE int clock_time_get(int clockid, uint64_t precision, uint64_t *out);
diff --git a/libsrc/stdio/_file.c b/libsrc/stdio/_file.c
index eb74f5d..25a0d6a 100644
--- a/libsrc/stdio/_file.c
+++ b/libsrc/stdio/_file.c
@@ -7,10 +7,6 @@
 
 #include "./_file.h"
 
-// Normal: if actual read size is less than required size, it means EOF.
-// Pipe:   if subscriber is faster than publisher, it happens. len == 0 means EOF.
-#define FILE_IS_END(fp, readsize)  (!((fp)->flag & FF_FIFO) || (readsize) == 0)
-
 static void _finit(FILE *fp) {
   if ((fp->flag & FF_INITIALIZED))
     return;
@@ -36,44 +32,37 @@ ssize_t _fread(void *cookie, char *buf, size_t total) {
   FILE *fp = cookie;
   _finit(fp);
   unsigned char *p = (unsigned char*)buf;
-  if (fp->rs > 0) {
+  while (total > 0) {
     size_t d = fp->rs - fp->rp;
-    if (total <= d) {
-      memcpy(p, &fp->rbuf[fp->rp], total);
-      fp->rp += total;
-      if (fp->rp >= fp->rs)
-        fp->rp = fp->rs = 0;
-      return total;
+    if (d > 0) {
+      if (d > total)
+        d = total;
+      memcpy(p, &fp->rbuf[fp->rp], d);
+      fp->rp += d;
+      p += d;
+      total -= d;
+      continue;
     }
-    memcpy(p, &fp->rbuf[fp->rp], d);
-    total -= d;
-    p += d;
-  }
 
-  if (total < fp->rcapa * 3 / 4) {
-    // Read more than requested size and store them to the buffer.
-    ssize_t len = read(fp->fd, fp->rbuf, fp->rcapa);
-    fp->rs = len;
-    size_t n = len < 0 || (size_t)len < total ? (size_t)len : total;
-    fp->rp = n;
-    if (n > 0) {
-      memcpy(p, fp->rbuf, n);
-      p += n;
+    ssize_t len;
+    fp->rp = fp->rs = 0;
+    if (total < fp->rcapa * 3 / 4) {
+      // Read more than requested size and store them to the buffer.
+      len = read(fp->fd, fp->rbuf, fp->rcapa);
+      if (len > 0)
+        fp->rs = len;
+    } else {
+      // Read to the given buffer directly.
+      len = read(fp->fd, p, total);
+      if (len > 0) {
+        p += len;
+        total -= len;
+      }
     }
-    if (len < (ssize_t)fp->rcapa && (ssize_t)n == len) {
-      if (FILE_IS_END(fp, len))
+    if (len <= 0) {
+      if (len == 0)
         fp->flag |= FF_EOF;
-    }
-  } else {
-    // Read to the given buffer directly.
-    ssize_t len = read(fp->fd, p, total);
-    if (len >= 0) {
-      p += len;
-      fp->rp = fp->rs = 0;
-      if ((size_t)len < total) {
-        if (FILE_IS_END(fp, len))
-          fp->flag |= FF_EOF;
-      }
+      break;
     }
   }
 
@@ -101,12 +90,12 @@ ssize_t _fwrite(void *cookie, const char *buf, size_t size) {
 
 int _fflush(FILE *fp) {
   if (fp->flag & FF_WRITE) {
-    unsigned int wp = fp->wp;
-    if (wp > 0) {
-      size_t write_size = write(fp->fd, fp->wbuf, wp);
-      if (write_size != (size_t)wp)
+    while (fp->wp > 0) {
+      ssize_t write_size = write(fp->fd, fp->wbuf, fp->wp);
+      if (write_size <= 0)
         return EOF;
-      fp->wp = 0;
+      fp->wp -= write_size;
+      memmove(fp->wbuf, fp->wbuf + write_size, fp->wp);
     }
   }
   return 0;
@@ -114,6 +103,8 @@ int _fflush(FILE *fp) {
 
 int _fseek(void *cookie, off_t *offset, int origin) {
   FILE *fp = cookie;
+  if (origin == SEEK_CUR)  // Adjust read-ahead.
+    *offset -= (fp->rs - fp->rp) + (fp->unget_char != EOF ? 1 : 0);
   off_t result = lseek(fp->fd, *offset, origin);
   if (result == -1)
     return -1;
diff --git a/libsrc/stdio/_file.h b/libsrc/stdio/_file.h
index 20ff2c9..d73d3af 100644
--- a/libsrc/stdio/_file.h
+++ b/libsrc/stdio/_file.h
@@ -43,6 +43,7 @@ extern int _fflush(FILE *fp);
 
 extern void _add_opened_file(FILE *fp);
 extern void _remove_opened_file(FILE *fp);
+extern int _flush_all_files(void);
 extern int _detect_open_flag(const char *mode);
 
 static inline int _fputc(int c, FILE *fp) {
diff --git a/libsrc/stdio/_fileman.c b/libsrc/stdio/_fileman.c
index 5aded15..c9d729d 100644
--- a/libsrc/stdio/_fileman.c
+++ b/libsrc/stdio/_fileman.c
@@ -39,11 +39,24 @@ void _remove_opened_file(FILE *fp) {
   }
 }
 
-__attribute__((destructor))
-static void flush_opened_files(void) {
+static int flush_opened_files(void) {
+  int result = 0;
   struct FILE **files = __fileman.opened;
   for (int i = 0, length = __fileman.length; i < length; ++i) {
     FILE *fp = files[i];
-    (fp->flush)(fp);
+    result |= (fp->flush)(fp);
   }
+  return result;
+}
+
+int _flush_all_files(void) {
+  int result = flush_opened_files();
+  result |= fflush(stdout);
+  result |= fflush(stderr);
+  return result;
+}
+
+__attribute__((destructor))
+static void flush_on_exit(void) {
+  flush_opened_files();
 }
diff --git a/libsrc/stdio/fdopen.c b/libsrc/stdio/fdopen.c
index 2d051a0..ddbdd9a 100644
--- a/libsrc/stdio/fdopen.c
+++ b/libsrc/stdio/fdopen.c
@@ -13,10 +13,11 @@
 static int _fclose(void *cookie) {
   FILE *fp = cookie;
   _remove_opened_file(fp);
-  (*fp->flush)(fp);
-  close(fp->fd);
+  int result = (*fp->flush)(fp);
+  if (close(fp->fd) < 0)
+    result = EOF;
   free(fp);
-  return 0;
+  return result;
 }
 
 FILE *fdopen(int fd, const char *mode) {
@@ -24,6 +25,8 @@ FILE *fdopen(int fd, const char *mode) {
 
   int flag = 0;
   int oflag = _detect_open_flag(mode);
+  if (oflag == -1)
+    return NULL;
   size_t size = sizeof(FILE);
   switch (oflag & O_ACCMODE) {
   case O_RDONLY:  flag |= FF_READ; size += RCAPA; break;
diff --git a/libsrc/stdio/fflush.c b/libsrc/stdio/fflush.c
index 7e303b7..e035f5b 100644
--- a/libsrc/stdio/fflush.c
+++ b/libsrc/stdio/fflush.c
@@ -3,5 +3,7 @@
 #include "./_file.h"
 
 int fflush(FILE *fp) {
+  if (fp == NULL)
+    return _flush_all_files();
   return (fp->flush)(fp);
 }
diff --git a/libsrc/stdio/fgetc.c b/libsrc/stdio/fgetc.c
index 6668520..00c53e5 100644
--- a/libsrc/stdio/fgetc.c
+++ b/libsrc/stdio/fgetc.c
@@ -1,14 +1,6 @@
 #include "stdio.h"
 
-#include "./_file.h"
-
 int fgetc(FILE *fp) {
-  int uc = fp->unget_char;
-  if (uc != EOF) {
-    fp->unget_char = EOF;
-    return uc;
-  }
-
   unsigned char c;
   size_t count = fread(&c, 1, 1, fp);
   return count == 1 ? c : EOF;
diff --git a/libsrc/stdio/fgets.c b/libsrc/stdio/fgets.c
index 8bfce2e..52c273a 100644
--- a/libsrc/stdio/fgets.c
+++ b/libsrc/stdio/fgets.c
@@ -1,7 +1,8 @@
 #include "stdio.h"
 
 char *fgets(char *s, int n, FILE *fp) {
-  --n;
+  if (--n < 0)
+    return NULL;
   char *p = s;
   for (int i = 0; i < n; ++i) {
     int c = fgetc(fp);
@@ -11,7 +12,7 @@ char *fgets(char *s, int n, FILE *fp) {
     if (c == '\n')
       break;
   }
-  if (p == s)
+  if (p == s && n > 0)
     return NULL;
   *p = '\0';
   return s;
diff --git a/libsrc/stdio/fmemopen.c b/libsrc/stdio/fmemopen.c
index d962ffe..2db5b1c 100644
--- a/libsrc/stdio/fmemopen.c
+++ b/libsrc/stdio/fmemopen.c
@@ -25,11 +25,9 @@ static ssize_t _memread(void *cookie, char *buf, size_t size) {
   FILE *fp = cookie;
   unsigned char *p = (unsigned char*)buf;
   unsigned int sz = fp->wcapa - fp->wp;
-  if (sz <= 0) {
+  if (sz < size)
     fp->flag |= FF_EOF;
-    return 0;
-  }
-  if (sz > size)
+  else
     sz = size;
 
   memcpy(p, &fp->wbuf[fp->wp], sz);
@@ -51,7 +49,7 @@ static ssize_t _memwrite(void *cookie, const char *buf, size_t size) {
 
 static int _memflush(FILE *fp) {
   unsigned int wp = fp->wp;
-  if (wp < fp->wcapa) {
+  if ((fp->flag & FF_WRITE) && wp < fp->wcapa) {
     fp->wbuf[wp] = '\0';
   }
   return 0;
@@ -60,20 +58,21 @@ static int _memflush(FILE *fp) {
 static int _memseek(void *cookie, off_t *offset, int origin) {
   FILE *fp = cookie;
   (*fp->flush)(fp);
+  off_t pos = *offset;
   switch (origin) {
-  case SEEK_SET:
-    fp->wp = *offset;
-    break;
   case SEEK_CUR:
-    // TODO: Check range.
-    fp->wp += *offset;
+    pos += fp->wp - (fp->unget_char != EOF ? 1 : 0);
     break;
   case SEEK_END:
-    // TODO: Check range.
-    fp->wp = fp->wcapa + *offset;
+    pos += fp->wcapa;
     break;
   }
+  if (pos < 0 || pos > (off_t)fp->wcapa)
+    return -1;
+  fp->wp = pos;
+  fp->flag &= ~FF_EOF;
   fp->unget_char = EOF;
+  *offset = pos;
   return 0;
 }
 
diff --git a/libsrc/stdio/fputs.c b/libsrc/stdio/fputs.c
index 0189ea1..f1df0e6 100644
--- a/libsrc/stdio/fputs.c
+++ b/libsrc/stdio/fputs.c
@@ -1,8 +1,8 @@
 #include "stdio.h"
 #include "string.h"
 
-// Result: Success => positive value, Failure => EOF
+// Result: Success => non-negative value, Failure => EOF
 int fputs(const char *s, FILE *fp) {
-  size_t result = fwrite(s, 1, strlen(s), fp);
-  return result != 0 ? result : EOF;
+  size_t len = strlen(s);
+  return fwrite(s, 1, len, fp) == len ? (int)len : EOF;
 }
diff --git a/libsrc/stdio/fread.c b/libsrc/stdio/fread.c
index 67e0876..fc6e564 100644
--- a/libsrc/stdio/fread.c
+++ b/libsrc/stdio/fread.c
@@ -5,6 +5,19 @@
 size_t fread(void *buffer, size_t size, size_t count, FILE *fp) {
   if (!(fp->flag & FF_READ))
     return 0;
-  ssize_t result = (fp->iof->read)(fp, buffer, size * count);
-  return result >= 0 ? result / size : 0;
+  size_t total = size * count;
+  if (total == 0)
+    return 0;
+  char *p = buffer;
+  int uc = fp->unget_char;
+  if (uc != EOF) {
+    fp->unget_char = EOF;
+    *p++ = uc;
+    if (--total == 0)
+      return 1;
+  }
+  ssize_t result = (fp->iof->read)(fp, p, total);
+  if (result < 0)
+    result = 0;
+  return (p - (char*)buffer + result) / size;
 }
diff --git a/libsrc/stdio/fseek.c b/libsrc/stdio/fseek.c
index 88f9c5a..f2786df 100644
--- a/libsrc/stdio/fseek.c
+++ b/libsrc/stdio/fseek.c
@@ -3,7 +3,8 @@
 #include "./_file.h"
 
 int fseek(FILE *fp, long offset, int origin) {
-  fflush(fp);
+  if (fflush(fp) != 0)
+    return -1;
   off_t o = offset;
   if ((fp->iof->seek)(fp, &o, origin) == -1)
     return -1;
diff --git a/libsrc/stdio/ftell.c b/libsrc/stdio/ftell.c
index a7cd849..395e1b5 100644
--- a/libsrc/stdio/ftell.c
+++ b/libsrc/stdio/ftell.c
@@ -1,9 +1,14 @@
 #include "stdio.h"
-#include "unistd.h"  // read
+#include "unistd.h"  // lseek
 
 #include "./_file.h"
 
 long ftell(FILE *fp) {
+  long unget = fp->unget_char != EOF ? 1 : 0;
+  if (fp->fd < 0)  // Memory stream.
+    return fp->wp - unget;
+  if (fp->wp > 0 && fflush(fp) != 0)
+    return -1;
   off_t result = lseek(fp->fd, 0, SEEK_CUR);
-  return result >= 0 ? result + fp->wp - (fp->rs - fp->rp) : result;
+  return result >= 0 ? result - (fp->rs - fp->rp) - unget : result;
 }
diff --git a/libsrc/stdio/fwrite.c b/libsrc/stdio/fwrite.c
index 29deac1..c401d5d 100644
--- a/libsrc/stdio/fwrite.c
+++ b/libsrc/stdio/fwrite.c
@@ -6,6 +6,8 @@
 size_t fwrite(const void *buffer, size_t size, size_t count, FILE *fp) {
   if (!(fp->flag & FF_WRITE))
     return 0;
+  if (size == 0 || count == 0)
+    return 0;
 
   ssize_t result = (fp->iof->write)(fp, buffer, size * count);
   return result >= 0 ? result / size : 0;
diff --git a/libsrc/stdio/open_memstream.c b/libsrc/stdio/open_memstream.c
index 3572977..a494e83 100644
--- a/libsrc/stdio/open_memstream.c
+++ b/libsrc/stdio/open_memstream.c
@@ -3,6 +3,8 @@
 #include "stdlib.h"
 #include "_file.h"
 
+#define INITIAL_SIZE  (16)
+
 extern void _fmemopen2(void *buf, size_t size, const char *mode, FILE *fp);
 
 typedef struct MEMFILE {
@@ -26,12 +28,16 @@ static int _memflush2(FILE *fp) {
 
 FILE *open_memstream(char **ptr, size_t *sizeloc) {
   MEMFILE *fp = calloc(1, sizeof(*fp));
-  if (fp != NULL) {
-    _fmemopen2(NULL, 0, "w", &fp->file);
-    fp->file.flush = _memflush2;
-    fp->file.flag |= FF_GROWMEM;
-    fp->pmem = ptr;
-    fp->psize = sizeloc;
+  char *buf = malloc(INITIAL_SIZE);
+  if (fp == NULL || buf == NULL) {
+    free(fp);
+    free(buf);
+    return NULL;
   }
+  _fmemopen2(buf, INITIAL_SIZE, "w", &fp->file);
+  fp->file.flush = _memflush2;
+  fp->file.flag |= FF_GROWMEM;
+  fp->pmem = ptr;
+  fp->psize = sizeloc;
   return &fp->file;
 }
diff --git a/libsrc/stdio/puts.c b/libsrc/stdio/puts.c
index d9d7f95..cf37784 100644
--- a/libsrc/stdio/puts.c
+++ b/libsrc/stdio/puts.c
@@ -1,7 +1,7 @@
 #include "stdio.h"
 #include "string.h"
 
-// Result: Success => positive value, Failure => EOF
+// Result: Success => non-negative value, Failure => EOF
 int puts(const char *s) {
   // gcc replaces `printf("%s\n", s);` into `puts(s)` so fail with infinite loop.
   int result = fputs(s, stdout);
diff --git a/libsrc/stdio/stdin.c b/libsrc/stdio/stdin.c
index 6690272..b80d27e 100644
--- a/libsrc/stdio/stdin.c
+++ b/libsrc/stdio/stdin.c
@@ -20,10 +20,11 @@ typedef struct OUTFILE {
 static int _fclose_std(void *cookie) {
   FILE *fp = cookie;
   // _remove_opened_file(fp);
-  (*fp->flush)(fp);
-  close(fp->fd);
+  int result = (*fp->flush)(fp);
+  if (close(fp->fd) < 0)
+    result = EOF;
   // free(fp);
-  return 0;
+  return result;
 }
 
 static const cookie_io_functions_t kIof = {
diff --git a/libsrc/stdio/ungetc.c b/libsrc/stdio/ungetc.c
index dbc8a9a..4f30262 100644
--- a/libsrc/stdio/ungetc.c
+++ b/libsrc/stdio/ungetc.c
@@ -3,9 +3,9 @@
 #include "./_file.h"
 
 int ungetc(int c, FILE *fp) {
-  if (!(fp->flag & FF_READ))
+  if (!(fp->flag & FF_READ) || c == EOF)
     return EOF;
-  fp->unget_char = c;
+  fp->unget_char = c = (unsigned char)c;
   fp->flag &= ~FF_EOF;
   return c;
 }
-- 
2.43.0


From 196764ca9696e97448814d4807669a04e33a85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 36/96] fix: wcc's va_copy marks its arguments as used

---
 src/wcc/gen_wasm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 10efbb4..5bdbe5a 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -2069,6 +2069,8 @@ static Expr *proc_builtin_va_copy(const Token *ident) {
   // (void)(dst = src)
   Expr *dst = args->data[0];
   Expr *src = args->data[1];
+  mark_var_used(dst);
+  mark_var_used(src);
   Expr *assign = new_expr_bop(EX_ASSIGN, dst->type, dst->token, dst, src);
   return new_expr_cast(&tyVoid, ident, assign);
 }
-- 
2.43.0


From 21557e4e370a526cec54a7903746a4f81378314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 37/96] fix: printf family handles all flags, widths,
 precisions, lengths and numbers, and reports write errors

---
 libsrc/stdio/vfprintf.c | 673 ++++++++++++++++++++++------------------
 1 file changed, 374 insertions(+), 299 deletions(-)

diff --git a/libsrc/stdio/vfprintf.c b/libsrc/stdio/vfprintf.c
index 177faa9..5216003 100644
--- a/libsrc/stdio/vfprintf.c
+++ b/libsrc/stdio/vfprintf.c
@@ -4,387 +4,462 @@
 #include "limits.h"
 #include "stdarg.h"
 #include "stdbool.h"
-#include "stdint.h"  // uintptr_t
+#include "stddef.h"  // ptrdiff_t
+#include "stdint.h"  // uintptr_t, intmax_t
 #include "string.h"
 #include "sys/types.h"
 
-#include "_file.h"  // _fputc
-
-#define PRINTF_BUFSIZ  (32)
 #define MIN(a, b)  ((a) < (b) ? (a) : (b))
-#define SIGN(p)  ((p) ? '+' : '-')
+#define MAX(a, b)  ((a) > (b) ? (a) : (b))
 #define STATIC_ASSERT(cond)  char __dummy[(cond) ? 0 : -1]; (void)__dummy
 
+// Conversion flags
+#define F_LEFT   (1 << 0)  // '-'
+#define F_SIGN   (1 << 1)  // '+'
+#define F_SPACE  (1 << 2)  // ' '
+#define F_ALT    (1 << 3)  // '#'
+#define F_ZERO   (1 << 4)  // '0'
+
+// Length modifiers
+enum {
+  L_NONE, L_CHAR, L_SHORT, L_LONG, L_LLONG, L_MAX, L_SIZE, L_PTRDIFF, L_LDOUBLE,
+};
+
+typedef struct {
+  FILE *fp;
+  int count;   // Number of characters.
+  bool error;  // Write error occurred.
+} Output;
+
+typedef struct {
+  int flags;
+  int width;
+  int prec;  // Negative if omitted.
+  int length;
+  int c;
+} Spec;
+
 static const char kHexDigits[] = "0123456789abcdef";
 static const char kUpperHexDigits[] = "0123456789ABCDEF";
 
-static int putnstr(FILE *fp, int n, const char *s) {
-  int i;
-  for (i = 0; i < n && s[i] != '\0'; ++i)
-    ;
-  return fwrite(s, 1, i, fp);
+static void putstr(Output *out, const char *s, int n) {
+  if (n <= 0)
+    return;
+  if ((int)fwrite(s, 1, n, out->fp) != n)
+    out->error = true;
+  out->count += n;
 }
 
-static void putpadding(FILE *fp, int m, char padding) {
-  if (m <= 0)
-    return;
+static void putpadding(Output *out, char padding, int n) {
   char buf[16];
-  int n = MIN(m, (int)sizeof(buf));
-  memset(buf, padding, n);
-  do {
-    int i = MIN(m, n);
-    fwrite(buf, 1, i, fp);
-    m -= i;
-  } while (m > 0);
+  if (n <= 0)
+    return;
+  memset(buf, padding, sizeof(buf));
+  for (; n > 0; n -= sizeof(buf))
+    putstr(out, buf, MIN(n, (int)sizeof(buf)));
 }
 
-static int snprintullong(FILE *fp, unsigned long long x, int base, const char *digits, int order,
-                         int padding) {
-  char buf[32];
-  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
-  unsigned int i = 0, o = 0;
-
-  do {
-    buf[sizeof(buf) - (++i)] = digits[x % base];
-    x /= base;
-  } while (x != 0);
+// Output spaces or the prefix and zeros which precede `len` characters.
+static void putprefix(Output *out, const Spec *spec, const char *prefix, int len, bool zero) {
+  int prefix_len = strlen(prefix);
+  int padding = spec->width - prefix_len - len;
+  if (!zero && !(spec->flags & F_LEFT))
+    putpadding(out, ' ', padding);
+  putstr(out, prefix, prefix_len);
+  if (zero)
+    putpadding(out, '0', padding);
+}
 
-  if (i < (unsigned int)order) {
-    unsigned int d = (unsigned int)order - i;
-    putpadding(fp, d, padding);
-    o += d;
-  }
-  return o + fwrite(&buf[sizeof(buf) - i], 1, i, fp);
+// Output spaces which follow all characters since `start`.
+static void putsuffix(Output *out, const Spec *spec, int start) {
+  if (spec->flags & F_LEFT)
+    putpadding(out, ' ', spec->width - (out->count - start));
 }
 
-static char *snprintullong2(char *bufend, unsigned long long x, int base, const char *digits) {
-  char *p = bufend;
-  *(--p) = '\0';
-  do {
-    *(--p) = digits[x % base];
-    x /= base;
-  } while (x != 0);
-  return p;
+static const char *sign_prefix(const Spec *spec, bool negative) {
+  return negative ? "-" : (spec->flags & F_SIGN) ? "+" : (spec->flags & F_SPACE) ? " " : "";
 }
 
-static int snprintstr(FILE *fp, const char *s, int order, int suborder, bool leftalign,
-                      char padding) {
-  size_t len = strlen(s);
-  if (suborder > 0)
-    len = MIN(len, (unsigned int)suborder);
-  if (order <= 0 || len >= (unsigned int)order) {
-    putnstr(fp, len, s);
-    return len;
-  } else {
-    if (leftalign) {
-      putnstr(fp, len, s);
-      putpadding(fp, order - len, padding);
-    } else {
-      putpadding(fp, order - len, padding);
-      putnstr(fp, len, s);
-    }
-    return order;
-  }
+static void printint(Output *out, const Spec *spec, const char *prefix, unsigned long long x,
+                     int base, const char *digits) {
+  char buf[32];
+  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
+  int start = out->count;
+  int n = 0;
+  for (; x != 0; x /= base)
+    buf[sizeof(buf) - (++n)] = digits[x % base];
+
+  int order = MAX(n, spec->prec < 0 ? 1 : spec->prec);
+  if (base == 8 && (spec->flags & F_ALT) && order == n)
+    ++order;  // Alternative form of octal: the first digit is zero.
+  putprefix(out, spec, prefix, order,
+            (spec->flags & (F_ZERO | F_LEFT)) == F_ZERO && spec->prec < 0);
+  putpadding(out, '0', order - n);
+  putstr(out, &buf[sizeof(buf) - n], n);
+  putsuffix(out, spec, start);
 }
 
-static int sprintsign(FILE *fp, bool negative, bool force, int *porder) {
-  int o = 0;
-  if (negative) {
-    _fputc('-', fp);
-    ++o;
-  } else if (force) {
-    _fputc('+', fp);
-    ++o;
-  }
-  if (*porder > 1 && o > 0)
-    *porder -= o;
-  return o;
+static void printstr(Output *out, const Spec *spec, const char *s, int n) {
+  int start = out->count;
+  putprefix(out, spec, "", n, false);
+  putstr(out, s, n);
+  putsuffix(out, spec, start);
 }
 
 #ifndef __NO_FLONUM
 #include "math.h"  // isfinite, signbit
+#include "../math/_ieee.h"
+
+#define RADIX         (1000000000)
+#define RADIX_DIGITS  (9)
+#define INT_WORDS     (35)   // 2^1024 < 10^(35*9)
+#define FRAC_WORDS    (120)  // 2^-1074 has 1074 decimal digits, < 120*9
+#define MAX_DIGITS    ((INT_WORDS + FRAC_WORDS) * RADIX_DIGITS)
+
+// 0.{digits} * 10^point, without leading and trailing zeros.
+typedef struct {
+  int len, point;
+  char digits[MAX_DIGITS + 1];
+} Decimal;
 
-static long double pow10(int order) {
-  long double a = 1, x = 10;
-  for (; order > 0; order >>= 1) {
-    if ((order & 1) != 0)
-      a *= x;
-    x *= x;
+// Convert finite and non-negative number to decimal, exactly.
+static void to_decimal(double x, Decimal *dec) {
+  uint32_t words[INT_WORDS + FRAC_WORDS];
+  memset(words, 0, sizeof(words));
+
+  int64_t hex = *(int64_t*)&x;
+  uint64_t mant = hex & FRAC_MASK;
+  int expo = GET_BIASED_EXPO(hex);
+  if (expo > 0)
+    mant |= (uint64_t)1 << FRAC_BIT;
+  else
+    expo = 1;
+  expo -= EXPO_BIAS + 1 + FRAC_BIT;
+  words[INT_WORDS - 1] = mant % RADIX;
+  words[INT_WORDS - 2] = mant / RADIX;
+
+  for (; expo > 0; ) {
+    int k = MIN(expo, 29);
+    uint64_t carry = 0;
+    for (int i = INT_WORDS; --i >= 0; ) {
+      carry += (uint64_t)words[i] << k;
+      words[i] = carry % RADIX;
+      carry /= RADIX;
+    }
+    expo -= k;
+  }
+  for (; expo < 0; ) {
+    int k = MIN(-expo, 29);
+    uint64_t rest = 0;
+    for (int i = 0; i < INT_WORDS + FRAC_WORDS; ++i) {
+      rest = rest * RADIX + words[i];
+      words[i] = rest >> k;
+      rest &= ((uint64_t)1 << k) - 1;
+    }
+    expo += k;
   }
-  return a;
-}
 
-static int printnonfinite(FILE *fp, long double x, int order, int suborder, bool sign,
-                          bool leftalign) {
-  int o = sprintsign(fp, signbit(x), sign, &order);
-  return o + snprintstr(fp, isnan(x) ? "nan" : "inf", order, suborder, leftalign, ' ');
+  char buf[RADIX_DIGITS];
+  dec->len = 0;
+  dec->point = 0;
+  for (int i = 0; i < INT_WORDS + FRAC_WORDS; ++i) {
+    uint32_t w = words[i];
+    for (int j = RADIX_DIGITS; --j >= 0; w /= 10)
+      buf[j] = '0' + w % 10;
+    for (int j = 0; j < RADIX_DIGITS; ++j) {
+      if (dec->len == 0 && buf[j] == '0')
+        continue;
+      if (dec->len == 0)
+        dec->point = INT_WORDS * RADIX_DIGITS - (i * RADIX_DIGITS + j);
+      dec->digits[dec->len++] = buf[j];
+    }
+  }
+  for (; dec->len > 0 && dec->digits[dec->len - 1] == '0'; --dec->len)
+    ;
 }
 
-static int printfloat(FILE *fp, long double x, int order, int suborder, bool sign, bool leftalign,
-                      char padding) {
-  if (!isfinite(x))
-    return printnonfinite(fp, x, order, suborder, sign, leftalign);
-
-  bool neg = signbit(x);
-  if (neg)
-    x = -x;
-  int o = sprintsign(fp, neg, sign, &order);
-
-  unsigned long long int_part = x;
-  suborder = suborder > 0 ? suborder : 6;
-  long double one = pow10(suborder);
-  unsigned long long fraction = (x - int_part) * one + 0.5;
-  if (fraction >= one) {
-    ++int_part;
-    fraction -= one;
+// Leave first `n` digits, round half to even.
+static void round_decimal(Decimal *dec, int n) {
+  if (n >= dec->len)
+    return;
+  if (n < 0) {
+    dec->len = 0;
+    return;
+  }
+  char *d = dec->digits;
+  bool up = d[n] > '5' || (d[n] == '5' && (dec->len > n + 1 || (n > 0 && (d[n - 1] & 1) != 0)));
+  dec->len = n;
+  if (up) {
+    for (; n > 0 && d[n - 1] == '9'; --n)
+      ;
+    if (n > 0) {
+      ++d[n - 1];
+    } else {
+      d[n++] = '1';
+      ++dec->point;
+    }
+    dec->len = n;
   }
-  o += snprintullong(fp, int_part, 10, kHexDigits, order, padding);
-  _fputc('.', fp); ++o;
-  o += snprintullong(fp, fraction, 10, kHexDigits, suborder, '0');
-  return o;
+  for (; dec->len > 0 && d[dec->len - 1] == '0'; --dec->len)
+    ;
 }
 
-static int normalize_float(long double *px) {
-  long double x = *px;
-  int exp = 0;
-  if (x >= 1e6) {
-    do {
-      x /= 10;
-      ++exp;
-    } while (x >= 10);
+// Output digits in [pos, pos+n), where digits out of range are zero.
+static void putdigits(Output *out, const Decimal *dec, int pos, int n) {
+  if (pos < 0) {
+    int z = MIN(-pos, n);
+    putpadding(out, '0', z);
+    pos += z;
+    n -= z;
   }
-  if (x > 0 && x <= 1e-4) {
-    do {
-      x *= 10;
-      --exp;
-    } while (x < 1.0);
+  int m = MIN(n, dec->len - pos);
+  if (m > 0) {
+    putstr(out, dec->digits + pos, m);
+    n -= m;
   }
-  *px = x;
-  return exp;
+  putpadding(out, '0', n);
 }
 
-static int printscientific(FILE *fp, long double x, int order, int suborder, bool sign,
-                           bool leftalign, char padding) {
-  if (!isfinite(x))
-    return printnonfinite(fp, x, order, suborder, sign, leftalign);
-
-  bool neg = signbit(x);
-  if (neg)
-    x = -x;
-  int o = sprintsign(fp, neg, sign, &order);
-
-  int e = normalize_float(&x);
-  unsigned long long int_part = x;
-  suborder = suborder > 0 ? suborder : 6;
-  long double one = pow10(suborder);
-  unsigned long long fraction = (x - int_part) * one + 0.5;
-  if (fraction >= one) {
-    ++int_part;
-    fraction -= one;
-  }
-  while (fraction % 10 == 0 && suborder > 0) {
-    fraction /= 10;
-    --suborder;
+static void printfloat(Output *out, const Spec *spec, double x) {
+  int start = out->count;
+  bool upper = isupper(spec->c);
+  const char *prefix = sign_prefix(spec, signbit(x));
+  if (!isfinite(x)) {
+    putprefix(out, spec, prefix, 3, false);
+    putstr(out, isnan(x) ? (upper ? "NAN" : "nan") : (upper ? "INF" : "inf"), 3);
+    putsuffix(out, spec, start);
+    return;
   }
-  o += snprintullong(fp, int_part, 10, kHexDigits, order, padding);
-  if (fraction != 0) {
-    _fputc('.', fp); ++o;
-    o += snprintullong(fp, fraction, 10, kHexDigits, suborder, '0');
+
+  Decimal dec;
+  to_decimal(signbit(x) ? -x : x, &dec);
+
+  char style = tolower(spec->c);
+  int prec = spec->prec < 0 ? 6 : spec->prec;
+  if (style == 'g') {
+    if (prec == 0)
+      prec = 1;
+    round_decimal(&dec, prec);
+    int e = dec.len > 0 ? dec.point - 1 : 0;
+    if (e < -4 || e >= prec) {
+      style = 'e';
+      prec -= 1;
+      if (!(spec->flags & F_ALT))
+        prec = MIN(prec, MAX(dec.len - 1, 0));
+    } else {
+      style = 'f';
+      prec -= e + 1;
+      if (!(spec->flags & F_ALT))
+        prec = MIN(prec, MAX(dec.len - e - 1, 0));
+    }
+  } else {
+    round_decimal(&dec, style == 'f' ? dec.point + prec : 1 + prec);
   }
 
-  if (e != 0) {
-    _fputc('e', fp); ++o;
-    o += sprintsign(fp, e < 0, true, &order);
-    e = e < 0 ? -e : e;
-    o += snprintullong(fp, e, 10, kHexDigits, 2, '0');
+  int point = prec > 0 || (spec->flags & F_ALT) ? 1 : 0;
+  int int_len = 1;
+  char exp_buf[8];
+  int exp_len = 0;
+  if (style == 'f') {
+    if (dec.len == 0)
+      dec.point = 0;
+    int_len = MAX(dec.point, 1);
+  } else {
+    int e = dec.len > 0 ? dec.point - 1 : 0;
+    exp_buf[exp_len++] = upper ? 'E' : 'e';
+    exp_buf[exp_len++] = e < 0 ? '-' : '+';
+    if (e < 0)
+      e = -e;
+    if (e >= 100)
+      exp_buf[exp_len++] = '0' + e / 100;
+    exp_buf[exp_len++] = '0' + e / 10 % 10;
+    exp_buf[exp_len++] = '0' + e % 10;
+    dec.point = 1;
   }
-  return o;
+
+  putprefix(out, spec, prefix, int_len + point + prec + exp_len,
+            (spec->flags & (F_ZERO | F_LEFT)) == F_ZERO);
+  putdigits(out, &dec, dec.point - int_len, int_len);
+  putstr(out, ".", point);
+  putdigits(out, &dec, dec.point, prec);
+  putstr(out, exp_buf, exp_len);
+  putsuffix(out, spec, start);
 }
 #endif
 
-int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
-  char buf[PRINTF_BUFSIZ];
-#define bufend  (buf + sizeof(buf))
-  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
+// va_list might be an array type, so wrap to be able to pass its pointer.
+typedef struct {
+  va_list ap;
+} Args;
 
-  const unsigned char *fmt = (const unsigned char*)fmt_;
-  int c, i;
-  int o;
+static long long signed_arg(Args *args, int length) {
+  switch (length) {
+  case L_CHAR:     return (signed char)va_arg(args->ap, int);
+  case L_SHORT:    return (short)va_arg(args->ap, int);
+  case L_LONG:     return va_arg(args->ap, long);
+  case L_LDOUBLE:  // Fallthrough
+  case L_LLONG:    return va_arg(args->ap, long long);
+  case L_MAX:      return va_arg(args->ap, intmax_t);
+  case L_SIZE:     return va_arg(args->ap, ssize_t);
+  case L_PTRDIFF:  return va_arg(args->ap, ptrdiff_t);
+  default:         return va_arg(args->ap, int);
+  }
+}
 
-  for (i = o = 0; fmt[i] != '\0'; i++) {
-    c = fmt[i];
-    if (c != '%') {
-      _fputc(c, fp);
-      ++o;
-      continue;
-    }
+static unsigned long long unsigned_arg(Args *args, int length) {
+  switch (length) {
+  case L_CHAR:     return (unsigned char)va_arg(args->ap, unsigned int);
+  case L_SHORT:    return (unsigned short)va_arg(args->ap, unsigned int);
+  case L_LONG:     return va_arg(args->ap, unsigned long);
+  case L_LDOUBLE:  // Fallthrough
+  case L_LLONG:    return va_arg(args->ap, unsigned long long);
+  case L_MAX:      return va_arg(args->ap, uintmax_t);
+  case L_SIZE:     return va_arg(args->ap, size_t);
+  case L_PTRDIFF:  return (size_t)va_arg(args->ap, ptrdiff_t);
+  default:         return va_arg(args->ap, unsigned int);
+  }
+}
 
-    // Handle '%'
-    char padding = ' ';
-    int order = 0, suborder = 0;
-    bool sign = false;
-    bool leftalign = false;
-    bool sizez = false;
-    int nlong = 0;
-    c = fmt[++i];
-
-    if (c == '+') {
-      sign = true;
-      c = fmt[++i];
-    } else if (c == '-') {
-      leftalign = true;
-      c = fmt[++i];
-    }
-    if (c == '0') {
-      padding = '0';
-      c = fmt[++i];
-    }
-    if (c >= '1' && c <= '9') {
-      order = c - '0';
-      while (c = fmt[++i], c >= '0' && c <= '9')
-        order = order * 10 + (c - '0');
-    } else if (c == '*') {
-      order = va_arg(ap, int);
-      c = fmt[++i];
+static const char *parse_number(const char *fmt, Args *args, int *pvalue) {
+  if (*fmt == '*') {
+    *pvalue = va_arg(args->ap, int);
+    return fmt + 1;
+  }
+  int n = 0;
+  for (; isdigit((unsigned char)*fmt); ++fmt)
+    n = n * 10 + (*fmt - '0');
+  *pvalue = n;
+  return fmt;
+}
+
+static const char *parse_spec(const char *fmt, Args *args, Spec *spec) {
+  static const char kFlags[] = "-+ #0";  // Same order as F_*
+
+  spec->flags = 0;
+  for (const char *p; *fmt != '\0' && (p = strchr(kFlags, *fmt)) != NULL; ++fmt)
+    spec->flags |= 1 << (int)(p - kFlags);
+
+  fmt = parse_number(fmt, args, &spec->width);
+  if (spec->width < 0) {
+    spec->flags |= F_LEFT;
+    spec->width = -spec->width;
+  }
+
+  spec->prec = -1;
+  if (*fmt == '.')
+    fmt = parse_number(fmt + 1, args, &spec->prec);
+
+  int length = L_NONE;
+  switch (*fmt) {
+  case 'h':
+    length = L_SHORT;
+    if (*++fmt == 'h') {
+      length = L_CHAR;
+      ++fmt;
     }
-    if (c == '.') {
-      c = fmt[++i];
-      if (isdigit(c)) {
-        do {
-          suborder = suborder * 10 + (c - '0');
-        } while (isdigit(c = fmt[++i]));
-      } else if (c == '*') {
-        suborder = va_arg(ap, int);
-        c = fmt[++i];
-      }
+    break;
+  case 'l':
+    length = L_LONG;
+    if (*++fmt == 'l') {
+      length = L_LLONG;
+      ++fmt;
     }
+    break;
+  case 'L':  length = L_LDOUBLE; ++fmt; break;
+  case 'j':  length = L_MAX; ++fmt; break;
+  case 'z':  length = L_SIZE; ++fmt; break;
+  case 't':  length = L_PTRDIFF; ++fmt; break;
+  default: break;
+  }
+  spec->length = length;
+  spec->c = (unsigned char)*fmt;
+  return fmt;
+}
 
-    if (tolower(c) == 'l') {
-      nlong = 1;
-      c = fmt[++i];
-      if (tolower(c) == 'l') {
-        nlong = 2;
-        c = fmt[++i];
-      }
-    } else if (c == 'z') {
-      sizez = true;
-      c = fmt[++i];
+int vfprintf(FILE *fp, const char *fmt, va_list ap) {
+  Output out = {.fp = fp, .count = 0, .error = false};
+  Args args;
+  va_copy(args.ap, ap);
+
+  for (; *fmt != '\0'; ++fmt) {
+    if (*fmt != '%') {
+      const char *start = fmt;
+      while (fmt[1] != '\0' && fmt[1] != '%')
+        ++fmt;
+      putstr(&out, start, fmt + 1 - start);
+      continue;
     }
 
-    switch (c) {
-    case 'd':
+    // Handle '%'
+    Spec spec;
+    fmt = parse_spec(fmt + 1, &args, &spec);
+    switch (spec.c) {
+    case 'd': case 'i':
       {
-        long long x;
-        if (sizez) {
-          x = va_arg(ap, ssize_t);
-        } else {
-          switch (nlong) {
-          case 0:  x = va_arg(ap, int); break;
-          case 1:  x = va_arg(ap, long); break;
-          default: x = va_arg(ap, long long); break;  // case 2:
-          }
-        }
-        bool negative = x < 0;
-        unsigned long long ux = negative ? -x : x;
-        if (negative || order > 0 || sign)
-          o += sprintsign(fp, negative, sign, &order);
-        char *p = snprintullong2(bufend, ux, 10, kHexDigits);
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
+        long long x = signed_arg(&args, spec.length);
+        unsigned long long ux = x;
+        printint(&out, &spec, sign_prefix(&spec, x < 0), x < 0 ? -ux : ux, 10, kHexDigits);
       }
       break;
     case 'u':
-      {
-        unsigned long long x;
-        if (sizez) {
-          x = va_arg(ap, size_t);
-        } else {
-          switch (nlong) {
-          case 0:  x = va_arg(ap, unsigned int); break;
-          case 1:  x = va_arg(ap, unsigned long); break;
-          default: x = va_arg(ap, unsigned long long); break;  // case 2:
-          }
-        }
-        char *p = snprintullong2(bufend, x, 10, kHexDigits);
-        if (sign)
-          *(--p) = '+';
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
-      }
+      printint(&out, &spec, "", unsigned_arg(&args, spec.length), 10, kHexDigits);
+      break;
+    case 'o':
+      printint(&out, &spec, "", unsigned_arg(&args, spec.length), 8, kHexDigits);
       break;
     case 'x': case 'X':
       {
-        const char *digits = c == 'x' ? kHexDigits : kUpperHexDigits;
-        unsigned long long x;
-        if (sizez) {
-          x = va_arg(ap, size_t);
-        } else {
-          switch (nlong) {
-          case 0:  x = va_arg(ap, unsigned int); break;
-          case 1:  x = va_arg(ap, unsigned long); break;
-          default: x = va_arg(ap, unsigned long long); break;  // case 2:
-          }
-        }
-        o += snprintullong(fp, x, 16, digits, order, padding);
+        unsigned long long x = unsigned_arg(&args, spec.length);
+        const char *prefix = !(spec.flags & F_ALT) || x == 0 ? "" : spec.c == 'x' ? "0x" : "0X";
+        printint(&out, &spec, prefix, x, 16, spec.c == 'x' ? kHexDigits : kUpperHexDigits);
       }
       break;
     case 'p':
-      {
-        void *ptr = va_arg(ap, void*);
-        char *p = snprintullong2(bufend, (uintptr_t)ptr, 16, kHexDigits);
-        p -= 2;
-        p[0] = '0';
-        p[1] = 'x';
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
-      }
+      printint(&out, &spec, "0x", (uintptr_t)va_arg(args.ap, void*), 16, kHexDigits);
       break;
     case 's':
       {
-        const char *s = va_arg(ap, const char*);
+        const char *s = va_arg(args.ap, const char*);
         if (s == NULL)
           s = "(null)";
-        o += snprintstr(fp, s, order, suborder, leftalign, ' ');
+        int n = 0;
+        while ((spec.prec < 0 || n < spec.prec) && s[n] != '\0')
+          ++n;
+        printstr(&out, &spec, s, n);
       }
       break;
     case 'c':
-      _fputc(va_arg(ap, unsigned int), fp);
-      ++o;
+      {
+        char ch = va_arg(args.ap, int);
+        printstr(&out, &spec, &ch, 1);
+      }
       break;
     case '%':
-      _fputc(c, fp);
-      ++o;
+      putstr(&out, "%", 1);
       break;
 #ifndef __NO_FLONUM
-    case 'f':
+    case 'f': case 'F': case 'e': case 'E': case 'g': case 'G':
       {
-        long double x;
-        switch (nlong) {
-        case 0:  x = va_arg(ap, double); break;
-        default: x = va_arg(ap, long double); break;
-        }
-        o += printfloat(fp, x, order, suborder, sign, leftalign, padding);
-      }
-      break;
-    case 'g':
-      {
-        long double x;
-        switch (nlong) {
-        case 0:  x = va_arg(ap, double); break;
-        default: x = va_arg(ap, long double); break;
-        }
-        o += printscientific(fp, x, order, suborder, sign, leftalign, padding);
+        double x;
+        if (spec.length == L_LDOUBLE)
+          x = va_arg(args.ap, long double);
+        else
+          x = va_arg(args.ap, double);
+        printfloat(&out, &spec, x);
       }
       break;
 #endif
     default:
       // Unknown % sequence.  Print it to draw attention.
-      _fputc('%', fp);
-      ++o;
-      if (c != '\0') {
-        _fputc(c, fp);
-        ++o;
-      }
+      putstr(&out, "%", 1);
+      if (spec.c == '\0')
+        --fmt;
+      else
+        putstr(&out, fmt, 1);
       break;
     }
   }
 
-  return o;
+  va_end(args.ap);
+  return out.error ? -1 : out.count;
 }
-- 
2.43.0


From 10af49a359874a53b065bf90ada56ee63e051803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:14 +0000
Subject: [PATCH 38/96] fix: wcc's increments, floating comparisons, switches
 and shifts of narrow or extreme values

---
 src/cc/frontend/fe_misc.c |  3 ++-
 src/wcc/gen_wasm.c        | 36 +++++++++++++++++++++++++++---------
 src/wcc/traverse.c        | 14 ++++++++++++--
 3 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 363dad9..8938d0c 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1584,7 +1584,8 @@ static Expr *calc_assign_with(const Token *tok, Expr *lhs, Expr *rhs) {
       if (!is_fixnum(ltype->kind) || !is_fixnum(rtype->kind))
         parse_error(PE_FATAL, tok, "Cannot use `%.*s' except numbers.",
                     (int)(tok->end - tok->begin), tok->begin);
-      return new_expr_bop(kind, ltype, tok, lhs, rhs);
+      lhs = promote_to_int(lhs);
+      return new_expr_bop(kind, lhs->type, tok, lhs, rhs);
     }
   }
 }
diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 5bdbe5a..e282897 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -760,7 +760,7 @@ static void gen_incdec(Expr *expr, bool needval) {
         int i1 = wtype == WT_I32 ? 0 : 1;
         int i2 = IS_DEC(expr) ? 2 : 0;
         ADD_CODE(CONST_OP[i1]);
-        ADD_ULEB128(addend);
+        ADD_LEB128(addend);
         ADD_CODE(ADDSUB_OP[i1 | i2]);
 
         if (type_size(type) < type_size(&tyInt))
@@ -1069,10 +1069,17 @@ static void gen_cond(Expr *cond, bool tf, bool needval) {
   case EX_LE:
   case EX_GE:
     if (!tf) {
-      if (ck <= EX_NE)
+      if (ck <= EX_NE) {
         ck = (EX_EQ + EX_NE) - ck;
-      else
+      } else if (is_flonum(cond->bop.lhs->type)) {
+        // The opposite order is not the negation for NaN.
+        gen_compare_expr(ck, cond->bop.lhs, cond->bop.rhs, needval);
+        if (needval)
+          ADD_CODE(OP_I32_EQZ);
+        break;
+      } else {
         ck = EX_LT + ((ck - EX_LT) ^ 2);
+      }
     }
     gen_compare_expr(ck, cond->bop.lhs, cond->bop.rhs, needval);
     break;
@@ -1127,11 +1134,22 @@ static void gen_switch_table_jump(Stmt *stmt, Expr *value, Fixnum min, Fixnum ma
     }
   }
 
-  gen_expr(value, true);
   bool is_i64 = type_size(value->type) > I32_SIZE;
+  if (is_i64) {
+    // Upper bits are lost in the table index, so check the range beforehand.
+    gen_expr(value, true);
+    ADD_CODE(OP_I64_CONST);
+    ADD_LEB128(min);
+    ADD_CODE(OP_I64_SUB, OP_I64_CONST);
+    ADD_LEB128(vrange);
+    ADD_CODE(OP_I64_GE_U, OP_BR_IF);
+    ADD_ULEB128(default_index);
+  }
+
+  gen_expr(value, true);
   if (min != 0) {
     ADD_CODE(is_i64 ? OP_I64_CONST : OP_I32_CONST);
-    ADD_LEB128(min);
+    ADD_LEB128(is_i64 ? min : (int32_t)min);
     ADD_CODE(is_i64 ? OP_I64_SUB : OP_I32_SUB);
   }
   if (is_i64)
@@ -1190,8 +1208,8 @@ static void gen_switch(Stmt *stmt) {
   assert(is_fixnum(value->type->kind));
 
   int default_index = block_count;
-  Fixnum min = INTPTR_MAX;
-  Fixnum max = INTPTR_MIN;
+  Fixnum min = INT64_MAX;
+  Fixnum max = INT64_MIN;
   for (int i = 0; i < case_count; ++i) {
     Stmt *c = cases->data[i];
     if (c->case_.value == NULL) {
@@ -1207,7 +1225,7 @@ static void gen_switch(Stmt *stmt) {
       max = v;
   }
 
-  if (case_count >= 4 && (max - min) / 2 <= case_count) {
+  if (case_count >= 4 && ((UFixnum)max - (UFixnum)min) / 2 <= (UFixnum)case_count) {
     gen_switch_table_jump(stmt, value, min, max, default_index);
   } else {
     bool is_i64 = type_size(value->type) > I32_SIZE;
@@ -1219,7 +1237,7 @@ static void gen_switch(Stmt *stmt) {
         continue;
       gen_expr(value, true);
       ADD_CODE(op_const);
-      ADD_LEB128(c->case_.value->fixnum);
+      ADD_LEB128(is_i64 ? c->case_.value->fixnum : (int32_t)c->case_.value->fixnum);
       ADD_CODE(op_eq, OP_BR_IF);
       int index = c->case_.block_index;
       if (index < 0)
diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index a3094b3..4e8b6b7 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -424,10 +424,20 @@ static void te_incdec(Expr **pexpr, bool needval) {
                                    : type->kind == TY_FLONUM ? new_expr_flolit(type, token, 1)
 #endif
                                                              : new_expr_fixlit(type, token, 1);
+  Expr *operand = post ? tmp : deref_p;
+  Expr *result;
+  if (is_fixnum(type->kind) && type_size(type) < type_size(&tyInt)) {
+    // Calculate in int, and wrap the result.
+    result = new_expr_cast(type, token,
+                           new_expr_bop(op, &tyInt, token, new_expr_cast(&tyInt, token, operand),
+                                        new_expr_fixlit(&tyInt, token, 1)));
+  } else {
+    result = new_expr_bop(op, type, token, operand, one);
+  }
   Expr *assign_tmp = new_expr_bop(EX_ASSIGN, &tyVoid, token, tmp,
-                                  !post ? new_expr_bop(op, type, token, deref_p, one) : deref_p);
+                                  !post ? result : deref_p);
   Expr *assign_deref_p = new_expr_bop(EX_ASSIGN, &tyVoid, token, deref_p,
-                                      !post ? tmp : new_expr_bop(op, type, token, tmp, one));
+                                      !post ? tmp : result);
 
   *pexpr = new_expr_bop(EX_COMMA, type, token, assign_p,
                         new_expr_bop(EX_COMMA, type, token, assign_tmp,
-- 
2.43.0


From 4d0b645f1610810d0c76cc02551b8dfae76bb350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:08 +0000
Subject: [PATCH 39/96] fix: va_start accounts for struct parameters and the
 struct result pointer

---
 src/cc/builtin.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cc/builtin.c b/src/cc/builtin.c
index 8be2b3e..c212f92 100644
--- a/src/cc/builtin.c
+++ b/src/cc/builtin.c
@@ -226,15 +226,18 @@ static VReg *gen_builtin_va_start(Expr *expr) {
     return NULL;
   }
 
-  int gn = 0, fn = 0;
+  FuncBackend *fnbe = curfunc->extra;
+  int gn = fnbe->retval != NULL ? 1 : 0;  // The pointer to a struct result takes a register.
+  int fn = 0;
+  size_t stack_param_size = 0;
   for (int i = 0; i < params->len; ++i) {
     VarInfo *info = params->data[i];
     const Type *t = info->type;
-    if (t->kind != TY_STRUCT) {
-      if (is_flonum(t))
-        ++fn;
-      else
-        ++gn;
+    if (t->kind == TY_STRUCT) {
+      stack_param_size = ALIGN(stack_param_size, align_size(t)) +
+                         ALIGN(type_size(t), TARGET_POINTER_SIZE);
+    } else if (is_flonum(t) ? fn++ >= MAX_FREG_ARGS : gn++ >= MAX_REG_ARGS) {
+      stack_param_size += TARGET_POINTER_SIZE;
     }
   }
 
@@ -258,13 +261,10 @@ static VReg *gen_builtin_va_start(Expr *expr) {
     VReg *overflow_arg_area = new_ir_bop(
         IR_ADD, ap, new_const_vreg(type_size(&tyInt) + type_size(&tyInt), vsize), vsize,
         IRF_UNSIGNED);
-    FuncBackend *fnbe = curfunc->extra;
     FrameInfo *fi = &fnbe->vaarg_frame_info;
     VReg *p = new_ir_bofs(fi)->dst;
-    int gs = MAX(gn - MAX_REG_ARGS, 0), fs = MAX(fn - MAX_FREG_ARGS, 0);
-    if (gs > 0 || fs > 0) {
-      p = new_ir_bop(IR_ADD, p, new_const_vreg((gs + fs) * TARGET_POINTER_SIZE, vsize), vsize,
-                     IRF_UNSIGNED);
+    if (stack_param_size > 0) {
+      p = new_ir_bop(IR_ADD, p, new_const_vreg(stack_param_size, vsize), vsize, IRF_UNSIGNED);
     }
     new_ir_store(overflow_arg_area, p, 0);
   }
-- 
2.43.0


From 11606898d9a3e82eb426fccc13d184f50a665292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:07 +0000
Subject: [PATCH 40/96] fix: wcc passes structs to variadic functions and
 places struct parameters by alignment

---
 src/wcc/gen_wasm.c | 26 ++++++++++++++++++++++----
 src/wcc/traverse.c |  3 ++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index e282897..591f001 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -300,8 +300,9 @@ static void gen_funcall(Expr *expr) {
   for (int i = 0; i < param_count; ++i) {
     Expr *arg = args->data[i];
     if (is_stack_param(arg->type))
-      sarg_siz += ALIGN(type_size(arg->type), 4);
+      sarg_siz = ALIGN(sarg_siz, align_size(arg->type)) + type_size(arg->type);
   }
+  sarg_siz = ALIGN(sarg_siz, 4);
 
   size_t vaarg_bufsiz = 0;
   if (functype->func.vaargs) {
@@ -373,7 +374,6 @@ static void gen_funcall(Expr *expr) {
         sarg_offset += size;
       }
     } else {
-      assert(!is_stack_param(arg->type));
       // *(global.sp + sarg_siz + vaarg_offset) = arg
       size_t offset = sarg_siz + vaarg_offset;
       if (offset != 0) {
@@ -388,13 +388,24 @@ static void gen_funcall(Expr *expr) {
       vaarg_offset += type_size(t);
 
       gen_expr(arg, true);
-      gen_store(t);
+      if (!is_stack_param(t)) {
+        gen_store(t);
+      } else {
+        ADD_CODE(OP_I32_CONST);
+        ADD_LEB128(type_size(t));
+        ADD_CODE(OP_0xFC, OPFC_MEMORY_COPY, 0, 0);  // src, dst
+      }
     }
   }
   if (functype->func.vaargs) {
     // Top of vaargs.
     if (vaarg_bufsiz > 0) {
       gen_expr(lspvar, true);
+      if (sarg_siz > 0) {
+        ADD_CODE(OP_I32_CONST);
+        ADD_LEB128(sarg_siz);
+        ADD_CODE(OP_I32_ADD);
+      }
     } else {
       ADD_CODE(OP_I32_CONST, 0);  // NULL
     }
@@ -1687,8 +1698,15 @@ static void gen_defun(Function *func) {
     assert(varinfo != NULL);
     VReg *vreg = varinfo->local.vreg;
     assert(vreg != NULL);
+    // The pointer follows the result pointer and parameters passed by value.
+    const Vector *params = functype->func.params;
+    int va_index = functype->func.ret->kind != TY_VOID && !is_prim_type(functype->func.ret) ? 1 : 0;
+    for (int i = 0; i < params->len; ++i) {
+      if (!is_stack_param(params->data[i]))
+        ++va_index;
+    }
     ADD_CODE(OP_LOCAL_GET);
-    ADD_ULEB128(functype->func.params->len);
+    ADD_ULEB128(va_index);
     ADD_CODE(OP_LOCAL_SET);
     ADD_ULEB128(vreg->prim.local_index);
   }
diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index 4e8b6b7..76c1d47 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -224,8 +224,9 @@ static size_t calc_funcall_work_size(Expr *expr) {
   for (int i = 0; i < param_count; ++i) {
     Expr *arg = args->data[i];
     if (is_stack_param(arg->type))
-      sarg_siz += ALIGN(type_size(arg->type), 4);
+      sarg_siz = ALIGN(sarg_siz, align_size(arg->type)) + type_size(arg->type);
   }
+  sarg_siz = ALIGN(sarg_siz, 4);
 
   size_t vaarg_bufsiz = 0;
   if (functype->func.vaargs) {
-- 
2.43.0


From 09ee775b0a55de7dfaaa32a03e836e61f21a8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 41/96] fix: repeated tentative definitions and redeclarations
 keep the initializer and the array size

---
 src/cc/frontend/fe_misc.c |  4 ++--
 src/cc/frontend/parser.c  | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 8938d0c..49aaa07 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -148,8 +148,8 @@ VarInfo *find_var_from_scope(Scope *scope, const Token *ident, Type *type, int s
       } else if (!(storage & VS_EXTERN)) {
         if (varinfo->storage & VS_EXTERN)
           varinfo->storage &= ~VS_EXTERN;
-        else if (is_global_scope(scope) && varinfo->global.init == NULL)
-          ;  // Ignore variable duplication if predecessor doesn't have initializer.
+        else if (is_global_scope(scope) && !((varinfo->storage | storage) & VS_ENUM_MEMBER))
+          ;  // Tentative definitions can be repeated, initializers are checked later.
         else
           parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(name));
       }
diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 43ac548..2b77abf 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -961,7 +961,15 @@ static void parse_global_var_decl(Type *rawtype, int storage, Type *type, Token
         }
 
         if (ident != NULL) {
-          varinfo->global.init = check_vardecl(&type, ident, storage, init);
+          if (type->kind == TY_ARRAY && type->pa.length < 0 && init == NULL &&
+              varinfo->type->kind == TY_ARRAY && varinfo->type->pa.length >= 0)
+            type = varinfo->type;  // Already completed.
+          init = check_vardecl(&type, ident, storage, init);
+          if (init != NULL) {
+            if (varinfo->global.init != NULL)
+              parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(ident->ident));
+            varinfo->global.init = init;
+          }
           varinfo->type = type;  // type might be changed.
         }
         curvarinfo = NULL;
-- 
2.43.0


From 6df74b94dee4c3a80c0b552c0f4b4424c35b1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 42/96] fix: enumerators, enum tags and typedefs can be
 redeclared in inner scopes

---
 src/cc/frontend/parser.c      | 2 +-
 src/cc/frontend/parser_type.c | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 2b77abf..267931e 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -158,7 +158,7 @@ static void def_type(Type *type, Token *ident) {
     return;
   }
 
-  if (defined == NULL || (type->kind == TY_STRUCT && type->struct_.info != NULL)) {
+  if (defined == NULL || scope != curscope || (type->kind == TY_STRUCT && type->struct_.info != NULL)) {
     if (type->kind == TY_ARRAY) {
       if (!ensure_struct(type, ident, curscope))
         return;
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index b5de00d..efa5be1 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -28,7 +28,8 @@ static void parse_enum_members(Type *type) {
       value = expr->fixnum;
     }
 
-    if (scope_find(global_scope, ident->ident, NULL) != NULL) {
+    Scope *scope;
+    if (scope_find(curscope, ident->ident, &scope) != NULL && scope == curscope) {
       parse_error(PE_NOFATAL, ident, "`%.*s' is already defined", NAMES(ident->ident));
     } else {
       define_enum_member(ctype, ident, value);
@@ -48,7 +49,8 @@ static Type *parse_enum(void) {
   Token *ident = match(TK_IDENT);
   Type *type = ident != NULL ? find_enum(curscope, ident->ident) : NULL;
   if (match(TK_LBRACE)) {
-    if (type != NULL)
+    if (type != NULL && curscope->enum_table != NULL &&
+        table_get(curscope->enum_table, ident->ident) == type)
       parse_error(PE_FATAL, ident, "Duplicate enum type");
     type = define_enum(curscope, ident != NULL ? ident->ident : NULL);
     parse_enum_members(type);
-- 
2.43.0


From 98b74a1860c7c96e7a3dc7e6dd6f3f53813706e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 43/96] fix: functions declared in a block refer to the file
 scope entity

---
 src/cc/frontend/fe_misc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 49aaa07..609bf7a 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -505,8 +505,14 @@ static void mark_var_used_sub(Expr *expr, bool for_func) {
         }
       } else {
         varinfo->storage |= VS_USED;
-        if (varinfo->storage & VS_STATIC)
+        if (varinfo->storage & VS_STATIC) {
           gvarinfo = varinfo->static_.svar;
+        } else if ((varinfo->storage & VS_EXTERN) || varinfo->type->kind == TY_FUNC) {
+          // Declared in block: Entity is global.
+          gvarinfo = scope_find(global_scope, expr->var.name, NULL);
+          if (gvarinfo != NULL && gvarinfo->type->kind == TY_FUNC)
+            gvarinfo->storage |= VS_REF_TAKEN;
+        }
       }
     }
     break;
-- 
2.43.0


From 9794695763d03bd667d7196b6115507009229c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 44/96] fix: increments and differences of pointers to variable
 length arrays

---
 src/cc/frontend/fe_misc.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 609bf7a..35a67cd 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -993,7 +993,7 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
       return new_expr_bop(EX_DIV, &tySSize, tok,
                           make_cast(&tySSize, tok,
                                     new_expr_bop(EX_SUB, &tySize, tok, lhs, rhs), false),
-                          new_expr_fixlit(&tySSize, tok, type_size(ltype->pa.ptrof)));
+                          make_cast(&tySSize, tok, calc_type_size(ltype->pa.ptrof), false));
     }
   } else if (ptr_or_array(rtype)) {
     if (kind == EX_ADD && is_fixnum(ltype->kind)) {
@@ -1154,6 +1154,31 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
 }
 #endif
 
+#ifndef __NO_VLA
+static Expr *transform_incdec_of_vla_ptr(enum ExprKind kind, Expr *target, const Token *tok) {
+  // Size is not constant: ++target => (ptr = &target, before = *ptr, after = before + 1, *ptr = after, after)
+  Type *type = target->type;
+  Type *ptype = ptrof(type);
+  assert(!is_global_scope(curscope));
+  Expr *ptr = alloc_tmp_var(curscope, ptype);
+  Expr *before = alloc_tmp_var(curscope, type);
+  Expr *after = alloc_tmp_var(curscope, type);
+  Expr *deref = new_expr_unary(EX_DEREF, type, tok, ptr);
+  bool dec = kind == EX_PREDEC || kind == EX_POSTDEC;
+  Expr *value = new_expr_addsub(dec ? EX_SUB : EX_ADD, tok, before, new_expr_fixlit(&tyInt, tok, 1));
+  Expr *assigns[] = {
+    new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(target->token, target)),
+    new_expr_bop(EX_ASSIGN, type, tok, before, deref),
+    new_expr_bop(EX_ASSIGN, type, tok, after, value),
+    new_expr_bop(EX_ASSIGN, type, tok, deref, after),
+  };
+  Expr *result = kind == EX_POSTINC || kind == EX_POSTDEC ? before : after;
+  for (int i = ARRAY_SIZE(assigns); --i >= 0; )
+    result = new_expr_bop(EX_COMMA, type, tok, assigns[i], result);
+  return result;
+}
+#endif
+
 Expr *incdec_of(enum ExprKind kind, Expr *target, const Token *tok) {
   check_referable(tok, target, "lvalue expected");
 #ifndef __NO_BITFIELD
@@ -1162,6 +1187,11 @@ Expr *incdec_of(enum ExprKind kind, Expr *target, const Token *tok) {
     if (minfo->bitfield.width > 0)
       return transform_incdec_of_bitfield(kind, target, tok, minfo);
   }
+#endif
+#ifndef __NO_VLA
+  if (target->type->kind == TY_PTR && ptr_or_array(target->type->pa.ptrof) &&
+      target->type->pa.ptrof->pa.vla != NULL)
+    return transform_incdec_of_vla_ptr(kind, target, tok);
 #endif
   return new_expr_unary(kind, target->type, tok, target);
 }
-- 
2.43.0


From e1979b479ca904190e22a582cee3432afbf20dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 45/96] fix: types of _Generic and auto type operands,
 conditional pointers, const floats, parameters and member addresses

---
 src/cc/frontend/fe_misc.c     | 38 +++++++++++++++++++++--------------
 src/cc/frontend/parser.c      | 10 ++++++++-
 src/cc/frontend/parser_expr.c | 14 ++++++++++++-
 src/cc/frontend/parser_type.c |  4 ++--
 src/cc/frontend/type.c        | 21 +++++++++++++++----
 5 files changed, 64 insertions(+), 23 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 35a67cd..27fc527 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -433,6 +433,16 @@ static Expr *promote_bitfield(Expr *expr) {
   return expr;
 }
 
+static Type *common_fixnum_type(Type *ltype, Type *rtype) {
+  int l = (type_size(ltype) << 1) | (ltype->fixnum.is_unsigned ? 1 : 0);
+  int r = (type_size(rtype) << 1) | (rtype->fixnum.is_unsigned ? 1 : 0);
+  Type *type = l >= r ? ltype : rtype, *other = l >= r ? rtype : ltype;
+  // Sizes might be equal even if the ranks are different.
+  if (other->fixnum.kind > type->fixnum.kind && type_size(other) == type_size(type))
+    type = get_fixnum_type(other->fixnum.kind, type->fixnum.is_unsigned, 0);
+  return type;
+}
+
 static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
   Expr *lhs = *pLhs = promote_bitfield(*pLhs);
   Expr *rhs = *pRhs = promote_bitfield(*pRhs);
@@ -478,9 +488,7 @@ static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
     *pLhs = promote_to_int(lhs);
     *pRhs = promote_to_int(rhs);
   } else if (changed || !same_type_without_qualifier(ltype, rtype, true)) {
-    int l = (type_size(ltype) << 1) | (ltype->fixnum.is_unsigned ? 1 : 0);
-    int r = (type_size(rtype) << 1) | (rtype->fixnum.is_unsigned ? 1 : 0);
-    Type *type = l >= r ? ltype : rtype;
+    Type *type = common_fixnum_type(ltype, rtype);
     *pLhs = make_cast(type, lhs->token, lhs, false);
     *pRhs = make_cast(type, rhs->token, rhs, false);
   }
@@ -635,7 +643,7 @@ static Expr *reduce_refer_deref_add(Expr *expr, Type *subtype, Expr *lhs, Fixnum
     // Concat 2 deref.
     Expr *sub = lhs->unary.sub;
     return new_expr_unary(EX_DEREF, expr->type, expr->token,
-                          new_expr_fixlit(sub->type, sub->token, sub->fixnum + rhs));
+                          new_expr_fixlit(subtype, sub->token, sub->fixnum + rhs));
   } else if (lhs->kind == EX_ADD && lhs->bop.rhs->kind == EX_FIXNUM) {
     // *(((lhs->lhs) + (lhs->rhs)) + rhs) => *(lhs->lhs + (lhs->rhs + rhs))
     return new_expr_unary(EX_DEREF, expr->type, expr->token,
@@ -658,8 +666,7 @@ Expr *reduce_refer(Expr *expr) {
       }
 
       const MemberInfo *minfo = expr->member.info;
-      Type *ptype = minfo->type;
-      ptype = ptrof(ptype->kind == TY_ARRAY ? array_to_ptr(ptype) : ptype);
+      Type *ptype = ptrof(minfo->type);
       // target->field => *(target + offset(field))
       Expr *result = reduce_refer_deref_add(expr, ptype, target, minfo->offset);
       if (result != NULL)
@@ -1542,12 +1549,17 @@ static Type *to_ptr_type(Type *type) {
 static Type *apply_ptr_qualifier(Type *type, Type *ptype) {
   assert(type->kind == TY_PTR);
   assert(ptype->kind == TY_PTR);
-  Type *dtype = qualified_type(type->pa.ptrof, ptype->pa.ptrof->qualifier & TQ_CONST);
+  Type *dtype = qualified_type(type->pa.ptrof, ptype->pa.ptrof->qualifier & (TQ_CONST | TQ_VOLATILE));
   if (dtype != type->pa.ptrof)
     type = ptrof(dtype);
   return type;
 }
 
+static bool is_null_ptr_const(Expr *expr) {
+  return expr->kind == EX_FIXNUM && expr->fixnum == 0 && is_void_ptr(expr->type) &&
+         expr->type->pa.ptrof->qualifier == 0;
+}
+
 Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
   Type *ttype = tval->type;
   Type *ftype = fval->type;
@@ -1566,14 +1578,12 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
   if (ttype->kind == TY_PTR) {
     if (ftype->kind == TY_PTR) {  // Both pointer type
       if (same_type_without_qualifier(ttype, ftype, true)) {
-        if (ftype->pa.ptrof->qualifier & TQ_CONST)
-          return ftype;
-        return ttype;
+        return apply_ptr_qualifier(ttype, ftype);
       }
       if (is_void_ptr(ttype))
-        return apply_ptr_qualifier(ftype, ttype);
+        return is_null_ptr_const(tval) ? ftype : apply_ptr_qualifier(ttype, ftype);
       if (is_void_ptr(ftype))
-        return apply_ptr_qualifier(ttype, ftype);
+        return is_null_ptr_const(fval) ? ttype : apply_ptr_qualifier(ftype, ttype);
     } else {
       if (can_cast(ttype, ftype, is_zero(fval), false))
         return ttype;
@@ -1594,9 +1604,7 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
       ttype = &tyInt;
     if (ftype->fixnum.kind >= FX_ENUM)
       ftype = &tyInt;
-    int t = (type_size(ttype) << 1) | (ttype->fixnum.is_unsigned ? 1 : 0);
-    int f = (type_size(ftype) << 1) | (ftype->fixnum.is_unsigned ? 1 : 0);
-    return t >= f ? ttype : ftype;
+    return common_fixnum_type(ttype, ftype);
   }
   return NULL;
 }
diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 267931e..429ba6e 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -269,8 +269,16 @@ static Vector *parse_vardecl_cont(Type *rawType, Type *type, int storage, Token
           case TY_FUNC:
             type = ptrof(type);  // Function pointer.
             break;
+          case TY_ARRAY:
+            type = array_to_ptr(type);
+            break;
           case TY_VOID: assert(false); break;
-          default: break;
+          default:
+            if (type->qualifier != 0) {
+              type = clone_type(type);
+              type->qualifier = 0;
+            }
+            break;
           }
         }
 
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 871ac22..7e55874 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -187,8 +187,20 @@ static Expr *parse_generic(void) {
   consume(TK_RPAR, "`)' expected");
 
   Type *type = target->type;
-  if (type->kind == TY_ARRAY)
+  switch (type->kind) {
+  case TY_ARRAY:
     type = array_to_ptr(type);
+    break;
+  case TY_FUNC:
+    type = ptrof(type);
+    break;
+  default:
+    if (type->qualifier != 0) {  // lvalue conversion.
+      type = clone_type(type);
+      type->qualifier = 0;
+    }
+    break;
+  }
   for (int i = 0; i < types->len; ++i) {
     Type *t = types->data[i];
     if (same_type(t, type))
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index efa5be1..681b5dc 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -356,9 +356,9 @@ Type *parse_raw_type(int *pstorage) {
       type = qualified_type(type, tc.qualifier);
   } else if (!no_type_combination(&tc, ~0, ~0)) {
     if (tc.float_num > 0) {
-      type = &tyFloat;
+      type = qualified_type(&tyFloat, tc.qualifier);
     } else if (tc.double_num > 0) {
-      type = (tc.long_num > 0 ? &tyLDouble : &tyDouble);
+      type = qualified_type(tc.long_num > 0 ? &tyLDouble : &tyDouble, tc.qualifier);
     } else {
       enum FixnumKind fk = (tc.char_num > 0)  ? FX_CHAR
                          : (tc.short_num > 0) ? FX_SHORT
diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index 912887f..a6f02ce 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -383,13 +383,26 @@ Type *create_enum_type(const Name *name) {
   return type;
 }
 
-// Compare type for function parameter: Ignore const-ness.
-static inline bool same_type_func_param(const Type *type1, const Type *type2) {
-  return same_type_without_qualifier(type1, type2, true);
+// Compare type for function parameter: Adjust array and function to pointer, and ignore outermost qualifiers.
+static bool same_type_func_param(const Type *type1, const Type *type2) {
+  Type tmp1 = *type1, tmp2 = *type2;
+  if (tmp1.kind == TY_ARRAY)
+    tmp1.kind = TY_PTR;
+  if (tmp2.kind == TY_ARRAY)
+    tmp2.kind = TY_PTR;
+  if (tmp1.kind != tmp2.kind) {
+    if (tmp1.kind == TY_PTR && tmp2.kind == TY_FUNC)
+      return same_type(tmp1.pa.ptrof, type2);
+    if (tmp1.kind == TY_FUNC && tmp2.kind == TY_PTR)
+      return same_type(type1, tmp2.pa.ptrof);
+    return false;
+  }
+  tmp1.qualifier = tmp2.qualifier = 0;
+  return same_type(&tmp1, &tmp2);
 }
 
 bool same_type_without_qualifier(const Type *type1, const Type *type2, bool ignore_qualifier) {
-  const int QMASK = TQ_CONST;
+  const int QMASK = TQ_CONST | TQ_VOLATILE;
   for (;;) {
     if (type1->kind != type2->kind ||
         (!ignore_qualifier && (type1->qualifier & QMASK) != (type2->qualifier & QMASK)))
-- 
2.43.0


From 98916c813ca3543bce12ddd57b57791f1fdb8949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 46/96] fix: change_ext writes one byte beyond its buffer

---
 src/util/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/util.c b/src/util/util.c
index d4d1ea6..02745a8 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -244,7 +244,7 @@ char *change_ext(const char *path, const char *ext) {
   const char *q = strrchr(p, '.');
   size_t len = q != NULL ? (size_t)(q - path) : strlen(path);
   size_t ext_len = strlen(ext);
-  char *s = malloc(len + 1 + ext_len);
+  char *s = malloc(len + 1 + ext_len + 1);
   if (s != NULL) {
     memcpy(s, path, len);
     s[len] = '.';
-- 
2.43.0


From c8aaf1d5c3350ed5e66a027d7f36cb1b4919fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 47/96] fix: report a failure to write an output instead of
 exiting with success

---
 src/as/emit_elf.c     | 1 +
 src/cc/cc1.c          | 1 +
 src/cpp/cpp.c         | 1 +
 src/ld/ld.c           | 1 +
 src/util/util.c       | 9 +++++++++
 src/util/util.h       | 1 +
 src/wcc/wasm_linker.c | 1 +
 src/wcc/wcc.c         | 2 ++
 8 files changed, 17 insertions(+)

diff --git a/src/as/emit_elf.c b/src/as/emit_elf.c
index 5e28cdd..fe71a3b 100644
--- a/src/as/emit_elf.c
+++ b/src/as/emit_elf.c
@@ -524,6 +524,7 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
 
   put_padding(ofp, sh_ofs);
   fwrite(section_headers.buf, section_headers.len, 1, ofp);
+  flush_output(ofp);
 
   return 0;
 }
diff --git a/src/cc/cc1.c b/src/cc/cc1.c
index 9bc7630..20a4fad 100644
--- a/src/cc/cc1.c
+++ b/src/cc/cc1.c
@@ -177,6 +177,7 @@ int main(int argc, char *argv[]) {
 
   gen(toplevel);
   emit_code(toplevel);
+  flush_output(stdout);
 
   return 0;
 }
diff --git a/src/cpp/cpp.c b/src/cpp/cpp.c
index eeee365..107a7ff 100644
--- a/src/cpp/cpp.c
+++ b/src/cpp/cpp.c
@@ -66,5 +66,6 @@ int main(int argc, char *argv[]) {
   } else {
     preprocess(stdin, "*stdin*");
   }
+  flush_output(stdout);
   return 0;
 }
diff --git a/src/ld/ld.c b/src/ld/ld.c
index 44b3628..14b08a4 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -717,6 +717,7 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
     output_section(fp, &section_groups[sec]);
     addr += size;
   }
+  flush_output(fp);
   fclose(fp);
 
   return true;
diff --git a/src/util/util.c b/src/util/util.c
index 02745a8..7b911fe 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -253,6 +253,15 @@ char *change_ext(const char *path, const char *ext) {
   return s;
 }
 
+void flush_output(FILE *fp) {
+  bool failed = fflush(fp) != 0;
+#if !defined(__XCC)
+  failed |= ferror(fp) != 0;
+#endif
+  if (failed)
+    error("Failed to write output");
+}
+
 void put_padding(FILE *fp, long start) {
   long cur = ftell(fp);
   if (cur < 0)
diff --git a/src/util/util.h b/src/util/util.h
index 8159a24..1ee6ecc 100644
--- a/src/util/util.h
+++ b/src/util/util.h
@@ -41,6 +41,7 @@ char *join_paths(const char *paths[]);
 char *get_ext(const char *filename);
 char *change_ext(const char *path, const char *ext);
 void put_padding(FILE *fp, long start);
+void flush_output(FILE *fp);  // Exit with an error if the output cannot be written.
 bool is_file(const char *path);
 
 void show_version(const char *exe);
diff --git a/src/wcc/wasm_linker.c b/src/wcc/wasm_linker.c
index bb49804..988f438 100644
--- a/src/wcc/wasm_linker.c
+++ b/src/wcc/wasm_linker.c
@@ -1727,6 +1727,7 @@ bool linker_emit_wasm(WasmLinker *linker, const char *ofn, Vector *exports) {
   // Data.
   out_data_section(linker);
 
+  flush_output(ofp);
   fclose(ofp);
 
   return true;
diff --git a/src/wcc/wcc.c b/src/wcc/wcc.c
index d171113..a536b4d 100644
--- a/src/wcc/wcc.c
+++ b/src/wcc/wcc.c
@@ -184,6 +184,7 @@ int compile_csource(const char *src, const char *ofn, Vector *obj_files, Options
   }
 
   do_preprocess(src);
+  flush_output(ppout);
   if (out_type == OutPreprocess) {
     if (ppout != stdout)
       fclose(ppout);
@@ -249,6 +250,7 @@ int compile_csource(const char *src, const char *ofn, Vector *obj_files, Options
   } else {
     emit_wasm(ofp, opts->import_module_name, exports);
     assert(compile_error_count == 0);
+    flush_output(ofp);
     fclose(ofp);
   }
 
-- 
2.43.0


From 39328efb80e560e67bd75893c2d02eaea01ceedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 48/96] fix: ld replaces an existing output, whose permissions
 might not allow to execute it

---
 src/ld/ld.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 14b08a4..f4c6d58 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -679,6 +679,10 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
   } else {
     const int mod = S_IRUSR | S_IWUSR | S_IXUSR | S_IRGRP | S_IXGRP | S_IROTH | S_IXOTH;  // 0755
     const int flag = O_WRONLY | O_CREAT | O_TRUNC;
+    // Replace an existing file, otherwise its permissions are kept and it might not be executable.
+    struct stat st;
+    if (stat(ofn, &st) == 0 && S_ISREG(st.st_mode))
+      remove(ofn);
     int fd = open(ofn, flag, mod);
     if (fd < 0) {
       perror("open failed");
-- 
2.43.0


From 6faefc59e3d8a133ea6d1f5b1bc9e198b2e69ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 49/96] fix: -l with a separate argument

---
 src/xcc/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 6931599..1042b9c 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -445,7 +445,7 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         } else {
           StringBuffer sb;
           sb_init(&sb);
-          sb_append(&sb, "-l", optarg);
+          sb_append(&sb, "-l", NULL);
           sb_append(&sb, optarg, NULL);
           p = sb_to_string(&sb);
         }
-- 
2.43.0


From dc591b1b3aefb8b0017b1fade967444983d4da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 50/96] fix: driver doesn't truncate inputs with -S, -E, nor
 overwrite one output several times, nor need a name for stdin

---
 src/xcc/main.c | 54 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 1042b9c..674b1a1 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -526,10 +526,36 @@ static void parse_options(int argc, char *argv[], Options *opts) {
   }
 }
 
+static enum SourceType get_source_type(Options *opts, const char *src) {
+  if (src != NULL) {
+    char *ext = get_ext(src);
+    if (strcasecmp(ext, "c") == 0)  return Clanguage;
+    if (strcasecmp(ext, "s") == 0)  return Assembly;
+    if (strcasecmp(ext, "o") == 0)  return ObjectFile;
+    if (strcasecmp(ext, "a") == 0)  return ArchiveFile;
+  }
+  return opts->src_type;
+}
+
 static int do_compile(Options *opts, const char *root) {
   UNUSED(root);
   int ofd = STDOUT_FILENO;
   int res = 0;
+
+  if (opts->out_type < OutExecutable && opts->ofn != NULL) {
+    int count = 0;
+    for (int i = 0; i < opts->sources->len; ++i) {
+      const char *src = opts->sources->data[i];
+      if (src != NULL && (*src == '\0' || (*src == '-' && src[1] != '\0')))
+        continue;
+      enum SourceType st = get_source_type(opts, src);
+      if (st == Clanguage || (st == Assembly && opts->out_type > OutAssembly))
+        ++count;
+    }
+    if (count > 1)
+      error("cannot specify -o with multiple output files");
+  }
+
   for (int i = 0; i < opts->sources->len; ++i) {
     char *src = opts->sources->data[i];
     const char *outfn = opts->ofn;
@@ -542,16 +568,21 @@ static int do_compile(Options *opts, const char *root) {
         vec_push(opts->ld_cmd, src);
         continue;
       }
+    }
 
-      if (outfn == NULL) {
-        if (opts->out_type == OutObject)
-          outfn = change_ext(basename(src), "o");
-        else if (opts->out_type == OutAssembly)
-          outfn = change_ext(basename(src), "s");
-      }
+    enum SourceType st = get_source_type(opts, src);
+    if (opts->out_type <= OutAssembly && st != UnknownSource && st != Clanguage)
+      continue;  // Nothing to do: don't touch the output.
+
+    if (outfn == NULL) {
+      if (opts->out_type == OutObject)
+        outfn = change_ext(src != NULL ? basename(src) : "-", "o");
+      else if (opts->out_type == OutAssembly)
+        outfn = change_ext(src != NULL ? basename(src) : "-", "s");
     }
 
-    if (opts->out_type <= OutAssembly && outfn != NULL && strcmp(outfn, "-") != 0) {
+    if (st != UnknownSource &&
+        opts->out_type <= OutAssembly && outfn != NULL && strcmp(outfn, "-") != 0) {
       close(STDOUT_FILENO);
       ofd = open(outfn, O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
       if (ofd == -1) {
@@ -560,15 +591,6 @@ static int do_compile(Options *opts, const char *root) {
       }
     }
 
-    enum SourceType st = opts->src_type;
-    if (src != NULL) {
-      char *ext = get_ext(src);
-      if      (strcasecmp(ext, "c") == 0)  st = Clanguage;
-      else if (strcasecmp(ext, "s") == 0)  st = Assembly;
-      else if (strcasecmp(ext, "o") == 0)  st = ObjectFile;
-      else if (strcasecmp(ext, "a") == 0)  st = ArchiveFile;
-    }
-
     switch (st) {
     case UnknownSource:
       fprintf(stderr, "Unknown source type: %s\n", src);
-- 
2.43.0


From f21673aafec428fb9da3f9ec2172d9e15356b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 51/96] fix: driver waits for each stage of the pipeline, and
 leaves no partial output nor removes special files

---
 src/xcc/main.c | 118 +++++++++++++++++++++++++++----------------------
 1 file changed, 65 insertions(+), 53 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 674b1a1..06d317c 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -94,49 +94,59 @@ static void remove_tmp_files(void) {
   }
 }
 
-static int compile(const char *src, Vector *cpp_cmd, Vector *cc1_cmd, int ofd) {
+// Remove an incomplete output; leave a device, a pipe or a directory alone.
+static void remove_output(const char *fn) {
+  struct stat st;
+  if (fn != NULL && stat(fn, &st) == 0 && S_ISREG(st.st_mode))
+    remove(fn);
+}
+
+// as_pid: The assembler which reads the output (-1 if none), set to -1 when it is reaped here.
+static int compile(const char *src, Vector *cpp_cmd, Vector *cc1_cmd, int ofd, pid_t *as_pid) {
   int ofd2 = ofd;
   int cc_fd[2];
   pid_t cc_pid = -1;
-  int running = 0;
   if (cc1_cmd != NULL) {
     cc_pid = pipe_exec((char**)cc1_cmd->data, ofd, cc_fd);
     ofd2 = cc_fd[1];
-    ++running;
   }
 
   // When src is NULL, no input file is given and cpp read from stdin.
-  cpp_cmd->data[cpp_cmd->len - 2] = strcmp(src, "-") == 0 ? NULL : (void*)src;
+  cpp_cmd->data[cpp_cmd->len - 2] = src != NULL && strcmp(src, "-") == 0 ? NULL : (void*)src;
   pid_t cpp_pid = exec_with_ofd((char**)cpp_cmd->data, ofd2);
-  ++running;
 
   int res = 0;
-  for (; running > 0; --running) {
+  while (cpp_pid != -1 || cc_pid != -1) {
     int status;
-    pid_t done = wait_child(&status);  // cpp or cc1
-    if (done > 0) {
-      res |= status;
-      if (done == cpp_pid) {
-        cpp_pid = -1;
-        if (cc_pid != -1) {
-          if (status != 0) {
-            // Illegal: cpp exit with failure.
-            kill(cc_pid, SIGKILL);
-            break;
-          }
-          close(cc_fd[0]);
-          close(cc_fd[1]);
-        }
-      } else if (done == cc_pid) {
-        cc_pid = -1;
-        if (cpp_pid != -1) {
-          // Illegal: cc dies earlier than cpp.
-          kill(cpp_pid, SIGKILL);
-          break;
-        }
-      }
-    } else {
+    pid_t done = wait_child(&status);  // cpp, cc1 or as
+    if (done <= 0) {
       res |= 1;
+      break;
+    }
+
+    res |= status;
+    bool cpp_done = done == cpp_pid;
+    if (cpp_done) {
+      cpp_pid = -1;
+    } else if (done == cc_pid) {
+      cc_pid = -1;
+      if (cpp_pid != -1)
+        res |= 1;  // Illegal: cc dies earlier than cpp.
+    } else if (done == *as_pid) {
+      *as_pid = -1;
+      res |= 1;  // Illegal: as dies earlier than its input ends.
+    }
+
+    if (res != 0) {
+      // The result is useless: don't let the rest wait for each other.
+      if (cpp_pid != -1)
+        kill(cpp_pid, SIGKILL);
+      if (cc_pid != -1)
+        kill(cc_pid, SIGKILL);
+    }
+    if (cpp_done && cc1_cmd != NULL) {
+      close(cc_fd[0]);
+      close(cc_fd[1]);
     }
   }
   return res;
@@ -163,22 +173,27 @@ enum OutType {
   OutExecutable,
 };
 
+static const char *temporary_object(void) {
+  char template[] = "/tmp/xcc-XXXXXX.o";
+  int fd = mkstemps(template, 2);
+  if (fd == -1) {
+    perror("Failed to open output file");
+    exit(1);
+  }
+  close(fd);
+  const char *fn = strdup(template);
+  vec_push(&remove_on_exit, fn);
+  return fn;
+}
+
 static int compile_csource(const char *source_fn, enum OutType out_type, const char *ofn, int ofd,
                            Vector *cpp_cmd, Vector *cc1_cmd, Vector *as_cmd, Vector *ld_cmd) {
   const char *objfn = NULL;
-  int obj_fd = -1;
   if (out_type > OutAssembly) {
     if (ofn != NULL && out_type < OutExecutable) {
       objfn = ofn;
     } else {
-      char template[] = "/tmp/xcc-XXXXXX.o";
-      obj_fd = mkstemps(template, 2);
-      if (obj_fd == -1) {
-        perror("Failed to open output file");
-        exit(1);
-      }
-      objfn = strdup(template);
-      vec_push(&remove_on_exit, objfn);
+      objfn = temporary_object();
     }
   }
 
@@ -193,24 +208,21 @@ static int compile_csource(const char *source_fn, enum OutType out_type, const c
     ofd = as_fd[1];
   }
 
-  int res = compile(source_fn, cpp_cmd, out_type == OutPreprocess ? NULL : cc1_cmd, ofd);
+  int res = compile(source_fn, cpp_cmd, out_type == OutPreprocess ? NULL : cc1_cmd, ofd, &as_pid);
 
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
 
-  if (res != 0 && as_pid != -1) {
+  if (res != 0 && as_pid != -1)
     kill(as_pid, SIGKILL);
-    remove(ofn);
-  }
-  if (as_pid != -1) {
+  if (out_type > OutAssembly) {
     close(as_fd[0]);
     close(as_fd[1]);
-    as_pid = -1;
-    res |= wait_process(as_pid);
-  }
-  if (obj_fd != -1) {
-    close(obj_fd);
+    if (as_pid != -1)
+      res |= wait_process(as_pid);
   }
+  if (res != 0 && out_type < OutExecutable)
+    remove_output(ofn);
   return res;
 }
 
@@ -221,11 +233,7 @@ static int compile_asm(const char *source_fn, enum OutType out_type, const char
     if (ofn != NULL && out_type < OutExecutable) {
       objfn = ofn;
     } else {
-      size_t len = strlen(source_fn);
-      char *p = malloc_or_die(len + 3);
-      memcpy(p, source_fn, len);
-      strcpy(p + len, ".o");
-      objfn = p;
+      objfn = temporary_object();
     }
 
     assert(as_cmd->len >= 3);
@@ -239,6 +247,8 @@ static int compile_asm(const char *source_fn, enum OutType out_type, const char
 
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
+  else if (status != 0)
+    remove_output(ofn);
   return status;
 }
 
@@ -629,6 +639,8 @@ static int do_compile(Options *opts, const char *root) {
     int status;
     waitpid(ld_pid, &status, 0);
     res |= status;
+    if (status != 0)
+      remove_output(opts->ofn != NULL ? opts->ofn : "a.out");
   }
 
   return res == 0 ? 0 : 1;
-- 
2.43.0


From 8e20f4cf792256c1255bd65117683a265764321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:31 +0000
Subject: [PATCH 52/96] fix: unreachable blocks left after optimization refer
 labels which are not emitted

---
 src/cc/backend/optimize.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index d690549..c0647f5 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -638,13 +638,17 @@ static void copy_propagation(RegAlloc *ra, BBContainer *bbcon) {
 
 //
 
-void optimize(RegAlloc *ra, BBContainer *bbcon) {
-  // Clean up unused IRs.
+static void clear_unreachable_bbs(BBContainer *bbcon) {
   for (int i = 1; i < bbcon->len; ++i) {
     BB *bb = bbcon->data[i];
     if (bb->from_bbs->len == 0)
       vec_clear(bb->irs);
   }
+}
+
+void optimize(RegAlloc *ra, BBContainer *bbcon) {
+  // Clean up unused IRs.
+  clear_unreachable_bbs(bbcon);
 
   // Peephole
   for (int i = 0; i < bbcon->len; ++i) {
@@ -665,4 +669,5 @@ void optimize(RegAlloc *ra, BBContainer *bbcon) {
     remove_unnecessary_bb(bbcon);
   }
   detect_from_bbs(bbcon);
+  clear_unreachable_bbs(bbcon);  // A branch might be decided in optimization.
 }
-- 
2.43.0


From 6a4a02bdd555a93085017a36799a37eb8e8fa8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 53/96] fix: floor, ceil and round are exact for subnormals,
 negative zeros and large values

---
 libsrc/math/ceil.c  | 4 ++--
 libsrc/math/floor.c | 2 +-
 libsrc/math/round.c | 6 +++++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libsrc/math/ceil.c b/libsrc/math/ceil.c
index a064cdb..943cec8 100644
--- a/libsrc/math/ceil.c
+++ b/libsrc/math/ceil.c
@@ -15,9 +15,9 @@ double ceil(double x) {
 #else
   int64_t q = *(int64_t*)&x;
   int e = GET_BIASED_EXPO(q);
-  if (e <= EXPO_BIAS + FRAC_BIT && e != 0) {
+  if (e <= EXPO_BIAS + FRAC_BIT && x != 0) {
     if (e <= EXPO_BIAS)
-      return q > 0 ? 1.0 : 0.0;
+      return q > 0 ? 1.0 : -0.0;
 
     int64_t one = (int64_t)1 << ((EXPO_BIAS + FRAC_BIT + 1) - e);
     if (q < 0) {
diff --git a/libsrc/math/floor.c b/libsrc/math/floor.c
index 3bca1e9..7d25aec 100644
--- a/libsrc/math/floor.c
+++ b/libsrc/math/floor.c
@@ -15,7 +15,7 @@ double floor(double x) {
 #else
   int64_t q = *(int64_t*)&x;
   int e = GET_BIASED_EXPO(q);
-  if (e <= EXPO_BIAS + FRAC_BIT && e != 0) {
+  if (e <= EXPO_BIAS + FRAC_BIT && x != 0) {
     if (e <= EXPO_BIAS)
       return q >= 0 ? 0.0 : -1.0;
 
diff --git a/libsrc/math/round.c b/libsrc/math/round.c
index 1461ac9..684eac7 100644
--- a/libsrc/math/round.c
+++ b/libsrc/math/round.c
@@ -4,6 +4,10 @@
 
 #ifndef __NO_FLONUM
 double round(double x) {
-  return x >= 0 ? floor(x + 0.5) : ceil(x - 0.5);
+  double a = fabs(x);
+  double i = floor(a);
+  if (a - i >= 0.5)
+    i += 1;
+  return copysign(i, x);
 }
 #endif
-- 
2.43.0


From 01a0a5b11fbe5e022414d8bb06e848d99ecfd461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 54/96] fix: frexp and ldexp handle subnormal numbers

---
 libsrc/math/frexp.c |  8 +++++++-
 libsrc/math/ldexp.c | 21 ++++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/libsrc/math/frexp.c b/libsrc/math/frexp.c
index 1884985..54ff551 100644
--- a/libsrc/math/frexp.c
+++ b/libsrc/math/frexp.c
@@ -1,3 +1,4 @@
+#include "float.h"  // DBL_MIN
 #include "math.h"
 #include "stdint.h"  // int64_t
 #include "_ieee.h"
@@ -8,8 +9,13 @@ double frexp(double x, int *p) {
     *p = 0;
     return x;
   }
+  int bias = 0;
+  if (fabs(x) < DBL_MIN) {  // Subnormal: normalize.
+    x *= (double)((int64_t)1 << 54);
+    bias = 54;
+  }
   int64_t q = *(int64_t*)&x;
-  *p = GET_EXPO(q);
+  *p = GET_EXPO(q) - bias;
   int64_t r = (q & (FRAC_MASK | SIGN_MASK)) | ((int64_t)EXPO_BIAS << EXPO_POS);
   return *(double*)&r;
 }
diff --git a/libsrc/math/ldexp.c b/libsrc/math/ldexp.c
index 912dc18..b312767 100644
--- a/libsrc/math/ldexp.c
+++ b/libsrc/math/ldexp.c
@@ -1,4 +1,6 @@
+#include "float.h"  // DBL_MIN
 #include "math.h"
+#include "stdbool.h"
 #include "stdint.h"  // int64_t
 #include "_ieee.h"
 
@@ -7,13 +9,26 @@ double ldexp(double x, int exp) {
   if (!isfinite(x) || x == 0) {
     return x;
   }
+  const double scale = (double)((int64_t)1 << 54);
+  if (exp > (1 << (EXPO_BIT + 1)))
+    exp = 1 << (EXPO_BIT + 1);
+  if (exp < -(1 << (EXPO_BIT + 1)))
+    exp = -(1 << (EXPO_BIT + 1));
+  if (fabs(x) < DBL_MIN) {  // Subnormal: normalize.
+    x *= scale;
+    exp -= 54;
+  }
   int64_t q = *(int64_t*)&x;
   exp += GET_BIASED_EXPO(q);
   if (exp >= ((1 << EXPO_BIT) - 1))
     return x < 0 ? -HUGE_VAL : HUGE_VAL;
-  else if (exp < 0)
-    return 0;
+  if (exp < -53)
+    return x < 0 ? -0.0 : 0.0;
+  bool subnormal = exp <= 0;
+  if (subnormal)
+    exp += 54;
   int64_t r = (q & (FRAC_MASK | SIGN_MASK)) | ((int64_t)exp << EXPO_POS);
-  return *(double*)&r;
+  double result = *(double*)&r;
+  return subnormal ? result / scale : result;
 }
 #endif
-- 
2.43.0


From b107a0bdbade4ea4e345867e28e9c49d5ab0ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 55/96] fix: fmod is exact and modf keeps the sign of its parts

---
 libsrc/math/fmod.c | 17 +++++++++++++----
 libsrc/math/modf.c |  6 +++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/libsrc/math/fmod.c b/libsrc/math/fmod.c
index 4c0c070..7b07e25 100644
--- a/libsrc/math/fmod.c
+++ b/libsrc/math/fmod.c
@@ -2,10 +2,19 @@
 
 #ifndef __NO_FLONUM
 double fmod(double x, double m) {
+  if (!isfinite(x) || isnan(m) || m == 0)
+    return NAN;
+  double a = fabs(x);
   m = fabs(m);
-  if (x >= 0)
-    return x - floor(x / m) * m;
-  else
-    return x - ceil(x / m) * m;
+  if (isinf(m))
+    return x;
+  while (a >= m) {
+    int ea, em;
+    frexp(a, &ea);
+    frexp(m, &em);
+    double t = ldexp(m, ea - em);
+    a -= t <= a ? t : t * 0.5;  // Exact.
+  }
+  return copysign(a, x);
 }
 #endif
diff --git a/libsrc/math/modf.c b/libsrc/math/modf.c
index 07db9b4..b517772 100644
--- a/libsrc/math/modf.c
+++ b/libsrc/math/modf.c
@@ -4,11 +4,11 @@
 double modf(double x, double *pint) {
   if (!isfinite(x)) {
     *pint = x;
-    return isnan(x) ? x : 0.0;
+    return isnan(x) ? x : copysign(0.0, x);
   }
 
-  double i = x >= 0 ? floor(x) : ceil(x);
+  double i = copysign(floor(fabs(x)), x);
   *pint = i;
-  return x - i;
+  return copysign(x - i, x);
 }
 #endif
-- 
2.43.0


From d36bef90e07af497d8c1dc10fc785d0c29efe9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 56/96] fix: isnan and isinf tell signaling NaNs from
 infinities

---
 libsrc/math/isinf.c | 2 +-
 libsrc/math/isnan.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/math/isinf.c b/libsrc/math/isinf.c
index 329c407..f69f2ef 100644
--- a/libsrc/math/isinf.c
+++ b/libsrc/math/isinf.c
@@ -8,6 +8,6 @@ extern inline int isinf(double x);
 int __isinf(double x) {
   union { double d; int64_t q; } u;
   u.d = x;
-  return (u.q & NAN_MASK) == EXPO_MASK;
+  return (u.q & (EXPO_MASK | FRAC_MASK)) == EXPO_MASK;
 }
 #endif
diff --git a/libsrc/math/isnan.c b/libsrc/math/isnan.c
index fc05fb1..35b73a8 100644
--- a/libsrc/math/isnan.c
+++ b/libsrc/math/isnan.c
@@ -8,6 +8,6 @@ extern inline int isnan(double x);
 int __isnan(double x) {
   union { double d; int64_t q; } u;
   u.d = x;
-  return (u.q & NAN_MASK) == NAN_MASK;
+  return (u.q & EXPO_MASK) == EXPO_MASK && (u.q & FRAC_MASK) != 0;
 }
 #endif
-- 
2.43.0


From 6c7656934bc703c58a59b54a5cd6f0755ed4583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 57/96] fix: exp, tanh, asinh and acosh give the right result
 at the ends of the range

---
 libsrc/math/acosh.c |  2 +-
 libsrc/math/asinh.c |  4 +++-
 libsrc/math/exp.c   | 10 +++++++++-
 libsrc/math/tanh.c  |  2 ++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/libsrc/math/acosh.c b/libsrc/math/acosh.c
index 125e2d9..9f8ce37 100644
--- a/libsrc/math/acosh.c
+++ b/libsrc/math/acosh.c
@@ -4,6 +4,6 @@
 double acosh(double x) {
   if (x < 1)
     return NAN;
-  return log(x + sqrt(x * x - 1));
+  return x > 1e9 ? log(x) + M_LN2 : log(x + sqrt(x * x - 1));
 }
 #endif
diff --git a/libsrc/math/asinh.c b/libsrc/math/asinh.c
index 4f3b3ac..d1a4697 100644
--- a/libsrc/math/asinh.c
+++ b/libsrc/math/asinh.c
@@ -2,6 +2,8 @@
 
 #ifndef __NO_FLONUM
 double asinh(double x) {
-  return log(x + sqrt(x * x + 1));
+  double a = fabs(x);
+  double r = a > 1e9 ? log(a) + M_LN2 : log(a + sqrt(a * a + 1));
+  return copysign(r, x);
 }
 #endif
diff --git a/libsrc/math/exp.c b/libsrc/math/exp.c
index d758874..4ed1de6 100644
--- a/libsrc/math/exp.c
+++ b/libsrc/math/exp.c
@@ -3,9 +3,17 @@
 
 #ifndef __NO_FLONUM
 double exp(double x) {
+  if (isnan(x))
+    return x;
   bool neg = x < 0;
   x = fabs(x);
-  unsigned int n = x;  // TODO: Care about overflow
+  if (x > 750)
+    return neg ? 0 : HUGE_VAL;
+  if (neg && x > 700) {  // The reciprocal would overflow.
+    double h = exp(x * -0.5);
+    return h * h;
+  }
+  unsigned int n = x;
   double r = (x - n) /* * log(base)*/;   // log(e) = 1
 
   double result = 1;
diff --git a/libsrc/math/tanh.c b/libsrc/math/tanh.c
index 58b2a7c..4b8ead4 100644
--- a/libsrc/math/tanh.c
+++ b/libsrc/math/tanh.c
@@ -2,6 +2,8 @@
 
 #ifndef __NO_FLONUM
 double tanh(double x) {
+  if (fabs(x) > 20)
+    return copysign(1, x);
   return sinh(x) / cosh(x);
 }
 #endif
-- 
2.43.0


From 9d67e26699ea5b8b87558aea371ca93111a21fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 58/96] fix: pow with a negative, zero or infinite base, and
 with large results

---
 libsrc/math/pow.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/libsrc/math/pow.c b/libsrc/math/pow.c
index db840eb..155e450 100644
--- a/libsrc/math/pow.c
+++ b/libsrc/math/pow.c
@@ -3,23 +3,43 @@
 
 #ifndef __NO_FLONUM
 double pow(double base, double x) {
+  if (x == 0 || base == 1)
+    return 1;
+  if (isnan(base) || isnan(x))
+    return NAN;
+  if (isinf(x)) {
+    double a = fabs(base);
+    return a == 1 ? 1 : (a > 1) == (x > 0) ? HUGE_VAL : 0;
+  }
+  if (base == 0 || isinf(base) || base < 0) {
+    bool odd = fabs(fmod(x, 2)) == 1;
+    double value;
+    if (base == 0 || isinf(base)) {
+      value = (base == 0) == (x > 0) ? 0 : HUGE_VAL;
+    } else {
+      if (fmod(x, 1) != 0)
+        return NAN;
+      value = pow(-base, x);
+    }
+    return odd && signbit(base) ? -value : value;
+  }
+
   bool neg = x < 0;
   x = fabs(x);
-  unsigned int n = x;  // TODO: Care about overflow
-  double r = (x - n) * log(base);
-
-  double result = 1;
-  double y = 1;
-  for (int i = 1; i <= 15; ++i) {
-    y *= r / i;
-    result += y;
-  }
+  if (x >= 1 << 30)
+    return exp((neg ? -x : x) * log(base));
+  unsigned int n = x;
+  double result = exp((x - n) * log(base));
 
   double poe = base;
   for (; n > 0; n >>= 1, poe *= poe) {
     if (n & 1)
       result *= poe;
   }
+  if (neg && isinf(result)) {  // The result might be representable.
+    double h = pow(base, x * -0.5);
+    return h * h;
+  }
   return neg ? 1.0 / result : result;
 }
 #endif
-- 
2.43.0


From 7d4116b662299f3ad9f4fcadcdb77835f518c6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:32 +0000
Subject: [PATCH 59/96] fix: atan2 of signed zeros and infinities

---
 libsrc/math/atan2.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libsrc/math/atan2.c b/libsrc/math/atan2.c
index 5978dda..9f130d8 100644
--- a/libsrc/math/atan2.c
+++ b/libsrc/math/atan2.c
@@ -3,12 +3,16 @@
 
 #ifndef __NO_FLONUM
 double atan2(double y, double x) {
+  if (isinf(x) && isinf(y)) {
+    x = copysign(1, x);
+    y = copysign(1, y);
+  }
   if (fabs(x) >= fabs(y)) {
     if (x == 0)
       return signbit(x) == 0 ? y : copysign(M_PI, y);
     double t = atan(y / x);
     if (x < 0)
-      t = (t <= 0 ? M_PI : -M_PI) + t;
+      t = copysign(M_PI, y) + t;
     return t;
   } else {
     double t = atan(x / y);
-- 
2.43.0


From dae28f52a4766d5aa298122069aaac64a286e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 60/96] fix: limits.h and stdint.h limits have the type and the
 sign of what they bound

---
 include/limits.h | 18 ++++++++++--------
 include/stdint.h | 24 +++++++++++++-----------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/limits.h b/include/limits.h
index 514b533..ba567af 100644
--- a/include/limits.h
+++ b/include/limits.h
@@ -4,33 +4,35 @@
 
 #define CHAR_MIN   (-128)  // -(2^7)
 #define CHAR_MAX   (127)   //  (2^7)-1
+#define SCHAR_MIN  (-128)  // -(2^7)
+#define SCHAR_MAX  (127)   //  (2^7)-1
 #define UCHAR_MAX  (255)   // (2^8)-1
 
 #define SHRT_MIN   (-32768)  // -(2^15)
 #define SHRT_MAX   ( 32767)  //  (2^15)-1
 #define USHRT_MAX  (65535)  // (2^16)-1
 
-#define INT_MIN    (-2147483648)  // -(2^31)
+#define INT_MIN    (-2147483647 - 1)  // -(2^31)
 #define INT_MAX    ( 2147483647)  //  (2^31)-1
-#define UINT_MAX   (4294967295)  // (2^32)-1
+#define UINT_MAX   (4294967295U)  // (2^32)-1
 
 #if defined(__ILP32__)
 
-#define LONG_MIN   (-2147483648)  // -(2^31)
-#define LONG_MAX   ( 2147483647)  //  (2^31)-1
-#define ULONG_MAX  (4294967295)  // (2^32)-1
+#define LONG_MIN   (-2147483647L - 1)  // -(2^31)
+#define LONG_MAX   ( 2147483647L)  //  (2^31)-1
+#define ULONG_MAX  (4294967295UL)  // (2^32)-1
 
-#define LLONG_MIN  (-9223372036854775808LL)  // -(2^63)
+#define LLONG_MIN  (-9223372036854775807LL - 1)  // -(2^63)
 #define LLONG_MAX  ( 9223372036854775807LL)  //  (2^63)-1
 #define ULLONG_MAX (18446744073709551615ULL)  // (2^64)-1
 
 #elif defined(__LP64__)
 
-#define LONG_MIN   (-9223372036854775808L)  // -(2^63)
+#define LONG_MIN   (-9223372036854775807L - 1)  // -(2^63)
 #define LONG_MAX   ( 9223372036854775807L)  //  (2^63)-1
 #define ULONG_MAX  (18446744073709551615UL)  // (2^64)-1
 
-#define LLONG_MIN  (-9223372036854775808LL)  // -(2^63)
+#define LLONG_MIN  (-9223372036854775807LL - 1)  // -(2^63)
 #define LLONG_MAX  ( 9223372036854775807LL)  //  (2^63)-1
 #define ULLONG_MAX (18446744073709551615ULL)  // (2^64)-1
 
diff --git a/include/stdint.h b/include/stdint.h
index 63e06b5..22ca238 100644
--- a/include/stdint.h
+++ b/include/stdint.h
@@ -15,13 +15,15 @@ typedef          long long  int64_t;
 typedef unsigned long long  uint64_t;
 
 #if defined(__ILP32__)
-#define INTPTR_MAX   INT32_MIN
-#define INTPTR_MIN   INT32_MAX
+#define INTPTR_MIN   INT32_MIN
+#define INTPTR_MAX   INT32_MAX
+#define UINTPTR_MAX  UINT32_MAX
 
 #else
 
-#define INTPTR_MAX   INT64_MIN
-#define INTPTR_MIN   INT64_MAX
+#define INTPTR_MIN   INT64_MIN
+#define INTPTR_MAX   INT64_MAX
+#define UINTPTR_MAX  UINT64_MAX
 #endif
 
 typedef               long  intptr_t;
@@ -30,21 +32,21 @@ typedef      unsigned long  uintptr_t;
 typedef          long long  intmax_t;
 typedef unsigned long long  uintmax_t;
 
-#define INT8_MIN     -128
+#define INT8_MIN     (-128)
 #define INT8_MAX     127
 #define UINT8_MAX    255
 
-#define INT16_MIN    -32768
+#define INT16_MIN    (-32768)
 #define INT16_MAX    32767
 #define UINT16_MAX   65535
 
-#define INT32_MIN    -2147483648
+#define INT32_MIN    (-INT32_MAX - 1)
 #define INT32_MAX    2147483647
-#define UINT32_MAX   4294967295
+#define UINT32_MAX   4294967295U
 
-#define INT64_MIN    -9223372036854775808
-#define INT64_MAX    9223372036854775807
-#define UINT64_MAX   18446744073709551615
+#define INT64_MIN    (-INT64_MAX - 1)
+#define INT64_MAX    9223372036854775807LL
+#define UINT64_MAX   18446744073709551615ULL
 
 #define INTMAX_MIN   INT64_MIN
 #define INTMAX_MAX   INT64_MAX
-- 
2.43.0


From a5157f2517103f5c466daa3fd3d4013275471852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 61/96] fix: S_ISFIFO refers to the defined constant

---
 include/sys/stat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sys/stat.h b/include/sys/stat.h
index 2251b3b..457b198 100644
--- a/include/sys/stat.h
+++ b/include/sys/stat.h
@@ -122,7 +122,7 @@ int fchmodat(int dirfd, const char *pathname, mode_t mode, int flags);
 #define S_ISBLK(m)   (((m) & S_IFMT) == S_IFBLK)
 #define S_ISLNK(m)   (((m) & S_IFMT) == S_IFLNK)
 #define S_ISSOCK(m)  (((m) & S_IFMT) == S_IFSOCK)
-#define S_ISFIFO(m)  (((m) & S_IFMT) == S_IFFIFO)
+#define S_ISFIFO(m)  (((m) & S_IFMT) == S_IFIFO)
 
 int stat(const char *pathname, struct stat *buf);
 int fstat(int fd, struct stat *buf);
-- 
2.43.0


From e1c5bd9813ace9b169d9034d77dd68c4988f777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 62/96] fix: PRI*32 macros convert an int

---
 include/inttypes.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/inttypes.h b/include/inttypes.h
index 7eb7023..27b94c0 100644
--- a/include/inttypes.h
+++ b/include/inttypes.h
@@ -1,8 +1,8 @@
 #pragma once
 
-#define PRId32   "ld"
-#define PRIu32   "lu"
-#define PRIx32   "lx"
+#define PRId32   "d"
+#define PRIu32   "u"
+#define PRIx32   "x"
 #define PRIdPTR  "ld"
 #define PRIxPTR  "lx"
 
-- 
2.43.0


From 1e1b9ca48459cc9ba7531ceb875c5424408fa883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 63/96] fix: FLT_MAX and the math constants have full precision

---
 include/float.h |  2 +-
 include/math.h  | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/float.h b/include/float.h
index 27e9955..748fcf6 100644
--- a/include/float.h
+++ b/include/float.h
@@ -19,7 +19,7 @@
 #define FLT_MIN_10_EXP  (-37)
 #define FLT_MAX_10_EXP  (38)
 #define FLT_MIN         (1.1754943508222875e-38)
-#define FLT_MAX         (3.402823669209385e+38)
+#define FLT_MAX         (3.4028234663852886e+38)
 #define FLT_EPSILON     (1.1920928955078125e-07)
 
 #define FLT_ROUNDS  (1)  // TODO
diff --git a/include/math.h b/include/math.h
index 9180869..00508cf 100644
--- a/include/math.h
+++ b/include/math.h
@@ -6,14 +6,14 @@
 #define M_PI_4      (0.78539816339744830962)
 #define M_1_PI      (1.0 / M_PI)
 #define M_2_PI      (2.0 / M_PI)
-#define M_2_SQRTPI  (1.128379167095513)
-#define M_SQRT2     (1.414213562373095)
-#define M_SQRT1_2   (0.707106781186548)
-#define M_E         (2.718281828459045)
-#define M_LOG2E     (1.442695040888963)
-#define M_LOG10E    (0.434294481903252)
-#define M_LN2       (0.693147180559945)
-#define M_LN10      (2.302585092994046)
+#define M_2_SQRTPI  (1.12837916709551257390)
+#define M_SQRT2     (1.41421356237309504880)
+#define M_SQRT1_2   (0.70710678118654752440)
+#define M_E         (2.71828182845904523536)
+#define M_LOG2E     (1.44269504088896340736)
+#define M_LOG10E    (0.43429448190325182765)
+#define M_LN2       (0.69314718055994530942)
+#define M_LN10      (2.30258509299404568402)
 #define NAN         (__builtin_nan("0x7ff8000000000000"))
 #define INFINITY    (1.0 / 0.0)
 #define HUGE_VAL    INFINITY
-- 
2.43.0


From c75c7ce13e31bc196a267420beb27590073de7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:55 +0000
Subject: [PATCH 64/96] fix: log is accurate around 1

---
 libsrc/math/log.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libsrc/math/log.c b/libsrc/math/log.c
index f368975..802a9de 100644
--- a/libsrc/math/log.c
+++ b/libsrc/math/log.c
@@ -9,7 +9,10 @@ double log(double x) {
 
   int n;
   x = frexp(x, &n);
-  // 0.5 <= x < 1.0
+  if (x < M_SQRT1_2) {  // To be accurate around 1.
+    x *= 2;
+    --n;
+  }
 
   double y = (x - 1) / (x + 1);
   double yy = y * y;
-- 
2.43.0


From 910c50c35d37b1db4bde9191a4c901b7efb22bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 65/96] fix: wcc linker binds local symbols to their own
 definition

---
 src/wcc/wasm_linker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wcc/wasm_linker.c b/src/wcc/wasm_linker.c
index 988f438..a255f51 100644
--- a/src/wcc/wasm_linker.c
+++ b/src/wcc/wasm_linker.c
@@ -1133,7 +1133,8 @@ static void apply_relocation_wasmobj(WasmLinker *linker, WasmObj *wasmobj) {
         error("illegal index for reloc: %d", p->index);
       SymbolInfo *sym = symtab->data[p->index];
       SymbolInfo *target = sym;
-      if (!table_try_get(&linker->defined, sym->name, (void**)&target))
+      if (!(sym->flags & WASM_SYM_BINDING_LOCAL) &&
+          !table_try_get(&linker->defined, sym->name, (void**)&target))
         table_try_get(&linker->unresolved, sym->name, (void**)&target);
 
       switch (p->type) {
-- 
2.43.0


From bdbc099cbcc99ea96f0b896dd85fd54062c7bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 66/96] fix: wcc linker reports duplicate definitions in
 archives

---
 src/wcc/wasm_linker.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wcc/wasm_linker.c b/src/wcc/wasm_linker.c
index a255f51..6917c1a 100644
--- a/src/wcc/wasm_linker.c
+++ b/src/wcc/wasm_linker.c
@@ -647,6 +647,7 @@ static void *load_wasmobj(FILE *fp, const char *name, size_t size) {
 static int resolve_symbols_archive(WasmLinker *linker, Archive *ar) {
   Table *unresolved = &linker->unresolved;
   Table *table = &ar->symbol_table;
+  int err_count = 0;
   for (;;) {
     bool retry = false;
     const Name *name;
@@ -658,7 +659,7 @@ static int resolve_symbols_archive(WasmLinker *linker, Archive *ar) {
 
       WasmObj *wasmobj = load_archive_content(ar, symbol, load_wasmobj);
       if (wasmobj != NULL) {
-        resolve_symbols_wasmobj(linker, wasmobj);
+        err_count += resolve_symbols_wasmobj(linker, wasmobj);
         retry = true;
         break;
       }
@@ -666,7 +667,7 @@ static int resolve_symbols_archive(WasmLinker *linker, Archive *ar) {
     if (!retry)
       break;
   }
-  return 0;
+  return err_count;
 }
 
 static void resolve_symbols_auto_fill(WasmLinker *linker) {
-- 
2.43.0


From 8ce65ac10b75218addc8f0b250b563b72602583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 67/96] fix: wcc -l looks for the library it names

---
 src/wcc/wcc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wcc/wcc.c b/src/wcc/wcc.c
index a536b4d..8866ef7 100644
--- a/src/wcc/wcc.c
+++ b/src/wcc/wcc.c
@@ -392,7 +392,7 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         } else {
           StringBuffer sb;
           sb_init(&sb);
-          sb_append(&sb, "-l", optarg);
+          sb_append(&sb, "-l", NULL);
           sb_append(&sb, optarg, NULL);
           p = sb_to_string(&sb);
         }
@@ -584,11 +584,11 @@ static int do_compile(Options *opts) {
         UNUSED(search_library);
         vec_push(obj_files, src);
 #else
-        const char *path = search_library(opts->lib_paths, optarg);
+        const char *path = search_library(opts->lib_paths, &src[2]);
         if (path != NULL) {
           vec_push(obj_files, path);
         } else {
-          fprintf(stderr, "%s: library not found\n", optarg);
+          fprintf(stderr, "%s: library not found\n", &src[2]);
           ++error_count;
         }
 #endif
-- 
2.43.0


From 45a84ae3cee40b2b364549dd8f41433972803245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 68/96] fix: a declaration without a prototype keeps the
 visible prototype

---
 src/cc/frontend/parser.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 429ba6e..275fe1b 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -251,6 +251,13 @@ static Vector *parse_vardecl_cont(Type *rawType, Type *type, int storage, Token
     }
 #endif
 
+    if (type->kind == TY_FUNC && type->func.params == NULL) {
+      // Old-style declaration: the visible prototype is still in effect.
+      VarInfo *visible = scope_find(curscope, ident->ident, NULL);
+      if (visible != NULL && visible->type->kind == TY_FUNC && same_type(visible->type->func.ret, type->func.ret))
+        type = visible->type;
+    }
+
     VarInfo *varinfo = add_var_to_scope(curscope, ident, type, tmp_storage);
     if (type->kind != TY_FUNC) {
       Initializer *init = match(TK_ASSIGN) ? parse_initializer() : NULL;
@@ -794,7 +801,8 @@ static Function *define_func(Type *functype, const Token *ident, const Vector *p
 
     if (varinfo->type->kind != TY_FUNC ||
         !same_type(varinfo->type->func.ret, functype->func.ret) ||
-        (varinfo->type->func.params != NULL && !same_type(varinfo->type, functype))) {
+        (varinfo->type->func.params != NULL && functype->func.params != NULL &&
+         !same_type(varinfo->type, functype))) {
       parse_error(PE_NOFATAL, ident, "Definition conflict: `%.*s'", NAMES(func->ident->ident));
     } else {
       if (varinfo->global.func == NULL) {
-- 
2.43.0


From af4d76651c0d4132c9a4b6d73870441a470b3044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 69/96] fix: atexit accepts 32 functions and calls those
 registered by exit handlers

---
 libsrc/stdlib/atexit.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libsrc/stdlib/atexit.c b/libsrc/stdlib/atexit.c
index 8bdc99c..5b465aa 100644
--- a/libsrc/stdlib/atexit.c
+++ b/libsrc/stdlib/atexit.c
@@ -1,7 +1,7 @@
 #include "stdlib.h"
 #include "_exit.h"
 
-#define MAX  (8)
+#define MAX  (32)
 
 typedef void (*AtexitFunc)(void);
 
@@ -16,10 +16,9 @@ int atexit(void (*func)(void)) {
 }
 
 static void call_atexit_funcs(void) {
-  for (AtexitFunc *p = &buf[count]; p > buf; ) {
-    --p;
-    (*p)();
-  }
+  // A function might register another one.
+  while (count > 0)
+    (*buf[--count])();
 }
 
 __attribute__((constructor))
-- 
2.43.0


From e29578889608abf8ff27580c2afcfe1a7b711dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 70/96] fix: local variables keep their values across setjmp's
 second return

---
 src/cc/backend/codegen.c      |  2 +-
 src/cc/frontend/ast.h         |  1 +
 src/cc/frontend/fe_misc.c     |  3 ++-
 src/cc/frontend/parser_expr.c | 12 ++++++++++++
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cc/backend/codegen.c b/src/cc/backend/codegen.c
index 9548dd7..4082cd9 100644
--- a/src/cc/backend/codegen.c
+++ b/src/cc/backend/codegen.c
@@ -103,7 +103,7 @@ static void alloc_variable_registers(Function *func) {
       VReg *vreg = add_new_vreg(varinfo->type);
       if (varinfo->storage & VS_REF_TAKEN)
         vreg->flag |= VRF_REF;
-      if (varinfo->type->qualifier & TQ_VOLATILE)
+      if ((varinfo->type->qualifier & TQ_VOLATILE) || (func->flag & FUNCF_SETJMP))
         vreg->flag |= VRF_VOLATILE;
       varinfo->local.vreg = vreg;
       varinfo->local.frameinfo = &vreg->frame;
diff --git a/src/cc/frontend/ast.h b/src/cc/frontend/ast.h
index 347fb40..8aee4a2 100644
--- a/src/cc/frontend/ast.h
+++ b/src/cc/frontend/ast.h
@@ -483,6 +483,7 @@ typedef struct Function {
 } Function;
 
 #define FUNCF_NORETURN        (1 << 0)
+#define FUNCF_SETJMP          (1 << 1)  // `setjmp' called: variables must survive the second return.
 
 Function *new_func(Type *type, const Token *ident, const Vector *params, Table *attributes, int flag);
 
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 27fc527..9ad9597 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -2095,7 +2095,8 @@ bool satisfy_inline_criteria(const VarInfo *varinfo) {
     if (func != NULL) {
       // Self-recursion or mutual recursion are prevented,
       // because some inline function must not be defined at funcall point.
-      return func->body_block != NULL && func->label_table == NULL && func->gotos == NULL;
+      return func->body_block != NULL && func->label_table == NULL && func->gotos == NULL &&
+             !(func->flag & FUNCF_SETJMP);
     }
   }
   return false;
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 7e55874..da5fea8 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -655,6 +655,15 @@ static Expr *lparen(Token *tok) {
   return sub->type->kind != TY_VOID ? new_expr_cast(type, token, sub) : sub;
 }
 
+static bool is_setjmp(const Name *name) {
+  static const char *const kNames[] = {"setjmp", "_setjmp", "__builtin_setjmp"};
+  for (size_t i = 0; i < ARRAY_SIZE(kNames); ++i) {
+    if (equal_name(name, alloc_name(kNames[i], NULL, false)))
+      return true;
+  }
+  return false;
+}
+
 static Expr *funcall(Expr *func, Token *tok) {
   Token *dummy;
   Vector *args = parse_args(&dummy);
@@ -679,6 +688,9 @@ static Expr *funcall(Expr *func, Token *tok) {
     if (satisfy_inline_criteria(varinfo))
       return new_expr_inlined(tok, varinfo->ident->ident, rettype, args,
                               embed_inline_funcall(varinfo));
+    if (curfunc != NULL && is_setjmp(varinfo->ident->ident))
+      curfunc->flag |= FUNCF_SETJMP;
+
     // Not inlined.
     if (varinfo->storage & VS_INLINE)
       varinfo->storage |= VS_EXTERN;  // To emit inline function.
-- 
2.43.0


From 9adf549216d0e7729dc9118b75e31c597e125c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:11 +0000
Subject: [PATCH 71/96] fix: wcc: output of destructors is flushed

---
 libsrc/stdio/_fileman.c |  4 +++-
 libsrc/stdio/stdin.c    |  4 +++-
 libsrc/stdlib/_exit.h   | 15 +++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/libsrc/stdio/_fileman.c b/libsrc/stdio/_fileman.c
index c9d729d..0faf1d4 100644
--- a/libsrc/stdio/_fileman.c
+++ b/libsrc/stdio/_fileman.c
@@ -4,6 +4,7 @@
 
 #include "_file.h"
 #include "_fileman.h"
+#include "../stdlib/_exit.h"
 
 #define INITIAL_CAPACITY  (4)
 
@@ -56,7 +57,8 @@ int _flush_all_files(void) {
   return result;
 }
 
-__attribute__((destructor))
 static void flush_on_exit(void) {
   flush_opened_files();
 }
+
+CALL_ON_EXIT(flush_on_exit)
diff --git a/libsrc/stdio/stdin.c b/libsrc/stdio/stdin.c
index b80d27e..440f16f 100644
--- a/libsrc/stdio/stdin.c
+++ b/libsrc/stdio/stdin.c
@@ -3,6 +3,7 @@
 
 #include "_file.h"
 #include "_fileman.h"
+#include "../stdlib/_exit.h"
 
 #define FFLUSH  _fflush
 
@@ -55,8 +56,9 @@ FILE *stdout = &_stdout.file;
 FILE *stderr = &_stderr.file;
 #endif
 
-__attribute__((destructor))
 static void flush_std_files(void) {
   FFLUSH(stdout);
   FFLUSH(stderr);
 }
+
+CALL_ON_EXIT(flush_std_files)
diff --git a/libsrc/stdlib/_exit.h b/libsrc/stdlib/_exit.h
index 7512bb4..0ce2fb4 100644
--- a/libsrc/stdlib/_exit.h
+++ b/libsrc/stdlib/_exit.h
@@ -6,3 +6,18 @@ typedef struct OnExitChain {
 } OnExitChain;
 
 extern OnExitChain *__on_exit_chain;
+
+// Call the function at the very end of exit: after atexit functions and destructors.
+#if defined(__APPLE__)
+#define CALL_ON_EXIT(func_) \
+  __attribute__((destructor)) static void func_##_dtor(void) { func_(); }
+#else
+#define CALL_ON_EXIT(func_) \
+  __attribute__((constructor)) static void func_##_ctor(void) { \
+    static OnExitChain chain = {NULL, func_}; \
+    OnExitChain **pp = &__on_exit_chain; \
+    while (*pp != NULL) \
+      pp = &(*pp)->next; \
+    *pp = &chain; \
+  }
+#endif
-- 
2.43.0


From 7c613c5810fe95b9345b85540146e8c8871eaa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:53 +0000
Subject: [PATCH 72/96] fix: qsort recursion depth is logarithmic

---
 libsrc/stdlib/qsort.c | 63 +++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/libsrc/stdlib/qsort.c b/libsrc/stdlib/qsort.c
index d97f590..3c34a91 100644
--- a/libsrc/stdlib/qsort.c
+++ b/libsrc/stdlib/qsort.c
@@ -3,39 +3,44 @@
 #include "string.h"  // memcpy
 
 void qsort(void *base, size_t nmemb, size_t size, int (*compare)(const void *, const void *)) {
-  if (nmemb <= 1)
-    return;
-
+  char *tmp = nmemb > 1 ? alloca(size) : NULL;
   char *a = base;
-  const char *px;
+  while (nmemb > 1) {
+    const char *px = &a[(nmemb >> 1) * size];
+    size_t i = 0;
+    size_t j = nmemb - 1;
+    for (;;) {
+      while (compare(&a[i * size], px) < 0)
+        ++i;
+      while (compare(px, &a[j * size]) < 0)
+        --j;
+      if (i >= j)
+        break;
+
+      char *pi = &a[i * size];
+      char *pj = &a[j * size];
+      memcpy(tmp, pi, size);
+      memcpy(pi, pj, size);
+      memcpy(pj, tmp, size);
 
-  px = &a[(nmemb >> 1) * size];
-  size_t i = 0;
-  size_t j = nmemb - 1;
-  char *tmp = alloca(size);
-  for (;;) {
-    while (compare(&a[i * size], px) < 0)
+      if (px == pi)
+        px = pj;
+      else if (px == pj)
+        px = pi;
       ++i;
-    while (compare(px, &a[j * size]) < 0)
       --j;
-    if (i >= j)
-      break;
-
-    char *pi = &a[i * size];
-    char *pj = &a[j * size];
-    memcpy(tmp, pi, size);
-    memcpy(pi, pj, size);
-    memcpy(pj, tmp, size);
+    }
 
-    if (px == pi)
-      px = pj;
-    else if (px == pj)
-      px = pi;
-    ++i;
-    --j;
+    // Recur into the shorter part, and continue with the longer one: The depth is logarithmic.
+    char *right = &a[(j + 1) * size];
+    size_t nright = nmemb - j - 1;
+    if (i < nright) {
+      qsort(a, i, size, compare);
+      a = right;
+      nmemb = nright;
+    } else {
+      qsort(right, nright, size, compare);
+      nmemb = i;
+    }
   }
-  if (i > 1)
-    qsort(a, i, size, compare);
-  if (j + 2 < nmemb)
-    qsort(&a[(j + 1) * size], nmemb - j - 1, size, compare);
 }
-- 
2.43.0


From f2a50233724715e18913e96cced889ac2b706e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 73/96] fix: system call wrappers report errors through errno
 and have their call numbers

---
 libsrc/unistd/_syscall.h | 4 ++++
 libsrc/unistd/getcwd.c   | 1 -
 libsrc/unistd/write.c    | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libsrc/unistd/_syscall.h b/libsrc/unistd/_syscall.h
index ad40a16..b17e9dd 100644
--- a/libsrc/unistd/_syscall.h
+++ b/libsrc/unistd/_syscall.h
@@ -43,8 +43,12 @@
 #define __NR_chmod   90
 #define __NR_time    201
 #define __NR_clock_gettime  228
+#define __NR_openat      257
 #define __NR_mkdirat     258
 #define __NR_newfstatat  262
+#define __NR_unlinkat    263
+#define __NR_fchmodat    268
+#define __NR_pipe2       293
 
 #elif defined(__aarch64__)
 
diff --git a/libsrc/unistd/getcwd.c b/libsrc/unistd/getcwd.c
index c76c12e..25b8f44 100644
--- a/libsrc/unistd/getcwd.c
+++ b/libsrc/unistd/getcwd.c
@@ -28,7 +28,6 @@ char *getcwd(char *buffer, size_t size) {
   }
   int result = _getcwd(buffer, size);
   if (result < 0) {
-    errno = -result;
     free(allocated);
     return NULL;
   }
diff --git a/libsrc/unistd/write.c b/libsrc/unistd/write.c
index 2cab80d..547be69 100644
--- a/libsrc/unistd/write.c
+++ b/libsrc/unistd/write.c
@@ -6,6 +6,7 @@
 ssize_t write(int fd, const void *str, size_t len) {
   ssize_t ret;
   SYSCALL_RET(__NR_write, ret);
+  SET_ERRNO(ret);
   return ret;
 }
 
-- 
2.43.0


From ca11a77cd2c616cf0c506661df2ad510d53fed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:08 +0000
Subject: [PATCH 74/96] fix: wcc: close reports an error as -1

---
 libsrc/_wasm/unistd/close.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libsrc/_wasm/unistd/close.c b/libsrc/_wasm/unistd/close.c
index 3b2a9d4..92ab468 100644
--- a/libsrc/_wasm/unistd/close.c
+++ b/libsrc/_wasm/unistd/close.c
@@ -1,6 +1,10 @@
 #include "unistd.h"
+#include "errno.h"
 #include "../wasi.h"
 
 int close(int fd) {
-  return fd_close(fd);
+  if (fd_close(fd) == 0)
+    return 0;
+  errno = EBADF;  // TODO
+  return -1;
 }
-- 
2.43.0


From cc33e682ca4d63c95301a95778626ec33dc109e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 75/96] fix: keep empty sections which have a label (as, ld)

---
 src/as/emit_elf.c  | 17 +++++++++++++----
 src/as/parse_asm.h |  1 +
 src/ld/elfobj.c    | 23 ++++++++++++-----------
 src/ld/ld.c        |  6 ++++--
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/as/emit_elf.c b/src/as/emit_elf.c
index fe71a3b..418b263 100644
--- a/src/as/emit_elf.c
+++ b/src/as/emit_elf.c
@@ -96,7 +96,7 @@ static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table
   // SECTION
   for (int i = 0; i < sections->len; ++i) {
     SectionInfo *section = sections->data[i];
-    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0)
+    if (section->index <= 0)
       continue;
     sym = symtab_add(symtab, nulname);
     sym->st_info = ELF64_ST_INFO(STB_LOCAL, STT_SECTION);
@@ -321,10 +321,19 @@ static void construct_relas(Vector *unresolved, Symtab *symtab, Table *label_tab
 #define ELF_MIN_ALIGN  0x08
 
 int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *unresolved) {
+  // A section is needed even if it is empty, when a label is put in it.
+  const Name *label_name;
+  LabelInfo *label_info;
+  for (int it = 0; (it = table_iterate(label_table, it, &label_name, (void**)&label_info)) != -1; ) {
+    if (label_info->section != NULL)
+      label_info->section->flag |= SF_LABELED;
+  }
+
   int out_section_count = 0;
   for (int sec = 0; sec < sections->len; ++sec) {
     SectionInfo *section = sections->data[sec];
-    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0)
+    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0 &&
+        !(section->flag & SF_LABELED))
       continue;
     section->index = ++out_section_count;
   }
@@ -386,9 +395,9 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   const Name *fini_array_name = alloc_name(".fini_array", NULL, false);
   for (int sec = 0; sec < sections->len; ++sec) {
     SectionInfo *section = sections->data[sec];
-    size_t size = section->ds != NULL ? section->ds->len : section->bss_size;
-    if (size <= 0)
+    if (section->index <= 0)
       continue;
+    size_t size = section->ds != NULL ? section->ds->len : section->bss_size;
     Elf64_Xword flags = SHF_ALLOC;
     if (section->flag & SF_EXECUTABLE)
       flags |= SHF_EXECINSTR;
diff --git a/src/as/parse_asm.h b/src/as/parse_asm.h
index 1e2a78b..4ef0b86 100644
--- a/src/as/parse_asm.h
+++ b/src/as/parse_asm.h
@@ -43,6 +43,7 @@ enum DirectiveType {
 #define SF_EXECUTABLE    (1 << 0)
 #define SF_WRITABLE      (1 << 1)
 #define SF_BSS           (1 << 2)
+#define SF_LABELED       (1 << 3)  // Has a label.
 #define SF_INIT_FUNCS    (1 << 8)
 #define SF_CSTRLITERALS  (1 << 9)
 
diff --git a/src/ld/elfobj.c b/src/ld/elfobj.c
index c6f0ae2..6f0ae08 100644
--- a/src/ld/elfobj.c
+++ b/src/ld/elfobj.c
@@ -104,21 +104,22 @@ ElfObj *read_elf(FILE *fp, const char *fn) {
     ElfSectionInfo *p = &section_infos[i];
     p->elfobj = elfobj;
     p->shdr = shdr;
-    if (shdr->sh_size > 0) {
-      switch (shdr->sh_type) {
-      case SHT_NOBITS:
+    // An empty section needs an address, too: a symbol might be defined in it.
+    switch (shdr->sh_type) {
+    case SHT_NOBITS:
+      if (shdr->sh_size > 0) {
         if (elfobj->nobit_shndx >= 0)
           error("Multiple NOBITS sections not supported");
         elfobj->nobit_shndx = i;
-        // Fallthrough
-      case SHT_PROGBITS:
-      case SHT_INIT_ARRAY:
-      case SHT_FINI_ARRAY:
-      case SHT_PREINIT_ARRAY:
-        vec_push(prog_sections, p);
-        break;
-      default: break;
       }
+      // Fallthrough
+    case SHT_PROGBITS:
+    case SHT_INIT_ARRAY:
+    case SHT_FINI_ARRAY:
+    case SHT_PREINIT_ARRAY:
+      vec_push(prog_sections, p);
+      break;
+    default: break;
     }
   }
   elfobj->prog_sections = prog_sections;
diff --git a/src/ld/ld.c b/src/ld/ld.c
index f4c6d58..69b622d 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -455,7 +455,6 @@ static void collect_sections_elfobj(LinkEditor *ld, ElfObj *elfobj, const char *
     assert(shdr->sh_type == SHT_PROGBITS || shdr->sh_type == SHT_NOBITS ||
            shdr->sh_type == SHT_INIT_ARRAY || shdr->sh_type == SHT_FINI_ARRAY ||
            shdr->sh_type == SHT_PREINIT_ARRAY);
-    assert(shdr->sh_size > 0);
 
     const char *s = &strbuf[shdr->sh_name];
     if (strcmp(s, name) == 0) {  // TODO: Wild card
@@ -539,6 +538,8 @@ static void add_elf_section(SectionGroup section_groups[SECTION_COUNT], const El
   assert(align <= secgroup->align);
   assert(secgroup->ds != NULL);
   data_align(secgroup->ds, align);
+  if (shdr->sh_size <= 0)
+    return;
   void *content = p->progbits.content;
   assert(content != NULL);
   data_append(secgroup->ds, content, shdr->sh_size);
@@ -641,7 +642,8 @@ static void ld_load_elf_objects(Vector *section_lists[SECTION_COUNT]) {
             case SHT_PREINIT_ARRAY:
               {
                 Elf64_Xword size = shdr->sh_size;
-                assert(size > 0);
+                if (size <= 0)
+                  break;
 
                 ElfObj *elfobj = p->elfobj;
                 void *buf = read_or_die(elfobj->fp, NULL, shdr->sh_offset + elfobj->start_offset, size, "read error");
-- 
2.43.0


From 3c3aa192a65716789deb47be0026c6f15073e918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 76/96] fix: diagnose invalid programs instead of crashing or
 accepting them silently

---
 src/cc/frontend/fe_misc.c     |  48 ++++++++++---
 src/cc/frontend/initializer.c |  25 ++++---
 src/cc/frontend/parser.c      |  41 ++++++++---
 src/cc/frontend/parser_expr.c |  63 +++++++++++++----
 src/cc/frontend/parser_type.c | 129 ++++++++++++++++++----------------
 src/cc/frontend/type.c        |   2 +-
 6 files changed, 207 insertions(+), 101 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 9ad9597..2be1545 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -114,8 +114,9 @@ void check_type_combination(const TypeCombination *tc, const Token *tok) {
   if (tc->unsigned_num > 1 || tc->signed_num > 1 ||
       tc->char_num > 1 || tc->short_num > 1 || tc->int_num > 1 ||
       tc->long_num >= (int)ARRAY_SIZE(kLongKinds) ||
+      (tc->unsigned_num > 0 && tc->signed_num > 0) || (tc->char_num > 0 && tc->int_num > 0) ||
       ((tc->char_num > 0) + (tc->short_num > 0) + (tc->long_num > 0) > 1) ||
-      tc->float_num > 1 || tc->double_num > 1 ||
+      tc->float_num + tc->double_num > 1 ||
       ((tc->float_num > 0 || tc->double_num > 0) &&
        (tc->char_num > 0 || tc->short_num > 0 || tc->int_num > 0 || tc->long_num > 0 ||
         tc->unsigned_num > 0 || tc->signed_num > 0) &&
@@ -327,7 +328,7 @@ bool check_cast(const Type *dst, const Type *src, bool zero, bool is_explicit, c
     fprintf(stderr, "%s(%d): ", token->line->filename, token->line->lineno);
 
     enum ParseErrorLevel level = PE_WARNING;
-    if (dst->kind == TY_ARRAY || !is_prim_type(dst) ||
+    if (dst->kind == TY_ARRAY || !is_prim_type(dst) || is_flonum(dst) || is_flonum(src) ||
         !(is_prim_type(src) || (src->kind == TY_ARRAY && dst->kind == TY_PTR)))
       level = PE_NOFATAL;
     else if (!cc_flags.warn_as_error)
@@ -344,7 +345,10 @@ bool check_cast(const Type *dst, const Type *src, bool zero, bool is_explicit, c
 }
 
 Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
-  check_cast(type, sub->type, is_zero(sub), is_explicit, token);
+  if (!check_cast(type, sub->type, is_zero(sub), is_explicit, token) && !is_prim_type(type)) {
+    sub->type = type;  // Error is already reported.
+    return sub;
+  }
   if (same_type(type, sub->type)) {
     sub->type = type;
     return sub;
@@ -364,7 +368,8 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
                               type_size(type), type->fixnum.is_unsigned);
         return new_expr_fixlit(type, sub->token, fixnum);
       }
-      assert(type->kind == TY_FLONUM);
+      if (type->kind != TY_FLONUM)  // Error is already reported.
+        return new_expr_fixlit(type, sub->token, 0);
       return new_expr_flolit(type, sub->token, sub->flonum);
     case EX_FIXNUM:
       if (type->kind == TY_FLONUM) {
@@ -617,11 +622,17 @@ void propagate_var_used(void) {
   }
 }
 
+static void check_referable(const Token *tok, Expr *expr, const char *error);
+
 void check_lval(const Token *tok, Expr *expr, const char *error) {
   switch (expr->kind) {
+  case EX_MEMBER:
+    // Member of a value which is not lvalue, such as a function result.
+    if (expr->member.target->type->kind == TY_STRUCT)
+      check_referable(tok, expr->member.target, error);
+    break;
   case EX_VAR:
   case EX_DEREF:
-  case EX_MEMBER:
     break;
   default:
     parse_error(PE_NOFATAL, tok, error);
@@ -1188,6 +1199,13 @@ static Expr *transform_incdec_of_vla_ptr(enum ExprKind kind, Expr *target, const
 
 Expr *incdec_of(enum ExprKind kind, Expr *target, const Token *tok) {
   check_referable(tok, target, "lvalue expected");
+  if (!is_number(target->type) && target->type->kind != TY_PTR) {
+    parse_error(PE_NOFATAL, tok, "Cannot apply `%.*s' except number or pointer types",
+                (int)(tok->end - tok->begin), tok->begin);
+    return target;
+  }
+  if (target->type->kind == TY_PTR && !ensure_struct(target->type->pa.ptrof, tok, curscope))
+    return target;
 #ifndef __NO_BITFIELD
   if (target->kind == EX_MEMBER) {
     const MemberInfo *minfo = target->member.info;
@@ -1212,6 +1230,11 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
   // Adjust type for comparison.
   {
     Type *lt = lhs->type, *rt = rhs->type;
+    if (!(is_number(lt) && is_number(rt)) &&
+        !((ptr_or_array(lt) || is_fixnum(lt->kind)) && (ptr_or_array(rt) || is_fixnum(rt->kind)))) {
+      parse_error(PE_NOFATAL, tok, "Cannot compare these types");
+      return new_expr_fixlit(&tyBool, tok, 0);  // Dummy
+    }
     if (is_number(lt) && is_number(rt)) {
       if (is_fixnum(lt->kind) && is_fixnum(rt->kind)) {
         if (lt->fixnum.kind < FX_INT)
@@ -1486,8 +1509,11 @@ void check_funcall_args(Expr *func, Vector *args, Scope *scope) {
     int argc = args->len;
     int paramc = types->len;
     if (!(argc == paramc || (vaargs && argc >= paramc))) {
-      parse_error(PE_NOFATAL, func->token, "function `%.*s' expect %d arguments, but %d",
-                  NAMES(func->var.name), paramc, argc);
+      if (func->kind == EX_VAR)
+        parse_error(PE_NOFATAL, func->token, "function `%.*s' expect %d arguments, but %d",
+                    NAMES(func->var.name), paramc, argc);
+      else
+        parse_error(PE_NOFATAL, func->token, "function expect %d arguments, but %d", paramc, argc);
       return;
     }
   }
@@ -1496,6 +1522,11 @@ void check_funcall_args(Expr *func, Vector *args, Scope *scope) {
   for (int i = 0, len = args->len; i < len; ++i) {
     Expr *arg = args->data[i];
     arg = str_to_char_array_var(scope, arg);
+    if (arg->type->kind == TY_VOID) {
+      parse_error(PE_NOFATAL, arg->token, "`void' not allowed");
+      args->data[i] = new_expr_fixlit(&tyInt, arg->token, 0);  // Dummy
+      continue;
+    }
     if (arg->type->kind == TY_ARRAY)
       arg = make_cast(array_to_ptr(arg->type), arg->token, arg, false);
     if (i < paramc) {
@@ -1573,7 +1604,8 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
   if (ftype->kind == TY_ARRAY)
     ftype = array_to_ptr(ftype);
 
-  if (same_type(ttype, ftype))
+  if (same_type(ttype, ftype) ||
+      (ttype->kind == TY_STRUCT && same_type_without_qualifier(ttype, ftype, true)))
     return ttype;
   if (ttype->kind == TY_PTR) {
     if (ftype->kind == TY_PTR) {  // Both pointer type
diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 8fd696f..7f23226 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -63,7 +63,7 @@ Type *fix_array_size(Type *type, Initializer *init, const Token *token) {
     cloned->pa.length = arr_len;
     return cloned;
   } else {
-    assert(arr_len > 0);
+    assert(arr_len >= 0);
     assert(!is_str || init->single->kind == EX_STR);
     ssize_t init_len = is_str ? (ssize_t)init->single->str.len : (ssize_t)init->multi->len;
     if (init_len > arr_len && (!is_str || init_len - 1 > arr_len))  // Allow non-nul string.
@@ -490,6 +490,12 @@ static Initializer *flatten_initializer_multi(Type *type, Initializer *init) {
   return flattener.flattened;
 }
 
+static Initializer *dummy_initializer(const Token *token) {
+  Initializer *init = new_initializer(IK_SINGLE, token);
+  init->single = new_expr_fixlit(&tyInt, token, 0);
+  return init;
+}
+
 Initializer *flatten_initializer(Type *type, Initializer *init) {
   if (init == NULL)
     return NULL;
@@ -537,7 +543,7 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
       }
       if (init->multi->len != 1 || ((Initializer*)init->multi->data[0])->kind != IK_SINGLE) {
         parse_error(PE_NOFATAL, init->token, "Requires scaler");
-        break;
+        return dummy_initializer(init->token);
       }
       init = init->multi->data[0];
       assert(init->kind == IK_SINGLE);
@@ -546,8 +552,7 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
       break;
     default:
       parse_error(PE_NOFATAL, init->token, "Error initializer");
-      // TODO: Modify init
-      break;
+      return dummy_initializer(init->token);
     }
   }
   return init;
@@ -579,7 +584,8 @@ static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
       if (!is_global_scope(scope) && !(varinfo->storage & VS_STATIC) &&
           get_callee_type(value->type) == NULL) {
         parse_error(PE_NOFATAL, value->token, "Allowed global reference only");
-        return NULL;
+        *isconst = true;  // Error is already reported.
+        break;
       }
       *isconst = value->type->kind == TY_ARRAY || value->type->kind == TY_FUNC ||
                  (value->type->kind == TY_PTR && value->type->pa.ptrof->kind == TY_FUNC);
@@ -611,7 +617,8 @@ static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
     value->member.target = check_global_initializer_fixnum(value->member.target, isconst);
     if (value->token->kind != TK_DOT && !*isconst) {
       parse_error(PE_NOFATAL, value->token, "Allowed global reference only");
-      return NULL;
+      *isconst = true;  // Error is already reported.
+      break;
     }
     *isconst = value->type->kind == TY_ARRAY;
     break;
@@ -677,7 +684,6 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
       {
         Expr *e = strip_cast(init->single);
         if (e->kind == EX_STR && is_char_type(type->pa.ptrof, e->str.kind)) {
-          assert(type->pa.length > 0);
           if ((ssize_t)e->str.len - 1 > type->pa.length) {  // Allow non-nul string.
             parse_error(PE_NOFATAL, init->single->token, "Array size shorter than initializer");
           }
@@ -709,7 +715,7 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
     }
     break;
   case TY_VOID: case TY_FUNC: case TY_AUTO:
-    assert(false);
+    parse_error(PE_NOFATAL, init->token, "cannot initialize");
     break;
   }
   return init;
@@ -946,7 +952,8 @@ Initializer *check_vardecl(Type **ptype, const Token *ident, int storage, Initia
     // TODO: Check `init` can be cast to `type`.
     if (storage & VS_STATIC) {
       VarInfo *gvarinfo = varinfo->static_.svar;
-      assert(gvarinfo != NULL);
+      if (gvarinfo == NULL)  // Redefinition: Error is already reported.
+        return NULL;
       gvarinfo->global.init = init = check_global_initializer(type, init);
       gvarinfo->type = type;
       // static variable initializer is handled in codegen, same as global variable.
diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 275fe1b..49b911a 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -279,7 +279,10 @@ static Vector *parse_vardecl_cont(Type *rawType, Type *type, int storage, Token
           case TY_ARRAY:
             type = array_to_ptr(type);
             break;
-          case TY_VOID: assert(false); break;
+          case TY_VOID:
+            parse_error(PE_NOFATAL, ident, "`void' not allowed");
+            type = NULL;
+            break;
           default:
             if (type->qualifier != 0) {
               type = clone_type(type);
@@ -341,15 +344,26 @@ static bool parse_vardecl(Vector *stmts) {
   return true;
 }
 
+// Parse a sub-statement, which must exist.
+static Stmt *parse_substmt(void) {
+  Stmt *stmt = parse_stmt();
+  if (stmt == NULL) {
+    Token *tok = fetch_token();
+    parse_error(PE_NOFATAL, tok, "statement expected");
+    stmt = new_stmt(ST_EMPTY, tok);  // Dummy
+  }
+  return stmt;
+}
+
 static Stmt *parse_if(const Token *tok) {
   consume(TK_LPAR, "`(' expected");
   Expr *cond = parse_expr();
   mark_var_used(cond);
   consume(TK_RPAR, "`)' expected");
-  Stmt *tblock = parse_stmt();
+  Stmt *tblock = parse_substmt();
   Stmt *fblock = NULL;
   if (match(TK_ELSE)) {
-    fblock = parse_stmt();
+    fblock = parse_substmt();
   }
   return new_stmt_if(tok, make_cond(cond), tblock, fblock);
 }
@@ -358,16 +372,19 @@ static Stmt *parse_switch(const Token *tok) {
   consume(TK_LPAR, "`(' expected");
   Expr *value = parse_expr();
   mark_var_used(value);
-  not_void(value->type, value->token);
-  if (is_fixnum(value->type->kind))
+  if (is_fixnum(value->type->kind)) {
     value = promote_to_int(value);
+  } else {
+    parse_error(PE_NOFATAL, value->token, "integer expected for `switch'");
+    value = new_expr_fixlit(&tyInt, value->token, 0);  // Dummy
+  }
   consume(TK_RPAR, "`)' expected");
 
   Stmt *stmt = new_stmt_switch(tok, value);
   SAVE_LOOP_SCOPE(save, stmt, NULL);
   loop_scope.swtch = stmt;
 
-  stmt->switch_.body = parse_stmt();
+  stmt->switch_.body = parse_substmt();
 
   RESTORE_LOOP_SCOPE(save);
 
@@ -433,7 +450,7 @@ static Stmt *parse_while(const Token *tok) {
 
   SAVE_LOOP_SCOPE(save, stmt, stmt);
 
-  stmt->while_.body = parse_stmt();
+  stmt->while_.body = parse_substmt();
 
   RESTORE_LOOP_SCOPE(save);
 
@@ -445,7 +462,7 @@ static Stmt *parse_do_while(const Token *tok) {
 
   SAVE_LOOP_SCOPE(save, stmt, stmt);
 
-  stmt->while_.body = parse_stmt();
+  stmt->while_.body = parse_substmt();
 
   RESTORE_LOOP_SCOPE(save);
 
@@ -472,6 +489,8 @@ static Stmt *parse_for(const Token *tok) {
     if (type != NULL) {
       if (ident == NULL)
         parse_error(PE_FATAL, NULL, "ident expected");
+      if (storage & (VS_STATIC | VS_EXTERN | VS_TYPEDEF))
+        parse_error(PE_NOFATAL, ident, "storage class specifier not allowed");
       scope = enter_scope(curfunc);
       decls = parse_vardecl_cont(rawType, type, storage, ident);
     } else {
@@ -497,7 +516,7 @@ static Stmt *parse_for(const Token *tok) {
 
   SAVE_LOOP_SCOPE(save, stmt, stmt);
 
-  stmt->for_.body = parse_stmt();
+  stmt->for_.body = parse_substmt();
 
   RESTORE_LOOP_SCOPE(save);
 
@@ -528,7 +547,7 @@ extern inline Stmt *parse_break_continue(enum StmtKind kind, const Token *tok) {
   if (parent == NULL) {
     parse_error(PE_NOFATAL, tok, "`%.*s' cannot be used outside of loop",
                 (int)(tok->end - tok->begin), tok->begin);
-    return NULL;
+    return new_stmt(ST_EMPTY, tok);  // Dummy
   }
   Stmt *stmt = new_stmt(kind, tok);
   stmt->break_.parent = parent;
@@ -999,6 +1018,8 @@ static void parse_global_var_decl(Type *rawtype, int storage, Type *type, Token
 
     // Next declaration.
     type = parse_declarator(rawtype, &ident);
+    if (ident == NULL)
+      parse_error(PE_NOFATAL, NULL, "ident expected");
   }
   consume(TK_SEMICOL, "`;' or `,' expected");
 }
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index da5fea8..aedddcf 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -77,11 +77,11 @@ static Expr *parse_member_access(Expr *target, Token *acctok) {
   if (!ensure_struct(type, ident, curscope))
     return new_expr_fixlit(&tyInt, acctok, 0);  // TODO
 
+  const Type *stype = type;
   int index = find_struct_member(type->struct_.info, ident->ident);
   if (index >= 0) {
     const MemberInfo *minfo = &type->struct_.info->members[index];
-    Type *type = acctok->kind == TK_DOT ? qualified_type(minfo->type, target->type->qualifier)
-                                        : minfo->type;
+    Type *type = qualified_type(minfo->type, stype->qualifier);
     return new_expr_member(acctok, type, target, ident->ident, minfo);
   } else {
     Vector *stack = new_vector();
@@ -127,7 +127,14 @@ Type *parse_var_def(Type **prawType, int *pstorage, Token **pident) {
 
 static Expr *parse_compound_literal(Type *type) {
   Token *token = fetch_token();
-  Initializer *init = flatten_initializer(type, parse_initializer());
+  bool complete = ensure_struct(type, token, curscope);
+  Initializer *init = parse_initializer();
+  if (!complete || type->kind == TY_VOID || type->kind == TY_FUNC) {
+    if (complete)
+      parse_error(PE_NOFATAL, token, "Illegal type for compound literal");
+    return new_expr_fixlit(&tyInt, token, 0);  // Dummy
+  }
+  init = flatten_initializer(type, init);
 
   if (type->kind == TY_ARRAY)
     type = fix_array_size(type, init, token);
@@ -179,7 +186,10 @@ static Expr *parse_generic(void) {
         parse_error(PE_NOFATAL, tok, "multiple default values");
       default_value = expr;
     } else {
-      // TODO: Type duplication check.
+      for (int i = 0; i < types->len; ++i) {
+        if (same_type(type, types->data[i]))
+          parse_error(PE_NOFATAL, tok, "type duplicated");
+      }
       vec_push(types, type);
       vec_push(exprs, expr);
     }
@@ -208,7 +218,7 @@ static Expr *parse_generic(void) {
   }
   if (default_value == NULL) {
     parse_error(PE_NOFATAL, target->token, "no matching type found");
-    default_value = exprs->data[0];
+    default_value = exprs->len > 0 ? exprs->data[0] : new_expr_fixlit(&tyInt, target->token, 0);
   }
   return default_value;
 }
@@ -264,7 +274,7 @@ static Expr *parse_precedence(Precedence precedence) {
   if (prefixRule == NULL) {
     parse_error(PE_NOFATAL, previous, "expression expected");
     unget_token(previous);
-    return NULL;
+    return new_expr_fixlit(&tyInt, previous, 0);  // Dummy
   }
 
   return parse_infix(prefixRule(previous), precedence);
@@ -382,6 +392,8 @@ static Expr *unary(Token *tok) {
     not_const(expr->type, tok);
     return incdec_of(kind + (EX_PREINC - TK_INC), expr, tok);
   case TK_NOT:
+    if (expr->type->kind == TY_FUNC)
+      expr = make_refer(tok, expr);
     if (!is_number(expr->type) && !ptr_or_array(expr->type)) {
       parse_error(PE_NOFATAL, tok, "Cannot apply `!' except number or pointer types");
       return new_expr_fixlit(&tyBool, tok, false);
@@ -408,7 +420,7 @@ static Expr *unary(Token *tok) {
         type = type->pa.ptrof;
         break;
       case TY_FUNC:
-        break;
+        return expr;  // Function designator.
       default:
         parse_error(PE_NOFATAL, tok, "Cannot dereference raw type");
         return expr;
@@ -442,12 +454,16 @@ static Expr *binary(Expr *lhs, Token *tok) {
   switch (kind) {
   case TK_ADD: case TK_SUB:
     return new_expr_addsub(kind + (EX_ADD - TK_ADD), tok, lhs, rhs);
-  case TK_MUL: case TK_DIV: case TK_MOD:
+  case TK_MOD:
+    return new_expr_int_bop(EX_MOD, tok, lhs, rhs);
+  case TK_MUL: case TK_DIV:
     return new_expr_num_bop(kind + (EX_MUL - TK_MUL), tok, lhs, rhs);
   case TK_LSHIFT: case TK_RSHIFT:
     if (!is_fixnum(lhs->type->kind) ||
-        !is_fixnum(rhs->type->kind))
+        !is_fixnum(rhs->type->kind)) {
       parse_error(PE_NOFATAL, tok, "Cannot use `%.*s' except numbers.", (int)(tok->end - tok->begin), tok->begin);
+      return new_expr_fixlit(&tyInt, tok, 0);  // Dummy
+    }
 
     lhs = promote_to_int(lhs);
     if (is_const(lhs) && is_const(rhs)) {
@@ -481,9 +497,12 @@ static Expr *binary(Expr *lhs, Token *tok) {
     else
       return new_expr_bop(kind + (EX_LOGAND - TK_LOGAND), &tyBool, tok, lhs, rhs);
   case TK_COMMA:
-    if (is_const(lhs))
+    lhs = str_to_char_array_var(curscope, lhs);
+    rhs = str_to_char_array_var(curscope, rhs);
+    if (is_const(lhs) && is_const(rhs))
       return rhs;
-    return new_expr_bop(EX_COMMA, rhs->type, tok, lhs, rhs);
+    return new_expr_bop(EX_COMMA, rhs->type->kind == TY_ARRAY ? array_to_ptr(rhs->type) : rhs->type,
+                        tok, lhs, rhs);
 
   default: assert(false); return NULL;  // Unreachable.
   }
@@ -538,8 +557,16 @@ static Expr *assign(Expr *lhs, Token *tok) {
   switch (lhs->type->kind) {
   case TY_ARRAY:
   case TY_FUNC:
-    parse_error(PE_NOFATAL, tok, "Cannot assign to %s", lhs->type->kind == TY_ARRAY ? "array" : "function");
+  case TY_VOID:
+    parse_error(PE_NOFATAL, tok, "Cannot assign to %s",
+                lhs->type->kind == TY_ARRAY  ? "array"
+                : lhs->type->kind == TY_FUNC ? "function"
+                                             : "void");
     return rhs;
+  case TY_STRUCT:
+    if (!ensure_struct(lhs->type, tok, curscope))
+      return rhs;
+    break;
   default: break;
   }
 
@@ -596,6 +623,8 @@ static Expr *array_index(Expr *expr, Token *token) {
   }
   if (!is_fixnum(index->type->kind)) {
     parse_error(PE_NOFATAL, index->token, "int required for `['");
+  } else if (expr->type->pa.ptrof->kind == TY_FUNC) {
+    parse_error(PE_NOFATAL, expr->token, "Cannot index function");
   } else {
     expr = new_expr_addsub(EX_ADD, token, expr, index);
   }
@@ -617,6 +646,8 @@ static Expr *lparen(Token *tok) {
       return grouping();
 
     // gcc extension: Statement expression ({})
+    if (curfunc == NULL)
+      parse_error(PE_FATAL, tok, "statement expression not allowed outside of function");
     Stmt *block = parse_block(tok, NULL);
     consume(TK_RPAR, "`)' expected");
     Vector *stmts = block->block.stmts;
@@ -645,6 +676,8 @@ static Expr *lparen(Token *tok) {
   Expr *sub = parse_precedence(PREC_POSTFIX);
   mark_var_used(sub);
   sub = str_to_char_array_var(curscope, sub);
+  if (!ensure_struct(type, token, curscope))
+    type = &tyInt;  // Dummy
   check_cast(type, sub->type, is_zero(sub), true, token);
 
   // Do not reduce cast expression using `make_cast`
@@ -704,8 +737,11 @@ static Expr *size_align_of(Token *token) {
   Type *type = NULL;
   const Token *tok;
   if ((tok = match(TK_LPAR)) != NULL) {
-    type = parse_var_def(NULL, NULL, NULL);
+    int storage;
+    type = parse_var_def(NULL, &storage, NULL);
     if (type != NULL) {
+      if (storage != 0)
+        parse_error(PE_NOFATAL, tok, "storage class specifier not allowed");
       consume(TK_RPAR, "`)' expected");
       if (fetch_token()->kind == TK_LBRACE) {
         Expr *expr = parse_infix(parse_compound_literal(type), PREC_POSTFIX);
@@ -745,7 +781,6 @@ static Expr *size_align_of(Token *token) {
       parse_error(PE_NOFATAL, tok, "size unknown");
       type->pa.length = 1;  // Continue parsing.
     }
-    assert(type->pa.length >= 0);
     break;
   case TY_AUTO:
     parse_error(PE_NOFATAL, tok, "size unknown");
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 681b5dc..295fb8f 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -73,6 +73,7 @@ static StructInfo *parse_struct(bool is_union) {
     }
 
     Type *rawType = NULL;
+    bool first = true;
     do {
       int storage;
       Token *ident;
@@ -82,6 +83,8 @@ static StructInfo *parse_struct(bool is_union) {
         break;
       }
 
+      if (storage != 0)
+        parse_error(PE_NOFATAL, ident, "storage class specifier not allowed");
       if (!not_void(type, NULL))
         type = &tyInt;  // Deceive to continue compiling.
       if (!ensure_struct(type, ident, curscope))
@@ -94,7 +97,7 @@ static StructInfo *parse_struct(bool is_union) {
       }
 #endif
       // Allow ident to be null for anonymous struct member or bitfield, otherwise raise error.
-      if (ident == NULL && type->kind != TY_STRUCT && bit == NULL)
+      if (ident == NULL && (type->kind != TY_STRUCT || !first) && bit == NULL)
         parse_error(PE_NOFATAL, NULL, "ident expected");
 #ifndef __NO_BITFIELD
       if (bit != NULL) {
@@ -167,6 +170,7 @@ static StructInfo *parse_struct(bool is_union) {
         p->bitfield.width = bit->fixnum;
       }
 #endif
+      first = false;
     } while (flex_arr_mem == NULL && match(TK_COMMA));
     consume(TK_SEMICOL, "`;' expected");
   }
@@ -175,7 +179,10 @@ static StructInfo *parse_struct(bool is_union) {
 
 static Type *parse_typeof(const Token *tok) {
   consume(TK_LPAR, "`(' expected");
-  Type *type = parse_var_def(NULL, NULL, NULL);
+  int storage;
+  Type *type = parse_var_def(NULL, &storage, NULL);
+  if (type != NULL && storage != 0)
+    parse_error(PE_NOFATAL, tok, "storage class specifier not allowed");
   if (type == NULL) {
     Expr *e = parse_expr();
     if (e == NULL) {
@@ -193,7 +200,6 @@ static Type *parse_typeof(const Token *tok) {
 
 Type *parse_raw_type(int *pstorage) {
   static const char MULTIPLE_STORAGE_SPECIFIED[] = "multiple storage specified";
-  static const char MULTIPLE_QUALIFIER_SPECIFIED[] = "multiple qualifier specified";
   static const char ILLEGAL_TYPE_COMBINATION[] = "illegal type combination";
 
   Type *type = NULL;
@@ -236,15 +242,12 @@ Type *parse_raw_type(int *pstorage) {
       tc.storage |= VS_REGISTER;
       continue;
     case TK_CONST:
-      ASSERT_PARSE_ERROR((tc.qualifier & TQ_CONST) == 0, tok, MULTIPLE_QUALIFIER_SPECIFIED);
       tc.qualifier |= TQ_CONST;
       continue;
     case TK_VOLATILE:
-      ASSERT_PARSE_ERROR((tc.qualifier & TQ_VOLATILE) == 0, tok, MULTIPLE_QUALIFIER_SPECIFIED);
       tc.qualifier |= TQ_VOLATILE;
       continue;
     case TK_RESTRICT:
-      ASSERT_PARSE_ERROR((tc.qualifier & TQ_RESTRICT) == 0, tok, MULTIPLE_QUALIFIER_SPECIFIED);
       tc.qualifier |= TQ_RESTRICT;
       continue;
     case TK_CHAR:
@@ -352,6 +355,8 @@ Type *parse_raw_type(int *pstorage) {
   }
 
   if (type != NULL) {
+    if (!no_type_combination(&tc, 0, 0))
+      parse_error(PE_NOFATAL, tok, ILLEGAL_TYPE_COMBINATION);
     if (tc.qualifier != 0)
       type = qualified_type(type, tc.qualifier);
   } else if (!no_type_combination(&tc, ~0, ~0)) {
@@ -398,33 +403,17 @@ static Type *parse_pointer(Type *type) {
   if (type == NULL)
     return NULL;
 
-  for (;;) {
-    const Token *tok;
-    if ((tok = match(TK_CONST)) != NULL) {
-      if (type->qualifier & TQ_CONST)
-        parse_error(PE_NOFATAL, tok, "multiple `const' specified");
-      else
-        type = qualified_type(type, TQ_CONST);
-      continue;
-    }
-    if ((tok = match(TK_VOLATILE)) != NULL) {
-      if (type->qualifier & TQ_VOLATILE)
-        parse_error(PE_NOFATAL, tok, "multiple `volatile' specified");
-      else
-        type = qualified_type(type, TQ_VOLATILE);
-      continue;
-    }
-    if ((tok = match(TK_RESTRICT)) != NULL) {
-      if (type->qualifier & TQ_RESTRICT)
-        parse_error(PE_NOFATAL, tok, "multiple `restrict' specified");
-      else
-        type = qualified_type(type, TQ_RESTRICT);
-      continue;
-    }
-
-    if (!match(TK_MUL))
-      break;
+  while (match(TK_MUL)) {
     type = ptrof(type);
+    for (;;) {
+      int qualifier = match(TK_CONST)      ? TQ_CONST
+                      : match(TK_VOLATILE) ? TQ_VOLATILE
+                      : match(TK_RESTRICT) ? TQ_RESTRICT
+                                           : 0;
+      if (qualifier == 0)
+        break;
+      type = qualified_type(type, qualifier);
+    }
   }
 
   return type;
@@ -438,6 +427,11 @@ static ssize_t parse_array_size(Expr **pvla) {
   Expr *expr = parse_expr();
   switch (expr->kind) {
   case EX_FIXNUM:
+    if (!is_fixnum(expr->type->kind)) {
+      parse_error(PE_NOFATAL, expr->token, kConstIntExpected);
+      length = 1;
+      break;
+    }
     length = expr->fixnum;
     break;
   case EX_VAR:
@@ -445,36 +439,27 @@ static ssize_t parse_array_size(Expr **pvla) {
       VarInfo *varinfo = scope_find(expr->var.scope, expr->var.name, NULL);
       assert(varinfo != NULL);
       if (expr->type->qualifier & TQ_CONST) {
-        switch (expr->type->kind) {
-        case TY_FLONUM:
-          parse_error(PE_WARNING, expr->token, kConstIntExpected);
-          // Fallthrough
-        case TY_FIXNUM:
-          {
-            Initializer *init = is_global_scope(expr->var.scope) ? varinfo->global.init
-                                                                  : varinfo->local.init;
-            assert(init != NULL);
-            assert(init->kind == IK_SINGLE);
-            switch (init->single->kind) {
-            case EX_FIXNUM:
-              length = init->single->fixnum;
-              break;
+        // `const' variable which is initialized with a constant.
+        Initializer *init = NULL;
+        if (is_global_scope(expr->var.scope))
+          init = varinfo->global.init;
+        else if (varinfo->storage & VS_STATIC)
+          init = varinfo->static_.svar->global.init;
+        else if (is_local_storage(varinfo) && !(varinfo->storage & VS_PARAM))
+          init = varinfo->local.init;
+        if (init != NULL && init->kind == IK_SINGLE) {
+          if (expr->type->kind == TY_FIXNUM && init->single->kind == EX_FIXNUM) {
+            length = init->single->fixnum;
+            break;
+          }
 #ifndef __NO_FLONUM
-            case EX_FLONUM:
-              length = init->single->flonum;
-              break;
-#endif
-            // TODO: Compound literal?
-            default:  assert(false); break;
-            }
+          if (expr->type->kind == TY_FLONUM && init->single->kind == EX_FLONUM) {
+            parse_error(PE_WARNING, expr->token, kConstIntExpected);
+            length = init->single->flonum;
+            break;
           }
-          break;
-        default:
-          parse_error(PE_NOFATAL, expr->token, kConstIntExpected);
-          length = 1;
-          break;
+#endif
         }
-        break;
       }
     }
     // Fallthrough
@@ -499,6 +484,23 @@ static ssize_t parse_array_size(Expr **pvla) {
 
 static Vector *parsing_funparams;
 
+static bool check_elem_type(const Type *type) {
+  if (type->kind == TY_VOID || type->kind == TY_FUNC ||
+      (type->kind == TY_ARRAY && type->pa.length == LEN_UND)) {
+    parse_error(PE_NOFATAL, NULL, "Illegal element type for array");
+    return false;
+  }
+  return true;
+}
+
+static bool check_return_type(const Type *type) {
+  if (type->kind == TY_ARRAY || type->kind == TY_FUNC) {
+    parse_error(PE_NOFATAL, NULL, "Illegal return type for function");
+    return false;
+  }
+  return true;
+}
+
 // <direct-declarator> ::= <identifier>
 //                       | ( <declarator> )
 //                       | <direct-declarator> [ {<constant-expression>}? ]
@@ -540,6 +542,8 @@ static Type *parse_direct_declarator_suffix(Type *type) {
     }
     const Type *basetype = type;
     Type *subtype = parse_direct_declarator_suffix(type);
+    if (!check_elem_type(subtype))
+      subtype = &tyInt;  // Dummy
 #ifndef __NO_VLA
     if (vla == NULL && subtype->kind == TY_ARRAY && subtype->pa.vla != NULL) {
       // If subtype is VLA, then make parent VLA, too.
@@ -564,6 +568,8 @@ static Type *parse_direct_declarator_suffix(Type *type) {
     if (rettype->kind == TY_AUTO) {
       parse_error(PE_NOFATAL, NULL, "auto type not allowed in function return type");
       rettype = &tyInt;
+    } else if (!check_return_type(rettype)) {
+      rettype = &tyInt;  // Dummy
     }
 
     Vector *param_types = extract_varinfo_types(param_vars);
@@ -584,6 +590,9 @@ Type *parse_direct_declarator(Type *type, Token **pident) {
     consume(TK_RPAR, "`)' expected");
 
     Type *inner = parse_direct_declarator_suffix(ret);
+    if ((type->kind == TY_ARRAY && type->pa.ptrof == placeholder && !check_elem_type(inner)) ||
+        (type->kind == TY_FUNC && type->func.ret == placeholder && !check_return_type(inner)))
+      inner = &tyInt;  // Dummy
     memcpy(placeholder, inner, sizeof(*placeholder));
   } else {
     ident = match(TK_IDENT);
@@ -592,6 +601,8 @@ Type *parse_direct_declarator(Type *type, Token **pident) {
 
   if (pident != NULL)
     *pident = ident;
+  else if (ident != NULL)
+    parse_error(PE_NOFATAL, ident, "identifier not allowed");
 
   return type;
 }
diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index a6f02ce..20692cb 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -472,7 +472,7 @@ bool can_cast(const Type *dst, const Type *src, bool zero, bool is_explicit) {
     case TY_PTR:
     case TY_ARRAY:
     case TY_FUNC:
-      if (is_explicit) {
+      if (is_explicit || is_bool(dst)) {
         // TODO: Check sizeof(long) is same as sizeof(ptr)
         return true;
       }
-- 
2.43.0


From d31717efba069377bafeb176a326ce1bdd122185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 77/96] fix: wcc: end of a function without return, and return
 type of inlined functions

---
 src/cc/frontend/fe_misc.c |  8 +++--
 src/wcc/gen_wasm.c        | 73 +++++++++++++++++++++++++++------------
 2 files changed, 56 insertions(+), 25 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 2be1545..30bc705 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -2090,9 +2090,13 @@ bool check_funcend_return(Stmt *stmt) {
   case ST_IF:
     {
       bool t = check_funcend_return(stmt->if_.tblock);
-      bool f = stmt->if_.fblock == NULL || check_funcend_return(stmt->if_.fblock);
-      return t && f;  // Return true even if else is not exist.
+      bool f = check_funcend_return(stmt->if_.fblock);
+      if (is_const(stmt->if_.cond))
+        return is_const_truthy(stmt->if_.cond) ? t : f;
+      return t && f;
     }
+  case ST_LABEL:
+    return check_funcend_return(stmt->label.stmt);
   case ST_BLOCK:
     {
       Vector *stmts = stmt->block.stmts;
diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 591f001..f6c1cc0 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -61,6 +61,7 @@ struct VReg {
 static void gen_stmt(Stmt *stmt, bool is_last);
 static void gen_stmts(Vector *stmts, bool is_last);
 
+static const Type *curfunc_rettype;  // Return type of the function, or of the inlined one.
 static int cur_depth;
 static int break_depth;
 static int continue_depth;
@@ -952,6 +953,43 @@ static void gen_complit(Expr *expr, bool needval) {
   gen_expr(var, needval);
 }
 
+// Put a value at the end of a function, where `return` is not placed.
+static void gen_funcend_value(Stmt *body, const Type *rettype) {
+  assert(body->kind == ST_BLOCK);
+  if (rettype->kind == TY_VOID || check_funcend_return(body))
+    return;
+
+  Vector *stmts = body->block.stmts;
+  Stmt *last = stmts->len > 0 ? stmts->data[stmts->len - 1] : NULL;
+  if (last != NULL && last->kind == ST_ASM)
+    return;
+
+  if (body->reach & REACH_STOP) {
+    ADD_CODE(OP_UNREACHABLE);
+    return;
+  }
+
+  // The end is reachable: it is valid unless the caller uses the result.
+  switch (get_func_ret_wtype(rettype)) {
+  case WT_I64:
+    ADD_CODE(OP_I64_CONST, 0);
+    break;
+#ifndef __NO_FLONUM
+  case WT_F32:
+    ADD_CODE(OP_F32_CONST);
+    ADD_F32(0);
+    break;
+  case WT_F64:
+    ADD_CODE(OP_F64_CONST);
+    ADD_F64(0);
+    break;
+#endif
+  default:
+    ADD_CODE(OP_I32_CONST, 0);
+    break;
+  }
+}
+
 static void gen_inlined(Expr *expr, bool needval) {
   // Nested inline funcall is transformed so its scope relation is modified.
   // ex. foo(bar(123)) => ({foo(({bar(123)}))}) => tmp=({bar(123)}), ({foo(tmp)})
@@ -982,25 +1020,20 @@ static void gen_inlined(Expr *expr, bool needval) {
   cur_depth = 1;
 
   const Type *rettype = expr->type;
+  const Type *bak_rettype = curfunc_rettype;
+  curfunc_rettype = rettype;
   unsigned char wt = get_func_ret_wtype(rettype);
   ADD_CODE(OP_BLOCK, wt); {
     gen_stmt(embedded, true);
 
-    assert(embedded->kind == ST_BLOCK);
-    Vector *stmts = embedded->block.stmts;
-    if (stmts->len > 0) {
-      Stmt *last = stmts->data[stmts->len - 1];
-      if (last->kind != ST_ASM && rettype->kind != TY_VOID && !check_funcend_return(embedded)) {
-        assert(embedded->reach & REACH_STOP);
-        ADD_CODE(OP_UNREACHABLE);
-      }
-    }
+    gen_funcend_value(embedded, rettype);
   } ADD_CODE(OP_END);
 
   if (wt != WT_VOID && !needval)
     ADD_CODE(OP_DROP);
 
   cur_depth = bak_depth;
+  curfunc_rettype = bak_rettype;
   finfo->flag = bak_flag;
   curscope = bak_curscope;
 }
@@ -1453,8 +1486,12 @@ static void gen_if(Stmt *stmt, bool is_last) {
   }
 
   unsigned char wt = WT_VOID;
-  if (is_last && check_funcend_return(stmt))
-    wt = get_func_ret_wtype(curfunc->type->func.ret);
+  if (is_last && curfunc_rettype->kind != TY_VOID) {
+    if (check_funcend_return(stmt))
+      wt = get_func_ret_wtype(curfunc_rettype);
+    else
+      is_last = false;
+  }
 
   gen_cond(stmt->if_.cond, true, true);
   ADD_CODE(OP_IF, wt);
@@ -1759,19 +1796,9 @@ static void gen_defun(Function *func) {
     ADD_CODE(OP_BLOCK, wt);
     cur_depth += 1;
   }
+  curfunc_rettype = functype->func.ret;
   gen_stmt(func->body_block, true);
-
-  {
-    Vector *stmts = func->body_block->block.stmts;
-    if (stmts->len > 0) {
-      Stmt *last = stmts->data[stmts->len - 1];
-      if (last->kind != ST_ASM && functype->func.ret->kind != TY_VOID &&
-          !check_funcend_return(func->body_block)) {
-        assert(func->body_block->reach & REACH_STOP);
-        ADD_CODE(OP_UNREACHABLE);
-      }
-    }
-  }
+  gen_funcend_value(func->body_block, functype->func.ret);
 
   // Epilogue
   if (bpvar != NULL) {
-- 
2.43.0


From 3968801ff153ca3d8e3b58028ebaed08d9da4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 78/96] fix: wcc: crash on a function definition with an
 unnamed parameter

---
 src/cc/frontend/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 49b911a..f4f7881 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -880,6 +880,10 @@ static Declaration *parse_defun(Type *functype, int storage, Token *ident, const
   Vector *top_vars = new_vector();
   for (int i = 0; i < param_vars->len; ++i) {
     VarInfo *vi = param_vars->data[i];
+    if (vi->ident == NULL) {  // The parameter cannot be referred, but it exists.
+      vi->ident = alloc_dummy_ident();
+      vi->storage |= VS_USED;
+    }
     vec_push(top_vars, vi);
     ensure_struct(vi->type, tok, curscope);
   }
-- 
2.43.0


From 83f202c9ba1294e5a1008ad554b60d92159f4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 79/96] fix: variable length array parameters: sizes by
 expressions, sizeof, prototypes, qualifiers

---
 src/cc/frontend/fe_misc.c     | 17 +++++++----
 src/cc/frontend/parser.c      | 30 ++++++++++---------
 src/cc/frontend/parser.h      |  2 +-
 src/cc/frontend/parser_type.c | 54 +++++++++++++++++++++--------------
 src/cc/frontend/type.c        |  4 ++-
 src/cc/frontend/type.h        |  1 +
 6 files changed, 65 insertions(+), 43 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 30bc705..0b10191 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1002,11 +1002,12 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
       // ((size_t)lhs - (size_t)rhs) / sizeof(*lhs)
       if (!ensure_struct(ltype->pa.ptrof, tok, curscope))
         return lhs;
-      if (is_const(lhs) && is_const(rhs)) {
+      if (is_const(lhs) && is_const(rhs) &&
+          !(ptr_or_array(ltype->pa.ptrof) && ltype->pa.ptrof->pa.vla != NULL)) {
         assert(lhs->kind == EX_FIXNUM);
         assert(rhs->kind == EX_FIXNUM);
-        return new_expr_fixlit(&tySize, tok,
-                               (lhs->fixnum - rhs->fixnum) / type_size(ltype->pa.ptrof));
+        return new_expr_fixlit(&tySSize, tok,
+                               (lhs->fixnum - rhs->fixnum) / (ssize_t)type_size(ltype->pa.ptrof));
       }
       return new_expr_bop(EX_DIV, &tySSize, tok,
                           make_cast(&tySSize, tok,
@@ -1023,7 +1024,7 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
         return rhs;
       Expr *tmp = new_expr_num_bop(EX_MUL, lhs->token,
                                    make_cast(&tySize, lhs->token, lhs, false),
-                                   new_expr_fixlit(&tySize, tok, type_size(type->pa.ptrof)));
+                                   calc_type_size(type->pa.ptrof));
       lhs = rhs;
       rhs = tmp;
       Type *t = ltype;
@@ -1563,8 +1564,12 @@ Vector *extract_varinfo_types(const Vector *vars) {
   Vector *types = NULL;
   if (vars != NULL) {
     types = new_vector();
-    for (int i = 0, len = vars->len; i < len; ++i)
-      vec_push(types, ((VarInfo*)vars->data[i])->type);
+    for (int i = 0, len = vars->len; i < len; ++i) {
+      Type *type = ((VarInfo*)vars->data[i])->type;
+      if (type->kind == TY_ARRAY)  // VLA: the variable itself is adjusted in `parse_defun`.
+        type = array_to_ptr(type);
+      vec_push(types, type);
+    }
   }
   return types;
 }
diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index f4f7881..881d45f 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -183,10 +183,12 @@ static Vector *parse_vardecl_cont(Type *rawType, Type *type, int storage, Token
 
     if (match(TK_LPAR)) {  // Function prototype.
       bool vaargs;
-      Vector *param_vars = parse_funparams(&vaargs);
+      Scope *param_scope;
+      Vector *param_vars = parse_funparams(&vaargs, &param_scope);
       Vector *param_types = extract_varinfo_types(param_vars);
       type = new_func_type(type, param_types, vaargs);
       type->func.param_vars = param_vars;
+      type->func.param_scope = param_scope;
     } else {
       if (!(tmp_storage & VS_TYPEDEF)) {
         if (!not_void(type, NULL))
@@ -834,19 +836,11 @@ static Function *define_func(Type *functype, const Token *ident, const Vector *p
 }
 
 #ifndef __NO_VLA
-static void modify_funparam_vla_type(Type *type, Scope *scope) {
+static void modify_funparam_vla_type(Type *type) {
   if (type->kind == TY_ARRAY && type->pa.vla != NULL) {
     type->kind = TY_PTR;  // array_to_ptr, but must apply the change to the original type.
-  }
-
-  for (;;) {
-    if (!ptr_or_array(type))
-      break;
-    if (type->pa.vla != NULL) {
-      assert(type->pa.vla->kind == EX_VAR);
-      type->pa.vla->var.scope = scope;  // Fix scope, which set in `parse_direct_declarator_suffix()`
-    }
-    type = type->pa.ptrof;
+    type->pa.vla = NULL;  // The size of the outermost array is not needed.
+    type->pa.size_var = NULL;
   }
 }
 #endif
@@ -888,7 +882,15 @@ static Declaration *parse_defun(Type *functype, int storage, Token *ident, const
     ensure_struct(vi->type, tok, curscope);
   }
   func->scopes = new_vector();
-  Scope *scope = enter_scope(func);
+  Scope *scope = functype->func.param_scope;
+  if (scope != NULL) {
+    // Array sizes in parameters refer variables in this scope.
+    assert(scope->parent == curscope);
+    vec_push(func->scopes, scope);
+    curscope = scope;
+  } else {
+    scope = enter_scope(func);
+  }
   scope->vars = top_vars;
 
 #ifndef __NO_VLA
@@ -902,7 +904,7 @@ static Declaration *parse_defun(Type *functype, int storage, Token *ident, const
         vla_inits = new_vector();
       vec_push(vla_inits, new_stmt_expr(vla_size));
     }
-    modify_funparam_vla_type(type, scope);
+    modify_funparam_vla_type(type);
   }
 #endif
 
diff --git a/src/cc/frontend/parser.h b/src/cc/frontend/parser.h
index 984f936..45f2f6e 100644
--- a/src/cc/frontend/parser.h
+++ b/src/cc/frontend/parser.h
@@ -25,7 +25,7 @@ Type *parse_type_suffix(Type *type);
 Type *parse_declarator(Type *rawtype, Token **pident);
 Type *parse_direct_declarator(Type *type, Token **pident);
 Vector *parse_args(Token **ptoken);
-Vector *parse_funparams(bool *pvaargs);  // Vector<VarInfo*>, NULL=>old style.
+Vector *parse_funparams(bool *pvaargs, Scope **pscope);  // Vector<VarInfo*>, NULL=>old style.
 Type *parse_var_def(Type **prawType, int *pstorage, Token **pident);
 Expr *parse_const_fixnum(void);
 Expr *parse_assign(void);
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 295fb8f..cc36589 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -424,7 +424,7 @@ static const char kConstIntExpected[] = "constant integer expected";
 static ssize_t parse_array_size(Expr **pvla) {
   ssize_t length = LEN_UND;
 
-  Expr *expr = parse_expr();
+  Expr *expr = parse_assign();
   switch (expr->kind) {
   case EX_FIXNUM:
     if (!is_fixnum(expr->type->kind)) {
@@ -482,7 +482,7 @@ static ssize_t parse_array_size(Expr **pvla) {
   return length;
 }
 
-static Vector *parsing_funparams;
+static Scope *funparam_scope;  // To refer preceding parameters in an array size.
 
 static bool check_elem_type(const Type *type) {
   if (type->kind == TY_VOID || type->kind == TY_FUNC ||
@@ -517,7 +517,7 @@ static Type *parse_direct_declarator_suffix(Type *type) {
     if (match(TK_RBRACKET)) {
       // Arbitrary size.
     } else {
-      // Arrow `arr[static expr]` (C99) (just ignored).
+      // Arrow `arr[static expr]`, `arr[const]` (C99) (just ignored).
       for (;;) {
         const Token *tok = fetch_token();
         enum TokenKind kind = tok->kind;
@@ -526,19 +526,26 @@ static Type *parse_direct_declarator_suffix(Type *type) {
         consume(kind, NULL);
       }
 
-      Token *var = match(TK_IDENT);
-      int index;
-      if (var != NULL && parsing_funparams != NULL &&
-          (index = var_find(parsing_funparams, var->ident)) >= 0) {
-        VarInfo *varinfo = parsing_funparams->data[index];
-        vla = new_expr_variable(var->ident, varinfo->type, var, curscope);  // TODO: curscopeはその関数のルートスコープにする必要がある
-      } else {
-        if (var != NULL)
-          unget_token(var);
-        length = parse_array_size(&vla);
-      }
+      if (!match(TK_RBRACKET)) {
+        Scope *bak_curscope = curscope;
+        if (funparam_scope != NULL)
+          curscope = funparam_scope;
+        Token *star;
+        if (funparam_scope != NULL && (star = match(TK_MUL)) != NULL) {
+          const Token *next = fetch_token();
+          if (next->kind == TK_RBRACKET) {  // `[*]`: VLA with unspecified size.
+            vla = new_expr_fixlit(&tySize, star, 1);
+            length = LEN_VLA;
+          } else {
+            unget_token(star);
+          }
+        }
+        if (vla == NULL)
+          length = parse_array_size(&vla);
+        curscope = bak_curscope;
 
-      consume(TK_RBRACKET, "`]' expected");
+        consume(TK_RBRACKET, "`]' expected");
+      }
     }
     const Type *basetype = type;
     Type *subtype = parse_direct_declarator_suffix(type);
@@ -563,7 +570,8 @@ static Type *parse_direct_declarator_suffix(Type *type) {
     }
   } else if (match(TK_LPAR)) {
     bool vaargs;
-    Vector *param_vars = parse_funparams(&vaargs);
+    Scope *param_scope;
+    Vector *param_vars = parse_funparams(&vaargs, &param_scope);
     Type *rettype = parse_direct_declarator_suffix(type);
     if (rettype->kind == TY_AUTO) {
       parse_error(PE_NOFATAL, NULL, "auto type not allowed in function return type");
@@ -575,6 +583,7 @@ static Type *parse_direct_declarator_suffix(Type *type) {
     Vector *param_types = extract_varinfo_types(param_vars);
     type = new_func_type(rettype, param_types, vaargs);
     type->func.param_vars = param_vars;
+    type->func.param_scope = param_scope;
   }
   return type;
 }
@@ -613,9 +622,9 @@ Type *parse_declarator(Type *rawtype, Token **pident) {
   return parse_direct_declarator(type, pident);
 }
 
-Vector *parse_funparams(bool *pvaargs) {
-  Vector *bak_parsing_funparams = parsing_funparams;
-  parsing_funparams = NULL;
+Vector *parse_funparams(bool *pvaargs, Scope **pscope) {
+  Scope *bak_funparam_scope = funparam_scope;
+  funparam_scope = NULL;
 
   Vector *vars = NULL;
   bool vaargs = false;
@@ -623,7 +632,9 @@ Vector *parse_funparams(bool *pvaargs) {
     // Arbitrary funparams.
     vaargs = true;
   } else {
-    parsing_funparams = vars = new_vector();
+    vars = new_vector();
+    funparam_scope = new_scope(bak_funparam_scope != NULL ? bak_funparam_scope : curscope);
+    funparam_scope->vars = vars;
     for (;;) {
       if (match(TK_ELLIPSIS)) {
         vaargs = true;
@@ -691,6 +702,7 @@ Vector *parse_funparams(bool *pvaargs) {
     }
   }
   *pvaargs = vaargs;
-  parsing_funparams = bak_parsing_funparams;
+  *pscope = funparam_scope;
+  funparam_scope = bak_funparam_scope;
   return vars;
 }
diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index 20692cb..93e9be1 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -315,6 +315,7 @@ Type *new_func_type(Type *ret, const Vector *types, bool vaargs) {
   f->func.vaargs = vaargs;
   f->func.params = types;
   f->func.param_vars = NULL;
+  f->func.param_scope = NULL;
   return f;
 }
 
@@ -405,7 +406,8 @@ bool same_type_without_qualifier(const Type *type1, const Type *type2, bool igno
   const int QMASK = TQ_CONST | TQ_VOLATILE;
   for (;;) {
     if (type1->kind != type2->kind ||
-        (!ignore_qualifier && (type1->qualifier & QMASK) != (type2->qualifier & QMASK)))
+        (!ignore_qualifier && type1->kind != TY_ARRAY &&  // Array is qualified by its element.
+         (type1->qualifier & QMASK) != (type2->qualifier & QMASK)))
       return false;
 
     switch (type1->kind) {
diff --git a/src/cc/frontend/type.h b/src/cc/frontend/type.h
index 2363a1d..467ded1 100644
--- a/src/cc/frontend/type.h
+++ b/src/cc/frontend/type.h
@@ -105,6 +105,7 @@ typedef struct Type {
       struct Type *ret;
       const Vector *params;  // <Type*>
       const Vector *param_vars;  // <VarInfo*>: Just for parser, do not use mainly.
+      struct Scope *param_scope;  // Just for parser, too.
       bool vaargs;
     } func;
     struct {
-- 
2.43.0


From 248ced6a071e569260775f2edaed2f04d360a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 80/96] fix: variable length array parameters: assignable, no
 extra parameters for sizeof in their sizes

---
 src/cc/frontend/parser.c      | 6 ++++++
 src/cc/frontend/parser_type.c | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 881d45f..c49769f 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -839,6 +839,7 @@ static Function *define_func(Type *functype, const Token *ident, const Vector *p
 static void modify_funparam_vla_type(Type *type) {
   if (type->kind == TY_ARRAY && type->pa.vla != NULL) {
     type->kind = TY_PTR;  // array_to_ptr, but must apply the change to the original type.
+    type->qualifier &= ~TQ_CONST;
     type->pa.vla = NULL;  // The size of the outermost array is not needed.
     type->pa.size_var = NULL;
   }
@@ -888,6 +889,11 @@ static Declaration *parse_defun(Type *functype, int storage, Token *ident, const
     assert(scope->parent == curscope);
     vec_push(func->scopes, scope);
     curscope = scope;
+    for (int i = 0; i < scope->vars->len; ++i) {
+      VarInfo *vi = scope->vars->data[i];
+      if (!(vi->storage & VS_PARAM))
+        vec_push(top_vars, vi);
+    }
   } else {
     scope = enter_scope(func);
   }
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index cc36589..fab7f39 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -634,7 +634,7 @@ Vector *parse_funparams(bool *pvaargs, Scope **pscope) {
   } else {
     vars = new_vector();
     funparam_scope = new_scope(bak_funparam_scope != NULL ? bak_funparam_scope : curscope);
-    funparam_scope->vars = vars;
+    funparam_scope->vars = new_vector();  // Not only parameters, but also temporary variables.
     for (;;) {
       if (match(TK_ELLIPSIS)) {
         vaargs = true;
@@ -693,7 +693,7 @@ Vector *parse_funparams(bool *pvaargs, Scope **pscope) {
         if (ident != NULL && var_find(vars, ident->ident) >= 0)
           parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(ident->ident));
         else
-          var_add(vars, ident, type, storage | VS_PARAM);
+          vec_push(funparam_scope->vars, var_add(vars, ident, type, storage | VS_PARAM));
       }
       if (match(TK_RPAR))
         break;
-- 
2.43.0


From d4d95dbeca658eb98a3899101214ace8797bf2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 81/96] fix: diagnose modification of a variable length array
 itself

---
 src/cc/frontend/parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index c49769f..ec2cfd2 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -199,8 +199,10 @@ static Vector *parse_vardecl_cont(Type *rawType, Type *type, int storage, Token
     assert(!is_global_scope(curscope));
 
 #ifndef __NO_VLA
-    if (type->kind == TY_ARRAY && type->pa.vla != NULL)
+    if (type->kind == TY_ARRAY && type->pa.vla != NULL) {
       type = array_to_ptr(type);
+      type->qualifier |= TQ_CONST;  // The array itself is not modified.
+    }
 #endif
 
     if (tmp_storage & VS_TYPEDEF) {
@@ -955,8 +957,10 @@ static void parse_global_var_decl(Type *rawtype, int storage, Type *type, Token
       type = parse_type_suffix(type);
 
 #ifndef __NO_VLA
-    if (type->kind == TY_ARRAY && type->pa.vla != NULL)
+    if (type->kind == TY_ARRAY && type->pa.vla != NULL) {
       type = array_to_ptr(type);
+      type->qualifier |= TQ_CONST;  // The array itself is not modified.
+    }
 #endif
 
     if (storage & VS_TYPEDEF) {
-- 
2.43.0


From 68396679dc4616f19a5f2edd4b5ef7a07f33807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:42 +0000
Subject: [PATCH 82/96] fix: string literal in the size of an array parameter
 crashed, [static] without size

---
 src/cc/frontend/initializer.c | 2 ++
 src/cc/frontend/parser_type.c | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 7f23226..201887e 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -92,6 +92,8 @@ Expr *str_to_char_array_var(Scope *scope, Expr *str) {
   if (str->kind == EX_CAST)
     return new_expr_cast(str->type, str->token, str_to_char_array_var(scope, str->unary.sub));
 
+  if (static_vars == NULL)
+    scope = global_scope;  // Parameter list: function is not defined yet.
   Type *type = str->type;
   Initializer *init = new_initializer(IK_SINGLE, str->token);
   init->single = str;
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index fab7f39..c83b51e 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -518,15 +518,21 @@ static Type *parse_direct_declarator_suffix(Type *type) {
       // Arbitrary size.
     } else {
       // Arrow `arr[static expr]`, `arr[const]` (C99) (just ignored).
+      const Token *tok_static = NULL;
       for (;;) {
         const Token *tok = fetch_token();
         enum TokenKind kind = tok->kind;
+        if (kind == TK_STATIC)
+          tok_static = tok;
         if (!(kind == TK_STATIC || kind == TK_CONST || kind == TK_VOLATILE || kind == TK_RESTRICT))
           break;
         consume(kind, NULL);
       }
 
-      if (!match(TK_RBRACKET)) {
+      if (match(TK_RBRACKET)) {
+        if (tok_static != NULL)
+          parse_error(PE_NOFATAL, tok_static, "`static' requires array size");
+      } else {
         Scope *bak_curscope = curscope;
         if (funparam_scope != NULL)
           curscope = funparam_scope;
-- 
2.43.0


From 00e6bec675a60d6b1b8d9cad766b88e2cb41b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:48 +0000
Subject: [PATCH 83/96] fix: _Generic with both char and signed char was
 rejected

---
 src/cc/frontend/parser_expr.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index aedddcf..c6cb22d 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -154,6 +154,23 @@ static Expr *parse_compound_literal(Type *type) {
   return new_expr_complit(type, token, var, inits, init);
 }
 
+// `char' and `signed char' are not distinguished.
+static bool has_plain_char(const Type *type) {
+  switch (type->kind) {
+  case TY_FIXNUM:  return type->fixnum.kind == FX_CHAR && !type->fixnum.is_unsigned;
+  case TY_PTR: case TY_ARRAY:  return has_plain_char(type->pa.ptrof);
+  case TY_FUNC:
+    if (type->func.params != NULL) {
+      for (int i = 0; i < type->func.params->len; ++i) {
+        if (has_plain_char(type->func.params->data[i]))
+          return true;
+      }
+    }
+    return has_plain_char(type->func.ret);
+  default:  return false;
+  }
+}
+
 static Expr *parse_generic(void) {
   consume(TK_LPAR, "`(' expected");
   Expr *target = parse_assign();
@@ -187,7 +204,7 @@ static Expr *parse_generic(void) {
       default_value = expr;
     } else {
       for (int i = 0; i < types->len; ++i) {
-        if (same_type(type, types->data[i]))
+        if (same_type(type, types->data[i]) && !has_plain_char(type))
           parse_error(PE_NOFATAL, tok, "type duplicated");
       }
       vec_push(types, type);
-- 
2.43.0


From 6b3da9aa713f6b6281dd4c913bd50192aaf9c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:39 +0000
Subject: [PATCH 84/96] fix: as: operand lists and octal numbers in data
 directives, diagnose trailing garbage

---
 src/as/parse_asm.c | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index a08a4ec..441821b 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -348,10 +348,12 @@ static const Token *fetch_token(ParseInfo *info) {
           base = 16;
         }
       }
+      if (c == '0' && isdigit(p[1]) && base == 10 && p == start)
+        base = 8;
       char *q;
       unsigned long long v = strtoull(p, &q, base);
 #ifndef __NO_FLONUM
-      if (*q == '.' || tolower(*q) == 'e') {
+      if (base != 16 && (*q == '.' || tolower(*q) == 'e')) {
         info->p = p;
         return read_flonum(info, 10);
       }
@@ -561,7 +563,11 @@ static Expr *parse_add(ParseInfo *info) {
 
 Expr *parse_expr(ParseInfo *info) {
   info->prefetched = NULL;
-  return parse_add(info);
+  Expr *expr = parse_add(info);
+  if (expr != NULL && info->prefetched != NULL && info->prefetched->kind != TK_UNKNOWN &&
+      info->prefetched->kind != TK_EOF)
+    parse_error(info, "Syntax error");
+  return expr;
 }
 
 static void check_line_end(ParseInfo *info) {
@@ -752,8 +758,10 @@ static size_t unescape_string(ParseInfo *info, char *dst) {
   size_t len = 0;
   for (; *info->p != '"'; ++info->p, ++len) {
     char c = *info->p;
-    if (c == '\0')
+    if (c == '\0') {
       parse_error(info, "string not closed");
+      return len;
+    }
     if (c == '\\') {
       ++info->p;
       c = unescape_char(info);
@@ -803,6 +811,15 @@ static uint32_t parse_section_flag(ParseInfo *info) {
 }
 #endif
 
+// Comma separated operands.
+static bool next_operand(ParseInfo *info) {
+  const char *p = skip_whitespaces(info->p);
+  if (*p != ',')
+    return false;
+  parse_set_p(info, skip_whitespaces(p + 1));
+  return true;
+}
+
 void handle_directive(ParseInfo *info, enum DirectiveType dir) {
   SectionInfo *section = info->current_section;
   Vector *irs = section->irs;
@@ -812,9 +829,11 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
     break;
   case DT_ASCII:
   case DT_STRING:
-    {
-      if (*info->p != '"')
+    do {
+      if (*info->p != '"') {
         parse_error(info, "`\"' expected");
+        return;
+      }
       ++info->p;
       const char *p = info->p;
       size_t len = unescape_string(info, NULL);
@@ -825,7 +844,8 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       unescape_string(info, str);
 
       vec_push(irs, new_ir_data(str, len));
-    }
+    } while (next_operand(info));
+    check_line_end(info);
     break;
 
   case DT_COMM:
@@ -949,11 +969,11 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
   case DT_SHORT:
   case DT_LONG:
   case DT_QUAD:
-    {
+    do {
       Expr *expr = parse_expr(info);
       if (expr == NULL) {
         parse_error(info, "expression expected");
-        break;
+        return;
       }
 
       assert(expr->kind != EX_FLONUM);
@@ -968,17 +988,18 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       } else {
         vec_push(irs, new_ir_expr((enum IrKind)(IR_EXPR_BYTE + (dir - DT_BYTE)), expr));
       }
-    }
+    } while (next_operand(info));
+    check_line_end(info);
     break;
 
 #ifndef __NO_FLONUM
   case DT_FLOAT:
   case DT_DOUBLE:
-    {
+    do {
       Expr *expr = parse_expr(info);
       if (expr == NULL) {
         parse_error(info, "expression expected");
-        break;
+        return;
       }
 
       Flonum value;
@@ -1005,7 +1026,8 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
         memcpy(buf, (void*)&dval, sizeof(dval));  // TODO: Endian
       }
       vec_push(irs, new_ir_data(buf, size));
-    }
+    } while (next_operand(info));
+    check_line_end(info);
     break;
 #endif
 
-- 
2.43.0


From b052df0cc14af146b1174ac2b90b3c11e4e4c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:57 +0000
Subject: [PATCH 85/96] fix: --apply-ssa: propagated constants were computed
 and compared with the wrong signedness

---
 src/cc/backend/optimize.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index c0647f5..eeeebd7 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -268,8 +268,9 @@ static bool calc_const_cond(enum ConditionKind cond, VReg *opr1, VReg *opr2) {
   } else
 #endif
   {
-    int64_t n1 = opr1->fixnum;
-    int64_t n2 = opr2->fixnum;
+    bool is_unsigned = (cond & COND_UNSIGNED) != 0;
+    int64_t n1 = wrap_value(opr1->fixnum, 1 << opr1->vsize, is_unsigned);
+    int64_t n2 = wrap_value(opr2->fixnum, 1 << opr2->vsize, is_unsigned);
     switch ((int)cond) {
     case COND_EQ | COND_UNSIGNED:  // Fallthrough
     case COND_EQ:  return n1 == n2;
@@ -353,14 +354,19 @@ static int64_t calc_const_expr(IR *ir) {
   default: assert(false); break; \
   }
 
+  // A propagated constant might be kept with the other signedness.
+  bool is_unsigned = (ir->flag & IRF_UNSIGNED) != 0;
+  int64_t n1 = wrap_value(ir->opr1->fixnum, 1 << ir->opr1->vsize, is_unsigned);
+  int64_t n2 = ir->opr2 != NULL ? wrap_value(ir->opr2->fixnum, 1 << ir->opr2->vsize, is_unsigned) : 0;
+
   int64_t value = 0;
-  if (ir->flag & IRF_UNSIGNED) {
-    uint64_t opr1 = ir->opr1->fixnum;
-    uint64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
+  if (is_unsigned) {
+    uint64_t opr1 = n1;
+    uint64_t opr2 = n2;
     CALC_CONST(ir->kind);
   } else {
-    int64_t opr1 = ir->opr1->fixnum;
-    int64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
+    int64_t opr1 = n1;
+    int64_t opr2 = n2;
     CALC_CONST(ir->kind);
   }
 #undef CALC
-- 
2.43.0


From b135a110075b86a5686c2e3aaabce1555fd97bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:57 +0000
Subject: [PATCH 86/96] fix: division of the minimum integer by -1 killed the
 compiler and the assembler

---
 src/as/parse_asm.c        | 8 ++++++--
 src/cc/backend/ir.c       | 2 ++
 src/cc/backend/optimize.c | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 441821b..1bbc76a 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -517,7 +517,7 @@ static Expr *parse_mul(ParseInfo *info) {
         if (rhs->fixnum == 0)
           parse_error(info, "Division by zero");
         else
-          lhs->fixnum /= rhs->fixnum;
+          lhs->fixnum = rhs->fixnum == -1 ? (int64_t)-(uint64_t)lhs->fixnum : lhs->fixnum / rhs->fixnum;
         break;
       default:  assert(false); break;
       }
@@ -1156,7 +1156,11 @@ Value calc_expr(Table *label_table, const Expr *expr) {
       case EX_ADD:  lhs.offset += rhs.offset; break;
       case EX_SUB:  lhs.offset -= rhs.offset; break;
       case EX_MUL:  lhs.offset *= rhs.offset; break;
-      case EX_DIV:  lhs.offset /= rhs.offset; break;
+      case EX_DIV:
+        if (rhs.offset == 0)
+          error("Division by zero");
+        lhs.offset = rhs.offset == -1 ? (int64_t)-(uint64_t)lhs.offset : lhs.offset / rhs.offset;
+        break;
       default: assert(false); break;
       }
       return lhs;
diff --git a/src/cc/backend/ir.c b/src/cc/backend/ir.c
index 907be7c..4960d64 100644
--- a/src/cc/backend/ir.c
+++ b/src/cc/backend/ir.c
@@ -89,6 +89,8 @@ VReg *new_ir_bop(enum IrKind kind, VReg *opr1, VReg *opr2, enum VRegSize vsize,
       int64_t lval = opr1->fixnum;
       if ((opr2->flag & (VRF_FLONUM | VRF_CONST)) == VRF_CONST) {
         int64_t rval = opr2->fixnum;
+        if ((kind == IR_DIV || kind == IR_MOD) && rval == -1 && lval == INT64_MIN && !(flag & IRF_UNSIGNED))
+          break;  // Same as zero division.
         int64_t value = 0;
         switch (kind) {
         case IR_ADD:     value = lval + rval; break;
diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index eeeebd7..f22e44d 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -404,6 +404,8 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
 #ifndef __NO_FLONUM
           || ( (ir->opr2->flag & VRF_FLONUM) && ir->opr2->flonum.value == 0)
 #endif
+          || (!(ir->flag & IRF_UNSIGNED) && (ir->opr1->flag & (VRF_FLONUM | VRF_CONST)) == VRF_CONST &&
+              ir->opr1->fixnum == INT64_MIN && ir->opr2->fixnum == -1)
         )) {
       // Stay as it is, DIV or MOD instruction accepts even if both operands are constant.
       // Zero division exception will be thrown on runtime.
-- 
2.43.0


From bc5aef44ca2e3afd19e944da467a82180c25328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:57 +0000
Subject: [PATCH 87/96] fix: static functions and variables used only in the
 size of array parameter were not emitted

---
 src/cc/frontend/fe_misc.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 0b10191..eb0e8ce 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -538,7 +538,12 @@ static void mark_var_used_sub(Expr *expr, bool for_func) {
   default: break;
   }
 
-  if (gvarinfo != NULL && curvarinfo != NULL) {
+  if (gvarinfo != NULL) {
+    if (curvarinfo == NULL) {
+      // Not in a definition yet, such as in the size of array parameter.
+      gvarinfo->storage |= VS_USED;
+      return;
+    }
     Vector *refs = curvarinfo->global.referred_globals;
     if (refs == NULL)
       curvarinfo->global.referred_globals = refs = new_vector();
@@ -568,6 +573,10 @@ void propagate_var_used(void) {
   for (int i = 0; i < global_scope->vars->len; ++i) {
     VarInfo *varinfo = global_scope->vars->data[i];
     const Type *type = varinfo->type;
+    if (varinfo->storage & VS_USED && !(varinfo->storage & VS_ENUM_MEMBER)) {
+      vec_push(&unchecked, varinfo);
+      continue;
+    }
     if (type->kind == TY_FUNC) {
       Function *func = varinfo->global.func;
       if (func == NULL)  // Prototype definition
@@ -796,8 +805,10 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
         }
 #endif
 
-        if ((kind == EX_DIV || kind == EX_MOD) && rhs->fixnum == 0)
-          break;
+        if ((kind == EX_DIV || kind == EX_MOD) &&
+            (rhs->fixnum == 0 ||
+             (rhs->fixnum == -1 && lhs->fixnum == INT64_MIN && !lhs->type->fixnum.is_unsigned)))
+          break;  // Leave the trap to the run time.
 
 #define CALC(kind, lval, rval, value) \
   switch (kind) { \
-- 
2.43.0


From 3d8d4c2435b71568105b664adc42d4638e08c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:03 +0000
Subject: [PATCH 88/96] fix: wcc: assignment used as a value in the initializer
 of local variable stored garbage

---
 src/wcc/traverse.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index 76c1d47..47c77bc 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -611,8 +611,7 @@ static void traverse_varinfo(VarInfo *varinfo) {
         info->flag |= GVF_UNRESOLVED;
     }
   }
-  if (!(varinfo->storage & (VS_EXTERN | VS_STATIC | VS_ENUM_MEMBER)))
-    traverse_initializer(varinfo->local.init);
+  // The initializer of local variable is traversed with `init_stmt`, which shares its expressions.
 }
 
 static void traverse_scope(Scope *scope) {
-- 
2.43.0


From 4a1450bb61367ab3be716be307d48e7cd3b2094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:07 +0000
Subject: [PATCH 89/96] fix: --apply-ssa: integer constant wider than its type
 was converted to floating point

---
 src/cc/backend/optimize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index f22e44d..6150633 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -452,7 +452,7 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
       if (ir->dst->flag & VRF_FLONUM) {
         double value;
         if (!(ir->opr1->flag & VRF_FLONUM)) {
-          int64_t fixnum = ir->opr1->fixnum;
+          int64_t fixnum = wrap_value(ir->opr1->fixnum, 1 << ir->opr1->vsize, ir->flag & IRF_UNSIGNED);
           if (ir->dst->vsize == VRegSize4)  // Round only once.
             value = (ir->flag & IRF_UNSIGNED) ? (float)(uint64_t)fixnum : (float)fixnum;
           else
-- 
2.43.0


From 9a5c35faaf8e78c19e07baa1666c733cce3e1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:19 +0000
Subject: [PATCH 90/96] fix: wcc: value of assignment inside of left operand of
 an assignment was lost

---
 src/wcc/traverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index 47c77bc..883c451 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -362,7 +362,7 @@ static void te_comma(Expr **pexpr, bool needval) {
 
 static void te_assign(Expr **pexpr, bool needval) {
   Expr *expr = *pexpr;
-  traverse_expr(&expr->bop.lhs, false);
+  traverse_expr(&expr->bop.lhs, true);
   traverse_expr(&expr->bop.rhs, true);
   if (needval) {
     Expr *rhs = expr->bop.rhs;
-- 
2.43.0


From 54ce04039ebb11c234894b1d6f90c5b2f58a5003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:10 +0000
Subject: [PATCH 91/96] fix: wcc: -g and -O do not take the next argument

---
 src/wcc/wcc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wcc/wcc.c b/src/wcc/wcc.c
index 8866ef7..a074d56 100644
--- a/src/wcc/wcc.c
+++ b/src/wcc/wcc.c
@@ -313,8 +313,8 @@ static void parse_options(int argc, char *argv[], Options *opts) {
     {"W", optional_argument},
 
     // Suppress warnings
-    {"O", required_argument, OPT_OPTIMIZE},
-    {"g", required_argument, OPT_DEBUGINFO},
+    {"O", optional_argument, OPT_OPTIMIZE},
+    {"g", optional_argument, OPT_DEBUGINFO},
     {"ansi", no_argument, OPT_ANSI},
     {"std", required_argument, OPT_STD},
     {"pedantic", no_argument, OPT_PEDANTIC},
-- 
2.43.0


From e9f56bf048c3ed06f5c4b8e715a503c79ca4bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:39 +0000
Subject: [PATCH 92/96] fix: -Wno-error does not turn warnings into errors

---
 src/cc/cc1.c  | 2 +-
 src/wcc/wcc.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/cc1.c b/src/cc/cc1.c
index 20a4fad..f9738c1 100644
--- a/src/cc/cc1.c
+++ b/src/cc/cc1.c
@@ -130,7 +130,7 @@ int main(int argc, char *argv[]) {
         break;
       }
       if (strcmp(optarg, "error") == 0) {
-        cc_flags.warn_as_error = true;
+        cc_flags.warn_as_error = opt == 'W';
       } else if (!parse_wopt(optarg, opt == 'W')) {
         // Silently ignored.
         // fprintf(stderr, "Warning: unknown option for -W: %s\n", optarg);
diff --git a/src/wcc/wcc.c b/src/wcc/wcc.c
index a074d56..b59e6d3 100644
--- a/src/wcc/wcc.c
+++ b/src/wcc/wcc.c
@@ -488,7 +488,7 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         break;
       }
       if (strcmp(optarg, "error") == 0) {
-        cc_flags.warn_as_error = true;
+        cc_flags.warn_as_error = opt == 'W';
       } else if (!parse_wopt(optarg, opt == 'W')) {
         // Silently ignored.
         // fprintf(stderr, "Warning: unknown option for -W: %s\n", optarg);
-- 
2.43.0


From 0b5d671553bf123ec43b8bd6dff9aa4df814d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:39 +0000
Subject: [PATCH 93/96] fix: directories of -idirafter are searched after the
 standard one

---
 src/wcc/wcc.c  | 2 +-
 src/xcc/main.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wcc/wcc.c b/src/wcc/wcc.c
index b59e6d3..f7d535b 100644
--- a/src/wcc/wcc.c
+++ b/src/wcc/wcc.c
@@ -681,7 +681,7 @@ int main(int argc, char *argv[]) {
   }
 
   if (!opts.nostdinc) {
-    add_inc_path(INC_AFTER, JOIN_PATHS(root, "include"));
+    add_inc_path(INC_SYSTEM, JOIN_PATHS(root, "include"));
   }
 
   VERBOSES("### Exports\n");
diff --git a/src/xcc/main.c b/src/xcc/main.c
index 06d317c..6f2e993 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -760,7 +760,7 @@ int main(int argc, char *argv[]) {
   }
 
   if (!opts.nostdinc) {
-    vec_push(cpp_cmd, "-idirafter");
+    vec_push(cpp_cmd, "-isystem");
     vec_push(cpp_cmd, JOIN_PATHS(root, "include"));
   }
 
-- 
2.43.0


From b0a3b3364c6397354eb4267471dc40611e2b0727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:39 +0000
Subject: [PATCH 94/96] fix: -D accepts a macro with parameters

---
 src/cpp/preprocessor.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index a973387..38dd27c 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -557,7 +557,8 @@ static void handle_define(const char *p, Stream *stream) {
   if (*p == '(') {
     // Macro with parameter.
     params = new_vector();
-    set_source_string(p + 1, stream->filename, stream->lineno);
+    set_source_string(p + 1, stream == NULL ? "?" : stream->filename,
+                      stream == NULL ? 0 : stream->lineno);
     if (!match(TK_RPAR)) {
       for (;;) {
         if (match(TK_ELLIPSIS)) {
@@ -949,9 +950,14 @@ void preprocess(FILE *fp, const char *filename) {
 }
 
 void define_macro(const char *arg) {
-  char *p = strchr(arg, '=');
-  Macro *macro = new_macro(NULL, NULL, parse_macro_body(p != NULL ? p + 1 : "1", NULL));
-  macro_add(alloc_name(arg, p, true), macro);
+  // `label=value' => `label value'
+  const char *p = strchr(arg, '=');
+  StringBuffer sb;
+  sb_init(&sb);
+  sb_append(&sb, arg, p);
+  sb_append(&sb, " ", NULL);
+  sb_append(&sb, p != NULL ? p + 1 : "1", NULL);
+  handle_define(sb_to_string(&sb), NULL);
 }
 
 void add_inc_path(enum IncludeOrder order, const char *path) {
-- 
2.43.0


From e0fd8ab5d505a004e943959ec4c4a5f8f40c4111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:39 +0000
Subject: [PATCH 95/96] fix: arguments of -Wl are separated at commas

---
 src/xcc/main.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 6f2e993..78f656f 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -510,10 +510,18 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         }
         const char *opt = argv[optind - 1];
         if (strncmp(opt, "-Wl,", 4) == 0) {
-          if (opts->use_ld)
+          if (opts->use_ld) {
             vec_push(opts->linker_options, opt);
-          else
-            vec_push(opts->ld_cmd, opt + 4);
+          } else {
+            // Comma separated arguments.
+            for (const char *p = opt + 4;;) {
+              const char *q = strchr(p, ',');
+              vec_push(opts->ld_cmd, q != NULL ? strndup(p, q - p) : p);
+              if (q == NULL)
+                break;
+              p = q + 1;
+            }
+          }
         } else {
           vec_push(opts->cc1_cmd, opt);
         }
-- 
2.43.0


From 35845866a85af01f2400bdecbc4a37fb3577c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:58 +0000
Subject: [PATCH 96/96] fix: wcc: name given twice to be exported made an
 invalid module

---
 src/wcc/wcc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wcc/wcc.c b/src/wcc/wcc.c
index f7d535b..1ab6924 100644
--- a/src/wcc/wcc.c
+++ b/src/wcc/wcc.c
@@ -360,7 +360,8 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         for (;;) {
           const char *p = strchr(s, ',');
           const Name *name = alloc_name(s, p, false);
-          vec_push(opts->exports, name);
+          if (!vec_contains(opts->exports, (void*)name))
+            vec_push(opts->exports, name);
           if (p == NULL)
             break;
           s = p + 1;
@@ -637,7 +638,9 @@ static int do_compile(Options *opts) {
     opts->entry_point = "_start";
   }
   if (opts->entry_point != NULL && *opts->entry_point != '\0') {
-    vec_push(opts->exports, alloc_name(opts->entry_point, NULL, false));
+    const Name *name = alloc_name(opts->entry_point, NULL, false);
+    if (!vec_contains(opts->exports, (void*)name))
+      vec_push(opts->exports, name);
   } else if (opts->exports->len == 0) {
     error("no exports (require -e<xxx>)\n");
   }
-- 
2.43.0

