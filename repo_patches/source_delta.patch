From 5efcdd0adde9f8b02358d592668c4f12d9133a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:37 +0000
Subject: [PATCH 001/102] fix: evaluate a return statement's expression each
 time it is executed

eval_return overwrote the expression in the parse tree with its value, so
every later execution of the same return statement yielded the first value.
---
 src/evaluate.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0860e82..769126b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2068,9 +2068,14 @@ static tree eval_if(tree t, int depth)
 
 static tree eval_return(tree t, int depth)
 {
-    tRET_EXP(t) = __evaluate_1(tRET_EXP(t), depth + 1);
+    /* Build a new tree for the evaluated result, the original expression needs
+     * to be evaluated again the next time this statement is executed. */
+    tree ret = tree_make(T_RETURN);
 
-    return t;
+    tLOCUS(ret) = tLOCUS(t);
+    tRET_EXP(ret) = __evaluate_1(tRET_EXP(t), depth + 1);
+
+    return ret;
 }
 
 /* Build a simplified decl chain, ensuring all decls with multiple
-- 
2.43.0


From e4a35bf28871d9c33f2040f59d0f4aa69abc97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 002/102] fix: act on break and return in any statement of a
 loop or function body

__evaluate dropped the result of a body that is a single statement, so an
unbraced 'if (c) return x;' or 'if (c) break;' had no effect. A break inside
an if statement only marked the if's own context, so the loop went on, and a
loop that did see a break returned without popping its context. Hand the
T_BREAK up to the enclosing loop instead.
---
 src/c.lang     |   1 -
 src/evaluate.c | 103 +++++++++++++++++++++++++------------------------
 2 files changed, 53 insertions(+), 51 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 82aebba..ad1a96f 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -232,7 +232,6 @@
 (deftype E_CTX "Evaluator Context" "tECTX"
          ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
           ("JMP_BUF" jmp_buf)
-          ("SHOULD_BREAK" flag)
           ("IS_FN_CALL" flag)
           ("IS_STATIC" flag)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index 769126b..bfca8c3 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -42,7 +42,7 @@ const tree get_include_chain(void)
 static const char *current_filename;
 
 static tree __evaluate_1(tree t, int depth);
-static void __evaluate(tree t, int depth);
+static tree __evaluate(tree t, int depth);
 
 enum identifier_search_scope
 {
@@ -1693,13 +1693,6 @@ static tree eval_gteq(tree t, int depth)
     return ret;
 }
 
-static tree eval_break(tree t, int depth)
-{
-    tECTX_SHOULD_BREAK(cur_ctx) = true;
-
-    return t;
-}
-
 static tree eval_eq(tree t, int depth)
 {
     tree left = convert_to_comparable_type(tEQ_LHS(t), depth),
@@ -1982,8 +1975,8 @@ static tree eval_loop_for(tree t, int depth)
 
     do {
 
-        tree cond_result = __evaluate_1(tFLOOP_COND(t),
-                                        depth + 1);
+        tree result, cond_result = __evaluate_1(tFLOOP_COND(t),
+                                                depth + 1);
 
         cond_result = convert_to_comparable_type(cond_result, depth + 1);
 
@@ -1994,13 +1987,12 @@ static tree eval_loop_for(tree t, int depth)
             break;
 
         push_ctx("For Loop");
-        __evaluate(tFLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        result = __evaluate(tFLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (is_T_BREAK(result))
+            break;
+
         __evaluate_1(tFLOOP_AFTER(t), depth + 1);
 
     } while (1);
@@ -2012,8 +2004,8 @@ static tree eval_loop_while(tree t, int depth)
 {
     do {
 
-        tree cond_result = __evaluate_1(tWLOOP_COND(t),
-                                        depth + 1);
+        tree result, cond_result = __evaluate_1(tWLOOP_COND(t),
+                                                depth + 1);
 
         cond_result = convert_to_comparable_type(cond_result, depth);
 
@@ -2024,13 +2016,12 @@ static tree eval_loop_while(tree t, int depth)
             break;
 
         push_ctx("While Loop");
-        __evaluate(tWLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        result = __evaluate(tWLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (is_T_BREAK(result))
+            break;
+
     } while (1);
 
     return NULL;
@@ -2051,19 +2042,20 @@ static tree eval_infix(tree t, int depth)
 
 static tree eval_if(tree t, int depth)
 {
-    tree cond_result = convert_to_comparable_type(tIF_COND(t), depth);
+    tree result, cond_result = convert_to_comparable_type(tIF_COND(t), depth);
 
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
     push_ctx("If statement");
     if (mpz_get_si(tINT_VAL(cond_result)))
-        __evaluate(tIF_TRUE_STMTS(t), depth + 1);
+        result = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
-        __evaluate(tIF_ELSE_STMTS(t), depth + 1);
+        result = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
     pop_ctx();
 
-    return NULL;
+    /* Let an enclosing loop know about a break. */
+    return result;
 }
 
 static tree eval_return(tree t, int depth)
@@ -2690,7 +2682,7 @@ static tree __evaluate_1(tree t, int depth)
     case T_INFIX:      result = eval_infix(t, depth + 1);      break;
     case T_IF:         result = eval_if(t, depth + 1);         break;
     case T_RETURN:     result = eval_return(t, depth + 1);     break;
-    case T_BREAK:      result = eval_break(t, depth + 1);      break;
+    case T_BREAK:      result = eval_self(t, depth + 1);       break;
     case T_DECL_COMPOUND:result = eval_decl_compound(t, depth + 1);break;
     case T_ENUMERATOR: result = eval_enumerator(t, depth + 1); break;
     case T_SIZEOF:     result = eval_sizeof(t, depth + 1);     break;
@@ -2717,39 +2709,50 @@ static tree __evaluate_1(tree t, int depth)
     return result;
 }
 
-static void __evaluate(tree head, int depth)
+/* Evaluate a statement. If control is to leave the enclosing loop, the T_BREAK
+ * is returned, otherwise NULL. A return statement doesn't return here. */
+static tree __evaluate_stmt(tree stmt, int depth)
 {
-    tree i;
+    tree result = __evaluate_1(stmt, depth);
 
-    if (!head)
-        return;
+    if (is_T_RETURN(result)) {
+        tree fn_ctx = cur_ctx;
 
-    if (!is_CHAIN_HEAD(head))
-        __evaluate_1(head, depth);
+        while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
+            fn_ctx = tECTX_PARENT_CTX(fn_ctx);
 
-    for_each_tree(i, head) {
-        tree result = __evaluate_1(i, depth);
+        /* If we reach the top of the evaluation stack, we have been
+         * executing a cscript and the top-level of it has called return. In
+         * that case, just return the result.
+         */
+        if (!fn_ctx)
+            cscript_exit(tRET_EXP(result));
 
-        if (is_T_RETURN(result)) {
-            tree fn_ctx = cur_ctx;
+        tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
+        longjmp(tECTX_JMP_BUF(fn_ctx), 1);
+    }
 
-            while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
-                fn_ctx = tECTX_PARENT_CTX(fn_ctx);
+    return is_T_BREAK(result) ? result : NULL;
+}
 
-            /* If we reach the top of the evaluation stack, we have been
-             * executing a cscript and the top-level of it has called return. In
-             * that case, just return the result.
-             */
-            if (!fn_ctx)
-                cscript_exit(tRET_EXP(result));
+static tree __evaluate(tree head, int depth)
+{
+    tree i;
 
-            tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
-            longjmp(tECTX_JMP_BUF(fn_ctx), 1);
-        }
+    if (!head)
+        return NULL;
 
-        if (is_T_BREAK(result))
-            return;
+    if (!is_CHAIN_HEAD(head))
+        return __evaluate_stmt(head, depth);
+
+    for_each_tree(i, head) {
+        tree result = __evaluate_stmt(i, depth);
+
+        if (result)
+            return result;
     }
+
+    return NULL;
 }
 
 int get_c_main_return_value(tree t)
-- 
2.43.0


From bee5ac4d717b2b1d032413ff972b75073328be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 003/102] fix: run the statements of a nested block

A block that is a member of a chain of statements was chained by the head of
its own statement chain, which corrupted both chains: the statements were
skipped or the evaluator crashed. Wrap such a block in a T_BLOCK, which is
evaluated in a context of its own.
---
 src/c.lang     |  3 +++
 src/evaluate.c | 13 +++++++++++++
 src/parser.m4  | 23 +++++++++++++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/src/c.lang b/src/c.lang
index ad1a96f..d944c71 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -205,6 +205,9 @@
 (deftype T_LOOP_WHILE "While loop" "tWLOOP"
          ("COND" "STMTS"))
 
+(deftype T_BLOCK "Block statement" "tBLOCK"
+         ("STMTS"))
+
 (deftype T_RETURN "Function return" "tRET"
          ("EXP"))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index bfca8c3..2f97c5f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2040,6 +2040,18 @@ static tree eval_infix(tree t, int depth)
         return __evaluate_1(tINFIX_FALSE_STMT(t), depth + 1);
 }
 
+static tree eval_block(tree t, int depth)
+{
+    tree result;
+
+    push_ctx("Block");
+    result = __evaluate(tBLOCK_STMTS(t), depth + 1);
+    pop_ctx();
+
+    /* Let an enclosing loop know about a break. */
+    return result;
+}
+
 static tree eval_if(tree t, int depth)
 {
     tree result, cond_result = convert_to_comparable_type(tIF_COND(t), depth);
@@ -2680,6 +2692,7 @@ static tree __evaluate_1(tree t, int depth)
     case T_LOOP_FOR:   result = eval_loop_for(t, depth + 1);   break;
     case T_LOOP_WHILE: result = eval_loop_while(t, depth + 1); break;
     case T_INFIX:      result = eval_infix(t, depth + 1);      break;
+    case T_BLOCK:      result = eval_block(t, depth + 1);      break;
     case T_IF:         result = eval_if(t, depth + 1);         break;
     case T_RETURN:     result = eval_return(t, depth + 1);     break;
     case T_BREAK:      result = eval_self(t, depth + 1);       break;
diff --git a/src/parser.m4 b/src/parser.m4
index 2634589..5061122 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -59,6 +59,23 @@ static void maybe_add_typenames(tree decl)
 }
 
 CSCRIPT_ONLY
+    /* The statements of a block are the members of a chain. As the head of that
+     * chain can't be a member of another one, wrap a block that is itself one of
+     * a chain of statements. */
+    static tree make_block(tree stmt, YYLTYPE locus)
+    {
+        tree block;
+
+        if (!is_CHAIN_HEAD(stmt))
+            return stmt;
+
+        block = tree_make(T_BLOCK);
+        tBLOCK_STMTS(block) = stmt;
+        set_locus(block, locus);
+
+        return block;
+    }
+
     void TARGET()_parser_set_file(const char *fname)
     {
         TARGET()_current_file = fname;
@@ -1454,6 +1471,9 @@ CSCRIPT_ONLY
     block_item
     : declaration
     | statement
+    {
+        $$ = make_block($1, @1);
+    }
     ;
 
     selection_statement
@@ -1587,6 +1607,9 @@ CSCRIPT_ONLY
     cscript_external_declaration
     : external_declaration
     | statement
+    {
+        $$ = make_block($1, @1);
+    }
     ;
 
     cscript_translation_unit
-- 
2.43.0


From a83891a21a1bf34347281d3130ec0e60a267d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 004/102] fix: give a for loop its own scope and accept an
 absent condition

A variable declared in a for loop's initialiser stayed declared after the
loop, so a second loop declaring it was an error; an absent condition
crashed the evaluator.
---
 src/evaluate.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 2f97c5f..8b170e1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1971,22 +1971,26 @@ static tree eval_cast(tree t, int depth)
 
 static tree eval_loop_for(tree t, int depth)
 {
+    /* The scope of a declaration in the initialiser is the loop. */
+    push_ctx("For Loop");
     __evaluate_1(tFLOOP_INIT(t), depth + 1);
 
     do {
+        tree result;
 
-        tree result, cond_result = __evaluate_1(tFLOOP_COND(t),
-                                                depth + 1);
+        /* An absent condition is always true. */
+        if (!is_T_EMPTY(tFLOOP_COND(t))) {
+            tree cond_result = convert_to_comparable_type(tFLOOP_COND(t),
+                                                          depth);
 
-        cond_result = convert_to_comparable_type(cond_result, depth + 1);
+            if (!is_T_INTEGER(cond_result))
+                eval_die(t, "Unknown condition result");
 
-        if (!is_T_INTEGER(cond_result))
-            eval_die(t, "Unknown condition result");
-
-        if (!mpz_get_si(tINT_VAL(cond_result)))
-            break;
+            if (!mpz_get_si(tINT_VAL(cond_result)))
+                break;
+        }
 
-        push_ctx("For Loop");
+        push_ctx("For Loop Body");
         result = __evaluate(tFLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
@@ -1997,6 +2001,8 @@ static tree eval_loop_for(tree t, int depth)
 
     } while (1);
 
+    pop_ctx();
+
     return NULL;
 }
 
-- 
2.43.0


From 125148cee4dab5e4348f727156583218b9250833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 005/102] fix: truncate integer division towards zero and
 report division by zero

mpz_div rounds towards negative infinity, C truncates: -7 / 2 gave -4. A zero
divisor made GMP kill the interpreter with SIGFPE.
---
 src/evaluate.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 8b170e1..a55a0de 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1564,7 +1564,10 @@ static tree eval_div(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_div(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    if (!mpz_sgn(tINT_VAL(right)))
+        eval_die(t, "Division by zero\n");
+
+    mpz_tdiv_q(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
 }
@@ -1586,6 +1589,9 @@ static tree eval_mod(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not modulus to non integer type\n");
 
+    if (!mpz_sgn(tINT_VAL(right)))
+        eval_die(t, "Division by zero\n");
+
     mpz_tdiv_r(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
-- 
2.43.0


From 7e6b0c6272266cd802c5551ef9caf058c51b42ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 006/102] fix: shift negative values right arithmetically,
 check the shift count

-7 >> 1 gave -3, the quotient truncated towards zero, where the C
implementations bic calls into give -4. A negative count shifted by its
magnitude and an excessive one made GMP abort the interpreter.
---
 src/evaluate.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index a55a0de..c40a4d1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1413,6 +1413,15 @@ static tree eval_sub(tree t, int depth)
     return ret;
 }
 
+static mp_bitcnt_t get_shift_count(tree t, tree count)
+{
+    if (mpz_sgn(tINT_VAL(count)) < 0 ||
+        mpz_cmp_ui(tINT_VAL(count), 8 * sizeof(long long)) >= 0)
+        eval_die(t, "Shift count out of range\n");
+
+    return mpz_get_ui(tINT_VAL(count));
+}
+
 static tree eval_lshift(tree t, int depth)
 {
     tree left = __evaluate_1(tLSHIFT_LHS(t), depth + 1);
@@ -1430,7 +1439,7 @@ static tree eval_lshift(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_mul_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
+    mpz_mul_2exp(tINT_VAL(ret), tINT_VAL(left), get_shift_count(t, right));
 
     return ret;
 }
@@ -1452,7 +1461,8 @@ static tree eval_rshift(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_tdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
+    mpz_fdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left),
+                    get_shift_count(t, right));
 
     return ret;
 }
-- 
2.43.0


From e819d2eba4aac8d0871fa6ef440ee6ea51a29576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:17 +0000
Subject: [PATCH 007/102] fix: read integer literals with a leading zero as
 octal

---
 src/lex.m4 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lex.m4 b/src/lex.m4
index 66c8db2..022b018 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -195,6 +195,7 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
+-?0[0-7]+                         mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 8); return INTEGER;
 -?[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
 -?[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
-- 
2.43.0


From 3a272006a99f8199d071eb5312073b1244003c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 008/102] fix: parse '-' after an operand as an operator, and
 unary minus

The lexer made '-1' one token, so 'a-1' was a syntax error, and there was no
unary minus for anything but a literal.
---
 src/lex.m4    |  6 +++---
 src/parser.m4 | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 022b018..612f535 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -195,9 +195,9 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
--?0[0-7]+                         mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 8); return INTEGER;
--?[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
--?[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
+0[0-7]+                         mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 8); return INTEGER;
+[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
+[0-9]+\.[0-9]+                  mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
diff --git a/src/parser.m4 b/src/parser.m4
index 5061122..f252c1b 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -347,6 +347,26 @@ unary_expression
     set_locus(deref, @1);
     $$ = deref;
 }
+| '-' cast_expression
+{
+    tree sub, zero;
+
+    if (is_T_INTEGER($2)) {
+        mpz_neg(tINT_VAL($2), tINT_VAL($2));
+        $$ = $2;
+    } else if (is_T_FLOAT($2)) {
+        mpf_neg(tFLOAT_VAL($2), tFLOAT_VAL($2));
+        $$ = $2;
+    } else {
+        zero = get_integer(0);
+        set_locus(zero, @1);
+        sub = tree_make(T_SUB);
+        tSUB_LHS(sub) = zero;
+        tSUB_RHS(sub) = $2;
+        set_locus(sub, @1);
+        $$ = sub;
+    }
+}
 | '~' unary_expression
 {
     tree comp = tree_make(T_ONES_COMP);
-- 
2.43.0


From 06083de66e23471e2c4dc12a89fc5d42a037b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 009/102] fix: accept a cast as the operand of the unary
 operators !, &, * and ~

---
 src/parser.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index f252c1b..f9f70fb 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -326,21 +326,21 @@ unary_expression
     set_locus(dec, @1);
     $$ = dec;
 }
-| '!' unary_expression
+| '!' cast_expression
 {
     tree negate = tree_make(T_NEGATE);
     tNEGATE_EXP(negate) = $2;
     set_locus(negate, @1);
     $$ = negate;
 }
-| '&' unary_expression
+| '&' cast_expression
 {
     tree addr = tree_make(T_ADDR);
     tADDR_EXP(addr) = $2;
     set_locus(addr, @1);
     $$ = addr;
 }
-| '*' unary_expression
+| '*' cast_expression
 {
     tree deref = tree_make(T_DEREF);
     tDEREF_EXP(deref) = $2;
@@ -367,7 +367,7 @@ unary_expression
         $$ = sub;
     }
 }
-| '~' unary_expression
+| '~' cast_expression
 {
     tree comp = tree_make(T_ONES_COMP);
     tONES_COMP_EXP(comp) = $2;
-- 
2.43.0


From aa6ac51a84b662e71a3d6f961a2c014c87bda564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 010/102] fix: exit with the value that main returns

The value main returned was discarded and bic always exited with status 0; a
top-level 'return;' crashed.
---
 src/cscript.c  | 22 +++++++++++-----------
 src/evaluate.c |  8 +++++++-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 52310a5..fd63848 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -105,11 +105,12 @@ static void create_arguments(int argc, char *argv[])
     evaluate(chain, "<COMPOSE ARGS>");
 }
 
-static void add_call_to_main(tree head, int num_args)
+static int call_main(int num_args)
 {
+    tree result;
     tree main_fncall = tree_make(T_FN_CALL);
 
-    tFNCALL_ID(main_fncall) = get_identifier(strdup("main"));
+    tFNCALL_ID(main_fncall) = get_identifier("main");
     tFNCALL_ARGS(main_fncall) = NULL;
 
     if (num_args > 0)
@@ -121,11 +122,13 @@ static void add_call_to_main(tree head, int num_args)
     if (num_args > 2)
         fprintf(stderr, "Error: too many arguments in main function");
 
-    tree_chain(main_fncall, head);
+    result = evaluate_expr(main_fncall);
+
+    return get_c_main_return_value(result);
 }
 
-static void __evaluate_cscript(tree head, const char *fname, int argc,
-                               char* argv[])
+static int __evaluate_cscript(tree head, const char *fname, int argc,
+                              char* argv[])
 {
     /* Figure out how to execute the cscript:
      *
@@ -179,10 +182,9 @@ static void __evaluate_cscript(tree head, const char *fname, int argc,
 
     create_arguments(argc, argv);
 
-    if (has_main)
-        add_call_to_main(head, num_main_args);
-
     evaluate(head, fname);
+
+    return has_main ? call_main(num_main_args) : 0;
 }
 
 void cscript_exit(tree result)
@@ -213,7 +215,5 @@ int evaluate_cscript(const char *script_name,
       exit(0);
   }
 
-  __evaluate_cscript(cscript_parse_head, script_name, argc, argv);
-
-  return 0;
+  return __evaluate_cscript(cscript_parse_head, script_name, argc, argv);
 }
diff --git a/src/evaluate.c b/src/evaluate.c
index c40a4d1..135f3ef 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2793,7 +2793,13 @@ static tree __evaluate(tree head, int depth)
 int get_c_main_return_value(tree t)
 {
     int ret;
-    tree retnum = convert_to_comparable_type(t, 0);
+    tree retnum;
+
+    /* No value was returned. */
+    if (!t)
+        return 0;
+
+    retnum = convert_to_comparable_type(t, 0);
 
     if (!is_T_INTEGER(retnum))
         return 1;
-- 
2.43.0


From 71c7ae04ec558b74c3db869ae26957120ff448a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 011/102] fix: print the evaluator backtrace of an error on
 stderr

It was mixed in with the program's own output.
---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 135f3ef..6ffc69b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -99,7 +99,7 @@ static void ctx_backtrace(void)
     tree ctx = cur_ctx;
 
     while (ctx) {
-        puts(tID_STR(tECTX_NAME(ctx)));
+        fprintf(stderr, "%s\n", tID_STR(tECTX_NAME(ctx)));
         ctx = tECTX_PARENT_CTX(ctx);
     }
 }
-- 
2.43.0


From 003b2723e380f6b20fa5f4d64ba0c22d8d5dbde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 012/102] fix: keep all 64 bits of unsigned values

mpz_get_si drops bit 63 of a value that doesn't fit a signed long, so an
assignment or a condition lost it, and the value of an unsigned long variable
was read as a signed one.
---
 src/evaluate.c | 76 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 6ffc69b..1387187 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -312,21 +312,26 @@ static tree make_int_from_live_var(tree var)
     tree type = tLV_TYPE(var);
 
     switch (TYPE(type)) {
-#define SETINT(type)                                                       \
-        case type:                                                         \
-            mpz_init_set_si(tINT_VAL(ret), (ptrdiff_t)tLV_VAL(var)->type); \
+#define SETINT(type)                                            \
+        case type:                                              \
+            mpz_init_set_si(tINT_VAL(ret), tLV_VAL(var)->type); \
+            break;
+#define SETUINT(type)                                                        \
+        case type:                                                           \
+            mpz_init_set_ui(tINT_VAL(ret), (uintptr_t)tLV_VAL(var)->type);   \
             break;
         SETINT(D_T_CHAR);
         SETINT(D_T_SHORT);
         SETINT(D_T_INT);
         SETINT(D_T_LONG);
         SETINT(D_T_LONGLONG);
-        SETINT(D_T_UCHAR);
-        SETINT(D_T_USHORT);
-        SETINT(D_T_UINT);
-        SETINT(D_T_ULONG);
-        SETINT(D_T_ULONGLONG);
-        SETINT(D_T_PTR);
+        SETUINT(D_T_UCHAR);
+        SETUINT(D_T_USHORT);
+        SETUINT(D_T_UINT);
+        SETUINT(D_T_ULONG);
+        SETUINT(D_T_ULONGLONG);
+        SETUINT(D_T_PTR);
+#undef SETUINT
 #undef SETINT
     default:
         eval_die(var, "Could not create integer type from live var.");
@@ -335,6 +340,15 @@ static tree make_int_from_live_var(tree var)
     return ret;
 }
 
+/* The value of an integer, wrapped to the widest integer type. */
+static unsigned long get_wrapped_int(tree integer)
+{
+    /* Note that mpz_get_ui takes no notice of the sign. */
+    unsigned long val = mpz_get_ui(tINT_VAL(integer));
+
+    return mpz_sgn(tINT_VAL(integer)) < 0 ? -val : val;
+}
+
 static tree convert_to_comparable_type(tree t, int depth)
 {
     tree evaluated = __evaluate_1(t, depth + 1),
@@ -1142,15 +1156,20 @@ static tree eval_decl(tree t, int depth)
     return ret;
 }
 
+static bool is_FLOAT_CTYPE(tree type)
+{
+    return is_D_T_FLOAT(type) || is_D_T_DOUBLE(type) || is_D_T_LONGDOUBLE(type);
+}
+
 static void assign_integer(tree var, tree right)
 {
-    signed long int val;
+    unsigned long val;
 
     /* Obtain the value with which to assign. */
     switch (TYPE(right))
     {
     case T_INTEGER:
-         val = mpz_get_si(tINT_VAL(right));
+         val = get_wrapped_int(right);
          break;
     case T_LIVE_VAR:
         val = tLV_VAL(right)->D_T_LONG;
@@ -1173,16 +1192,19 @@ static void assign_integer(tree var, tree right)
 
 static void assign_float(tree var, tree right)
 {
-    double val;
+    long double val;
 
     /* Obtain the value with which to assign. */
     switch (TYPE(right))
     {
     case T_INTEGER:
-        val = (double)mpz_get_si(tINT_VAL(right));
-         break;
+        if (mpz_sgn(tINT_VAL(right)) < 0)
+            val = (long)get_wrapped_int(right);
+        else
+            val = get_wrapped_int(right);
+        break;
     case T_FLOAT:
-        val = (double)mpf_get_d(tFLOAT_VAL(right));
+        val = mpf_get_d(tFLOAT_VAL(right));
         break;
     case T_LIVE_VAR:
         val = tLV_VAL(right)->D_T_DOUBLE;
@@ -1196,7 +1218,10 @@ static void assign_float(tree var, tree right)
         tLV_VAL(var)->D_T_FLOAT = (float)val;
         break;
     case D_T_DOUBLE:
-        tLV_VAL(var)->D_T_DOUBLE = val;
+        tLV_VAL(var)->D_T_DOUBLE = (double)val;
+        break;
+    case D_T_LONGDOUBLE:
+        tLV_VAL(var)->D_T_LONGDOUBLE = val;
         break;
     default:
         eval_die(var, "could not assign to non-float type");
@@ -1216,7 +1241,7 @@ static void assign_ptr(tree var, tree right)
         ptr = (void *)tLV_VAL(right)->D_T_PTR;
         break;
     case T_INTEGER:
-        ptr = (void *)mpz_get_ui(tINT_VAL(right));
+        ptr = (void *)get_wrapped_int(right);
         break;
     default:
         eval_die(right, "Could not assign to non-pointer type");
@@ -1854,7 +1879,12 @@ static tree eval_cast(tree t, int depth)
 
     if (is_T_INTEGER(source)) {
         tree lv = make_live_var(dest_type);
-        assign_integer(lv, source);
+
+        if (is_FLOAT_CTYPE(dest_type))
+            assign_float(lv, source);
+        else
+            assign_integer(lv, source);
+
         return lv;
     }
 
@@ -2002,7 +2032,7 @@ static tree eval_loop_for(tree t, int depth)
             if (!is_T_INTEGER(cond_result))
                 eval_die(t, "Unknown condition result");
 
-            if (!mpz_get_si(tINT_VAL(cond_result)))
+            if (!mpz_sgn(tINT_VAL(cond_result)))
                 break;
         }
 
@@ -2034,7 +2064,7 @@ static tree eval_loop_while(tree t, int depth)
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
 
-        if (!mpz_get_si(tINT_VAL(cond_result)))
+        if (!mpz_sgn(tINT_VAL(cond_result)))
             break;
 
         push_ctx("While Loop");
@@ -2056,7 +2086,7 @@ static tree eval_infix(tree t, int depth)
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         return __evaluate_1(tINFIX_TRUE_STMT(t), depth + 1);
     else
         return __evaluate_1(tINFIX_FALSE_STMT(t), depth + 1);
@@ -2082,7 +2112,7 @@ static tree eval_if(tree t, int depth)
         eval_die(t, "Unknown condition result");
 
     push_ctx("If statement");
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         result = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
         result = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
@@ -2804,7 +2834,7 @@ int get_c_main_return_value(tree t)
     if (!is_T_INTEGER(retnum))
         return 1;
 
-    ret = mpz_get_si(tINT_VAL(retnum));
+    ret = get_wrapped_int(retnum);
 
     return ret;
 }
-- 
2.43.0


From 101f163ae855142530a783efd1ab50b31abcdf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 013/102] fix: honour the sign of an array index

p[-1] accessed p[1].
---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1387187..89ae236 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2424,7 +2424,7 @@ static tree eval_array_access(tree t, int depth)
     if (!is_T_INTEGER(index))
         eval_die(index, "Unknown index type\n");
 
-    idx = mpz_get_ui(tINT_VAL(index));
+    idx = get_wrapped_int(index);
 
     base = tLV_VAL(array)->D_T_PTR;
 
-- 
2.43.0


From f00598ce984a93c7b1028c4b30e58ea6fb6c1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 014/102] fix: convert an assigned value from the type of its
 source

An assignment from a variable read a long (or a double) whatever the
variable's type was, so 'int i; long l = i;' picked up the bytes after i,
and an int assigned to a double (or the reverse) copied the bit pattern.
---
 src/evaluate.c | 75 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 89ae236..dc7d00b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1161,23 +1161,59 @@ static bool is_FLOAT_CTYPE(tree type)
     return is_D_T_FLOAT(type) || is_D_T_DOUBLE(type) || is_D_T_LONGDOUBLE(type);
 }
 
+static long double get_float_from_live_var(tree var)
+{
+    switch (TYPE(tLV_TYPE(var))) {
+    case D_T_FLOAT:
+        return tLV_VAL(var)->D_T_FLOAT;
+    case D_T_DOUBLE:
+        return tLV_VAL(var)->D_T_DOUBLE;
+    case D_T_LONGDOUBLE:
+        return tLV_VAL(var)->D_T_LONGDOUBLE;
+    default:
+        eval_die(var, "could not convert live var to float.\n");
+    }
+}
+
 static void assign_integer(tree var, tree right)
 {
-    unsigned long val;
+    /* Convert from the type of the source. */
+    if (is_T_FLOAT(right) ||
+        (is_T_LIVE_VAR(right) && is_FLOAT_CTYPE(tLV_TYPE(right)))) {
+        long double val = is_T_FLOAT(right) ?
+            mpf_get_d(tFLOAT_VAL(right)) : get_float_from_live_var(right);
 
-    /* Obtain the value with which to assign. */
-    switch (TYPE(right))
-    {
-    case T_INTEGER:
-         val = get_wrapped_int(right);
-         break;
-    case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_LONG;
-        break;
-    default:
-        eval_die(right, "unknown rvalue assignment to integer.\n");
+        switch (TYPE(tLV_TYPE(var))) {
+#define SETFLOAT(TNAME, CTYPE)                      \
+            case TNAME:                             \
+                tLV_VAL(var)->TNAME = (CTYPE)val;   \
+                break;
+            SETFLOAT(D_T_CHAR, char);
+            SETFLOAT(D_T_SHORT, short);
+            SETFLOAT(D_T_INT, int);
+            SETFLOAT(D_T_LONG, long);
+            SETFLOAT(D_T_LONGLONG, long long);
+            SETFLOAT(D_T_UCHAR, unsigned char);
+            SETFLOAT(D_T_USHORT, unsigned short);
+            SETFLOAT(D_T_UINT, unsigned int);
+            SETFLOAT(D_T_ULONG, unsigned long);
+            SETFLOAT(D_T_ULONGLONG, unsigned long long);
+#undef SETFLOAT
+        default:
+            eval_die(var, "could not assign to non-integer type");
+        }
+
+        return;
     }
 
+    if (is_T_LIVE_VAR(right))
+        right = make_int_from_live_var(right);
+
+    if (!is_T_INTEGER(right))
+        eval_die(right, "unknown rvalue assignment to integer.\n");
+
+    unsigned long val = get_wrapped_int(right);
+
     switch (TYPE(tLV_TYPE(var))) {
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)         \
             case TNAME:                                  \
@@ -1194,6 +1230,9 @@ static void assign_float(tree var, tree right)
 {
     long double val;
 
+    if (is_T_LIVE_VAR(right) && !is_FLOAT_CTYPE(tLV_TYPE(right)))
+        right = make_int_from_live_var(right);
+
     /* Obtain the value with which to assign. */
     switch (TYPE(right))
     {
@@ -1207,7 +1246,7 @@ static void assign_float(tree var, tree right)
         val = mpf_get_d(tFLOAT_VAL(right));
         break;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_DOUBLE;
+        val = get_float_from_live_var(right);
         break;
     default:
         eval_die(right, "unknown rvalue assignment to float.\n");
@@ -1263,7 +1302,7 @@ static tree eval_assign(tree t, int depth)
     case D_T_CHAR ... D_T_ULONGLONG:
         assign_integer(left, right);
         break;
-    case D_T_FLOAT ... D_T_DOUBLE:
+    case D_T_FLOAT ... D_T_LONGDOUBLE:
         assign_float(left, right);
         break;
     case D_T_PTR:
@@ -1877,7 +1916,7 @@ static tree eval_cast(tree t, int depth)
         dest_type = __evaluate_1(tCAST_NEWTYPE(t), depth + 1),
         ret;
 
-    if (is_T_INTEGER(source)) {
+    if (is_T_INTEGER(source) || is_T_FLOAT(source)) {
         tree lv = make_live_var(dest_type);
 
         if (is_FLOAT_CTYPE(dest_type))
@@ -1888,12 +1927,6 @@ static tree eval_cast(tree t, int depth)
         return lv;
     }
 
-    if (is_T_FLOAT(source)) {
-        tree lv = make_live_var(dest_type);
-        assign_float(lv, source);
-        return lv;
-    }
-
     if (!is_T_LIVE_VAR(source))
         eval_die(t, "Could not cast non-live variable\n");
 
-- 
2.43.0


From 4fe57f289d1d1a3b78ec794e9d1e75bff55429d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 015/102] fix: make the value of an assignment the converted
 one

With 'char c; int a = c = 300;' a became 300 rather than 44.
---
 src/evaluate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index dc7d00b..c993062 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1312,9 +1312,9 @@ static tree eval_assign(tree t, int depth)
         eval_die(t, "Unknown assignment rvalue type.");
     }
 
-    /* Return the value that was assigned, thereby making an assignment work as
-     * a rvalue. */
-    return right;
+    /* Return the value of the left operand after the assignment, thereby making
+     * an assignment work as a rvalue. */
+    return left;
 }
 
 static void live_var_add(tree var, unsigned long int val)
-- 
2.43.0


From 3c0470a88b1bc0a3e76cd78a73867714f49fc621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 016/102] fix: evaluate all arguments of a call in the scope of
 the caller

An argument was evaluated with the preceding parameters already declared, so
f(b, a) passed the new value of a for the second argument of f(int a, int b).
---
 src/evaluate.c | 38 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c993062..c4bb399 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -436,8 +436,13 @@ static tree eval_fn_call(tree t, int depth)
     if (is_T_FN(function)) {
         if (tFN_STMTS(function)) {
             tree arg_decls = tFN_ARGS(function),
-                arg_vals = tFNCALL_ARGS(t),
-                arg_decl, arg_val, return_val, fn_ctx;
+                arg_vals, arg_decl, arg_val, return_val, fn_ctx;
+
+            /* Evaluate all arguments before pushing the function's context, as
+             * they need to be evaluated in the scope of the caller: a parameter
+             * may have the same name as a variable that's part of an
+             * argument. */
+            arg_vals = eval_fn_args(tFNCALL_ARGS(t), depth);
 
             push_ctx(tID_STR(tFN_DECL(function)));
             tECTX_IS_FN_CALL(cur_ctx) = true;
@@ -463,40 +468,17 @@ static tree eval_fn_call(tree t, int depth)
                 arg_val = arg_vals;
 
                 for_each_tree(arg_decl, arg_decls) {
-                    tree eval_arg_val,
-                        decl_identifier,
-                        assign;
+                    tree decl_identifier, assign;
 
                     arg_val = list_entry(arg_val->chain.next,
                                          typeof(*arg_val), chain);
 
-                    /* We need to evaluate the argument value before
-                     * adding the declaration on to the new context.  This
-                     * prevents bugs with things such as:
-                     *
-                     * 0: int foo(int a)
-                     * 1: {
-                     * 2:      use(a);
-                     * 3: }
-                     * 4:
-                     * 5: int main()
-                     * 6: {
-                     * 7:     int a = 10;
-                     * 8:     foo(a);
-                     * 9: }
-                     *
-                     * Notice that if we evaluated 'int a' on line 0
-                     * first, then we evaluate the assignment 'a = a' the
-                     * lhs would evaluate to the newly declared 'a' value.
-                     * Therefore, if we evaluate 'a' on line 8 before the
-                     * declaration on line 0, we obtain the correct lvalue
-                     * for assignment. */
-                    eval_arg_val = __evaluate_1(arg_val, depth + 1);
                     decl_identifier = __evaluate_1(arg_decl, depth + 1);
 
                     assign = tree_make(T_ASSIGN);
+                    tLOCUS(assign) = tLOCUS(t);
                     tASSIGN_LHS(assign) = decl_identifier;
-                    tASSIGN_RHS(assign) = eval_arg_val;
+                    tASSIGN_RHS(assign) = tFNARG_EXP(arg_val);
                     __evaluate_1(assign, depth + 1);
                 }
             }
-- 
2.43.0


From f31ec3375680b33d6bc1e4460c90ae5c753255d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 017/102] fix: resolve a function's identifiers in its own
 scope

The context of a call had the caller's context as its parent, so a function
saw (and could modify) the caller's local variables, which shadowed the
globals it was written against.
---
 src/c.lang     |  2 +-
 src/evaluate.c | 29 +++++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index d944c71..346f390 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -233,7 +233,7 @@
 (deftype CHAIN_HEAD "Tree Chain Head")
 
 (deftype E_CTX "Evaluator Context" "tECTX"
-         ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
+         ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "CALLER_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
           ("JMP_BUF" jmp_buf)
           ("IS_FN_CALL" flag)
           ("IS_STATIC" flag)))
diff --git a/src/evaluate.c b/src/evaluate.c
index c4bb399..19a5403 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -23,6 +23,10 @@
 static tree cur_ctx = NULL;
 GC_STATIC_TREE(cur_ctx);
 
+/* The context that holds the declarations made outside of any function. */
+static tree toplevel_ctx = NULL;
+GC_STATIC_TREE(toplevel_ctx);
+
 /* This holds the evaluator state after the evaluation of any #include
  * directives.  */
 static tree include_ctx = NULL;
@@ -60,7 +64,10 @@ static void pop_ctx(void)
         exit(EXIT_FAILURE);
     }
 
-    cur_ctx = tECTX_PARENT_CTX(cur_ctx);
+    if (tECTX_IS_FN_CALL(cur_ctx))
+        cur_ctx = tECTX_CALLER_CTX(cur_ctx);
+    else
+        cur_ctx = tECTX_PARENT_CTX(cur_ctx);
 }
 
 static void push_ctx(const char *name)
@@ -82,6 +89,19 @@ static void push_ctx(const char *name)
     cur_ctx = new_ctx;
 }
 
+/* Push a context for a call to a function. The caller's variables aren't in the
+ * scope of the function, hence the parent is the top-level context. */
+static void push_fn_ctx(const char *name)
+{
+    tree caller_ctx = cur_ctx;
+
+    push_ctx(name);
+
+    tECTX_IS_FN_CALL(cur_ctx) = true;
+    tECTX_CALLER_CTX(cur_ctx) = caller_ctx;
+    tECTX_PARENT_CTX(cur_ctx) = toplevel_ctx;
+}
+
 static void *track_alloc(void *ptr)
 {
     tree alloc = tree_make(E_ALLOC);
@@ -100,7 +120,8 @@ static void ctx_backtrace(void)
 
     while (ctx) {
         fprintf(stderr, "%s\n", tID_STR(tECTX_NAME(ctx)));
-        ctx = tECTX_PARENT_CTX(ctx);
+        ctx = tECTX_IS_FN_CALL(ctx) ? tECTX_CALLER_CTX(ctx) :
+            tECTX_PARENT_CTX(ctx);
     }
 }
 
@@ -444,8 +465,7 @@ static tree eval_fn_call(tree t, int depth)
              * argument. */
             arg_vals = eval_fn_args(tFNCALL_ARGS(t), depth);
 
-            push_ctx(tID_STR(tFN_DECL(function)));
-            tECTX_IS_FN_CALL(cur_ctx) = true;
+            push_fn_ctx(tID_STR(tFN_DECL(function)));
 
             fn_ctx = cur_ctx;
 
@@ -2924,5 +2944,6 @@ void eval_init(void)
     push_ctx("Bultins");
     eval_init_builtins();
     push_ctx("Toplevel");
+    toplevel_ctx = cur_ctx;
     include_chain = tree_make(CHAIN_HEAD);
 }
-- 
2.43.0


From 90952700c33dd64f6e28b3c1bc766c993e09a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 018/102] fix: convert a function's result to its return type,
 in the caller's context

The returned value kept its own type, and returning a variable handed out
storage that was freed with the function's context. Report the use of a call
without a value instead of crashing.
---
 src/evaluate.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 19a5403..1430ec6 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -47,6 +47,7 @@ static const char *current_filename;
 
 static tree __evaluate_1(tree t, int depth);
 static tree __evaluate(tree t, int depth);
+static void assign_value(tree t, tree left, tree right);
 
 enum identifier_search_scope
 {
@@ -457,7 +458,8 @@ static tree eval_fn_call(tree t, int depth)
     if (is_T_FN(function)) {
         if (tFN_STMTS(function)) {
             tree arg_decls = tFN_ARGS(function),
-                arg_vals, arg_decl, arg_val, return_val, fn_ctx;
+                arg_vals, arg_decl, arg_val, return_val, fn_ctx,
+                ret_type = tFN_RET_TYPE(function), ret_lv = NULL;
 
             /* Evaluate all arguments before pushing the function's context, as
              * they need to be evaluated in the scope of the caller: a parameter
@@ -465,6 +467,11 @@ static tree eval_fn_call(tree t, int depth)
              * argument. */
             arg_vals = eval_fn_args(tFNCALL_ARGS(t), depth);
 
+            /* The result lives in the caller's context, the storage of the
+             * function's variables goes away with its context. */
+            if (is_CTYPE(ret_type))
+                ret_lv = make_live_var(ret_type);
+
             push_fn_ctx(tID_STR(tFN_DECL(function)));
 
             fn_ctx = cur_ctx;
@@ -520,6 +527,12 @@ static tree eval_fn_call(tree t, int depth)
                 return_val = tECTX_RETVAL(cur_ctx);
             }
 
+            if (return_val && ret_lv) {
+                /* Convert to the function's return type. */
+                assign_value(t, ret_lv, return_val);
+                return_val = ret_lv;
+            }
+
             pop_ctx();
 
             return return_val;
@@ -1291,15 +1304,8 @@ static void assign_ptr(tree var, tree right)
     tLV_VAL(var)->D_T_PTR = ptr;
 }
 
-static tree eval_assign(tree t, int depth)
+static void assign_value(tree t, tree left, tree right)
 {
-    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
-    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
-
-    /* Ensure we have a valid lvalue. */
-    if (!is_T_LIVE_VAR(left))
-        eval_die(t, "Not a valid lvalue.\n");
-
     switch (TYPE(tLV_TYPE(left))) {
     case D_T_CHAR ... D_T_ULONGLONG:
         assign_integer(left, right);
@@ -1313,6 +1319,21 @@ static tree eval_assign(tree t, int depth)
     default:
         eval_die(t, "Unknown assignment rvalue type.");
     }
+}
+
+static tree eval_assign(tree t, int depth)
+{
+    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
+    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
+
+    /* Ensure we have a valid lvalue. */
+    if (!is_T_LIVE_VAR(left))
+        eval_die(t, "Not a valid lvalue.\n");
+
+    if (!right)
+        eval_die(t, "Attempted to assign from an expression without a value.\n");
+
+    assign_value(t, left, right);
 
     /* Return the value of the left operand after the assignment, thereby making
      * an assignment work as a rvalue. */
-- 
2.43.0


From 8dcb6d2b1d621bfce87bc4879f1227780c5270e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 019/102] fix: lay out compounds as the C compiler does

A compound was not padded to its alignment, so sizeof and the elements of an
array of it were off, and a nested compound or an array of compounds was
aligned by its first member or by its size.
---
 src/c.lang     |  1 +
 src/evaluate.c | 81 +++++++++++++++++++-------------------------------
 2 files changed, 31 insertions(+), 51 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 346f390..eb94275 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -175,6 +175,7 @@
 (deftype T_DECL_COMPOUND "Compound Declataion" "tCOMP_DECL"
          ("ID" "DECLS"
                ("SZ" sz)
+               ("ALIGN" sz)
                ("EXPANDED" flag)
                ("TYPE"  comp_decl_type)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index 1430ec6..12e1b15 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2241,55 +2241,35 @@ static tree expand_decl_chain(tree decl_chain)
  * live variable. */
 static size_t get_alignment_for_type(tree t, int depth)
 {
-    size_t alignment;
-
     switch (TYPE(t))
     {
     case T_LIVE_VAR:
-    {
-
+        /* For an array, the alignment requirement is that of the
+         * array's base type. */
         if (tLV_IS_ARRAY(t))
-        {
-            /* For an array, the alignment requirement is that of the
-             * array's base type. */
-            tree array_type = tDTPTR_EXP(tLV_TYPE(t));
+            return get_alignment_for_type(tDTPTR_EXP(tLV_TYPE(t)), depth);
 
-            alignment = get_size_of_type(array_type, depth);
-        }
-        else
-            alignment = get_size_of_type(tLV_TYPE(t), depth);
-        break;
-    }
+        return get_alignment_for_type(tLV_TYPE(t), depth);
     case T_LIVE_COMPOUND:
-    {
-        tree first_member = NULL;
-
-        for_each_tree(first_member, tLV_COMP_MEMBERS(t))
-            break;
-
-        if (!first_member)
-            eval_die(t, "First member not found in live compound");
-
-        first_member = tEMAP_RIGHT(first_member);
-
-        alignment = get_alignment_for_type(first_member, depth);
-    }
-    break;
+        return get_alignment_for_type(tLV_COMP_DECL(t), depth);
+    case T_DECL_COMPOUND:
+        return tCOMP_DECL_ALIGN(t);
     case D_T_CHAR...D_T_PTR:
-        alignment = get_size_of_type(t, depth);
-        break;
+        return get_size_of_type(t, depth);
     default:
         eval_die(t, "Could not calculate offset for member");
     }
+}
 
-    return alignment;
+static size_t round_up(size_t sz, size_t alignment)
+{
+    return (sz + alignment - 1) & ~(alignment - 1);
 }
 
 static tree eval_decl_compound(tree t, int depth)
 {
     tree i, struct_id = tCOMP_DECL_ID(t);
-    int offset = 0;
-    size_t max_member_sz = 0;
+    size_t offset = 0, max_member_sz = 0, max_alignment = 1;
 
     /* We can arrive here if something like the following code is evaluated:
      *
@@ -2333,7 +2313,7 @@ static tree eval_decl_compound(tree t, int depth)
      * size of the compound. */
     for_each_tree(i, tCOMP_DECL_DECLS(t)) {
         tree id, live_var, decl = i;
-        size_t member_size, member_alignment, padding_size;
+        size_t member_size, member_alignment;
 
         /* To calculate the size of each element of the compound, we
          * temporarily push the evaluation ctx, evaluate each decl
@@ -2353,26 +2333,23 @@ static tree eval_decl_compound(tree t, int depth)
 
         /* Calculate the offset of the member within the struct.
          *
-         * The algorithm we use to calculate the offset of a given
-         * member is as follows: If the current alignment is 0, use
-         * that.  Otherwise, a given member's offset must be a
-         * multiple of it's alignment requirement from the current
-         * offset.
+         * A given member's offset must be a multiple of it's
+         * alignment requirement.  The alignment requirement of the
+         * compound is the strictest one of its members, and its size
+         * must be a multiple of that so the elements of an array of
+         * it are aligned.
          */
         member_size = get_size_of_type(live_var, depth);
         member_alignment = get_alignment_for_type(live_var, depth);
 
-        if (offset == 0)
-            padding_size = 0;
-        else
-            padding_size = (~offset + 1) & (member_alignment - 1);
-
-        tDECL_OFFSET(decl) = offset + padding_size;
+        if (member_alignment > max_alignment)
+            max_alignment = member_alignment;
 
-        if (tCOMP_DECL_TYPE(t) == sstruct)
-            offset += padding_size + member_size;
-        else {
-            offset = 0;
+        if (tCOMP_DECL_TYPE(t) == sstruct) {
+            tDECL_OFFSET(decl) = round_up(offset, member_alignment);
+            offset = tDECL_OFFSET(decl) + member_size;
+        } else {
+            tDECL_OFFSET(decl) = 0;
             if (member_size > max_member_sz)
                 max_member_sz = member_size;
         }
@@ -2381,9 +2358,11 @@ static tree eval_decl_compound(tree t, int depth)
     }
 
     if (tCOMP_DECL_TYPE(t) == sstruct)
-        tCOMP_DECL_SZ(t) = offset;
+        tCOMP_DECL_SZ(t) = round_up(offset, max_alignment);
     else
-        tCOMP_DECL_SZ(t) = max_member_sz;
+        tCOMP_DECL_SZ(t) = round_up(max_member_sz, max_alignment);
+
+    tCOMP_DECL_ALIGN(t) = max_alignment;
 
     tCOMP_DECL_EXPANDED(t) = 1;
 
-- 
2.43.0


From 1e3d4f5ef34dd30fe01a0c43ff109e17ea6efff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 020/102] fix: scale pointer arithmetic by the size of the
 pointed-to type

p + 1, p++ and p += 1 moved a pointer by one byte whatever it pointed to, and
the difference of two pointers was in bytes. The result of p + n and p++ is a
pointer now, so it can be dereferenced.
---
 src/evaluate.c | 99 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 89 insertions(+), 10 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 12e1b15..119d992 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1340,9 +1340,55 @@ static tree eval_assign(tree t, int depth)
     return left;
 }
 
+static bool is_ptr_live_var(tree t)
+{
+    return is_T_LIVE_VAR(t) && is_D_T_PTR(tLV_TYPE(t));
+}
+
+/* The number of bytes that a pointer moves when 1 is added to it. */
+static size_t get_ptr_step(tree ptr)
+{
+    tree type = tDTPTR_EXP(tLV_TYPE(ptr));
+
+    /* As GCC does. */
+    if (is_D_T_VOID(type) || is_T_FN(type))
+        return 1;
+
+    return get_size_of_type(type, 0);
+}
+
+/* Make a new pointer that points no_elms elements past PTR. */
+static tree make_offset_ptr(tree ptr, tree no_elms)
+{
+    tree ret = make_live_var(tLV_TYPE(ptr));
+
+    tLV_VAL(ret)->D_T_PTR = tLV_VAL(ptr)->D_T_PTR +
+        get_ptr_step(ptr) * get_wrapped_int(no_elms);
+
+    return ret;
+}
+
+/* Make a value of VAR that doesn't change when VAR does. */
+static tree make_rvalue(tree var)
+{
+    tree ret;
+
+    if (!is_ptr_live_var(var))
+        return make_int_from_live_var(var);
+
+    ret = make_live_var(tLV_TYPE(var));
+    tLV_VAL(ret)->D_T_PTR = tLV_VAL(var)->D_T_PTR;
+
+    return ret;
+}
+
 static void live_var_add(tree var, unsigned long int val)
 {
     tree type = tLV_TYPE(var);
+
+    if (is_D_T_PTR(type))
+        val *= get_ptr_step(var);
+
     switch (TYPE(type)) {
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)        \
         case TNAME:                                     \
@@ -1358,6 +1404,10 @@ static void live_var_add(tree var, unsigned long int val)
 static void live_var_sub(tree var, unsigned long int val)
 {
     tree type = tLV_TYPE(var);
+
+    if (is_D_T_PTR(type))
+        val *= get_ptr_step(var);
+
     switch (TYPE(type)) {
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)        \
         case TNAME:                                     \
@@ -1377,7 +1427,7 @@ static tree eval_post_inc(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    ret = make_int_from_live_var(exp);
+    ret = make_rvalue(exp);
 
     live_var_add(exp, 1);
 
@@ -1393,7 +1443,7 @@ static tree eval_inc(tree t, int depth)
 
     live_var_add(exp, 1);
 
-    ret = make_int_from_live_var(exp);
+    ret = make_rvalue(exp);
 
     return ret;
 }
@@ -1405,7 +1455,7 @@ static tree eval_post_dec(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    ret = make_int_from_live_var(exp);
+    ret = make_rvalue(exp);
     live_var_sub(exp, 1);
     return ret;
 }
@@ -1418,7 +1468,7 @@ static tree eval_dec(tree t, int depth)
         eval_die(t, "Not a valid lvalue.\n");
 
     live_var_sub(exp, 1);
-    ret = make_int_from_live_var(exp);
+    ret = make_rvalue(exp);
     return ret;
 }
 
@@ -1459,20 +1509,27 @@ static tree eval_add(tree t, int depth)
 {
     tree left = __evaluate_1(tADD_LHS(t), depth + 1);
     tree right = __evaluate_1(tADD_RHS(t), depth + 1);
-
-    tree ret = tree_make(T_INTEGER);
-    mpz_init(tINT_VAL(ret));
+    tree ret;
 
     /* Resolve all identifiers. */
-    if (is_T_LIVE_VAR(left))
+    if (is_T_LIVE_VAR(left) && !is_ptr_live_var(left))
         left = make_int_from_live_var(left);
 
-    if (is_T_LIVE_VAR(right))
+    if (is_T_LIVE_VAR(right) && !is_ptr_live_var(right))
         right = make_int_from_live_var(right);
 
+    if (is_ptr_live_var(left) && is_T_INTEGER(right))
+        return make_offset_ptr(left, right);
+
+    if (is_T_INTEGER(left) && is_ptr_live_var(right))
+        return make_offset_ptr(right, left);
+
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not add to non integer type\n");
 
+    ret = tree_make(T_INTEGER);
+    mpz_init(tINT_VAL(ret));
+
     mpz_add(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
@@ -1482,8 +1539,30 @@ static tree eval_sub(tree t, int depth)
 {
     tree left = __evaluate_1(tSUB_LHS(t), depth + 1);
     tree right = __evaluate_1(tSUB_RHS(t), depth + 1);
+    tree ret;
 
-    tree ret = tree_make(T_INTEGER);
+    if (is_ptr_live_var(left)) {
+        ret = tree_make(T_INTEGER);
+
+        if (is_ptr_live_var(right)) {
+            ptrdiff_t diff = (ptrdiff_t)tLV_VAL(left)->D_T_PTR -
+                (ptrdiff_t)tLV_VAL(right)->D_T_PTR;
+
+            mpz_init_set_si(tINT_VAL(ret), diff / (ptrdiff_t)get_ptr_step(left));
+            return ret;
+        }
+
+        if (is_T_LIVE_VAR(right))
+            right = make_int_from_live_var(right);
+
+        if (is_T_INTEGER(right)) {
+            mpz_init(tINT_VAL(ret));
+            mpz_neg(tINT_VAL(ret), tINT_VAL(right));
+            return make_offset_ptr(left, ret);
+        }
+    }
+
+    ret = tree_make(T_INTEGER);
     mpz_init(tINT_VAL(ret));
 
     if (is_T_LIVE_VAR(left))
-- 
2.43.0


From 6c9df8df7dbd662d4d03c9b21fa54e38d7fb6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 021/102] fix: evaluate the left operand of a compound
 assignment once

Its side effects happened twice, 'a[i++] += 5' added to one element what it
read from another.
---
 src/evaluate.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 119d992..d2dd43e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1321,10 +1321,44 @@ static void assign_value(tree t, tree left, tree right)
     }
 }
 
+/* Get the expression to assign in T, the left operand of which evaluated to LEFT.
+ *
+ * The left operand of a compound assignment, i.e. `+=', is both the left operand
+ * of the assignment and of the binary operator (see `tree_make_binmod').  As it
+ * may have side effects, ensure it isn't evaluated again. */
+static tree get_assign_rhs(tree t, tree left)
+{
+    tree lhs = tASSIGN_LHS(t), rhs = tASSIGN_RHS(t), mod;
+
+    if (!rhs)
+        return NULL;
+
+    switch (TYPE(rhs)) {
+#define BINMOD(type, prefix)                    \
+    case type:                                  \
+        if (prefix##_LHS(rhs) != lhs)           \
+            return rhs;                         \
+        mod = tree_make(type);                  \
+        tLOCUS(mod) = tLOCUS(t);                \
+        prefix##_LHS(mod) = left;               \
+        prefix##_RHS(mod) = prefix##_RHS(rhs);  \
+        return mod;
+        BINMOD(T_ADD, tADD);
+        BINMOD(T_SUB, tSUB);
+        BINMOD(T_DIV, tDIV);
+        BINMOD(T_LSHIFT, tLSHIFT);
+        BINMOD(T_RSHIFT, tRSHIFT);
+        BINMOD(T_X_OR, tX_OR);
+#undef BINMOD
+    default:
+        return rhs;
+    }
+}
+
 static tree eval_assign(tree t, int depth)
 {
     tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
-    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
+    tree right = __evaluate_1(get_assign_rhs(t, left), depth + 1);
 
     /* Ensure we have a valid lvalue. */
     if (!is_T_LIVE_VAR(left))
-- 
2.43.0


From f937601b0958943d214629b0a4342533cd6cc6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 022/102] fix: hand the result of a function called through a
 pointer to its caller

closure_entry dropped it, so a qsort comparator returned garbage. The call
also renamed the file in later diagnostics to <PTRCALL>.
---
 src/function-call.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/function-call.c b/src/function-call.c
index 5e9df69..06de81c 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -129,7 +129,8 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
     tree arg,
         args = tCLOSURE_ARG_TYPES(closure),
         arg_chain = tree_make(CHAIN_HEAD),
-        fn_call = tree_make(T_FN_CALL);
+        fn_call = tree_make(T_FN_CALL),
+        result;
     int n = 0;
 
     for_each_tree(arg, args) {
@@ -154,7 +155,36 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
     tFNCALL_ID(fn_call) = tCLOSURE_FN(closure);
     tFNCALL_ARGS(fn_call) = arg_chain;
 
-    evaluate(fn_call, "<PTRCALL>");
+    result = evaluate_expr(fn_call);
+
+    if (!result || !is_T_LIVE_VAR(result))
+        return;
+
+    /* The function call has converted the result to the return type.  libffi
+     * wants an integer type that is smaller than a register to be widened. */
+    switch (TYPE(tLV_TYPE(result))) {
+#define SETRET(TNAME, CTYPE)                        \
+        case TNAME:                                 \
+            *(CTYPE *)ret = tLV_VAL(result)->TNAME; \
+            break;
+        SETRET(D_T_CHAR, ffi_sarg);
+        SETRET(D_T_SHORT, ffi_sarg);
+        SETRET(D_T_INT, ffi_sarg);
+        SETRET(D_T_LONG, ffi_sarg);
+        SETRET(D_T_LONGLONG, ffi_sarg);
+        SETRET(D_T_UCHAR, ffi_arg);
+        SETRET(D_T_USHORT, ffi_arg);
+        SETRET(D_T_UINT, ffi_arg);
+        SETRET(D_T_ULONG, ffi_arg);
+        SETRET(D_T_ULONGLONG, ffi_arg);
+        SETRET(D_T_FLOAT, float);
+        SETRET(D_T_DOUBLE, double);
+        SETRET(D_T_LONGDOUBLE, long double);
+        SETRET(D_T_PTR, void *);
+#undef SETRET
+    default:
+        eval_die(tCLOSURE_FN(closure), "Unknown return type in closure entry");
+    }
 }
 
 void *get_entry_point_for_fn(tree fndef)
-- 
2.43.0


From dbb74b92497ba8cdba7903b1506d41f1b9d5a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 023/102] fix: accept the definition of a function that returns
 a pointer

---
 src/parser.m4 | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index f9f70fb..c0f3b77 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -59,6 +59,16 @@ static void maybe_add_typenames(tree decl)
 }
 
 CSCRIPT_ONLY
+    /* Get the function that's declared by the declarator of a definition, which
+     * is a pointer if the function returns one. */
+    static tree get_fn(tree declarator)
+    {
+        while (is_T_POINTER(declarator))
+            declarator = tPTR_EXP(declarator);
+
+        return declarator;
+    }
+
     /* The statements of a block are the members of a chain. As the head of that
      * chain can't be a member of another one, wrap a block that is itself one of
      * a chain of statements. */
@@ -1598,7 +1608,7 @@ CSCRIPT_ONLY
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        tFN_STMTS($2) = $4;
+        tFN_STMTS(get_fn($2)) = $4;
         set_locus(decl, @2);
         $$ = decl;
     }
@@ -1607,7 +1617,7 @@ CSCRIPT_ONLY
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        tFN_STMTS($2) = $3;
+        tFN_STMTS(get_fn($2)) = $3;
         set_locus(decl, @2);
         $$ = decl;
     }
-- 
2.43.0


From b5dd2e124d17b8ec9741d231d097910fd3226262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 024/102] fix: do not alter an initialised declaration when
 evaluating it

---
 src/evaluate.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index d2dd43e..b4a7ee0 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -838,10 +838,14 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         tree ret = handle_declarator(tASSIGN_LHS(decl), decl_type, depth);
 
         /* handle_declarator will have stripped off any pointers from the decl name.
-         * Therefore ret now becomes the LHS of the assignment. */
-        tASSIGN_LHS(decl) = ret;
-
-        __evaluate_1(decl, depth + 1);
+         * Therefore ret becomes the LHS of the assignment. Don't alter the
+         * declaration itself, it may be evaluated again. */
+        tree assign = tree_make(T_ASSIGN);
+        tLOCUS(assign) = tLOCUS(decl);
+        tASSIGN_LHS(assign) = ret;
+        tASSIGN_RHS(assign) = tASSIGN_RHS(decl);
+
+        __evaluate_1(assign, depth + 1);
         return ret;
     }
     default:
-- 
2.43.0


From 0293dfea082807427c616249eb3234363c270fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 025/102] fix: initialise objects without an initialiser to
 zero

---
 src/evaluate.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index b4a7ee0..e1d15b9 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -315,7 +315,8 @@ tree make_live_var(tree type)
     tree live_var = tree_make(T_LIVE_VAR);
 
     tLV_TYPE(live_var) = type;
-    tLV_VAL(live_var) = malloc(sizeof(*tLV_VAL(live_var)));
+    /* Objects with static storage duration are initialised to zero. */
+    tLV_VAL(live_var) = calloc(1, sizeof(*tLV_VAL(live_var)));
 
     /* We can not allow the GC to just free the LV_VAL memory as this
      * may not point to memory that has been allocated, for example in
@@ -750,7 +751,7 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base)
 
 static tree alloc_struct(tree struct_decl, int depth)
 {
-    void *base = malloc(tCOMP_DECL_SZ(struct_decl));
+    void *base = calloc(1, tCOMP_DECL_SZ(struct_decl));
 
     track_alloc(base);
 
@@ -760,7 +761,7 @@ static tree alloc_struct(tree struct_decl, int depth)
 static tree alloc_array(tree array_decl, tree base_type, int depth)
 {
     size_t array_sz = get_array_size(array_decl, base_type, depth);
-    void *array_mem = malloc(array_sz);
+    void *array_mem = calloc(1, array_sz);
     tree live_var = instantiate_array(array_decl, base_type, array_mem,
                                       array_sz);
 
-- 
2.43.0


From abb98797f655599e0957060a5e6c8b2ba08c10df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 026/102] fix: keep string literals for as long as the program
 runs

---
 src/evaluate.c | 3 ++-
 src/gc.c       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index e1d15b9..af75a81 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1294,7 +1294,8 @@ static void assign_ptr(tree var, tree right)
     switch (TYPE(right))
     {
     case T_STRING:
-        ptr = track_alloc(strdup(tSTRING_VAL(right)));
+        /* A string literal exists for as long as the program runs. */
+        ptr = tSTRING_VAL(right);
         break;
     case T_LIVE_VAR:
         ptr = (void *)tLV_VAL(right)->D_T_PTR;
diff --git a/src/gc.c b/src/gc.c
index 3498258..74a9abc 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -96,7 +96,8 @@ static void dealloc_object(gc_obj obj)
         free(tID_STR(t));
         break;
     case T_STRING:
-        free(tSTRING_VAL(t));
+        /* The evaluated program may still have a pointer to the characters,
+         * which outlive the tree that represents the literal. */
         break;
     case E_ALLOC:
         free(tALLOC_PTR(t));
-- 
2.43.0


From 9f7542355502dbdc00dd97d06276031ce1ebac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 027/102] fix: pass the arguments of an external call as the
 types of its parameters

---
 src/evaluate.c      | 67 ++++++++++++++++++++++++++++++++++++++++++++-
 src/evaluate.h      |  2 ++
 src/function-call.c |  7 +++--
 3 files changed, 72 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index af75a81..769720f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -364,7 +364,7 @@ static tree make_int_from_live_var(tree var)
 }
 
 /* The value of an integer, wrapped to the widest integer type. */
-static unsigned long get_wrapped_int(tree integer)
+unsigned long get_wrapped_int(tree integer)
 {
     /* Note that mpz_get_ui takes no notice of the sign. */
     unsigned long val = mpz_get_ui(tINT_VAL(integer));
@@ -422,12 +422,75 @@ static tree eval_fn_args(tree args, int depth)
     for_each_tree(arg, args) {
         tree fn_arg = tree_make(T_FN_ARG);
         tFNARG_EXP(fn_arg) = __evaluate_1(arg, depth + 1);
+
+        if (!tFNARG_EXP(fn_arg))
+            eval_die(arg, "Attempted to pass an expression without a value.\n");
+
         tree_chain(fn_arg, ret);
     }
 
     return ret;
 }
 
+/* Get the type of a function's parameter or NULL if it isn't an object type. */
+tree get_param_type(tree param)
+{
+    tree type = resolve_decl_specs_to_type(tDECL_SPECS(param)),
+        decl = tDECL_DECLS(param);
+
+    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type) ||
+        is_T_ENUMERATOR(type))
+        type = __evaluate_1(type, 0);
+
+    resolve_ptr_type(&decl, &type);
+
+    /* Parameters that are declared as an array or a function are pointers. */
+    if (is_T_ARRAY(decl) || is_T_FN(decl) || is_T_FN(type)) {
+        tree ptr = tree_make(D_T_PTR);
+        tDTPTR_EXP(ptr) = type;
+        type = ptr;
+    }
+
+    if (is_T_ARRAY_TYPE(type)) {
+        tree ptr = tree_make(D_T_PTR);
+        tDTPTR_EXP(ptr) = tARRAY_TYPE_BASE_TYPE(type);
+        type = ptr;
+    }
+
+    return is_CTYPE(type) ? type : NULL;
+}
+
+/* Convert the evaluated arguments of a call to a function with PARAMS to the
+ * types of the corresponding parameters. */
+static void convert_fn_args(tree t, tree args, tree params)
+{
+    tree param, arg;
+
+    if (!args || !params)
+        return;
+
+    arg = args;
+
+    for_each_tree(param, params) {
+        tree param_type, converted;
+
+        arg = list_entry(arg->chain.next, typeof(*arg), chain);
+
+        /* The default argument promotions apply to variadic arguments. */
+        if (arg == args || !is_T_DECL(param))
+            break;
+
+        param_type = get_param_type(param);
+
+        if (!param_type || !tFNARG_EXP(arg) || is_T_LIVE_COMPOUND(tFNARG_EXP(arg)))
+            continue;
+
+        converted = make_live_var(param_type);
+        assign_value(t, converted, tFNARG_EXP(arg));
+        tFNARG_EXP(arg) = converted;
+    }
+}
+
 static tree eval_fn_call(tree t, int depth)
 {
     /* There are five possibilities here:
@@ -562,6 +625,7 @@ static tree eval_fn_call(tree t, int depth)
             /* Evaluate all arguments before passing into the marshalling
              * function. */
             fn_arg_chain = eval_fn_args(args, depth);
+            convert_fn_args(t, fn_arg_chain, tFN_ARGS(function));
 
             if (!is_D_T_VOID(tFN_RET_TYPE(function)))
                 ret_lv = make_live_var(tFN_RET_TYPE(function));
@@ -604,6 +668,7 @@ static tree eval_fn_call(tree t, int depth)
         /* Evaluate all arguments before passing into the marshalling
          * function. */
         fn_arg_chain = eval_fn_args(args, depth);
+        convert_fn_args(t, fn_arg_chain, tFN_ARGS(function_type));
 
         do_ext_call(tLV_VAL(function)->D_T_PTR, fn_arg_chain, ret_lv,
                     is_variadic ? &variadic_pos : NULL);
diff --git a/src/evaluate.h b/src/evaluate.h
index 2be051a..3efa6c1 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -17,6 +17,8 @@ const tree get_include_chain(void);
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...);
 tree find_global_identifiers(const char *prefix);
 tree make_live_var(tree type);
+tree get_param_type(tree param);
+unsigned long get_wrapped_int(tree integer);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
 tree evaluate_expr(tree t);
diff --git a/src/function-call.c b/src/function-call.c
index 06de81c..5e61b11 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -89,9 +89,10 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
                 break;
             case T_INTEGER:
                 {
-                    int *buf = alloca(sizeof(int));
-                    *buf = mpz_get_si(tINT_VAL(arg));
-                    push_arg(types, vals, &n, &ffi_type_sint, buf, should_promote);
+                    /* The value may be wider than an int. */
+                    long *buf = alloca(sizeof(*buf));
+                    *buf = get_wrapped_int(arg);
+                    push_arg(types, vals, &n, &ffi_type_slong, buf, should_promote);
                     break;
                 }
             case T_FLOAT:
-- 
2.43.0


From a27224f9601dc2bc82b636d5b2c0d850bc93c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 028/102] fix: report the use of an absent member and of an
 expression without a value

---
 src/evaluate.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 769720f..f9c5a94 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -377,6 +377,10 @@ static tree convert_to_comparable_type(tree t, int depth)
     tree evaluated = __evaluate_1(t, depth + 1),
         ret;
 
+    if (!evaluated)
+        eval_die(t, "Could not convert an expression without a value to "
+                 "comparable type\n");
+
     switch (TYPE(evaluated)) {
     case T_INTEGER:
         ret = evaluated;
@@ -2605,7 +2609,7 @@ static tree eval_enumerator(tree t, int depth)
 static tree eval_comp_access(tree t, int depth)
 {
     tree left = __evaluate_1(tCOMP_ACCESS_OBJ(t), depth + 1),
-        id = tCOMP_ACCESS_MEMBER(t);
+        id = tCOMP_ACCESS_MEMBER(t), member;
 
     if (!is_T_LIVE_COMPOUND(left))
         eval_die(t, "Unknown compound type in compound access\n");
@@ -2613,7 +2617,12 @@ static tree eval_comp_access(tree t, int depth)
     if (!is_T_IDENTIFIER(id))
         eval_die(t, "Unknown accessor in compound access\n");
 
-    return __resolve_id(id, tLV_COMP_MEMBERS(left));
+    member = __resolve_id(id, tLV_COMP_MEMBERS(left));
+
+    if (!member)
+        eval_die(t, "Compound has no member %s.\n", tID_STR(id));
+
+    return member;
 }
 
 static tree eval_repl(tree t, int depth)
-- 
2.43.0


From 3ae6e226437cfb350ea059438cee9283da2c7b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 029/102] fix: round floating point literals to the nearest
 double

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 612f535..2b72e15 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -197,7 +197,7 @@ ALL_TARGETS
 
 0[0-7]+                         mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 8); return INTEGER;
 [0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
-[0-9]+\.[0-9]+                  mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
+[0-9]+\.[0-9]+                  mpf_init_set_d(LEXLVAL.ffloat, strtod(LEXTEXT, NULL)); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
-- 
2.43.0


From 5294d9255579c375646ab6f04ab4745f55f80985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 030/102] fix: do not crash on an operand without a value

---
 src/evaluate.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index f9c5a94..40464da 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1585,9 +1585,8 @@ static tree eval_negate(tree t, int depth)
 {
     tree ret = tree_make(T_INTEGER);
     tree intval;
-    tree exp = __evaluate_1(tNEGATE_EXP(t), depth + 1);
 
-    intval = convert_to_comparable_type(exp, depth);
+    intval = convert_to_comparable_type(tNEGATE_EXP(t), depth);
 
     if (!mpz_cmp_ui(tINT_VAL(intval), 0))
         mpz_init_set_ui(tINT_VAL(ret), 1);
@@ -2300,10 +2299,8 @@ static tree eval_loop_while(tree t, int depth)
 {
     do {
 
-        tree result, cond_result = __evaluate_1(tWLOOP_COND(t),
-                                                depth + 1);
-
-        cond_result = convert_to_comparable_type(cond_result, depth);
+        tree result, cond_result = convert_to_comparable_type(tWLOOP_COND(t),
+                                                              depth);
 
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
@@ -2650,7 +2647,7 @@ static tree eval_array_access(tree t, int depth)
         index = make_int_from_live_var(index);
 
     if (!is_T_INTEGER(index))
-        eval_die(index, "Unknown index type\n");
+        eval_die(t, "Unknown index type\n");
 
     idx = get_wrapped_int(index);
 
-- 
2.43.0


From 6b8fbb4eff7348abf79507c8c1ae2ffd57d7fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 031/102] fix: report an error at the expression that was being
 evaluated

---
 src/evaluate.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 40464da..be34a84 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -45,6 +45,10 @@ const tree get_include_chain(void)
 
 static const char *current_filename;
 
+/* The innermost expression that's being evaluated and that has a locus. */
+static tree cur_expr = NULL;
+GC_STATIC_TREE(cur_expr);
+
 static tree __evaluate_1(tree t, int depth);
 static tree __evaluate(tree t, int depth);
 static void assign_value(tree t, tree left, tree right);
@@ -126,15 +130,36 @@ static void ctx_backtrace(void)
     }
 }
 
+/* Does T have a locus that is the place where it is evaluated? */
+static bool is_expr(tree t)
+{
+    return t && tLOCUS(t).line_no && !is_LIVE(t) && !is_T_FN(t) &&
+        !is_T_EXT_FUNC(t);
+}
+
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...)
 {
-    fprintf(stderr, "%s:%zu:%zu: error: ", current_filename, t->locus.line_no,
-            t->locus.column_no);
+    struct tree_locus locus = {};
+    size_t format_len = strlen(format);
+
+    /* The locus of a value is that of its declaration, if it has one at all. */
+    if (!is_expr(t))
+        t = cur_expr;
+
+    if (t)
+        locus = tLOCUS(t);
+
+    fprintf(stderr, "%s:%zu:%zu: error: ",
+            locus.file ? tID_STR(locus.file) : current_filename,
+            locus.line_no, locus.column_no);
     va_list args;
     va_start(args, format);
     vfprintf(stderr, format, args);
     va_end(args);
 
+    if (format_len && format[format_len - 1] != '\n')
+        fputc('\n', stderr);
+
     ctx_backtrace();
 
     exit(EXIT_FAILURE);
@@ -2921,10 +2946,14 @@ static tree eval_self(tree t, int depth)
 static tree __evaluate_1(tree t, int depth)
 {
     tree result = NULL;
+    tree prev_expr = cur_expr;
 
     if (!t)
         return result;
 
+    if (is_expr(t))
+        cur_expr = t;
+
     switch (TYPE(t))
     {
     case T_IDENTIFIER: result = eval_identifier(t, depth + 1); break;
@@ -2996,6 +3025,8 @@ static tree __evaluate_1(tree t, int depth)
     default:           result = NULL;                          break;
     }
 
+    cur_expr = prev_expr;
+
     return result;
 }
 
-- 
2.43.0


From 891cc695b5d08cafaa3b4acdf4a4c6014b9f4178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 032/102] fix: keep the file name of a line marker, whatever
 characters it has

---
 src/lex.m4 | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 2b72e15..fa148f6 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -30,32 +30,31 @@ CSCRIPT_ONLY
 
     static void handle_line_marker(char *s)
     {
-        /* Lex the '#' */
-        s = strtok(s, " ");
+        static char *file_name = NULL;
+        char *end;
 
-        if (!s)
-            return;
-
-        /* Now the line number. */
-        s = strtok(NULL, " ");
-
-        if (!s)
-            return;
-
-        linenum = atoi(s) - 1;
+        /* Skip the '#' and lex the line number. */
+        linenum = strtol(s + 1, &s, 10) - 1;
 
         /* Now the file name.
          *
          * Note that the filename is sourrounded by quotes. Remove that here.*/
-        s = strtok(NULL, " ");
+        s = strchr(s, '"');
 
         if (!s)
             return;
 
         s += 1;
-        s[strlen(s) - 1] = 0;
+        end = strrchr(s, '"');
+
+        if (!end)
+            return;
+
+        /* The lexer's buffer, which S is part of, doesn't last. */
+        free(file_name);
+        file_name = strndup(s, end - s);
 
-        TARGET()_parser_set_file(s);
+        TARGET()_parser_set_file(file_name);
     }
 ALL_TARGETS
 
@@ -187,7 +186,7 @@ REPL_ONLY
 "`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
-"`#'"[ \t]*[0-9]+[ \t]*\"({L}|{D}|\-|\.|\/|<|>|\ )+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
+"`#'"[ \t]*[0-9]+[ \t]*\"[^"\n]*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
-- 
2.43.0


From bf87621299c2fcdab63b8010844ae9145c3f11ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 033/102] fix: limit octal escapes to three digits

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index fa148f6..98f92ce 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -203,7 +203,7 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
 <str_lit>\\n                    { sl_append_char('\n'); }
 <str_lit>\\t                    { sl_append_char('\t'); }
-<str_lit>\\[0-7]*               { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
+<str_lit>\\[0-7]{1,3}             { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
 <str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
-- 
2.43.0


From f84dd1662e41644d445dcb0be968464230923d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 034/102] fix: report characters that aren't part of C as a
 syntax error

---
 src/lex.m4 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 98f92ce..17cc95f 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -209,7 +209,7 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
 <str_lit>\n                     { lex_err("newline in string\n"); }
 
-<INITIAL,compound_start_cond>[ \t\r]                         /* skip whitespace */
+<INITIAL,compound_start_cond>[ \t\r\f\v]                         /* skip whitespace */
 <INITIAL,compound_start_cond>"\n"                            {linenum++; colnum = 1;}
 
 "..."                           return ELLIPSIS;
@@ -256,4 +256,7 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 
 "&&"                            return BOOL_OP_AND;
 "||"                            return BOOL_OP_OR;
+
+<<EOF>>                         { BEGIN 0; yyterminate(); }
+<*>.                            { BEGIN 0; return 1; /* Not C. */ }
 %%
-- 
2.43.0


From 1d8fbbdf853c80f2974f396b0808220a5e4ae69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 035/102] fix: report a call of something that is not a
 function

---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index be34a84..7c35c86 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -710,7 +710,7 @@ static tree eval_fn_call(tree t, int depth)
         return handler(tFNCALL_ARGS(t));
     }
 
-    return NULL;
+    eval_die(t, "Attempted to call something that isn't a function\n");
 }
 
 static void make_and_map_live_var(tree id, tree type)
-- 
2.43.0


From 57117587f8d04c910211a3712fa579e37d4a5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 036/102] fix: report an array with a negative size

---
 src/evaluate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7c35c86..7f722ac 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -740,6 +740,9 @@ static size_t get_array_size(tree array_decl, tree base_type, int depth)
     if (!is_T_INTEGER(no_elements))
         eval_die(array_decl, "Attempted to create array with non-constant size\n");
 
+    if (mpz_sgn(tINT_VAL(no_elements)) < 0)
+        eval_die(array_decl, "Attempted to create array with negative size\n");
+
     no_elms = mpz_get_ui(tINT_VAL(no_elements));
 
     return sz_of_each_element * no_elms;
-- 
2.43.0


From 2fb9c9a5978d93c6d3a4df698e37b01fc7833d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 037/102] fix: keep the entry point of a function alive and
 unique

---
 src/c.lang          |  3 ++-
 src/function-call.c | 24 +++++++++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index eb94275..0d3dd92 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -192,7 +192,8 @@
          ("ARG_TYPES" "RET_TYPE" "FN"
           ("CIF" ffi_cif)
           ("TYPES" ffi_types)
-          ("CLOSURE" ffi_closure)))
+          ("CLOSURE" ffi_closure)
+          ("ENTRY" ptr)))
 
 (deftype T_FN_ARG "Function Argument" "tFNARG"
          ("EXP"))
diff --git a/src/function-call.c b/src/function-call.c
index 5e61b11..f1bf4b5 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -12,6 +12,11 @@
 
 #define ARG_STACK_SZ 32
 
+/* All closures.  Only the evaluated program, or a library it calls, knows
+ * whether a pointer to the entry point of one still exists. */
+static tree closures = NULL;
+GC_STATIC_TREE(closures);
+
 static void push_arg(ffi_type **type_stack,
                      void **val_stack,
                      int *n,
@@ -191,10 +196,16 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
 void *get_entry_point_for_fn(tree fndef)
 {
     void *ret;
-    tree arg, args = tFN_ARGS(fndef),
+    tree closure, arg, arg_chain, args = tFN_ARGS(fndef),
         ret_type = tFN_RET_TYPE(fndef);
-    tree arg_chain = tree_make(CHAIN_HEAD),
-        closure = tree_make(T_CLOSURE);
+
+    for_each_tree(closure, closures)
+        if (tCLOSURE_FN(closure) == fndef)
+            return tCLOSURE_ENTRY(closure);
+
+    arg_chain = tree_make(CHAIN_HEAD);
+    closure = tree_make(T_CLOSURE);
+
     ffi_type *ffi_ret_type = &ffi_type_void;
     tCLOSURE_CIF(closure) = malloc(sizeof(*tCLOSURE_CIF(closure)));
     tCLOSURE_TYPES(closure) = calloc(sizeof(*tCLOSURE_TYPES(closure)), ARG_STACK_SZ);
@@ -242,5 +253,12 @@ void *get_entry_point_for_fn(tree fndef)
                          (void *)closure,
                          ret);
 
+    tCLOSURE_ENTRY(closure) = ret;
+
+    if (!closures)
+        closures = tree_make(CHAIN_HEAD);
+
+    tree_chain(closure, closures);
+
     return ret;
 }
-- 
2.43.0


From 4c93374479dae7fdf3933b076c527335b748a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 038/102] fix: resolve the parameter types of a function that
 is called through a pointer

---
 src/function-call.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/function-call.c b/src/function-call.c
index f1bf4b5..b409231 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -8,7 +8,6 @@
 #include "function-call.h"
 #include "evaluate.h"
 #include "gc.h"
-#include "spec-resolver.h"
 
 #define ARG_STACK_SZ 32
 
@@ -214,22 +213,17 @@ void *get_entry_point_for_fn(tree fndef)
 
     for_each_tree(arg, args) {
         tree arg_type;
-        tree declarator;
 
         if (!is_T_DECL(arg))
             eval_die(arg, "Unknown type arg chain, expecting decl");
 
-        arg_type = resolve_decl_specs_to_type(tDECL_SPECS(arg));
-        declarator = tDECL_DECLS(arg);
+        arg_type = get_param_type(arg);
 
-        if (is_T_POINTER(tDECL_DECLS(arg)))
-            resolve_ptr_type(&declarator, &arg_type);
-
-        if (!is_T_IDENTIFIER(declarator))
-            eval_die(arg, "Unknown declarator type in closure allocation");
+        if (!arg_type)
+            eval_die(arg, "Unknown parameter type in closure allocation");
 
         tCLOSURE_TYPES(closure)[n++] = get_ffi_type(TYPE(arg_type));
-        tree_chain(arg_type, arg_chain);
+        tree_chain(alloc_copy_tree(arg_type), arg_chain);
 
         if (n >= ARG_STACK_SZ)
             eval_die(fndef, "Argument stack size exceeded");
-- 
2.43.0


From 357cc73677818c7839ab798c4d4f67a483fc34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 039/102] fix: call the function that a dereferenced function
 pointer designates

---
 src/evaluate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7f722ac..1d538e3 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2847,6 +2847,10 @@ static tree eval_deref(tree t, int depth)
 
     new_type = tDTPTR_EXP(tLV_TYPE(exp));
 
+    /* A function designator is converted to a pointer to the function. */
+    if (is_T_FN(new_type))
+        return exp;
+
     if (is_T_DECL_COMPOUND(new_type))
         return instantiate_struct(new_type, depth,
                                   tLV_VAL(exp)->D_T_PTR);
-- 
2.43.0


From ac4e4aafd44e4c5af9a237d570ede943d7dc1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 040/102] fix: accept the definition of a function that has
 been declared

---
 src/evaluate.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1d538e3..8f4ea5d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -915,13 +915,17 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
             return handle_declarator(id, fn, depth);
         }
 
-        /* Allow a declaration (not a definition!) of a funcion to be repeated. */
-        if (!tFN_STMTS(fn)) {
-            previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
+        /* Allow a declaration of a function to be repeated and to be followed by
+         * its definition. */
+        previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
 
-            if (previous_decl)
-                return previous_decl;
-    }
+        if (previous_decl && !tFN_STMTS(fn))
+            return previous_decl;
+
+        if (is_T_FN(previous_decl) && !tFN_STMTS(previous_decl)) {
+            tree_copy(previous_decl, fn);
+            return decl;
+        }
 
         map_identifier(tFN_DECL(fn), fn);
         return decl;
-- 
2.43.0


From 41a1e9ffd50d407d6095724a13ec7a4ad5cc6fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 041/102] fix: treat a parameter list of void as an empty one

---
 src/parser.m4 | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/parser.m4 b/src/parser.m4
index c0f3b77..78120c6 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -58,6 +58,28 @@ static void maybe_add_typenames(tree decl)
         find_ids_to_map_to_typenames(decl);
 }
 
+/* Does the parameter list consist of a lone `void', i.e. are there none? */
+static bool is_void_parameter_list(tree params)
+{
+    size_t no_params = 0, no_specs = 0;
+    bool is_void = false;
+    tree param, spec;
+
+    for_each_tree(param, params) {
+        no_params++;
+
+        if (tDECL_DECLS(param))
+            return false;
+
+        for_each_tree(spec, tDECL_SPECS(param)) {
+            no_specs++;
+            is_void = is_T_VOID_TS(spec);
+        }
+    }
+
+    return no_params == 1 && no_specs == 1 && is_void;
+}
+
 CSCRIPT_ONLY
     /* Get the function that's declared by the declarator of a definition, which
      * is a pointer if the function returns one. */
@@ -1184,6 +1206,9 @@ type_qualifier_list
 
 parameter_type_list
 : parameter_list
+{
+    $$ = is_void_parameter_list($1) ? tree_make(CHAIN_HEAD) : $1;
+}
 | parameter_list ',' ELLIPSIS
 {
     tree_chain(tree_make(T_VARIADIC), $1);
-- 
2.43.0


From e9c6fc1cc6fb8ea0fa9a66d8a5df93ec03338c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 042/102] fix: resolve a compound that is first mentioned in a
 declaration

---
 src/evaluate.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 8f4ea5d..80ad25c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2496,8 +2496,10 @@ static tree eval_decl_compound(tree t, int depth)
     if (!tCOMP_DECL_DECLS(t)) {
         tree ret = resolve_compound(t, SCOPE_GLOBAL);
 
-        if (!ret)
-            return handle_forward_decl(t);
+        if (!ret) {
+            handle_forward_decl(t);
+            ret = resolve_compound(t, SCOPE_GLOBAL);
+        }
 
         return ret;
     }
-- 
2.43.0


From a41d477a2cdd01ca0b726210d8bc3de37cd74c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 043/102] fix: accept negative enumeration constants

---
 src/evaluate.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 80ad25c..8fa8ee2 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2591,7 +2591,7 @@ static tree eval_decl_compound(tree t, int depth)
 static tree eval_enumerator(tree t, int depth)
 {
     tree enum_expr, enum_base_type = tree_make(ENUMTYPE);
-    unsigned int enum_val = 0;
+    long enum_val = 0;
 
     /* Handle the case where a perviously declared enum is referred to. */
     if (!tENUM_ENUMS(t))
@@ -2621,7 +2621,7 @@ static tree eval_enumerator(tree t, int depth)
                 convert_to_comparable_type(tASSIGN_RHS(enum_expr), depth);
 
             enum_id = tASSIGN_LHS(enum_expr);
-            enum_val = (unsigned int)mpz_get_ui(tINT_VAL(new_val));
+            enum_val = get_wrapped_int(new_val);
 
             break;
         }
@@ -2629,7 +2629,12 @@ static tree eval_enumerator(tree t, int depth)
             eval_die(t, "Unknown enumerator expression\n");
         }
 
-        mpz_init_set_ui(tINT_VAL(integer), enum_val);
+        /* As GCC does, represent an enumeration that has negative values by a
+         * signed type. */
+        if (enum_val < 0)
+            TYPE(enum_base_type) = D_T_INT;
+
+        mpz_init_set_si(tINT_VAL(integer), enum_val);
         map_identifier(enum_id, integer);
         enum_val++;
     }
-- 
2.43.0


From 6f9ba4427d43b82c990609f9f99a7e85927eb1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 044/102] fix: keep the collector's table of allocations within
 its bounds

---
 src/gc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 74a9abc..68ff528 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -135,10 +135,8 @@ static void fixup_alloc_array()
 
     /* Run the alloc pointer backward to see when the first allocation
      * is. */
-    while (alloc_ptr > 0 && !allocs[alloc_ptr])
+    while (alloc_ptr > 0 && !allocs[alloc_ptr - 1])
         alloc_ptr--;
-
-    alloc_ptr++;
 }
 
 static void collect(void)
@@ -173,7 +171,8 @@ static void extend_allocs()
     alloc_array_sz *= 2;
 
     allocs = realloc(allocs, sizeof(*allocs) * alloc_array_sz);
-    memset(&allocs[old_alloc_array_sz], 0, old_alloc_array_sz);
+    memset(&allocs[old_alloc_array_sz], 0,
+           sizeof(*allocs) * old_alloc_array_sz);
 }
 
 static void track_new_alloc(gc_obj obj)
-- 
2.43.0


From fa070f17bcb6dba9204372d8ac5b8fbc30f0b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 045/102] fix: traverse each object once when marking

---
 src/gengc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gengc.cpp b/src/gengc.cpp
index a3a70b9..f48b434 100644
--- a/src/gengc.cpp
+++ b/src/gengc.cpp
@@ -51,7 +51,8 @@ static void outputPreamble(FILE *f)
           "{\n"
           "    tree t;\n"
           "\n"
-          "    if (!obj)\n"
+          "    /* An object that has been marked already has been traversed, too. */\n"
+          "    if (!obj || obj->reachable)\n"
           "        return;\n"
           "\n"
           "    obj->reachable = 1;\n"
-- 
2.43.0


From 48a34d53486bfa081abfe272af89a960ade8ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 046/102] fix: free the value of a temporary along with it

---
 src/c.lang     |  2 +-
 src/evaluate.c | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 0d3dd92..4dd1da7 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -223,7 +223,7 @@
 (deftype T_VARIADIC "Variadic Function Argument")
 
 (deftype T_LIVE_VAR "Live Variable" "tLV"
-         ("TYPE"
+         ("TYPE" "ALLOC"
           ("VAL" live_var_val)
           ("IS_ARRAY" flag)
           ("ARRAY_SZ" sz)))
diff --git a/src/evaluate.c b/src/evaluate.c
index 8fa8ee2..579b6a2 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -107,13 +107,18 @@ static void push_fn_ctx(const char *name)
     tECTX_PARENT_CTX(cur_ctx) = toplevel_ctx;
 }
 
-static void *track_alloc(void *ptr)
+static tree make_alloc(void *ptr)
 {
     tree alloc = tree_make(E_ALLOC);
 
     tALLOC_PTR(alloc) = ptr;
 
-    tree_chain(alloc, tECTX_ALLOC_CHAIN(cur_ctx));
+    return alloc;
+}
+
+static void *track_alloc(void *ptr)
+{
+    tree_chain(make_alloc(ptr), tECTX_ALLOC_CHAIN(cur_ctx));
 
     return ptr;
 }
@@ -345,11 +350,11 @@ tree make_live_var(tree type)
 
     /* We can not allow the GC to just free the LV_VAL memory as this
      * may not point to memory that has been allocated, for example in
-     * arrays and struct members.  Therefore, track the allocation
-     * within the current context.  This is sufficient as once the
-     * current context goes out of scope, we can no longer access the
-     * live variable. */
-    track_alloc(tLV_VAL(live_var));
+     * arrays and struct members.  Therefore, keep track of the allocation
+     * here.  The live variable of a declaration is mapped in its context and
+     * that of a temporary goes away, along with its value, once there is no
+     * reference to it. */
+    tLV_ALLOC(live_var) = make_alloc(tLV_VAL(live_var));
 
     return live_var;
 }
-- 
2.43.0


From e328d5262a1454b8bd6cc38728f9fa8026087f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 047/102] fix: accept typedefs in the REPL

---
 src/repl.c     |  6 +++++-
 src/typename.c | 16 ++++++++++++++++
 src/typename.h |  2 ++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index c64d807..a62bc9a 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -411,9 +411,13 @@ static tree repl_parse_line(char *line)
      * If not, then we copy the line to the end of a small C file that
      * has all the include statments from `inline_chain' before it,
      * preprocess it and then parse that as the tree to be
-     * evaluated. */
+     * evaluated.
+     *
+     * The first pass must not have an effect on the second one. */
 
+    typename_inhibit_add();
     stmt = repl_do_parse(line);
+    typename_enable_add();
 
     if (!stmt)
         return NULL;
diff --git a/src/typename.c b/src/typename.c
index edc5b79..436ecfe 100644
--- a/src/typename.c
+++ b/src/typename.c
@@ -10,6 +10,8 @@ GC_STATIC_TREE(include_type_names);
 
 static int in_include_file = 0;
 
+static int add_inhibited = 0;
+
 static void __add_typename(tree typename)
 {
     tree new_typename = get_identifier(tID_STR(typename));
@@ -19,6 +21,9 @@ static void __add_typename(tree typename)
 
 void add_typename(tree typename_decl)
 {
+    if (add_inhibited)
+        return;
+
     if (is_T_IDENTIFIER(typename_decl)) {
         __add_typename(typename_decl);
         return;
@@ -38,6 +43,17 @@ void typename_unset_include_file(void)
     in_include_file = 0;
 }
 
+/* Parsing a typedef doesn't add the typename while that is inhibited. */
+void typename_inhibit_add(void)
+{
+    add_inhibited = 1;
+}
+
+void typename_enable_add(void)
+{
+    add_inhibited = 0;
+}
+
 void reset_include_typenames(void)
 {
     include_type_names = tree_make(CHAIN_HEAD);
diff --git a/src/typename.h b/src/typename.h
index cd9af85..5c01ef7 100644
--- a/src/typename.h
+++ b/src/typename.h
@@ -2,6 +2,8 @@
 
 void typename_set_include_file(void);
 void typename_unset_include_file(void);
+void typename_inhibit_add(void);
+void typename_enable_add(void);
 void reset_include_typenames(void);
 void add_typename(tree typename);
 void typename_init(void);
-- 
2.43.0


From 3bafcf6f58f0cc364e93c353dc77f83af11c6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 048/102] fix: remove the temporary files and close the output
 of the preprocessor

---
 src/preprocess.c | 4 ++++
 src/repl.c       | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 328c785..d77856b 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -84,6 +84,10 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   free(command);
 
+  /* The output can still be read from its stream. */
+  unlink(cpp_file_name);
+  unlink(out_file_name);
+
   if (ret < 0) {
     fprintf(stderr, "Invocation of preprocessor process failed\n");
     exit (1);
diff --git a/src/repl.c b/src/repl.c
index a62bc9a..345da3c 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -366,6 +366,8 @@ static char *run_cpp_on_line(char *line)
     while (pos != line_len)
         ret[pos++] = fgetc(output);
 
+    fclose(output);
+
     return ret;
 }
 
-- 
2.43.0


From bd5487c3add687762842666f318a0f6cedcaf9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 049/102] fix: do not alter declarations when completing
 identifiers

---
 src/repl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index 345da3c..496fcc7 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -140,8 +140,10 @@ void match_identifiers_for_idmap(tree chain, tree idmap,
 
     for_each_tree(i, idmap) {
         tree id = tEMAP_LEFT(i);
+        /* The identifier may already be a member of another chain, that of
+         * the declaration it is from. */
         if (strncmp(tID_STR(id), prefix, strlen(prefix)) == 0)
-            tree_chain(id, chain);
+            tree_chain(get_identifier(tID_STR(id)), chain);
     }
 }
 
-- 
2.43.0


From 116720a349404c14f544c1084de61ae28c44b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 050/102] fix: complete the member of the rightmost compound
 access

---
 src/repl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index 496fcc7..6b24d19 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -91,7 +91,7 @@ static int split_compound_access_text(const char *text,
             break;
         }
 
-        if (strstr(&text[i], "->")) {
+        if (strncmp(&text[i], "->", 2) == 0) {
             comp_access->obj_expr = strdup(text);
             comp_access->obj_expr[i] = '\0';
 
@@ -99,6 +99,7 @@ static int split_compound_access_text(const char *text,
             comp_access->needs_deref = 1;
 
             comp_access->member_prefix = strdup(&text[i + 2]);
+            break;
         }
     }
 
-- 
2.43.0


From 488fa9d13b44bc68132f8512cbd7692f46dac1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 051/102] fix: handle a failing evaluation when completing
 members, reap the child

---
 src/repl.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index 6b24d19..0be4277 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -2,6 +2,7 @@
 #include <unistd.h>
 #include <stdio.h>
 #include <sys/types.h>
+#include <sys/wait.h>
 #include <pwd.h>
 
 #include "config.h"
@@ -253,9 +254,8 @@ static char **recieve_matches(int fd)
     size_t n;
     int i;
 
-    read(fd, &n, sizeof(n));
-
-    if (!n)
+    /* Nothing is sent if the evaluation of the expression failed. */
+    if (read(fd, &n, sizeof(n)) != sizeof(n) || !n)
         return NULL;
 
     ret = malloc(sizeof(*ret) * (n + 1));
@@ -293,6 +293,9 @@ static char **bic_completion(const char *text, int start, int end)
             return NULL;
         }
 
+        /* The child must not flush what the parent has buffered. */
+        fflush(NULL);
+
         ret = fork();
 
         if (ret == -1) {
@@ -314,7 +317,8 @@ static char **bic_completion(const char *text, int start, int end)
 
             close(pfds[1]);
 
-            exit(0);
+            /* Don't flush the parent's output nor run its exit handlers. */
+            _exit(0);
         } else {
             close(pfds[1]);
 
@@ -324,7 +328,8 @@ static char **bic_completion(const char *text, int start, int end)
             free(comp_access.access_operator);
             free(comp_access.member_prefix);
 
-            close(pfds[1]);
+            close(pfds[0]);
+            waitpid(ret, NULL, 0);
         }
     }
     else
-- 
2.43.0


From 4f8985b44fa92df710ac645cda17ca29709ef470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 052/102] fix: evaluate the object of the members to complete

---
 src/repl.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index 0be4277..a4b2e9e 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -110,6 +110,8 @@ static int split_compound_access_text(const char *text,
     return 1;
 }
 
+static tree repl_do_parse(char *line);
+
 static tree get_compound_completion_object(struct completion_comp_access comp_access)
 {
     char *comp_obj_expr = strdup(comp_access.obj_expr);
@@ -123,16 +125,7 @@ static tree get_compound_completion_object(struct completion_comp_access comp_ac
      * expression. */
     comp_obj_expr = concat_strings(comp_obj_expr, ";");
 
-    YY_BUFFER_STATE lex_buffer = repl_scan_string(comp_obj_expr);
-    inhibit_gc();
-    int parse_result = replparse();
-    enable_gc();
-    repl_delete_buffer(lex_buffer);
-
-    if (parse_result)
-        return NULL;
-
-    return evaluate_expr(repl_parse_head);
+    return evaluate_expr(repl_do_parse(comp_obj_expr));
 }
 
 void match_identifiers_for_idmap(tree chain, tree idmap,
-- 
2.43.0


From 4df3759b66c0d0d7b75034717049de51d3515043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 053/102] fix: describe unsigned short as such

---
 src/c.lang | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c.lang b/src/c.lang
index 4dd1da7..a4fe91d 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -262,7 +262,7 @@
 (defctype D_T_LONG "signed long" "long" "ld" "ival" ffi_type_slong)
 (defctype D_T_LONGLONG "signed long long" "long long" "lld" "ival" ffi_type_slong)
 (defctype D_T_UCHAR "unsigned char" "unsigned char" "u" "ival" ffi_type_uchar)
-(defctype D_T_USHORT "signed short" "unsigned short" "hu" "ival" ffi_type_ushort)
+(defctype D_T_USHORT "unsigned short" "unsigned short" "hu" "ival" ffi_type_ushort)
 (defctype D_T_UINT "unsigned integer" "unsigned int" "u" "ival" ffi_type_uint)
 (defctype D_T_ULONG "unsigned long" "unsigned long" "lu" "ival" ffi_type_ulong)
 (defctype D_T_ULONGLONG "unsigned long long" "unsigned long long" "llu" "ival" ffi_type_ulong)
-- 
2.43.0


From fcf54cd4770ed828f6b63eee831c6390c537e70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 054/102] fix: accept a cast to void

---
 src/evaluate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 579b6a2..fa8b42a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2163,6 +2163,10 @@ static tree eval_cast(tree t, int depth)
         dest_type = __evaluate_1(tCAST_NEWTYPE(t), depth + 1),
         ret;
 
+    /* The value of the expression is discarded. */
+    if (is_D_T_VOID(dest_type))
+        return NULL;
+
     if (is_T_INTEGER(source) || is_T_FLOAT(source)) {
         tree lv = make_live_var(dest_type);
 
-- 
2.43.0


From 6c7ed21b7eceb428c5994e71eccde955f487d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 055/102] fix: inspect objects that have no declaring file and
 unnamed compounds

---
 src/evaluate.c | 2 ++
 src/inspect.c  | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index fa8b42a..88f2bfe 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -897,6 +897,8 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         tree live_var = alloc_array(decl, decl_type, depth);
         tree id = tARRAY_DECL(decl);
 
+        tLOCUS(live_var) = tLOCUS(id);
+
         /* We know that since the array was successfully instantiated,
          * the left element of the decl *must* be an identifier. */
         map_identifier(id, live_var);
diff --git a/src/inspect.c b/src/inspect.c
index 937dccc..6166442 100644
--- a/src/inspect.c
+++ b/src/inspect.c
@@ -53,7 +53,7 @@ static void print_object_type(tree inspect_id, tree resolved_object)
 
     object_type = handle_pointer_type(object_type);
 
-    if (is_T_DECL_COMPOUND(object_type))
+    if (is_T_DECL_COMPOUND(object_type) && tCOMP_DECL_ID(object_type))
         object_name = tID_STR(tCOMP_DECL_ID(object_type));
     else
         object_name = tree_description_string(object_type);
@@ -64,6 +64,11 @@ static void print_object_type(tree inspect_id, tree resolved_object)
 
 static void print_object_locus(tree inspect_id, tree resolved_object)
 {
+    /* Not everything has been declared in a file, the argc and argv of a script
+     * haven't, for example. */
+    if (!tLOCUS(resolved_object).file)
+        return;
+
     printf("%s was declared at: %s:%ld\n", tID_STR(inspect_id),
            tID_STR(tLOCUS(resolved_object).file),
            tLOCUS(resolved_object).line_no);
-- 
2.43.0


From 474bf1cee03dfe07ce69179c12e1e16f5ea6725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 056/102] verif: hooks to inject collections and record them
 (BIC_VERIF)

---
 src/gc.c | 88 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 88 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 68ff528..49964cb 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -139,6 +139,81 @@ static void fixup_alloc_array()
         alloc_ptr--;
 }
 
+#ifdef BIC_VERIF
+/* Hooks for runtime monitoring, off by default.
+ *
+ * BIC_VERIF_GC=N collects at every Nth allocation, BIC_VERIF_GC=N:SEED at
+ * pseudo-random ones, N allocations apart on average.  BIC_VERIF_GC_LOG=FILE
+ * appends the number of allocations, of live objects and of freed objects to
+ * FILE after each collection. */
+#include <fcntl.h>
+#include <stdint.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <unistd.h>
+
+static size_t verif_allocs = 0;
+
+static int verif_collect_due(void)
+{
+    static unsigned long period = 0, wait = 0;
+    static uint64_t seed = 0;
+    static int state = 0;
+
+    verif_allocs++;
+
+    if (!state) {
+        char *spec = getenv("BIC_VERIF_GC"), *end;
+
+        state = spec ? 1 : 2;
+        period = spec ? strtoul(spec, &end, 10) : 0;
+
+        if (!period)
+            state = 2;
+        else if (*end == ':')
+            seed = strtoul(end + 1, NULL, 10) * 2 + 1;
+    }
+
+    /* Nothing is collected while the interpreter initialises itself. */
+    if (state == 2 || gc_inhibited || verif_allocs < 200)
+        return 0;
+
+    if (wait) {
+        wait--;
+        return 0;
+    }
+
+    wait = period - 1;
+    if (seed) {
+        seed ^= seed << 13;
+        seed ^= seed >> 7;
+        seed ^= seed << 17;
+        wait = seed % (2 * period);
+    }
+
+    return 1;
+}
+
+static void verif_log_collection(size_t before)
+{
+    static int fd = -2;
+    size_t i, live = 0;
+
+    if (fd == -2) {
+        char *file = getenv("BIC_VERIF_GC_LOG");
+        fd = file ? open(file, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644) : -1;
+    }
+
+    if (fd < 0)
+        return;
+
+    for (i = 0; i < alloc_ptr; i++)
+        live += allocs[i] != NULL;
+
+    dprintf(fd, "%zu %zu %zu\n", verif_allocs, live, before - live);
+}
+#endif
+
 static void collect(void)
 {
     /* This undocumented intrinsic should force all callee-saved
@@ -149,13 +224,26 @@ static void collect(void)
     fixup_alloc_array();
     mark_stack();
     mark_static();
+#ifdef BIC_VERIF
+    size_t before = alloc_ptr;
+#endif
     sweep();
+#ifdef BIC_VERIF
+    verif_log_collection(before);
+#endif
 }
 
 static void maybe_collect()
 {
     static int collect_counter = 0;
 
+#ifdef BIC_VERIF
+    if (verif_collect_due()) {
+        collect();
+        return;
+    }
+#endif
+
     if (gc_inhibited)
         return;
 
-- 
2.43.0


From 325a274920329560632aa89eca9c22b1f2f42ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 057/102] fix: keep the arguments of a call alive until they
 are assigned

---
 src/evaluate.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 88f2bfe..c23a63c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -555,8 +555,12 @@ static tree eval_fn_call(tree t, int depth)
 
     if (is_T_FN(function)) {
         if (tFN_STMTS(function)) {
+            /* The elements of a chain are only kept alive by its head. It
+             * isn't used any more while they still are, so prevent the compiler
+             * from dropping it. */
+            tree volatile arg_vals;
             tree arg_decls = tFN_ARGS(function),
-                arg_vals, arg_decl, arg_val, return_val, fn_ctx,
+                arg_decl, arg_val, return_val, fn_ctx,
                 ret_type = tFN_RET_TYPE(function), ret_lv = NULL;
 
             /* Evaluate all arguments before pushing the function's context, as
-- 
2.43.0


From 1434cc6b3dc44f043f126ec786b43e0b5d903570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 058/102] fix: make the members of an external compound
 accessible

---
 src/evaluate.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c23a63c..25f8d2f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1100,7 +1100,11 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     previous_decl = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
     if (previous_decl) {
-        if (TYPE(tLV_TYPE(previous_decl)) != TYPE(extern_type)) {
+        if (is_T_LIVE_COMPOUND(previous_decl) && is_T_DECL_COMPOUND(extern_type))
+            return id;
+
+        if (!is_T_LIVE_VAR(previous_decl) ||
+            TYPE(tLV_TYPE(previous_decl)) != TYPE(extern_type)) {
             eval_die(decl, "Attempted to redeclare %s with a different type", tID_STR(id));
         }
 
@@ -1110,6 +1114,11 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     /* Handle all other types. */
     sym_addr = resolve_symbol(decl);
 
+    if (is_T_DECL_COMPOUND(extern_type)) {
+        map_identifier(id, instantiate_struct(extern_type, 0, sym_addr));
+        return id;
+    }
+
     live_var = tree_make(T_LIVE_VAR);
     tLV_TYPE(live_var) = extern_type;
     tLV_VAL(live_var) = sym_addr;
-- 
2.43.0


From d9283ea8e13c5c8a5f6e34e532d6cf20d7aad5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 059/102] verif: allow a run without collections (BIC_VERIF)

---
 src/gc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gc.c b/src/gc.c
index 49964cb..c53e371 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -143,7 +143,8 @@ static void fixup_alloc_array()
 /* Hooks for runtime monitoring, off by default.
  *
  * BIC_VERIF_GC=N collects at every Nth allocation, BIC_VERIF_GC=N:SEED at
- * pseudo-random ones, N allocations apart on average.  BIC_VERIF_GC_LOG=FILE
+ * pseudo-random ones, N allocations apart on average; with BIC_VERIF_GC=0
+ * nothing is ever collected.  BIC_VERIF_GC_LOG=FILE
  * appends the number of allocations, of live objects and of freed objects to
  * FILE after each collection. */
 #include <fcntl.h>
@@ -153,6 +154,7 @@ static void fixup_alloc_array()
 #include <unistd.h>
 
 static size_t verif_allocs = 0;
+static int verif_never_collect = 0;
 
 static int verif_collect_due(void)
 {
@@ -168,6 +170,8 @@ static int verif_collect_due(void)
         state = spec ? 1 : 2;
         period = spec ? strtoul(spec, &end, 10) : 0;
 
+        verif_never_collect = spec && !period;
+
         if (!period)
             state = 2;
         else if (*end == ':')
@@ -242,6 +246,9 @@ static void maybe_collect()
         collect();
         return;
     }
+
+    if (verif_never_collect)
+        return;
 #endif
 
     if (gc_inhibited)
-- 
2.43.0


From 1164d81f2eaae45361b03469f9ec43a81ba11f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 060/102] fix: collect what parsing and lines of literals leave
 behind

---
 src/gc.c   | 8 ++++++--
 src/gc.h   | 1 +
 src/repl.c | 4 ++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index c53e371..4c51467 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -237,7 +237,7 @@ static void collect(void)
 #endif
 }
 
-static void maybe_collect()
+void maybe_collect()
 {
     static int collect_counter = 0;
 
@@ -251,10 +251,14 @@ static void maybe_collect()
         return;
 #endif
 
+    /* Allocations that are made while collections are inhibited count,
+     * too, as they become garbage later on. */
+    collect_counter++;
+
     if (gc_inhibited)
         return;
 
-    if (collect_counter++ > COLLECT_TREE_ALLOC) {
+    if (collect_counter > COLLECT_TREE_ALLOC) {
         collect();
         collect_counter = 0;
     }
diff --git a/src/gc.h b/src/gc.h
index 1b25c38..26da7b8 100644
--- a/src/gc.h
+++ b/src/gc.h
@@ -25,3 +25,4 @@ void enable_gc();
 void inhibit_gc();
 
 tree alloc_tree();
+void maybe_collect();
diff --git a/src/repl.c b/src/repl.c
index a4b2e9e..91f8414 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -487,6 +487,10 @@ void bic_repl()
 
         free(line);
 
+        /* A line can leave garbage behind without having made an
+         * allocation at which it could be collected. */
+        maybe_collect();
+
         line = readline(BIC_PROMPT);
     }
 }
-- 
2.43.0


From 82bc8723bc527c834f5bd466bd9b35fe6a4561ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 061/102] fix: locate the errors of compound assignments

---
 src/parser.m4 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.m4 b/src/parser.m4
index 78120c6..0852e2c 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -643,26 +643,32 @@ assignment_expression
 | unary_expression ADD_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_ADD, tADD, $1, $3);
+    set_locus($$, @2);
 }
 | unary_expression SUB_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_SUB, tSUB, $1, $3);
+    set_locus($$, @2);
 }
 | unary_expression  DIV_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_DIV, tDIV, $1, $3);
+    set_locus($$, @2);
 }
 | unary_expression LSHIFT_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_LSHIFT, tLSHIFT, $1, $3);
+    set_locus($$, @2);
 }
 | unary_expression RSHIFT_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_RSHIFT, tRSHIFT, $1, $3);
+    set_locus($$, @2);
 }
 | unary_expression XOR_ASSIGN assignment_expression
 {
 $$ = tree_make_binmod(T_X_OR, tX_OR, $1, $3);
+    set_locus($$, @2);
 }
 ;
 
-- 
2.43.0


From 6d43616b4e4e14b6513fe1749579abeec983d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 062/102] fix: hand names to the preprocessor as they are

---
 src/cscript.c    |  9 +++++++--
 src/preprocess.c |  3 ++-
 src/util.c       | 22 ++++++++++++++++++++++
 src/util.h       |  1 +
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index fd63848..5ea46ac 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -5,6 +5,7 @@
 #include "gc.h"
 #include "tree-dump.h"
 #include "tree-dump-dot.h"
+#include "util.h"
 #include <string.h>
 
 extern FILE *cscriptin;
@@ -28,9 +29,13 @@ static int parse_cscript(const char *fname)
 {
     int parse_result;
     FILE *f;
-    char *command;
+    char *command, *quoted_name = shell_quote(fname);
 
-    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " \"%s\"", fname);
+    if (asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s",
+                 quoted_name) == -1)
+        command = NULL;
+
+    free(quoted_name);
 
     if (!command) {
         fprintf(stderr, "Error: could not allocate preprocessor command.\n");
diff --git a/src/preprocess.c b/src/preprocess.c
index d77856b..8be921a 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -6,6 +6,7 @@
 #include "tree.h"
 #include "gc.h"
 #include "preprocess.h"
+#include "util.h"
 
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
@@ -110,7 +111,7 @@ void preprocessor_add_include_dir(char *dir)
 
     new_dir = tree_make(T_STRING);
 
-    tSTRING_VAL(new_dir) = strdup(dir);
+    tSTRING_VAL(new_dir) = shell_quote(dir);
 
     tree_chain(new_dir, include_dirs);
 }
diff --git a/src/util.c b/src/util.c
index 43d0233..fac55fa 100644
--- a/src/util.c
+++ b/src/util.c
@@ -13,3 +13,25 @@ char *concat_strings(const char *s1, const char *s2)
 
     return ret;
 }
+
+/* Quote S for the shell. */
+char *shell_quote(const char *s)
+{
+    char *ret = malloc(strlen(s) * 4 + 3);
+    char *out = ret;
+
+    *out++ = '\'';
+
+    for (; *s; s++) {
+        if (*s == '\'') {
+            strcpy(out, "'\\''");
+            out += 4;
+        } else
+            *out++ = *s;
+    }
+
+    *out++ = '\'';
+    *out = '\0';
+
+    return ret;
+}
diff --git a/src/util.h b/src/util.h
index 96e0960..585ba2b 100644
--- a/src/util.h
+++ b/src/util.h
@@ -1,3 +1,4 @@
 #pragma once
 
 char *concat_strings(const char *s1, const char *s2);
+char *shell_quote(const char *s);
-- 
2.43.0


From 530b3449f60cb31ace5bc4610b4946f6ee368387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 063/102] fix: search the directories of -I for the headers of
 a script

---
 src/cscript.c    |  7 +++++--
 src/preprocess.c | 43 +++++++++++++++++++++++++------------------
 src/preprocess.h |  1 +
 3 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 5ea46ac..81b25aa 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -3,6 +3,7 @@
 #include "cscriptparser.h"
 #include "evaluate.h"
 #include "gc.h"
+#include "preprocess.h"
 #include "tree-dump.h"
 #include "tree-dump-dot.h"
 #include "util.h"
@@ -30,11 +31,13 @@ static int parse_cscript(const char *fname)
     int parse_result;
     FILE *f;
     char *command, *quoted_name = shell_quote(fname);
+    char *include_opts = preprocessor_include_opts();
 
-    if (asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s",
-                 quoted_name) == -1)
+    if (asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s %s",
+                 include_opts, quoted_name) == -1)
         command = NULL;
 
+    free(include_opts);
     free(quoted_name);
 
     if (!command) {
diff --git a/src/preprocess.c b/src/preprocess.c
index 8be921a..f6a9091 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -11,12 +11,35 @@
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
 
+/* The options for the include directories; to be freed by the caller. */
+char *preprocessor_include_opts(void)
+{
+    size_t len = 1;
+    char *ret;
+    tree i;
+
+    if (include_dirs)
+        for_each_tree(i, include_dirs)
+            len += strlen(tSTRING_VAL(i)) + 4;
+
+    ret = malloc(len);
+    ret[0] = '\0';
+
+    if (include_dirs)
+        for_each_tree(i, include_dirs) {
+            strcat(ret, " -I ");
+            strcat(ret, tSTRING_VAL(i));
+        }
+
+    return ret;
+}
+
 FILE *run_cpp(tree include_chain, char *opts, char *line)
 {
   char cpp_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
   char out_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
   char *command;
-  char *include_dir_opts = NULL;
+  char *include_dir_opts;
   FILE *out_file_stream;
   int cpp_file_fd, out_file_fd, ret;
   tree i;
@@ -52,23 +75,7 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   close(cpp_file_fd);
 
-  if (include_dirs) {
-      size_t include_len = 0;
-
-      for_each_tree(i, include_dirs)
-          include_len += strlen(tSTRING_VAL(i)) + 4;
-
-      include_dir_opts = malloc(include_len + 1);
-      include_dir_opts[0] = '\0';
-
-      for_each_tree(i, include_dirs) {
-          strcat(include_dir_opts, " -I ");
-          strcat(include_dir_opts, tSTRING_VAL(i));
-      }
-  } else {
-      include_dir_opts = malloc(1);
-      include_dir_opts[0] = '\0';
-  }
+  include_dir_opts = preprocessor_include_opts();
 
   ret = asprintf(&command, "gcc %s %s %s > %s", opts, include_dir_opts,
           cpp_file_name, out_file_name);
diff --git a/src/preprocess.h b/src/preprocess.h
index a6050a9..8bdc5da 100644
--- a/src/preprocess.h
+++ b/src/preprocess.h
@@ -1,2 +1,3 @@
 FILE *run_cpp(tree include_chain, char *opts, char *line);
 void preprocessor_add_include_dir(char *dir);
+char *preprocessor_include_opts(void);
-- 
2.43.0


From 005b1bf3e9525faf24467d423425bda7339e7776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 064/102] fix: do not execute a script that the preprocessor
 rejects

---
 src/cscript.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cscript.c b/src/cscript.c
index 81b25aa..3db391c 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -59,7 +59,10 @@ static int parse_cscript(const char *fname)
     parse_result = cscriptparse();
     enable_gc();
 
-    fclose(f);
+    if (pclose(f)) {
+        fprintf(stderr, "Preprocessor command exited with non-zero status\n");
+        exit(1);
+    }
 
     return parse_result;
 }
-- 
2.43.0


From 91ba67295391dd79dbf19d55d64fc4920579d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 065/102] fix: report a floating point literal that is too
 large

---
 src/lex.m4 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 17cc95f..efe3502 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -5,6 +5,7 @@ define(LEXTEXT, TARGET`text')
 define(LEXLVAL, TARGET`lval')
 divert(0)dnl
 %{
+`#'include <float.h>
 `#'include <stdio.h>
 `#'include <string.h>
 `#'include <stdarg.h>
@@ -196,7 +197,11 @@ ALL_TARGETS
 
 0[0-7]+                         mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 8); return INTEGER;
 [0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
-[0-9]+\.[0-9]+                  mpf_init_set_d(LEXLVAL.ffloat, strtod(LEXTEXT, NULL)); return FLOAT_CST;
+[0-9]+\.[0-9]+                  { double val = strtod(LEXTEXT, NULL);
+                                  if (val > DBL_MAX)
+                                      return 1; /* Not representable. */
+                                  mpf_init_set_d(LEXLVAL.ffloat, val);
+                                  return FLOAT_CST; }
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
-- 
2.43.0


From ebeccab5fe2c22b911a83dd8aa6c068164ba85dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 066/102] fix: convert an integer assigned to a pointer from
 its own type

assign_ptr read eight bytes of any live variable, so that a pointer
assigned from a narrower integer got bytes of the neighbours.
---
 src/evaluate.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 25f8d2f..e6f17a3 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1412,15 +1412,16 @@ static void assign_ptr(tree var, tree right)
 {
     void *ptr;
 
+    /* An integer has its own size, which needn't be that of a pointer. */
+    if (is_T_LIVE_VAR(right))
+        right = make_int_from_live_var(right);
+
     switch (TYPE(right))
     {
     case T_STRING:
         /* A string literal exists for as long as the program runs. */
         ptr = tSTRING_VAL(right);
         break;
-    case T_LIVE_VAR:
-        ptr = (void *)tLV_VAL(right)->D_T_PTR;
-        break;
     case T_INTEGER:
         ptr = (void *)get_wrapped_int(right);
         break;
-- 
2.43.0


From d8d82078e358d55d448e4d65bcfbb038617511d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 067/102] fix: print an array of characters within its bounds

An array needn't hold a terminated string, printing it or a structure
with it as a member read beyond its end.
---
 src/pretty-printer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pretty-printer.c b/src/pretty-printer.c
index a8d01ca..8804447 100644
--- a/src/pretty-printer.c
+++ b/src/pretty-printer.c
@@ -33,7 +33,10 @@ static void pp_live_var(tree t, int depth)
         is_D_T_CHAR(tDTPTR_EXP(type))) {
         char *str = tLV_VAL(t)->D_T_PTR;
 
-        if (str)
+        /* An array of characters needn't be terminated. */
+        if (str && tLV_IS_ARRAY(t))
+            printf(" (\"%.*s\")", (int)tLV_ARRAY_SZ(t), str);
+        else if (str)
             printf(" (\"%s\")", str);
 
         return;
-- 
2.43.0


From 4b099ed54adce9ea701f8ef6c115096dbb916d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 068/102] fix: keep the objects of included headers when
 another one is included

An #include in the REPL evaluated all preceding headers again, which reset
their variables and left pointers to their objects and functions dangling,
and one of a header without any declarations was an error.
---
 src/evaluate.c | 65 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index e6f17a3..4e02dcf 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2900,30 +2900,70 @@ static tree eval_deref(tree t, int depth)
     return ret;
 }
 
+/* Whether there is more than line markers and directives ahead in the output of
+ * the preprocessor. */
+static bool has_declarations(FILE *stream)
+{
+    long pos = ftell(stream);
+    bool ret = false;
+    char *line = NULL;
+    size_t line_sz = 0;
+
+    while (!ret && getline(&line, &line_sz, stream) != -1)
+        ret = line[0] != '#' && line[strspn(line, " \t\f\v\r\n")];
+
+    free(line);
+    fseek(stream, pos, SEEK_SET);
+
+    return ret;
+}
+
 static tree eval_cpp_include(tree t, int depth)
 {
     extern tree cscript_parse_head;
     tree cpp_include = tree_make(CPP_INCLUDE);
+    const char *marker = "#pragma bic_include";
     FILE *out_file_stream;
     extern FILE *cscriptin;
+    char *line = NULL;
+    size_t line_sz = 0;
     int ret;
 
     /* We don't have a real C preprocessor that we can call upon
      * yet. Therefore, we have to call out to the system's
      * preprocessor (assumed to be `cpp') and parse the results.
      *
-     * NOTE: this is very limited, since we are calling out to the
-     * system's CPP every time, we can't maintain the state of
-     * definitions.  Therefore, we WILL define things multiple
-     * times. */
+     * NOTE: since we are calling out to the system's CPP every time, it
+     * has to be given the preceding #includes again for their
+     * definitions.  What it makes of those, everything up to our marker,
+     * has been evaluated already. */
+    ret = asprintf(&line, "%s\n%s", marker, tCPP_INCLUDE_STR(t));
+
+    if (ret == -1)
+        eval_die(t, "Could not compose the preprocessor's input\n");
+
+    out_file_stream = run_cpp(include_chain, "-E " EXTRA_CPP_OPTS, line);
+
+    free(line);
+    line = NULL;
+
+    do {
+        if (getline(&line, &line_sz, out_file_stream) == -1)
+            eval_die(t, "Could not find the header in the preprocessor's output\n");
+    } while (strncmp(line, marker, strlen(marker)));
+
+    free(line);
+
     tCPP_INCLUDE_STR(cpp_include) = strdup(tCPP_INCLUDE_STR(t));
     tree_chain(cpp_include, include_chain);
 
-    out_file_stream = run_cpp(include_chain, "-E " EXTRA_CPP_OPTS, NULL);
+    if (!has_declarations(out_file_stream)) {
+        fclose(out_file_stream);
+        return NULL;
+    }
 
     cscriptin = out_file_stream;
 
-    reset_include_typenames();
     typename_set_include_file();
     inhibit_gc();
     ret = cscriptparse();
@@ -2935,13 +2975,16 @@ static tree eval_cpp_include(tree t, int depth)
     if (ret)
         eval_die(t, "Parsing of preprocessor output failed\n");
 
-    push_ctx("Include file declarations");
+    /* Objects of the headers that are included already stay as they are. */
+    if (include_ctx) {
+        tECTX_PARENT_CTX(include_ctx) = cur_ctx;
+        cur_ctx = include_ctx;
+    } else {
+        push_ctx("Include file declarations");
+        include_ctx = cur_ctx;
+    }
 
-    /* Delete old #include evaluator state before evaluating the parse
-     * tree for the new #includes. */
-    include_ctx = NULL;
     __evaluate(cscript_parse_head, depth + 1);
-    include_ctx = cur_ctx;
     pop_ctx();
 
     tECTX_PARENT_CTX(include_ctx) = NULL;
-- 
2.43.0


From efa31cac6505e6ba14e1cebf9aa4dff818635ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 069/102] fix: keep static objects declared in the REPL

The storage of a static object went with its declaration, and with it the
tree of the line, so that static arrays and structures were freed while the
identifier denoted them.
---
 src/evaluate.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 4e02dcf..a21c3bf 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -38,6 +38,10 @@ GC_STATIC_TREE(include_ctx);
 static tree include_chain = NULL;
 GC_STATIC_TREE(include_chain);
 
+/* Declarations of static objects, which exist until the program ends. */
+static tree static_decls = NULL;
+GC_STATIC_TREE(static_decls);
+
 const tree get_include_chain(void)
 {
     return include_chain;
@@ -1221,7 +1225,7 @@ static tree handle_forward_decl(tree type)
 
 static tree handle_static_decl(tree base_type, tree decl, int depth)
 {
-  tree decls = tDECL_DECLS(decl), i, ret = NULL;
+  tree decls = tDECL_DECLS(decl), i, keep, ret = NULL;
 
   /* See if the decl defines a function. If so, just evaluate it as normal.
    * `static' functions have no real meaning in bic. */
@@ -1255,6 +1259,12 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
 
   pop_ctx();
 
+  /* The declaration itself may be gone before the program ends, that of a line
+   * of the REPL is once the line has been evaluated. */
+  keep = tree_make(E_MAP);
+  tEMAP_RIGHT(keep) = decl;
+  tree_chain(keep, static_decls);
+
   __evaluate_1(decl, depth + 1);
 
   return ret;
@@ -3253,4 +3263,5 @@ void eval_init(void)
     push_ctx("Toplevel");
     toplevel_ctx = cur_ctx;
     include_chain = tree_make(CHAIN_HEAD);
+    static_decls = tree_make(CHAIN_HEAD);
 }
-- 
2.43.0


From 0b5fc04f2484a88a6f588da9fcd05142c4f59b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 070/102] fix: report an invalid literal at its line and go on
 in the REPL

---
 src/lex.m4 | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index efe3502..a508692 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -83,39 +83,49 @@ static void sl_append_char(char c)
     free(s);
 }
 
-static void  __attribute__((noreturn))lex_err(char *fmt, ...)
+static void lex_err(char *fmt, ...)
 {
     va_list args;
     va_start(args, fmt);
     vfprintf(stderr, fmt, args);
     va_end(args);
-
-    exit(EXIT_FAILURE);
 }
 
-static char lex_char(char *str)
+/* Find the value of the character constant `str'.  Returns zero if it
+ * isn't a valid one. */
+static int lex_char(char *str, char *val)
 {
     size_t char_str_len = strlen(str);
 
-    if (!(char_str_len == 3 || char_str_len == 4))
+    if (!(char_str_len == 3 || char_str_len == 4)) {
        lex_err("character string %s does not contain three or four chars.\n",
                str);
+       return 0;
+    }
 
-    if (str[0] != '\'')
+    if (str[0] != '\'') {
         lex_err("first char in char string %s is not a `'`.\n", str);
+        return 0;
+    }
 
-    if (str[1] != ''\\')
-        return str[1];
+    if (str[1] != ''\\') {
+        *val = str[1];
+        return 1;
+    }
 
     switch (str[2]) {
     case 'n':
-        return '\n';
+        *val = '\n';
+        return 1;
     case '\\':
-        return '\\';
+        *val = '\\';
+        return 1;
     case 'r':
-        return '\r';
+        *val = '\r';
+        return 1;
     default:
         lex_err("Unknown char escapse sequence `%c'\n", str[2]);
+        return 0;
     }
 }
 
@@ -203,7 +213,11 @@ ALL_TARGETS
                                   mpf_init_set_d(LEXLVAL.ffloat, val);
                                   return FLOAT_CST; }
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
-L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
+L?'(\\.|[^\\'\n])+'	        { char val;
+                                  if (!lex_char(LEXTEXT, &val))
+                                      return 1; /* Not C. */
+                                  mpz_init_set_si(LEXLVAL.integer, val);
+                                  return INTEGER; }
 \"                              { BEGIN str_lit; sl_begin(); }
 <str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
 <str_lit>\\n                    { sl_append_char('\n'); }
@@ -211,8 +225,10 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>\\[0-7]{1,3}             { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
 <str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
-<str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
-<str_lit>\n                     { lex_err("newline in string\n"); }
+<str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT);
+                                  BEGIN 0; return 1; /* Not C. */ }
+<str_lit>\n                     { lex_err("newline in string\n");
+                                  BEGIN 0; return 1; /* Not C. */ }
 
 <INITIAL,compound_start_cond>[ \t\r\f\v]                         /* skip whitespace */
 <INITIAL,compound_start_cond>"\n"                            {linenum++; colnum = 1;}
-- 
2.43.0


From 9f042c0ec3ecc5cd0c03686d9c73890272677ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 071/102] fix: don't print what completing an expression prints

---
 src/repl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repl.c b/src/repl.c
index 91f8414..675ca05 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -300,6 +300,10 @@ static char **bic_completion(const char *text, int start, int end)
             close(pfds[0]);
             char **local_matches = NULL;
 
+            /* What the expression prints isn't part of the session. */
+            if (!freopen("/dev/null", "w", stdout))
+                _exit(1);
+
             live_compound = get_compound_completion_object(comp_access);
 
             if (is_T_LIVE_COMPOUND(live_compound))
-- 
2.43.0


From 0507ee8bba89cb08b8e62ce0a3568cfd78fba1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 072/102] fix: don't complete names of files in the REPL

---
 src/repl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/repl.c b/src/repl.c
index 675ca05..085940b 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -272,6 +272,9 @@ static char **bic_completion(const char *text, int start, int end)
 {
     char **matches = NULL;
 
+    /* Names of files aren't a substitute if nothing matches. */
+    rl_attempted_completion_over = 1;
+
     if (is_compound_access(text)) {
         tree live_compound;
         struct completion_comp_access comp_access;
-- 
2.43.0


From 16f781fdb16e730d5430ea141db7b5504b8d8740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 073/102] fix: end argv with a null pointer

---
 src/cscript.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 3db391c..c05b5d9 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -85,14 +85,14 @@ static void create_arguments(int argc, char *argv[])
 
     chain = tree_chain_head(argc_decl);
 
-    /* char *argv[n]; */
+    /* char *argv[n + 1]; */
     tree argv_decl = tree_make(T_DECL);
     tree array = tree_make(T_ARRAY);
     tree ptr = tree_make(T_POINTER);
 
     tDECL_SPECS(argv_decl) = tree_chain_head(tree_make(T_CHAR_TS));
 
-    tARRAY_SZ(array) = get_integer(argc);
+    tARRAY_SZ(array) = get_integer(argc + 1);
     tARRAY_DECL(array) = get_identifier("argv");
     tPTR_EXP(ptr) = array;
     tDECL_DECLS(argv_decl) = ptr;
@@ -101,15 +101,17 @@ static void create_arguments(int argc, char *argv[])
 
     /* for (int i = 0; i < n; i++)
      *    argv[i] = <char * address>;
+     *
+     * argv[n] is the null pointer.
      */
-    for (int i = 0; i < argc; i++)
+    for (int i = 0; i <= argc; i++)
     {
         tree assign = tree_make(T_ASSIGN);
         tree array_access = tree_make(T_ARRAY_ACCESS);
         tARR_ACCESS_IDX(array_access) = get_integer(i);
         tARR_ACCESS_OBJ(array_access) = get_identifier("argv");
         tASSIGN_LHS(assign) = array_access;
-        tASSIGN_RHS(assign) = get_addr(argv[i]);
+        tASSIGN_RHS(assign) = get_addr(i < argc ? argv[i] : NULL);
         tree_chain(assign, chain);
     }
 
-- 
2.43.0


From 1f567579bad0030e6ab6961cb21f4bfb4bfe4536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 074/102] fix: understand quotes and backslashes in the names
 of files

---
 src/lex.m4 | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index a508692..e91ad8b 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -32,7 +32,7 @@ CSCRIPT_ONLY
     static void handle_line_marker(char *s)
     {
         static char *file_name = NULL;
-        char *end;
+        char *end, *c, *out;
 
         /* Skip the '#' and lex the line number. */
         linenum = strtol(s + 1, &s, 10) - 1;
@@ -55,6 +55,14 @@ CSCRIPT_ONLY
         free(file_name);
         file_name = strndup(s, end - s);
 
+        /* The preprocessor escapes quotes and backslashes. */
+        for (c = out = file_name; *c; c++) {
+            if (*c == '\\' && (c[1] == '"' || c[1] == '\\'))
+                c++;
+            *out++ = *c;
+        }
+        *out = '\0';
+
         TARGET()_parser_set_file(file_name);
     }
 ALL_TARGETS
@@ -197,7 +205,7 @@ REPL_ONLY
 "`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
-"`#'"[ \t]*[0-9]+[ \t]*\"[^"\n]*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
+"`#'"[ \t]*[0-9]+[ \t]*\"([^"\\\n]|\\.)*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
-- 
2.43.0


From 5b1af2857bd5d2c9596d8ace2cf5053b4b928d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 075/102] fix: escape strings in dumps

---
 src/tree-dump-primitives.h | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/tree-dump-primitives.h b/src/tree-dump-primitives.h
index c134a9c..3ac9cf9 100644
--- a/src/tree-dump-primitives.h
+++ b/src/tree-dump-primitives.h
@@ -27,10 +27,32 @@ static inline void tree_dump_flag(tree t, bool flag, enum DUMP_TYPE dt)
 
 static inline void tree_dump_string(tree t, const char *s, enum DUMP_TYPE dt)
 {
+    /* The escapes of C, whose backslashes have to be escaped themselves in a
+     * label of a graph. */
+    const char *backslash = dt == TEXTUAL ? "\\" : "\\\\";
+
     if (dt == TEXTUAL)
-        fprintf(stderr, "\"%s\"", s);
-    else
-        fprintf(stderr, "%s", s);
+        fputc('"', stderr);
+
+    for (; *s; s++) {
+        unsigned char c = *s;
+
+        if (c == '"')
+            fprintf(stderr, "%s\"", dt == TEXTUAL ? "\\" : "\\\\\\");
+        else if (c == '\\')
+            fprintf(stderr, "%s%s", backslash, backslash);
+        else if (c == '\n')
+            fprintf(stderr, "%sn", backslash);
+        else if (c == '\t')
+            fprintf(stderr, "%st", backslash);
+        else if (c < ' ' || c > '~')
+            fprintf(stderr, "%s%03o", backslash, c);
+        else
+            fputc(c, stderr);
+    }
+
+    if (dt == TEXTUAL)
+        fputc('"', stderr);
 }
 
 static inline void tree_dump_jmp_buf(tree t, jmp_buf b, enum DUMP_TYPE dt)
-- 
2.43.0


From a6be32e8b7468a5e179fb8ab9d1f48337ffea16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 076/102] fix: dump all digits of floating point constants

---
 src/tree-dump-primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree-dump-primitives.h b/src/tree-dump-primitives.h
index 3ac9cf9..65878d4 100644
--- a/src/tree-dump-primitives.h
+++ b/src/tree-dump-primitives.h
@@ -82,7 +82,7 @@ static inline void tree_dump_live_var_val(tree t, union value *v, enum DUMP_TYPE
 
 static inline void tree_dump_ffloat(tree t, mpf_t val, enum DUMP_TYPE dt)
 {
-    gmp_fprintf(stderr, "%Ff", val);
+    gmp_fprintf(stderr, "%.Ff", val);
 }
 
 static inline void tree_dump_integer(tree t, mpz_t val, enum DUMP_TYPE dt)
-- 
2.43.0


From 296319ba1dea0f1e33e5626946ee9325f9f0a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 077/102] fix: show each value of a node in graph dumps

---
 src/gendot.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gendot.cpp b/src/gendot.cpp
index e644d86..2909c36 100644
--- a/src/gendot.cpp
+++ b/src/gendot.cpp
@@ -44,13 +44,13 @@ static void outputTreeType(FILE *f, const struct TreeType &type)
             fprintf(f, "        }\n");
         } else {
             fprintf(f, "        tree_print_indent(depth);\n");
-            fprintf(f, "        fprintf(stderr, \"tree_%%p_val [label=\\\"\", head);\n");
+            fprintf(f, "        fprintf(stderr, \"tree_%%p_%s [label=\\\"\", head);\n", prop.first.c_str());
             fprintf(f, "        tree_dump_%s(head, %s(head), DOT);\n",
                     prop.second.baseType.name.c_str(), type.getPropAccessor(prop.first).c_str());
             fprintf(f, "        fprintf(stderr, \"\\\"];\\n\");\n");
             fprintf(f, "        tree_print_indent(depth);\n");
-            fprintf(f, "        fprintf(stderr, \"tree_%%p -> tree_%%p_val [label=\\\"%s\\\"];\\n\", head, head);\n",
-                    prop.first.c_str());
+            fprintf(f, "        fprintf(stderr, \"tree_%%p -> tree_%%p_%s [label=\\\"%s\\\"];\\n\", head, head);\n",
+                    prop.first.c_str(), prop.first.c_str());
         }
     }
 
-- 
2.43.0


From 7f13b969f47a7bc089e46c89afe0250ccdd218e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 078/102] fix: no edge to a missing node in graph dumps

---
 src/gendot.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gendot.cpp b/src/gendot.cpp
index 2909c36..58378b1 100644
--- a/src/gendot.cpp
+++ b/src/gendot.cpp
@@ -33,9 +33,13 @@ static void outputTreeType(FILE *f, const struct TreeType &type)
             fprintf(f, "        if (%s(head)) {\n", propAccessor.c_str());
             fprintf(f, "            tree_print_indent(depth);\n");
             fprintf(f, "            if (is_CHAIN_HEAD(%s(head))) {\n", propAccessor.c_str());
-            fprintf(f, "                tree first_member = NULL;\n");
-            fprintf(f, "                for_each_tree(first_member, %s(head)) break;\n", propAccessor.c_str());
-            fprintf(f, "                fprintf(stderr, \"tree_%%p -> tree_%%p [label=\\\"%s\\\", color=red, style=dashed];\\n\", head, first_member);\n",
+            fprintf(f, "                tree i, first_member = NULL;\n");
+            fprintf(f, "                for_each_tree(i, %s(head)) {\n", propAccessor.c_str());
+            fprintf(f, "                    first_member = i;\n");
+            fprintf(f, "                    break;\n");
+            fprintf(f, "                }\n");
+            fprintf(f, "                if (first_member)\n");
+            fprintf(f, "                    fprintf(stderr, \"tree_%%p -> tree_%%p [label=\\\"%s\\\", color=red, style=dashed];\\n\", head, first_member);\n",
                     prop.first.c_str());
             fprintf(f, "            } else\n");
             fprintf(f, "                fprintf(stderr, \"tree_%%p -> tree_%%p[label=\\\"%s\\\"];\\n\", head, %s(head));\n",
-- 
2.43.0


From eecd0a44e6c95bd06e0c5fa96b6b2c49a9e1509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 079/102] fix: understand line markers after struct and union

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index e91ad8b..553597b 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -205,7 +205,7 @@ REPL_ONLY
 "`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
-"`#'"[ \t]*[0-9]+[ \t]*\"([^"\\\n]|\\.)*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
+<INITIAL,compound_start_cond>"`#'"[ \t]*[0-9]+[ \t]*\"([^"\\\n]|\\.)*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
-- 
2.43.0


From 342cdea603c3cf25620b88a013964a1870cd11bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 080/102] fix: keep null characters in string literals

---
 src/lex.m4 | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 553597b..5f4864b 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -26,6 +26,7 @@ static int linenum = 1;
 
 
 static char *sl_buf = NULL;
+static size_t sl_len = 0;
 CSCRIPT_ONLY
     extern void TARGET()_parser_set_file(const char *fname);
 
@@ -73,22 +74,21 @@ static void sl_begin(void)
         sl_buf = malloc(1);
 
     sl_buf[0] = '\0';
+    sl_len = 0;
 }
 
-static void sl_append_str(const char *s)
+/* A literal can contain null characters. */
+static void sl_append(const char *s, size_t len)
 {
-    char *old_sl_buf = sl_buf;
-    sl_buf = concat_strings(sl_buf, s);
-    free(old_sl_buf);
+    sl_buf = realloc(sl_buf, sl_len + len + 1);
+    memcpy(sl_buf + sl_len, s, len);
+    sl_len += len;
+    sl_buf[sl_len] = '\0';
 }
 
 static void sl_append_char(char c)
 {
-    char *s = malloc(2);
-    s[0] = c;
-    s[1] = '\0';
-    sl_append_str(s);
-    free(s);
+    sl_append(&c, 1);
 }
 
 static void lex_err(char *fmt, ...)
@@ -227,12 +227,14 @@ L?'(\\.|[^\\'\n])+'	        { char val;
                                   mpz_init_set_si(LEXLVAL.integer, val);
                                   return INTEGER; }
 \"                              { BEGIN str_lit; sl_begin(); }
-<str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
+<str_lit>[^\\"\n]*              { sl_append(LEXTEXT, TARGET()leng); }
 <str_lit>\\n                    { sl_append_char('\n'); }
 <str_lit>\\t                    { sl_append_char('\t'); }
 <str_lit>\\[0-7]{1,3}             { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
-<str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
+<str_lit>\"                     { LEXLVAL.string = malloc(sl_len + 1);
+                                  memcpy(LEXLVAL.string, sl_buf, sl_len + 1);
+                                  BEGIN 0; return CONST_STRING; }
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT);
                                   BEGIN 0; return 1; /* Not C. */ }
 <str_lit>\n                     { lex_err("newline in string\n");
-- 
2.43.0


From 868d071c876be317432ee7441aa8a2f57202be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 081/102] fix: ignore attributes and asm up to their closing
 parenthesis only

---
 src/lex.m4 | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 5f4864b..fbf70ab 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -13,7 +13,6 @@ divert(0)dnl
 `#'include "util.h"
 `#'include "TARGET()parser.h"
 `#'include "typename.h"
-`#'define YY_NO_INPUT
 
 static int colnum = 1;
 static int linenum = 1;
@@ -137,6 +136,40 @@ static int lex_char(char *str, char *val)
     }
 }
 
+static int input(void);
+
+/* Skip what follows an opening parenthesis, including the closing one. */
+static void skip_parens(void)
+{
+    const char *s;
+    int c, quote = 0, depth = 1;
+
+    for (s = LEXTEXT; *s; s++)
+        if (*s == '\n') {
+            linenum++;
+            colnum = strlen(s);
+        }
+
+    while (depth && (c = input()) > 0) {
+        colnum++;
+
+        if (c == '\n') {
+            linenum++;
+            colnum = 1;
+        } else if (quote) {
+            if (c == '\\')
+                colnum += input() > 0;
+            else if (c == quote)
+                quote = 0;
+        } else if (c == '"' || c == '\'')
+            quote = c;
+        else if (c == '(')
+            depth++;
+        else if (c == ')')
+            depth--;
+    }
+}
+
 int TARGET()wrap(void) {
     return 1;
 }
@@ -154,11 +187,11 @@ X                               [0-9A-Fa-f]
 %x compound_start_cond
 
 %%
-"__attribute__"[ \t]*"((".*"))" /* Ignore attributes */
+"__attribute__"[ \t\n]*"("      skip_parens(); /* Ignore attributes */
 "_Nullable"                     /* Ignore builtin */
 "_Nonnull"                      /* Ignore builtin */
 ("__")?"restrict"               /* Ignore builtin */
-"__asm"("__")?[ \t]*"(".*")"    /* Ignore asm stmts. */
+"__asm"("__")?[ \t\n]*"("       skip_parens(); /* Ignore asm stmts. */
 "__extension__"                 /* Ignore gcc warning suppression
 * extension. */
 "volatile"                      /* Ignore volatile */
-- 
2.43.0


From 42b034136306b9cafe3a0ff4755d22e29381fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 082/102] fix: heed function and array declarators in casts and
 sizeof

---
 src/evaluate.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index a21c3bf..4a95b56 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2809,14 +2809,24 @@ static tree eval_type_specifier(tree t, int depth)
     if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type))
         type = __evaluate_1(type, depth + 1);
 
-    while (is_T_POINTER(decl)) {
-        tree ptr = tree_make(D_T_PTR);
-        tDTPTR_EXP(ptr) = type;
-        type = ptr;
-        decl = tPTR_EXP(decl);
-    }
+    for (;;) {
+        resolve_ptr_type(&decl, &type);
 
-    return type;
+        if (is_T_FN(decl)) {
+            tree fn = alloc_copy_tree(decl);
+            tFN_RET_TYPE(fn) = type;
+            decl = tFN_DECL(fn);
+            tFN_DECL(fn) = NULL;
+            type = fn;
+        } else if (is_T_ARRAY(decl)) {
+            tree array_type = tree_make(T_ARRAY_TYPE);
+            tARRAY_TYPE_BASE_TYPE(array_type) = type;
+            tARRAY_TYPE_SZ(array_type) = tARRAY_SZ(decl);
+            decl = tARRAY_DECL(decl);
+            type = array_type;
+        } else
+            return type;
+    }
 }
 
 static tree handle_addr_fn_def(tree fndef)
-- 
2.43.0


From 01b9ceea06571b715b27e693c5ef579bc89677a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 083/102] fix: understand enumerations in casts, sizeof and
 members of compounds

---
 src/evaluate.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 4a95b56..9769577 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -793,7 +793,8 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
         decl_type = resolve_decl_specs_to_type(tDECL_SPECS(decl)),
         decl_element = tDECL_DECLS(decl);
 
-    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type))
+    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type) ||
+        is_T_ENUMERATOR(decl_type))
         decl_type = __evaluate_1(decl_type, depth + 1);
 
     void *base = tLV_COMP_BASE(live_struct);
@@ -2806,7 +2807,8 @@ static tree eval_type_specifier(tree t, int depth)
     tree type =  resolve_decl_specs_to_type(tTYPE_SPECIFIER_SPECS(t)),
         decl = tTYPE_SPECIFIER_DECL(t);
 
-    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type))
+    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type) ||
+        is_T_ENUMERATOR(type))
         type = __evaluate_1(type, depth + 1);
 
     for (;;) {
-- 
2.43.0


From 653e7be29b35bb6487c185e5e0cb179cd1c0e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 084/102] fix: declare arrays for [] and initialise arrays of
 characters by copying the string

---
 src/c.lang     |   3 +-
 src/evaluate.c | 120 +++++++++++++++++++++++++++++++++++++++++++++++--
 src/lex.m4     |  15 +++++--
 src/parser.m4  |  16 +++----
 4 files changed, 138 insertions(+), 16 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index a4fe91d..0e7f8af 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -19,7 +19,8 @@
          (("VAL" ffloat)))
 
 (deftype T_STRING "Constant string" "tSTRING"
-         (("VAL" string)))
+         (("VAL" string)
+          ("LEN" sz)))
 
 (deftype T_P_INC "Increment (postfix)" "tPINC"
          ("EXP"))
diff --git a/src/evaluate.c b/src/evaluate.c
index 9769577..f9cbfa3 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -498,6 +498,71 @@ tree get_param_type(tree param)
     return is_CTYPE(type) ? type : NULL;
 }
 
+/* Declare a pointer in place of an array or a function. */
+static tree adjust_declarator(tree decl)
+{
+    tree inner, ret = decl;
+
+    switch (TYPE(decl)) {
+    case T_POINTER:
+        inner = adjust_declarator(tPTR_EXP(decl));
+        if (inner != tPTR_EXP(decl)) {
+            ret = alloc_copy_tree(decl);
+            tPTR_EXP(ret) = inner;
+        }
+        break;
+    case T_ARRAY:
+        if (is_T_IDENTIFIER(tARRAY_DECL(decl))) {
+            ret = tree_make(T_POINTER);
+            tLOCUS(ret) = tLOCUS(decl);
+            tPTR_EXP(ret) = tARRAY_DECL(decl);
+            break;
+        }
+
+        inner = adjust_declarator(tARRAY_DECL(decl));
+        if (inner != tARRAY_DECL(decl)) {
+            ret = alloc_copy_tree(decl);
+            tARRAY_DECL(ret) = inner;
+        }
+        break;
+    case T_FN:
+        if (is_T_IDENTIFIER(tFN_DECL(decl))) {
+            inner = tree_make(T_POINTER);
+            tLOCUS(inner) = tLOCUS(decl);
+            tPTR_EXP(inner) = tFN_DECL(decl);
+        } else
+            inner = adjust_declarator(tFN_DECL(decl));
+
+        if (inner != tFN_DECL(decl)) {
+            ret = alloc_copy_tree(decl);
+            tFN_DECL(ret) = inner;
+        }
+        break;
+    default:
+        break;
+    }
+
+    return ret;
+}
+
+/* Parameters that are declared as an array or a function are pointers. */
+static tree adjust_param(tree param)
+{
+    tree declarator, ret = param;
+
+    if (!is_T_DECL(param) || !tDECL_DECLS(param))
+        return param;
+
+    declarator = adjust_declarator(tDECL_DECLS(param));
+
+    if (declarator != tDECL_DECLS(param)) {
+        ret = alloc_copy_tree(param);
+        tDECL_DECLS(ret) = declarator;
+    }
+
+    return ret;
+}
+
 /* Convert the evaluated arguments of a call to a function with PARAMS to the
  * types of the corresponding parameters. */
 static void convert_fn_args(tree t, tree args, tree params)
@@ -606,7 +671,8 @@ static tree eval_fn_call(tree t, int depth)
                     arg_val = list_entry(arg_val->chain.next,
                                          typeof(*arg_val), chain);
 
-                    decl_identifier = __evaluate_1(arg_decl, depth + 1);
+                    decl_identifier = __evaluate_1(adjust_param(arg_decl),
+                                                   depth + 1);
 
                     assign = tree_make(T_ASSIGN);
                     tLOCUS(assign) = tLOCUS(t);
@@ -745,7 +811,13 @@ static void make_and_map_live_var(tree id, tree type)
 static size_t get_array_size(tree array_decl, tree base_type, int depth)
 {
     size_t sz_of_each_element = get_size_of_type(base_type, depth), no_elms;
-    tree no_elements = __evaluate_1(tARRAY_SZ(array_decl), depth + 1);
+    tree no_elements;
+
+    /* An array of unknown size. */
+    if (!tARRAY_SZ(array_decl))
+        return 0;
+
+    no_elements = __evaluate_1(tARRAY_SZ(array_decl), depth + 1);
 
     if (is_T_LIVE_VAR(no_elements))
         no_elements = make_int_from_live_var(no_elements);
@@ -881,6 +953,43 @@ static tree alloc_array(tree array_decl, tree base_type, int depth)
     return live_var;
 }
 
+/* Give an array of unknown size that's initialised by a string the size of the
+ * string. */
+static tree size_by_string(tree decl, tree init)
+{
+    tree array, sz;
+
+    if (!is_T_ARRAY(decl) || tARRAY_SZ(decl) || !is_T_STRING(init))
+        return decl;
+
+    sz = tree_make(T_INTEGER);
+    mpz_init_set_ui(tINT_VAL(sz), tSTRING_LEN(init) + 1);
+
+    array = alloc_copy_tree(decl);
+    tARRAY_SZ(array) = sz;
+
+    return array;
+}
+
+/* Initialise the array ID by the characters of a string. */
+static bool init_by_string(tree id, tree init)
+{
+    tree array = resolve_identifier(id, SCOPE_CURRENT_CTX);
+    size_t len;
+
+    if (!is_T_LIVE_VAR(array) || !tLV_IS_ARRAY(array) || !is_T_STRING(init))
+        return false;
+
+    len = tSTRING_LEN(init) + 1;
+
+    if (len > tLV_ARRAY_SZ(array))
+        len = tLV_ARRAY_SZ(array);
+
+    memcpy(tLV_VAL(array)->D_T_PTR, tSTRING_VAL(init), len);
+
+    return true;
+}
+
 static tree handle_declarator(tree decl, tree decl_type, int depth)
 {
     /* Strip off any pointer objects and add them to the base type. */
@@ -953,7 +1062,12 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         return NULL;
     case T_ASSIGN:
     {
-        tree ret = handle_declarator(tASSIGN_LHS(decl), decl_type, depth);
+        tree ret = handle_declarator(
+            size_by_string(tASSIGN_LHS(decl), tASSIGN_RHS(decl)), decl_type,
+            depth);
+
+        if (init_by_string(ret, tASSIGN_RHS(decl)))
+            return ret;
 
         /* handle_declarator will have stripped off any pointers from the decl name.
          * Therefore ret becomes the LHS of the assignment. Don't alter the
diff --git a/src/lex.m4 b/src/lex.m4
index fbf70ab..87670a5 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -90,6 +90,17 @@ static void sl_append_char(char c)
     sl_append(&c, 1);
 }
 
+static tree sl_end(void)
+{
+    tree str = tree_make(T_STRING);
+
+    tSTRING_VAL(str) = malloc(sl_len + 1);
+    memcpy(tSTRING_VAL(str), sl_buf, sl_len + 1);
+    tSTRING_LEN(str) = sl_len;
+
+    return str;
+}
+
 static void lex_err(char *fmt, ...)
 {
     va_list args;
@@ -265,9 +276,7 @@ L?'(\\.|[^\\'\n])+'	        { char val;
 <str_lit>\\t                    { sl_append_char('\t'); }
 <str_lit>\\[0-7]{1,3}             { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
-<str_lit>\"                     { LEXLVAL.string = malloc(sl_len + 1);
-                                  memcpy(LEXLVAL.string, sl_buf, sl_len + 1);
-                                  BEGIN 0; return CONST_STRING; }
+<str_lit>\"                     { BEGIN 0; LEXLVAL.tree = sl_end(); return CONST_STRING; }
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT);
                                   BEGIN 0; return 1; /* Not C. */ }
 <str_lit>\n                     { lex_err("newline in string\n");
diff --git a/src/parser.m4 b/src/parser.m4
index 0852e2c..0e38993 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -150,7 +150,7 @@ REPL_ONLY
 ALL_TARGETS
 %token <tree> TYPE_NAME
 %token <string> CONST_BITS
-%token <string> CONST_STRING
+%token <tree> CONST_STRING
 %token <integer> INTEGER;
 %token <ffloat> FLOAT_CST;
 %type <tree> primary_expression
@@ -254,10 +254,8 @@ primary_expression
 }
 | CONST_STRING
 {
-    tree str = tree_make(T_STRING);
-    tSTRING_VAL(str) = $1;
-    set_locus(str, @1);
-    $$ = str;
+    set_locus($1, @1);
+    $$ = $1;
 }
 | '(' expression ')'
 {
@@ -1138,10 +1136,10 @@ direct_declarator
 }
 | direct_declarator '[' ']'
 {
-    tree ptr = tree_make(T_POINTER);
-    tPTR_EXP(ptr) = $1;
-    set_locus(ptr, @2);
-    $$ = ptr;
+    tree array = tree_make(T_ARRAY);
+    tARRAY_DECL(array) = $1;
+    set_locus(array, @2);
+    $$ = array;
 }
 | direct_declarator '(' parameter_type_list ')'
 {
-- 
2.43.0


From f1768e2f164f300f7e3446c74ae7b668bc774c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 085/102] fix: allow static functions to be declared more than
 once

---
 src/evaluate.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index f9cbfa3..b70c036 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1338,16 +1338,36 @@ static tree handle_forward_decl(tree type)
     return id;
 }
 
+/* See if a declarator declares a function, rather than a pointer to one. */
+static bool is_fn_declarator(tree decl)
+{
+    while (is_T_POINTER(decl))
+        decl = tPTR_EXP(decl);
+
+    return is_T_FN(decl) && is_T_IDENTIFIER(tFN_DECL(decl));
+}
+
 static tree handle_static_decl(tree base_type, tree decl, int depth)
 {
   tree decls = tDECL_DECLS(decl), i, keep, ret = NULL;
+  bool has_object = false;
 
-  /* See if the decl defines a function. If so, just evaluate it as normal.
-   * `static' functions have no real meaning in bic. */
-  if (is_CHAIN_HEAD(decls))
-      for_each_tree(i, decls)
-          if (is_T_FN(i) && tFN_STMTS(i))
-              return handle_declarator(i, base_type, depth + 1);
+  /* See if the decl declares or defines functions. If so, just evaluate them as
+   * normal. `static' functions have no real meaning in bic. */
+  if (is_CHAIN_HEAD(decls)) {
+      for_each_tree(i, decls) {
+          if (is_fn_declarator(i))
+              ret = handle_declarator(i, base_type, depth + 1);
+          else
+              has_object = true;
+      }
+  } else if (is_fn_declarator(decls))
+      ret = handle_declarator(decls, base_type, depth + 1);
+  else
+      has_object = true;
+
+  if (!has_object)
+      return ret;
 
   /* This function will be called the very first time this static
    * decl is encountered.  We will change the type of tree object
@@ -1360,7 +1380,9 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
    * to construct the E_CTX object. */
   push_ctx("Static declaration");
   if (is_CHAIN_HEAD(decls)) {
-    for_each_tree(i, decls) ret = handle_declarator(i, base_type, depth);
+    for_each_tree(i, decls)
+      if (!is_fn_declarator(i))
+        ret = handle_declarator(i, base_type, depth);
   } else
     ret = handle_declarator(decls, base_type, depth);
 
-- 
2.43.0


From 6ec646d9f746dfce5ffd83b60bbe2088c619c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 086/102] fix: treat parameters of an array type as pointers

---
 src/evaluate.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index b70c036..8a247d5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -666,7 +666,7 @@ static tree eval_fn_call(tree t, int depth)
                 arg_val = arg_vals;
 
                 for_each_tree(arg_decl, arg_decls) {
-                    tree decl_identifier, assign;
+                    tree decl_identifier, param, assign;
 
                     arg_val = list_entry(arg_val->chain.next,
                                          typeof(*arg_val), chain);
@@ -674,6 +674,12 @@ static tree eval_fn_call(tree t, int depth)
                     decl_identifier = __evaluate_1(adjust_param(arg_decl),
                                                    depth + 1);
 
+                    /* A parameter of an array type is a pointer. */
+                    param = resolve_identifier(decl_identifier,
+                                               SCOPE_CURRENT_CTX);
+                    if (is_T_LIVE_VAR(param))
+                        tLV_IS_ARRAY(param) = 0;
+
                     assign = tree_make(T_ASSIGN);
                     tLOCUS(assign) = tLOCUS(t);
                     tASSIGN_LHS(assign) = decl_identifier;
-- 
2.43.0


From 3d16d1c8e836959a4f0cf18888c73233edbe72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 087/102] fix: understand members that point to functions
 returning pointers

---
 src/evaluate.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 8a247d5..41657d5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -877,14 +877,16 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 
     void *base = tLV_COMP_BASE(live_struct);
 
+    resolve_ptr_type(&decl_element, &decl_type);
+
     if (is_T_FN(decl_element)) {
         tree fn = alloc_copy_tree(decl_element);
         tFN_RET_TYPE(fn) = decl_type;
         decl_element = tFN_DECL(fn);
         decl_type = fn;
-    }
 
-    resolve_ptr_type(&decl_element, &decl_type);
+        resolve_ptr_type(&decl_element, &decl_type);
+    }
 
     if (is_T_BITFIELD(decl_element))
         decl_element = tBITFIELD_DECLARATOR(decl_element);
-- 
2.43.0


From 2493ab9d2b726e1037be8beb6250cdb95df43eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 088/102] fix: understand members and external objects of array
 typedefs

---
 src/evaluate.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 41657d5..d7c2d8f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -863,6 +863,22 @@ static tree instantiate_array(tree array_decl, tree base_type, void *base,
     return live_var;
 }
 
+/* Make the declarator of an object whose type is a typedef of an array that of
+ * the array. */
+static void resolve_array_type(tree *decl, tree *type)
+{
+    tree array;
+
+    if (!is_T_ARRAY_TYPE(*type))
+        return;
+
+    array = tree_make(T_ARRAY);
+    tARRAY_DECL(array) = *decl;
+    tARRAY_SZ(array) = tARRAY_TYPE_SZ(*type);
+    *type = tARRAY_TYPE_BASE_TYPE(*type);
+    *decl = array;
+}
+
 static tree instantiate_struct(tree struct_decl, int depth, void *base);
 
 static void instantiate_struct_element(tree decl, tree live_struct, int depth)
@@ -891,6 +907,8 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
     if (is_T_BITFIELD(decl_element))
         decl_element = tBITFIELD_DECLARATOR(decl_element);
 
+    resolve_array_type(&decl_element, &decl_type);
+
     if (is_T_ARRAY(decl_element)) {
         size_t array_sz = get_array_size(decl_element, decl_type, depth);
         live_element = instantiate_array(decl_element, decl_type,
@@ -1011,13 +1029,7 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         return decl;
     }
 
-    if (is_T_ARRAY_TYPE(decl_type)) {
-        tree array = tree_make(T_ARRAY);
-        tARRAY_DECL(array) = decl;
-        tARRAY_SZ(array) = tARRAY_TYPE_SZ(decl_type);
-        decl_type = tARRAY_TYPE_BASE_TYPE(decl_type);
-        decl = array;
-    }
+    resolve_array_type(&decl, &decl_type);
 
     if (is_T_ARRAY(decl)) {
         tree live_var = alloc_array(decl, decl_type, depth);
@@ -1210,6 +1222,8 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     if (is_T_FN(decl))
         return handle_extern_fn(extern_type, decl);
 
+    resolve_array_type(&decl, &extern_type);
+
     if (is_T_ARRAY(decl)) {
         tree id = tARRAY_DECL(decl);
         size_t array_sz = get_array_size(decl, extern_type, 0);
-- 
2.43.0


From 9376888f9ff0721b3c48622a26166d9ffe5fe317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 089/102] fix: ignore pragmas

---
 src/lex.m4 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lex.m4 b/src/lex.m4
index 87670a5..e540717 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -251,6 +251,9 @@ REPL_ONLY
 CSCRIPT_ONLY
 <INITIAL,compound_start_cond>"`#'"[ \t]*[0-9]+[ \t]*\"([^"\\\n]|\\.)*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
+
+<INITIAL,compound_start_cond>^[ \t]*"`#'"[ \t]*("pragma"|"ident")[^\n]*    /* Addressed to compilers. */
+
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
                                      return TYPE_NAME;
-- 
2.43.0


From 4df6856b55782fa1ba2854d851ea406e824d11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 090/102] fix: a line of the REPL isn't lexed in the context an
 erroneous one left

---
 src/lex.m4 | 7 +++++++
 src/repl.c | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/lex.m4 b/src/lex.m4
index e540717..4c72d4d 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -336,3 +336,10 @@ L?'(\\.|[^\\'\n])+'	        { char val;
 <<EOF>>                         { BEGIN 0; yyterminate(); }
 <*>.                            { BEGIN 0; return 1; /* Not C. */ }
 %%
+REPL_ONLY
+/* Forget the context that the line before was left in, if an error ended it. */
+void TARGET()_lex_reset(void)
+{
+    BEGIN 0;
+}
+ALL_TARGETS
diff --git a/src/repl.c b/src/repl.c
index 085940b..9ea87a6 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -38,6 +38,8 @@ extern void add_history (const char *);
 #  endif /* HAVE_READLINE_HISTORY_H */
 #endif /* HAVE_READLINE_HISTORY */
 
+void repl_lex_reset(void);
+
 tree repl_parse_head;
 GC_STATIC_TREE(repl_parse_head);
 
@@ -385,6 +387,7 @@ static tree repl_do_parse(char *line)
     tree i, ret = NULL;
 
     YY_BUFFER_STATE buffer = repl_scan_string(line);
+    repl_lex_reset();
     inhibit_gc();
     parse_result = replparse();
     enable_gc();
-- 
2.43.0


From 4ddfe3ad5a59f9771ebafa53eede180401dbaa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 091/102] fix: the keywords of C aren't tags

---
 src/lex.m4 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lex.m4 b/src/lex.m4
index 4c72d4d..33a0e4b 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -234,6 +234,11 @@ X                               [0-9A-Fa-f]
 "sizeof"			return SIZEOF;
 "static"			return STATIC;
 "struct"			{ BEGIN compound_start_cond; return STRUCT;}
+<compound_start_cond>"auto"|"break"|"case"|"char"|"continue"|"default"|"do"|"double"|"else"|"enum"|"extern"|"float"|"for"|"goto"|"if"|"int"|"_Bool"|"long"|"register"|"return"|"short"|"signed"|"sizeof"|"static"|"struct"|"switch"|"typedef"|"union"|"unsigned"|"void"|"while" {
+                        /* A keyword is not a tag. */
+                        BEGIN 0;
+                        colnum -= TARGET()leng;
+                        yyless(0); }
 <compound_start_cond>{L}({L}|{D})* {BEGIN 0;
                         LEXLVAL.tree = get_identifier(LEXTEXT);
                         return IDENTIFIER; }
-- 
2.43.0


From 9d91610a33097020993ef76d6787545725121ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 092/102] fix: a function designator is converted to a pointer
 to the function

---
 src/evaluate.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index d7c2d8f..4a8f7bd 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -406,9 +406,20 @@ unsigned long get_wrapped_int(tree integer)
     return mpz_sgn(tINT_VAL(integer)) < 0 ? -val : val;
 }
 
+static tree handle_addr_fn_def(tree fndef);
+
+/* Wherever a value is needed, a function designator is a pointer to the function. */
+static tree convert_function(tree t)
+{
+    if (is_T_EXT_FUNC(t))
+        return __evaluate_1(t, 0);
+
+    return is_T_FN(t) ? handle_addr_fn_def(t) : t;
+}
+
 static tree convert_to_comparable_type(tree t, int depth)
 {
-    tree evaluated = __evaluate_1(t, depth + 1),
+    tree evaluated = convert_function(__evaluate_1(t, depth + 1)),
         ret;
 
     if (!evaluated)
@@ -459,7 +470,7 @@ static tree eval_fn_args(tree args, int depth)
 
     for_each_tree(arg, args) {
         tree fn_arg = tree_make(T_FN_ARG);
-        tFNARG_EXP(fn_arg) = __evaluate_1(arg, depth + 1);
+        tFNARG_EXP(fn_arg) = convert_function(__evaluate_1(arg, depth + 1));
 
         if (!tFNARG_EXP(fn_arg))
             eval_die(arg, "Attempted to pass an expression without a value.\n");
@@ -1581,6 +1592,8 @@ static void assign_ptr(tree var, tree right)
 {
     void *ptr;
 
+    right = convert_function(right);
+
     /* An integer has its own size, which needn't be that of a pointer. */
     if (is_T_LIVE_VAR(right))
         right = make_int_from_live_var(right);
@@ -3020,8 +3033,8 @@ static tree eval_addr(tree t, int depth)
 
     void *addr;
 
-    if (is_T_FN(exp))
-        return handle_addr_fn_def(exp);
+    if (is_T_FN(exp) || is_T_EXT_FUNC(exp))
+        return convert_function(exp);
 
     if (!is_LIVE(exp))
         eval_die(t, "attempted to take address of non-live variable.\n");
@@ -3052,7 +3065,7 @@ static tree eval_addr(tree t, int depth)
 
 static tree eval_deref(tree t, int depth)
 {
-    tree exp = __evaluate_1(tDEREF_EXP(t), depth + 1),
+    tree exp = convert_function(__evaluate_1(tDEREF_EXP(t), depth + 1)),
         new_type, ret;
 
     if (!is_T_LIVE_VAR(exp))
-- 
2.43.0


From cd1341520cccbbc86fef6a773ca845369c2dfaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 093/102] fix: the types of members are resolved where a
 structure is defined

They were resolved anew in the scope of each object, or each access through a
pointer, where a declaration could have hidden a type, tag or array size. The
tags and enumerators that the definition contains were declared there as well,
replacing others or clashing with themselves, rather than in the scope of the
definition.
---
 src/c.lang     |   5 +-
 src/evaluate.c | 147 ++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 117 insertions(+), 35 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 0e7f8af..31b76fa 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -167,8 +167,9 @@
          ("BASE_TYPE" "SZ"))
 
 (deftype T_DECL "Declaration" "tDECL"
-         ("SPECS" "DECLS"
-          ("OFFSET" sz)))
+         ("SPECS" "DECLS" "TYPE"
+          ("OFFSET" sz)
+          ("SZ" sz)))
 
 (deftype T_TYPE_SPECIFIER "Type specifier" "tTYPE_SPECIFIER"
          ("SPECS" "DECL"))
diff --git a/src/evaluate.c b/src/evaluate.c
index 4a8f7bd..89c859d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -264,6 +264,29 @@ static tree resolve_compound(tree compound_decl,
     return __resolve_identifier(tCOMP_DECL_ID(compound_decl), scope, type);
 }
 
+/* Find a compound type that's declared in the current scope.  The declarations
+ * of a file and those of the headers it includes are in the same scope. */
+static tree resolve_declared_compound(tree compound_decl)
+{
+    tree saved_ctx = cur_ctx, file_ctxs[] = { include_ctx, toplevel_ctx },
+        result = resolve_compound(compound_decl, SCOPE_CURRENT_CTX);
+    int i;
+
+    if (cur_ctx != include_ctx && cur_ctx != toplevel_ctx)
+        return result;
+
+    for (i = 0; !result && i < 2; i++) {
+        if (!file_ctxs[i])
+            continue;
+
+        cur_ctx = file_ctxs[i];
+        result = resolve_compound(compound_decl, SCOPE_CURRENT_CTX);
+        cur_ctx = saved_ctx;
+    }
+
+    return result;
+}
+
 tree find_global_identifiers(const char *prefix)
 {
     tree chain = tree_make(CHAIN_HEAD),
@@ -895,12 +918,11 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base);
 static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 {
     tree live_element,
-        decl_type = resolve_decl_specs_to_type(tDECL_SPECS(decl)),
+        decl_type = tDECL_TYPE(decl),
         decl_element = tDECL_DECLS(decl);
 
-    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type) ||
-        is_T_ENUMERATOR(decl_type))
-        decl_type = __evaluate_1(decl_type, depth + 1);
+    if (!decl_element)
+        return;
 
     void *base = tLV_COMP_BASE(live_struct);
 
@@ -921,10 +943,9 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
     resolve_array_type(&decl_element, &decl_type);
 
     if (is_T_ARRAY(decl_element)) {
-        size_t array_sz = get_array_size(decl_element, decl_type, depth);
         live_element = instantiate_array(decl_element, decl_type,
                                          base + tDECL_OFFSET(decl),
-                                         array_sz);
+                                         tDECL_SZ(decl));
 
         __map_identifer(tARRAY_DECL(decl_element), live_element,
                         tLV_COMP_MEMBERS(live_struct));
@@ -1361,7 +1382,7 @@ static tree handle_forward_decl(tree type)
 
     /* If the declaration already exists, don't attempt to map it
      * again. */
-    if (resolve_compound(type, SCOPE_GLOBAL))
+    if (resolve_declared_compound(type))
         return id;
 
     tree forward_decl = tree_make(E_INCOMP_TYPE);
@@ -1440,6 +1461,19 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
   return ret;
 }
 
+/* Find the type which some declaration specifiers denote. */
+static tree eval_decl_type(tree specs, int depth)
+{
+    tree type = resolve_decl_specs_to_type(specs);
+
+    /* Resolve any type names or compound declarators. */
+    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type) ||
+        is_T_ENUMERATOR(type))
+        type = __evaluate_1(type, depth + 1);
+
+    return type;
+}
+
 static tree eval_decl(tree t, int depth)
 {
     tree decl_specs = tDECL_SPECS(t),
@@ -1451,10 +1485,7 @@ static tree eval_decl(tree t, int depth)
         tCOMP_DECL_DECLS(decl_type) == NULL)
         return handle_forward_decl(decl_type);
 
-    /* Resolve any type names or compound declarators. */
-    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type)
-        || is_T_ENUMERATOR(decl_type))
-        decl_type = __evaluate_1(decl_type, depth + 1);
+    decl_type = eval_decl_type(decl_specs, depth);
 
     if (chain_has_T_TYPEDEF(decl_specs))
         return handle_typedef(decl_type, decls, depth + 1);
@@ -2614,6 +2645,18 @@ static tree eval_return(tree t, int depth)
     return ret;
 }
 
+static void chain_member(tree chain, tree decl, tree declarator, tree type)
+{
+    tree member = tree_make(T_DECL);
+
+    tLOCUS(member) = tLOCUS(decl);
+    tDECL_SPECS(member) = tDECL_SPECS(decl);
+    tDECL_DECLS(member) = declarator;
+    tDECL_TYPE(member) = type;
+
+    tree_chain(member, chain);
+}
+
 /* Build a simplified decl chain, ensuring all decls with multiple
  * identifiers are split.
  *
@@ -2635,27 +2678,39 @@ static tree eval_return(tree t, int depth)
  *         char *e;
  *         char f;
  *     };
+ *
+ * The type of the members is resolved here, in the scope of the compound's
+ * definition.  That also declares any tags and enumerators which the specifiers
+ * define.
  */
-static tree expand_decl_chain(tree decl_chain)
+static tree expand_decl_chain(tree decl_chain, int depth)
 {
     tree tmp, decl, declarator, new_chain = tree_make(CHAIN_HEAD);
 
     for_each_tree_safe(decl, tmp, decl_chain) {
-        if (is_T_DECL(decl) && tDECL_DECLS(decl))
-            for_each_tree(declarator, tDECL_DECLS(decl)) {
-                tree new_decl = tree_make(T_DECL);
+        bool has_member = false;
+        tree type;
+
+        if (!is_T_DECL(decl))
+            continue;
+
+        type = eval_decl_type(tDECL_SPECS(decl), depth);
 
+        if (tDECL_DECLS(decl))
+            for_each_tree(declarator, tDECL_DECLS(decl)) {
                 /* If `declarator` is an unnamed bitfield skip over it. Since,
                  * for now, we just make each bitfield a member in it's own
                  * right. */
                 if (is_T_BITFIELD(declarator) && !tBITFIELD_DECLARATOR(declarator))
                     continue;
 
-                tDECL_SPECS(new_decl) = tDECL_SPECS(decl);
-                tDECL_DECLS(new_decl) = declarator;
-
-                tree_chain(new_decl, new_chain);
+                chain_member(new_chain, decl, declarator, type);
+                has_member = true;
             }
+
+        /* Keep a declaration without members, it might define types. */
+        if (!has_member)
+            chain_member(new_chain, decl, NULL, type);
     }
 
     return new_chain;
@@ -2690,9 +2745,20 @@ static size_t round_up(size_t sz, size_t alignment)
     return (sz + alignment - 1) & ~(alignment - 1);
 }
 
+/* Evaluate the definition of a structure, union or enumeration in some
+ * declaration specifiers, if there is one. */
+static void eval_type_definition(tree specs, int depth)
+{
+    tree type = resolve_decl_specs_to_type(specs);
+
+    if ((is_T_DECL_COMPOUND(type) && tCOMP_DECL_DECLS(type)) ||
+        (is_T_ENUMERATOR(type) && tENUM_ENUMS(type)))
+        __evaluate_1(type, depth + 1);
+}
+
 static tree eval_decl_compound(tree t, int depth)
 {
-    tree i, struct_id = tCOMP_DECL_ID(t);
+    tree i, specs = NULL, struct_id = tCOMP_DECL_ID(t);
     size_t offset = 0, max_member_sz = 0, max_alignment = 1;
 
     /* We can arrive here if something like the following code is evaluated:
@@ -2718,22 +2784,37 @@ static tree eval_decl_compound(tree t, int depth)
      * unresolved decl and use that as our new 't' so all referencies
      * to it will be updated.*/
     if (struct_id) {
-        tree forward_decl = resolve_compound(t, SCOPE_CURRENT_CTX);
+        tree forward_decl = resolve_declared_compound(t);
+
+        if (forward_decl == t)
+            return t;
 
-        if (forward_decl) {
+        if (is_E_INCOMP_TYPE(forward_decl)) {
             tree_copy(forward_decl, t);
             t = forward_decl;
-        } else
+        } else if (forward_decl)
+            eval_die(t, "Attempted to redefine compound type %s.\n",
+                     tID_STR(struct_id));
+        else
             map_compound(t, t);
     }
 
-    /* Don't attempt to expand an already expanded struct. */
-    if (tCOMP_DECL_EXPANDED(t))
+    /* Don't attempt to expand an already expanded struct. The types that are
+     * defined within it still need to be declared in this scope. */
+    if (tCOMP_DECL_EXPANDED(t)) {
+        for_each_tree(i, tCOMP_DECL_DECLS(t)) {
+            if (tDECL_SPECS(i) != specs)
+                eval_type_definition(tDECL_SPECS(i), depth);
+
+            specs = tDECL_SPECS(i);
+        }
+
         return t;
+    }
 
     /* Expand the compound decl chain so each decl can have it's own
      * offset.  */
-    tCOMP_DECL_DECLS(t) = expand_decl_chain(tCOMP_DECL_DECLS(t));
+    tCOMP_DECL_DECLS(t) = expand_decl_chain(tCOMP_DECL_DECLS(t), depth);
 
     /* Populate the decls with their offsets, as well as the total
      * size of the compound. */
@@ -2741,19 +2822,17 @@ static tree eval_decl_compound(tree t, int depth)
         tree id, live_var, decl = i;
         size_t member_size, member_alignment;
 
+        if (!tDECL_DECLS(decl))
+            continue;
+
         /* To calculate the size of each element of the compound, we
          * temporarily push the evaluation ctx, evaluate each decl
          * within the new evaluation ctx, resolve the identifier back
          * to it's live var and finally pass that through a sizeof()
-         * evaluation.
-         *
-         * NOTE: we don't evaluate the types of the decls here as we
-         * could create a loop back to ourselves (when declaring a
-         * pointer to the same struct).  Instead, we evaluate all decl
-         * types at struct installation time. */
+         * evaluation. */
         push_ctx("Compound Declaration");
 
-        id = __evaluate_1(decl, depth + 1);
+        id = handle_declarator(tDECL_DECLS(decl), tDECL_TYPE(decl), depth);
 
         live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
@@ -2768,6 +2847,8 @@ static tree eval_decl_compound(tree t, int depth)
         member_size = get_size_of_type(live_var, depth);
         member_alignment = get_alignment_for_type(live_var, depth);
 
+        tDECL_SZ(decl) = member_size;
+
         if (member_alignment > max_alignment)
             max_alignment = member_alignment;
 
-- 
2.43.0


From 1f3ad16d18ae42c4c47466df7c7787ee950a1026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:11 +0000
Subject: [PATCH 094/102] fix: the size of an array type is found where a
 typedef declares it

---
 src/evaluate.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 89c859d..c3969ac 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -848,14 +848,13 @@ static void make_and_map_live_var(tree id, tree type)
     map_identifier(id, live_var);
 }
 
-static size_t get_array_size(tree array_decl, tree base_type, int depth)
+/* Find the number of elements of an array, NULL if it's unknown. */
+static tree get_no_elements(tree array_decl, int depth)
 {
-    size_t sz_of_each_element = get_size_of_type(base_type, depth), no_elms;
     tree no_elements;
 
-    /* An array of unknown size. */
     if (!tARRAY_SZ(array_decl))
-        return 0;
+        return NULL;
 
     no_elements = __evaluate_1(tARRAY_SZ(array_decl), depth + 1);
 
@@ -868,6 +867,18 @@ static size_t get_array_size(tree array_decl, tree base_type, int depth)
     if (mpz_sgn(tINT_VAL(no_elements)) < 0)
         eval_die(array_decl, "Attempted to create array with negative size\n");
 
+    return no_elements;
+}
+
+static size_t get_array_size(tree array_decl, tree base_type, int depth)
+{
+    size_t sz_of_each_element = get_size_of_type(base_type, depth), no_elms;
+    tree no_elements = get_no_elements(array_decl, depth);
+
+    /* An array of unknown size. */
+    if (!no_elements)
+        return 0;
+
     no_elms = mpz_get_ui(tINT_VAL(no_elements));
 
     return sz_of_each_element * no_elms;
@@ -1157,7 +1168,7 @@ static tree map_typedef(tree id, tree type)
     if (is_T_ARRAY(id)) {
         tree array_type = tree_make(T_ARRAY_TYPE);
         tARRAY_TYPE_BASE_TYPE(array_type) = type;
-        tARRAY_TYPE_SZ(array_type) = tARRAY_SZ(id);
+        tARRAY_TYPE_SZ(array_type) = get_no_elements(id, 0);
         id = tARRAY_DECL(id);
         type = array_type;
     }
-- 
2.43.0


From 6d21169fa1c380c6754731b19a9f2bbeb532628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 095/102] fix: anonymous structures and unions have members

They were left out of the structure they're a member of.
---
 src/evaluate.c | 58 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c3969ac..5085f0f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -926,16 +926,37 @@ static void resolve_array_type(tree *decl, tree *type)
 
 static tree instantiate_struct(tree struct_decl, int depth, void *base);
 
+static bool is_anonymous_compound(tree decl)
+{
+    tree type = tDECL_TYPE(decl);
+
+    return !tDECL_DECLS(decl) && is_T_DECL_COMPOUND(type) &&
+        !tCOMP_DECL_ID(type);
+}
+
 static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 {
     tree live_element,
         decl_type = tDECL_TYPE(decl),
         decl_element = tDECL_DECLS(decl);
 
-    if (!decl_element)
+    void *base = tLV_COMP_BASE(live_struct);
+
+    /* The members of an anonymous compound are those of the one it's in. */
+    if (is_anonymous_compound(decl)) {
+        tree member;
+
+        live_element = instantiate_struct(decl_type, depth,
+                                          base + tDECL_OFFSET(decl));
+
+        for_each_tree(member, tLV_COMP_MEMBERS(live_element))
+            __map_identifer(tEMAP_LEFT(member), tEMAP_RIGHT(member),
+                            tLV_COMP_MEMBERS(live_struct));
         return;
+    }
 
-    void *base = tLV_COMP_BASE(live_struct);
+    if (!decl_element)
+        return;
 
     resolve_ptr_type(&decl_element, &decl_type);
 
@@ -2833,19 +2854,27 @@ static tree eval_decl_compound(tree t, int depth)
         tree id, live_var, decl = i;
         size_t member_size, member_alignment;
 
-        if (!tDECL_DECLS(decl))
-            continue;
+        if (is_anonymous_compound(decl)) {
+            member_size = tCOMP_DECL_SZ(tDECL_TYPE(decl));
+            member_alignment = tCOMP_DECL_ALIGN(tDECL_TYPE(decl));
+        } else if (tDECL_DECLS(decl)) {
+            /* To calculate the size of each element of the compound, we
+             * temporarily push the evaluation ctx, evaluate each decl
+             * within the new evaluation ctx, resolve the identifier back
+             * to it's live var and finally pass that through a sizeof()
+             * evaluation. */
+            push_ctx("Compound Declaration");
 
-        /* To calculate the size of each element of the compound, we
-         * temporarily push the evaluation ctx, evaluate each decl
-         * within the new evaluation ctx, resolve the identifier back
-         * to it's live var and finally pass that through a sizeof()
-         * evaluation. */
-        push_ctx("Compound Declaration");
+            id = handle_declarator(tDECL_DECLS(decl), tDECL_TYPE(decl), depth);
 
-        id = handle_declarator(tDECL_DECLS(decl), tDECL_TYPE(decl), depth);
+            live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
-        live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
+            member_size = get_size_of_type(live_var, depth);
+            member_alignment = get_alignment_for_type(live_var, depth);
+
+            pop_ctx();
+        } else
+            continue;
 
         /* Calculate the offset of the member within the struct.
          *
@@ -2855,9 +2884,6 @@ static tree eval_decl_compound(tree t, int depth)
          * must be a multiple of that so the elements of an array of
          * it are aligned.
          */
-        member_size = get_size_of_type(live_var, depth);
-        member_alignment = get_alignment_for_type(live_var, depth);
-
         tDECL_SZ(decl) = member_size;
 
         if (member_alignment > max_alignment)
@@ -2871,8 +2897,6 @@ static tree eval_decl_compound(tree t, int depth)
             if (member_size > max_member_sz)
                 max_member_sz = member_size;
         }
-
-        pop_ctx();
     }
 
     if (tCOMP_DECL_TYPE(t) == sstruct)
-- 
2.43.0


From 7a90b477521a828a7bafdc0d877015ae13e40155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 096/102] fix: a static declaration declares its tags and
 enumerators each time

Only its objects were declared when the declaration was evaluated again, as it
is when a function is called again.
---
 src/c.lang     |  2 +-
 src/evaluate.c | 28 ++++++++++++++--------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 31b76fa..542666a 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -167,7 +167,7 @@
          ("BASE_TYPE" "SZ"))
 
 (deftype T_DECL "Declaration" "tDECL"
-         ("SPECS" "DECLS" "TYPE"
+         ("SPECS" "DECLS" "TYPE" "OBJECTS"
           ("OFFSET" sz)
           ("SZ" sz)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index 5085f0f..de7b168 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1435,9 +1435,12 @@ static bool is_fn_declarator(tree decl)
 
 static tree handle_static_decl(tree base_type, tree decl, int depth)
 {
-  tree decls = tDECL_DECLS(decl), i, keep, ret = NULL;
+  tree decls = tDECL_DECLS(decl), i, objects, keep, ret = NULL;
   bool has_object = false;
 
+  if (tDECL_OBJECTS(decl))
+      return __evaluate_1(tDECL_OBJECTS(decl), depth + 1);
+
   /* See if the decl declares or defines functions. If so, just evaluate them as
    * normal. `static' functions have no real meaning in bic. */
   if (is_CHAIN_HEAD(decls)) {
@@ -1456,10 +1459,9 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
       return ret;
 
   /* This function will be called the very first time this static
-   * decl is encountered.  We will change the type of tree object
-   * here from a T_DECL to an E_CTX so subsequent evaluations of
-   * this object result in the static objects being found from the
-   * map (see eval_evaluator_ctx).
+   * decl is encountered.  We will keep an E_CTX in the T_DECL here
+   * so subsequent evaluations of this object result in the static
+   * objects being found from the map (see eval_evaluator_ctx).
    *
    * For this to work, we push a temporary context, evaluate all
    * decls and retain the id_map and alloc chain.  We then use them
@@ -1472,23 +1474,21 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
   } else
     ret = handle_declarator(decls, base_type, depth);
 
-  TYPE(decl) = E_CTX;
-
-  tECTX_ID_MAP(decl) = tECTX_ID_MAP(cur_ctx);
-  tECTX_ALLOC_CHAIN(decl) = tECTX_ALLOC_CHAIN(cur_ctx);
-  tECTX_PARENT_CTX(decl) = NULL;
-  tECTX_NAME(decl) = get_identifier("Static declaration");
-  tECTX_IS_STATIC(decl) = 1;
+  objects = cur_ctx;
+  tECTX_IS_STATIC(objects) = 1;
 
   pop_ctx();
 
+  tECTX_PARENT_CTX(objects) = NULL;
+  tDECL_OBJECTS(decl) = objects;
+
   /* The declaration itself may be gone before the program ends, that of a line
    * of the REPL is once the line has been evaluated. */
   keep = tree_make(E_MAP);
-  tEMAP_RIGHT(keep) = decl;
+  tEMAP_RIGHT(keep) = objects;
   tree_chain(keep, static_decls);
 
-  __evaluate_1(decl, depth + 1);
+  __evaluate_1(objects, depth + 1);
 
   return ret;
 }
-- 
2.43.0


From b68825338afba48a670108944182e7d2975cfe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:45 +0000
Subject: [PATCH 097/102] fix: increment and decrement objects of floating
 types

The value of ++ and -- was always made an integer, which objects of
floating types can not become.
---
 src/evaluate.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index de7b168..fe09b6c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1780,13 +1780,20 @@ static tree make_rvalue(tree var)
 {
     tree ret;
 
-    if (!is_ptr_live_var(var))
+    switch (TYPE(tLV_TYPE(var))) {
+#define COPYVAL(type)                                   \
+    case type:                                          \
+        ret = make_live_var(tLV_TYPE(var));             \
+        tLV_VAL(ret)->type = tLV_VAL(var)->type;        \
+        return ret;
+    COPYVAL(D_T_PTR);
+    COPYVAL(D_T_FLOAT);
+    COPYVAL(D_T_DOUBLE);
+    COPYVAL(D_T_LONGDOUBLE);
+#undef COPYVAL
+    default:
         return make_int_from_live_var(var);
-
-    ret = make_live_var(tLV_TYPE(var));
-    tLV_VAL(ret)->D_T_PTR = tLV_VAL(var)->D_T_PTR;
-
-    return ret;
+    }
 }
 
 static void live_var_add(tree var, unsigned long int val)
-- 
2.43.0


From 7710060e27c7f68df60276df1cd18145707463cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:38 +0000
Subject: [PATCH 098/102] fix: atexit and alloca may be declared without extern

---
 src/evaluate.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index fe09b6c..4fa395e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -628,6 +628,8 @@ static void convert_fn_args(tree t, tree args, tree params)
     }
 }
 
+static void *resolve_function(tree id);
+
 static tree eval_fn_call(tree t, int depth)
 {
     /* There are five possibilities here:
@@ -752,7 +754,7 @@ static tree eval_fn_call(tree t, int depth)
             tree fn_arg_chain = NULL, args = tFNCALL_ARGS(t);
             char *function_name = tID_STR(tFN_DECL(function));
             tree i;
-            void *function_address = dlsym(RTLD_DEFAULT, function_name);
+            void *function_address = resolve_function(tFN_DECL(function));
             bool is_variadic = false;
             int variadic_pos = 0;
             tree ret_lv = NULL;
@@ -1334,14 +1336,10 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     return id;
 }
 
-static tree eval_ext_func(tree t, int depth)
+/* Find the address of an external function, or NULL if there isn't one. */
+static void *resolve_function(tree id)
 {
     void *func_addr;
-    tree live_var, func_ptr_type, id;
-
-    func_ptr_type = tree_make(D_T_PTR);
-    tDTPTR_EXP(func_ptr_type) = tEXT_FUNC_FN(t);
-    id = tFN_DECL(tEXT_FUNC_FN(t));
 
     /* Intercept calls to alloca, atexit and at_quick_exit to provide
      * our own implementation of these functions.. */
@@ -1356,6 +1354,20 @@ static tree eval_ext_func(tree t, int depth)
     else
         func_addr = dlsym(RTLD_DEFAULT, tID_STR(id));
 
+    return func_addr;
+}
+
+static tree eval_ext_func(tree t, int depth)
+{
+    void *func_addr;
+    tree live_var, func_ptr_type, id;
+
+    func_ptr_type = tree_make(D_T_PTR);
+    tDTPTR_EXP(func_ptr_type) = tEXT_FUNC_FN(t);
+    id = tFN_DECL(tEXT_FUNC_FN(t));
+
+    func_addr = resolve_function(id);
+
     if (!func_addr)
         eval_die(t, "Could not resolve external function %s\n",
                  tID_STR(id));
-- 
2.43.0


From 23359006be52f6bda84c438d50bf6f5e19c18e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:49 +0000
Subject: [PATCH 099/102] fix: alloca of the headers is __builtin_alloca

---
 src/evaluate.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 4fa395e..746a4da 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -3558,6 +3558,16 @@ static tree handle_builtin_strcat_chk(tree args)
     return __evaluate_1(fncall, 0);
 }
 
+static tree handle_builtin_alloca(tree args)
+{
+    /* Transform into a normal call to alloca, for which we provide our own
+     * implementation. */
+    tree fncall = tree_make(T_FN_CALL);
+    tFNCALL_ID(fncall) = get_identifier("alloca");
+    tFNCALL_ARGS(fncall) = args;
+    return __evaluate_1(fncall, 0);
+}
+
 static void eval_init_builtins(void)
 {
     map_identifier(get_identifier(strdup("__builtin_va_list")),
@@ -3572,6 +3582,10 @@ static void eval_init_builtins(void)
     tBUILTIN_HANDLER(strcat_builtin) = &handle_builtin_strcat_chk;
     map_identifier(get_identifier("__builtin___strcat_chk"),
                    strcat_builtin);
+
+    tree alloca_builtin = tree_make(T_BUILTIN);
+    tBUILTIN_HANDLER(alloca_builtin) = &handle_builtin_alloca;
+    map_identifier(get_identifier("__builtin_alloca"), alloca_builtin);
 }
 
 void eval_init(void)
-- 
2.43.0


From a94b982a473f4f75b53122fb746542572bf98184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 100/102] fix: accept scripts and startup files without
 declarations

---
 src/parser.m4 | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser.m4 b/src/parser.m4
index 0e38993..6893340 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -225,6 +225,7 @@ CSCRIPT_ONLY
     %type <tree> declaration_list
 CSCRIPT_ONLY
     %type <tree> cscript_external_declaration
+    %type <tree> cscript_external_declaration_list
 ALL_TARGETS
 
 %%
@@ -1672,12 +1673,21 @@ CSCRIPT_ONLY
     ;
 
     cscript_translation_unit
+    : %empty
+    {
+        TARGET()_parse_head = NULL;
+        $$ = NULL;
+    }
+    | cscript_external_declaration_list
+    ;
+
+    cscript_external_declaration_list
     : cscript_external_declaration
     {
         TARGET()_parse_head = tree_chain_head($1);
         $$ = TARGET()_parse_head;
     }
-    | cscript_translation_unit cscript_external_declaration
+    | cscript_external_declaration_list cscript_external_declaration
     {
         tree_chain($2, $1);
     }
-- 
2.43.0


From 20e9915b1cf33dcc04b7665afc6682b6c6404031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 101/102] fix: a completion that fails doesn't run the exit
 handlers of the session

---
 src/repl.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/repl.c b/src/repl.c
index 9ea87a6..0cf1e75 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -270,6 +270,11 @@ static char **recieve_matches(int fd)
     return ret;
 }
 
+static void leave_child(void)
+{
+    _exit(0);
+}
+
 static char **bic_completion(const char *text, int start, int end)
 {
     char **matches = NULL;
@@ -309,6 +314,11 @@ static char **bic_completion(const char *text, int start, int end)
             if (!freopen("/dev/null", "w", stdout))
                 _exit(1);
 
+            /* Should evaluating the expression end the child, the exit handlers
+             * of the session must not run. */
+            if (atexit(leave_child))
+                _exit(1);
+
             live_compound = get_compound_completion_object(comp_access);
 
             if (is_T_LIVE_COMPOUND(live_compound))
-- 
2.43.0


From 091854cf66868e506a464a0cebcd963b8868cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 102/102] fix: lines of the REPL may contain comments

Unlike the second pass, the first one, which looks for #include, reads a
line that isn't preprocessed, so that any line with a comment was refused.
---
 src/lex.m4 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lex.m4 b/src/lex.m4
index 33a0e4b..c957521 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -253,6 +253,8 @@ X                               [0-9A-Fa-f]
 REPL_ONLY
 "`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
+<INITIAL,compound_start_cond>"/*"([^*]|"*"+[^*/])*"*"+"/"      /* The first pass sees comments. */
+<INITIAL,compound_start_cond>"//"[^\n]*
 CSCRIPT_ONLY
 <INITIAL,compound_start_cond>"`#'"[ \t]*[0-9]+[ \t]*\"([^"\\\n]|\\.)*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
-- 
2.43.0

