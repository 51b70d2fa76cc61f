From 2c597f2e7bd278a7e1e2d055c8aa3047c44cd8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 001/182] Add a guarded model-checking hook for garbage
 collection points

---
 src/vm/memory.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vm/memory.c b/src/vm/memory.c
index c682a73..7c1dc75 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -12,6 +12,12 @@
 
 #define GC_HEAP_GROW_FACTOR 2
 
+#ifdef DICTU_MC_HOOKS
+// Model checking hook: when set, it is consulted at every growing allocation
+// and decides whether a garbage collection happens at that point.
+bool (*dictuMcGcPoint)(void) = NULL;
+#endif
+
 void *reallocate(DictuVM *vm, void *previous, size_t oldSize, size_t newSize) {
     vm->bytesAllocated += newSize - oldSize;
 
@@ -24,6 +30,12 @@ void *reallocate(DictuVM *vm, void *previous, size_t oldSize, size_t newSize) {
         collectGarbage(vm);
 #endif
 
+#ifdef DICTU_MC_HOOKS
+        if (dictuMcGcPoint != NULL && dictuMcGcPoint()) {
+            collectGarbage(vm);
+        }
+#endif
+
         if (vm->bytesAllocated > vm->nextGC) {
             collectGarbage(vm);
         }
-- 
2.43.0


From 52f57a97720b44d1f8c361049e15bb7d0fc904a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 002/182] fix: fold only operands that really are constants,
 and raise to powers in double precision

foldBinary looked at the last four bytes, so 'x - 2 - 3' could fold the operand of
another instruction and 'not not true' toggled the wrong value; powf lost precision.
---
 src/vm/compiler.c | 58 ++++++++++++++++++++++++++++++-----------------
 src/vm/compiler.h |  1 +
 src/vm/vm.c       |  2 +-
 3 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 08d0cab..b8cde92 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -137,7 +137,10 @@ static uint8_t makeConstant(Compiler *compiler, Value value) {
 }
 
 static void emitConstant(Compiler *compiler, Value value) {
+    int offset = currentChunk(compiler)->count;
+
     emitBytes(compiler, OP_CONSTANT, makeConstant(compiler, value));
+    compiler->lastConstant = offset;
 }
 
 // Replaces the placeholder argument for a previous CODE_JUMP or
@@ -163,6 +166,7 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     compiler->class = NULL;
     compiler->loop = NULL;
     compiler->withBlock = false;
+    compiler->lastConstant = -1;
     compiler->classAnnotations = NULL;
     compiler->methodAnnotations = NULL;
     compiler->fieldAnnotations = NULL;
@@ -488,20 +492,25 @@ static void and_(Compiler *compiler, LangToken previousToken, bool canAssign) {
     patchJump(compiler, endJump);
 }
 
-static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
+// Fold "constant op constant". The left operand must be exactly the constant loaded
+// at rightStart - 2 and the right operand exactly the one loaded at rightStart.
+static bool foldBinary(Compiler *compiler, LangTokenType operatorType, int rightStart) {
+    if (compiler->lastConstant != rightStart || currentChunk(compiler)->count != rightStart + 2) {
+        return false;
+    }
+
 #define FOLD(operator)                                                         \
     do {                                                                       \
         Chunk *chunk = currentChunk(compiler);                                 \
         uint8_t index = chunk->code[chunk->count - 1];                         \
         uint8_t constant = chunk->code[chunk->count - 3];                      \
-        if (chunk->code[chunk->count - 2] != OP_CONSTANT) return false;        \
-        if (chunk->code[chunk->count - 4] != OP_CONSTANT) return false;        \
         chunk->constants.values[constant] = NUMBER_VAL(                        \
             AS_NUMBER(chunk->constants.values[constant]) operator              \
             AS_NUMBER(chunk->constants.values[index])                          \
         );                                                                     \
         chunk->constants.count--;                                              \
         chunk->count -= 2;                                                     \
+        compiler->lastConstant = chunk->count - 2;                             \
         return true;                                                           \
     } while (false)
 
@@ -510,8 +519,6 @@ static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
         Chunk *chunk = currentChunk(compiler);                                 \
         uint8_t index = chunk->code[chunk->count - 1];                         \
         uint8_t constant = chunk->code[chunk->count - 3];                      \
-        if (chunk->code[chunk->count - 2] != OP_CONSTANT) return false;        \
-        if (chunk->code[chunk->count - 4] != OP_CONSTANT) return false;        \
         chunk->constants.values[constant] = NUMBER_VAL(                        \
             func(                                                              \
                 AS_NUMBER(chunk->constants.values[constant]),                  \
@@ -520,6 +527,7 @@ static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
         );                                                                     \
         chunk->constants.count--;                                              \
         chunk->count -= 2;                                                     \
+        compiler->lastConstant = chunk->count - 2;                             \
         return true;                                                           \
     } while (false)
 
@@ -550,7 +558,7 @@ static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
         }
 
         case TOKEN_STAR_STAR: {
-            FOLD_FUNC(powf);
+            FOLD_FUNC(pow);
             return false;
         }
 
@@ -567,15 +575,18 @@ static void binary(Compiler *compiler, LangToken previousToken, bool canAssign)
 
     LangTokenType operatorType = compiler->parser->previous.type;
 
+    // Is the left operand nothing but a constant load?
+    int rightStart = currentChunk(compiler)->count;
+    bool leftConstant = rightStart >= 2 && compiler->lastConstant == rightStart - 2;
+
     ParseRule *rule = getRule(operatorType);
     parsePrecedence(compiler, (Precedence) (rule->precedence + 1));
 
     LangTokenType currentToken = compiler->parser->previous.type;
 
     // Attempt constant fold.
-    if ((previousToken.type == TOKEN_NUMBER) &&
-        (currentToken == TOKEN_NUMBER || currentToken == TOKEN_LEFT_PAREN) &&
-        foldBinary(compiler, operatorType)
+    if ((previousToken.type == TOKEN_NUMBER) && currentToken == TOKEN_NUMBER && leftConstant &&
+        foldBinary(compiler, operatorType, rightStart)
             ) {
         return;
     }
@@ -1400,18 +1411,21 @@ static void useStatement(Compiler *compiler) {
     consume(compiler, TOKEN_SEMICOLON, "Expect ';' after use statement.");
 }
 
-static bool foldUnary(Compiler *compiler, LangTokenType operatorType) {
+// Fold "op constant". The operand must be nothing but the one instruction at operandStart.
+static bool foldUnary(Compiler *compiler, LangTokenType operatorType, int operandStart) {
+    Chunk *chunk = currentChunk(compiler);
     LangTokenType valueToken = compiler->parser->previous.type;
 
     switch (operatorType) {
         case TOKEN_NOT: {
-            if (valueToken == TOKEN_TRUE) {
-                Chunk *chunk = currentChunk(compiler);
-                chunk->code[chunk->count - 1] = OP_FALSE;
-                return true;
-            } else if (valueToken == TOKEN_FALSE) {
-                Chunk *chunk = currentChunk(compiler);
-                chunk->code[chunk->count - 1] = OP_TRUE;
+            if (chunk->count != operandStart + 1) {
+                return false;
+            }
+
+            uint8_t *code = &chunk->code[operandStart];
+
+            if ((valueToken == TOKEN_TRUE || valueToken == TOKEN_FALSE) && (*code == OP_TRUE || *code == OP_FALSE)) {
+                *code = *code == OP_TRUE ? OP_FALSE : OP_TRUE;
                 return true;
             }
 
@@ -1419,9 +1433,9 @@ static bool foldUnary(Compiler *compiler, LangTokenType operatorType) {
         }
 
         case TOKEN_MINUS: {
-            if (valueToken == TOKEN_NUMBER) {
-                Chunk *chunk = currentChunk(compiler);
-                uint8_t constant = chunk->code[chunk->count - 1];
+            if (valueToken == TOKEN_NUMBER && chunk->count == operandStart + 2 &&
+                compiler->lastConstant == operandStart) {
+                uint8_t constant = chunk->code[operandStart + 1];
                 chunk->constants.values[constant] = NUMBER_VAL(-AS_NUMBER(chunk->constants.values[constant]));
                 return true;
             }
@@ -1439,10 +1453,12 @@ static void unary(Compiler *compiler, bool canAssign) {
     UNUSED(canAssign);
 
     LangTokenType operatorType = compiler->parser->previous.type;
+    int operandStart = currentChunk(compiler)->count;
+
     parsePrecedence(compiler, PREC_UNARY);
 
     // Constant fold.
-    if (foldUnary(compiler, operatorType)) {
+    if (foldUnary(compiler, operatorType, operandStart)) {
         return;
     }
 
diff --git a/src/vm/compiler.h b/src/vm/compiler.h
index 13ff573..ab99306 100644
--- a/src/vm/compiler.h
+++ b/src/vm/compiler.h
@@ -101,6 +101,7 @@ typedef struct Compiler {
 
     int scopeDepth;
     bool withBlock;
+    int lastConstant; // offset of the last OP_CONSTANT emitted
     ObjDict *classAnnotations;
     ObjDict *methodAnnotations;
     ObjDict *fieldAnnotations;
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1dc07fb..e249ad4 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1575,7 +1575,7 @@ static DictuInterpretResult run(DictuVM *vm) {
             DISPATCH();
 
         CASE_CODE(POW): {
-            BINARY_OP_FUNCTION(NUMBER_VAL, **, powf, double);
+            BINARY_OP_FUNCTION(NUMBER_VAL, **, pow, double);
             DISPATCH();
         }
 
-- 
2.43.0


From 6a7a0c83360530711d75c863381347b8df80c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:26 +0000
Subject: [PATCH 003/182] fix: classes with a superclass can be declared in
 local scopes

The superclass took the slot of the class local, so the class could not be used
afterwards and the locals behind it were misaligned. Annotated abstract classes
and traits emitted their annotations after the class had left the stack.
---
 src/vm/compiler.c | 82 +++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 38 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index b8cde92..3b784c4 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2005,28 +2005,54 @@ static void parseClassBody(Compiler *compiler) {
     }
 }
 
-static void classDeclaration(Compiler *compiler) {
-    consume(compiler, TOKEN_IDENTIFIER, "Expect class name.");
-    uint8_t nameConstant = identifierConstant(compiler, &compiler->parser->previous);
-    declareVariable(compiler, &compiler->parser->previous);
-
-    ClassCompiler classCompiler;
-    setupClassCompiler(compiler, &classCompiler, false);
+// Compiles the optional superclass of a class and declares the class itself. The superclass is
+// kept in a local variable named "super", in the slot below the class, until the scope the class
+// is declared in ends. At module level the class is not a local, so "super" gets its own scope.
+static void classHeader(Compiler *compiler, ClassCompiler *classCompiler, uint8_t nameConstant, ClassType type) {
+    LangToken name = compiler->parser->previous;
+    bool local = compiler->scopeDepth > 0;
 
     if (match(compiler, TOKEN_LESS)) {
         expression(compiler);
-        classCompiler.hasSuperclass = true;
+        classCompiler->hasSuperclass = true;
 
-        beginScope(compiler);
+        if (!local) {
+            beginScope(compiler);
+        }
 
-        // Store the superclass in a local variable named "super".
         addLocal(compiler, syntheticToken("super"));
+        defineVariable(compiler, 0, false);
+    }
 
-        emitBytes(compiler, OP_SUBCLASS, CLASS_DEFAULT);
-    } else {
-        emitBytes(compiler, OP_CLASS, CLASS_DEFAULT);
+    if (local) {
+        declareVariable(compiler, &name);
     }
+
+    emitBytes(compiler, classCompiler->hasSuperclass ? OP_SUBCLASS : OP_CLASS, type);
     emitByte(compiler, nameConstant);
+}
+
+// Defines the class on top of the stack, and discards the "super" of a module level class.
+static void defineClass(Compiler *compiler, uint8_t nameConstant, bool local, bool hasSuperclass) {
+    if (local || !hasSuperclass) {
+        defineVariable(compiler, nameConstant, false);
+        return;
+    }
+
+    compiler->scopeDepth--;
+    defineVariable(compiler, nameConstant, false);
+    compiler->scopeDepth++;
+    endScope(compiler);
+}
+
+static void classDeclaration(Compiler *compiler) {
+    consume(compiler, TOKEN_IDENTIFIER, "Expect class name.");
+    uint8_t nameConstant = identifierConstant(compiler, &compiler->parser->previous);
+    bool local = compiler->scopeDepth > 0;
+
+    ClassCompiler classCompiler;
+    setupClassCompiler(compiler, &classCompiler, false);
+    classHeader(compiler, &classCompiler, nameConstant, CLASS_DEFAULT);
 
     consume(compiler, TOKEN_LEFT_BRACE, "Expect '{' before class body.");
 
@@ -2035,14 +2061,12 @@ static void classDeclaration(Compiler *compiler) {
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after class body.");
 
     if (classCompiler.hasSuperclass) {
-        endScope(compiler);
-
         // If there's a super class, check abstract methods have been defined
         emitByte(compiler, OP_END_CLASS);
     }
 
     endClassCompiler(compiler, &classCompiler);
-    defineVariable(compiler, nameConstant, false);
+    defineClass(compiler, nameConstant, local, classCompiler.hasSuperclass);
 }
 
 static void abstractClassDeclaration(Compiler *compiler) {
@@ -2050,25 +2074,11 @@ static void abstractClassDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_IDENTIFIER, "Expect class name after class keyword.");
     uint8_t nameConstant = identifierConstant(compiler, &compiler->parser->previous);
-    declareVariable(compiler, &compiler->parser->previous);
+    bool local = compiler->scopeDepth > 0;
 
     ClassCompiler classCompiler;
     setupClassCompiler(compiler, &classCompiler, true);
-
-    if (match(compiler, TOKEN_LESS)) {
-        expression(compiler);
-        classCompiler.hasSuperclass = true;
-
-        beginScope(compiler);
-
-        // Store the superclass in a local variable named "super".
-        addLocal(compiler, syntheticToken("super"));
-
-        emitBytes(compiler, OP_SUBCLASS, CLASS_ABSTRACT);
-    } else {
-        emitBytes(compiler, OP_CLASS, CLASS_ABSTRACT);
-    }
-    emitByte(compiler, nameConstant);
+    classHeader(compiler, &classCompiler, nameConstant, CLASS_ABSTRACT);
 
     consume(compiler, TOKEN_LEFT_BRACE, "Expect '{' before class body.");
 
@@ -2076,12 +2086,8 @@ static void abstractClassDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after class body.");
 
-    if (classCompiler.hasSuperclass) {
-        endScope(compiler);
-    }
-
-    defineVariable(compiler, nameConstant, false);
     endClassCompiler(compiler, &classCompiler);
+    defineClass(compiler, nameConstant, local, classCompiler.hasSuperclass);
 }
 
 static void traitDeclaration(Compiler *compiler) {
@@ -2101,8 +2107,8 @@ static void traitDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after trait body.");
 
-    defineVariable(compiler, nameConstant, false);
     endClassCompiler(compiler, &classCompiler);
+    defineVariable(compiler, nameConstant, false);
 }
 
 static void enumDeclaration(Compiler *compiler) {
-- 
2.43.0


From f5dba40e13cd4a3797f7827157d7581428e36808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 004/182] fix: 'continue' outside of a loop no longer crashes
 the compiler

---
 src/vm/compiler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 3b784c4..7943b5a 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2448,6 +2448,7 @@ static void breakStatement(Compiler *compiler) {
 static void continueStatement(Compiler *compiler) {
     if (compiler->loop == NULL) {
         error(compiler->parser, "Cannot utilise 'continue' outside of a loop.");
+        return;
     }
 
     consume(compiler, TOKEN_SEMICOLON, "Expect ';' after 'continue'.");
-- 
2.43.0


From 12aeeae65b1cc756b20c11b66c8dce789f11519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 005/182] fix: 'break' is patched correctly in loops that
 declare enums or class variables

getArgCount did not know the operand widths of ENUM, SET_ENUM_VALUE and
SET_CLASS_VAR, so endLoop walked the loop body out of step.
---
 src/vm/compiler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 7943b5a..7fd7ff3 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2271,7 +2271,6 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_GET_PRIVATE_ATTRIBUTE_NO_POP:
         case OP_SET_ATTRIBUTE:
         case OP_SET_PRIVATE_ATTRIBUTE:
-        case OP_SET_CLASS_VAR:
         case OP_SET_INIT_ATTRIBUTES:
         case OP_SET_PRIVATE_INIT_ATTRIBUTES:
         case OP_GET_SUPER:
@@ -2284,9 +2283,12 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_DEFINE_CLASS_ANNOTATIONS:
         case OP_DEFINE_METHOD_ANNOTATIONS:
         case OP_DEFINE_FIELD_ANNOTATIONS:
+        case OP_ENUM:
+        case OP_SET_ENUM_VALUE:
             return 1;
 
         case OP_DEFINE_OPTIONAL:
+        case OP_SET_CLASS_VAR:
         case OP_JUMP:
         case OP_COMPARE_JUMP:
         case OP_JUMP_IF_NIL:
-- 
2.43.0


From 8042e7066e44caaa0242bdcb79e38c88bd1acde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 006/182] fix: a default value that refers to its own parameter
 is rejected

It read a stack slot that had not been written yet.
---
 src/vm/compiler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 7fd7ff3..10a9759 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -855,7 +855,6 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
             consume(compiler, TOKEN_IDENTIFIER, "Expect parameter name.");
             uint8_t paramConstant = identifierConstant(fnCompiler, &fnCompiler->parser->previous);
             declareVariable(fnCompiler, &fnCompiler->parser->previous);
-            defineVariable(fnCompiler, paramConstant, false);
 
             if (type == TYPE_INITIALIZER && varKeyword) {
                 identifiers[fnCompiler->function->propertyCount] = paramConstant;
@@ -895,6 +894,9 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
                 }
             }
 
+            // A default value can not refer to the parameter itself.
+            defineVariable(fnCompiler, paramConstant, false);
+
             if (fnCompiler->function->arity + fnCompiler->function->arityOptional > 255) {
                 error(fnCompiler->parser, "Cannot have more than 255 parameters.");
             }
-- 
2.43.0


From 5b7f6e32548013fae4c8656cb9dd7c2521c2ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:37 +0000
Subject: [PATCH 007/182] fix: a global constant cannot be redeclared

---
 src/vm/compiler.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 10a9759..aecff0e 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -431,6 +431,12 @@ static uint8_t parseVariable(Compiler *compiler, const char *errorMessage, bool
 
 static void defineVariable(Compiler *compiler, uint8_t global, bool constant) {
     if (compiler->scopeDepth == 0) {
+        Value _;
+        if (!compiler->parser->vm->repl &&
+            tableGet(&compiler->parser->vm->constants, AS_STRING(currentChunk(compiler)->constants.values[global]), &_)) {
+            error(compiler->parser, "Cannot redeclare a constant.");
+        }
+
         if (constant) {
             tableSet(compiler->parser->vm, &compiler->parser->vm->constants,
                      AS_STRING(currentChunk(compiler)->constants.values[global]), NIL_VAL);
-- 
2.43.0


From 0c40a0d6facd8fe977facaad9710225c7398e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 008/182] fix: 'super' of a nested local class no longer hides
 the enclosing class' one

---
 src/vm/compiler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index aecff0e..9901135 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2043,6 +2043,11 @@ static void classHeader(Compiler *compiler, ClassCompiler *classCompiler, uint8_
 // Defines the class on top of the stack, and discards the "super" of a module level class.
 static void defineClass(Compiler *compiler, uint8_t nameConstant, bool local, bool hasSuperclass) {
     if (local || !hasSuperclass) {
+        if (hasSuperclass) {
+            // The class' "super" stays below it on the stack, but its name ends with the class body.
+            compiler->locals[compiler->localCount - 2].name = syntheticToken("");
+        }
+
         defineVariable(compiler, nameConstant, false);
         return;
     }
-- 
2.43.0


From 51aa598e538ca2b92f12bbfae4971443152fe0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 009/182] fix: using something other than a trait is reported
 instead of crashing

---
 src/vm/object.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/object.h b/src/vm/object.h
index 69ff5cc..d39572a 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -32,8 +32,8 @@
 #define IS_MODULE(value)          isObjType(value, OBJ_MODULE)
 #define IS_BOUND_METHOD(value)    isObjType(value, OBJ_BOUND_METHOD)
 #define IS_CLASS(value)           isObjType(value, OBJ_CLASS)
-#define IS_DEFAULT_CLASS(value)   isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_DEFAULT
-#define IS_TRAIT(value)           isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_TRAIT
+#define IS_DEFAULT_CLASS(value)   (isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_DEFAULT)
+#define IS_TRAIT(value)           (isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_TRAIT)
 #define IS_ENUM(value)            isObjType(value, OBJ_ENUM)
 #define IS_CLOSURE(value)         isObjType(value, OBJ_CLOSURE)
 #define IS_FUNCTION(value)        isObjType(value, OBJ_FUNCTION)
-- 
2.43.0


From 0e2c67721508322b3f1f49fae624baa49ddb167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 010/182] fix: getAttribute finds class constants

---
 src/vm/datatypes/instance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/datatypes/instance.c b/src/vm/datatypes/instance.c
index 8d497de..4bd780e 100644
--- a/src/vm/datatypes/instance.c
+++ b/src/vm/datatypes/instance.c
@@ -94,6 +94,10 @@ static Value getAttribute(DictuVM *vm, int argCount, Value *args) {
     ObjClass *klass = instance->klass;
 
     while (klass != NULL) {
+        if (tableGet(&klass->constants, AS_STRING(key), &value)) {
+            return value;
+        }
+
         if (tableGet(&klass->variables, AS_STRING(key), &value)) {
             return value;
         }
-- 
2.43.0


From 707cca776cb09c13cf7c558a4d0e8f18523d6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 011/182] fix: JSON.stringify of a nested value that cannot be
 serialised returns an error instead of crashing

---
 src/optionals/json.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index 63c0691..2140092 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -120,7 +120,14 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                 json_value *json = json_array_new(list->values.count);
 
                 for (int i = 0; i < list->values.count; i++) {
-                    json_array_push(json, stringifyJson(vm, list->values.values[i]));
+                    json_value *element = stringifyJson(vm, list->values.values[i]);
+
+                    if (element == NULL) {
+                        json_builder_free(json);
+                        return NULL;
+                    }
+
+                    json_array_push(json, element);
                 }
 
                 return json;
@@ -136,6 +143,13 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                         continue;
                     }
 
+                    json_value *element = stringifyJson(vm, entry->value);
+
+                    if (element == NULL) {
+                        json_builder_free(json);
+                        return NULL;
+                    }
+
                     char *key;
 
                     if (IS_STRING(entry->key)) {
@@ -152,7 +166,7 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                     json_object_push(
                         json,
                         key,
-                        stringifyJson(vm, entry->value)
+                        element
                     );
 
                     if (!IS_STRING(entry->key)) {
-- 
2.43.0


From 789f4e08960d09e4a0cbd1761d09b7e1ec185488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 012/182] fix: toNumber() rejects the empty string and strings
 with an embedded NUL

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index e58ca3e..03ed91b 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -25,7 +25,7 @@ static Value toNumberString(DictuVM *vm, int argCount, Value *args) {
     double number = strtod(numberString, &end);
 
     // Failed conversion
-    if (errno != 0 || *end != '\0') {
+    if (errno != 0 || end == numberString || end != numberString + AS_STRING(args[0])->length) {
         int length = AS_STRING(args[0])->length;
 
         char *errorMsg = ALLOCATE(vm, char, 29 + length);
-- 
2.43.0


From bca118680cf835452ded7e7897a2e2dfb8608f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 013/182] fix: split() checks the type of its second argument

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 03ed91b..bd3c3e6 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -137,7 +137,7 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
     int maxSplit = string->length + 1;
 
     if (argCount == 2) {
-        if (!AS_NUMBER(args[1])) {
+        if (!IS_NUMBER(args[2])) {
             runtimeError(vm, "Argument passed to split() must be a number");
             return EMPTY_VAL;
         }
-- 
2.43.0


From 817481326b9476fc795d63aedfc5a756c6fe8094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 014/182] fix: findLast() with a non string argument crashed

---
 src/vm/datatypes/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index bd3c3e6..5201398 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -281,6 +281,11 @@ static Value findLastString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "Argument passed to findLast() must be a string");
+        return EMPTY_VAL;
+    }
+
     const char *str = AS_CSTRING(args[0]);
     const char *ss = AS_CSTRING(args[1]);
     const char *p = str;
-- 
2.43.0


From ac088d8028aaef51c0beb127e4919391ea73a709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 015/182] fix: replace() of an empty string never returned

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 5201398..ff26601 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -353,7 +353,7 @@ static Value replaceString(DictuVM *vm, int argCount, Value *args) {
 
     // Count the occurrences of the needle so we can determine the size
     // of the string we need to allocate
-    while ((tmp = strstr(tmp, to_replace->chars)) != NULL) {
+    while (len != 0 && (tmp = strstr(tmp, to_replace->chars)) != NULL) {
         count++;
         tmp += len;
     }
-- 
2.43.0


From e88e571bf43ef5bac2050cfacee184692d58fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 016/182] fix: count() of an empty string read past the end of
 the string

---
 src/vm/datatypes/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index ff26601..f846147 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -544,6 +544,11 @@ static Value countString(DictuVM *vm, int argCount, Value *args) {
     int count = 0;
     while ((haystack = strstr(haystack, needle))) {
         count++;
+
+        if (*haystack == '\0') {
+            break;
+        }
+
         haystack++;
     }
 
-- 
2.43.0


From acb8a68e3b923bce1057b8828bdda5c78dd57b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 017/182] fix: lower(), upper() and title() left bytes after an
 embedded NUL uninitialised

---
 src/vm/datatypes/strings.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index f846147..83b6e69 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -399,7 +399,7 @@ static Value lowerString(DictuVM *vm, int argCount, Value *args) {
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         temp[i] = tolower(string->chars[i]);
     }
     temp[string->length] = '\0';
@@ -416,7 +416,7 @@ static Value upperString(DictuVM *vm, int argCount, Value *args) {
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         temp[i] = toupper(string->chars[i]);
     }
     temp[string->length] = '\0';
@@ -592,7 +592,7 @@ static Value titleString(DictuVM *vm, int argCount, Value *args) {
 
     bool convertNext=true;
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         if(string->chars[i]==' '){
             convertNext=true;
         }
-- 
2.43.0


From 5605ba32993314470476deb5ec028d7919308e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 018/182] fix: rightStrip() kept one character of a string of
 only whitespace

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 83b6e69..de4b974 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -498,7 +498,7 @@ static Value rightStripString(DictuVM *vm, int argCount, Value *args) {
     int length;
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (length = string->length - 1; length > 0; --length) {
+    for (length = string->length - 1; length >= 0; --length) {
         if (!isspace(string->chars[length])) {
             break;
         }
-- 
2.43.0


From 36da2663c78e0c3b0fbfba0ff0b0955038c21a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 019/182] fix: format() left bytes after an embedded NUL
 uninitialised

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index de4b974..8962234 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -114,7 +114,7 @@ static Value formatString(DictuVM *vm, int argCount, Value *args) {
     }
 
     FREE_ARRAY(vm, char*, replaceStrings, argCount);
-    memcpy(newStr + stringLength, tmp, strlen(tmp));
+    memcpy(newStr + stringLength, tmp, string->length - (tmp - tmpFree));
     newStr[fullLength - 1] = '\0';
     FREE_ARRAY(vm, char, tmpFree, stringLen);
 
-- 
2.43.0


From c21cf341ceb7a3dd5fd5ca856686a23741666d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 020/182] fix: repeat() with a count below one overflowed its
 buffer, as did a result too large to hold

---
 src/vm/datatypes/strings.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 8962234..55459a4 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -1,3 +1,5 @@
+#include <limits.h>
+
 #include "strings.h"
 #include "../memory.h"
 
@@ -621,16 +623,23 @@ static Value repeatString(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjString *string = AS_STRING(args[0]);
-    int count = AS_NUMBER(args[1]);
+    double times = AS_NUMBER(args[1]);
+
+    if (string->length * times >= INT_MAX) {
+        runtimeError(vm, "repeat() resulting string is too large");
+        return EMPTY_VAL;
+    }
 
+    int count = (times >= 1 && string->length > 0) ? times : 0;
     int tempLen = (string->length * count) + 1;
     char *temp = ALLOCATE(vm, char, tempLen);
 
-    strcpy(temp, string->chars);
-    while (--count > 0) {
-        strcat(temp, string->chars);
+    for (int i = 0; i < count; i++) {
+        memcpy(temp + (i * string->length), string->chars, string->length);
     }
 
+    temp[tempLen - 1] = '\0';
+
     return OBJ_VAL(takeString(vm, temp, tempLen - 1));
 }
 
-- 
2.43.0


From c50a72cf547f9f225560adf95c542fd7ba536866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 021/182] fix: collapseSpaces() wrote one byte past its buffer

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 55459a4..7279c1e 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -704,7 +704,7 @@ static Value collapseSpacesString(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    temp[j+1] = '\0';
+    temp[j] = '\0';
 
     if (i != j) {
         temp = SHRINK_ARRAY(vm, temp, char, string->length + 1, j + 1);
-- 
2.43.0


From a399cbe2cac5646801392dd9f67d871f43b4a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 022/182] fix: wrap() read past its buffer and overwrote
 characters that are not whitespace

---
 src/vm/datatypes/strings.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 7279c1e..82d2d82 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -719,28 +719,35 @@ static Value wrapString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_NUMBER(args[1])) {
+        runtimeError(vm, "wrap() argument must be a number");
+        return EMPTY_VAL;
+    }
+
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
     
-    int len = AS_NUMBER(args[1]);
+    double len = AS_NUMBER(args[1]);
 
-    int last = 0;
-    int count = 0;
+    int last = -1;
+    int lineStart = 0;
 
-    for (int cur = 0; string->chars[cur] != '\0'; cur++, count++) {
+    for (int cur = 0; cur < string->length; cur++) {
         temp[cur] = string->chars[cur];
 
         if (isspace(temp[cur])) {
             last = cur;
         } 
 
-        if (count >= len) {
+        if (cur - lineStart >= len && last >= lineStart) {
             temp[last] = '\n';
-            count = 0;
+            lineStart = last + 1;
         }
     }
 
-    return OBJ_VAL(takeString(vm, temp, strlen(temp)));
+    temp[string->length] = '\0';
+
+    return OBJ_VAL(takeString(vm, temp, string->length));
 }
 
 void declareStringMethods(DictuVM *vm) {
-- 
2.43.0


From 7a4277606303866c9c2a5b6af574cfdee8fc0763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 023/182] fix: Stack.peek() on an empty stack read out of
 bounds

---
 src/optionals/stack.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index 3916291..0728071 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -90,7 +90,12 @@ static Value stackPeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Stack *stack = AS_STACK(args[0]);
-    
+
+    if (stack->top == 0) {
+        runtimeError(vm, "peek() called on an empty stack");
+        return EMPTY_VAL;
+    }
+
     return stack->ds[stack->top - 1];
 }
 
-- 
2.43.0


From 3bde0a6b6896dcd39485ae7d2f75a5fce5ca9f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 024/182] fix: Queue.peek() on an empty queue read a stale or
 uninitialised value

---
 src/optionals/queue.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index f09a76c..66fb91b 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -110,7 +110,12 @@ static Value queuePeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Queue *queue = AS_QUEUE(args[0]);
-    
+
+    if (queue->count == 0) {
+        runtimeError(vm, "peek() called on an empty queue");
+        return EMPTY_VAL;
+    }
+
     return queue->dq[queue->front];
 }
 
-- 
2.43.0


From 2384fb3515cf7af58b88664e4b81807e0d223346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 025/182] fix: growing a queue that wraps around lost elements

---
 src/optionals/queue.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index 66fb91b..9d6e726 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -131,6 +131,13 @@ static Value queuePush(DictuVM *vm, int argCount, Value *args) {
         int oldCapacity = queue->capacity;
         queue->capacity = GROW_CAPACITY(oldCapacity);
         queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, queue->capacity);
+
+        // Move the elements between front and the old end to the new end
+        if (queue->front != 0) {
+            int tail = oldCapacity - queue->front;
+            memmove(queue->dq + queue->capacity - tail, queue->dq + queue->front, sizeof(Value) * tail);
+            queue->front = queue->capacity - tail;
+        }
     }
 
     if (queue->rear == queue->capacity-1) {
-- 
2.43.0


From f867f10227b4a0344d26a40cee0bb928eb50e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 026/182] fix: elements at the start of a full queue were not
 marked by the garbage collector

---
 src/optionals/queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index 9d6e726..eb1d1c9 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -35,7 +35,7 @@ void grayQueue(DictuVM *vm, ObjAbstract *abstract) {
     if (queue == NULL) return;
 
     if (queue->count == queue->capacity) {
-        for (int i = queue->front; i < queue->capacity; ++i) {
+        for (int i = 0; i < queue->capacity; ++i) {
             grayValue(vm, queue->dq[i]);
         }
 
-- 
2.43.0


From e15079a88a6a225f1f79add1b8d0f4982de6312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 027/182] fix: Queue.newWithSize() with a fractional size

---
 src/optionals/queue.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index eb1d1c9..b8204d3 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -1,3 +1,5 @@
+#include <limits.h>
+#include <math.h>
 #include <string.h>
 
 #include "queue.h"
@@ -263,8 +265,8 @@ static Value newQueueWithSize(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0) {
+    double capacity = floor(AS_NUMBER(args[0]));
+    if (!(capacity > 0 && capacity <= INT_MAX)) {
         return newResultError(vm, "capacity must be greater than 0");
     }
 
-- 
2.43.0


From ba88794b1d0b8bd99c7bccb770d6d1ae4cbdaf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 028/182] fix: Stack.newWithSize() with a fractional size

---
 src/optionals/stack.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index 0728071..bdf07e1 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -1,3 +1,5 @@
+#include <limits.h>
+#include <math.h>
 #include <string.h>
 
 #include "stack.h"
@@ -191,8 +193,8 @@ static Value newStackWithSize(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0) {
+    double capacity = floor(AS_NUMBER(args[0]));
+    if (!(capacity > 0 && capacity <= INT_MAX)) {
         return newResultError(vm, "capacity must be greater than 0");
     }
 
-- 
2.43.0


From 7d6b7540bd61fb84ba005571d205b87c4d2817d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 029/182] fix: Object.hash() included uninitialised bytes in
 its result

---
 src/optionals/object/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/object/object.c b/src/optionals/object/object.c
index ff5553d..100bb26 100644
--- a/src/optionals/object/object.c
+++ b/src/optionals/object/object.c
@@ -56,7 +56,7 @@ static Value objectHash(DictuVM *vm, int argCount, Value *args) {
 
     char str[21];
     sprintf(str, "%llu", (unsigned long long)args[0]);
-    return OBJ_VAL(copyString(vm, (char *)str, 21));
+    return OBJ_VAL(copyString(vm, (char *)str, strlen(str)));
 }
 
 static Value objectPrettyPrint(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From fa3653bd017978ce70d73b11ce88a3216bbb6f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 030/182] fix: tables no longer grow with every insertion that
 follows a deletion

---
 src/vm/table.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vm/table.c b/src/vm/table.c
index e1c0e9d..317e0c2 100644
--- a/src/vm/table.c
+++ b/src/vm/table.c
@@ -80,17 +80,29 @@ static void adjustCapacity(DictuVM *vm, Table *table, int capacityMask) {
 
 bool tableSet(DictuVM *vm, Table *table, ObjString *key, Value value) {
     if (table->count + 1 > table->capacity * TABLE_MAX_LOAD) {
-        int capacity = GROW_CAPACITY(table->capacity);
+        // Rehashing drops tombstones, only grow if there are enough live entries
+        int live = 0;
+        for (int i = 0; i < table->capacity; i++) {
+            if (table->entries[i].key != NULL) live++;
+        }
+
+        int capacity = table->capacity;
+        if (live + 1 > table->capacity * TABLE_MAX_LOAD / 2) {
+            capacity = GROW_CAPACITY(table->capacity);
+        }
+
         adjustCapacity(vm, table, capacity);
     }
 
     Entry *entry = findEntry(table->entries, table->capacity, key);
     bool isNewKey = entry->key == NULL;
+
+    // A reused tombstone has already been counted
+    if (isNewKey && IS_NIL(entry->value)) table->count++;
+
     entry->key = key;
     entry->value = value;
 
-    if (isNewKey) table->count++;
-
     return isNewKey;
 }
 
-- 
2.43.0


From 87184dcf3f35ed884c322fea0b99191d40c41350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 031/182] fix: removing values from a set could hang later
 lookups, and removing a value twice corrupted its length

---
 src/vm/object.c |  1 +
 src/vm/object.h |  1 +
 src/vm/value.c  | 10 ++++++++--
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index 413b29b..19ede19 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -176,6 +176,7 @@ ObjDict *newDict(DictuVM *vm) {
 ObjSet *newSet(DictuVM *vm) {
     ObjSet *set = ALLOCATE_OBJ(vm, ObjSet, OBJ_SET);
     set->count = 0;
+    set->tombstones = 0;
     set->capacityMask = -1;
     set->entries = NULL;
     return set;
diff --git a/src/vm/object.h b/src/vm/object.h
index d39572a..d1144bc 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -159,6 +159,7 @@ typedef struct {
 struct sObjSet {
     Obj obj;
     int count;
+    int tombstones;
     int capacityMask;
     SetItem *entries;
 };
diff --git a/src/vm/value.c b/src/vm/value.c
index d06e696..1cc2335 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -225,6 +225,7 @@ static void adjustSetCapacity(DictuVM *vm, ObjSet *set, int capacityMask) {
     }
 
     set->count = 0;
+    set->tombstones = 0;
 
     for (int i = 0; i <= set->capacityMask; i++) {
         SetItem *entry = &set->entries[i];
@@ -241,14 +242,17 @@ static void adjustSetCapacity(DictuVM *vm, ObjSet *set, int capacityMask) {
 }
 
 bool setInsert(DictuVM *vm, ObjSet *set, Value value) {
-    if (set->count + 1 > (set->capacityMask + 1) * TABLE_MAX_LOAD) {
+    if (set->count + set->tombstones + 1 > (set->capacityMask + 1) * TABLE_MAX_LOAD) {
         // Figure out the new table size.
         int capacityMask = GROW_CAPACITY(set->capacityMask + 1) - 1;
         adjustSetCapacity(vm, set, capacityMask);
     }
 
     SetItem *entry = findSetEntry(set->entries, set->capacityMask, value);
-    bool isNewKey = IS_EMPTY(entry->value) || entry->deleted;
+    bool isNewKey = IS_EMPTY(entry->value);
+
+    if (entry->deleted) set->tombstones--;
+
     entry->value = value;
     entry->deleted = false;
 
@@ -265,6 +269,8 @@ bool setDelete(DictuVM *vm, ObjSet *set, Value value) {
 
     // Place a tombstone in the entry.
     set->count--;
+    set->tombstones++;
+    entry->value = EMPTY_VAL;
     entry->deleted = true;
 
     if (set->count - 1 < set->capacityMask * TABLE_MIN_LOAD) {
-- 
2.43.0


From 8b0d160767bea95b4291f9d68bdd25724fab24be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 032/182] fix: a dictionary that has had keys removed prints no
 stray separator

---
 src/vm/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index 19ede19..911dca5 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -449,7 +449,7 @@ char *dictToString(Value value) {
            free(element);
        }
 
-       if (count != dict->count) {
+       if (count != dict->activeCount) {
            memcpy(dictString + dictStringLength, ", ", 2);
            dictStringLength += 2;
        }
-- 
2.43.0


From f3b3946e366fe27591dc6f94633866f6c670f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 033/182] fix: a dictionary emptied by removals is falsy

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index e249ad4..54aef99 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -820,7 +820,7 @@ bool isFalsey(Value value) {
            (IS_NUMBER(value) && AS_NUMBER(value) == 0) ||
            (IS_STRING(value) && AS_CSTRING(value)[0] == '\0') ||
            (IS_LIST(value) && AS_LIST(value)->values.count == 0) ||
-           (IS_DICT(value) && AS_DICT(value)->count == 0) ||
+           (IS_DICT(value) && AS_DICT(value)->activeCount == 0) ||
            (IS_RESULT(value) && AS_RESULT(value)->status == ERR) ||
            (IS_SET(value) && AS_SET(value)->count == 0);
 }
-- 
2.43.0


From 0d6370f08726d28ce01f79ce40a75456b652f9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 034/182] fix: numbers compare by value, so 0 and -0 are equal

---
 src/vm/value.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vm/value.c b/src/vm/value.c
index 1cc2335..46d2070 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -70,6 +70,11 @@ static uint32_t hashValue(Value value) {
         return hashObject(AS_OBJ(value));
     }
 
+    // 0 and -0 are equal so they must have the same hash
+    if (IS_NUMBER(value) && AS_NUMBER(value) == 0) {
+        return hashBits(NUMBER_VAL(0));
+    }
+
     return hashBits(value);
 }
 
@@ -521,6 +526,10 @@ bool valuesEqual(Value a, Value b) {
         }
     }
 
+    if (IS_NUMBER(a) && IS_NUMBER(b)) {
+        return AS_NUMBER(a) == AS_NUMBER(b);
+    }
+
     return a == b;
 }
 
-- 
2.43.0


From 90c35ebadb161ec9edc244a4b5f1538de22c3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 035/182] fix: NaNs with a payload were taken for other kinds
 of values

---
 src/vm/value.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vm/value.h b/src/vm/value.h
index 2ec8bc1..fd18534 100644
--- a/src/vm/value.h
+++ b/src/vm/value.h
@@ -68,6 +68,12 @@ static inline double valueToNum(Value value) {
 static inline Value numToValue(double num) {
     DoubleUnion data;
     data.num = num;
+
+    // The payload of a NaN must not be mistaken for the tag of another type
+    if (num != num) {
+        data.bits64 = (uint64_t)0x7ff8000000000000;
+    }
+
     return data.bits64;
 }
 
-- 
2.43.0


From 5bc1cc63242e4e18b7574541cd2d8773ae5ca255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 036/182] fix: ordering strings that have bytes above 127 or an
 embedded NUL

---
 src/vm/value.c | 51 ++++++++++----------------------------------------
 1 file changed, 10 insertions(+), 41 deletions(-)

diff --git a/src/vm/value.c b/src/vm/value.c
index 46d2070..ab3df6a 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -533,50 +533,19 @@ bool valuesEqual(Value a, Value b) {
     return a == b;
 }
 
-bool compareStringLess(Value a, Value b) {
-    // Swapping as it's a stack
-    ObjString *secondString = AS_STRING(a);
-    ObjString *firstString = AS_STRING(b);
+static int compareStrings(ObjString *a, ObjString *b) {
+    int length = a->length < b->length ? a->length : b->length;
+    int result = memcmp(a->chars, b->chars, length);
 
-    int i;
-
-    for (i = 0; firstString->chars[i] != '\0' || secondString->chars[i] != '\0'; i++) {
-        if (firstString->chars[i] < secondString->chars[i]) {
-            return true;
-        }
-
-        if (firstString->chars[i] > secondString->chars[i]) {
-            return false;
-        }
-    }
-
-    if (secondString->chars[i] != '\0') {
-        return true;
-    }
+    return result != 0 ? result : a->length - b->length;
+}
 
-    return false;
+bool compareStringLess(Value a, Value b) {
+    // Swapping as it's a stack
+    return compareStrings(AS_STRING(b), AS_STRING(a)) < 0;
 }
 
 bool compareStringGreater(Value a, Value b) {
     // Swapping as it's a stack
-    ObjString *secondString = AS_STRING(a);
-    ObjString *firstString = AS_STRING(b);
-
-    int i;
-
-    for (i = 0; firstString->chars[i] != '\0' || secondString->chars[i] != '\0'; i++) {
-        if (firstString->chars[i] > secondString->chars[i]) {
-            return true;
-        }
-
-        if (firstString->chars[i] < secondString->chars[i]) {
-            return false;
-        }
-    }
-
-    if (firstString->chars[i] != '\0') {
-        return true;
-    }
-
-    return false;
-}
\ No newline at end of file
+    return compareStrings(AS_STRING(b), AS_STRING(a)) > 0;
+}
-- 
2.43.0


From 9a086e66096b07c137913fbc15f33487c2a95c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:27 +0000
Subject: [PATCH 037/182] fix: a string that starts with a NUL is not falsy

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 54aef99..c7f05b8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -818,7 +818,7 @@ bool isFalsey(Value value) {
     return IS_NIL(value) ||
            (IS_BOOL(value) && !AS_BOOL(value)) ||
            (IS_NUMBER(value) && AS_NUMBER(value) == 0) ||
-           (IS_STRING(value) && AS_CSTRING(value)[0] == '\0') ||
+           (IS_STRING(value) && AS_STRING(value)->length == 0) ||
            (IS_LIST(value) && AS_LIST(value)->values.count == 0) ||
            (IS_DICT(value) && AS_DICT(value)->activeCount == 0) ||
            (IS_RESULT(value) && AS_RESULT(value)->status == ERR) ||
-- 
2.43.0


From 1d98c952479aa27a80974cc58df0d610a3d9e052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 038/182] fix: the text of a missing dictionary key leaked

---
 src/vm/vm.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index c7f05b8..8fe77d2 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1929,7 +1929,11 @@ static DictuInterpretResult run(DictuVM *vm) {
                         DISPATCH();
                     }
 
-                    RUNTIME_ERROR("Key %s does not exist within dictionary.", valueToString(indexValue));
+                    char *key = valueToString(indexValue);
+                    STORE_FRAME;
+                    runtimeError(vm, "Key %s does not exist within dictionary.", key);
+                    free(key);
+                    return INTERPRET_RUNTIME_ERROR;
                 }
 
                 default: {
@@ -2030,7 +2034,11 @@ static DictuInterpretResult run(DictuVM *vm) {
 
                     Value dictValue;
                     if (!dictGet(dict, indexValue, &dictValue)) {
-                        RUNTIME_ERROR("Key %s does not exist within dictionary.", valueToString(indexValue));
+                        char *key = valueToString(indexValue);
+                        STORE_FRAME;
+                        runtimeError(vm, "Key %s does not exist within dictionary.", key);
+                        free(key);
+                        return INTERPRET_RUNTIME_ERROR;
                     }
 
                     vm->stackTop[-1] = dictValue;
-- 
2.43.0


From 9a2e13b8c812d2f31cb58cf3d7799d66ad1150a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 039/182] fix: setting the prefix of a logger twice leaked the
 first

---
 src/optionals/log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index 32b2d04..1cfdb64 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -113,6 +113,7 @@ static Value logObjSetPrefix(DictuVM *vm, int argCount, Value *args) {
         return NIL_VAL;
     }
     
+    free(log->prefix);
     log->prefix = strdup(prefix);
 
     return NIL_VAL;
-- 
2.43.0


From 7b929c9673b2c7f2da8a294f6bfdeafe1363d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:36 +0000
Subject: [PATCH 040/182] fix: returning from or breaking out of nested with
 blocks left files open

---
 src/vm/compiler.c | 33 +++++++++++++++++++++------------
 src/vm/compiler.h |  4 +++-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 9901135..fb5add3 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -165,7 +165,6 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     compiler->function = NULL;
     compiler->class = NULL;
     compiler->loop = NULL;
-    compiler->withBlock = false;
     compiler->lastConstant = -1;
     compiler->classAnnotations = NULL;
     compiler->methodAnnotations = NULL;
@@ -213,6 +212,7 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     Local *local = &compiler->locals[compiler->localCount++];
     local->depth = compiler->scopeDepth;
     local->isUpvalue = false;
+    local->isFile = false;
     if (type == TYPE_METHOD || type == TYPE_INITIALIZER) {
         // In a method, it holds the receiver, "this".
         local->name.start = "this";
@@ -392,6 +392,7 @@ static void addLocal(Compiler *compiler, LangToken name) {
     local->depth = -1;
     local->isUpvalue = false;
     local->constant = false;
+    local->isFile = false;
     compiler->localCount++;
 }
 
@@ -2447,6 +2448,10 @@ static void breakStatement(Compiler *compiler) {
     for (int i = compiler->localCount - 1;
          i >= 0 && compiler->locals[i].depth > compiler->loop->scopeDepth;
          i--) {
+        if (compiler->locals[i].isFile) {
+            emitBytes(compiler, OP_CLOSE_FILE, i);
+        }
+
         if(compiler->locals[i].isUpvalue)
         {
             emitByte(compiler, OP_CLOSE_UPVALUE);
@@ -2472,6 +2477,10 @@ static void continueStatement(Compiler *compiler) {
     for (int i = compiler->localCount - 1;
          i >= 0 && compiler->locals[i].depth > compiler->loop->scopeDepth;
          i--) {
+        if (compiler->locals[i].isFile) {
+            emitBytes(compiler, OP_CLOSE_FILE, i);
+        }
+
         if(compiler->locals[i].isUpvalue)
         {
             emitByte(compiler, OP_CLOSE_UPVALUE);
@@ -2557,7 +2566,6 @@ static void switchStatement(Compiler *compiler) {
 }
 
 static void withStatement(Compiler *compiler) {
-    compiler->withBlock = true;
     consume(compiler, TOKEN_LEFT_PAREN, "Expect '(' after 'with'.");
     expression(compiler);
     consume(compiler, TOKEN_COMMA, "Expect comma");
@@ -2568,26 +2576,27 @@ static void withStatement(Compiler *compiler) {
     beginScope(compiler);
 
     int fileIndex = compiler->localCount;
-    Local *local = &compiler->locals[compiler->localCount++];
+    addLocal(compiler, syntheticToken("file"));
+
+    if (compiler->localCount == fileIndex) {
+        return;
+    }
+
+    Local *local = &compiler->locals[fileIndex];
     local->depth = compiler->scopeDepth;
-    local->isUpvalue = false;
-    local->name = syntheticToken("file");
     local->constant = true;
+    local->isFile = true;
 
     emitByte(compiler, OP_OPEN_FILE);
     block(compiler);
     emitBytes(compiler, OP_CLOSE_FILE, fileIndex);
     endScope(compiler);
-    compiler->withBlock = false;
 }
 
 static void checkForFileHandle(Compiler *compiler) {
-    if (compiler->withBlock) {
-        LangToken token = syntheticToken("file");
-        int local = resolveLocal(compiler, &token, true);
-
-        if (local != -1) {
-            emitBytes(compiler, OP_CLOSE_FILE, local);
+    for (int i = compiler->localCount - 1; i >= 0; i--) {
+        if (compiler->locals[i].isFile) {
+            emitBytes(compiler, OP_CLOSE_FILE, i);
         }
     }
 }
diff --git a/src/vm/compiler.h b/src/vm/compiler.h
index ab99306..166a72b 100644
--- a/src/vm/compiler.h
+++ b/src/vm/compiler.h
@@ -40,6 +40,9 @@ typedef struct {
 
     // True if it's a constant value.
     bool constant;
+
+    // True if this is the file handle of a with block.
+    bool isFile;
 } Local;
 
 typedef struct {
@@ -100,7 +103,6 @@ typedef struct Compiler {
     Upvalue upvalues[UINT8_COUNT];
 
     int scopeDepth;
-    bool withBlock;
     int lastConstant; // offset of the last OP_CONSTANT emitted
     ObjDict *classAnnotations;
     ObjDict *methodAnnotations;
-- 
2.43.0


From 1870c0d899407afc21f9e6511cb92d8e54f6884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:36 +0000
Subject: [PATCH 041/182] fix: a file handle that outlives its with block, or
 is dropped by an error, is neither used after it was closed nor leaked

---
 src/vm/datatypes/files.c | 29 +++++++++++++++++++++++++++++
 src/vm/memory.c          |  6 ++++++
 src/vm/object.c          |  6 +++++-
 src/vm/vm.c              | 12 ++++++++----
 4 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index ee6462a..93d025a 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -1,6 +1,15 @@
 #include "files.h"
 #include "../memory.h"
 
+static bool isClosed(DictuVM *vm, ObjFile *file) {
+    if (file->file == NULL) {
+        runtimeError(vm, "File is closed");
+        return true;
+    }
+
+    return false;
+}
+
 static Value writeFile(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1) {
         runtimeError(vm, "write() takes 1 argument (%d given)", argCount);
@@ -15,6 +24,10 @@ static Value writeFile(DictuVM *vm, int argCount, Value *args) {
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
+    if (isClosed(vm, file)) {
+        return EMPTY_VAL;
+    }
+
     if (strcmp(file->openType, "r") == 0 || strcmp(file->openType, "rb") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
@@ -46,6 +59,10 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
+    if (isClosed(vm, file)) {
+        return EMPTY_VAL;
+    }
+
     if (strcmp(file->openType, "r") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
@@ -65,6 +82,10 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
 
     ObjFile *file = AS_FILE(args[0]);
 
+    if (isClosed(vm, file)) {
+        return EMPTY_VAL;
+    }
+
     size_t currentPosition = ftell(file->file);
     // Calculate file size
     fseek(file->file, 0L, SEEK_END);
@@ -99,6 +120,10 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (isClosed(vm, AS_FILE(args[0]))) {
+        return EMPTY_VAL;
+    }
+
     int readLineBufferSize = 4096;
 
     if (argCount == 1) {
@@ -174,6 +199,10 @@ static Value seekFile(DictuVM *vm, int argCount, Value *args) {
     int offset = AS_NUMBER(args[1]);
     ObjFile *file = AS_FILE(args[0]);
 
+    if (isClosed(vm, file)) {
+        return EMPTY_VAL;
+    }
+
     if (offset != 0 && !strstr(file->openType, "b")) {
         runtimeError(vm, "seek() may not have non-zero offset if file is opened in text mode");
         return EMPTY_VAL;
diff --git a/src/vm/memory.c b/src/vm/memory.c
index 7c1dc75..9b519ba 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -301,6 +301,12 @@ void freeObject(DictuVM *vm, Obj *object) {
         }
 
         case OBJ_FILE: {
+            ObjFile *file = (ObjFile *) object;
+            if (file->file != NULL) {
+                fclose(file->file);
+            }
+            free(file->path);
+            free(file->openType);
             FREE(vm, ObjFile, object);
             break;
         }
diff --git a/src/vm/object.c b/src/vm/object.c
index 911dca5..333ef6e 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -183,7 +183,11 @@ ObjSet *newSet(DictuVM *vm) {
 }
 
 ObjFile *newFile(DictuVM *vm) {
-    return ALLOCATE_OBJ(vm, ObjFile, OBJ_FILE);
+    ObjFile *file = ALLOCATE_OBJ(vm, ObjFile, OBJ_FILE);
+    file->file = NULL;
+    file->path = NULL;
+    file->openType = NULL;
+    return file;
 }
 
 ObjAbstract *newAbstract(DictuVM *vm, AbstractFreeFn func, AbstractTypeFn type) {
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 8fe77d2..a1c453e 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2381,9 +2381,10 @@ static DictuInterpretResult run(DictuVM *vm) {
             ObjString *fileNameString = AS_STRING(fileName);
 
             ObjFile *file = newFile(vm);
-            file->file = fopen(fileNameString->chars, openTypeString->chars);
-            file->path = fileNameString->chars;
-            file->openType = openTypeString->chars;
+            // The handle can outlive both strings
+            file->path = strdup(fileNameString->chars);
+            file->openType = strdup(openTypeString->chars);
+            file->file = fopen(file->path, file->openType);
 
             if (file->file == NULL) {
                 RUNTIME_ERROR("Unable to open file '%s'", file->path);
@@ -2399,7 +2400,10 @@ static DictuInterpretResult run(DictuVM *vm) {
             uint8_t slot = READ_BYTE();
             Value file = frame->slots[slot];
             ObjFile *fileObject = AS_FILE(file);
-            fclose(fileObject->file);
+            if (fileObject->file != NULL) {
+                fclose(fileObject->file);
+                fileObject->file = NULL;
+            }
 
             DISPATCH();
         }
-- 
2.43.0


From ee40bcdd8f37a5541a2a2b41bafd7580b2fc366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 042/182] fix: write() and writeLine() write all of a string
 that holds a NUL, and writeLine() to a handle opened with rb is an error

---
 src/vm/datatypes/files.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index 93d025a..4d5851d 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -33,13 +33,7 @@ static Value writeFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int charsWrote = 0;
-
-    if (strcmp(file->openType, "wb") == 0) {
-        charsWrote = fwrite(string->chars, 1, string->length, file->file);
-    } else {
-        charsWrote = fprintf(file->file, "%s", string->chars);
-    }
+    int charsWrote = fwrite(string->chars, 1, string->length, file->file);
     fflush(file->file);
 
     return NUMBER_VAL(charsWrote);
@@ -63,12 +57,13 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    if (strcmp(file->openType, "r") == 0) {
+    if (strcmp(file->openType, "r") == 0 || strcmp(file->openType, "rb") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
     }
 
-    int charsWrote = fprintf(file->file, "%s\n", string->chars);
+    int charsWrote = fwrite(string->chars, 1, string->length, file->file);
+    charsWrote += fwrite("\n", 1, 1, file->file);
     fflush(file->file);
 
     return NUMBER_VAL(charsWrote);
-- 
2.43.0


From bb71a4290a3739f1a34b19e1897a54c095386622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 043/182] fix: readLine() splits no long lines, loses no NUL
 and rejects sizes below one

---
 src/vm/datatypes/files.c | 54 ++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index 4d5851d..2a3fca5 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -1,6 +1,9 @@
 #include "files.h"
 #include "../memory.h"
 
+#include <limits.h>
+#include <stdint.h>
+
 static bool isClosed(DictuVM *vm, ObjFile *file) {
     if (file->file == NULL) {
         runtimeError(vm, "File is closed");
@@ -119,7 +122,8 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int readLineBufferSize = 4096;
+    // No limit unless one is given
+    size_t limit = SIZE_MAX;
 
     if (argCount == 1) {
         if (!IS_NUMBER(args[1])) {
@@ -127,31 +131,43 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
-        readLineBufferSize = AS_NUMBER(args[1]) + 1;
-    }
+        double size = AS_NUMBER(args[1]);
 
-#ifdef _WIN32
-    char *line = ALLOCATE(vm, char, readLineBufferSize);
-#else 
-    char line[readLineBufferSize]; 
-#endif
+        if (!(size >= 1)) {
+            runtimeError(vm, "readLine() argument must be greater than or equal to 1");
+            return EMPTY_VAL;
+        }
+
+        if (size < INT_MAX) {
+            limit = (size_t) size;
+        }
+    }
 
     ObjFile *file = AS_FILE(args[0]);
-    if (fgets(line, readLineBufferSize, file->file) != NULL) {
-        int lineLength = strlen(line);
-        // Remove newline char
-        if (line[lineLength - 1] == '\n') {
-            lineLength--;
-            line[lineLength] = '\0';
+    size_t capacity = 128;
+    size_t length = 0;
+    char *line = ALLOCATE(vm, char, capacity);
+    int c = EOF;
+
+    while (length < limit && (c = fgetc(file->file)) != EOF && c != '\n') {
+        if (length + 1 == capacity) {
+            line = GROW_ARRAY(vm, line, char, capacity, capacity * 2);
+            capacity *= 2;
         }
-        return OBJ_VAL(copyString(vm, line, lineLength));
+
+        line[length++] = (char) c;
     }
 
-#ifdef _WIN32
-    FREE(vm, char, line);
-#endif 
+    // The end of the file
+    if (length == 0 && c == EOF) {
+        FREE_ARRAY(vm, char, line, capacity);
+        return NIL_VAL;
+    }
 
-    return NIL_VAL;
+    line = SHRINK_ARRAY(vm, line, char, capacity, length + 1);
+    line[length] = '\0';
+
+    return OBJ_VAL(takeString(vm, line, length));
 }
 
 static Value seekFile(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From 02f8fea3446de2fc14a37a42c8c85ab9c2174535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 044/182] fix: the scanner never returned from a lone '#'

---
 src/vm/scanner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index 61f4048..ef1ea09 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -86,6 +86,8 @@ static void skipWhitespace(Scanner *scanner) {
                 if (peekNext(scanner) == '!') {
                     // Ignore shebang line
                     while (peek(scanner) != '\n' && !isAtEnd(scanner)) advance(scanner);
+                } else {
+                    return;
                 }
                 break;
             case '/':
-- 
2.43.0


From 2cf308c31e49aaf9bb8583dd6015263f6bc81b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 045/182] fix: a source that ends in an unterminated string was
 read past its end

---
 src/vm/scanner.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index ef1ea09..c69b86d 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -346,10 +346,15 @@ static LangToken string(Scanner *scanner, char stringToken) {
             scanner->line++;
         } else if (peek(scanner) == '\\' && !scanner->rawString) {
             scanner->current++;
+            if (isAtEnd(scanner)) break;
+            if (peek(scanner) == '\n') scanner->line++;
         }
         advance(scanner);
     }
-    if (isAtEnd(scanner)) return errorToken(scanner, "Unterminated string.");
+    if (isAtEnd(scanner)) {
+        scanner->rawString = false;
+        return errorToken(scanner, "Unterminated string.");
+    }
 
     // The closing " or '.
     advance(scanner);
-- 
2.43.0


From fac7be7fa0466ce3afe03bb20a74ec78e98a206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 046/182] fix: a number such as 1x5 or 10x5 is not a
 hexadecimal literal

---
 src/vm/scanner.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index c69b86d..d89bfc8 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -330,7 +330,6 @@ static LangToken number(Scanner *scanner) {
 
 static LangToken hexNumber(Scanner *scanner) {
     while (peek(scanner) == '_') advance(scanner);
-    if (peek(scanner) == '0')advance(scanner);
     if ((peek(scanner) == 'x') || (peek(scanner) == 'X')) {
         advance(scanner);
         if (!isHexDigit(peek(scanner))) return errorToken(scanner, "Invalid hex literal");
@@ -376,7 +375,8 @@ LangToken scanToken(Scanner *scanner) {
     char c = advance(scanner);
 
     if (isAlpha(c)) return identifier(scanner);
-    if (isDigit(c)) return hexNumber(scanner);
+    if (c == '0') return hexNumber(scanner);
+    if (isDigit(c)) return number(scanner);
 
     switch (c) {
         case '@':
-- 
2.43.0


From 7a2f7b2dde54d2337309b5fe14980f4222a8b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 047/182] fix: \\x escapes at the end of a string read past it,
 and took anything strtol() does

---
 src/vm/compiler.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index fb5add3..5886f14 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -1058,7 +1059,7 @@ int parseEscapeSequences(Parser *parser, char *string, int length) {
                     break;
                 }
                 case 'x': {
-                    if (string[i + 2] == '\0' || string[i + 3] == '\0') {
+                    if (i + 3 >= length) {
                         error(parser, "\\x escape code expects format \\xhh");
                         break;
                     }
@@ -1069,7 +1070,7 @@ int parseEscapeSequences(Parser *parser, char *string, int length) {
                     hexChars[2] = '\0';
                     int hex = strtol(hexChars, &end, 16);
 
-                    if (hexChars == end) {
+                    if (!isxdigit((unsigned char) hexChars[0]) || end != hexChars + 2) {
                         error(parser, "\\x escape code failed to parse");
                         break;
                     }
@@ -1091,7 +1092,7 @@ int parseEscapeSequences(Parser *parser, char *string, int length) {
                     continue;
                 }
             }
-            memmove(&string[i], &string[i + 1], length - i);
+            memmove(&string[i], &string[i + 1], length - i - 1);
             length -= 1;
         }
     }
-- 
2.43.0


From ea07ccc438eaa0c64b28f285093cb115c3b59c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 048/182] fix: statements that begin with a list or a
 dictionary are scanned again from where they begin

---
 src/vm/compiler.c | 59 ++++++++++++++---------------------------------
 1 file changed, 17 insertions(+), 42 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 5886f14..17d5e78 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -62,10 +62,12 @@ static void advance(Parser *parser) {
     }
 }
 
-static void recede(Parser *parser){
-    for (int i = 0; i < parser->current.length; ++i) {
-            backTrack(&parser->scanner);
-    }
+// Scan again from the given token, which becomes the current one.
+static void recede(Parser *parser, LangToken token) {
+    parser->scanner.current = token.start + token.length;
+    parser->scanner.line = token.line;
+    parser->scanner.rawString = false;
+    parser->current = token;
 }
 
 static void consume(Compiler *compiler, LangTokenType type, const char *message) {
@@ -2807,34 +2809,22 @@ static void unpackListStatement(Compiler *compiler){
     LangToken variables[255];
     LangToken previous=compiler->parser->previous;
     do {
-        if(!check(compiler,TOKEN_IDENTIFIER)){
-            if(varCount>0){
-                recede(compiler->parser);
-            }
-            int varsAndCommas=varCount+(varCount-1);
-            for(int var=0;var<varsAndCommas;var++){
-                recede(compiler->parser);
-            }
-            recede(compiler->parser);
-            compiler->parser->current=previous;
+        if (!check(compiler, TOKEN_IDENTIFIER)) {
+            recede(compiler->parser, previous);
             expressionStatement(compiler);
             return;
         }
         consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+        if (varCount == 255) {
+            error(compiler->parser, "Cannot have more than 255 variables.");
+            return;
+        }
         variables[varCount] = compiler->parser->previous;
         varCount++;
     } while (match(compiler, TOKEN_COMMA));
 
-    consume(compiler, TOKEN_RIGHT_BRACKET, "Expect ']' after list destructure.");
-
-    if(!check(compiler, TOKEN_EQUAL)){
-        recede(compiler->parser);
-        int varsAndCommas=varCount+(varCount-1);
-        for(int var=0;var<varsAndCommas;var++){
-                recede(compiler->parser);
-        }
-        recede(compiler->parser);
-        compiler->parser->current=previous;
+    if (!match(compiler, TOKEN_RIGHT_BRACKET) || !check(compiler, TOKEN_EQUAL)) {
+        recede(compiler->parser, previous);
         expressionStatement(compiler);
         return;
     }
@@ -2952,34 +2942,19 @@ static void statement(Compiler *compiler) {
         Parser *parser = compiler->parser;
         LangToken previous = parser->previous;
         LangToken curtok = parser->current;
+        Scanner scanner = parser->scanner;
 
         // Advance the parser to the next token
         advance(parser);
 
-        if (check(compiler, TOKEN_RIGHT_BRACE)) {
-            if (check(compiler, TOKEN_SEMICOLON)) {
-                backTrack(&parser->scanner);
-                backTrack(&parser->scanner);
-                parser->current = previous;
-                expressionStatement(compiler);
-                return;
-            }
-        }
-
         if (check(compiler, TOKEN_COLON)) {
-            for (int i = 0; i < parser->current.length + parser->previous.length; ++i) {
-                backTrack(&parser->scanner);
-            }
-
-            parser->current = previous;
+            recede(parser, previous);
             expressionStatement(compiler);
             return;
         }
 
         // Reset the scanner to the previous position
-        for (int i = 0; i < parser->current.length; ++i) {
-            backTrack(&parser->scanner);
-        }
+        parser->scanner = scanner;
 
         // Reset the parser
         parser->previous = previous;
-- 
2.43.0


From 37c9208f251eb1623cf1a977b185bd626f3ddc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 049/182] fix: an annotation that is not closed made the
 compiler hang

---
 src/vm/compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 17d5e78..259c478 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1917,7 +1917,7 @@ static bool isFieldAnnotation(Compiler *compiler) {
         if (match(compiler, TOKEN_LEFT_PAREN)) {
             do {
                 advance(compiler->parser);
-            } while (!match(compiler, TOKEN_RIGHT_PAREN));
+            } while (!check(compiler, TOKEN_EOF) && !match(compiler, TOKEN_RIGHT_PAREN));
         }
     } while (match(compiler, TOKEN_AT));
 
-- 
2.43.0


From 52e5d05218beacbc6a39b5924588662ece962ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 050/182] fix: more variables, parameters, cases or elements
 than the compiler has room for are compile errors

---
 src/vm/compiler.c | 49 ++++++++++++++++++++++++++++++++---------------
 src/vm/vm.c       |  2 +-
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 259c478..b331f09 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -849,11 +849,11 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
         bool optional = false;
         bool isSpreadParam = false;
         int index = 0;
-        uint8_t identifiers[255];
-        int indexes[255];
+        uint8_t identifiers[UINT8_COUNT];
+        int indexes[UINT8_COUNT];
 
-        uint8_t privateIdentifiers[255];
-        int privateIndexes[255];
+        uint8_t privateIdentifiers[UINT8_COUNT];
+        int privateIndexes[UINT8_COUNT];
         do {
             // spread must come last
             if (isSpreadParam) {
@@ -909,6 +909,7 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
 
             if (fnCompiler->function->arity + fnCompiler->function->arityOptional > 255) {
                 error(fnCompiler->parser, "Cannot have more than 255 parameters.");
+                return;
             }
             index++;
         } while (match(fnCompiler, TOKEN_COMMA));
@@ -1153,6 +1154,10 @@ static void list(Compiler *compiler, bool canAssign) {
         count++;
     } while (match(compiler, TOKEN_COMMA));
 
+    if (count > UINT8_MAX) {
+        error(compiler->parser, "Cannot have more than 255 elements in a list literal.");
+    }
+
     emitBytes(compiler, OP_NEW_LIST, count);
     consume(compiler, TOKEN_RIGHT_BRACKET, "Expected closing ']'");
 }
@@ -1172,6 +1177,10 @@ static void dict(Compiler *compiler, bool canAssign) {
         count++;
     } while (match(compiler, TOKEN_COMMA));
 
+    if (count > UINT8_MAX) {
+        error(compiler->parser, "Cannot have more than 255 entries in a dictionary literal.");
+    }
+
     emitBytes(compiler, OP_NEW_DICT, count);
 
     consume(compiler, TOKEN_RIGHT_BRACE, "Expected closing '}'");
@@ -2175,6 +2184,10 @@ static void varDeclaration(Compiler *compiler, bool constant) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+            if (varCount == 255) {
+                error(compiler->parser, "Cannot have more than 255 variables.");
+                return;
+            }
             variables[varCount] = compiler->parser->previous;
             varCount++;
         } while (match(compiler, TOKEN_COMMA));
@@ -2537,17 +2550,21 @@ static void switchStatement(Compiler *compiler) {
             do {
                 multipleCases++;
                 expression(compiler);
+                if (multipleCases > UINT8_MAX) {
+                    error(compiler->parser, "Cannot have more than 256 values in a case");
+                }
             } while(match(compiler, TOKEN_COMMA));
             emitBytes(compiler, OP_MULTI_CASE, multipleCases);
         }
         int compareJump = emitJump(compiler, OP_COMPARE_JUMP);
         consume(compiler, TOKEN_COLON, "Expect ':' after expression.");
         statement(compiler);
-        caseEnds[caseCount++] = emitJump(compiler,OP_JUMP);
-        patchJump(compiler, compareJump);
-        if (caseCount > 255) {
+        if (caseCount == 256) {
             errorAtCurrent(compiler->parser, "Switch statement can not have more than 256 case blocks");
+            return;
         }
+        caseEnds[caseCount++] = emitJump(compiler,OP_JUMP);
+        patchJump(compiler, compareJump);
 
     } while(match(compiler, TOKEN_CASE));
 
@@ -2689,13 +2706,14 @@ static void fromImportStatement(Compiler *compiler) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+            if (varCount == 255) {
+                error(compiler->parser, "Cannot have more than 255 variables.");
+                return;
+            }
+
             tokens[varCount] = compiler->parser->previous;
             variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
             varCount++;
-
-            if (varCount > 255) {
-                error(compiler->parser, "Cannot have more than 255 variables.");
-            }
         } while (match(compiler, TOKEN_COMMA));
 
         emitBytes(compiler, OP_IMPORT_FROM, varCount);
@@ -2740,13 +2758,14 @@ static void fromImportStatement(Compiler *compiler) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+            if (varCount == 255) {
+                error(compiler->parser, "Cannot have more than 255 variables.");
+                return;
+            }
+
             tokens[varCount] = compiler->parser->previous;
             variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
             varCount++;
-
-            if (varCount > 255) {
-                error(compiler->parser, "Cannot have more than 255 variables.");
-            }
         } while (match(compiler, TOKEN_COMMA));
 
         emitBytes(compiler, OP_IMPORT_BUILTIN, index);
diff --git a/src/vm/vm.c b/src/vm/vm.c
index a1c453e..9cfb31f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1076,7 +1076,7 @@ static DictuInterpretResult run(DictuVM *vm) {
             // Temp array while we shuffle the stack.
             // Can not have more than 255 args to a function, so
             // we can define this with a constant limit
-            Value values[255];
+            Value values[255 * 2];
             int index;
 
             for (index = 0; index < arityOptional + argCount; index++) {
-- 
2.43.0


From 1fee470a92586659a5eece3eb7deb318739ac277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 051/182] fix: a built-in module is found by its whole name
 only

---
 src/optionals/optionals.c | 2 +-
 src/vm/compiler.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/optionals.c b/src/optionals/optionals.c
index f2fbe81..c7b0b16 100644
--- a/src/optionals/optionals.c
+++ b/src/optionals/optionals.c
@@ -42,7 +42,7 @@ Value importBuiltinModule(DictuVM *vm, int index) {
 
 int findBuiltinModule(char *name, int length, bool *dictuSource) {
     for (int i = 0; modules[i].module != NULL; ++i) {
-        if (strncmp(modules[i].name, name, length) == 0) {
+        if ((int) strlen(modules[i].name) == length && strncmp(modules[i].name, name, length) == 0) {
             *dictuSource = modules[i].dictuSource;
 
             return i;
diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index b331f09..c55829a 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2666,7 +2666,7 @@ static void importStatement(Compiler *compiler) {
 
         int index = findBuiltinModule(
             (char *) compiler->parser->previous.start,
-            compiler->parser->previous.length - compiler->parser->current.length,
+            compiler->parser->previous.length,
             &dictuSource
         );
 
-- 
2.43.0


From 4560e5c40d932c5429efe0ca2a478314d1976350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 052/182] fix: calls nested too deeply overflow the stack with
 an error instead of corrupting memory

---
 src/vm/vm.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 9cfb31f..bcc0ad7 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -266,6 +266,12 @@ static bool call(DictuVM *vm, ObjClosure *closure, int argCount) {
         vm->stackTop -= 2;
         push(vm, OBJ_VAL(list));
     }
+    // Leave room for the locals and temporaries of the function
+    if (vm->stackTop - vm->stack > STACK_MAX - 4 * UINT8_COUNT) {
+        runtimeError(vm, "Stack overflow.");
+        return false;
+    }
+
     if (vm->frameCount == vm->frameCapacity) {
         int oldCapacity = vm->frameCapacity;
         vm->frameCapacity = GROW_CAPACITY(vm->frameCapacity);
@@ -1714,7 +1720,9 @@ static DictuInterpretResult run(DictuVM *vm) {
             push(vm, OBJ_VAL(closure));
 
             frame->ip = ip;
-            call(vm, closure, 0);
+            if (!call(vm, closure, 0)) {
+                return INTERPRET_RUNTIME_ERROR;
+            }
             frame = &vm->frames[vm->frameCount - 1];
             ip = frame->ip;
 
@@ -1743,7 +1751,9 @@ static DictuInterpretResult run(DictuVM *vm) {
 
             if (IS_CLOSURE(module)) {
                 frame->ip = ip;
-                call(vm, AS_CLOSURE(module), 0);
+                if (!call(vm, AS_CLOSURE(module), 0)) {
+                    return INTERPRET_RUNTIME_ERROR;
+                }
                 frame = &vm->frames[vm->frameCount - 1];
                 ip = frame->ip;
 
-- 
2.43.0


From f48032cba344c706f69720f6219489d885bfb0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 053/182] fix: a module that does not compile left the
 interpreter's stack as it was

---
 src/vm/vm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index bcc0ad7..9e68276 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1713,7 +1713,12 @@ static DictuInterpretResult run(DictuVM *vm) {
 
             FREE_ARRAY(vm, char, source, strlen(source) + 1);
 
-            if (function == NULL) return INTERPRET_COMPILE_ERROR;
+            if (function == NULL) {
+                // It can be imported again once it has been corrected
+                tableDelete(vm, &vm->modules, module->name);
+                resetStack(vm);
+                return INTERPRET_COMPILE_ERROR;
+            }
             push(vm, OBJ_VAL(function));
             ObjClosure *closure = newClosure(vm, function);
             pop(vm);
-- 
2.43.0


From 69dac7d99ffc834e245242fcb54c629408d0858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:05 +0000
Subject: [PATCH 054/182] fix: code nested too deeply is a compile error
 instead of overflowing the C stack

---
 src/vm/compiler.c | 35 +++++++++++++++++++++++++++++++++++
 src/vm/compiler.h |  2 ++
 2 files changed, 37 insertions(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index c55829a..67fce01 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1574,8 +1574,34 @@ ParseRule rules[] = {
         {NULL,     NULL,      PREC_NONE},               // TOKEN_ERROR
 };
 
+// The compiler is recursive, do not let it run out of stack.
+#define MAX_COMPILER_STACK (2 * 1024 * 1024)
+
+static bool nestedTooDeep(Compiler *compiler) {
+    Parser *parser = compiler->parser;
+    const char here = 0;
+
+    if (labs((long) (parser->stackBase - &here)) < MAX_COMPILER_STACK) {
+        return false;
+    }
+
+    error(parser, "Code is nested too deeply.");
+
+    // Nothing that follows can be compiled, leave every level.
+    while (parser->current.type != TOKEN_EOF) {
+        advance(parser);
+    }
+
+    return true;
+}
+
 static void parsePrecedence(Compiler *compiler, Precedence precedence) {
     Parser *parser = compiler->parser;
+
+    if (nestedTooDeep(compiler)) {
+        return;
+    }
+
     advance(parser);
     ParsePrefixFn prefixRule = getRule(parser->previous.type)->prefix;
     if (prefixRule == NULL) {
@@ -2909,6 +2935,10 @@ static void synchronize(Parser *parser) {
 }
 
 static void declaration(Compiler *compiler) {
+    if (nestedTooDeep(compiler)) {
+        return;
+    }
+
     if (match(compiler, TOKEN_CLASS)) {
         classDeclaration(compiler);
         if (compiler->parser->panicMode) synchronize(compiler->parser);
@@ -2937,6 +2967,10 @@ static void declaration(Compiler *compiler) {
 }
 
 static void statement(Compiler *compiler) {
+    if (nestedTooDeep(compiler)) {
+        return;
+    }
+
     if (match(compiler, TOKEN_FOR)) {
         forStatement(compiler);
     } else if (match(compiler, TOKEN_IF)) {
@@ -2994,6 +3028,7 @@ ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
     parser.vm = vm;
     parser.hadError = false;
     parser.panicMode = false;
+    parser.stackBase = (const char *) &parser;
     parser.module = module;
 
     Scanner scanner;
diff --git a/src/vm/compiler.h b/src/vm/compiler.h
index 166a72b..1d435f4 100644
--- a/src/vm/compiler.h
+++ b/src/vm/compiler.h
@@ -83,6 +83,8 @@ typedef struct {
     LangToken previous;
     bool hadError;
     bool panicMode;
+    // Address of a local of compile(), to measure how deep the recursion is.
+    const char *stackBase;
     ObjModule *module;
 } Parser;
 
-- 
2.43.0


From f59012dba84c8d273f15253ae61913a7bb83a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 055/182] fix: an annotation that fails to parse crashed the
 compiler on the member behind it

---
 src/vm/compiler.c | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 67fce01..4a11559 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1650,6 +1650,21 @@ static void function(Compiler *compiler, FunctionType type, AccessLevel level) {
     endCompiler(&fnCompiler);
 }
 
+// Give the annotations parsed last to the member that follows them. There are none
+// of that kind if there was an error in between.
+static void nameAnnotations(Compiler *compiler, ObjDict *annotations, uint8_t constant) {
+    DictuVM *vm = compiler->parser->vm;
+    Value name = currentChunk(compiler)->constants.values[constant];
+    Value existingDict;
+
+    if (annotations == NULL || !dictGet(annotations, OBJ_VAL(vm->annotationString), &existingDict)) {
+        return;
+    }
+
+    dictSet(vm, annotations, name, existingDict);
+    dictDelete(vm, annotations, OBJ_VAL(vm->annotationString));
+}
+
 static void method(Compiler *compiler, bool private, LangToken *identifier, bool *hasAnnotation) {
     AccessLevel level = ACCESS_PUBLIC;
     FunctionType type;
@@ -1691,14 +1706,7 @@ static void method(Compiler *compiler, bool private, LangToken *identifier, bool
     }
 
     if (*hasAnnotation) {
-        DictuVM *vm = compiler->parser->vm;
-
-        Value existingDict;
-        dictGet(compiler->methodAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
-        ObjString *methodName = AS_STRING(currentChunk(compiler)->constants.values[constant]);
-        dictSet(vm, compiler->methodAnnotations, OBJ_VAL(methodName), existingDict);
-        dictDelete(vm, compiler->methodAnnotations, OBJ_VAL(vm->annotationString));
-
+        nameAnnotations(compiler, compiler->methodAnnotations, constant);
         *hasAnnotation = false;
     }
 
@@ -1796,6 +1804,7 @@ static Value parseDict(Compiler *compiler) {
         Value key = parseValue(compiler);
 
         if (IS_EMPTY(key) || IS_DICT(key)) {
+            pop(vm);
             errorAtCurrent(compiler->parser, "Invalid key type for annotation dictionary, allowed: bool, number, string, nil");
             return EMPTY_VAL;
         }
@@ -1805,6 +1814,8 @@ static Value parseDict(Compiler *compiler) {
         push(vm, key);
         Value value = parseValue(compiler);
         if (IS_EMPTY(value)) {
+            pop(vm);
+            pop(vm);
             errorAtCurrent(compiler->parser, "Invalid value type for annotation dictionary, allowed: dict, list, bool, number, string, nil");
             return EMPTY_VAL;
         }
@@ -1835,6 +1846,7 @@ static Value parseList(Compiler *compiler) {
         Value value = parseValue(compiler);
 
         if (IS_EMPTY(value)) {
+            pop(vm);
             errorAtCurrent(compiler->parser, "Invalid value type for annotation list, allowed: dict, list, bool, number, string, nil");
             return EMPTY_VAL;
         }
@@ -1865,6 +1877,7 @@ static void parseAnnotations(Compiler *compiler, ObjDict *annotationDict) {
             if (!checkLiteralToken(compiler)) {
                 errorAtCurrent(compiler->parser,
                                "Annotations can only have literal values of type string, bool, number or nil.");
+                pop(vm);
                 return;
             }
 
@@ -1985,13 +1998,7 @@ static void parseClassBody(Compiler *compiler) {
             emitByte(compiler, false);
 
             if (hasAnnotation) {
-                DictuVM *vm = compiler->parser->vm;
-                ObjString *varName = AS_STRING(currentChunk(compiler)->constants.values[name]);
-
-                Value existingDict;
-                dictGet(compiler->fieldAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
-                dictSet(vm, compiler->fieldAnnotations, OBJ_VAL(varName), existingDict);
-                dictDelete(vm, compiler->fieldAnnotations, OBJ_VAL(vm->annotationString));
+                nameAnnotations(compiler, compiler->fieldAnnotations, name);
 
                 hasAnnotation = false;
             }
@@ -2006,13 +2013,7 @@ static void parseClassBody(Compiler *compiler) {
             emitByte(compiler, true);
 
             if (hasAnnotation) {
-                DictuVM *vm = compiler->parser->vm;
-                ObjString *varName = AS_STRING(currentChunk(compiler)->constants.values[name]);
-
-                Value existingDict;
-                dictGet(compiler->fieldAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
-                dictSet(vm, compiler->fieldAnnotations, OBJ_VAL(varName), existingDict);
-                dictDelete(vm, compiler->fieldAnnotations, OBJ_VAL(vm->annotationString));
+                nameAnnotations(compiler, compiler->fieldAnnotations, name);
 
                 hasAnnotation = false;
             }
-- 
2.43.0


From 5a1e617ce039798d7ea4b36a12511e3f88f8210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:16 +0000
Subject: [PATCH 056/182] fix: names declared once the constants have run out
 crashed the compiler

---
 src/vm/compiler.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 4a11559..1ecb144 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -299,6 +299,12 @@ static uint8_t identifierConstant(Compiler *compiler, LangToken *name) {
     return index;
 }
 
+// The constant is not a name when there was no room left for it, which has been reported.
+static ObjString *constantName(Compiler *compiler, uint8_t constant) {
+    Value name = currentChunk(compiler)->constants.values[constant];
+    return IS_STRING(name) ? AS_STRING(name) : compiler->parser->vm->initString;
+}
+
 static bool identifiersEqual(LangToken *a, LangToken *b) {
     if (a->length != b->length) return false;
     return memcmp(a->start, b->start, a->length) == 0;
@@ -437,13 +443,13 @@ static void defineVariable(Compiler *compiler, uint8_t global, bool constant) {
     if (compiler->scopeDepth == 0) {
         Value _;
         if (!compiler->parser->vm->repl &&
-            tableGet(&compiler->parser->vm->constants, AS_STRING(currentChunk(compiler)->constants.values[global]), &_)) {
+            tableGet(&compiler->parser->vm->constants, constantName(compiler, global), &_)) {
             error(compiler->parser, "Cannot redeclare a constant.");
         }
 
         if (constant) {
             tableSet(compiler->parser->vm, &compiler->parser->vm->constants,
-                     AS_STRING(currentChunk(compiler)->constants.values[global]), NIL_VAL);
+                     constantName(compiler, global), NIL_VAL);
         }
 
         emitBytes(compiler, OP_DEFINE_MODULE, global);
@@ -884,7 +890,7 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
                 privateIndexes[fnCompiler->function->privatePropertyCount++] = index;
 
                 tableSet(compiler->parser->vm, &compiler->class->privateVariables,
-                        AS_STRING(currentChunk(fnCompiler)->constants.values[paramConstant]), EMPTY_VAL);
+                        constantName(fnCompiler, paramConstant), EMPTY_VAL);
             } else if (privateKeyword) {
                 error(fnCompiler->parser, "private keyword in a function definition that is not a class constructor");
             }
@@ -1264,7 +1270,7 @@ static void checkConst(Compiler *compiler, uint8_t setOp, int arg) {
         }
     } else if (setOp == OP_SET_MODULE) {
         Value _;
-        if (tableGet(&compiler->parser->vm->constants, AS_STRING(currentChunk(compiler)->constants.values[arg]), &_)) {
+        if (tableGet(&compiler->parser->vm->constants, constantName(compiler, arg), &_)) {
             error(compiler->parser, "Cannot assign to a constant.");
         }
     }
@@ -2033,7 +2039,7 @@ static void parseClassBody(Compiler *compiler) {
                         uint8_t name = identifierConstant(compiler, &compiler->parser->previous);
                         consume(compiler, TOKEN_SEMICOLON, "Expect ';' after private variable declaration.");
                         tableSet(compiler->parser->vm, &compiler->class->privateVariables,
-                                 AS_STRING(currentChunk(compiler)->constants.values[name]), EMPTY_VAL);
+                                 constantName(compiler, name), EMPTY_VAL);
                         continue;
                     }
 
-- 
2.43.0


From e0632aa90737f75622bea6fe661202da74c1c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 057/182] fix: a statement that begins with a raw string
 counted its lines twice and read its escapes

---
 src/vm/compiler.c | 6 +++---
 src/vm/scanner.c  | 4 ----
 src/vm/scanner.h  | 1 -
 3 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 1ecb144..006cc92 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2264,12 +2264,12 @@ static void varDeclaration(Compiler *compiler, bool constant) {
 
 static void expressionStatement(Compiler *compiler) {
     LangToken previous = compiler->parser->previous;
+    Scanner scanner = compiler->parser->scanner;
     advance(compiler->parser);
     LangTokenType t = compiler->parser->current.type;
 
-    for (int i = 0; i < compiler->parser->current.length; ++i) {
-        backTrack(&compiler->parser->scanner);
-    }
+    // The token after the first was only looked at, it is scanned again
+    compiler->parser->scanner = scanner;
     compiler->parser->current = compiler->parser->previous;
     compiler->parser->previous = previous;
 
diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index d89bfc8..1e55449 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -361,10 +361,6 @@ static LangToken string(Scanner *scanner, char stringToken) {
     return makeToken(scanner,TOKEN_STRING);
 }
 
-void backTrack(Scanner *scanner) {
-    scanner->current--;
-}
-
 LangToken scanToken(Scanner *scanner) {
     skipWhitespace(scanner);
 
diff --git a/src/vm/scanner.h b/src/vm/scanner.h
index 4215ed9..53a32fa 100644
--- a/src/vm/scanner.h
+++ b/src/vm/scanner.h
@@ -63,7 +63,6 @@ typedef struct {
 
 void initScanner(Scanner *scanner, const char *source);
 
-void backTrack(Scanner *scanner);
 
 LangToken scanToken(Scanner *scanner);
 
-- 
2.43.0


From 3faca0ac5c94f1d192850ccd8e6da1cb89349634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:14 +0000
Subject: [PATCH 058/182] fix: set() took values that are not hashable

---
 src/vm/natives.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/natives.c b/src/vm/natives.c
index 99772f6..9270f9f 100644
--- a/src/vm/natives.c
+++ b/src/vm/natives.c
@@ -20,6 +20,13 @@ static Value typeNative(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value setNative(DictuVM *vm, int argCount, Value *args) {
+    for (int i = 0; i < argCount; i++) {
+        if (!isValidKey(args[i])) {
+            runtimeError(vm, "Set value must be an immutable type");
+            return EMPTY_VAL;
+        }
+    }
+
     ObjSet *set = newSet(vm);
     push(vm, OBJ_VAL(set));
 
-- 
2.43.0


From 35efb257475b3718d324c67010911d6c36dff5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:42 +0000
Subject: [PATCH 059/182] fix: Random.select() of an empty list divided by zero

---
 src/optionals/random.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/random.c b/src/optionals/random.c
index 05afe32..12c54a8 100644
--- a/src/optionals/random.c
+++ b/src/optionals/random.c
@@ -45,6 +45,11 @@ static Value randomSelect(DictuVM *vm, int argCount, Value *args) {
     argCount = list->values.count;
     args = list->values.values;
 
+    if (argCount == 0) {
+        runtimeError(vm, "select() argument must not be empty");
+        return EMPTY_VAL;
+    }
+
     int index = rand() % argCount;
     return args[index];
 }
-- 
2.43.0


From e79bd68a4e7ffd5de2d55eb7707d3b93d6ad74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:42 +0000
Subject: [PATCH 060/182] fix: string methods stopped at an embedded NUL, and
 replace() read past its copy of such a string

---
 src/vm/datatypes/strings.c | 150 +++++++++++++++++--------------------
 1 file changed, 69 insertions(+), 81 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 82d2d82..f826f0e 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -46,6 +46,17 @@ static Value toNumberString(DictuVM *vm, int argCount, Value *args) {
     return newResultSuccess(vm, NUMBER_VAL(number));
 }
 
+// strstr() for strings that may hold a NUL
+static char *findBytes(const char *string, int length, const char *sub, int subLength) {
+    for (int i = 0; i + subLength <= length; ++i) {
+        if (memcmp(string + i, sub, subLength) == 0) {
+            return (char *) string + i;
+        }
+    }
+
+    return NULL;
+}
+
 static Value formatString(DictuVM *vm, int argCount, Value *args) {
     if (argCount == 0) {
         runtimeError(vm, "format() takes at least 1 argument (%d given)", argCount);
@@ -54,35 +65,36 @@ static Value formatString(DictuVM *vm, int argCount, Value *args) {
 
     int length = 0;
     char **replaceStrings = ALLOCATE(vm, char*, argCount);
+    int *replaceLengths = ALLOCATE(vm, int, argCount);
 
     for (int j = 1; j < argCount + 1; j++) {
         Value value = args[j];
-        if (!IS_STRING(value))
+        if (!IS_STRING(value)) {
             replaceStrings[j - 1] = valueToString(value);
-        else {
+            replaceLengths[j - 1] = strlen(replaceStrings[j - 1]);
+        } else {
             ObjString *strObj = AS_STRING(value);
             char *str = malloc(strObj->length + 1);
             memcpy(str, strObj->chars, strObj->length + 1);
             replaceStrings[j - 1] = str;
+            replaceLengths[j - 1] = strObj->length;
         }
 
-        length += strlen(replaceStrings[j - 1]);
+        length += replaceLengths[j - 1];
     }
 
     ObjString *string = AS_STRING(args[0]);
 
-    int stringLen = string->length + 1;
-    char *tmp = ALLOCATE(vm, char, stringLen);
-    char *tmpFree = tmp;
-    memcpy(tmp, string->chars, stringLen);
+    char *tmp = string->chars;
+    char *end = string->chars + string->length;
 
     int count = 0;
-    while ((tmp = strstr(tmp, "{}"))) {
+    while ((tmp = findBytes(tmp, end - tmp, "{}", 2))) {
         count++;
         tmp++;
     }
 
-    tmp = tmpFree;
+    tmp = string->chars;
 
     if (count != argCount) {
         runtimeError(vm, "format() placeholders do not match arguments");
@@ -91,8 +103,8 @@ static Value formatString(DictuVM *vm, int argCount, Value *args) {
             free(replaceStrings[i]);
         }
 
-        FREE_ARRAY(vm, char, tmp , stringLen);
         FREE_ARRAY(vm, char*, replaceStrings, argCount);
+        FREE_ARRAY(vm, int, replaceLengths, argCount);
         return EMPTY_VAL;
     }
 
@@ -102,12 +114,10 @@ static Value formatString(DictuVM *vm, int argCount, Value *args) {
     int stringLength = 0;
 
     for (int i = 0; i < argCount; ++i) {
-        pos = strstr(tmp, "{}");
-        if (pos != NULL)
-            *pos = '\0';
+        pos = findBytes(tmp, end - tmp, "{}", 2);
 
-        int tmpLength = strlen(tmp);
-        int replaceLength = strlen(replaceStrings[i]);
+        int tmpLength = pos - tmp;
+        int replaceLength = replaceLengths[i];
         memcpy(newStr + stringLength, tmp, tmpLength);
         memcpy(newStr + stringLength + tmpLength, replaceStrings[i], replaceLength);
         stringLength += tmpLength + replaceLength;
@@ -116,9 +126,9 @@ static Value formatString(DictuVM *vm, int argCount, Value *args) {
     }
 
     FREE_ARRAY(vm, char*, replaceStrings, argCount);
-    memcpy(newStr + stringLength, tmp, string->length - (tmp - tmpFree));
+    FREE_ARRAY(vm, int, replaceLengths, argCount);
+    memcpy(newStr + stringLength, tmp, end - tmp);
     newStr[fullLength - 1] = '\0';
-    FREE_ARRAY(vm, char, tmpFree, stringLen);
 
     return OBJ_VAL(takeString(vm, newStr, fullLength - 1));
 }
@@ -135,7 +145,7 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjString *string = AS_STRING(args[0]);
-    char *delimiter = AS_CSTRING(args[1]);
+    ObjString *delimiter = AS_STRING(args[1]);
     int maxSplit = string->length + 1;
 
     if (argCount == 2) {
@@ -149,11 +159,9 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    char *tmp = ALLOCATE(vm, char, string->length + 1);
-    char *tmpFree = tmp;
-    memcpy(tmp, string->chars, string->length);
-    tmp[string->length] = '\0';
-    int delimiterLength = strlen(delimiter);
+    char *tmp = string->chars;
+    char *end = string->chars + string->length;
+    int delimiterLength = delimiter->length;
     char *token;
 
     ObjList *list = newList(vm);
@@ -164,9 +172,7 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
         int tokenIndex = 0;
         for (; tokenIndex < string->length && count < maxSplit; tokenIndex++) {
             count++;
-            *(tmp) = string->chars[tokenIndex];
-            *(tmp + 1) = '\0';
-            Value str = OBJ_VAL(copyString(vm, tmp, 1));
+            Value str = OBJ_VAL(copyString(vm, string->chars + tokenIndex, 1));
             // Push to stack to avoid GC
             push(vm, str);
             writeValueArray(vm, &list->values, str);
@@ -181,27 +187,21 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
     } else if (maxSplit > 0) {
         do {
             count++;
-            token = strstr(tmp, delimiter);
-            if (token)
-                *token = '\0';
+            token = findBytes(tmp, end - tmp, delimiter->chars, delimiterLength);
 
-            Value str = OBJ_VAL(copyString(vm, tmp, strlen(tmp)));
+            Value str = OBJ_VAL(copyString(vm, tmp, (token != NULL ? token : end) - tmp));
 
             // Push to stack to avoid GC
             push(vm, str);
             writeValueArray(vm, &list->values, str);
             pop(vm);
 
-            tmp = token + delimiterLength;
+            tmp = token != NULL ? token + delimiterLength : NULL;
         } while (token != NULL && count < maxSplit);
-
-        if (token == NULL) {
-            tmp = NULL;
-        }
     }
 
     if (tmp != NULL && count >= maxSplit) {
-        Value remainingStr = OBJ_VAL(copyString(vm, tmp, strlen(tmp)));
+        Value remainingStr = OBJ_VAL(copyString(vm, tmp, end - tmp));
 
         // Push to stack to avoid GC
         push(vm, remainingStr);
@@ -211,7 +211,6 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
 
     pop(vm);
 
-    FREE_ARRAY(vm, char, tmpFree, string->length + 1);
     return OBJ_VAL(list);
 }
 
@@ -226,10 +225,10 @@ static Value containsString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *string = AS_CSTRING(args[0]);
-    char *delimiter = AS_CSTRING(args[1]);
+    ObjString *string = AS_STRING(args[0]);
+    ObjString *delimiter = AS_STRING(args[1]);
 
-    if (!strstr(string, delimiter)) {
+    if (!findBytes(string->chars, string->length, delimiter->chars, delimiter->length)) {
         return FALSE_VAL;
     }
 
@@ -258,20 +257,21 @@ static Value findString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *substr = AS_CSTRING(args[1]);
+    ObjString *substr = AS_STRING(args[1]);
     char *string = AS_CSTRING(args[0]);
+    char *end = string + AS_STRING(args[0])->length;
 
     int position = 0;
 
     for (int i = 0; i < index; ++i) {
-        char *result = strstr(string, substr);
+        char *result = findBytes(string, end - string, substr->chars, substr->length);
         if (!result) {
             position = -1;
             break;
         }
 
-        position += (result - string) + (i * strlen(substr));
-        string = result + strlen(substr);
+        position += (result - string) + (i * substr->length);
+        string = result + substr->length;
     }
 
     return NUMBER_VAL(position);
@@ -291,17 +291,12 @@ static Value findLastString(DictuVM *vm, int argCount, Value *args) {
     const char *str = AS_CSTRING(args[0]);
     const char *ss = AS_CSTRING(args[1]);
     const char *p = str;
-    int found = !*ss;
+    int found = AS_STRING(args[1])->length == 0;
 
     if (!found) {
-        while (*p) {
-            ++p;
-        }
+        p += AS_STRING(args[0])->length;
 
-        const char *q = ss;
-        while (*q) {
-            ++q;
-        }
+        const char *q = ss + AS_STRING(args[1])->length;
 
         while (!found && !(p-str < q-ss)) {
             const char *s = p;
@@ -340,53 +335,45 @@ static Value replaceString(DictuVM *vm, int argCount, Value *args) {
     Value stringValue = args[0];
     ObjString *to_replace = AS_STRING(args[1]);
     ObjString *replace = AS_STRING(args[2]);
-    char *string = AS_CSTRING(stringValue);
+    ObjString *string = AS_STRING(stringValue);
 
     int count = 0;
     int len = to_replace->length;
     int replaceLen = replace->length;
-    int stringLen = strlen(string) + 1;
 
-    // Make a copy of the string so we do not modify the original
-    char *tmp = ALLOCATE(vm, char, stringLen + 1);
-    char *tmpFree = tmp;
-    memcpy(tmp, string, stringLen);
-    tmp[stringLen] = '\0';
+    char *tmp = string->chars;
+    char *end = string->chars + string->length;
 
     // Count the occurrences of the needle so we can determine the size
     // of the string we need to allocate
-    while (len != 0 && (tmp = strstr(tmp, to_replace->chars)) != NULL) {
+    while (len != 0 && (tmp = findBytes(tmp, end - tmp, to_replace->chars, len)) != NULL) {
         count++;
         tmp += len;
     }
 
     // Reset the pointer
-    tmp = tmpFree;
+    tmp = string->chars;
 
     if (count == 0) {
-        FREE_ARRAY(vm, char, tmpFree, stringLen + 1);
         return stringValue;
     }
 
-    int length = strlen(tmp) - count * (len - replaceLen) + 1;
+    int length = string->length - count * (len - replaceLen) + 1;
     char *pos;
     char *newStr = ALLOCATE(vm, char, length);
     int stringLength = 0;
 
     for (int i = 0; i < count; ++i) {
-        pos = strstr(tmp, to_replace->chars);
-        if (pos != NULL)
-            *pos = '\0';
+        pos = findBytes(tmp, end - tmp, to_replace->chars, len);
 
-        int tmpLength = strlen(tmp);
+        int tmpLength = pos - tmp;
         memcpy(newStr + stringLength, tmp, tmpLength);
         memcpy(newStr + stringLength + tmpLength, replace->chars, replaceLen);
         stringLength += tmpLength + replaceLen;
         tmp = pos + len;
     }
 
-    memcpy(newStr + stringLength, tmp, strlen(tmp));
-    FREE_ARRAY(vm, char, tmpFree, stringLen + 1);
+    memcpy(newStr + stringLength, tmp, end - tmp);
     newStr[length - 1] = '\0';
 
     return OBJ_VAL(takeString(vm, newStr, length - 1));
@@ -437,10 +424,10 @@ static Value startsWithString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *string = AS_CSTRING(args[0]);
+    ObjString *string = AS_STRING(args[0]);
     ObjString *start = AS_STRING(args[1]);
 
-    return BOOL_VAL(strncmp(string, start->chars, start->length) == 0);
+    return BOOL_VAL(string->length >= start->length && memcmp(string->chars, start->chars, start->length) == 0);
 }
 
 static Value endsWithString(DictuVM *vm, int argCount, Value *args) {
@@ -461,7 +448,7 @@ static Value endsWithString(DictuVM *vm, int argCount, Value *args) {
         return FALSE_VAL;
     }
 
-    return BOOL_VAL(strcmp(string->chars + (string->length - suffix->length), suffix->chars) == 0);
+    return BOOL_VAL(memcmp(string->chars + (string->length - suffix->length), suffix->chars, suffix->length) == 0);
 }
 
 static Value leftStripString(DictuVM *vm, int argCount, Value *args) {
@@ -541,13 +528,14 @@ static Value countString(DictuVM *vm, int argCount, Value *args) {
     }
 
     char *haystack = AS_CSTRING(args[0]);
-    char *needle = AS_CSTRING(args[1]);
+    char *end = haystack + AS_STRING(args[0])->length;
+    ObjString *needle = AS_STRING(args[1]);
 
     int count = 0;
-    while ((haystack = strstr(haystack, needle))) {
+    while ((haystack = findBytes(haystack, end - haystack, needle->chars, needle->length))) {
         count++;
 
-        if (*haystack == '\0') {
+        if (haystack == end) {
             break;
         }
 
@@ -564,9 +552,9 @@ static Value wordCountString(DictuVM *vm, int argCount, Value *args) {
     }
 
     char *string = AS_CSTRING(args[0]);
-    
+
     int count = 0;
-    int len = strlen(string);
+    int len = AS_STRING(args[0])->length;
     bool in = false;
 
     for (int i = 0; i < len; i++) {
@@ -650,7 +638,7 @@ static Value isUpperString(DictuVM *vm, int argCount, Value *args) {
     }
 
     char *string = AS_CSTRING(args[0]);
-    int len = strlen(string);
+    int len = AS_STRING(args[0])->length;
 
     if (len == 0) {
         return BOOL_VAL(false);
@@ -672,7 +660,7 @@ static Value isLowerString(DictuVM *vm, int argCount, Value *args) {
     }
 
     char *string = AS_CSTRING(args[0]);
-    int len = strlen(string);
+    int len = AS_STRING(args[0])->length;
 
     if (len == 0) {
         return BOOL_VAL(false);
@@ -695,10 +683,10 @@ static Value collapseSpacesString(DictuVM *vm, int argCount, Value *args) {
 
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
-    strcpy(temp, string->chars);
+    memcpy(temp, string->chars, string->length);
 
     int i, j;
-    for (i = j = 0; temp[i]; ++i) {
+    for (i = j = 0; i < string->length; ++i) {
         if (!isspace(temp[i]) || (i > 0 && !isspace(temp[i-1]))) {
             temp[j++] = temp[i];
         }
-- 
2.43.0


From 35ebb2eef2b4f28173ee46df79e38acc7e888206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:25 +0000
Subject: [PATCH 061/182] fix: the Log module took arguments that are not
 strings for strings

---
 src/optionals/log.c | 50 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index 1cfdb64..ce30b2f 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -32,6 +32,11 @@ static Value printLog(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "print() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     struct tm *ptm = timeNow();
 
     char *msg = AS_CSTRING(args[0]);
@@ -47,6 +52,11 @@ static Value printlnLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "println() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "println() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -63,6 +73,11 @@ static Value fatalLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "fatal() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "fatal() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -79,6 +94,11 @@ static Value fatallnLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "fatalln() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "fatalln() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -106,6 +126,11 @@ static Value logObjSetPrefix(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "setPrefix() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
     char *prefix = AS_CSTRING(args[1]);
     
@@ -140,6 +165,11 @@ static Value logObjPrint(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "print() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -166,6 +196,11 @@ static Value logObjPrintln(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "println() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -192,6 +227,11 @@ static Value logObjFatal(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "fatal() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -210,6 +250,11 @@ static Value logObjFatalln(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "fatalln() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -261,6 +306,11 @@ static Value newLog(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_NUMBER(args[0])) {
+        runtimeError(vm, "new() argument must be a number");
+        return EMPTY_VAL;
+    }
+
     ObjAbstract *abstract = newLogObj(vm);
     Log *log = abstract->data;
 
-- 
2.43.0


From c52a1b1cf4b984d64e91136ad73895fd780ef316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:25 +0000
Subject: [PATCH 062/182] fix: Log printed the month before the current one

---
 src/optionals/log.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index ce30b2f..995580d 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -41,7 +41,7 @@ static Value printLog(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[0]);
     printf("%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     return NIL_VAL;
@@ -62,7 +62,7 @@ static Value printlnLog(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[0]);
     printf("%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     return NIL_VAL;
@@ -83,7 +83,7 @@ static Value fatalLog(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[0]);
     printf("%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
     
     exit(1);
@@ -104,7 +104,7 @@ static Value fatallnLog(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[0]);
     printf("%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
     
     exit(1);
@@ -177,14 +177,14 @@ static Value logObjPrint(DictuVM *vm, int argCount, Value *args) {
 
     if (log->prefix != NULL && strlen(log->prefix) != 0) {
         fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s", 
-            ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
             ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
 
         return NIL_VAL;
     }
 
     fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     return NIL_VAL;
@@ -208,14 +208,14 @@ static Value logObjPrintln(DictuVM *vm, int argCount, Value *args) {
 
     if (log->prefix != NULL && strlen(log->prefix) != 0) {
         fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s\n", 
-            ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
             ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
 
         return NIL_VAL;
     }
 
     fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     return NIL_VAL;
@@ -238,7 +238,7 @@ static Value logObjFatal(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[1]);
     fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     exit(1);
@@ -261,7 +261,7 @@ static Value logObjFatalln(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[1]);
     fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     exit(1);
-- 
2.43.0


From 1dac5ac470304fb271d6e461cb5adf68b906152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:25 +0000
Subject: [PATCH 063/182] fix: fatal() and fatalln() of a logger left its
 prefix out, and fatal() ended the line

---
 src/optionals/log.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index 995580d..a861f30 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -237,7 +237,15 @@ static Value logObjFatal(DictuVM *vm, int argCount, Value *args) {
     struct tm *ptm = timeNow();
 
     char *msg = AS_CSTRING(args[1]);
-    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
+    if (log->prefix != NULL && strlen(log->prefix) != 0) {
+        fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s", 
+            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
+            ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
+
+        exit(1);
+    }
+
+    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s", 
         ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
@@ -260,6 +268,14 @@ static Value logObjFatalln(DictuVM *vm, int argCount, Value *args) {
     struct tm *ptm = timeNow();
 
     char *msg = AS_CSTRING(args[1]);
+    if (log->prefix != NULL && strlen(log->prefix) != 0) {
+        fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s\n", 
+            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
+            ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
+
+        exit(1);
+    }
+
     fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
         ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
-- 
2.43.0


From 0f100fe634ba0e47ffffb47754dc13bebe06796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:35 +0000
Subject: [PATCH 064/182] fix: FFI.load() of something other than a string
 crashed

---
 src/optionals/ffi/ffi.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optionals/ffi/ffi.c b/src/optionals/ffi/ffi.c
index 90adec1..fadfd02 100644
--- a/src/optionals/ffi/ffi.c
+++ b/src/optionals/ffi/ffi.c
@@ -87,6 +87,12 @@ static Value load(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "load() takes one argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "load() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     ObjString *path = AS_STRING(args[0]);
 #ifdef _WIN32
     HMODULE library = LoadLibrary(path->chars);
-- 
2.43.0


From 551eb3a02e8169ff988046a006e6b468e81fc741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:35 +0000
Subject: [PATCH 065/182] fix: BigInt.new() went on after it reported the wrong
 number of arguments

---
 src/optionals/bigint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index 37b3b23..1fd8fb5 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -179,6 +179,7 @@ static Value unwrapBigInt(Value val) {
 static Value newBigInt(DictuVM *vm, int argCount, Value *args) {
     if (argCount > 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     if (argCount == 0) {
-- 
2.43.0


From 2f2edbf3fa1bc5b6b5ccc8121d62fc6d87a59552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:35 +0000
Subject: [PATCH 066/182] fix: BigInt.new() of a Result took the Result itself
 for the BigInt in it

---
 src/optionals/bigint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index 1fd8fb5..63a8a94 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -195,7 +195,7 @@ static Value newBigInt(DictuVM *vm, int argCount, Value *args) {
     Value val = unwrapBigInt(args[0]);
 
     if (isBigIntValue(val)) {
-        return newBigIntValue(vm, cloneBigInt(vm, AS_ABSTRACT(args[0])->data));
+        return newBigIntValue(vm, cloneBigInt(vm, AS_ABSTRACT(val)->data));
     }
 
     return newResultError(vm, "error: invalid argument");
-- 
2.43.0


From 17888eab73a458ea7df53aa238222b4496a0f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:39 +0000
Subject: [PATCH 067/182] fix: operations of a BigInt went on after they
 reported the wrong number of arguments

---
 src/optionals/bigint.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index 63a8a94..bd8ad56 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -224,6 +224,7 @@ static Value handleLongOrUnwrapError(DictuVM *vm, bool argIsLong) {
 static Value applyOp1Arg(DictuVM *vm, int argCount, Value *args, int (*op)(const bigint*, const bigint*)) {
     if (argCount != 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     bool argIsLong;
@@ -272,6 +273,7 @@ static Value applyOp0ArgToReturn(DictuVM *vm, int argCount, Value *args, bigint*
 static Value applyOp1ArgAndReturn(DictuVM *vm, int argCount, Value *args, bigint* (*op)(bigint*, const bigint*, const bigint*)) {
     if (argCount != 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     bool argIsLong;
-- 
2.43.0


From c156bb6778a03cf177b76ae29500128eeb213ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:39 +0000
Subject: [PATCH 068/182] fix: freeing what FFI.load() had made before it
 failed crashed

---
 src/optionals/ffi/ffi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/ffi/ffi.c b/src/optionals/ffi/ffi.c
index fadfd02..9435910 100644
--- a/src/optionals/ffi/ffi.c
+++ b/src/optionals/ffi/ffi.c
@@ -57,6 +57,11 @@ void *ffi_function_pointers[] = {&copyString,
 
 void freeFFI(DictuVM *vm, ObjAbstract *abstract) {
     FFIInstance *instance = (FFIInstance *)abstract->data;
+
+    // load() failed before there was anything to release
+    if (instance == NULL)
+        return;
+
     free(instance->path);
 #ifdef _WIN32
     FreeLibrary(instance->library);
-- 
2.43.0


From b2987dfc22a18b22e117895dc86c7ee0161067db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:39 +0000
Subject: [PATCH 069/182] fix: JSON.stringify() overflowed its buffer given a
 negative or a huge indent

---
 src/optionals/json.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index 2140092..5eef9d9 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -200,6 +200,11 @@ Value stringify(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
+        if (!(AS_NUMBER(args[1]) >= 0 && AS_NUMBER(args[1]) <= 255)) {
+            runtimeError(vm, "stringify() indent must be between 0 and 255.");
+            return EMPTY_VAL;
+        }
+
         lineType = json_serialize_mode_multiline;
         indent = AS_NUMBER(args[1]);
     }
-- 
2.43.0


From 193c025f8111c52e231d923e13d3213933083212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:19 +0000
Subject: [PATCH 070/182] fix: a Buffer was read and written past its end given
 an index outside it

---
 src/optionals/buffer.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 1015693..713797b 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -45,21 +45,22 @@ uint8_t *swap(uint8_t *ptr, size_t len, bool bigEndian) {
     return ptr;
 }
 
-bool ensureSize(Buffer *buffer, size_t offset, size_t size) {
-    return buffer->size - offset >= size;
+bool ensureSize(Buffer *buffer, double offset, size_t size) {
+    return offset >= 0 && offset <= buffer->size &&
+           (size_t)buffer->size - (size_t)offset >= size;
 }
 
-bool writeInternal(Buffer *buffer, size_t offset, uint8_t *data, size_t len) {
+bool writeInternal(Buffer *buffer, double offset, uint8_t *data, size_t len) {
     if (!ensureSize(buffer, offset, len))
         return false;
-    memcpy(buffer->bytes + offset, data, len);
+    memcpy(buffer->bytes + (size_t)offset, data, len);
     return true;
 }
 
-uint8_t *getReadPtr(Buffer *buffer, size_t offset, size_t len) {
+uint8_t *getReadPtr(Buffer *buffer, double offset, size_t len) {
     if (!ensureSize(buffer, offset, len))
         return NULL;
-    return buffer->bytes + offset;
+    return buffer->bytes + (size_t)offset;
 }
 
 static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
@@ -74,7 +75,7 @@ static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[1]);
-    if (capacity <= 0 || capacity >= BUFFER_SIZE_MAX) {
+    if (!(capacity >= 1 && capacity < BUFFER_SIZE_MAX)) {
         return newResultError(
             vm, "size must be greater than 0 and smaller than 2147483647");
     }
@@ -758,7 +759,7 @@ static Value bufferGet(DictuVM *vm, int argCount, Value *args) {
     }
 
     double index = AS_NUMBER(args[1]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -787,7 +788,7 @@ static Value bufferSet(DictuVM *vm, int argCount, Value *args) {
 
     double index = AS_NUMBER(args[1]);
     double value = AS_NUMBER(args[2]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -819,7 +820,7 @@ static Value bufferWriteString(DictuVM *vm, int argCount, Value *args) {
 
     double index = AS_NUMBER(args[1]);
     ObjString *str = AS_STRING(args[2]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -846,6 +847,9 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double startParam = AS_NUMBER(args[1]);
+        if (!(startParam >= 0)) {
+            return newResultError(vm, "start must be greater than -1");
+        }
         if (startParam >= buffer->size) {
             return newResultError(vm,
                                   "start greater or equals than buffer length");
@@ -860,6 +864,9 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double endParam = AS_NUMBER(args[2]);
+        if (!(endParam >= 0)) {
+            return newResultError(vm, "end must be greater than -1");
+        }
         if (endParam > buffer->size) {
             return newResultError(vm, "end greater than buffer length");
         } else {
@@ -886,6 +893,9 @@ static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double startParam = AS_NUMBER(args[1]);
+        if (!(startParam >= 0)) {
+            return newResultError(vm, "start must be greater than -1");
+        }
         if (startParam >= buffer->size) {
             return newResultError(vm,
                                   "start greater or equals than buffer length");
@@ -900,6 +910,9 @@ static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double endParam = AS_NUMBER(args[2]);
+        if (!(endParam >= 0)) {
+            return newResultError(vm, "end must be greater than -1");
+        }
         if (endParam > buffer->size) {
             return newResultError(vm, "end greater than buffer length");
         } else {
@@ -1002,7 +1015,7 @@ static Value newBuffer(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0 || capacity >= BUFFER_SIZE_MAX) {
+    if (!(capacity >= 1 && capacity < BUFFER_SIZE_MAX)) {
         return newResultError(
             vm, "capacity must be greater than 0 and less than 2147483647");
     }
-- 
2.43.0


From 8efba5591265f9ef3e8fd6ac280309180d468a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:19 +0000
Subject: [PATCH 071/182] fix: Math.min() and Math.max() took a first argument
 that is not a number, and read past an empty list

---
 src/optionals/math.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index 2899cf1..c8eae3c 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -95,7 +95,12 @@ static Value maxNative(DictuVM *vm, int argCount, Value *args) {
         args = list->values.values;
     }
 
-    double maximum = AS_NUMBER(args[0]);
+    if (argCount > 0 && !IS_NUMBER(args[0])) {
+        runtimeError(vm, "A non-number value passed to max()");
+        return EMPTY_VAL;
+    }
+
+    double maximum = argCount > 0 ? AS_NUMBER(args[0]) : 0;
 
     for (int i = 1; i < argCount; ++i) {
         Value value = args[i];
@@ -123,7 +128,12 @@ static Value minNative(DictuVM *vm, int argCount, Value *args) {
         args = list->values.values;
     }
 
-    double minimum = AS_NUMBER(args[0]);
+    if (argCount > 0 && !IS_NUMBER(args[0])) {
+        runtimeError(vm, "A non-number value passed to min()");
+        return EMPTY_VAL;
+    }
+
+    double minimum = argCount > 0 ? AS_NUMBER(args[0]) : 0;
 
     for (int i = 1; i < argCount; ++i) {
         Value value = args[i];
-- 
2.43.0


From e42e078d1ee88b9030b55a46f377c96ccc3e25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:19 +0000
Subject: [PATCH 072/182] fix: Random.range() divided by zero, or left its
 range, given an upper bound below the lower

---
 src/optionals/random.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/optionals/random.c b/src/optionals/random.c
index 12c54a8..d7bb956 100644
--- a/src/optionals/random.c
+++ b/src/optionals/random.c
@@ -24,9 +24,20 @@ static Value randomRange(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int upper = AS_NUMBER(args[1]);
-    int lower = AS_NUMBER(args[0]);
-    int random_val = (rand() % (upper - lower + 1)) + lower;
+    if (!(fabs(AS_NUMBER(args[0])) <= INT32_MAX && fabs(AS_NUMBER(args[1])) <= INT32_MAX)) {
+        runtimeError(vm, "range() arguments are out of range");
+        return EMPTY_VAL;
+    }
+
+    int64_t upper = AS_NUMBER(args[1]);
+    int64_t lower = AS_NUMBER(args[0]);
+
+    if (upper < lower) {
+        runtimeError(vm, "range() upper bound must not be less than its lower bound");
+        return EMPTY_VAL;
+    }
+
+    int64_t random_val = (rand() % (upper - lower + 1)) + lower;
     return NUMBER_VAL(random_val);
 }
 
-- 
2.43.0


From 25494aeaf90ec4a26450328c0eb53a6fa58fe5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 073/182] fix: Path.join() read and wrote outside its parts
 when one was empty or only separators

---
 src/optionals/path.c | 78 +++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 41 deletions(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index b7336f4..4d3f7d0 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -257,58 +257,54 @@ static Value joinNative(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    ObjString* part;
-    // resultSize = # of dir separators that will be used + length of each string arg
-    size_t resultSize = abs(argCount - 1); // abs is needed here because of a clang bug
+    // At most every part, and a separator on either side of each
+    size_t maxSize = argCount + 1;
     for (int i = 0; i < argCount; ++i) {
-        part = AS_STRING(args[i]);
-        resultSize += part->length;
-        // Account for leading DIR_SEPARATOR chars to be removed
-        for (int j = 0; j < part->length; ++j) {
-            if (part->chars[j] == DIR_SEPARATOR) --resultSize;
-            else break;
-        }
-        // Account for trailing DIR_SEPARATOR chars to be removed
-        for (int j = part->length - 1; j >= 0; --j) {
-            if (part->chars[j] == DIR_SEPARATOR) --resultSize;
-            else break;
-        }
+        maxSize += AS_STRING(args[i])->length;
+    }
+
+    char* str = ALLOCATE(vm, char, maxSize + 1);
+    size_t resultSize = 0;
+
+    // Skip leading DIR_SEPARATOR characters on everything except for one on the first part,
+    // and trailing DIR_SEPARATOR characters on everything except for one on the last part.
+    // e.g. `join('///tmp///', '/abc///')` returns '/tmp/abc/' instead of '///tmp////abc///'
+    // A part that has nothing else in it adds nothing.
+    ObjString* first = AS_STRING(args[0]);
+    ObjString* last = AS_STRING(args[argCount - 1]);
+
+    if (first->length > 0 && first->chars[0] == DIR_SEPARATOR) {
+        str[resultSize++] = DIR_SEPARATOR;
     }
-    // Account for leading/trailing DIR_SEPARATOR on the first/last part respectively
-    part = AS_STRING(args[0]);
-    resultSize += part->chars[0] == DIR_SEPARATOR;
-    part = AS_STRING(args[argCount - 1]);
-    resultSize += part->chars[part->length - 1] == DIR_SEPARATOR;
-
-    char* str = ALLOCATE(vm, char, resultSize + 1);
-    char* dest = str;
-    for (int i = 0; i < argCount; ++i) {
-        part = AS_STRING(args[i]);
 
-        // Skip leading DIR_SEPARATOR characters on everything except for one on the first part,
-        // and trailing DIR_SEPARATOR characters on everything except for one on the last part.
-        // e.g. `join('///tmp///', '/abc///')` returns '/tmp/abc' instead of '///tmp////abc///'
+    for (int i = 0; i < argCount; ++i) {
+        ObjString* part = AS_STRING(args[i]);
         int start = 0;
-        while (part->chars[start++] == DIR_SEPARATOR);
-        int end = part->length - 1;
-        while (part->chars[end--] == DIR_SEPARATOR);
+        int end = part->length;
 
-        bool lastIteration = i == argCount - 1;
+        while (start < end && part->chars[start] == DIR_SEPARATOR) ++start;
+        while (end > start && part->chars[end - 1] == DIR_SEPARATOR) --end;
 
-        // Check if the first part starts with a DIR_SEPARATOR so that we can preserve it
-        bool firstLeadingDirSep = !i && part->chars[0] == DIR_SEPARATOR;
+        if (start == end) {
+            continue;
+        }
 
-        // Check if the last part ends with a DIR_SEPARATOR so that we can preserve it
-        bool lastTrailingDirSep = lastIteration && part->chars[part->length - 1] == DIR_SEPARATOR;
+        if (resultSize > 0 && str[resultSize - 1] != DIR_SEPARATOR) {
+            str[resultSize++] = DIR_SEPARATOR;
+        }
 
-        // Append the part string to the end of dest
-        for (int j = start - 1 - firstLeadingDirSep; j <= end + 1 + lastTrailingDirSep; ++j)
-            *dest++ = part->chars[j];
+        memcpy(str + resultSize, part->chars + start, end - start);
+        resultSize += end - start;
+    }
 
-        // Append a DIR_SEPARATOR if necessary
-        if (!lastIteration && part->chars[end + 1] != DIR_SEPARATOR) *dest++ = DIR_SEPARATOR;
+    if (last->length > 0 && last->chars[last->length - 1] == DIR_SEPARATOR &&
+        resultSize > 0 && str[resultSize - 1] != DIR_SEPARATOR) {
+        str[resultSize++] = DIR_SEPARATOR;
     }
 
+    str[resultSize] = '\0';
+    str = SHRINK_ARRAY(vm, str, char, maxSize + 1, resultSize + 1);
+
     return OBJ_VAL(takeString(vm, str, resultSize));
 }
 
-- 
2.43.0


From 0da734666b1475c98db14643e9f7c9583a7aa0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 074/182] fix: Path.isDir() of something that does not exist
 looked at an uninitialised answer

---
 src/optionals/path.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index 4d3f7d0..b064918 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -146,7 +146,9 @@ static Value isdirNative(DictuVM *vm, int argCount, Value *args) {
 
     char *path = AS_CSTRING(args[0]);
     struct stat path_stat;
-    stat(path, &path_stat);
+
+    if (stat(path, &path_stat) != 0)
+        return FALSE_VAL;
 
     if (S_ISDIR(path_stat.st_mode))
         return TRUE_VAL;
-- 
2.43.0


From 94cadb9fc388582cacefe9098779236e7f40b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 075/182] fix: readString() and subarray() of a Buffer ignored
 their end given more than two arguments

---
 src/optionals/buffer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 713797b..2b0b13b 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -837,6 +837,11 @@ static Value bufferWriteString(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
+    if (argCount > 2) {
+        runtimeError(vm, "readString() takes 0 to 2 arguments (%d given).", argCount);
+        return EMPTY_VAL;
+    }
+
     Buffer *buffer = AS_BUFFER(args[0]);
     size_t start = 0;
     size_t end = buffer->size;
@@ -883,6 +888,11 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
+    if (argCount > 2) {
+        runtimeError(vm, "subarray() takes 0 to 2 arguments (%d given).", argCount);
+        return EMPTY_VAL;
+    }
+
     Buffer *buffer = AS_BUFFER(args[0]);
     size_t start = 0;
     size_t end = buffer->size;
-- 
2.43.0


From 5319ba1ec13ab2e44b64a6535191013ed274b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 076/182] fix: System.mkdirAll() wrote before its path given an
 empty one, cut long ones, and failed when a parent existed

---
 src/optionals/system.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/optionals/system.c b/src/optionals/system.c
index 9a17a8b..8d010e9 100644
--- a/src/optionals/system.c
+++ b/src/optionals/system.c
@@ -281,14 +281,18 @@ static Value mkdirAllNative(DictuVM *vm, int argCount, Value *args) {
         mode = AS_NUMBER(args[1]);
     }
 
-    char tmp[256];
+    char tmp[PATH_MAX];
     char *p = NULL;
-    size_t len;
+    size_t len = strlen(dir);
 
-    snprintf(tmp, sizeof(tmp), "%s", dir);
+    if (len == 0 || len >= sizeof(tmp)) {
+        errno = len == 0 ? ENOENT : ENAMETOOLONG;
+        ERROR_RESULT;
+    }
+
+    memcpy(tmp, dir, len + 1);
 
-    len = strlen(tmp);
-    if (tmp[len - 1] == '/' || tmp[len - 1] == '\\') {
+    if (len > 1 && (tmp[len - 1] == '/' || tmp[len - 1] == '\\')) {
         tmp[len - 1] = 0;
     }
 
@@ -299,7 +303,8 @@ static Value mkdirAllNative(DictuVM *vm, int argCount, Value *args) {
             *p = 0;
 
             retval = MKDIR(tmp, mode);
-            if (retval < 0) {
+            // Parents that exist already are as good as new ones
+            if (retval < 0 && errno != EEXIST) {
                 ERROR_RESULT;
             }
 
-- 
2.43.0


From f07f9689b0cfc2f7c21fb411f8f22951b1200e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 077/182] fix: writing to a socket nobody reads from ended the
 interpreter with SIGPIPE

---
 src/optionals/socket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optionals/socket.c b/src/optionals/socket.c
index d7251d0..a4b9a98 100644
--- a/src/optionals/socket.c
+++ b/src/optionals/socket.c
@@ -169,7 +169,11 @@ static Value writeSocket(DictuVM *vm, int argCount, Value *args) {
     SocketData *sock = AS_SOCKET(args[0]);
     ObjString *message = AS_STRING(args[1]);
 
+#ifdef MSG_NOSIGNAL
+    int writeRet = send(sock->socket, message->chars, message->length, MSG_NOSIGNAL);
+#else
     int writeRet = write(sock->socket , message->chars, message->length);
+#endif
 
     if (writeRet == -1) {
         ERROR_RESULT;
-- 
2.43.0


From 2a0b3df0ebabcae9331a8b65c6f192a95903b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 078/182] fix: Object.prettyPrint() crashed when it could not
 stringify its argument

---
 src/optionals/object/object.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optionals/object/object.c b/src/optionals/object/object.c
index 100bb26..1e7126e 100644
--- a/src/optionals/object/object.c
+++ b/src/optionals/object/object.c
@@ -66,9 +66,13 @@ static Value objectPrettyPrint(DictuVM *vm, int argCount, Value *args) {
     }
 
     Value out = stringify(vm, argCount, args);
+    if (IS_EMPTY(out)) {
+        return EMPTY_VAL;
+    }
+
     ObjResult *res = AS_RESULT(out);
     if (res->status == ERR) {
-        runtimeError(vm, AS_CSTRING(res->value));
+        runtimeError(vm, "%s", AS_CSTRING(res->value));
         return EMPTY_VAL;
     }
     
-- 
2.43.0


From 4a03ee2c236c60d668098670c17b1979c8c9bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:02 +0000
Subject: [PATCH 079/182] fix: Process.run() and exec() leaked the argument
 array given a list with a non-string

---
 src/optionals/process.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index ec7de1f..8ee74ab 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -143,6 +143,7 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
     char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
     for (int i = 0; i < argList->values.count; ++i) {
         if (!IS_STRING(argList->values.values[i])) {
+            FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
             return newResultError(vm, "Arguments passed must all be strings");
         }
 
@@ -174,6 +175,7 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
     for (int i = 0; i < argList->values.count; ++i) {
         if (!IS_STRING(argList->values.values[i])) {
+            FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
             return newResultError(vm, "Arguments passed must all be strings");
         }
 
-- 
2.43.0


From 7ae7e7f1f388f21363d5392b48fec4754eaeddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:02 +0000
Subject: [PATCH 080/182] fix: Process.run() and exec() of an empty list handed
 the child a NULL program name

---
 src/optionals/process.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index 8ee74ab..c2cc014 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -140,6 +140,10 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
 }
 #else
 static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
+    if (argList->values.count == 0) {
+        return newResultError(vm, "Arguments passed must not be empty");
+    }
+
     char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
     for (int i = 0; i < argList->values.count; ++i) {
         if (!IS_STRING(argList->values.values[i])) {
@@ -172,6 +176,10 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
 }
 
 static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
+    if (argList->values.count == 0) {
+        return newResultError(vm, "Arguments passed must not be empty");
+    }
+
     char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
     for (int i = 0; i < argList->values.count; ++i) {
         if (!IS_STRING(argList->values.values[i])) {
-- 
2.43.0


From 7eb2a91dc4fd1c5f86216ccfb865a9f482aa9f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:02 +0000
Subject: [PATCH 081/182] fix: a program Process could not start wrote the
 buffered output of the parent a second time

---
 src/optionals/process.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index c2cc014..b16bdc1 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -158,7 +158,7 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
     pid_t pid = fork();
     if (pid == 0) {
         execvp(arguments[0], arguments);
-        exit(errno);
+        _exit(errno);
     }
 
     FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
@@ -204,7 +204,7 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
         close(fd[1]);
 
         execvp(arguments[0], arguments);
-        exit(errno);
+        _exit(errno);
     }
 
     FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
-- 
2.43.0


From a90f33a450d7d9c52f8682e5ed848551007b21f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:02 +0000
Subject: [PATCH 082/182] fix: the error of Process.run() for a failing program
 was whatever errno happened to hold

---
 src/optionals/process.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index b16bdc1..ba08d7f 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -168,6 +168,7 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
         waitpid(pid, &status, 0);
 
         if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
+            errno = status;
             ERROR_RESULT;
         }
     }
@@ -215,6 +216,7 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     waitpid(pid, &status, 0);
 
     if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
+        errno = status;
         ERROR_RESULT;
     }
 
-- 
2.43.0


From 3e811461b07b8266dbc51138e775fed3d6ef8faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:02 +0000
Subject: [PATCH 083/182] fix: Process.run() overran its buffer, hung on more
 output than a pipe holds and never closed the pipe

---
 src/optionals/process.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index ba08d7f..5403f29 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -212,14 +212,6 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
 
     close(fd[1]);
 
-    int status = 0;
-    waitpid(pid, &status, 0);
-
-    if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
-        errno = status;
-        ERROR_RESULT;
-    }
-
     int size = 1024;
     char* output = ALLOCATE(vm, char, size);
     char buffer[1024];
@@ -227,7 +219,14 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     int numRead;
 
     while ((numRead = read(fd[0], buffer, 1024)) != 0) {
-        if (total >= size) {
+        if (numRead == -1) {
+            if (errno == EINTR) {
+                continue;
+            }
+            break;
+        }
+
+        if (total + numRead >= size) {
             output = GROW_ARRAY(vm, output, char, size, size * 3);
             size *= 3;
         }
@@ -236,6 +235,17 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
         total += numRead;
     }
 
+    close(fd[0]);
+
+    int status = 0;
+    waitpid(pid, &status, 0);
+
+    if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
+        FREE_ARRAY(vm, char, output, size);
+        errno = status;
+        ERROR_RESULT;
+    }
+
     output = SHRINK_ARRAY(vm, output, char, size, total + 1);
     output[total] = '\0';
 
-- 
2.43.0


From f93cee89635f7d4794ccc46db8df724241e109d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:02 +0000
Subject: [PATCH 084/182] fix: Process.run() and exec() took a failed fork for
 a started process and leaked after a failed pipe

---
 src/optionals/process.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index 5403f29..ec1d07b 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -163,6 +163,10 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
 
     FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
 
+    if (pid == -1) {
+        ERROR_RESULT;
+    }
+
     if (wait) {
         int status = 0;
         waitpid(pid, &status, 0);
@@ -195,6 +199,7 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
 
     int fd[2];
     if (pipe(fd) != 0) {
+        FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
         ERROR_RESULT;
     }
     pid_t pid = fork();
@@ -212,6 +217,11 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
 
     close(fd[1]);
 
+    if (pid == -1) {
+        close(fd[0]);
+        ERROR_RESULT;
+    }
+
     int size = 1024;
     char* output = ALLOCATE(vm, char, size);
     char buffer[1024];
-- 
2.43.0


From 674163682f072b6fb5950c3d278ca3464bcd3b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:02 +0000
Subject: [PATCH 085/182] fix: Process.kill() without arguments took whatever
 was on the stack for a process id

---
 src/optionals/process.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index ec1d07b..cd9d303 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -311,7 +311,7 @@ static Value runProcess(DictuVM* vm, int argCount, Value* args) {
 
 #ifdef _WIN32
 static Value killProcess(DictuVM* vm, int argCount, Value* args) {
-    if (argCount > 2) {
+    if (argCount != 1 && argCount != 2) {
         runtimeError(vm, "kill() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
@@ -333,7 +333,7 @@ static Value killProcess(DictuVM* vm, int argCount, Value* args) {
 }
 #else
 static Value killProcess(DictuVM* vm, int argCount, Value* args) {
-    if (argCount > 2) {
+    if (argCount != 1 && argCount != 2) {
         runtimeError(vm, "kill() takes 1 or 2 arguments (%d given)", argCount);
         return EMPTY_VAL;
     }
-- 
2.43.0


From 0b78172c01b6a782ade4485c137b6061729b95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:54 +0000
Subject: [PATCH 086/182] fix: a collection while a wrapped queue grew walked
 past the end of its buffer

---
 src/optionals/queue.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index b8204d3..274c397 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -131,8 +131,9 @@ static Value queuePush(DictuVM *vm, int argCount, Value *args) {
 
     if (queue->capacity < queue->count + 1) {
         int oldCapacity = queue->capacity;
-        queue->capacity = GROW_CAPACITY(oldCapacity);
-        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, queue->capacity);
+        int newCapacity = GROW_CAPACITY(oldCapacity);
+        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, newCapacity);
+        queue->capacity = newCapacity;
 
         // Move the elements between front and the old end to the new end
         if (queue->front != 0) {
-- 
2.43.0


From 645873731a2095e7b0a4c779c282d218f870ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:02 +0000
Subject: [PATCH 087/182] fix: toNumber() refused the text of numbers too small
 to be normalised

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index f826f0e..21808e1 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -27,7 +27,7 @@ static Value toNumberString(DictuVM *vm, int argCount, Value *args) {
     double number = strtod(numberString, &end);
 
     // Failed conversion
-    if (errno != 0 || end == numberString || end != numberString + AS_STRING(args[0])->length) {
+    if ((errno != 0 && (number == 0 || number == HUGE_VAL || number == -HUGE_VAL)) || end == numberString || end != numberString + AS_STRING(args[0])->length) {
         int length = AS_STRING(args[0])->length;
 
         char *errorMsg = ALLOCATE(vm, char, 29 + length);
-- 
2.43.0


From 1f36c78d904e36e717cb14cde403663bd9945b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 088/182] fix: sort() took far more than quadratic time, a list
 of some hundred elements never finished

---
 src/vm/datatypes/lists/lists.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 7389e39..eec24bc 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -385,11 +385,11 @@ static void quickSort(ObjList *arr, int start, int end, int (*partition)(ObjList
         if (part - start < end - part) {
             quickSort(arr, start, part, partition);
 
-            start = start + 1;
+            start = part + 1;
         } else {
             quickSort(arr, part + 1, end, partition);
 
-            end = end - 1;
+            end = part;
         }
     }
 }
-- 
2.43.0


From d40985c538efe75fb89224c5db08242794184460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 089/182] fix: pop() of a list took the position just behind
 its last element

---
 src/vm/datatypes/lists/lists.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index eec24bc..ec8db6e 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -135,7 +135,7 @@ static Value popListItem(DictuVM *vm, int argCount, Value *args) {
         if (index < 0) {
             index = list->values.count + index;
         }
-        if (index < 0 || index > list->values.count) {
+        if (index < 0 || index >= list->values.count) {
             runtimeError(vm, "Index passed to pop() is out of bounds for the list given");
             return EMPTY_VAL;
         }
-- 
2.43.0


From 85e10a906d7cfddd26e116106c99f875d60bfac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 090/182] fix: extending a list with itself never ended

---
 src/vm/datatypes/lists/lists.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index ec8db6e..ce7c47b 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -50,7 +50,9 @@ static Value extendList(DictuVM *vm, int argCount, Value *args) {
     ObjList *list = AS_LIST(args[0]);
     ObjList *listArgument = AS_LIST(args[1]);
 
-    for (int i = 0; i < listArgument->values.count; i++) {
+    int count = listArgument->values.count;
+
+    for (int i = 0; i < count; i++) {
         writeValueArray(vm, &list->values, listArgument->values.values[i]);
     }
 
-- 
2.43.0


From c7ff5255675272b91699a5b8c0f9cd039c28fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 091/182] fix: sort() compared strings only up to their first
 NUL

---
 src/vm/datatypes/lists/lists.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index ce7c47b..3e2e821 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -313,7 +313,10 @@ static Value copyListDeep(DictuVM *vm, int argCount, Value *args) {
 
 
 int compareString(ObjString *operandOne, ObjString *operandTwo) {
-    return strcmp(operandOne->chars, operandTwo->chars);
+    int length = operandOne->length < operandTwo->length ? operandOne->length : operandTwo->length;
+    int result = memcmp(operandOne->chars, operandTwo->chars, length);
+
+    return result != 0 ? result : operandOne->length - operandTwo->length;
 }
 
 static int partitionStringList(ObjList *arr, int start, int end) {
-- 
2.43.0


From def2c50b5d258c3225921a70a9906c5cf6d00774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 092/182] fix: join() cut its strings and delimiter at their
 first NUL

---
 src/vm/datatypes/lists/lists.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 3e2e821..f3b337c 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -233,6 +233,7 @@ static Value joinListItem(DictuVM *vm, int argCount, Value *args) {
     }
 
     char *delimiter = ", ";
+    int delimiterLength = 2;
 
     if (argCount == 1) {
         if (!IS_STRING(args[1])) {
@@ -241,20 +242,22 @@ static Value joinListItem(DictuVM *vm, int argCount, Value *args) {
         }
 
         delimiter = AS_CSTRING(args[1]);
+        delimiterLength = AS_STRING(args[1])->length;
     }
 
     char *output;
     char *fullString = NULL;
     int length = 0;
-    int delimiterLength = strlen(delimiter);
+    int elementLength;
 
     for (int j = 0; j < list->values.count - 1; ++j) {
         if (IS_STRING(list->values.values[j])) {
             output = AS_CSTRING(list->values.values[j]);
+            elementLength = AS_STRING(list->values.values[j])->length;
         } else {
             output = valueToString(list->values.values[j]);
+            elementLength = strlen(output);
         }
-        int elementLength = strlen(output);
 
         fullString = GROW_ARRAY(vm, fullString, char, length, length + elementLength + delimiterLength);
 
@@ -270,11 +273,12 @@ static Value joinListItem(DictuVM *vm, int argCount, Value *args) {
     // Outside the loop as we do not want the append the delimiter on the last element
     if (IS_STRING(list->values.values[list->values.count - 1])) {
         output = AS_CSTRING(list->values.values[list->values.count - 1]);
+        elementLength = AS_STRING(list->values.values[list->values.count - 1])->length;
     } else {
         output = valueToString(list->values.values[list->values.count - 1]);
+        elementLength = strlen(output);
     }
 
-    int elementLength = strlen(output);
     fullString = GROW_ARRAY(vm, fullString, char, length, length + elementLength + 1);
     memcpy(fullString + length, output, elementLength);
     length += elementLength;
-- 
2.43.0


From 0eb5a5eaf26f7acb30be9b5bd652b925df7783fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:12 +0000
Subject: [PATCH 093/182] fix: split() with a huge split count split nothing

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 21808e1..e3cae7d 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -154,7 +154,7 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
-        if (AS_NUMBER(args[2]) >= 0) {
+        if (AS_NUMBER(args[2]) >= 0 && AS_NUMBER(args[2]) < maxSplit) {
             maxSplit = AS_NUMBER(args[2]);
         }
     }
-- 
2.43.0


From c2f9301c0e13a2000ebf92ff49bf2d4ad840e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:12 +0000
Subject: [PATCH 094/182] fix: find() with a huge count returned 0

---
 src/vm/datatypes/strings.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index e3cae7d..a8e3055 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -249,7 +249,9 @@ static Value findString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
-        index = AS_NUMBER(args[2]);
+        // There are never more occurrences than this
+        double limit = (double) AS_STRING(args[0])->length + 2;
+        index = AS_NUMBER(args[2]) < limit ? AS_NUMBER(args[2]) : limit;
     }
 
     if (!IS_STRING(args[1])) {
-- 
2.43.0


From 762da164ac4b56c25cdffb725df6d0e7578256bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:36 +0000
Subject: [PATCH 095/182] fix: slices with bounds beyond the int range

---
 src/vm/vm.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 9e68276..6aace3d 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <math.h>
 #include <stdarg.h>
 #include <stdio.h>
@@ -2089,9 +2090,11 @@ static DictuInterpretResult run(DictuVM *vm) {
             if (IS_EMPTY(sliceStartIndex)) {
                 indexStart = 0;
             } else {
-                indexStart = AS_NUMBER(sliceStartIndex);
+                double start = AS_NUMBER(sliceStartIndex);
 
-                if (indexStart < 0) {
+                if (start > 0) {
+                    indexStart = start < INT_MAX ? start : INT_MAX;
+                } else {
                     indexStart = 0;
                 }
             }
@@ -2105,7 +2108,8 @@ static DictuInterpretResult run(DictuVM *vm) {
                     if (IS_EMPTY(sliceEndIndex)) {
                         indexEnd = list->values.count;
                     } else {
-                        indexEnd = AS_NUMBER(sliceEndIndex);
+                        double end = AS_NUMBER(sliceEndIndex);
+                        indexEnd = end < INT_MAX ? (end > -INT_MAX ? end : -INT_MAX) : INT_MAX;
 
                         if (indexEnd > list->values.count) {
                             indexEnd = list->values.count;
@@ -2130,7 +2134,8 @@ static DictuInterpretResult run(DictuVM *vm) {
                     if (IS_EMPTY(sliceEndIndex)) {
                         indexEnd = string->length;
                     } else {
-                        indexEnd = AS_NUMBER(sliceEndIndex);
+                        double end = AS_NUMBER(sliceEndIndex);
+                        indexEnd = end < INT_MAX ? (end > -INT_MAX ? end : -INT_MAX) : INT_MAX;
 
                         if (indexEnd > string->length) {
                             indexEnd = string->length;
-- 
2.43.0


From f3b5bdfd05c38cd9616808df9aee83ea68b4b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:39 +0000
Subject: [PATCH 096/182] fix: indexing a string with something that is not a
 number

---
 src/vm/vm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 6aace3d..bf6a6d2 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1913,6 +1913,10 @@ static DictuInterpretResult run(DictuVM *vm) {
                 }
 
                 case OBJ_STRING: {
+                    if (!IS_NUMBER(indexValue)) {
+                        RUNTIME_ERROR("String index must be a number.");
+                    }
+
                     ObjString *string = AS_STRING(subscriptValue);
                     int index = AS_NUMBER(indexValue);
 
-- 
2.43.0


From 12481ae3874012ea360467d82d4e00cdc5b6a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:05 +0000
Subject: [PATCH 097/182] fix: printing a set wrote past its buffer

---
 src/vm/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index 333ef6e..7051ec4 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -493,7 +493,7 @@ char *setToString(Value value) {
         }
 
         if (elementSize > (size - setStringLength - 5)) {
-            if (elementSize > size * 2) {
+            if (elementSize > size) {
                 size += elementSize * 2 + 5;
             } else {
                 size = size * 2 + 5;
-- 
2.43.0


From 8e0a85adeec4bc0013cdfa41ba516242df5d135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:05 +0000
Subject: [PATCH 098/182] fix: printing lists and dictionaries that contain
 each other overflowed the stack

---
 src/vm/object.c | 54 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index 7051ec4..77c0ba7 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -283,7 +283,40 @@ ObjUpvalue *newUpvalue(DictuVM *vm, Value *slot) {
     return upvalue;
 }
 
+// The containers that are being printed, innermost first. One that contains
+// itself, directly or not, is not printed again inside of itself.
+typedef struct sPrinted {
+    Value value;
+    int depth;
+    struct sPrinted *enclosing;
+} Printed;
+
+#define PRINT_DEPTH_MAX 4096
+
+static Printed *printed = NULL;
+
+static bool isPrinted(Value value) {
+    if (!IS_LIST(value) && !IS_DICT(value)) {
+        return false;
+    }
+
+    if (printed->depth >= PRINT_DEPTH_MAX) {
+        return true;
+    }
+
+    for (Printed *p = printed; p != NULL; p = p->enclosing) {
+        if (p->value == value) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 char *listToString(Value value) {
+    Printed self = {value, printed == NULL ? 1 : printed->depth + 1, printed};
+    printed = &self;
+
     int size = 50;
     ObjList *list = AS_LIST(value);
     char *listString = malloc(sizeof(char) * size);
@@ -296,8 +329,10 @@ char *listToString(Value value) {
         char *element;
         int elementSize;
 
-        if (listValue == value) {
-            element = "[...]";
+        bool abbreviate = isPrinted(listValue);
+
+        if (abbreviate) {
+            element = IS_LIST(listValue) ? "[...]" : "{...}";
             elementSize = 5;
         } else if (IS_STRING(listValue)) {
             ObjString *s = AS_STRING(listValue);
@@ -325,7 +360,7 @@ char *listToString(Value value) {
             listString = newB;
         }
 
-        if (listValue == value) {
+        if (abbreviate) {
             memcpy(listString + listStringLength, element, elementSize);
             listStringLength += elementSize;
         } else if (IS_STRING(listValue)) {
@@ -348,10 +383,14 @@ char *listToString(Value value) {
     memcpy(listString + listStringLength, "]", 1);
     listString[listStringLength + 1] = '\0';
 
+    printed = self.enclosing;
     return listString;
 }
 
 char *dictToString(Value value) {
+   Printed self = {value, printed == NULL ? 1 : printed->depth + 1, printed};
+   printed = &self;
+
    int count = 0;
    int size = 50;
    ObjDict *dict = AS_DICT(value);
@@ -410,8 +449,10 @@ char *dictToString(Value value) {
 
        char *element;
        int elementSize;
-       if (item->value == value){
-           element = "{...}";
+       bool abbreviate = isPrinted(item->value);
+
+       if (abbreviate) {
+           element = IS_LIST(item->value) ? "[...]" : "{...}";
            elementSize = 5;
        } else if (IS_STRING(item->value)) {
            ObjString *s = AS_STRING(item->value);
@@ -439,7 +480,7 @@ char *dictToString(Value value) {
            dictString = newB;
        }
 
-       if (item->value == value) {
+       if (abbreviate) {
            memcpy(dictString + dictStringLength, element, elementSize);
            dictStringLength += elementSize;
        } else if (IS_STRING(item->value)) {
@@ -462,6 +503,7 @@ char *dictToString(Value value) {
    memcpy(dictString + dictStringLength, "}", 1);
    dictString[dictStringLength + 1] = '\0';
 
+   printed = self.enclosing;
    return dictString;
 }
 
-- 
2.43.0


From 3632548189af99f89a44b9c087fe7d7ac98a7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 099/182] fix: printed text of values that hold a NUL was cut
 short

---
 src/vm/datatypes/dicts/dicts.c |  5 ++--
 src/vm/datatypes/lists/lists.c | 11 ++++---
 src/vm/datatypes/sets.c        |  5 ++--
 src/vm/datatypes/strings.c     |  3 +-
 src/vm/object.c                | 53 +++++++++++++++++++++++++---------
 src/vm/object.h                |  7 +++--
 src/vm/value.c                 | 22 +++++++++++---
 src/vm/value.h                 |  2 ++
 8 files changed, 75 insertions(+), 33 deletions(-)

diff --git a/src/vm/datatypes/dicts/dicts.c b/src/vm/datatypes/dicts/dicts.c
index 623c0ae..4e9a88d 100644
--- a/src/vm/datatypes/dicts/dicts.c
+++ b/src/vm/datatypes/dicts/dicts.c
@@ -16,9 +16,10 @@ static Value toStringDict(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *valueString = dictToString(args[0]);
+    int length;
+    char *valueString = dictToString(args[0], &length);
 
-    ObjString *string = copyString(vm, valueString, strlen(valueString));
+    ObjString *string = copyString(vm, valueString, length);
     free(valueString);
 
     return OBJ_VAL(string);
diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index f3b337c..6146345 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -18,9 +18,10 @@ static Value toStringList(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *valueString = listToString(args[0]);
+    int length;
+    char *valueString = listToString(args[0], &length);
 
-    ObjString *string = copyString(vm, valueString, strlen(valueString));
+    ObjString *string = copyString(vm, valueString, length);
     free(valueString);
 
     return OBJ_VAL(string);
@@ -255,8 +256,7 @@ static Value joinListItem(DictuVM *vm, int argCount, Value *args) {
             output = AS_CSTRING(list->values.values[j]);
             elementLength = AS_STRING(list->values.values[j])->length;
         } else {
-            output = valueToString(list->values.values[j]);
-            elementLength = strlen(output);
+            output = valueToStringLength(list->values.values[j], &elementLength);
         }
 
         fullString = GROW_ARRAY(vm, fullString, char, length, length + elementLength + delimiterLength);
@@ -275,8 +275,7 @@ static Value joinListItem(DictuVM *vm, int argCount, Value *args) {
         output = AS_CSTRING(list->values.values[list->values.count - 1]);
         elementLength = AS_STRING(list->values.values[list->values.count - 1])->length;
     } else {
-        output = valueToString(list->values.values[list->values.count - 1]);
-        elementLength = strlen(output);
+        output = valueToStringLength(list->values.values[list->values.count - 1], &elementLength);
     }
 
     fullString = GROW_ARRAY(vm, fullString, char, length, length + elementLength + 1);
diff --git a/src/vm/datatypes/sets.c b/src/vm/datatypes/sets.c
index f890768..7e68794 100644
--- a/src/vm/datatypes/sets.c
+++ b/src/vm/datatypes/sets.c
@@ -6,9 +6,10 @@ static Value toStringSet(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *valueString = setToString(args[0]);
+    int length;
+    char *valueString = setToString(args[0], &length);
 
-    ObjString *string = copyString(vm, valueString, strlen(valueString));
+    ObjString *string = copyString(vm, valueString, length);
     free(valueString);
 
     return OBJ_VAL(string);
diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index a8e3055..cf3bde7 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -70,8 +70,7 @@ static Value formatString(DictuVM *vm, int argCount, Value *args) {
     for (int j = 1; j < argCount + 1; j++) {
         Value value = args[j];
         if (!IS_STRING(value)) {
-            replaceStrings[j - 1] = valueToString(value);
-            replaceLengths[j - 1] = strlen(replaceStrings[j - 1]);
+            replaceStrings[j - 1] = valueToStringLength(value, &replaceLengths[j - 1]);
         } else {
             ObjString *strObj = AS_STRING(value);
             char *str = malloc(strObj->length + 1);
diff --git a/src/vm/object.c b/src/vm/object.c
index 77c0ba7..4e4ebb7 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -313,7 +313,7 @@ static bool isPrinted(Value value) {
     return false;
 }
 
-char *listToString(Value value) {
+char *listToString(Value value, int *length) {
     Printed self = {value, printed == NULL ? 1 : printed->depth + 1, printed};
     printed = &self;
 
@@ -339,8 +339,7 @@ char *listToString(Value value) {
             element = s->chars;
             elementSize = s->length;
         } else {
-            element = valueToString(listValue);
-            elementSize = strlen(element);
+            element = valueToStringLength(listValue, &elementSize);
         }
 
         if (elementSize > (size - listStringLength - 6)) {
@@ -382,12 +381,13 @@ char *listToString(Value value) {
 
     memcpy(listString + listStringLength, "]", 1);
     listString[listStringLength + 1] = '\0';
+    *length = listStringLength + 1;
 
     printed = self.enclosing;
     return listString;
 }
 
-char *dictToString(Value value) {
+char *dictToString(Value value, int *length) {
    Printed self = {value, printed == NULL ? 1 : printed->depth + 1, printed};
    printed = &self;
 
@@ -414,8 +414,7 @@ char *dictToString(Value value) {
            key = s->chars;
            keySize = s->length;
        } else {
-           key = valueToString(item->key);
-           keySize = strlen(key);
+           key = valueToStringLength(item->key, &keySize);
        }
 
        if (keySize > (size - dictStringLength - keySize - 4)) {
@@ -459,8 +458,7 @@ char *dictToString(Value value) {
            element = s->chars;
            elementSize = s->length;
        } else {
-           element = valueToString(item->value);
-           elementSize = strlen(element);
+           element = valueToStringLength(item->value, &elementSize);
        }
 
        if (elementSize > (size - dictStringLength - elementSize - 6)) {
@@ -502,12 +500,13 @@ char *dictToString(Value value) {
 
    memcpy(dictString + dictStringLength, "}", 1);
    dictString[dictStringLength + 1] = '\0';
+   *length = dictStringLength + 1;
 
    printed = self.enclosing;
    return dictString;
 }
 
-char *setToString(Value value) {
+char *setToString(Value value, int *length) {
     int count = 0;
     int size = 50;
     ObjSet *set = AS_SET(value);
@@ -530,8 +529,7 @@ char *setToString(Value value) {
             element = s->chars;
             elementSize = s->length;
         } else {
-            element = valueToString(item->value);
-            elementSize = strlen(element);
+            element = valueToStringLength(item->value, &elementSize);
         }
 
         if (elementSize > (size - setStringLength - 5)) {
@@ -571,6 +569,7 @@ char *setToString(Value value) {
 
     memcpy(setString + setStringLength, "}", 1);
     setString[setStringLength + 1] = '\0';
+    *length = setStringLength + 1;
 
     return setString;
 }
@@ -802,15 +801,18 @@ char *objectToString(Value value) {
         }
 
         case OBJ_LIST: {
-            return listToString(value);
+            int length;
+            return listToString(value, &length);
         }
 
         case OBJ_DICT: {
-            return dictToString(value);
+            int length;
+            return dictToString(value, &length);
         }
 
         case OBJ_SET: {
-            return setToString(value);
+            int length;
+            return setToString(value, &length);
         }
 
         case OBJ_UPVALUE: {
@@ -844,3 +846,26 @@ char *objectToString(Value value) {
     snprintf(unknown, 8, "%s", "unknown");
     return unknown;
 }
+
+// As objectToString(), for text that may hold a NUL
+char *objectToStringLength(Value value, int *length) {
+    switch (OBJ_TYPE(value)) {
+        case OBJ_LIST: {
+            return listToString(value, length);
+        }
+
+        case OBJ_DICT: {
+            return dictToString(value, length);
+        }
+
+        case OBJ_SET: {
+            return setToString(value, length);
+        }
+
+        default: {
+            char *string = objectToString(value);
+            *length = IS_STRING(value) ? AS_STRING(value)->length : (int) strlen(string);
+            return string;
+        }
+    }
+}
diff --git a/src/vm/object.h b/src/vm/object.h
index d1144bc..61995e9 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -293,13 +293,14 @@ Value newResultError(DictuVM *vm, char *errorMsg);
 
 ObjUpvalue *newUpvalue(DictuVM *vm, Value *slot);
 
-char *setToString(Value value);
-char *dictToString(Value value);
-char *listToString(Value value);
+char *setToString(Value value, int *length);
+char *dictToString(Value value, int *length);
+char *listToString(Value value, int *length);
 char *classToString(Value value);
 ObjDict *classToDict(DictuVM *vm, Value value);
 char *instanceToString(Value value);
 char *objectToString(Value value);
+char *objectToStringLength(Value value, int *length);
 
 static inline bool isObjType(Value value, ObjType type) {
     return IS_OBJ(value) && AS_OBJ(value)->type == type;
diff --git a/src/vm/value.c b/src/vm/value.c
index ab3df6a..45c277e 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -320,6 +320,18 @@ char *valueToString(Value value) {
     return unknown;
 }
 
+// As valueToString(), for text that may hold a NUL
+// Calling function needs to free memory
+char *valueToStringLength(Value value, int *length) {
+    if (IS_OBJ(value)) {
+        return objectToStringLength(value, length);
+    }
+
+    char *string = valueToString(value);
+    *length = strlen(string);
+    return string;
+}
+
 // Calling function needs to free memory
 char *valueTypeToString(DictuVM *vm, Value value, int *length) {
 #define CONVERT(typeString, size)                     \
@@ -412,14 +424,16 @@ char *valueTypeToString(DictuVM *vm, Value value, int *length) {
 }
 
 void printValue(Value value) {
-    char *output = valueToString(value);
-    printf("%s", output);
+    int length;
+    char *output = valueToStringLength(value, &length);
+    fwrite(output, 1, length, stdout);
     free(output);
 }
 
 void printValueError(Value value) {
-    char *output = valueToString(value);
-    fprintf(stderr, "%s", output);
+    int length;
+    char *output = valueToStringLength(value, &length);
+    fwrite(output, 1, length, stderr);
     free(output);
 }
 
diff --git a/src/vm/value.h b/src/vm/value.h
index fd18534..2a6e7c9 100644
--- a/src/vm/value.h
+++ b/src/vm/value.h
@@ -109,6 +109,8 @@ void graySet(DictuVM *vm, ObjSet *set);
 
 char *valueToString(Value value);
 
+char *valueToStringLength(Value value, int *length);
+
 char *valueTypeToString(DictuVM *vm, Value value, int *length);
 
 void printValue(Value value);
-- 
2.43.0


From 7d37881165315f10bd3f655f7b2405c7396078b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 100/182] fix: copy() of an instance left out its private
 attributes

---
 src/vm/datatypes/copy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/datatypes/copy.c b/src/vm/datatypes/copy.c
index c1862da..c36f3dd 100644
--- a/src/vm/datatypes/copy.c
+++ b/src/vm/datatypes/copy.c
@@ -69,6 +69,7 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
 
     if (shallow) {
         tableAddAll(vm, &oldInstance->publicAttributes, &instance->publicAttributes);
+        tableAddAll(vm, &oldInstance->privateAttributes, &instance->privateAttributes);
     } else {
         for (int i = 0; i < oldInstance->publicAttributes.capacity; i++) {
             Entry *entry = &oldInstance->publicAttributes.entries[i];
-- 
2.43.0


From 1e7f19bcda7f4dbc4945fb25e5b510fb5229263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 101/182] fix: deepCopy() shared nested sets with the original

---
 src/vm/datatypes/copy.c | 72 +++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/src/vm/datatypes/copy.c b/src/vm/datatypes/copy.c
index c36f3dd..d710b09 100644
--- a/src/vm/datatypes/copy.c
+++ b/src/vm/datatypes/copy.c
@@ -1,6 +1,42 @@
 #include "copy.h"
 
-ObjList *copyList(DictuVM* vm, ObjList *oldList, bool shallow);
+static ObjSet *copySet(DictuVM *vm, ObjSet *oldSet) {
+    ObjSet *set = newSet(vm);
+    // Push to stack to avoid GC
+    push(vm, OBJ_VAL(set));
+
+    for (int i = 0; i <= oldSet->capacityMask; ++i) {
+        SetItem *item = &oldSet->entries[i];
+        if (IS_EMPTY(item->value) || item->deleted) {
+            continue;
+        }
+
+        setInsert(vm, set, item->value);
+    }
+
+    pop(vm);
+    return set;
+}
+
+static Value copyValue(DictuVM *vm, Value val) {
+    if (IS_DICT(val)) {
+        return OBJ_VAL(copyDict(vm, AS_DICT(val), false));
+    }
+
+    if (IS_LIST(val)) {
+        return OBJ_VAL(copyList(vm, AS_LIST(val), false));
+    }
+
+    if (IS_INSTANCE(val)) {
+        return OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
+    }
+
+    if (IS_SET(val)) {
+        return OBJ_VAL(copySet(vm, AS_SET(val)));
+    }
+
+    return val;
+}
 
 ObjDict *copyDict(DictuVM* vm, ObjDict *oldDict, bool shallow) {
     ObjDict *dict = newDict(vm);
@@ -15,13 +51,7 @@ ObjDict *copyDict(DictuVM* vm, ObjDict *oldDict, bool shallow) {
         Value val = oldDict->entries[i].value;
 
         if (!shallow) {
-            if (IS_DICT(val)) {
-                val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
-            } else if (IS_LIST(val)) {
-                val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
-            } else if (IS_INSTANCE(val)) {
-                val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
-            }
+            val = copyValue(vm, val);
         }
 
         // Push to stack to avoid GC
@@ -43,13 +73,7 @@ ObjList *copyList(DictuVM* vm, ObjList *oldList, bool shallow) {
         Value val = oldList->values.values[i];
 
         if (!shallow) {
-            if (IS_DICT(val)) {
-                val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
-            } else if (IS_LIST(val)) {
-                val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
-            } else if (IS_INSTANCE(val)) {
-                val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
-            }
+            val = copyValue(vm, val);
         }
 
         // Push to stack to avoid GC
@@ -76,13 +100,7 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
             if (entry->key != NULL) {
                 Value val = entry->value;
 
-                if (IS_LIST(val)) {
-                    val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
-                } else if (IS_DICT(val)) {
-                    val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
-                } else if (IS_INSTANCE(val)) {
-                    val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
-                }
+                val = copyValue(vm, val);
 
                 // Push to stack to avoid GC
                 push(vm, val);
@@ -96,13 +114,7 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
             if (entry->key != NULL) {
                 Value val = entry->value;
 
-                if (IS_LIST(val)) {
-                    val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
-                } else if (IS_DICT(val)) {
-                    val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
-                } else if (IS_INSTANCE(val)) {
-                    val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
-                }
+                val = copyValue(vm, val);
 
                 // Push to stack to avoid GC
                 push(vm, val);
@@ -115,5 +127,3 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
     pop(vm);
     return instance;
 }
-
-// TODO: Set copy
-- 
2.43.0


From 82c0aec48c0454ca2dc75e95876b129a3af9fc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 102/182] fix: deepCopy() of a value that contains itself, or
 that is nested deeply, overflowed the stack

---
 src/vm/datatypes/copy.c        | 35 +++++++++++++++++++++++++++++++---
 src/vm/datatypes/copy.h        |  1 +
 src/vm/datatypes/dicts/dicts.c |  5 +++++
 src/vm/datatypes/instance.c    |  5 +++++
 src/vm/datatypes/lists/lists.c |  5 +++++
 5 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/vm/datatypes/copy.c b/src/vm/datatypes/copy.c
index d710b09..f559a75 100644
--- a/src/vm/datatypes/copy.c
+++ b/src/vm/datatypes/copy.c
@@ -1,5 +1,10 @@
 #include "copy.h"
 
+// Structures that contain themselves, or that are nested too deeply, can not be copied
+static bool stackFull(DictuVM *vm) {
+    return vm->stackTop - vm->stack > STACK_MAX - 2 * UINT8_COUNT;
+}
+
 static ObjSet *copySet(DictuVM *vm, ObjSet *oldSet) {
     ObjSet *set = newSet(vm);
     // Push to stack to avoid GC
@@ -18,17 +23,25 @@ static ObjSet *copySet(DictuVM *vm, ObjSet *oldSet) {
     return set;
 }
 
+// EMPTY_VAL if the value can not be copied
 static Value copyValue(DictuVM *vm, Value val) {
+    if (stackFull(vm)) {
+        return EMPTY_VAL;
+    }
+
     if (IS_DICT(val)) {
-        return OBJ_VAL(copyDict(vm, AS_DICT(val), false));
+        ObjDict *dict = copyDict(vm, AS_DICT(val), false);
+        return dict == NULL ? EMPTY_VAL : OBJ_VAL(dict);
     }
 
     if (IS_LIST(val)) {
-        return OBJ_VAL(copyList(vm, AS_LIST(val), false));
+        ObjList *list = copyList(vm, AS_LIST(val), false);
+        return list == NULL ? EMPTY_VAL : OBJ_VAL(list);
     }
 
     if (IS_INSTANCE(val)) {
-        return OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
+        ObjInstance *instance = copyInstance(vm, AS_INSTANCE(val), false);
+        return instance == NULL ? EMPTY_VAL : OBJ_VAL(instance);
     }
 
     if (IS_SET(val)) {
@@ -52,6 +65,10 @@ ObjDict *copyDict(DictuVM* vm, ObjDict *oldDict, bool shallow) {
 
         if (!shallow) {
             val = copyValue(vm, val);
+            if (IS_EMPTY(val)) {
+                pop(vm);
+                return NULL;
+            }
         }
 
         // Push to stack to avoid GC
@@ -74,6 +91,10 @@ ObjList *copyList(DictuVM* vm, ObjList *oldList, bool shallow) {
 
         if (!shallow) {
             val = copyValue(vm, val);
+            if (IS_EMPTY(val)) {
+                pop(vm);
+                return NULL;
+            }
         }
 
         // Push to stack to avoid GC
@@ -101,6 +122,10 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
                 Value val = entry->value;
 
                 val = copyValue(vm, val);
+                if (IS_EMPTY(val)) {
+                    pop(vm);
+                    return NULL;
+                }
 
                 // Push to stack to avoid GC
                 push(vm, val);
@@ -115,6 +140,10 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
                 Value val = entry->value;
 
                 val = copyValue(vm, val);
+                if (IS_EMPTY(val)) {
+                    pop(vm);
+                    return NULL;
+                }
 
                 // Push to stack to avoid GC
                 push(vm, val);
diff --git a/src/vm/datatypes/copy.h b/src/vm/datatypes/copy.h
index 5e3bc01..91a291a 100644
--- a/src/vm/datatypes/copy.h
+++ b/src/vm/datatypes/copy.h
@@ -8,6 +8,7 @@
 #include "../vm.h"
 #include "../memory.h"
 
+// NULL if a deep copy is impossible, as the value contains itself or is nested too deeply
 ObjList *copyList(DictuVM *vm, ObjList *oldList, bool shallow);
 
 ObjDict *copyDict(DictuVM *vm, ObjDict *oldDict, bool shallow);
diff --git a/src/vm/datatypes/dicts/dicts.c b/src/vm/datatypes/dicts/dicts.c
index 4e9a88d..e152ad1 100644
--- a/src/vm/datatypes/dicts/dicts.c
+++ b/src/vm/datatypes/dicts/dicts.c
@@ -154,6 +154,11 @@ static Value copyDictDeep(DictuVM *vm, int argCount, Value *args) {
     ObjDict *oldDict = AS_DICT(args[0]);
     ObjDict *newDict = copyDict(vm, oldDict, false);
 
+    if (newDict == NULL) {
+        runtimeError(vm, "deepCopy() can not copy a value that contains itself or is nested too deeply");
+        return EMPTY_VAL;
+    }
+
     return OBJ_VAL(newDict);
 }
 
diff --git a/src/vm/datatypes/instance.c b/src/vm/datatypes/instance.c
index 4bd780e..3105d23 100644
--- a/src/vm/datatypes/instance.c
+++ b/src/vm/datatypes/instance.c
@@ -285,6 +285,11 @@ static Value copyDeep(DictuVM *vm, int argCount, Value *args) {
     ObjInstance *oldInstance = AS_INSTANCE(args[0]);
     ObjInstance *instance = copyInstance(vm, oldInstance, false);
 
+    if (instance == NULL) {
+        runtimeError(vm, "deepCopy() can not copy a value that contains itself or is nested too deeply");
+        return EMPTY_VAL;
+    }
+
     return OBJ_VAL(instance);
 }
 
diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 6146345..e47ff3f 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -311,6 +311,11 @@ static Value copyListDeep(DictuVM *vm, int argCount, Value *args) {
     ObjList *oldList = AS_LIST(args[0]);
     ObjList *list = copyList(vm, oldList, false);
 
+    if (list == NULL) {
+        runtimeError(vm, "deepCopy() can not copy a value that contains itself or is nested too deeply");
+        return EMPTY_VAL;
+    }
+
     return OBJ_VAL(list);
 }
 
-- 
2.43.0


From 333affc5a5bbc0d19a8eeb3e6418905b78648261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 103/182] fix: comparing lists and dictionaries that contain
 themselves overflowed the stack

---
 src/vm/value.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/vm/value.c b/src/vm/value.c
index 45c277e..0036c16 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -437,6 +437,27 @@ void printValueError(Value value) {
     free(output);
 }
 
+// The comparison ends at the first difference, so a pair that is met again is
+// equal as far as it has been compared. Remembering one pair every time the
+// depth doubles finds every cycle.
+static int compareDepth = 0;
+static Value comparedA, comparedB;
+
+static bool startCompare(Value a, Value b) {
+    if (compareDepth > 0 && a == comparedA && b == comparedB) {
+        return false;
+    }
+
+    compareDepth++;
+
+    if ((compareDepth & (compareDepth - 1)) == 0) {
+        comparedA = a;
+        comparedB = b;
+    }
+
+    return true;
+}
+
 static bool listComparison(Value a, Value b) {
     ObjList *list = AS_LIST(a);
     ObjList *listB = AS_LIST(b);
@@ -523,11 +544,19 @@ bool valuesEqual(Value a, Value b) {
 
         switch (AS_OBJ(a)->type) {
             case OBJ_LIST: {
-                return listComparison(a, b);
+                if (!startCompare(a, b)) return true;
+
+                bool equal = listComparison(a, b);
+                compareDepth--;
+                return equal;
             }
 
             case OBJ_DICT: {
-                return dictComparison(a, b);
+                if (!startCompare(a, b)) return true;
+
+                bool equal = dictComparison(a, b);
+                compareDepth--;
+                return equal;
             }
 
             case OBJ_SET: {
-- 
2.43.0


From 5804e81831be952050325835ccbcef9d07d8e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:33 +0000
Subject: [PATCH 104/182] fix: toString() of a trait gave the text of a class

---
 src/vm/datatypes/class.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/class.c b/src/vm/datatypes/class.c
index 939295d..a0881fa 100644
--- a/src/vm/datatypes/class.c
+++ b/src/vm/datatypes/class.c
@@ -8,7 +8,7 @@ static Value toString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *valueString = classToString(args[0]);
+    char *valueString = valueToString(args[0]);
 
     ObjString *string = copyString(vm, valueString, strlen(valueString));
     free(valueString);
-- 
2.43.0


From 99726727149babfd033c49459f051c9821933b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:54 +0000
Subject: [PATCH 105/182] fix: JSON.stringify() gave invalid JSON for strings
 with control characters and cut strings at a NUL

---
 src/optionals/json.c                | 7 +++++--
 src/optionals/json/jsonBuilderLib.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index 5eef9d9..eebfbb1 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -112,7 +112,7 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
     } else if (IS_OBJ(value)) {
         switch (AS_OBJ(value)->type) {
             case OBJ_STRING: {
-                return json_string_new(AS_CSTRING(value));
+                return json_string_new_length(AS_STRING(value)->length, AS_CSTRING(value));
             }
 
             case OBJ_LIST: {
@@ -151,10 +151,12 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                     }
 
                     char *key;
+                    int keyLength = -1;
 
                     if (IS_STRING(entry->key)) {
                         ObjString *s = AS_STRING(entry->key);
                         key = s->chars;
+                        keyLength = s->length;
                     } else if (IS_NIL(entry->key)) {
                         key = malloc(5);
                         memcpy(key, "null", 4);
@@ -163,8 +165,9 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                         key = valueToString(entry->key);
                     }
 
-                    json_object_push(
+                    json_object_push_length(
                         json,
+                        keyLength == -1 ? (int) strlen(key) : keyLength,
                         key,
                         element
                     );
diff --git a/src/optionals/json/jsonBuilderLib.c b/src/optionals/json/jsonBuilderLib.c
index 2b2e589..5cc9022 100644
--- a/src/optionals/json/jsonBuilderLib.c
+++ b/src/optionals/json/jsonBuilderLib.c
@@ -479,7 +479,7 @@ static size_t measure_string (unsigned int length,
 
             default:
 
-                ++ measured_length;
+                measured_length += (unsigned char) c < 0x20 ? 6 : 1;
                 break;
         };
     };
@@ -515,7 +515,10 @@ static size_t serialize_string (json_char * buf,
 
             default:
 
-                *buf ++ = c;
+                if ((unsigned char) c < 0x20)
+                    buf += sprintf (buf, "\\u%04x", (unsigned char) c);
+                else
+                    *buf ++ = c;
                 break;
         };
     };
-- 
2.43.0


From 491815d1e760c472c6fe624e59e62d2a6d228a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:54 +0000
Subject: [PATCH 106/182] fix: JSON.stringify() cut numbers to six digits

---
 src/optionals/json/jsonBuilderLib.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/optionals/json/jsonBuilderLib.c b/src/optionals/json/jsonBuilderLib.c
index 5cc9022..5b00f8e 100644
--- a/src/optionals/json/jsonBuilderLib.c
+++ b/src/optionals/json/jsonBuilderLib.c
@@ -33,6 +33,7 @@
 #include <string.h>
 #include <assert.h>
 #include <stdio.h>
+#include <stdlib.h>
 
 #ifdef _MSC_VER
 #define snprintf _snprintf
@@ -526,6 +527,22 @@ static size_t serialize_string (json_char * buf,
     return buf - orig_buf;
 }
 
+/* The shortest text that gives the same number back */
+static int serialize_double (json_char * buf, double dbl)
+{
+    int precision, length = 0;
+
+    for (precision = 15; precision <= 17; ++ precision)
+    {
+        length = sprintf (buf, "%.*g", precision, dbl);
+
+        if (strtod (buf, NULL) == dbl)
+            break;
+    }
+
+    return length;
+}
+
 size_t json_measure (json_value * value)
 {
     return json_measure_ex (value, default_opts);
@@ -665,7 +682,10 @@ size_t json_measure_ex (json_value * value, json_serialize_opts opts)
 
             case json_double:
 
-                total += snprintf (NULL, 0, "%g", value->u.dbl);
+                {
+                    json_char number [32];
+                    total += serialize_double (number, value->u.dbl);
+                }
 
                 /* Because sometimes we need to add ".0" if sprintf does not do it
                  * for us. Downside is that we allocate more bytes than strictly
@@ -883,7 +903,7 @@ void json_serialize_ex (json_char * buf, json_value * value, json_serialize_opts
             case json_double:
 
                 ptr = buf;
-                buf += sprintf (buf, "%g", value->u.dbl);
+                buf += serialize_double (buf, value->u.dbl);
 
                 json_char *dot;
 
-- 
2.43.0


From 6ac5d5f1a19f7599e4512ddf7b31988ef1dac283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:54 +0000
Subject: [PATCH 107/182] fix: JSON.stringify() gave invalid JSON for numbers
 that JSON cannot express

---
 src/optionals/json.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index eebfbb1..dea17e2 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -1,3 +1,6 @@
+#include <limits.h>
+#include <math.h>
+
 #include "json.h"
 
 static Value parseJson(DictuVM *vm, json_value *json) {
@@ -104,7 +107,12 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
     } else if (IS_NUMBER(value)) {
         double num = AS_NUMBER(value);
 
-        if ((int) num == num) {
+        // There is no JSON for NaN and the infinities
+        if (!isfinite(num)) {
+            return NULL;
+        }
+
+        if (num >= INT_MIN && num <= INT_MAX && (int) num == num) {
             return json_integer_new((int) num);
         }
 
-- 
2.43.0


From 558d9abe3a8b592ff0a8a732157eb75085e66e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:54 +0000
Subject: [PATCH 108/182] fix: stringifying a very deep or cyclic value as
 JSON, and parsing very deep JSON, overflowed a stack

---
 src/optionals/json.c | 51 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index dea17e2..bc316e0 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -3,7 +3,14 @@
 
 #include "json.h"
 
-static Value parseJson(DictuVM *vm, json_value *json) {
+// Deeper values are refused, they would overflow the stacks
+#define JSON_MAX_DEPTH 512
+
+static Value parseJson(DictuVM *vm, json_value *json, int depth) {
+    if (depth > JSON_MAX_DEPTH) {
+        return EMPTY_VAL;
+    }
+
     switch (json->type) {
         case json_none:
         case json_null: {
@@ -16,7 +23,13 @@ static Value parseJson(DictuVM *vm, json_value *json) {
             push(vm, OBJ_VAL(dict));
 
             for (unsigned int i = 0; i < json->u.object.length; i++) {
-                Value val = parseJson(vm, json->u.object.values[i].value);
+                Value val = parseJson(vm, json->u.object.values[i].value, depth + 1);
+
+                if (IS_EMPTY(val)) {
+                    pop(vm);
+                    return EMPTY_VAL;
+                }
+
                 push(vm, val);
                 Value key = OBJ_VAL(copyString(vm, json->u.object.values[i].name, json->u.object.values[i].name_length));
                 push(vm, key);
@@ -36,7 +49,13 @@ static Value parseJson(DictuVM *vm, json_value *json) {
             push(vm, OBJ_VAL(list));
 
             for (unsigned int i = 0; i < json->u.array.length; i++) {
-                Value val = parseJson(vm, json->u.array.values[i]);
+                Value val = parseJson(vm, json->u.array.values[i], depth + 1);
+
+                if (IS_EMPTY(val)) {
+                    pop(vm);
+                    return EMPTY_VAL;
+                }
+
                 push(vm, val);
                 writeValueArray(vm, &list->values, val);
                 pop(vm);
@@ -88,18 +107,21 @@ static Value parse(DictuVM *vm, int argCount, Value *args) {
         return newResultError(vm, "Invalid JSON object");
     }
 
-    Value val = parseJson(vm, json_obj);
+    Value val = parseJson(vm, json_obj, 0);
+    json_value_free(json_obj);
 
     if (val == EMPTY_VAL) {
         return newResultError(vm, "Invalid JSON object");
     }
 
-    json_value_free(json_obj);
-
     return newResultSuccess(vm, val);
 }
 
-json_value* stringifyJson(DictuVM *vm, Value value) {
+json_value* stringifyJson(DictuVM *vm, Value value, int depth) {
+    if (depth > JSON_MAX_DEPTH) {
+        return NULL;
+    }
+
     if (IS_NIL(value)) {
         return json_null_new();
     } else if (IS_BOOL(value)) {
@@ -128,7 +150,7 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                 json_value *json = json_array_new(list->values.count);
 
                 for (int i = 0; i < list->values.count; i++) {
-                    json_value *element = stringifyJson(vm, list->values.values[i]);
+                    json_value *element = stringifyJson(vm, list->values.values[i], depth + 1);
 
                     if (element == NULL) {
                         json_builder_free(json);
@@ -151,7 +173,7 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                         continue;
                     }
 
-                    json_value *element = stringifyJson(vm, entry->value);
+                    json_value *element = stringifyJson(vm, entry->value, depth + 1);
 
                     if (element == NULL) {
                         json_builder_free(json);
@@ -220,7 +242,7 @@ Value stringify(DictuVM *vm, int argCount, Value *args) {
         indent = AS_NUMBER(args[1]);
     }
 
-    json_value *json = stringifyJson(vm, args[0]);
+    json_value *json = stringifyJson(vm, args[0], 0);
 
     if (json == NULL) {
         return newResultError(vm, "Object is not serializable");
@@ -234,7 +256,14 @@ Value stringify(DictuVM *vm, int argCount, Value *args) {
     };
 
 
-    int length = json_measure_ex(json, default_opts);
+    size_t size = json_measure_ex(json, default_opts);
+
+    if (size > INT_MAX) {
+        json_builder_free(json);
+        return newResultError(vm, "Object is not serializable");
+    }
+
+    int length = size;
     char *buf = ALLOCATE(vm, char, length);
     json_serialize_ex(buf, json, default_opts);
     int actualLength = strlen(buf);
-- 
2.43.0


From 8c0a28c5ac8637ba6abfa91069577352244fbba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:54 +0000
Subject: [PATCH 109/182] fix: JSON.parse() accepted a minus sign without
 digits, commas before a closing bracket and anything after a NUL

---
 src/optionals/json/jsonParseLib.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index 9e05f8d..ac8168c 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -513,7 +513,7 @@ json_value * json_parse_ex (json_settings * settings,
 
             if (flags & flag_done)
             {
-                if (!b)
+                if (state.ptr == end)
                     break;
 
                 switch (b)
@@ -536,7 +536,8 @@ json_value * json_parse_ex (json_settings * settings,
 
                     case ']':
 
-                        if (top && top->type == json_array)
+                        if (top && top->type == json_array
+                            && ((flags & flag_need_comma) || !top->u.array.length))
                             flags = (flags & ~ (flag_need_comma | flag_seek_value)) | flag_next;
                         else
                         {  sprintf (error, "%u:%u: Unexpected ]", line_and_col);
@@ -725,6 +726,11 @@ json_value * json_parse_ex (json_settings * settings,
 
                             case '}':
 
+                                if (! (flags & flag_need_comma) && top->u.object.length)
+                                {  sprintf (error, "%u:%u: Unexpected }", line_and_col);
+                                    goto e_failed;
+                                }
+
                                 flags = (flags & ~ flag_need_comma) | flag_next;
                                 break;
 
@@ -816,6 +822,11 @@ json_value * json_parse_ex (json_settings * settings,
                             continue;
                         }
 
+                        if (top->type == json_integer && !num_digits)
+                        {  sprintf (error, "%u:%u: Expected digit after `-`", line_and_col);
+                            goto e_failed;
+                        }
+
                         if (! (flags & flag_num_e))
                         {
                             if (top->type == json_double)
-- 
2.43.0


From 5de8e71024f7ffdbb966d88987266b52987b5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:54 +0000
Subject: [PATCH 110/182] fix: JSON.parse() gave inexact numbers for fractions,
 exponents and numbers of many digits

---
 src/optionals/json/jsonParseLib.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index ac8168c..d0dec9e 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -41,6 +41,7 @@
 const struct _json_value json_value_none;
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
 #include <math.h>
@@ -250,6 +251,7 @@ json_value * json_parse_ex (json_settings * settings,
     json_state state = { 0 };
     double num_digits = 0, num_e = 0;
     double num_fraction = 0;
+    const json_char * num_start = 0;
 
     /* Skip UTF-8 BOM
      */
@@ -683,6 +685,8 @@ json_value * json_parse_ex (json_settings * settings,
                                     num_fraction = 0;
                                     num_e = 0;
 
+                                    num_start = state.ptr + (b == '-');
+
                                     if (b != '-')
                                     {
                                         flags |= flag_reproc;
@@ -865,6 +869,9 @@ json_value * json_parse_ex (json_settings * settings,
                             top->u.dbl *= pow (10.0, ((flags & flag_num_e_negative) ? - num_e : num_e));
                         }
 
+                        if (top->type == json_double)
+                            top->u.dbl = strtod (num_start, NULL);
+
                         if (flags & flag_num_negative)
                         {
                             if (top->type == json_integer)
-- 
2.43.0


From 233b6138fddc9dda4ad5f5f81b0685793716f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:01 +0000
Subject: [PATCH 111/182] fix: JSON.parse() combined a high surrogate with
 anything that followed it

---
 src/optionals/json/jsonParseLib.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index d0dec9e..4a609f0 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -350,6 +350,12 @@ json_value * json_parse_ex (json_settings * settings,
                                 uc_b2 = (uc_b3 << 4) | uc_b4;
                                 uchar2 = (uc_b1 << 8) | uc_b2;
 
+                                if ((uchar & 0xFC00) != 0xD800 || (uchar2 & 0xFC00) != 0xDC00)
+                                {
+                                    sprintf (error, "Invalid surrogate pair (at %u:%u)", line_and_col);
+                                    goto e_failed;
+                                }
+
                                 uchar = 0x010000 | ((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF);
                             }
 
-- 
2.43.0


From b0ad438ef5f08db9601c9161555199921fc2e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 112/182] fix: the collector marked the released slots of an
 empty queue whose end is the end of its storage

---
 src/optionals/queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index 274c397..369241e 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -34,7 +34,7 @@ char *queueToString(ObjAbstract *abstract) {
 void grayQueue(DictuVM *vm, ObjAbstract *abstract) {
     Queue *queue = (Queue*)abstract->data;
 
-    if (queue == NULL) return;
+    if (queue == NULL || queue->count == 0) return;
 
     if (queue->count == queue->capacity) {
         for (int i = 0; i < queue->capacity; ++i) {
-- 
2.43.0


From 1a2969535d65c445883d1c1bd3a46725d45ec06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 113/182] fix: the big endian writers of a Buffer returned the
 value with its bytes swapped

---
 src/optionals/buffer.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 2b0b13b..04c95f7 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -54,6 +54,7 @@ bool writeInternal(Buffer *buffer, double offset, uint8_t *data, size_t len) {
     if (!ensureSize(buffer, offset, len))
         return false;
     memcpy(buffer->bytes + (size_t)offset, data, len);
+    swap(buffer->bytes + (size_t)offset, len, buffer->bigEndian);
     return true;
 }
 
@@ -149,7 +150,7 @@ static Value bufferWriteint8(DictuVM *vm, int argCount, Value *args) {
 
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 1");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -184,7 +185,7 @@ static Value bufferWriteUint16LE(DictuVM *vm, int argCount, Value *args) {
 
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 2");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -219,7 +220,7 @@ static Value bufferWriteUint32LE(DictuVM *vm, int argCount, Value *args) {
     uint32_t correctVal = (uint32_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -254,7 +255,7 @@ static Value bufferWriteUint64LE(DictuVM *vm, int argCount, Value *args) {
     uint64_t correctVal = (uint64_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -287,7 +288,7 @@ static Value bufferWriteint64LE(DictuVM *vm, int argCount, Value *args) {
     int64_t correctVal = (int64_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -321,7 +322,7 @@ static Value bufferWriteint32LE(DictuVM *vm, int argCount, Value *args) {
     int32_t correctVal = (int32_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -355,7 +356,7 @@ static Value bufferWriteint16LE(DictuVM *vm, int argCount, Value *args) {
     int16_t correctVal = (int16_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 2");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -389,7 +390,7 @@ static Value bufferWritefloat32LE(DictuVM *vm, int argCount, Value *args) {
     float correctVal = (float)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -425,7 +426,7 @@ static Value bufferWritefloat64LE(DictuVM *vm, int argCount, Value *args) {
 
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
-- 
2.43.0


From c6ba9a49a8253d981c32a2cd671f2a1faa34a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 114/182] fix: reading bytes that are not a number as a
 floating point value of a Buffer forged other values

---
 src/optionals/buffer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 04c95f7..0c29999 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -1,3 +1,5 @@
+#include <math.h>
+
 #include "buffer.h"
 
 typedef struct {
@@ -456,6 +458,10 @@ static Value bufferReadfloat64LE(DictuVM *vm, int argCount, Value *args) {
     memcpy(&value, ptr, sizeof(value));
     swap((uint8_t *)&value, sizeof(value), buffer->bigEndian);
 
+    // The payload of a NaN could be that of another type of value
+    if (value != value)
+        value = NAN;
+
     return newResultSuccess(vm, NUMBER_VAL(value));
 }
 
@@ -481,6 +487,11 @@ static Value bufferReadfloat32LE(DictuVM *vm, int argCount, Value *args) {
         return newResultError(vm, "index must be smaller than buffer size - 4");
     memcpy(&value, ptr, sizeof(value));
     swap((uint8_t *)&value, sizeof(value), buffer->bigEndian);
+
+    // The payload of a NaN could be that of another type of value
+    if (value != value)
+        value = NAN;
+
     return newResultSuccess(vm, NUMBER_VAL(value));
 }
 
-- 
2.43.0


From b4cb8a5743e73e65037a4ebb786286ee9fa527eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 115/182] fix: BigInt.new() and the operands of a BigInt
 truncated numbers to 32 bits

---
 src/optionals/bigint/bigint.c | 4 ++--
 src/optionals/bigint/bigint.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optionals/bigint/bigint.c b/src/optionals/bigint/bigint.c
index 30f58dd..c475255 100644
--- a/src/optionals/bigint/bigint.c
+++ b/src/optionals/bigint/bigint.c
@@ -530,8 +530,8 @@ bigint* bigint_from_str(bigint *dst, const char *src){
     return bigint_from_str_base(dst, src, 10);
 }
 
-bigint* bigint_from_int(bigint *dst, int src){
-    unsigned int x = BIGINT_INT_ABS(src);
+bigint* bigint_from_int(bigint *dst, int64_t src){
+    uint64_t x = src < 0 ? -(uint64_t)src : (uint64_t)src;
     int n = BIGINT_MAX(1, sizeof(x)/sizeof(bigint_word));
     if (!bigint_reserve(dst, n)) return NULL;
     bigint_raw_zero(dst->words, 0, n);
diff --git a/src/optionals/bigint/bigint.h b/src/optionals/bigint/bigint.h
index a41241c..b154fe2 100644
--- a/src/optionals/bigint/bigint.h
+++ b/src/optionals/bigint/bigint.h
@@ -78,7 +78,7 @@ int bigint_digits_bound(int n_digits_src, double src_base, double dst_base);
 int bigint_write_size(const bigint *a, double dst_base);
 bigint* bigint_from_str_base(bigint *dst, const char *src, int src_base);
 bigint* bigint_from_str(bigint *dst, const char *src);
-bigint* bigint_from_int(bigint *dst, int src);
+bigint* bigint_from_int(bigint *dst, int64_t src);
 bigint* bigint_from_word(bigint *dst, bigint_word a);
 
 bigint* bigint_add_signed(bigint *dst, const bigint *a, int a_neg, const bigint *b, int b_neg);
-- 
2.43.0


From 7868265f6897307256aeb71b39d3662ce33b428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 116/182] fix: comparing two negative BigInts of different
 lengths gave the opposite order

---
 src/optionals/bigint/bigint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/bigint/bigint.c b/src/optionals/bigint/bigint.c
index c475255..ed6c591 100644
--- a/src/optionals/bigint/bigint.c
+++ b/src/optionals/bigint/bigint.c
@@ -167,7 +167,7 @@ int bigint_raw_cmp(
     if (na == 0 && nb == 0) return 0;
 
     if (!a_neg && !b_neg) return bigint_raw_cmp_abs(a, na, b, nb);
-    if ( a_neg &&  b_neg) return bigint_raw_cmp_abs(b, na, a, nb);
+    if ( a_neg &&  b_neg) return bigint_raw_cmp_abs(b, nb, a, na);
 
     return (!a_neg && b_neg) ? +1 : -1;
 }
-- 
2.43.0


From b650832e1cc1429616ed8ea7f06630eb868afd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 117/182] fix: a BigInt result of zero could be negative

---
 src/optionals/bigint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index bd8ad56..aada0ab 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -135,6 +135,11 @@ static Value newBigIntValue(DictuVM *vm, BigIntData *bi) {
         return newResultError(vm, "error: failed to instantiate bigint");
     }
 
+    // There is only one zero
+    if (bi->value.size == 0) {
+        bi->value.neg = 0;
+    }
+
     ObjAbstract *abstract = newAbstract(vm, &freeBigInt, &bigIntToString);
     push(vm, OBJ_VAL(abstract));
     abstract->data = bi;
-- 
2.43.0


From ce367e2da22de362bcdbde19b9c5422ede95a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 118/182] fix: the bitwise results of a BigInt kept leading
 zero words and compared unequal

---
 src/optionals/bigint/bigint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optionals/bigint/bigint.c b/src/optionals/bigint/bigint.c
index ed6c591..b76aed2 100644
--- a/src/optionals/bigint/bigint.c
+++ b/src/optionals/bigint/bigint.c
@@ -1131,6 +1131,8 @@ bigint* bigint_and(bigint *r, const bigint *a, const bigint *b){
         r->words[i] &= a->words[i];
     }
 
+    r->size = bigint_raw_truncate(r->words, r->size);
+
     return r;
 }
 
@@ -1155,6 +1157,8 @@ bigint* bigint_xor(bigint *r, const bigint *a, const bigint *b){
         r->words[i] ^= b->words[i];
     }
 
+    r->size = bigint_raw_truncate(r->words, r->size);
+
     return r;
 }
 
-- 
2.43.0


From 7d7d4bc8f3ea985a722b8a0587c00e395e06fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 119/182] fix: BigInt.new() accepted text without any digit

---
 src/optionals/bigint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index aada0ab..c2184bf 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -52,6 +52,10 @@ static bool isIntString(Value val) {
         i = 1;
     }
 
+    if (i == str->length) {
+        return false;
+    }
+
     for (; i < str->length; i++) {
         if (!isdigit(str->chars[i])) {
             return false;
-- 
2.43.0


From 5004ce4a35cf65c0d81def488ca341688eb3e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:22 +0000
Subject: [PATCH 120/182] fix: JSON.parse() gave the wrong character for
 surrogate pairs of the planes 2, 4, ... 16

---
 src/optionals/json/jsonParseLib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index 4a609f0..2d2c499 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -356,7 +356,7 @@ json_value * json_parse_ex (json_settings * settings,
                                     goto e_failed;
                                 }
 
-                                uchar = 0x010000 | ((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF);
+                                uchar = 0x010000 + (((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF));
                             }
 
                             if (sizeof (json_char) >= sizeof (json_uchar) || (uchar <= 0x7F))
-- 
2.43.0


From 9bbc813e26cf7862b29ceaaeb19c878a613563f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:50 +0000
Subject: [PATCH 121/182] fix: Hashlib.hmac() with an empty key hashed with
 uninitialised memory

---
 src/optionals/hashlib/hmac.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/optionals/hashlib/hmac.c b/src/optionals/hashlib/hmac.c
index 529800e..2d89c85 100644
--- a/src/optionals/hashlib/hmac.c
+++ b/src/optionals/hashlib/hmac.c
@@ -54,8 +54,7 @@ int tc_hmac_set_key(TCHmacState_t ctx, const uint8_t *key,
 {
     /* Input sanity check */
     if (ctx == (TCHmacState_t) 0 ||
-        key == (const uint8_t *) 0 ||
-        key_size == 0) {
+        key == (const uint8_t *) 0) {
         return TC_CRYPTO_FAIL;
     }
 
-- 
2.43.0


From 76ed3339de525f885e6dab4f8cbc36ebc9c51926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:19 +0000
Subject: [PATCH 122/182] fix: Path.dirname() ignored one letter directories
 and took a trailing separator for a name

---
 src/vm/util.c | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/vm/util.c b/src/vm/util.c
index aa7e9de..d064b29 100644
--- a/src/vm/util.c
+++ b/src/vm/util.c
@@ -38,36 +38,28 @@ ObjString *dirname(DictuVM *vm, char *path, int len) {
         return copyString(vm, ".", 1);
     }
 
-    char *sep = path + len;
+    char *end = path + len;
 
     /* trailing slashes */
-    while (sep != path) {
-        if (0 == IS_DIR_SEPARATOR (*sep))
-            break;
-        sep--;
+    while (end != path && IS_DIR_SEPARATOR(*(end - 1))) {
+        end--;
     }
 
-    /* first found */
-    while (sep != path) {
-        if (IS_DIR_SEPARATOR (*sep))
-            break;
-        sep--;
+    /* the last name */
+    while (end != path && !IS_DIR_SEPARATOR(*(end - 1))) {
+        end--;
     }
 
-    /* trim again */
-    while (sep != path) {
-        if (0 == IS_DIR_SEPARATOR (*sep))
-            break;
-        sep--;
+    if (end == path) {
+        return copyString(vm, IS_DIR_SEPARATOR(*path) ? DIR_SEPARATOR_AS_STRING : ".", 1);
     }
 
-    if (sep == path && !IS_DIR_SEPARATOR(*sep)) {
-        return copyString(vm, ".", 1);
+    /* the slashes before it, except for the root */
+    while (end - 1 != path && IS_DIR_SEPARATOR(*(end - 1))) {
+        end--;
     }
 
-    len = sep - path + 1;
-
-    return copyString(vm, path, len);
+    return copyString(vm, path, end - path);
 }
 
 bool resolvePath(char *directory, char *path, char *ret) {
-- 
2.43.0


From 6c694f440d644cd0c3de789c7f6d4873d4c1bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:19 +0000
Subject: [PATCH 123/182] fix: Path.basename() of one letter was empty and kept
 trailing separators

---
 src/optionals/path.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index b064918..8ea139f 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -58,10 +58,13 @@ static Value basenameNative(DictuVM *vm, int argCount, Value *args) {
     char *path = PathString->chars;
     int len = PathString->length;
 
-    if (!len || (len == 1 && !IS_DIR_SEPARATOR(*path))) {
+    if (!len) {
         return OBJ_VAL(copyString(vm, "", 0));
     }
 
+    // Trailing separators are not part of the name
+    while (len > 1 && IS_DIR_SEPARATOR(path[len - 1])) --len;
+
     char *p = path + len - 1;
     while (p > path && !IS_DIR_SEPARATOR(*(p - 1))) --p;
 
-- 
2.43.0


From 2e0f23a0c4298df75961c2b72d862fcbac5175b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:19 +0000
Subject: [PATCH 124/182] fix: Path.extname() took the extension from a
 directory

---
 src/optionals/path.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index 8ea139f..bd9154b 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -91,10 +91,13 @@ static Value extnameNative(DictuVM *vm, int argCount, Value *args) {
         return OBJ_VAL(copyString(vm, path, len));
     }
 
+    // Trailing separators are not part of the name
+    while (len > 1 && IS_DIR_SEPARATOR(path[len - 1])) --len;
+
     char *p = path + len;
-    while (p > path && (*(p - 1) != '.')) --p;
+    while (p > path && (*(p - 1) != '.') && !IS_DIR_SEPARATOR(*(p - 1))) --p;
 
-    if (p == path) {
+    if (p == path || *(p - 1) != '.') {
         return OBJ_VAL(copyString(vm, "", 0));
     }
 
-- 
2.43.0


From afbde8ae3ced7f45b856b8fe3250a6e25118d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:59 +0000
Subject: [PATCH 125/182] fix: write() and writeLine() reported success when
 nothing could be written

---
 src/vm/datatypes/files.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index 2a3fca5..aa7a81f 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -37,7 +37,11 @@ static Value writeFile(DictuVM *vm, int argCount, Value *args) {
     }
 
     int charsWrote = fwrite(string->chars, 1, string->length, file->file);
-    fflush(file->file);
+
+    if (charsWrote != string->length || fflush(file->file) != 0) {
+        runtimeError(vm, "Could not write file \"%s\".", file->path);
+        return EMPTY_VAL;
+    }
 
     return NUMBER_VAL(charsWrote);
 }
@@ -67,7 +71,11 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
 
     int charsWrote = fwrite(string->chars, 1, string->length, file->file);
     charsWrote += fwrite("\n", 1, 1, file->file);
-    fflush(file->file);
+
+    if (charsWrote != string->length + 1 || fflush(file->file) != 0) {
+        runtimeError(vm, "Could not write file \"%s\".", file->path);
+        return EMPTY_VAL;
+    }
 
     return NUMBER_VAL(charsWrote);
 }
-- 
2.43.0


From 5a2bff186b347e1ae005a4ed7f363a08074aa3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:59 +0000
Subject: [PATCH 126/182] fix: read() gave nothing for files that have no size
 and accounted for a directory as endless memory

---
 src/vm/datatypes/files.c | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index aa7a81f..fd816a8 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -92,32 +92,35 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    size_t currentPosition = ftell(file->file);
-    // Calculate file size
-    fseek(file->file, 0L, SEEK_END);
-    size_t fileSize = ftell(file->file);
-    fseek(file->file, currentPosition, SEEK_SET);
+    // Reading may follow writing
+    fseek(file->file, 0L, SEEK_CUR);
 
-    char *buffer = ALLOCATE(vm, char, fileSize + 1);
-    if (buffer == NULL) {
-        runtimeError(vm, "Not enough memory to read \"%s\".\n", file->path);
-        return EMPTY_VAL;
+    // Read until the end, as pipes, devices and generated files have no size
+    size_t capacity = 1024;
+    size_t length = 0;
+    size_t bytesRead;
+    char *buffer = ALLOCATE(vm, char, capacity);
+
+    while ((bytesRead = fread(buffer + length, sizeof(char), capacity - length - 1, file->file)) > 0) {
+        length += bytesRead;
+
+        if (length + 1 == capacity) {
+            buffer = GROW_ARRAY(vm, buffer, char, capacity, capacity * 2);
+            capacity *= 2;
+        }
     }
 
-    size_t bytesRead = fread(buffer, sizeof(char), fileSize, file->file);
-    if (bytesRead < fileSize && !feof(file->file)) {
-        FREE_ARRAY(vm, char, buffer, fileSize + 1);
+    if (ferror(file->file)) {
+        clearerr(file->file);
+        FREE_ARRAY(vm, char, buffer, capacity);
         runtimeError(vm, "Could not read file \"%s\".\n", file->path);
         return EMPTY_VAL;
     }
 
-    if (bytesRead != fileSize) {
-        buffer = SHRINK_ARRAY(vm, buffer, char, fileSize + 1, bytesRead + 1);
-    }
+    buffer = SHRINK_ARRAY(vm, buffer, char, capacity, length + 1);
+    buffer[length] = '\0';
 
-    buffer[bytesRead] = '\0';
-    
-    return OBJ_VAL(takeString(vm, buffer, bytesRead));
+    return OBJ_VAL(takeString(vm, buffer, length));
 }
 
 static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From f7d19069447fea5011741b6ce18d43dc0ddca51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:59 +0000
Subject: [PATCH 127/182] fix: IO.copyFile() emptied a file copied to itself
 and reported success when the copy failed

---
 src/optionals/io.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/optionals/io.c b/src/optionals/io.c
index 1602c7d..7ed6595 100644
--- a/src/optionals/io.c
+++ b/src/optionals/io.c
@@ -98,21 +98,41 @@ static Value copyFileIO(DictuVM *vm, int argCount, Value *args) {
     if ((in = open(src, O_RDONLY)) == -1) {
         return newResultError(vm, "failed to open src file");
     }
+
+    struct stat fileinfo = {0};
+    struct stat target;
+
+    if (fstat(in, &fileinfo) == -1 || S_ISDIR(fileinfo.st_mode)) {
+        close(in);
+        return newResultError(vm, "src is not a file");
+    }
+
+    if (stat(dst, &target) == 0 && target.st_dev == fileinfo.st_dev && target.st_ino == fileinfo.st_ino) {
+        close(in);
+        return newResultError(vm, "src and dst are the same file");
+    }
+
     if ((out = creat(dst, 0660)) == -1) {
         close(in);
         return newResultError(vm, "failed to create/open dst file");
     }
 
 #if defined(__APPLE__) || defined(__FreeBSD__)
-    fcopyfile(in, out, 0, COPYFILE_ALL);
+    bool copied = fcopyfile(in, out, 0, COPYFILE_ALL) == 0;
 #elif defined(__linux__)
+    // A single call may copy less than it was asked for
     off_t bytes = 0;
-    struct stat fileinfo = {0};
-    fstat(in, &fileinfo);
-    sendfile(out, in, &bytes, fileinfo.st_size);
+    ssize_t count = 1;
+    while (count > 0 && bytes < fileinfo.st_size) {
+        count = sendfile(out, in, &bytes, fileinfo.st_size - bytes);
+    }
+    bool copied = count >= 0;
 #endif
     close(in);
-    close(out);
+
+    if (close(out) == -1 || !copied) {
+        return newResultError(vm, "failed to copy src file");
+    }
 
     return newResultSuccess(vm, NIL_VAL);
 }
-- 
2.43.0


From 7824458cb011f8a530aa2cc38346267a5882214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:59 +0000
Subject: [PATCH 128/182] fix: System.chmod() removed all permissions for a
 mode that is not octal

---
 src/optionals/system.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/optionals/system.c b/src/optionals/system.c
index 8d010e9..f9c4e6a 100644
--- a/src/optionals/system.c
+++ b/src/optionals/system.c
@@ -486,7 +486,13 @@ static Value chmodNative(DictuVM *vm, int argCount, Value *args) {
     ObjString *file = AS_STRING(args[0]);
     ObjString *mode = AS_STRING(args[1]);
 
-    int i = strtol(mode->chars, 0, 8);
+    char *end;
+    long i = strtol(mode->chars, &end, 8);
+
+    if (end == mode->chars || *end != '\0' || i < 0 || i > 07777) {
+        errno = EINVAL;
+        ERROR_RESULT;
+    }
 
     if (chmod(file->chars, i) == -1) {
         ERROR_RESULT;
-- 
2.43.0


From d8c58c2effe728c58f53218b566d15005a297e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:58 +0000
Subject: [PATCH 129/182] fix: a module that called an importing function while
 it ran was bound to the wrong module

---
 src/vm/compiler.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 006cc92..2d285e7 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -3053,6 +3053,9 @@ ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
         } while (!match(&compiler, TOKEN_EOF));
     }
 
+    // Functions called by the module may have imported others, the importer is to see this one
+    emitByte(&compiler, OP_IMPORT_END);
+
     ObjFunction *function = endCompiler(&compiler);
 
     // If we're in the repl we need the constants to live for the entirety of the execution
-- 
2.43.0


From 145197801f3bf1a6ed7e525d0d21d6a37bc47e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:58 +0000
Subject: [PATCH 130/182] fix: importing a directory ended the process claiming
 that memory had run out

---
 src/vm/util.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vm/util.c b/src/vm/util.c
index d064b29..9f51c91 100644
--- a/src/vm/util.c
+++ b/src/vm/util.c
@@ -11,6 +11,12 @@ char *readFile(DictuVM *vm, const char *path) {
         return NULL;
     }
 
+    // A directory can be opened but not read
+    if (fgetc(file) == EOF && ferror(file)) {
+        fclose(file);
+        return NULL;
+    }
+
     fseek(file, 0L, SEEK_END);
     size_t fileSize = ftell(file);
     rewind(file);
-- 
2.43.0


From 9e25ab4c38bce3a8ff976110cdec328dc3894371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:58 +0000
Subject: [PATCH 131/182] fix: the REPL applied constants to imported modules,
 kept those of lines that failed to compile and those declared again as
 variables

---
 src/include/dictu_ffi_include.h |  1 +
 src/vm/compiler.c               | 11 ++++++++++-
 src/vm/memory.c                 |  3 +++
 src/vm/object.c                 |  1 +
 src/vm/object.h                 |  1 +
 src/vm/vm.c                     |  4 ----
 6 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/include/dictu_ffi_include.h b/src/include/dictu_ffi_include.h
index abefa14..8b1aaa4 100644
--- a/src/include/dictu_ffi_include.h
+++ b/src/include/dictu_ffi_include.h
@@ -260,6 +260,7 @@ typedef struct {
     ObjString *name;
     ObjString *path;
     Table values;
+    Table constants;
 } ObjModule;
 
 typedef struct {
diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 2d285e7..80924e8 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -450,6 +450,8 @@ static void defineVariable(Compiler *compiler, uint8_t global, bool constant) {
         if (constant) {
             tableSet(compiler->parser->vm, &compiler->parser->vm->constants,
                      constantName(compiler, global), NIL_VAL);
+        } else if (compiler->parser->vm->repl) {
+            tableDelete(compiler->parser->vm, &compiler->parser->vm->constants, constantName(compiler, global));
         }
 
         emitBytes(compiler, OP_DEFINE_MODULE, global);
@@ -3038,6 +3040,9 @@ ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
     parser.stackBase = (const char *) &parser;
     parser.module = module;
 
+    // The constants declared by earlier lines of the REPL
+    tableAddAll(vm, &module->constants, &vm->constants);
+
     Scanner scanner;
     initScanner(&scanner, source);
     parser.scanner = scanner;
@@ -3059,7 +3064,11 @@ ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
     ObjFunction *function = endCompiler(&compiler);
 
     // If we're in the repl we need the constants to live for the entirety of the execution
-    if (!vm->repl) {
+    if (vm->repl && !parser.hadError) {
+        freeTable(vm, &module->constants);
+        module->constants = vm->constants;
+        initTable(&vm->constants);
+    } else {
         freeTable(vm, &vm->constants);
     }
 
diff --git a/src/vm/memory.c b/src/vm/memory.c
index 9b519ba..4503647 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -99,6 +99,7 @@ static void blackenObject(DictuVM *vm, Obj *object) {
             grayObject(vm, (Obj *) module->name);
             grayObject(vm, (Obj *) module->path);
             grayTable(vm, &module->values);
+            grayTable(vm, &module->constants);
             break;
         }
 
@@ -208,6 +209,7 @@ void freeObject(DictuVM *vm, Obj *object) {
         case OBJ_MODULE: {
             ObjModule *module = (ObjModule *) object;
             freeTable(vm, &module->values);
+            freeTable(vm, &module->constants);
             FREE(vm, ObjModule, object);
             break;
         }
@@ -356,6 +358,7 @@ void collectGarbage(DictuVM *vm) {
     // Mark the global roots.
     grayTable(vm, &vm->modules);
     grayTable(vm, &vm->globals);
+    grayTable(vm, &vm->constants);
     grayTable(vm, &vm->numberMethods);
     grayTable(vm, &vm->boolMethods);
     grayTable(vm, &vm->nilMethods);
diff --git a/src/vm/object.c b/src/vm/object.c
index 4e4ebb7..af9413c 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -34,6 +34,7 @@ ObjModule *newModule(DictuVM *vm, ObjString *name) {
 
     ObjModule *module = ALLOCATE_OBJ(vm, ObjModule, OBJ_MODULE);
     initTable(&module->values);
+    initTable(&module->constants);
     module->name = name;
     module->path = NULL;
 
diff --git a/src/vm/object.h b/src/vm/object.h
index 61995e9..a52c68a 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -98,6 +98,7 @@ typedef struct {
     ObjString* name;
     ObjString* path;
     Table values;
+    Table constants;
 } ObjModule;
 
 typedef struct {
diff --git a/src/vm/vm.c b/src/vm/vm.c
index bf6a6d2..7987d30 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -155,10 +155,6 @@ DictuVM *dictuInitVM(bool repl, int argc, char **argv) {
 }
 
 void dictuFreeVM(DictuVM *vm) {
-    if (vm->repl) {
-        freeTable(vm, &vm->constants);
-    }
-
     freeTable(vm, &vm->modules);
     freeTable(vm, &vm->globals);
     freeTable(vm, &vm->constants);
-- 
2.43.0


From 4798d27abca24a9a486a2dc69e5c15792c59a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:43 +0000
Subject: [PATCH 132/182] fix: the first 'import Argparse;' of a program
 defined Argparse as nil

---
 src/optionals/optionals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/optionals.c b/src/optionals/optionals.c
index c7b0b16..aca00a2 100644
--- a/src/optionals/optionals.c
+++ b/src/optionals/optionals.c
@@ -2,7 +2,7 @@
 #include "ffi/ffi.h"
 
 BuiltinModules modules[] = {
-    {"Argparse", &createArgParseModule, false},
+    {"Argparse", &createArgParseModule, true},
     {"Math", &createMathsModule, false},
     {"Env", &createEnvModule, true},
     {"IO", &createIOModule, false},
-- 
2.43.0


From 8dcf3e3a4474f6e72efcb2b29c0df947917b3c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:42 +0000
Subject: [PATCH 133/182] fix: after a runtime error closures saw other values
 in the variables they had captured

---
 src/vm/vm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 7987d30..70324ff 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -28,10 +28,13 @@
 #include "natives.h"
 #include "../optionals/optionals.h"
 
+static void closeUpvalues(DictuVM *vm, Value *last);
+
 static void resetStack(DictuVM *vm) {
+    // Closures which outlive an error keep the variables they captured
+    closeUpvalues(vm, vm->stack);
     vm->stackTop = vm->stack;
     vm->frameCount = 0;
-    vm->openUpvalues = NULL;
     vm->compiler = NULL;
 }
 
-- 
2.43.0


From 66556cfcce9d117c8ee20d9e1c5804031f94d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:39 +0000
Subject: [PATCH 134/182] fix: a blank line of piped input ended the REPL

---
 src/cli/linenoise/linenoise.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli/linenoise/linenoise.c b/src/cli/linenoise/linenoise.c
index 95fd824..9584278 100644
--- a/src/cli/linenoise/linenoise.c
+++ b/src/cli/linenoise/linenoise.c
@@ -1893,10 +1893,12 @@ static stringbuf *sb_getline(FILE *fh)
         /* ignore the effect of character count for partial utf8 sequences */
         sb_append_len(sb, &ch, 1);
     }
-    if (n == 0 || sb->data == NULL) {
+    if (n == 0) {
         sb_free(sb);
         return NULL;
     }
+    /* a blank line is an empty string */
+    sb_append_len(sb, "", 0);
     return sb;
 }
 
-- 
2.43.0


From 9bfd583dee3f05136e333749c6e12fdc930c991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:39 +0000
Subject: [PATCH 135/182] fix: the REPL took quotes and braces in comments for
 code and kept waiting for more lines

---
 src/cli/main.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/cli/main.c b/src/cli/main.c
index 857005f..6d4b978 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -56,6 +56,25 @@ static bool matchBraces(char *line) {
     int braceLevel = 0;
 
     for (int i = 0; line[i]; i++) {
+        if (line[i] == '/' && line[i + 1] == '/') {
+            while (line[i + 1] && line[i + 1] != '\n') {
+                i++;
+            }
+
+            continue;
+        }
+
+        if (line[i] == '/' && line[i + 1] == '*') {
+            char *end = strstr(line + i + 2, "*/");
+
+            if (end == NULL) {
+                return false; // comment not closed
+            }
+
+            i = (int) (end - line) + 1;
+            continue;
+        }
+
         i = matchStringLiteral(line, i);
         
         if (i == -1) {
-- 
2.43.0


From c99dac48899896ee457b4c6aa69a033388ab1571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:48 +0000
Subject: [PATCH 136/182] fix: comparing very deeply nested lists or
 dictionaries crashed

---
 src/vm/value.c | 155 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 96 insertions(+), 59 deletions(-)

diff --git a/src/vm/value.c b/src/vm/value.c
index 0036c16..0dd83fd 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -437,76 +437,124 @@ void printValueError(Value value) {
     free(output);
 }
 
-// The comparison ends at the first difference, so a pair that is met again is
-// equal as far as it has been compared. Remembering one pair every time the
-// depth doubles finds every cycle.
-static int compareDepth = 0;
-static Value comparedA, comparedB;
-
-static bool startCompare(Value a, Value b) {
-    if (compareDepth > 0 && a == comparedA && b == comparedB) {
-        return false;
-    }
-
-    compareDepth++;
+// A pair of lists or dictionaries being compared, and how far
+typedef struct {
+    Value a;
+    Value b;
+    int next;
+} Comparison;
 
-    if ((compareDepth & (compareDepth - 1)) == 0) {
-        comparedA = a;
-        comparedB = b;
-    }
+#define COMPARE_INLINE 16
 
-    return true;
+static bool sameContainers(Value a, Value b) {
+    return (IS_LIST(a) && IS_LIST(b)) || (IS_DICT(a) && IS_DICT(b));
 }
 
-static bool listComparison(Value a, Value b) {
-    ObjList *list = AS_LIST(a);
-    ObjList *listB = AS_LIST(b);
+// Finds the next pair of values in the containers, returns 1 if there is one,
+// 0 if there are no more and -1 if the containers differ
+static int nextComparison(Comparison *pair, Value *a, Value *b) {
+    if (IS_LIST(pair->a)) {
+        ValueArray *list = &AS_LIST(pair->a)->values;
+        ValueArray *listB = &AS_LIST(pair->b)->values;
 
-    if (list->values.count != listB->values.count)
-        return false;
+        if (list->count != listB->count)
+            return -1;
 
-    for (int i = 0; i < list->values.count; ++i) {
-        if (!valuesEqual(list->values.values[i], listB->values.values[i]))
-            return false;
-    }
+        if (pair->next >= list->count)
+            return 0;
 
-    return true;
-}
+        *a = list->values[pair->next];
+        *b = listB->values[pair->next++];
+        return 1;
+    }
 
-static bool dictComparison(Value a, Value b) {
-    ObjDict *dict = AS_DICT(a);
-    ObjDict *dictB = AS_DICT(b);
+    ObjDict *dict = AS_DICT(pair->a);
+    ObjDict *dictB = AS_DICT(pair->b);
 
     // Different lengths, not the same
     if (dict->activeCount != dictB->activeCount)
-        return false;
+        return -1;
 
     // Lengths are the same, and dict 1 has 0 length
     // therefore both are empty
     if (dict->activeCount == 0)
-        return true;
+        return 0;
+
+    while (pair->next <= dict->capacityMask && IS_EMPTY(dict->entries[pair->next].key)) {
+        pair->next++;
+    }
+
+    if (pair->next > dict->capacityMask)
+        return 0;
 
-    for (int i = 0; i <= dict->capacityMask; ++i) {
-        DictItem *item = &dict->entries[i];
+    DictItem *item = &dict->entries[pair->next++];
+    *a = item->value;
 
-        if (IS_EMPTY(item->key))
+    // Check if key from dict A is in dict B
+    return dictGet(dictB, item->key, b) ? 1 : -1;
+}
+
+// The containers being compared are kept in a list of their own, so that they
+// may be nested to any depth. The comparison ends at the first difference, so
+// a pair that is met again is equal as far as it has been compared:
+// remembering one pair every time the depth doubles finds every cycle.
+static bool containersEqual(Value a, Value b) {
+    Comparison inlined[COMPARE_INLINE];
+    Comparison *pairs = inlined;
+    int capacity = COMPARE_INLINE;
+    int depth = 1;
+    bool equal = true;
+
+    pairs[0] = (Comparison) {a, b, 0};
+    Value comparedA = a, comparedB = b;
+
+    while (depth > 0) {
+        int more = nextComparison(&pairs[depth - 1], &a, &b);
+
+        if (more == 0) {
+            depth--;
             continue;
+        }
 
-        Value value;
-        // Check if key from dict A is in dict B
-        if (!dictGet(dictB, item->key, &value)) {
-            // Key doesn't exist
-            return false;
+        if (more < 0 || (!sameContainers(a, b) && !valuesEqual(a, b))) {
+            equal = false;
+            break;
         }
 
-        // Key exists
-        if (!valuesEqual(item->value, value)) {
-            // Values don't equal
-            return false;
+        if (!sameContainers(a, b) || (a == comparedA && b == comparedB)) {
+            continue;
+        }
+
+        if (depth == capacity) {
+            Comparison *larger = malloc(sizeof(Comparison) * capacity * 2);
+
+            if (larger == NULL) {
+                fprintf(stderr, "Unable to allocate memory\n");
+                exit(71);
+            }
+
+            memcpy(larger, pairs, sizeof(Comparison) * capacity);
+            if (pairs != inlined) {
+                free(pairs);
+            }
+
+            pairs = larger;
+            capacity *= 2;
+        }
+
+        pairs[depth++] = (Comparison) {a, b, 0};
+
+        if ((depth & (depth - 1)) == 0) {
+            comparedA = a;
+            comparedB = b;
         }
     }
 
-    return true;
+    if (pairs != inlined) {
+        free(pairs);
+    }
+
+    return equal;
 }
 
 static bool setComparison(Value a, Value b) {
@@ -543,20 +591,9 @@ bool valuesEqual(Value a, Value b) {
         if (AS_OBJ(a)->type != AS_OBJ(b)->type) return false;
 
         switch (AS_OBJ(a)->type) {
-            case OBJ_LIST: {
-                if (!startCompare(a, b)) return true;
-
-                bool equal = listComparison(a, b);
-                compareDepth--;
-                return equal;
-            }
-
+            case OBJ_LIST:
             case OBJ_DICT: {
-                if (!startCompare(a, b)) return true;
-
-                bool equal = dictComparison(a, b);
-                compareDepth--;
-                return equal;
+                return containersEqual(a, b);
             }
 
             case OBJ_SET: {
-- 
2.43.0


From 3de6776cf71f64a8c4beb8893332ab58ca6d505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:44 +0000
Subject: [PATCH 137/182] fix: unpacking a huge list as arguments overflowed
 the stack

---
 src/vm/vm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 70324ff..97f215f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -47,6 +47,11 @@ static void resetStack(DictuVM *vm) {
                                                                                     \
         ObjList *list = AS_LIST(pop(vm));                                     \
                                                                                     \
+        if (list->values.count > STACK_MAX - 4 * UINT8_COUNT - (vm->stackTop - vm->stack)) { \
+            runtimeError(vm, "Stack overflow.");                                    \
+            return false;                                                           \
+        }                                                                           \
+                                                                                    \
         for (int i = 0; i < list->values.count; ++i) {                              \
             push(vm, list->values.values[i]);                                       \
         }                                                                           \
-- 
2.43.0


From e06322f9efdfd182e78113102f0a9b30ace7504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:50 +0000
Subject: [PATCH 138/182] fix: a constructor with more than 255 var or private
 parameters crashed

---
 src/vm/compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 80924e8..4026a11 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -917,7 +917,7 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
 
             if (fnCompiler->function->arity + fnCompiler->function->arityOptional > 255) {
                 error(fnCompiler->parser, "Cannot have more than 255 parameters.");
-                return;
+                break;
             }
             index++;
         } while (match(fnCompiler, TOKEN_COMMA));
-- 
2.43.0


From d5249cd4a1c1cf514909d060cd40755c2289daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 139/182] fix: Sqlite read text containing NUL cut short and
 left BLOBs out of the rows

---
 src/optionals/sqlite.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index 265793b..04ad5cb 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -135,7 +135,17 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
 
                 case SQLITE_TEXT: {
                     char *s = (char *)sqlite3_column_text(result.stmt, i);
-                    ObjString *string = copyString(vm, s, strlen(s));
+                    ObjString *string = copyString(vm, s, sqlite3_column_bytes(result.stmt, i));
+                    push(vm, OBJ_VAL(string));
+                    writeValueArray(vm, &rowList->values, OBJ_VAL(string));
+                    pop(vm);
+                    break;
+                }
+
+                case SQLITE_BLOB: {
+                    // NULL for an empty one
+                    char *s = (char *)sqlite3_column_blob(result.stmt, i);
+                    ObjString *string = copyString(vm, s == NULL ? "" : s, sqlite3_column_bytes(result.stmt, i));
                     push(vm, OBJ_VAL(string));
                     writeValueArray(vm, &rowList->values, OBJ_VAL(string));
                     pop(vm);
-- 
2.43.0


From 3114ba233fbd2aec9c1916f3452f3ba8d3a65583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 140/182] fix: Sqlite counted question marks in text and
 comments as parameters

---
 src/optionals/sqlite.c | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index 04ad5cb..523850b 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -14,17 +14,6 @@ typedef struct {
 
 ObjAbstract *newSqlite(DictuVM *vm);
 
-static int countParameters(char *query) {
-    int length = strlen(query);
-    int count = 0;
-
-    for (int i = 0; i < length; ++i) {
-        if (query[i] == '?') count++;
-    }
-
-    return count;
-}
-
 void bindValue(sqlite3_stmt *stmt, int index, Value value) {
     if (IS_NUMBER(value)) {
         sqlite3_bind_double(stmt, index, AS_NUMBER(value));
@@ -61,7 +50,6 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
 
     char *sql = AS_CSTRING(args[1]);
     ObjList *list = NULL;
-    int parameterCount = countParameters(sql);
     int argumentCount = 0;
 
     if (argCount == 2) {
@@ -74,11 +62,6 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
         argumentCount = list->values.count;
     }
 
-    if (parameterCount != argumentCount) {
-        runtimeError(vm, "execute() has %d parameters but %d were given", parameterCount, argumentCount);
-        return EMPTY_VAL;
-    }
-
     Result result;
 
     int err = sqlite3_prepare_v2(db->db, sql, -1, &result.stmt, NULL);
@@ -87,6 +70,14 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
         return newResultError(vm, error);
     }
 
+    int parameterCount = sqlite3_bind_parameter_count(result.stmt);
+
+    if (parameterCount != argumentCount) {
+        sqlite3_finalize(result.stmt);
+        runtimeError(vm, "execute() has %d parameters but %d were given", parameterCount, argumentCount);
+        return EMPTY_VAL;
+    }
+
     if (parameterCount != 0 && list != NULL) {
         for (int i = 0; i < parameterCount; ++i) {
             bindValue(result.stmt, i + 1, list->values.values[i]);
-- 
2.43.0


From 6c6f5584a235fd5648a40c161f43029e4813de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 141/182] fix: Sqlite bound values it does not support as NULL

---
 src/optionals/sqlite.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index 523850b..ed5593e 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -60,6 +60,15 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
 
         list = AS_LIST(args[2]);
         argumentCount = list->values.count;
+
+        for (int i = 0; i < argumentCount; ++i) {
+            Value value = list->values.values[i];
+
+            if (!IS_NUMBER(value) && !IS_NIL(value) && !IS_STRING(value)) {
+                runtimeError(vm, "execute() arguments must be numbers, strings or nil.");
+                return EMPTY_VAL;
+            }
+        }
     }
 
     Result result;
-- 
2.43.0


From 38affcdbc9b09b47092c5ff6ae54acd56516bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 142/182] fix: Sqlite queries without rows gave nil unless they
 began with an S

---
 src/optionals/sqlite.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index ed5593e..7273616 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -95,17 +95,13 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
 
     ObjList *finalList = newList(vm);
     push(vm, OBJ_VAL(finalList));
-    bool returnValue = false;
+    // Queries that return data give a list, even if there are no rows.
+    bool returnValue = sqlite3_column_count(result.stmt) > 0;
 
     for (;;) {
         err = sqlite3_step(result.stmt);
         if (err != SQLITE_ROW) {
             if (err == SQLITE_DONE) {
-                if (sql[0] == 'S' || sql[0] == 's') {
-                    // If a select statement returns no results SQLITE_ROW is not used.
-                    returnValue = true;
-                }
-
                 break;
             }
 
@@ -115,8 +111,6 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
             return newResultError(vm, error);
         }
 
-        returnValue = true;
-
         ObjList *rowList = newList(vm);
         push(vm, OBJ_VAL(rowList));
 
-- 
2.43.0


From 0b46afa42e9a59e280de3de5bc39e83592b89c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 143/182] fix: a failed Sqlite connection could be collected
 while its error was reported

---
 src/optionals/sqlite.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index 7273616..9c8c834 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -201,6 +201,7 @@ static Value connectSqlite(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjAbstract *abstract = newSqlite(vm);
+    push(vm, OBJ_VAL(abstract));
     Database *db = abstract->data;
     char *name = AS_CSTRING(args[0]);
 
@@ -209,19 +210,22 @@ static Value connectSqlite(DictuVM *vm, int argCount, Value *args) {
     sqlite3_busy_timeout(db->db, (int)timeout);
 
     if (err) {
-        char *error = (char *)sqlite3_errmsg(db->db);
-        return newResultError(vm, error);
+        Value result = newResultError(vm, (char *)sqlite3_errmsg(db->db));
+        pop(vm);
+        return result;
     }
 
     sqlite3_stmt *res;
     err = sqlite3_prepare_v2(db->db, "PRAGMA foreign_keys = ON;", -1, &res, 0);
 
     if (err) {
-        char *error = (char *)sqlite3_errmsg(db->db);
-        return newResultError(vm, error);
+        Value result = newResultError(vm, (char *)sqlite3_errmsg(db->db));
+        pop(vm);
+        return result;
     }
 
     sqlite3_finalize(res);
+    pop(vm);
 
     return newResultSuccess(vm, OBJ_VAL(abstract));
 }
-- 
2.43.0


From 116fd5aba798a239617f720baf23be9905b147a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 144/182] fix: Sqlite ignored all statements after the first
 and everything after a NUL

---
 src/optionals/sqlite.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index 9c8c834..40811d8 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -71,14 +71,28 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
+    if (strlen(sql) != (size_t) AS_STRING(args[1])->length) {
+        return newResultError(vm, "A query can not contain NUL");
+    }
+
     Result result;
+    const char *rest;
 
-    int err = sqlite3_prepare_v2(db->db, sql, -1, &result.stmt, NULL);
+    int err = sqlite3_prepare_v2(db->db, sql, -1, &result.stmt, &rest);
     if (err != SQLITE_OK) {
         char *error = (char *)sqlite3_errmsg(db->db);
         return newResultError(vm, error);
     }
 
+    // Only white space and comments may follow
+    sqlite3_stmt *next;
+    err = sqlite3_prepare_v2(db->db, rest, -1, &next, NULL);
+    if (err != SQLITE_OK || next != NULL) {
+        sqlite3_finalize(next);
+        sqlite3_finalize(result.stmt);
+        return newResultError(vm, "Only one statement can be executed at a time");
+    }
+
     int parameterCount = sqlite3_bind_parameter_count(result.stmt);
 
     if (parameterCount != argumentCount) {
@@ -200,10 +214,15 @@ static Value connectSqlite(DictuVM *vm, int argCount, Value *args) {
         timeout = AS_NUMBER(args[1]);
     }
 
+    char *name = AS_CSTRING(args[0]);
+
+    if (strlen(name) != (size_t) AS_STRING(args[0])->length) {
+        return newResultError(vm, "A database name can not contain NUL");
+    }
+
     ObjAbstract *abstract = newSqlite(vm);
     push(vm, OBJ_VAL(abstract));
     Database *db = abstract->data;
-    char *name = AS_CSTRING(args[0]);
 
     /* Open database */
     int err = sqlite3_open(name, &db->db);
-- 
2.43.0


From bea7aeff084f5d66d8c3069736c9c519935f4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:46 +0000
Subject: [PATCH 145/182] fix: Process passed arguments containing NUL cut
 short

---
 src/optionals/process.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index cd9d303..f617b90 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -151,6 +151,11 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
             return newResultError(vm, "Arguments passed must all be strings");
         }
 
+        if (strlen(AS_CSTRING(argList->values.values[i])) != (size_t) AS_STRING(argList->values.values[i])->length) {
+            FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
+            return newResultError(vm, "Arguments passed can not contain NUL");
+        }
+
         arguments[i] = AS_CSTRING(argList->values.values[i]);
     }
 
@@ -192,6 +197,11 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
             return newResultError(vm, "Arguments passed must all be strings");
         }
 
+        if (strlen(AS_CSTRING(argList->values.values[i])) != (size_t) AS_STRING(argList->values.values[i])->length) {
+            FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
+            return newResultError(vm, "Arguments passed can not contain NUL");
+        }
+
         arguments[i] = AS_CSTRING(argList->values.values[i]);
     }
 
-- 
2.43.0


From d467b0416b4457c39b90a792b5efae333bbcc0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:46 +0000
Subject: [PATCH 146/182] fix: Process reported programs killed by a signal as
 successful

---
 src/optionals/process.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index f617b90..9ad537c 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -176,6 +176,10 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
         int status = 0;
         waitpid(pid, &status, 0);
 
+        if (WIFSIGNALED(status)) {
+            return newResultError(vm, "Process was terminated by a signal");
+        }
+
         if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
             errno = status;
             ERROR_RESULT;
@@ -260,6 +264,11 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     int status = 0;
     waitpid(pid, &status, 0);
 
+    if (WIFSIGNALED(status)) {
+        FREE_ARRAY(vm, char, output, size);
+        return newResultError(vm, "Process was terminated by a signal");
+    }
+
     if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
         FREE_ARRAY(vm, char, output, size);
         errno = status;
-- 
2.43.0


From 9194800a7c0e631969064eb8995d779f2048126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:46 +0000
Subject: [PATCH 147/182] fix: Process.run gave the output read so far as all
 of it when reading failed

---
 src/optionals/process.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index 9ad537c..72dada0 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -241,12 +241,14 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     char buffer[1024];
     int total = 0;
     int numRead;
+    int readError = 0;
 
     while ((numRead = read(fd[0], buffer, 1024)) != 0) {
         if (numRead == -1) {
             if (errno == EINTR) {
                 continue;
             }
+            readError = errno;
             break;
         }
 
@@ -275,6 +277,12 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
         ERROR_RESULT;
     }
 
+    if (readError != 0) {
+        FREE_ARRAY(vm, char, output, size);
+        errno = readError;
+        ERROR_RESULT;
+    }
+
     output = SHRINK_ARRAY(vm, output, char, size, total + 1);
     output[total] = '\0';
 
-- 
2.43.0


From 08e1a8e7280aa3d720d2303161fa128b928a7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:46 +0000
Subject: [PATCH 148/182] fix: closed sockets used whatever file got their
 descriptor next

---
 src/optionals/socket.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optionals/socket.c b/src/optionals/socket.c
index a4b9a98..95a1e00 100644
--- a/src/optionals/socket.c
+++ b/src/optionals/socket.c
@@ -258,7 +258,11 @@ static Value closeSocket(DictuVM *vm, int argCount, Value *args) {
     }
 
     SocketData *sock = AS_SOCKET(args[0]);
-    close(sock->socket);
+
+    if (sock->socket != -1) {
+        close(sock->socket);
+        sock->socket = -1;
+    }
 
     return NIL_VAL;
 }
-- 
2.43.0


From fbe8de401db0037143e1751b5753d3c5eb7da0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:46 +0000
Subject: [PATCH 149/182] fix: socket ports and sizes out of range were wrapped
 around

---
 src/optionals/socket.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/optionals/socket.c b/src/optionals/socket.c
index 95a1e00..1fdb555 100644
--- a/src/optionals/socket.c
+++ b/src/optionals/socket.c
@@ -1,5 +1,6 @@
 #include "socket.h"
 
+#include <limits.h>
 #include <stdio.h>
 
 #ifdef _WIN32
@@ -76,6 +77,11 @@ static Value bindSocket(DictuVM *vm, int argCount, Value *args) {
 
     SocketData *sock = AS_SOCKET(args[0]);
     char *host = AS_CSTRING(args[1]);
+
+    if (!(AS_NUMBER(args[2]) >= 0 && AS_NUMBER(args[2]) <= 65535)) {
+        return newResultError(vm, "Port must be between 0 and 65535");
+    }
+
     int port = AS_NUMBER(args[2]);
 
     struct sockaddr_in server;
@@ -194,13 +200,14 @@ static Value recvSocket(DictuVM *vm, int argCount, Value *args) {
     }
 
     SocketData *sock = AS_SOCKET(args[0]);
-    int bufferSize = AS_NUMBER(args[1]) + 1;
 
-    if (bufferSize < 1) {
+    if (!(AS_NUMBER(args[1]) >= 0 && AS_NUMBER(args[1]) < INT_MAX)) {
         runtimeError(vm, "recv() argument must be greater than 1");
         return EMPTY_VAL;
     }
 
+    int bufferSize = AS_NUMBER(args[1]) + 1;
+
     char *buffer = ALLOCATE(vm, char, bufferSize);
     int readSize = recv(sock->socket, buffer, bufferSize - 1, 0);
 
@@ -238,6 +245,10 @@ static Value connectSocket(DictuVM *vm, int argCount, Value *args) {
 
     SocketData *sock = AS_SOCKET(args[0]);
 
+    if (!(AS_NUMBER(args[2]) >= 0 && AS_NUMBER(args[2]) <= 65535)) {
+        return newResultError(vm, "Port must be between 0 and 65535");
+    }
+
     struct sockaddr_in server;
 
     server.sin_family = sock->socketFamily;
-- 
2.43.0


From 34ce884fca3b9da2d48a32d2b673417f47641f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:39 +0000
Subject: [PATCH 150/182] fix: gcd and lcm of zero, negative, large and
 non-finite numbers crashed or were wrong

---
 src/optionals/math.c | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index c8eae3c..d9e5cef 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -231,10 +231,12 @@ static Value tanNative(DictuVM *vm, int argCount, Value *args) {
     return NUMBER_VAL(tan(AS_NUMBER(args[0])));
 }
 
-static long long gcd(long long a, long long b) {
-    long long r;
+static double gcd(double a, double b) {
+    double r;
+    a = fabs(a);
+    b = fabs(b);
     while (b > 0) {
-        r = a % b;
+        r = fmod(a, b);
         a = b;
         b = r;
     }
@@ -269,26 +271,26 @@ static Value gcdNative(DictuVM *vm, int argCount, Value *args) {
     double* as_doubles = ALLOCATE(vm, double, argCount);
     for (int i = 0; i < argCount; ++i) {
         as_doubles[i] = AS_NUMBER(args[i]);
-        if (fabs(round(as_doubles[i]) - as_doubles[i]) > FLOAT_TOLERANCE) {
+        if (!(fabs(round(as_doubles[i]) - as_doubles[i]) <= FLOAT_TOLERANCE)) {
             runtimeError(vm, notWholeError, as_doubles[i], i);
             FREE_ARRAY(vm, double, as_doubles, argCount);
             return EMPTY_VAL;
         }
     }
 
-    long long* as_longlongs = ALLOCATE(vm, long long, argCount);
-    for (int i = 0; i < argCount; ++i) as_longlongs[i] = round(as_doubles[i]);
-
-    long long result = as_longlongs[0];
-    for (int i = 1; i < argCount; ++i) result = gcd(result, as_longlongs[i]);
+    double result = round(as_doubles[0]);
+    for (int i = 1; i < argCount; ++i) result = gcd(result, round(as_doubles[i]));
 
     FREE_ARRAY(vm, double, as_doubles, argCount);
-    FREE_ARRAY(vm, long long, as_longlongs, argCount);
     return NUMBER_VAL(result);
 }
 
-long long lcm(long long a, long long b) {
-    return (a * b) / gcd(a, b);
+static double lcm(double a, double b) {
+    if (a == 0 || b == 0) {
+        return 0;
+    }
+
+    return fabs(a) / gcd(a, b) * fabs(b);
 }
 
 static Value lcmNative(DictuVM *vm, int argCount, Value *args) {
@@ -319,21 +321,17 @@ static Value lcmNative(DictuVM *vm, int argCount, Value *args) {
     double* as_doubles = ALLOCATE(vm, double, argCount);
     for (int i = 0; i < argCount; ++i) {
         as_doubles[i] = AS_NUMBER(args[i]);
-        if (fabs(round(as_doubles[i]) - as_doubles[i]) > FLOAT_TOLERANCE) {
+        if (!(fabs(round(as_doubles[i]) - as_doubles[i]) <= FLOAT_TOLERANCE)) {
             runtimeError(vm, notWholeError, as_doubles[i], i);
             FREE_ARRAY(vm, double, as_doubles, argCount);
             return EMPTY_VAL;
         }
     }
 
-    long long* as_longlongs = ALLOCATE(vm, long long, argCount);
-    for (int i = 0; i < argCount; ++i) as_longlongs[i] = round(as_doubles[i]);
-
-    long long result = as_longlongs[0];
-    for (int i = 1; i < argCount; ++i) result = lcm(result, as_longlongs[i]);
+    double result = round(as_doubles[0]);
+    for (int i = 1; i < argCount; ++i) result = lcm(result, round(as_doubles[i]));
 
     FREE_ARRAY(vm, double, as_doubles, argCount);
-    FREE_ARRAY(vm, long long, as_longlongs, argCount);
     return NUMBER_VAL(result);
 }
 
-- 
2.43.0


From 1bbdcf2b32808e28e166b3670ebe8ab2def8de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:39 +0000
Subject: [PATCH 151/182] fix: average of an empty list was not a number

---
 src/optionals/math.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index d9e5cef..ec30226 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -13,6 +13,10 @@ static Value averageNative(DictuVM *vm, int argCount, Value *args) {
         args = list->values.values;
     }
 
+    if (argCount == 0) {
+        return NUMBER_VAL(0);
+    }
+
     for (int i = 0; i < argCount; ++i) {
         Value value = args[i];
         if (!IS_NUMBER(value)) {
-- 
2.43.0


From b135945761bb4b1c24d3d9cdd3bb4f47b720fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:39 +0000
Subject: [PATCH 152/182] fix: abs of negative zero was negative zero

---
 src/optionals/math.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index ec30226..979c7ac 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -82,12 +82,7 @@ static Value absNative(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    double absValue = AS_NUMBER(args[0]);
-
-    if (absValue < 0)
-        return NUMBER_VAL(absValue * -1);
-
-    return NUMBER_VAL(absValue);
+    return NUMBER_VAL(fabs(AS_NUMBER(args[0])));
 }
 
 static Value maxNative(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From 1ccb16b9abb8f808317e169389bbf1d6762ab525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:39 +0000
Subject: [PATCH 153/182] fix: Random.range gave numbers below a fractional
 bound and only half of large ranges

---
 src/optionals/random.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/optionals/random.c b/src/optionals/random.c
index d7bb956..45194d2 100644
--- a/src/optionals/random.c
+++ b/src/optionals/random.c
@@ -29,15 +29,21 @@ static Value randomRange(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int64_t upper = AS_NUMBER(args[1]);
-    int64_t lower = AS_NUMBER(args[0]);
+    int64_t upper = floor(AS_NUMBER(args[1]));
+    int64_t lower = ceil(AS_NUMBER(args[0]));
 
     if (upper < lower) {
         runtimeError(vm, "range() upper bound must not be less than its lower bound");
         return EMPTY_VAL;
     }
 
-    int64_t random_val = (rand() % (upper - lower + 1)) + lower;
+    int64_t random_num = rand();
+
+    if (upper - lower > RAND_MAX) {
+        random_num = random_num * ((int64_t)RAND_MAX + 1) + rand();
+    }
+
+    int64_t random_val = (random_num % (upper - lower + 1)) + lower;
     return NUMBER_VAL(random_val);
 }
 
-- 
2.43.0


From 3422633137a9f836f1bf1fc8525adab301d9096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:36 +0000
Subject: [PATCH 154/182] fix: strftime rendered times out of range from
 uninitialised memory

---
 src/optionals/datetime.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/optionals/datetime.c b/src/optionals/datetime.c
index 3919003..1e01a3b 100644
--- a/src/optionals/datetime.c
+++ b/src/optionals/datetime.c
@@ -6,7 +6,7 @@
 #define localtime_r(TIMER, BUF) localtime_s(BUF, TIMER)
 // Assumes length of BUF is 26
 #define asctime_r(TIME_PTR, BUF) (asctime_s(BUF, 26, TIME_PTR), BUF)
-#define gmtime_r(TIMER, BUF) gmtime_s(BUF, TIMER)
+#define gmtime_r(TIMER, BUF) (gmtime_s(BUF, TIMER) == 0 ? (BUF) : NULL)
 #else
 #define HAS_STRPTIME
 #endif
@@ -68,6 +68,11 @@ static Value strftimeNative(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
+        if (!(fabs(AS_NUMBER(args[1])) < 1e17)) {
+            runtimeError(vm, "strftime() time is out of range");
+            return EMPTY_VAL;
+        }
+
         t = AS_NUMBER(args[1]);
     } else {
         time(&t);
@@ -82,6 +87,12 @@ static Value strftimeNative(DictuVM *vm, int argCount, Value *args) {
     char *fmt = format->chars;
 
     struct tm tictoc;
+
+    if (gmtime_r(&t, &tictoc) == NULL) {
+        runtimeError(vm, "strftime() time is out of range");
+        return EMPTY_VAL;
+    }
+
     int len = (format->length > 128 ? format->length * 4 : 128);
 
     char *point = ALLOCATE(vm, char, len);
@@ -90,8 +101,6 @@ static Value strftimeNative(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    gmtime_r(&t, &tictoc);
-
     /**
      * strtime returns 0 when it fails to write - this would be due to the buffer
      * not being large enough. In that instance we double the buffer length until
-- 
2.43.0


From 09f09c88d073037853c8a0780727450e065c6b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:36 +0000
Subject: [PATCH 155/182] fix: strftime ignored the rest of a format after NUL

---
 src/optionals/datetime.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/datetime.c b/src/optionals/datetime.c
index 1e01a3b..a740cb8 100644
--- a/src/optionals/datetime.c
+++ b/src/optionals/datetime.c
@@ -86,6 +86,11 @@ static Value strftimeNative(DictuVM *vm, int argCount, Value *args) {
 
     char *fmt = format->chars;
 
+    if (strlen(fmt) != (size_t) format->length) {
+        runtimeError(vm, "strftime() argument can not contain NUL");
+        return EMPTY_VAL;
+    }
+
     struct tm tictoc;
 
     if (gmtime_r(&t, &tictoc) == NULL) {
-- 
2.43.0


From d0bdb0432884fd0f864e60eeabea1645c782ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:36 +0000
Subject: [PATCH 156/182] fix: strptime took times as local while strftime
 gives UTC

---
 src/optionals/datetime.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optionals/datetime.c b/src/optionals/datetime.c
index a740cb8..b779777 100644
--- a/src/optionals/datetime.c
+++ b/src/optionals/datetime.c
@@ -164,7 +164,10 @@ static Value strptimeNative(DictuVM *vm, int argCount, Value *args) {
         return NIL_VAL;
     }
 
-    return NUMBER_VAL((double) mktime(&tictoc));
+    // Times are UTC unless they say otherwise
+    long offset = tictoc.tm_gmtoff;
+
+    return NUMBER_VAL((double) timegm(&tictoc) - offset);
 }
 #endif
 
-- 
2.43.0


From 77c94cf618afd9b18b60bd4726864b6b08dd6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:16 +0000
Subject: [PATCH 157/182] fix: toDict gave a class the values of its
 superclasses

---
 src/vm/object.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vm/object.c b/src/vm/object.c
index af9413c..5d1ea4e 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -615,6 +615,12 @@ ObjDict *classToDict(DictuVM *vm, Value value) {
             if (klass->variables.entries[i].key == NULL) {
                 continue;
             }
+            // What a subclass declares hides what its superclasses do
+            Value hidden;
+            if (dictGet(variablesDict, OBJ_VAL(klass->variables.entries[i].key), &hidden)) {
+                continue;
+            }
+
             dictSet(vm, variablesDict, OBJ_VAL(klass->variables.entries[i].key), klass->variables.entries[i].value);
         }
 
@@ -622,6 +628,11 @@ ObjDict *classToDict(DictuVM *vm, Value value) {
             if (klass->constants.entries[i].key == NULL) {
                 continue;
             }
+            Value hidden;
+            if (dictGet(constantsDict, OBJ_VAL(klass->constants.entries[i].key), &hidden)) {
+                continue;
+            }
+
             dictSet(vm, constantsDict, OBJ_VAL(klass->constants.entries[i].key), klass->constants.entries[i].value);
         }
 
-- 
2.43.0


From 389f769598909099490d79df16b706b2600ee57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:18 +0000
Subject: [PATCH 158/182] fix: Argparse printed the metavar of every number
 option

---
 src/optionals/argparse/argparse-source.h | 1 -
 src/optionals/argparse/argparse.du       | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/optionals/argparse/argparse-source.h b/src/optionals/argparse/argparse-source.h
index 3fab8cc..04e4260 100644
--- a/src/optionals/argparse/argparse-source.h
+++ b/src/optionals/argparse/argparse-source.h
@@ -146,7 +146,6 @@
 "                        }\n" \
 "\n" \
 "                        if (this.preArgs[j].exists('metavar') and this.preArgs[j]['metavar'] != '') {\n" \
-"                            print(this.preArgs[j]['metavar']);\n" \
 "                            this.args.setAttribute(this.preArgs[j]['metavar'], res.unwrap());\n" \
 "                        } else {\n" \
 "                            this.args.setAttribute(this.preArgs[j]['flag'].replace('-', ''), res.unwrap());\n" \
diff --git a/src/optionals/argparse/argparse.du b/src/optionals/argparse/argparse.du
index e9fbc74..022571d 100644
--- a/src/optionals/argparse/argparse.du
+++ b/src/optionals/argparse/argparse.du
@@ -146,7 +146,6 @@ class Parser {
                         }
 
                         if (this.preArgs[j].exists('metavar') and this.preArgs[j]['metavar'] != '') {
-                            print(this.preArgs[j]['metavar']);
                             this.args.setAttribute(this.preArgs[j]['metavar'], res.unwrap());
                         } else {
                             this.args.setAttribute(this.preArgs[j]['flag'].replace('-', ''), res.unwrap());
-- 
2.43.0


From 38c0e916f427d0bc565d72f2103ba892754a54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:18 +0000
Subject: [PATCH 159/182] fix: Argparse failed on an empty option value

---
 src/optionals/argparse/argparse-source.h | 4 ++--
 src/optionals/argparse/argparse.du       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/optionals/argparse/argparse-source.h b/src/optionals/argparse/argparse-source.h
index 04e4260..76d5671 100644
--- a/src/optionals/argparse/argparse-source.h
+++ b/src/optionals/argparse/argparse-source.h
@@ -126,7 +126,7 @@
 "                        }\n" \
 "                        \n" \
 "                    } else if (this.preArgs[j]['type'] == 'list') {\n" \
-"                        if (i == (System.argv.len() - 1) or System.argv[i+1][0] == '-') {\n" \
+"                        if (i == (System.argv.len() - 1) or System.argv[i+1].startsWith('-')) {\n" \
 "                            return Error('{} requires an argument'.format(System.argv[i]));\n" \
 "                        }\n" \
 "\n" \
@@ -151,7 +151,7 @@
 "                            this.args.setAttribute(this.preArgs[j]['flag'].replace('-', ''), res.unwrap());\n" \
 "                        }\n" \
 "                    } else {\n" \
-"                        if (i == (System.argv.len() - 1) or System.argv[i+1][0] == '-') {\n" \
+"                        if (i == (System.argv.len() - 1) or System.argv[i+1].startsWith('-')) {\n" \
 "                            return Error('{} requires an argument'.format(System.argv[i]));\n" \
 "                        }\n" \
 "\n" \
diff --git a/src/optionals/argparse/argparse.du b/src/optionals/argparse/argparse.du
index 022571d..a8d8527 100644
--- a/src/optionals/argparse/argparse.du
+++ b/src/optionals/argparse/argparse.du
@@ -126,7 +126,7 @@ class Parser {
                         }
                         
                     } else if (this.preArgs[j]['type'] == 'list') {
-                        if (i == (System.argv.len() - 1) or System.argv[i+1][0] == '-') {
+                        if (i == (System.argv.len() - 1) or System.argv[i+1].startsWith('-')) {
                             return Error('{} requires an argument'.format(System.argv[i]));
                         }
 
@@ -151,7 +151,7 @@ class Parser {
                             this.args.setAttribute(this.preArgs[j]['flag'].replace('-', ''), res.unwrap());
                         }
                     } else {
-                        if (i == (System.argv.len() - 1) or System.argv[i+1][0] == '-') {
+                        if (i == (System.argv.len() - 1) or System.argv[i+1].startsWith('-')) {
                             return Error('{} requires an argument'.format(System.argv[i]));
                         }
 
-- 
2.43.0


From 4db7a80334c4f1a3857ba6b292de369cd3d9c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:18 +0000
Subject: [PATCH 160/182] fix: Argparse counted a repeated flag as two required
 ones

---
 src/optionals/argparse/argparse-source.h | 15 ++++-----------
 src/optionals/argparse/argparse.du       | 15 ++++-----------
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/optionals/argparse/argparse-source.h b/src/optionals/argparse/argparse-source.h
index 76d5671..01fc7be 100644
--- a/src/optionals/argparse/argparse-source.h
+++ b/src/optionals/argparse/argparse-source.h
@@ -81,20 +81,13 @@
 "    }\n" \
 "\n" \
 "    private hasRequired() {\n" \
-"        var found = 0;\n" \
-"        for (var i = 0; i < System.argv.len(); i+=1) {\n" \
-"            for (var j = 0; j < this.required.len(); j+=1) {\n" \
-"                if (System.argv[i] == this.required[j]) {\n" \
-"                    found += 1;\n" \
-"                }\n" \
+"        for (var i = 0; i < this.required.len(); i+=1) {\n" \
+"            if (not System.argv.contains(this.required[i])) {\n" \
+"                return false;\n" \
 "            }\n" \
 "        }\n" \
 "\n" \
-"        if (found == this.required.len()) {\n" \
-"            return true;\n" \
-"        }\n" \
-"\n" \
-"        return false;\n" \
+"        return true;\n" \
 "    }\n" \
 "\n" \
 "    private fillEmpty() {\n" \
diff --git a/src/optionals/argparse/argparse.du b/src/optionals/argparse/argparse.du
index a8d8527..906ef36 100644
--- a/src/optionals/argparse/argparse.du
+++ b/src/optionals/argparse/argparse.du
@@ -81,20 +81,13 @@ class Parser {
     }
 
     private hasRequired() {
-        var found = 0;
-        for (var i = 0; i < System.argv.len(); i+=1) {
-            for (var j = 0; j < this.required.len(); j+=1) {
-                if (System.argv[i] == this.required[j]) {
-                    found += 1;
-                }
+        for (var i = 0; i < this.required.len(); i+=1) {
+            if (not System.argv.contains(this.required[i])) {
+                return false;
             }
         }
 
-        if (found == this.required.len()) {
-            return true;
-        }
-
-        return false;
+        return true;
     }
 
     private fillEmpty() {
-- 
2.43.0


From b0d9e1eb47335133f95c3a3f1cb98ded952a39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:18 +0000
Subject: [PATCH 161/182] fix: Argparse turned option values 0 and "" into nil

---
 src/optionals/argparse/argparse-source.h | 11 ++++-------
 src/optionals/argparse/argparse.du       | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/optionals/argparse/argparse-source.h b/src/optionals/argparse/argparse-source.h
index 01fc7be..7ab3b1e 100644
--- a/src/optionals/argparse/argparse-source.h
+++ b/src/optionals/argparse/argparse-source.h
@@ -94,20 +94,19 @@
 "        for (var i = 0; i < this.preArgs.len(); i += 1) {\n" \
 "            const arg = this.preArgs[i];\n" \
 "\n" \
-"            if (arg.get('metavar') and not this.args.getAttribute(arg['metavar'])) {\n" \
+"            if (arg.get('metavar')) {\n" \
 "                this.args.setAttribute(arg['metavar'], nil);\n" \
 "\n" \
 "                continue;\n" \
 "            }\n" \
 "\n" \
-"            const flag = arg['flag'].replace('-', '');\n" \
-"            if (not this.args.getAttribute(flag)) {\n" \
-"                this.args.setAttribute(flag, nil);\n" \
-"            }\n" \
+"            this.args.setAttribute(arg['flag'].replace('-', ''), nil);\n" \
 "        }\n" \
 "    }\n" \
 "\n" \
 "    parse() {\n" \
+"        this.fillEmpty();\n" \
+"\n" \
 "        for (var i = 0; i < System.argv.len(); i+=1) {\n" \
 "            for (var j = 0; j < this.preArgs.len(); j+=1) {\n" \
 "                if (System.argv[i] == this.preArgs[j]['flag']) {\n" \
@@ -162,8 +161,6 @@
 "            return Error('1 or more required flags missing');\n" \
 "        }\n" \
 "\n" \
-"        this.fillEmpty();\n" \
-"\n" \
 "        return Success(this.args);\n" \
 "    }\n" \
 "}\n" \
diff --git a/src/optionals/argparse/argparse.du b/src/optionals/argparse/argparse.du
index 906ef36..bbadcb0 100644
--- a/src/optionals/argparse/argparse.du
+++ b/src/optionals/argparse/argparse.du
@@ -94,20 +94,19 @@ class Parser {
         for (var i = 0; i < this.preArgs.len(); i += 1) {
             const arg = this.preArgs[i];
 
-            if (arg.get('metavar') and not this.args.getAttribute(arg['metavar'])) {
+            if (arg.get('metavar')) {
                 this.args.setAttribute(arg['metavar'], nil);
 
                 continue;
             }
 
-            const flag = arg['flag'].replace('-', '');
-            if (not this.args.getAttribute(flag)) {
-                this.args.setAttribute(flag, nil);
-            }
+            this.args.setAttribute(arg['flag'].replace('-', ''), nil);
         }
     }
 
     parse() {
+        this.fillEmpty();
+
         for (var i = 0; i < System.argv.len(); i+=1) {
             for (var j = 0; j < this.preArgs.len(); j+=1) {
                 if (System.argv[i] == this.preArgs[j]['flag']) {
@@ -162,8 +161,6 @@ class Parser {
             return Error('1 or more required flags missing');
         }
 
-        this.fillEmpty();
-
         return Success(this.args);
     }
 }
-- 
2.43.0


From 22c52b45d8cef4f6ba0315ba8346328444153759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:18 +0000
Subject: [PATCH 162/182] fix: Env names and values were cut at NUL and = in a
 name matched others

---
 src/optionals/env/env.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/optionals/env/env.c b/src/optionals/env/env.c
index 51aea6b..d62fdce 100644
--- a/src/optionals/env/env.c
+++ b/src/optionals/env/env.c
@@ -17,6 +17,13 @@ int setenv(const char *name, const char *value, int overwrite) {
 }
 #endif
 
+// No environment variable has such a name, and C strings end at NUL
+static bool validName(Value name) {
+    ObjString *string = AS_STRING(name);
+
+    return string->length > 0 && strlen(string->chars) == (size_t) string->length && strchr(string->chars, '=') == NULL;
+}
+
 static Value get(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1 && argCount != 2 ) {
         runtimeError(vm, "get() takes either 1 or 2 arguments (%d given).", argCount);
@@ -28,7 +35,7 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *value = getenv(AS_CSTRING(args[0]));
+    char *value = validName(args[0]) ? getenv(AS_CSTRING(args[0])) : NULL;
 
     if (argCount == 2) {
         if (!IS_STRING(args[1])) {
@@ -61,6 +68,10 @@ static Value set(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!validName(args[0]) || (IS_STRING(args[1]) && strlen(AS_CSTRING(args[1])) != (size_t) AS_STRING(args[1])->length)) {
+        return newResultError(vm, "Failed to set environment variable");
+    }
+
     char *key = AS_CSTRING(args[0]);
 
     int retval;
-- 
2.43.0


From 60cc9815869fb42baa535e2a5beb5f92206bcda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:18 +0000
Subject: [PATCH 163/182] fix: input() cut its prompt at NUL

---
 src/vm/natives.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/natives.c b/src/vm/natives.c
index 9270f9f..b0819b8 100644
--- a/src/vm/natives.c
+++ b/src/vm/natives.c
@@ -51,7 +51,7 @@ static Value inputNative(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
-        printf("%s", AS_CSTRING(prompt));
+        fwrite(AS_CSTRING(prompt), sizeof(char), AS_STRING(prompt)->length, stdout);
     }
 
     uint64_t currentSize = 128;
-- 
2.43.0


From 2313ffe62d6c3e5513439bdcaea7d2471c512e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:35 +0000
Subject: [PATCH 164/182] fix: readLine() took a read failure for the end of
 the file

---
 src/vm/datatypes/files.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index fd816a8..f69878b 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -169,6 +169,13 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
         line[length++] = (char) c;
     }
 
+    if (c == EOF && ferror(file->file)) {
+        clearerr(file->file);
+        FREE_ARRAY(vm, char, line, capacity);
+        runtimeError(vm, "Could not read file \"%s\".", file->path);
+        return EMPTY_VAL;
+    }
+
     // The end of the file
     if (length == 0 && c == EOF) {
         FREE_ARRAY(vm, char, line, capacity);
-- 
2.43.0


From c69b4b645d1f8ad7244e51f71df9d65d5b2f9855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:03 +0000
Subject: [PATCH 165/182] fix: mock() without arguments read past them

---
 src/optionals/unittest/unittest.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/unittest/unittest.c b/src/optionals/unittest/unittest.c
index 31dd627..1d51443 100644
--- a/src/optionals/unittest/unittest.c
+++ b/src/optionals/unittest/unittest.c
@@ -3,7 +3,7 @@
 #include "unittest-source.h"
 
 static Value mockNative(DictuVM *vm, int argCount, Value *args) {
-    if (argCount > 2) {
+    if (argCount != 1 && argCount != 2) {
         runtimeError(vm, "mock() takes 1 or 2 arguments (%d given)", argCount);
         return EMPTY_VAL;
     }
-- 
2.43.0


From 289235b04eb5c4cfb03ddd1f738c9022409eb068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:03 +0000
Subject: [PATCH 166/182] fix: methods of a mock refused the arguments of the
 mocked ones

---
 src/optionals/unittest/unittest.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optionals/unittest/unittest.c b/src/optionals/unittest/unittest.c
index 1d51443..327ebf7 100644
--- a/src/optionals/unittest/unittest.c
+++ b/src/optionals/unittest/unittest.c
@@ -41,6 +41,12 @@ static Value mockNative(DictuVM *vm, int argCount, Value *args) {
 
         emptyFunc->name = klass->publicMethods.entries[i].key;
 
+        // It is called like the method it stands for
+        ObjFunction *mocked = AS_CLOSURE(klass->publicMethods.entries[i].value)->function;
+        emptyFunc->arity = mocked->arity;
+        emptyFunc->arityOptional = mocked->arityOptional;
+        emptyFunc->isVariadic = mocked->isVariadic;
+
         Value val;
         if (returnValues != NULL && dictGet(returnValues, OBJ_VAL(klass->publicMethods.entries[i].key), &val)) {
             int constant = addConstant(vm, &emptyFunc->chunk, val);
-- 
2.43.0


From 02ca9a946778bcec4be901ab04170241b103b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:03 +0000
Subject: [PATCH 167/182] fix: Log cut messages at NUL

---
 src/optionals/log.c | 111 ++++++++++++--------------------------------
 1 file changed, 29 insertions(+), 82 deletions(-)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index a861f30..3788f8a 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -26,6 +26,25 @@ static struct tm* timeNow() {
     return ptm;
 }
 
+// A message may hold any bytes
+static void writeLog(FILE *of, char *prefix, ObjString *msg, bool newLine) {
+    struct tm *ptm = timeNow();
+
+    fprintf(of, "%04d/%02d/%02d %02d:%02d:%02d ",
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday,
+        ptm->tm_hour, ptm->tm_min, ptm->tm_sec);
+
+    if (prefix != NULL && strlen(prefix) != 0) {
+        fprintf(of, "%s ", prefix);
+    }
+
+    fwrite(msg->chars, sizeof(char), msg->length, of);
+
+    if (newLine) {
+        fputc('\n', of);
+    }
+}
+
 static Value printLog(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1) {
         runtimeError(vm, "print() takes 1 argument (%d given)", argCount);
@@ -37,12 +56,7 @@ static Value printLog(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    struct tm *ptm = timeNow();
-
-    char *msg = AS_CSTRING(args[0]);
-    printf("%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    writeLog(stdout, NULL, AS_STRING(args[0]), false);
 
     return NIL_VAL;
 }
@@ -57,13 +71,8 @@ static Value printlnLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "println() argument must be a string");
         return EMPTY_VAL;
     }
-    
-    struct tm *ptm = timeNow();
 
-    char *msg = AS_CSTRING(args[0]);
-    printf("%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    writeLog(stdout, NULL, AS_STRING(args[0]), true);
 
     return NIL_VAL;
 }
@@ -78,14 +87,9 @@ static Value fatalLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "fatal() argument must be a string");
         return EMPTY_VAL;
     }
-    
-    struct tm *ptm = timeNow();
 
-    char *msg = AS_CSTRING(args[0]);
-    printf("%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
-    
+    writeLog(stdout, NULL, AS_STRING(args[0]), false);
+
     exit(1);
 }
 
@@ -99,14 +103,9 @@ static Value fatallnLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "fatalln() argument must be a string");
         return EMPTY_VAL;
     }
-    
-    struct tm *ptm = timeNow();
 
-    char *msg = AS_CSTRING(args[0]);
-    printf("%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
-    
+    writeLog(stdout, NULL, AS_STRING(args[0]), true);
+
     exit(1);
 }
 
@@ -172,20 +171,7 @@ static Value logObjPrint(DictuVM *vm, int argCount, Value *args) {
 
     Log *log = AS_LOG(args[0]);
 
-    struct tm *ptm = timeNow();
-    char *msg = AS_CSTRING(args[1]);
-
-    if (log->prefix != NULL && strlen(log->prefix) != 0) {
-        fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s", 
-            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-            ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
-
-        return NIL_VAL;
-    }
-
-    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    writeLog(log->of, log->prefix, AS_STRING(args[1]), false);
 
     return NIL_VAL;
 }
@@ -203,20 +189,7 @@ static Value logObjPrintln(DictuVM *vm, int argCount, Value *args) {
 
     Log *log = AS_LOG(args[0]);
 
-    struct tm *ptm = timeNow();
-    char *msg = AS_CSTRING(args[1]);
-
-    if (log->prefix != NULL && strlen(log->prefix) != 0) {
-        fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s\n", 
-            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-            ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
-
-        return NIL_VAL;
-    }
-
-    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    writeLog(log->of, log->prefix, AS_STRING(args[1]), true);
 
     return NIL_VAL;
 }
@@ -234,20 +207,7 @@ static Value logObjFatal(DictuVM *vm, int argCount, Value *args) {
 
     Log *log = AS_LOG(args[0]);
 
-    struct tm *ptm = timeNow();
-
-    char *msg = AS_CSTRING(args[1]);
-    if (log->prefix != NULL && strlen(log->prefix) != 0) {
-        fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s", 
-            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-            ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
-
-        exit(1);
-    }
-
-    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    writeLog(log->of, log->prefix, AS_STRING(args[1]), false);
 
     exit(1);
 }
@@ -265,20 +225,7 @@ static Value logObjFatalln(DictuVM *vm, int argCount, Value *args) {
 
     Log *log = AS_LOG(args[0]);
 
-    struct tm *ptm = timeNow();
-
-    char *msg = AS_CSTRING(args[1]);
-    if (log->prefix != NULL && strlen(log->prefix) != 0) {
-        fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s\n", 
-            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-            ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
-
-        exit(1);
-    }
-
-    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    writeLog(log->of, log->prefix, AS_STRING(args[1]), true);
 
     exit(1);
 }
-- 
2.43.0


From d193fe03ad1823c6077ef4574f51ff3c81f4e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 168/182] fix: HTTP post()/put() bodies overflowed their buffer
 and ended at a null byte

---
 src/optionals/http/http.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index fe7963e..66b838e 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -277,7 +277,7 @@ static size_t writeHeaders(char *ptr, size_t size, size_t nitems, void *data) {
     return size * nitems;
 }
 
-static char *dictToPostArgs(ObjDict *dict) {
+static char *dictToPostArgs(ObjDict *dict, long *length) {
     int len = 100;
     char *ret = malloc(sizeof(char) * len);
     int currentLen = 0;
@@ -302,11 +302,12 @@ static char *dictToPostArgs(ObjDict *dict) {
             value = valueToString(entry->value);
         }
 
-        int keyLen = strlen(key);
-        int valLen = strlen(value);
+        int keyLen = IS_STRING(entry->key) ? AS_STRING(entry->key)->length : (int) strlen(key);
+        int valLen = IS_STRING(entry->value) ? AS_STRING(entry->value)->length : (int) strlen(value);
 
-        if (currentLen + keyLen + valLen > len) {
-            len = len * 2 + keyLen + valLen;
+        // "=", "&" and the terminating null byte need room as well
+        if (currentLen + keyLen + valLen + 3 > len) {
+            len = len * 2 + keyLen + valLen + 3;
             ret = realloc(ret, len);
 
             if (ret == NULL) {
@@ -333,6 +334,7 @@ static char *dictToPostArgs(ObjDict *dict) {
     }
 
     ret[currentLen] = '\0';
+    *length = currentLen;
 
     return ret;
 }
@@ -560,6 +562,7 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[0]);
         char *postValue = "";
+        long postLength = 0;
 
         struct curl_slist *list = NULL;
 
@@ -571,14 +574,16 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
         }
 
         if (postValuesDict != NULL) {
-            postValue = dictToPostArgs(postValuesDict);
+            postValue = dictToPostArgs(postValuesDict, &postLength);
         } else if (postValueString != NULL) {
             postValue = postValueString->chars;
+            postLength = postValueString->length;
         }
 
         curl_easy_setopt(curl, CURLOPT_URL, url);
         curl_easy_setopt(curl, CURLOPT_TIMEOUT, timeout);
         curl_easy_setopt(curl, CURLOPT_ACCEPT_ENCODING, "gzip");
+        curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE, postLength);
         curl_easy_setopt(curl, CURLOPT_POSTFIELDS, postValue);
         curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, writeResponse);
         curl_easy_setopt(curl, CURLOPT_WRITEDATA, &response);
@@ -677,6 +682,7 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[0]);
         char *putValue = "";
+        long putLength = 0;
 
         struct curl_slist *list = NULL;
 
@@ -688,14 +694,16 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
         }
 
         if (putValuesDict != NULL) {
-            putValue = dictToPostArgs(putValuesDict);
+            putValue = dictToPostArgs(putValuesDict, &putLength);
         } else if (putValueString != NULL) {
             putValue = putValueString->chars;
+            putLength = putValueString->length;
         }
 
         curl_easy_setopt(curl, CURLOPT_URL, url);
         curl_easy_setopt(curl, CURLOPT_TIMEOUT, timeout);
         curl_easy_setopt(curl, CURLOPT_ACCEPT_ENCODING, "gzip");
+        curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE, putLength);
         curl_easy_setopt(curl, CURLOPT_POSTFIELDS, putValue);
         curl_easy_setopt(curl, CURLOPT_CUSTOMREQUEST, "PUT");
         curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, writeResponse);
@@ -1174,15 +1182,18 @@ static Value httpClientPost(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
         char *postValue = "";
+        long postLength = 0;
 
         if (postValuesDict != NULL) {
-            postValue = dictToPostArgs(postValuesDict);
+            postValue = dictToPostArgs(postValuesDict, &postLength);
         } else if (postValueString != NULL) {
             postValue = postValueString->chars;
+            postLength = postValueString->length;
         }
 
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
+        curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDSIZE, postLength);
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDS, postValue);
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEDATA, &response);
@@ -1244,15 +1255,18 @@ static Value httpClientPut(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
         char *putValue = "";
+        long putLength = 0;
 
         if (putValuesDict != NULL) {
-            putValue = dictToPostArgs(putValuesDict);
+            putValue = dictToPostArgs(putValuesDict, &putLength);
         } else if (putValueString != NULL) {
             putValue = putValueString->chars;
+            putLength = putValueString->length;
         }
 
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
+        curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDSIZE, putLength);
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDS, putValue);
         curl_easy_setopt(httpClient->curl, CURLOPT_CUSTOMREQUEST, "PUT");
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
-- 
2.43.0


From 6c441b28d62316ef3a2f94ce97f41e3c7e354f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 169/182] fix: HTTP requests leaked their list of headers

---
 src/optionals/http/http.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 66b838e..51efd8e 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -339,7 +339,7 @@ static char *dictToPostArgs(ObjDict *dict, long *length) {
     return ret;
 }
 
-static bool setRequestHeaders(DictuVM *vm, struct curl_slist *list, CURL *curl, ObjList *headers) {
+static bool setRequestHeaders(DictuVM *vm, struct curl_slist **list, CURL *curl, ObjList *headers) {
     if (headers->values.count == 0) {
         return true;
     }
@@ -350,10 +350,10 @@ static bool setRequestHeaders(DictuVM *vm, struct curl_slist *list, CURL *curl,
             return false;
         }
 
-        list = curl_slist_append(list, AS_CSTRING(headers->values.values[i]));
+        *list = curl_slist_append(*list, AS_CSTRING(headers->values.values[i]));
     }
 
-    curl_easy_setopt(curl, CURLOPT_HTTPHEADER, list);
+    curl_easy_setopt(curl, CURLOPT_HTTPHEADER, *list);
 
     return true;
 }
@@ -459,8 +459,10 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
                 return EMPTY_VAL;
             }
         }
@@ -567,8 +569,10 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
                 return EMPTY_VAL;
             }
         }
@@ -687,8 +691,10 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
                 return EMPTY_VAL;
             }
         }
@@ -792,8 +798,10 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
                 return EMPTY_VAL;
             }
         }
@@ -883,8 +891,10 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
                 return EMPTY_VAL;
             }
         }
@@ -1383,7 +1393,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, httpClient->curl, headers)) {
+            if (!setRequestHeaders(vm, &list, httpClient->curl, headers)) {
                 curl_slist_free_all(list);
                 return EMPTY_VAL;
             }
-- 
2.43.0


From 85bb793c2184884804da48b18ebd4f42d90d6326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 170/182] fix: HTTP functions called without arguments read
 past their arguments

---
 src/optionals/http/http.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 51efd8e..824c6ea 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -413,7 +413,7 @@ static ObjInstance *endRequest(DictuVM *vm, CURL *curl, Response response, bool
 }
 
 static Value get(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "get() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -752,7 +752,7 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value head(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "head() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -845,7 +845,7 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value options(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "options() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -1349,7 +1349,7 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "options() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -1596,7 +1596,7 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 }
 
 static Value newClient(DictuVM *vm, int argCount, Value *args) {
-    if (argCount > 1) {
+    if (argCount != 1) {
         runtimeError(vm, "newClient() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
-- 
2.43.0


From 843078a87a4bfaa64d2dd9601b968b5b64f81288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 171/182] fix: HTTP response headers ending in a bare newline
 were cut short or crashed

---
 src/optionals/http/http.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 824c6ea..4745792 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -266,9 +266,17 @@ static size_t writeResponse(char *ptr, size_t size, size_t nmemb, void *data) {
 
 static size_t writeHeaders(char *ptr, size_t size, size_t nitems, void *data) {
     Response *response = (Response *) data;
-    // if nitems equals 2 its an empty header
-    if (nitems != 2) {
-        Value header = OBJ_VAL(copyString(response->vm, ptr, (nitems - 2) * size));
+    // The line ending is not part of the header, servers may leave out the carriage return
+    size_t len = size * nitems;
+    if (len > 0 && ptr[len - 1] == '\n') {
+        len--;
+    }
+    if (len > 0 && ptr[len - 1] == '\r') {
+        len--;
+    }
+    // if nothing is left its an empty header
+    if (len != 0) {
+        Value header = OBJ_VAL(copyString(response->vm, ptr, len));
         // Push to stack to avoid GC
         push(response->vm, header);
         writeValueArray(response->vm, &response->headers->values, header);
-- 
2.43.0


From a5082fd279a6ac0e769bbb1c22d50dbf52319ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 172/182] fix: HTTP requests that failed half way leaked what
 they had received

---
 src/optionals/http/http.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 4745792..b4ffaff 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -246,6 +246,13 @@ static void createResponse(DictuVM *vm, Response *response) {
     response->firstIteration = true;
 }
 
+static void freeResponse(DictuVM *vm, Response *response) {
+    if (response->res != NULL) {
+        FREE_ARRAY(vm, char, response->res, response->len + 1);
+        response->res = NULL;
+    }
+}
+
 static size_t writeResponse(char *ptr, size_t size, size_t nmemb, void *data) {
     Response *response = (Response *) data;
     size_t new_len = response->len + size * nmemb;
@@ -497,6 +504,7 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
             curl_easy_cleanup(curl);
             curl_global_cleanup();
             pop(vm);
+            freeResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -619,6 +627,7 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
             curl_easy_cleanup(curl);
             curl_global_cleanup();
             pop(vm);
+            freeResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -742,6 +751,7 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
             curl_easy_cleanup(curl);
             curl_global_cleanup();
             pop(vm);
+            freeResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -835,6 +845,7 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
             curl_easy_cleanup(curl);
             curl_global_cleanup();
             pop(vm);
+            freeResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -930,6 +941,7 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
             curl_easy_cleanup(curl);
             curl_global_cleanup();
             pop(vm);
+            freeResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1152,6 +1164,7 @@ static Value httpClientGet(DictuVM *vm, int argCount, Value *args) {
 
         if (curlResponse != CURLE_OK) {
             pop(vm);
+            freeResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1225,6 +1238,7 @@ static Value httpClientPost(DictuVM *vm, int argCount, Value *args) {
 
         if (curlResponse != CURLE_OK) {
             pop(vm);
+            freeResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1299,6 +1313,7 @@ static Value httpClientPut(DictuVM *vm, int argCount, Value *args) {
 
         if (curlResponse != CURLE_OK) {
             pop(vm);
+            freeResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1342,6 +1357,7 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
 
         if (curlResponse != CURLE_OK) {
             pop(vm);
+            freeResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1430,6 +1446,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
             curl_easy_cleanup(httpClient->curl);
             curl_global_cleanup();
             pop(vm);
+            freeResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
-- 
2.43.0


From f56f7b805bbf5e95eaba750eebf319a462dd3988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 173/182] fix: HTTP clients carried the previous request's
 method, body and headers over into the next one

---
 src/optionals/http/http.c | 96 +++++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 33 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index b4ffaff..4d9ec38 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -961,16 +961,21 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
 
 typedef struct {
     CURL *curl;
+    struct curl_slist *headers;
+    long timeout;
 } HttpClient;
 
 #define AS_HTTP_CLIENT(v) ((HttpClient*)AS_ABSTRACT(v)->data)
 
-struct curl_slist *headerChunk = NULL;
-
 void freeHttpClient(DictuVM *vm, ObjAbstract *abstract) {
     HttpClient *httpClient = (HttpClient*)abstract->data;
-    
+
+    if (httpClient == NULL) {
+        return;
+    }
+
     curl_easy_cleanup(httpClient->curl);
+    curl_slist_free_all(httpClient->headers);
     curl_global_cleanup();
 
     FREE(vm, HttpClient, abstract->data);
@@ -984,6 +989,37 @@ char *httpClientToString(ObjAbstract *abstract) {
     return httpClientString;
 }
 
+// A client keeps its handle, so whatever the previous request has set has to be undone
+static void resetRequest(HttpClient *httpClient) {
+    curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDS, NULL);
+    curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDSIZE, -1L);
+    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPGET, 1L);
+    curl_easy_setopt(httpClient->curl, CURLOPT_CUSTOMREQUEST, NULL);
+    curl_easy_setopt(httpClient->curl, CURLOPT_REQUEST_TARGET, NULL);
+    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, httpClient->headers);
+    curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, httpClient->timeout);
+}
+
+static bool setClientHeaders(DictuVM *vm, HttpClient *httpClient, ObjList *headers) {
+    struct curl_slist *list = NULL;
+
+    for (int h = 0; h < headers->values.count; h++) {
+        if (!IS_STRING(headers->values.values[h])) {
+            curl_slist_free_all(list);
+            runtimeError(vm, "Headers list must only contain strings");
+            return false;
+        }
+
+        list = curl_slist_append(list, AS_CSTRING(headers->values.values[h]));
+    }
+
+    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, list);
+    curl_slist_free_all(httpClient->headers);
+    httpClient->headers = list;
+
+    return true;
+}
+
 static Value httpClientSetTimeout(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1) {
         runtimeError(vm, "setTimeout() takes 1 argument (%d given).", argCount);
@@ -997,7 +1033,8 @@ static Value httpClientSetTimeout(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, (long)AS_NUMBER(args[1]));
+    httpClient->timeout = (long)AS_NUMBER(args[1]);
+    curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, httpClient->timeout);
 
     return NIL_VAL;
 }
@@ -1067,15 +1104,9 @@ static Value httpClientSetHeaders(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    ObjList *headers = AS_LIST(args[1]);
-
-    headerChunk = NULL;
-
-    for (int h = 0; h < headers->values.count; h++) {
-        headerChunk = curl_slist_append(headerChunk, AS_CSTRING(headers->values.values[h]));
+    if (!setClientHeaders(vm, httpClient, AS_LIST(args[1]))) {
+        return EMPTY_VAL;
     }
-    
-    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, headerChunk);
 
     return NIL_VAL;
 }
@@ -1154,6 +1185,7 @@ static Value httpClientGet(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
 
+        resetRequest(httpClient);
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
@@ -1222,6 +1254,7 @@ static Value httpClientPost(DictuVM *vm, int argCount, Value *args) {
             postLength = postValueString->length;
         }
 
+        resetRequest(httpClient);
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDSIZE, postLength);
@@ -1296,6 +1329,7 @@ static Value httpClientPut(DictuVM *vm, int argCount, Value *args) {
             putLength = putValueString->length;
         }
 
+        resetRequest(httpClient);
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDSIZE, putLength);
@@ -1348,6 +1382,7 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
 
+        resetRequest(httpClient);
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_NOBODY, 1L);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
@@ -1378,12 +1413,12 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    long timeout = DEFAULT_REQUEST_TIMEOUT;
     ObjList *headers = NULL;
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
+    long timeout = httpClient->timeout;
 
-    if (argCount == 4) {
+    if (argCount == 3) {
         if (!IS_NUMBER(args[3])) {
             runtimeError(vm, "Timeout passed to options() must be a number.");
             return EMPTY_VAL;
@@ -1393,7 +1428,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         argCount--;
     }
 
-    if (argCount == 3) {
+    if (argCount == 2) {
         if (!IS_LIST(args[2])) {
             runtimeError(vm, "Headers passed to options() must be a list.");
             return EMPTY_VAL;
@@ -1416,6 +1451,8 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
 
         struct curl_slist *list = NULL;
 
+        resetRequest(httpClient);
+
         if (headers) {
             if (!setRequestHeaders(vm, &list, httpClient->curl, headers)) {
                 curl_slist_free_all(list);
@@ -1431,20 +1468,17 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_HEADERFUNCTION, writeHeaders);
         curl_easy_setopt(httpClient->curl, CURLOPT_HEADERDATA, &response);
-        curl_easy_setopt(httpClient->curl, CURLOPT_FOLLOWLOCATION, 1L);
 
         /* Perform the request, res will get the return code */
         curlResponse = curl_easy_perform(httpClient->curl);
 
         if (headers) {
+            curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, httpClient->headers);
             curl_slist_free_all(list);
         }
 
         /* Check for errors */
         if (curlResponse != CURLE_OK) {
-            /* always cleanup */
-            curl_easy_cleanup(httpClient->curl);
-            curl_global_cleanup();
             pop(vm);
             freeResponse(vm, &response);
 
@@ -1452,12 +1486,9 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
             return newResultError(vm, errorString);
         }
 
-        return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, true)));
+        return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, false)));
     }
 
-    /* always cleanup */
-    curl_easy_cleanup(httpClient->curl);
-    curl_global_cleanup();
     pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
@@ -1469,8 +1500,12 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
     push(vm, OBJ_VAL(abstract));
 
     HttpClient *httpClient = ALLOCATE(vm, HttpClient, 1);
+    curl_global_init(CURL_GLOBAL_DEFAULT);
     httpClient->curl = curl_easy_init();
-    
+    httpClient->headers = NULL;
+    httpClient->timeout = 0;
+    abstract->data = httpClient;
+
     curl_easy_setopt(httpClient->curl, CURLOPT_HEADERFUNCTION, writeHeaders);
     curl_easy_setopt(httpClient->curl, CURLOPT_FOLLOWLOCATION, 1L);
 
@@ -1500,7 +1535,8 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
                     return EMPTY_VAL;
                 }
 
-                curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, (long)AS_NUMBER(entry->value));
+                httpClient->timeout = (long)AS_NUMBER(entry->value);
+                curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, httpClient->timeout);
             } else if (strstr(key, "headers")) {
                 if (IS_EMPTY(entry->value)) {
                     continue;
@@ -1511,13 +1547,9 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
                     return EMPTY_VAL;
                 }
 
-                ObjList *headers = AS_LIST(entry->value);
-
-                for (int h = 0; h < headers->values.count; h++) {
-                    headerChunk = curl_slist_append(headerChunk, AS_CSTRING(headers->values.values[h]));
+                if (!setClientHeaders(vm, httpClient, AS_LIST(entry->value))) {
+                    return EMPTY_VAL;
                 }
-                
-                curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, headerChunk);
             } else if (strstr(key, "insecure")) {
                 if (IS_EMPTY(entry->value)) {
                     continue;
@@ -1598,8 +1630,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
         }
     }
 
-    abstract->data = httpClient;
-
     /**
      * Setup HTTP object methods
      */
-- 
2.43.0


From a2cf7ae1605a1a19da6e3e7b5ffce7b4eb0fdcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 174/182] fix: HTTP client setCertFile() and setKeyPass() set
 the key file

---
 src/optionals/http/http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 4d9ec38..263ce3d 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -1142,7 +1142,7 @@ static Value httpClientSetCertFile(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    curl_easy_setopt(httpClient->curl, CURLOPT_SSLKEY, AS_CSTRING(args[1]));
+    curl_easy_setopt(httpClient->curl, CURLOPT_SSLCERT, AS_CSTRING(args[1]));
 
     return NIL_VAL;
 }
@@ -1160,7 +1160,7 @@ static Value httpClientSetKeyPass(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    curl_easy_setopt(httpClient->curl, CURLOPT_SSLKEY, AS_CSTRING(args[1]));
+    curl_easy_setopt(httpClient->curl, CURLOPT_KEYPASSWD, AS_CSTRING(args[1]));
 
     return NIL_VAL;
 }
-- 
2.43.0


From d6cd49a4ac7bd5646a4d8f74cdcb36f6fdfe04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 175/182] fix: HTTP constants with the wrong value

---
 src/optionals/http/http.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 263ce3d..55eaf4b 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -186,11 +186,11 @@
 #define HTTP_REQUEST_HEADER_WARNING                        "Warning"
 
 #define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN      "Access-Control-Allow-Origin"
-#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_CREDENTIALS HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN
-#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_EXPOSE_HEADERS    HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN
-#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_MAX_AGE           HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN
-#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_METHODS     HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN
-#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_HEADERS     HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN
+#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_CREDENTIALS "Access-Control-Allow-Credentials"
+#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_EXPOSE_HEADERS    "Access-Control-Expose-Headers"
+#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_MAX_AGE           "Access-Control-Max-Age"
+#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_METHODS     "Access-Control-Allow-Methods"
+#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_HEADERS     "Access-Control-Allow-Headers"
 #define HTTP_RESPONSE_HEADER_ACCEPT_PATCH                     "Accept-Patch"
 #define HTTP_RESPONSE_HEADER_ACCEPT_RANGES                    "Accept-Ranges"
 #define HTTP_RESPONSE_HEADER_AGE                              "Age"
@@ -231,7 +231,7 @@
 #define HTTP_RESPONSE_HEADER_WWW_AUTHENTICATE                 "WWW-Authenticate"
 #define HTTP_RESPONSE_HEADER_X_FRAME_OPTIONS                  "X-Frame-Options"
 
-#define HTTP_MAX_HEADER_BYTES 1 << 20 // 1 MB
+#define HTTP_MAX_HEADER_BYTES (1 << 20) // 1 MB
 
 #define DEFAULT_REQUEST_TIMEOUT 20
 
@@ -1902,7 +1902,7 @@ Value createHTTPModule(DictuVM *vm) {
     defineNativeProperty(vm, &module->values, "RESPONSE_HEADER_WWW_AUTHENTICATE", OBJ_VAL(copyString(vm, HTTP_RESPONSE_HEADER_WWW_AUTHENTICATE, strlen(HTTP_RESPONSE_HEADER_WWW_AUTHENTICATE))));
     defineNativeProperty(vm, &module->values, "RESPONSE_HEADER_X_FRAME_OPTIONS", OBJ_VAL(copyString(vm, HTTP_RESPONSE_HEADER_X_FRAME_OPTIONS, strlen(HTTP_RESPONSE_HEADER_X_FRAME_OPTIONS))));
 
-    defineNativeProperty(vm, &module->values, "MAX_HEADER_BYTES", AS_NUMBER(HTTP_MAX_HEADER_BYTES));
+    defineNativeProperty(vm, &module->values, "MAX_HEADER_BYTES", NUMBER_VAL(HTTP_MAX_HEADER_BYTES));
 
     /**
      * Define Http methods
-- 
2.43.0


From e018e0a001959bc8f687932625f76a63ceb86e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:57 +0000
Subject: [PATCH 176/182] fix: Term.getSize() gave the columns as pixels, and
 garbage without a terminal

---
 src/optionals/term.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optionals/term.c b/src/optionals/term.c
index aebc7c3..21a856d 100644
--- a/src/optionals/term.c
+++ b/src/optionals/term.c
@@ -58,7 +58,7 @@ static Value getSizeNative(DictuVM *vm, int argCount, Value *args) {
     ObjString *verticalPixels = copyString(vm, "vertical_pixels", 15);
     push(vm, OBJ_VAL(verticalPixels));
 
-    struct winsize w;
+    struct winsize w = {0};
     ioctl(0, TIOCGWINSZ, &w);
 
     dictSet(vm, terminalSizeDict, OBJ_VAL(lines), NUMBER_VAL(w.ws_row));
@@ -67,10 +67,10 @@ static Value getSizeNative(DictuVM *vm, int argCount, Value *args) {
     dictSet(vm, terminalSizeDict, OBJ_VAL(columns), NUMBER_VAL(w.ws_col));
     pop(vm);
 
-    dictSet(vm, terminalSizeDict, OBJ_VAL(horizontalPixesl), NUMBER_VAL(w.ws_col));
+    dictSet(vm, terminalSizeDict, OBJ_VAL(horizontalPixesl), NUMBER_VAL(w.ws_xpixel));
     pop(vm);
 
-    dictSet(vm, terminalSizeDict, OBJ_VAL(verticalPixels), NUMBER_VAL(w.ws_col));
+    dictSet(vm, terminalSizeDict, OBJ_VAL(verticalPixels), NUMBER_VAL(w.ws_ypixel));
     pop(vm);
 #endif
 
-- 
2.43.0


From eb9abaf38959153808c7bd31beea5627329a4ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:57 +0000
Subject: [PATCH 177/182] fix: Net.parseIp4() ignored everything after a null
 byte

---
 src/optionals/net.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/net.c b/src/optionals/net.c
index 7d7a175..7e8fe48 100644
--- a/src/optionals/net.c
+++ b/src/optionals/net.c
@@ -25,6 +25,11 @@ static Value parseIp4(DictuVM *vm, int argCount, Value *args) {
     }
 
     char *ipStr = AS_CSTRING(args[0]);
+
+    if (strlen(ipStr) != (size_t) AS_STRING(args[0])->length) {
+        return newResultError(vm, "invalid ip4 address");
+    }
+
     char ignore[4] = {0};
     
 #ifdef _WIN32
-- 
2.43.0


From b4ae803e3f1cb49ba28547586c633121ec53d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:34 +0000
Subject: [PATCH 178/182] fix: a function in a private attribute could not be
 called as this.name()

Only public attributes were looked up for a call through this.
---
 src/vm/vm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 97f215f..5f969d7 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -432,7 +432,8 @@ static bool invokeInternal(DictuVM *vm, ObjString *name, int argCount, bool unpa
         }
 
         // Look for a field which may shadow a method.
-        if (tableGet(&instance->publicAttributes, name, &value)) {
+        if (tableGet(&instance->privateAttributes, name, &value) ||
+            tableGet(&instance->publicAttributes, name, &value)) {
             vm->stackTop[-argCount - 1] = value;
             return callValue(vm, value, argCount, unpack);
         }
-- 
2.43.0


From 315a8d7a6cb27bbe54436fdfe61eaa01a055eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:34 +0000
Subject: [PATCH 179/182] fix: methods of a variable with the name of the
 surrounding class

A variable or parameter that hides the class may hold any value, but only
methods of instances and classes were found.
---
 src/vm/vm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 5f969d7..143941d 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -408,6 +408,8 @@ static bool invokeFromClass(DictuVM *vm, ObjClass *klass, ObjString *name,
     return call(vm, AS_CLOSURE(method), argCount);
 }
 
+static bool invoke(DictuVM *vm, ObjString *name, int argCount, bool unpack);
+
 static bool invokeInternal(DictuVM *vm, ObjString *name, int argCount, bool unpack) {
     Value receiver = peek(vm, argCount);
 
@@ -471,6 +473,9 @@ static bool invokeInternal(DictuVM *vm, ObjString *name, int argCount, bool unpa
         if (tableGet(&vm->classMethods, name, &method)) {
             return callNativeMethod(vm, method, argCount);
         }
+    } else {
+        // A variable which hides the name of the class can hold anything.
+        return invoke(vm, name, argCount, unpack);
     }
 
     runtimeError(vm, "Undefined attribute '%s'.", name->chars);
-- 
2.43.0


From 8878ccf177b15a2a5271fd96e0579306701aadc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:28 +0000
Subject: [PATCH 180/182] fix: the default of an optional parameter is only
 evaluated when it is needed, where its parameter lives

---
 src/vm/compiler.c | 12 ++++++------
 src/vm/debug.c    |  2 +-
 src/vm/vm.c       | 31 ++++++-------------------------
 3 files changed, 13 insertions(+), 32 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 4026a11..8c8516a 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -901,9 +901,14 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
                 if (isSpreadParam) {
                     error(fnCompiler->parser, "spread parameter cannot have an optional value");
                 }
+                // The parameters before this one are in place by now, so the
+                // default belongs right on top of them.
                 fnCompiler->function->arityOptional++;
                 optional = true;
+                emitByte(fnCompiler, OP_DEFINE_OPTIONAL);
+                int endJump = emitJump(fnCompiler, fnCompiler->function->arity + fnCompiler->function->arityOptional);
                 expression(fnCompiler);
+                patchJump(fnCompiler, endJump);
             } else {
                 fnCompiler->function->arity++;
 
@@ -922,11 +927,6 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
             index++;
         } while (match(fnCompiler, TOKEN_COMMA));
 
-        if (fnCompiler->function->arityOptional > 0) {
-            emitByte(fnCompiler, OP_DEFINE_OPTIONAL);
-            emitBytes(fnCompiler, fnCompiler->function->arity, fnCompiler->function->arityOptional);
-        }
-
         if (fnCompiler->function->propertyCount > 0) {
             DictuVM *vm = fnCompiler->parser->vm;
             push(vm, OBJ_VAL(fnCompiler->function));
@@ -2352,7 +2352,6 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_SET_ENUM_VALUE:
             return 1;
 
-        case OP_DEFINE_OPTIONAL:
         case OP_SET_CLASS_VAR:
         case OP_JUMP:
         case OP_COMPARE_JUMP:
@@ -2365,6 +2364,7 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_CALL:
             return 2;
 
+        case OP_DEFINE_OPTIONAL:
         case OP_INVOKE:
         case OP_INVOKE_INTERNAL:
         case OP_SUPER:
diff --git a/src/vm/debug.c b/src/vm/debug.c
index 4b80491..f96f31a 100644
--- a/src/vm/debug.c
+++ b/src/vm/debug.c
@@ -156,7 +156,7 @@ int disassembleInstruction(Chunk *chunk, int offset) {
         case OP_DEFINE_MODULE:
             return constantInstruction("OP_DEFINE_MODULE", chunk, offset);
         case OP_DEFINE_OPTIONAL:
-            return constantInstruction("OP_DEFINE_OPTIONAL", chunk, offset);
+            return jumpInstruction("OP_DEFINE_OPTIONAL", 1, chunk, offset + 1);
         case OP_SET_MODULE:
             return constantInstruction("OP_SET_MODULE", chunk, offset);
         case OP_GET_UPVALUE:
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 143941d..082723a 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1086,32 +1086,13 @@ static DictuInterpretResult run(DictuVM *vm) {
         }
 
         CASE_CODE(DEFINE_OPTIONAL): {
-            int arity = READ_BYTE();
-            int arityOptional = READ_BYTE();
-            int argCount = vm->stackTop - frame->slots - arityOptional - 1;
-
-            // Temp array while we shuffle the stack.
-            // Can not have more than 255 args to a function, so
-            // we can define this with a constant limit
-            Value values[255 * 2];
-            int index;
-
-            for (index = 0; index < arityOptional + argCount; index++) {
-                values[index] = pop(vm);
-            }
-
-            --index;
-
-            for (int i = 0; i < argCount; i++) {
-                push(vm, values[index - i]);
-            }
-
-            // Calculate how many "default" values are required
-            int remaining = arity + arityOptional - argCount;
+            // Skip over the default value if an argument was
+            // passed for the parameter
+            int slot = READ_BYTE();
+            uint16_t offset = READ_SHORT();
 
-            // Push any "default" values back onto the stack
-            for (int i = remaining; i > 0; i--) {
-                push(vm, values[i - 1]);
+            if (vm->stackTop - frame->slots > slot) {
+                ip += offset;
             }
 
             DISPATCH();
-- 
2.43.0


From 74ef35df2c13149c2109d847380c8125ece807fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:32 +0000
Subject: [PATCH 181/182] fix: BigInt bitwiseOr() and bitwiseXor() took the
 sign of the wrong operand

---
 src/optionals/bigint/bigint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/bigint/bigint.c b/src/optionals/bigint/bigint.c
index b76aed2..21ebf9e 100644
--- a/src/optionals/bigint/bigint.c
+++ b/src/optionals/bigint/bigint.c
@@ -1139,7 +1139,7 @@ bigint* bigint_and(bigint *r, const bigint *a, const bigint *b){
 bigint* bigint_or(bigint *r, const bigint *a, const bigint *b){
     bigint_reorder_longer_shorter(&a, &b);
     if (!bigint_cpy(r, a)) return NULL;
-    r->neg |= a->neg;
+    r->neg |= b->size > 0 && b->neg;
 
     for (int i = b->size - 1; i >= 0; i--){
         r->words[i] |= b->words[i];
@@ -1151,7 +1151,7 @@ bigint* bigint_or(bigint *r, const bigint *a, const bigint *b){
 bigint* bigint_xor(bigint *r, const bigint *a, const bigint *b){
     bigint_reorder_longer_shorter(&a, &b);
     if (!bigint_cpy(r, a)) return NULL;
-    r->neg ^= a->neg;
+    r->neg ^= b->size > 0 && b->neg;
 
     for (int i = b->size - 1; i >= 0; i--){
         r->words[i] ^= b->words[i];
-- 
2.43.0


From 432cbeb8afcb33e8558a5e628944f6673a27e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:10 +0000
Subject: [PATCH 182/182] fix: mkdirAll() took backslashes in names for
 separators, and refused paths with several trailing separators

---
 src/optionals/system.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/optionals/system.c b/src/optionals/system.c
index f9c4e6a..603247a 100644
--- a/src/optionals/system.c
+++ b/src/optionals/system.c
@@ -292,14 +292,14 @@ static Value mkdirAllNative(DictuVM *vm, int argCount, Value *args) {
 
     memcpy(tmp, dir, len + 1);
 
-    if (len > 1 && (tmp[len - 1] == '/' || tmp[len - 1] == '\\')) {
-        tmp[len - 1] = 0;
+    while (len > 1 && IS_DIR_SEPARATOR(tmp[len - 1])) {
+        tmp[--len] = 0;
     }
 
     int retval;
 
     for (p = tmp + 1; *p; p++) {
-        if (*p == '/' || *p == '\\') {
+        if (IS_DIR_SEPARATOR(*p)) {
             *p = 0;
 
             retval = MKDIR(tmp, mode);
@@ -308,7 +308,7 @@ static Value mkdirAllNative(DictuVM *vm, int argCount, Value *args) {
                 ERROR_RESULT;
             }
 
-            *p = '/';
+            *p = DIR_SEPARATOR;
         }
     }
 
-- 
2.43.0

