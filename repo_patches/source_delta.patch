From 53a0caa3bbfb25aeb26499b43984c59c65ead6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 01/74] fix: drop the handler from the operand stack before a
 try saves it

The stack height a handler returns to still included the handler itself, so
whatever was computed around a (try ...) that caught something used the handler
as one of its operands: (list 1 2 3 (try (fn (e) 2) (throw 1)) 3) returned
(2 3 1 2 3).
---
 lib/vm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index e41f59e..3183c3a 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -604,14 +604,15 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopClosurePop)
 		c = ctx.closureStack[--ctx.csp];
 		vmbreak;
-	vmcase(lopTry)
+	vmcase(lopTry) {
+		const lVal handler = ctx.valueStack[ctx.sp--];
 		lStoreInClosure(lBytecodeGetOffset16(ip)-1);
 
 		c = lClosureNew(c, closureTry);
-		c->exceptionHandler = ctx.valueStack[ctx.sp--];
+		c->exceptionHandler = handler;
 		ctx.closureStack[++ctx.csp] = c;
 		ip+=2;
-		vmbreak;
+		vmbreak; }
 	vmcase(lopThrow) {
 		lVal v = ctx.valueStack[ctx.sp];
 		if(likely(v.type == ltPair)){
-- 
2.43.0


From 3b8b6e8c06f07e067f0b22dfe320e80e0effa943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 02/74] fix: adding, subtracting and multiplying floats never
 yields NaN or infinity

The bytecode operations stored whatever the hardware returned (or the exception
value itself) on the operand stack, only division and the native functions
reported :float-inf and :float-nan.
---
 lib/vm.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 3183c3a..12b7986 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -108,6 +108,15 @@ static inline lClosure *funCallClosure(lVal lambda) {
 	goto throwException;\
 } while(0)
 
+/* Replace the top of the stack with a float, or throw if it isn't finite */
+#define lSetTopFloat(v) do {\
+	const lVal floatVal = lValFloat(v);\
+	if(unlikely(floatVal.type == ltException)){\
+		lThrow(floatVal);\
+	}\
+	ctx.valueStack[ctx.sp] = floatVal;\
+} while(0)
+
 /* Evaluate ops within callingClosure after pushing args on the stack.
  *
  * Doesn't look particularly elegant at times, but gets turned into pretty
@@ -218,15 +227,15 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt += b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(b.vFloat + a.vInt);
+				lSetTopFloat(b.vFloat + a.vInt);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat += b.vFloat;
+				lSetTopFloat(a.vFloat + b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat += b.vInt;
+				lSetTopFloat(a.vFloat + b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			}
@@ -244,7 +253,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt -= b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt - b.vFloat);
+				lSetTopFloat(a.vInt - b.vFloat);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -252,9 +261,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vFloat;
+				lSetTopFloat(a.vFloat - b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vInt;
+				lSetTopFloat(a.vFloat - b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -274,7 +283,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt *= b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt * b.vFloat);
+				lSetTopFloat(a.vInt * b.vFloat);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -282,9 +291,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vFloat;
+				lSetTopFloat(a.vFloat * b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vInt;
+				lSetTopFloat(a.vFloat * b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
-- 
2.43.0


From 6d38b3217e479c2abde897b4767491019015615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 03/74] fix: divide integers with double precision

The bytecode operation rounded its operands to single precision first, so
(/ 16777217 1) depended on whether it was folded at compile time.
---
 lib/vm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 12b7986..5992ad0 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -311,13 +311,13 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.sp--;
 		if(likely(a.type == ltInt)){
 			if(likely(b.type == ltInt)){
-				lVal r = lValFloat((float)a.vInt / (float)b.vInt);
+				lVal r = lValFloat((double)a.vInt / (double)b.vInt);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
 				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltFloat)){
-				lVal r = lValFloat((float)a.vInt / b.vFloat);
+				lVal r = lValFloat((double)a.vInt / b.vFloat);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
@@ -335,7 +335,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 				}
 				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltInt)){
-				const lVal r = lValFloat(a.vFloat / (float)b.vInt);
+				const lVal r = lValFloat(a.vFloat / (double)b.vInt);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
-- 
2.43.0


From d7a6113f045b9d6ba143157a0b33456324d79b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 04/74] fix: integer division and remainder never raise SIGFPE

(rem x 0) killed the process as soon as it was compiled to an operation instead
of being folded, and so did dividing the smallest integer by -1.
---
 lib/arithmetic.c    |  6 +++---
 lib/nujel-private.h | 12 ++++++++++++
 lib/vm.c            |  5 ++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 440eddf..7976d0c 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -128,7 +128,7 @@ static lVal lnfRem(lVal a, lVal b){
 			if(b.vInt == 0){
 				return lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL);
 			}
-			return lValInt(a.vInt % b.vInt);
+			return lValInt(lIntRemainder(a.vInt, b.vInt));
 		case ltFloat: {
 			lVal av = requireFloat(a);
 			if(unlikely(av.type == ltException)){
@@ -191,14 +191,14 @@ static lVal lnfDivAstI(lVal a, lVal b){
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt / b.vInt);
+	return lValInt(lIntDivide(a.vInt, b.vInt));
 }
 
 static lVal lnfModAstI(lVal a, lVal b){
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt % b.vInt);
+	return lValInt(lIntRemainder(a.vInt, b.vInt));
 }
 
 static lVal lnfLogAnd(lVal a, lVal b){
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 543fe61..4375221 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -193,6 +193,18 @@ bool      lValEqual        (const lVal a, const lVal b);
 i64       lValGreater      (const lVal a, const lVal b);
 lVal      lValStringError  (const char *bufStart, const char *bufEnd, const char *errStart, const char *err, const char *errEnd);
 
+/*\
+ |  Integer arithmetic that is defined for every pair of operands (apart from
+ |  a divisor of zero, which has to be checked for before)
+\*/
+static inline i64 lIntDivide(i64 a, i64 b){
+	return (b == -1) ? (i64)(0 - (u64)a) : a / b;
+}
+
+static inline i64 lIntRemainder(i64 a, i64 b){
+	return (b == -1) ? 0 : a % b;
+}
+
 /*\
  |  Bytecode related definitions
 \*/
diff --git a/lib/vm.c b/lib/vm.c
index 5992ad0..38b84a3 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -357,7 +357,10 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.sp--;
 		if(likely(a.type == ltInt)){
 			if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vInt = a.vInt % b.vInt;
+				if(unlikely(b.vInt == 0)){
+					lThrow(lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL));
+				}
+				ctx.valueStack[ctx.sp].vInt = lIntRemainder(a.vInt, b.vInt);
 			} else if(likely(b.type == ltFloat)){
 				const lVal r = lValFloat(fmod(a.vInt, b.vFloat));
 				if(unlikely(r.type == ltException)){
-- 
2.43.0


From 65090183fa436a2344966593e7f22010e762c38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 05/74] fix: the integer operations reject operands that aren't
 integers

(sub/int 1.5 1), (mul/int :a 2) and friends calculated with the bit patterns or
addresses of their operands.
---
 lib/arithmetic.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 7976d0c..b501184 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -169,25 +169,31 @@ static lVal lnfPow(lVal a, lVal b){
 }
 
 static lVal lnfIncAstI(lVal a){
-	if(unlikely(a.type == ltNil)){
-		return lValExceptionNonNumeric(a);
-	}
+	reqInt(a);
 	return lValInt(a.vInt + 1);
 }
 
 static lVal lnfAddAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt + b.vInt);
 }
 
 static lVal lnfSubAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt - b.vInt);
 }
 
 static lVal lnfMulAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt * b.vInt);
 }
 
 static lVal lnfDivAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
@@ -195,6 +201,8 @@ static lVal lnfDivAstI(lVal a, lVal b){
 }
 
 static lVal lnfModAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-- 
2.43.0


From f3e89e3b5b55ca24c2330a7510ae01bde4962c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 06/74] fix: inc/int as an operation rejects operands that
 aren't integers

Just like the function of the same name, instead of silently returning them.
---
 lib/vm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vm.c b/lib/vm.c
index 38b84a3..2b5ddf0 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -588,6 +588,8 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopIncInt)
 		if(likely(ctx.valueStack[ctx.sp].type == ltInt)){
 			ctx.valueStack[ctx.sp].vInt++;
+		} else {
+			lThrow(lValExceptionNonNumeric(ctx.valueStack[ctx.sp]));
 		}
 		vmbreak;
 	vmcase(lopCar)
-- 
2.43.0


From b434d51e3ace5f7b74db047847b48a20f61f6f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 07/74] fix: shifting gives the same result compiled as an
 operation or called as a function

Right shifts of negative numbers differed between the two, and amounts outside
of 0 to 63 were undefined behavior.
---
 lib/arithmetic.c    |  8 ++------
 lib/nujel-private.h |  9 +++++++++
 lib/vm.c            | 15 +++++++++++++--
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index b501184..baf200b 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -244,17 +244,13 @@ static lVal lnfPopCount(lVal a){
 static lVal lnfAsh(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv << sv) : (iv >> -sv));
+	return lValInt(lIntShiftLeft(a.vInt, b.vInt));
 }
 
 static lVal lnfBitShiftRight(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv >> sv) : (iv << -sv));
+	return lValInt(lIntShiftRight(a.vInt, b.vInt));
 }
 
 static lVal lnfAbs(lVal t){
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 4375221..05fbc35 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -205,6 +205,15 @@ static inline i64 lIntRemainder(i64 a, i64 b){
 	return (b == -1) ? 0 : a % b;
 }
 
+/* Shifts treat a as 64 separate bits, moving by more than that leaves nothing */
+static inline i64 lIntShiftLeft(i64 a, i64 b){
+	return ((b < 0) || (b > 63)) ? 0 : (i64)((u64)a << b);
+}
+
+static inline i64 lIntShiftRight(i64 a, i64 b){
+	return ((b < 0) || (b > 63)) ? 0 : (i64)((u64)a >> b);
+}
+
 /*\
  |  Bytecode related definitions
 \*/
diff --git a/lib/vm.c b/lib/vm.c
index 2b5ddf0..452ca3e 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -402,11 +402,22 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	}\
 	} while(0)
 
+#define vmIntegerShift(FUN) do{\
+	const lVal a = ctx.valueStack[ctx.sp-1];\
+	const lVal b = ctx.valueStack[ctx.sp];\
+	ctx.sp--;\
+	if(likely((a.type == ltInt) && (b.type == ltInt))){\
+		ctx.valueStack[ctx.sp].vInt = FUN(a.vInt, b.vInt);\
+	} else {\
+		lThrow(lValExceptionNonNumeric(b));\
+	}\
+	} while(0)
+
 	vmcase(lopBitShiftLeft)
-		vmBinaryIntegerOp(<<);
+		vmIntegerShift(lIntShiftLeft);
 		vmbreak;
 	vmcase(lopBitShiftRight)
-		vmBinaryIntegerOp(>>);
+		vmIntegerShift(lIntShiftRight);
 		vmbreak;
 	vmcase(lopBitAnd)
 		vmBinaryIntegerOp(&);
-- 
2.43.0


From bcadae2c88b5a19ef998adad69cc7a01a8d97ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 08/74] fix: comparisons agree with the order of the values
 compared

Equal floats were greater than each other, differences of integers overflowed,
a string was smaller than its own prefix and integers were rounded to single
precision when compared with a float.
---
 lib/val.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/lib/val.c b/lib/val.c
index b0d27ee..bb983cf 100644
--- a/lib/val.c
+++ b/lib/val.c
@@ -19,7 +19,7 @@ static inline i64 lStringGreater(const lBuffer *a, const lBuffer *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
 }
 
 static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
@@ -35,7 +35,23 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
+}
+
+/* Compare an int with a float without rounding either of them */
+static i64 lIntFloatGreater(i64 a, double b) {
+	if(b >= 9223372036854775808.0){
+		return -1;
+	}
+	if(b < -9223372036854775808.0){
+		return 1;
+	}
+	const i64 bi = (i64)b;
+	if(a != bi){
+		return a < bi ? -1 : 1;
+	}
+	const double fraction = b - (double)bi;
+	return fraction > 0.0 ? -1 : fraction < 0.0 ? 1 : 0;
 }
 
 /* Checks if A is greater than B, returns 0 if the two values can't be compared
@@ -44,17 +60,9 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 i64 lValGreater(const lVal a, const lVal b){
 	if(unlikely(a.type != b.type)){
 		if((a.type == ltInt) && (b.type == ltFloat)){
-			return (((float)a.vInt) < b.vFloat)
-				? -1
-				: (((float)a.vInt) > b.vFloat)
-				  ? 1
-				  : 0;
+			return lIntFloatGreater(a.vInt, b.vFloat);
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return (a.vFloat < ((float)b.vInt))
-				? -1
-				: (a.vFloat > ((float)b.vInt))
-				  ? 1
-				  : 0;
+			return -lIntFloatGreater(b.vInt, a.vFloat);
 		}
 		return 0;
 	}
@@ -62,9 +70,9 @@ i64 lValGreater(const lVal a, const lVal b){
 	default:
 		return 0;
 	case ltInt:
-		return a.vInt - b.vInt;
+		return a.vInt < b.vInt ? -1 : a.vInt > b.vInt ? 1 : 0;
 	case ltFloat:
-		return a.vFloat < b.vFloat ? -1 : 1;
+		return a.vFloat < b.vFloat ? -1 : a.vFloat > b.vFloat ? 1 : 0;
 	case ltKeyword:
 	case ltSymbol:
 		return lSymbolGreater(a.vSymbol, b.vSymbol);
@@ -77,9 +85,9 @@ i64 lValGreater(const lVal a, const lVal b){
 bool lValEqual(const lVal a, const lVal b) {
 	if (unlikely(a.type != b.type)) {
 		if ((a.type == ltInt) && (b.type == ltFloat)) {
-			return ((float)a.vInt) == b.vFloat;
+			return lIntFloatGreater(a.vInt, b.vFloat) == 0;
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return a.vFloat == ((float)b.vInt);
+			return lIntFloatGreater(b.vInt, a.vFloat) == 0;
 		}
 		return false;
 	}
-- 
2.43.0


From e8c3cd9c4d405fac4c041a2aef3459a4c3dbc3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 09/74] fix: arrays keep the #nil values they are created with

Only the elements in front of the first #nil were counted when allocating an
array, yet all of them were written, behind the end of the allocation.  So that
[] stays different from [#nil] it now reads as a call without arguments.
---
 lib/array.c  |  2 +-
 lib/reader.c | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/array.c b/lib/array.c
index 68bd2c2..d9985ce 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -29,7 +29,7 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 /* Return the length of the list V */
 static int lListLength(lVal v){
 	int i = 0;
-	for(lVal n = v;(n.type == ltPair) && (n.vList->car.type != ltNil); n = n.vList->cdr){
+	for(lVal n = v; n.type == ltPair; n = n.vList->cdr){
 		i++;
 	}
 	return i;
diff --git a/lib/reader.c b/lib/reader.c
index c3abef4..de6d355 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -28,6 +28,7 @@ static inline lVal lValComment(){
 }
 
 static lVal lReadValue(lReadContext *s);
+static lVal lReadElements(lReadContext *s, bool rootForm, char terminator);
 static lVal lReadList(lReadContext *s, bool rootForm, char terminator);
 
 static lVal lValExceptionReaderCustom(lReadContext *s, const char *msg, const lSymbol *customError){
@@ -398,7 +399,7 @@ static lVal lParseSpecial(lReadContext *s){
 	case 'f': return lValBool(false);
 	case '#':
 		s->data++;
-		return lnfArrNew(lReadList(s, false, ')'));
+		return lnfArrNew(lReadElements(s, false, ')'));
 	case '@':{
 		s->data++;
 		lVal ret = lnfTreeNew(lReadList(s,false,')'));
@@ -409,7 +410,8 @@ static lVal lParseSpecial(lReadContext *s){
 	}}
 }
 
-static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
+/* Read values until terminator, returns #nil if there aren't any */
+static lVal lReadElements(lReadContext *s, bool rootForm, char terminator){
 	lVal v = NIL, ret = NIL;
 	while(1){
 		lStringAdvanceToNextCharacter(s);
@@ -420,7 +422,7 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 				return lValExceptionReaderCustom(s, "Unmatched opening bracket", lSymUnmatchedOpeningBracket);
 			}
 			s->data++;
-			return ret.type == ltNil ? lCons(NIL,NIL) : ret;
+			return ret;
 		}else if(c == ';'){
 			lStringAdvanceToNextLine(s);
 			continue;
@@ -429,7 +431,7 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 				return lValExceptionReader(s, "Unmatched closing bracket");
 			}
 			s->data++;
-			return ret.type == ltNil ? lCons(NIL, NIL) : ret;
+			return ret;
 		}else if(unlikely(isClosingChar(c))){
 			return lValExceptionReader(s, "Unmatched closing char");
 		}else{
@@ -469,6 +471,12 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 	}
 }
 
+/* Read a list, the empty list is represented by a pair of #nil */
+static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
+	lVal ret = lReadElements(s, rootForm, terminator);
+	return ret.type == ltNil ? lCons(NIL, NIL) : ret;
+}
+
 static lVal lReadQuote(lReadContext *s, lSymbol *carSym){
 	return lCons(lValSymS(carSym), lCons(lReadValue(s), NIL));
 }
@@ -487,7 +495,7 @@ static lVal lReadValue(lReadContext *s){
 		return lReadList(s,false,')');
 	case '[':
 		s->data++;
-		return lCons(lValSymS(symArr), lReadList(s,false, ']'));
+		return lCons(lValSymS(symArr), lReadElements(s,false, ']'));
 	case '{':
 		s->data++;
 		return lCons(lValSymS(symTreeNew), lReadList(s,false,'}'));
-- 
2.43.0


From 6cf02735b8d17124e9081759ae37ff9e3fab1a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 10/74] fix: read errors inside of literals are reported
 instead of being embedded or swallowed

---
 lib/reader.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index de6d355..55585d6 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -375,6 +375,7 @@ static lVal lParseBuffer(lReadContext *s){
 }
 
 static lVal lParseSpecial(lReadContext *s){
+	lVal ret;
 	if(s->data >= s->bufEnd){return NIL;}
 	switch(*s->data++){
 	default:
@@ -399,15 +400,23 @@ static lVal lParseSpecial(lReadContext *s){
 	case 'f': return lValBool(false);
 	case '#':
 		s->data++;
-		return lnfArrNew(lReadElements(s, false, ')'));
-	case '@':{
+		ret = lReadElements(s, false, ')');
+		return unlikely(ret.type == ltException) ? ret : lnfArrNew(ret);
+	case '@':
 		s->data++;
-		lVal ret = lnfTreeNew(lReadList(s,false,')'));
+		ret = lReadElements(s, false, ')');
+		if(unlikely(ret.type == ltException)){
+			return ret;
+		}
+		ret = lnfTreeNew(ret);
+		if(unlikely(ret.type == ltException)){
+			return ret;
+		}
 		if(ret.vTree->root){
 			ret.vTree->root->flags |= TREE_IMMUTABLE;
 		}
 		return ret;
-	}}
+	}
 }
 
 /* Read values until terminator, returns #nil if there aren't any */
@@ -478,7 +487,12 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 }
 
 static lVal lReadQuote(lReadContext *s, lSymbol *carSym){
-	return lCons(lValSymS(carSym), lCons(lReadValue(s), NIL));
+	const lVal v = lReadValue(s);
+	return unlikely(v.type == ltException) ? v : lCons(lValSymS(carSym), lCons(v, NIL));
+}
+
+static lVal lReadConstructor(lSymbol *carSym, lVal args){
+	return unlikely(args.type == ltException) ? args : lCons(lValSymS(carSym), args);
 }
 
 static lVal lReadValue(lReadContext *s){
@@ -495,10 +509,10 @@ static lVal lReadValue(lReadContext *s){
 		return lReadList(s,false,')');
 	case '[':
 		s->data++;
-		return lCons(lValSymS(symArr), lReadElements(s,false, ']'));
+		return lReadConstructor(symArr, lReadElements(s,false, ']'));
 	case '{':
 		s->data++;
-		return lCons(lValSymS(symTreeNew), lReadList(s,false,'}'));
+		return lReadConstructor(symTreeNew, lReadList(s,false,'}'));
 	case '~':
 		s->data++;
 		if(*s->data == '@'){
@@ -523,11 +537,11 @@ static lVal lReadValue(lReadContext *s){
 			++s->data;
 			if((s->data < s->bufEnd) && (*s->data == '(')){
 				s->data++;
-				lReadList(s,false,')');
-				return lValComment();
+				const lVal v = lReadList(s,false,')');
+				return unlikely(v.type == ltException) ? v : lValComment();
 			}else{
-				lReadValue(s);
-				return lValComment();
+				const lVal v = lReadValue(s);
+				return unlikely(v.type == ltException) ? v : lValComment();
 			}
 		}
 		return lParseSpecial(s);
-- 
2.43.0


From f908d2c130e04635a91c0db1a18210409dfb9f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 11/74] fix: indices beyond 32 bits are out of bounds instead
 of being truncated

---
 lib/generic.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/generic.c b/lib/generic.c
index 83ece98..316bb2b 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -45,22 +45,22 @@ lVal lGenericRef(lVal col, lVal key){
 	switch(col.type){
 	case ltPair:
 		reqNaturalInt(key);
-		for(int i=0;i<key.vInt;i++){
+		for(i64 i=0;(i<key.vInt) && (col.type == ltPair);i++){
 			col = lCdr(col);
 		}
 		return lCar(col);
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		return lValInt(arr->data[i]); }
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
@@ -163,8 +163,8 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		if(unlikely((v.type != ltInt))){
@@ -175,7 +175,7 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
-- 
2.43.0


From a2c51c5cc8dca2e29e2e9d0400084b0403b53697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 12/74] fix: array lengths of zero and beyond the available
 memory are handled

---
 lib/allocator.c | 17 +++++++++++++----
 lib/array.c     | 11 ++++++-----
 lib/nujel.h     |  1 +
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/lib/allocator.c b/lib/allocator.c
index 521ecad..825760a 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -89,14 +89,23 @@ lBytecodeArray *lBytecodeArrayAlloc(size_t len){
 	return ret;
 }
 
-lArray *lArrayAlloc(size_t len){
+/* Allocate a new array with room for LEN values, returns NULL if there isn't
+ * enough memory available */
+lArray *lArrayTryAlloc(size_t len){
+	lVal *data = calloc(len + 1, sizeof(lVal));
+	if(unlikely(data == NULL)){return NULL;}
 	lArray *ret = lArrayAllocRaw();
-	ret->data = calloc(len + 1, sizeof(lVal));
-	if(unlikely(ret->data == NULL)){
+	ret->data = data;
+	ret->length = len;
+	return ret;
+}
+
+lArray *lArrayAlloc(size_t len){
+	lArray *ret = lArrayTryAlloc(len);
+	if(unlikely(ret == NULL)){
 		fprintf(stderr, "OOM: Couldn't allocate a new array");
 		exit(135);
 	}
-	ret->length = len;
 	return ret;
 }
 
diff --git a/lib/array.c b/lib/array.c
index d9985ce..f8d11b6 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -4,6 +4,8 @@
 #include "nujel-private.h"
 #endif
 
+#include <limits.h>
+
 static lVal lnmArrayLength(lVal self){
 	return lValInt(self.vArray->length);
 }
@@ -13,9 +15,8 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	const size_t length = newLength.vInt;
 	lArray *arr = self.vArray;
 
-	lVal *newData = realloc(arr->data,length * sizeof(lVal));
+	lVal *newData = newLength.vInt >= INT_MAX ? NULL : realloc(arr->data,(length + 1) * sizeof(lVal));
 	if (unlikely(newData == NULL)) {
-		free(newData);
 		return lValException(lSymOOM, "(:length Array) couldn't allocate its array", self);
 	}
 	arr->data = newData;
@@ -66,11 +67,11 @@ static lVal lnmArrayToBytecodeArray(lVal self, lVal aLiterals){
 static lVal lnmArrayAllocate(lVal self, lVal size){
 	(void)self;
 	reqNaturalInt(size);
-	lVal r = lValAlloc(ltArray, lArrayAlloc(size.vInt));
-	if(unlikely(size.vInt && (r.vArray->data == NULL))){
+	lArray *arr = size.vInt >= INT_MAX ? NULL : lArrayTryAlloc(size.vInt);
+	if(unlikely(arr == NULL)){
 		return lValException(lSymOOM, "(:alloc Array) couldn't allocate its array", size);
 	}
-	return r;
+	return lValAlloc(ltArray, arr);
 }
 
 static lVal lnmArrayHas(lVal self, lVal index){
diff --git a/lib/nujel.h b/lib/nujel.h
index 90a6309..9726524 100644
--- a/lib/nujel.h
+++ b/lib/nujel.h
@@ -387,6 +387,7 @@ lVal     lValStringNoCopy (const char *s, int len);
 /*
  | Allocator related procedures
  */
+lArray  *lArrayTryAlloc(size_t len);
 lArray  *lArrayAlloc  (size_t len);
 lBuffer *lBufferAlloc (size_t length, bool immutable);
 lString *lStringNew   (const char *str, uint len);
-- 
2.43.0


From aeb6c1f9b41192684036f61e85713aab0359c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 13/74] fix: immutable buffers and buffer views can't be
 written to

---
 lib/buffer.c  | 2 +-
 lib/generic.c | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index 2afba45..60d475e 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -19,11 +19,11 @@ size_t lBufferLength(const lBuffer *v){
 
 const void *lBufferViewData(lBufferView *v){
 	if(unlikely(v == NULL)){return NULL;}
-	if(unlikely(v->buf->flags & BUFFER_IMMUTABLE)){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
 void *lBufferViewDataMutable(lBufferView *v){
+	if(unlikely((v->flags & BUFFER_VIEW_IMMUTABLE) || (v->buf->flags & BUFFER_IMMUTABLE))){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
diff --git a/lib/generic.c b/lib/generic.c
index 316bb2b..0326ac3 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -98,12 +98,12 @@ lVal lGenericRef(lVal col, lVal key){
 
 
 static lVal lBufferViewSet(lVal car, size_t i, lVal v){
-	const void *buf = car.vBufferView->buf->buf;
+	void *buf = lBufferViewDataMutable(car.vBufferView);
 	const size_t length = car.vBufferView->length;
 	const lBufferViewType viewType = car.vBufferView->type;
 
 	if(unlikely(buf == NULL)){
-		return lValException(lSymTypeError, "Can't ref that", car);
+		return lValException(lSymTypeError, "Can only set! mutable buffer views", car);
 	}
 	if(unlikely(i >= length)){
 		return lValException(lSymOutOfBounds, "ref - index provided is out of bounds", car);
@@ -182,6 +182,7 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 		arr->data[i] = v;
 		return col; }
 	case ltBuffer: {
+		reqMutableBuffer(col);
 		char *buf  = col.vBuffer->buf;
 		const size_t len = col.vBuffer->length;
 		reqNaturalInt(key);
-- 
2.43.0


From 166155da5df5e1584052985c46c1b2f45a144e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 14/74] fix: buffer operations check their offsets and lengths

---
 lib/buffer.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index 60d475e..cbf88c4 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -4,6 +4,8 @@
 #include "nujel-private.h"
 #endif
 
+#include <limits.h>
+
 const void *lBufferData (lBuffer *v){
 	return v == NULL ? NULL : v->buf;
 }
@@ -33,7 +35,10 @@ size_t lBufferViewLength(const lBufferView *v){
 
 static lVal lnfBufferAllocate(lVal a) {
 	reqNaturalInt(a);
-	lBuffer *buf = lBufferAlloc(a.vInt, false);
+	lBuffer *buf = a.vInt > INT_MAX ? NULL : lBufferAlloc(a.vInt, false);
+	if(unlikely((buf == NULL) || (buf->buf == NULL))){
+		return lValException(lSymOOM, "(buffer/allocate) couldn't allocate a buffer", a);
+	}
 	return lValAlloc(ltBuffer, buf);
 }
 
@@ -53,9 +58,9 @@ static lVal bufferFromPointer(bool immutable, const void *data, size_t length){
 static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength){
 	reqMutableBuffer(aDest);
 	reqNaturalInt(aDestOffset);
-	const int destOffset = aDestOffset.vInt;
+	const i64 destOffset = aDestOffset.vInt;
 	const void *buf = NULL;
-	int length = 0;
+	i64 length = 0;
 
 	switch(vSrc.type){
 	case ltString:
@@ -68,10 +73,10 @@ static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength)
 	if(unlikely((buf == NULL) || (length < 0))){
 		return lValException(lSymTypeError, "Can't copy from that", vSrc);
 	}
-	if(unlikely(((length + destOffset) > aDest.vBuffer->length) || (length > vSrc.vBuffer->length))){
+	if(unlikely((destOffset > aDest.vBuffer->length) || (length > (aDest.vBuffer->length - destOffset)) || (length > vSrc.vBuffer->length))){
 		return lValException(lSymOutOfBounds, "Can't fit everything in that buffer", vSrc);
 	}
-	memcpy(&((u8*)aDest.vBuffer->buf)[destOffset], buf, length);
+	memmove(&((u8*)aDest.vBuffer->buf)[destOffset], buf, length);
 	return aDest;
 }
 
@@ -85,6 +90,9 @@ static lVal lnfBufferToString(lVal a, lVal aLength, lVal aOffset){
 	if(unlikely(length < 0)){
 		return lValException(lSymTypeError, "Length has to be greater than 0", aLength);
 	}
+	if(unlikely(offset < 0)){
+		return lValException(lSymOutOfBounds, "Offset has to be greater than 0", aOffset);
+	}
 
 	return lValStringLen(a.vBuffer->buf + offset, length - offset);
 }
@@ -133,11 +141,14 @@ static lVal lnmBufferLengthSet(lVal self, lVal newLength){
 	lBuffer *buf = self.vBuffer;
 
 	reqNaturalInt(newLength);
-	const int length = newLength.vInt;
+	const i64 length = newLength.vInt;
 	if(length < buf->length){
 		return lValException(lSymOutOfBounds, "Buffers can only grow, not shrink.", self);
 	}
-	void *nBuf = realloc(buf->buf, length);
+	if(length == buf->length){
+		return self;
+	}
+	void *nBuf = length > INT_MAX ? NULL : realloc(buf->buf, length);
 	if (unlikely(nBuf == NULL)) {
 		return lValException(lSymOOM, "(buffer/length!) couldn't allocate its buffer", self);
 	}
-- 
2.43.0


From d099fb8cd8eb992dac30d31518e87c8dc8224b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 15/74] fix: cutting and searching strings respects their
 bounds

---
 lib/buffer.c |  3 ++-
 lib/string.c | 25 +++++++++++--------------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index cbf88c4..a43e0f3 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -176,7 +176,8 @@ static lVal lnmBufferCut(lVal self, lVal start, lVal stop){
 	slen = len = lBufferLength(self.vBuffer);
 	reqInt(start);
 	i64 off = MAX(0, start.vInt);
-	len = MIN(slen - off, (((stop.type == ltInt)) ? stop.vInt : len) - off);
+	len = MIN(slen, ((stop.type == ltInt) ? MAX(0, stop.vInt) : slen));
+	len = off < len ? len - off : 0;
 
 	if(unlikely(len <= 0)){
 		return lnfBufferAllocate(lValInt(0));
diff --git a/lib/string.c b/lib/string.c
index 6c5036c..715cbf9 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -80,7 +80,8 @@ static lVal lnmStringCut(lVal self, lVal start, lVal stop){
 	slen = len = lBufferLength(self.vString);
 	reqInt(start);
 	i64 off = MAX(0, start.vInt);
-	len = MIN(slen - off, (((stop.type == ltInt)) ? stop.vInt : len) - off);
+	len = MIN(slen, ((stop.type == ltInt) ? MAX(0, stop.vInt) : slen));
+	len = off < len ? len - off : 0;
 
 	if(unlikely(len <= 0)){return lValString("");}
 	return lValStringLen(&buf[off], len);
@@ -96,16 +97,12 @@ static lVal lnmStringIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, 0);
+	const i64 pos = MAX(0, castToInt(start, 0));
 	if(pos > haystackLength-needleLength){return lValInt(-3);}
-	/* Empty strings just return the current position, this is so we can
-	 * split an empty string into each character by passing an empty string
-	 */
-	if(needleLength <= 0){return lValInt(pos);}
-
-	for(const char *s = &haystack[pos]; *s != 0; s++){
-		if(strncmp(s,needle,needleLength)){continue;}
-		return lValInt(s-haystack);
+
+	for(i64 i = pos; i <= haystackLength - needleLength; i++){
+		if(memcmp(&haystack[i],needle,needleLength)){continue;}
+		return lValInt(i);
 	}
 	return lValInt(-1);
 }
@@ -120,11 +117,11 @@ static lVal lnmStringLastIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, haystackLength - needleLength);
+	const i64 pos = MIN(castToInt(start, haystackLength), haystackLength - needleLength);
 
-	for(const char *s = &haystack[pos]; s >= haystack; s--){
-		if(strncmp(s,needle,needleLength)){continue;}
-		return lValInt(s-haystack);
+	for(i64 i = pos; i >= 0; i--){
+		if(memcmp(&haystack[i],needle,needleLength)){continue;}
+		return lValInt(i);
 	}
 	return lValInt(-1);
 }
-- 
2.43.0


From c4722fb0a0f1b86204b22c785ac9ee8f161e1147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 16/74] fix: converting floats to strings and integers stays
 within bounds

---
 lib/core-operators.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index e9d0805..bdb3e13 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -72,6 +72,9 @@ static lVal lnfInt(lVal v){
 	if(likely(v.type == ltInt)){
 		return v;
 	} else if(likely(v.type == ltFloat)){
+		if(unlikely(!((v.vFloat >= -9223372036854775808.0) && (v.vFloat < 9223372036854775808.0)))){
+			return lValException(lSymOutOfBounds, "Float doesn't fit into an integer", v);
+		}
 		return lValInt(v.vFloat);
 	} else {
 		return lValExceptionType(v, ltInt);
@@ -141,9 +144,9 @@ static lVal lnfIntToString(lVal a){
 }
 
 static lVal lnfFloatToString(lVal a){
-	char buf[32];
+	char buf[512]; // The biggest double needs 317 characters
 	int snret = snprintf(buf,sizeof(buf),"%f", a.vFloat);
-	if(snret < 0){
+	if((snret < 0) || (snret >= (int)sizeof(buf))){
 		return lValException(lSymIOError, "Unprintable flonum", a);
 	}
 	buf[snret--] = 0;
-- 
2.43.0


From 2a4844809c47b180ccf8b9128597fe13bea5e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 17/74] fix: integer powers are exact

---
 lib/arithmetic.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index baf200b..a91b15c 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -142,6 +142,23 @@ static lVal lnfRem(lVal a, lVal b){
 	}
 }
 
+/* Raise BASE to the power of EXP, just like every other integer operation the
+ * result is truncated to 64 bits. */
+static lVal lIntPow(i64 base, i64 exp){
+	if(unlikely(exp < 0)){
+		if(unlikely(base == 0)){
+			return lValException(lSymDivisionByZero, "Can't raise 0 to a negative power", lValInt(exp));
+		}
+		return lValInt(base == 1 ? 1 : base != -1 ? 0 : (exp & 1) ? -1 : 1);
+	}
+	u64 ret = 1;
+	for(u64 b = base; exp > 0; exp >>= 1){
+		if(exp & 1){ret *= b;}
+		b *= b;
+	}
+	return lValInt(ret);
+}
+
 static lVal lnfPow(lVal a, lVal b){
 	if(unlikely(b.type == ltNil)){return a;}
 	if(unlikely(a.type == ltNil)){
@@ -154,7 +171,7 @@ static lVal lnfPow(lVal a, lVal b){
 	case ltInt:
 		reqInt(a);
 		reqInt(b);
-		return lValInt(pow(a.vInt, b.vInt));
+		return lIntPow(a.vInt, b.vInt);
 	case ltFloat: {
 		lVal av = requireFloat(a);
 		if(unlikely(av.type == ltException)){
-- 
2.43.0


From 47c86711d14e46acb5577bc10de87aa48de0c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 18/74] fix: nested and unterminated block comments end where
 they should

---
 lib/reader.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 55585d6..edf8b57 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -76,15 +76,18 @@ static void lStringAdvanceToNextLine(lReadContext *s){
 
 static void lStringAdvanceUntilEndOfBlockComment(lReadContext *s){
 	const char *end = s->bufEnd-1;
-	for(;(s->data < end);s->data++){
+	for(int depth = 1;s->data < end;){
 		if((s->data[0] == '#') && (s->data[1] == '|')){
 			s->data+=2;
-			lStringAdvanceUntilEndOfBlockComment(s);
+			depth++;
 		}else if((s->data[0] == '|') && (s->data[1] == '#')){
 			s->data+=2;
-			return;
+			if(--depth == 0){return;}
+		}else{
+			s->data++;
 		}
 	}
+	s->data = s->bufEnd;
 }
 
 /* Parse the string literal in s and return the resulting ltString lVal */
-- 
2.43.0


From 695cbf8855a586c3d533c991dbb908e4f08053f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 19/74] fix: a quote applies to the next value, skipping
 whitespace and comments

---
 lib/reader.c | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index edf8b57..eca094e 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -28,6 +28,7 @@ static inline lVal lValComment(){
 }
 
 static lVal lReadValue(lReadContext *s);
+static lVal lReadDatum(lReadContext *s);
 static lVal lReadElements(lReadContext *s, bool rootForm, char terminator);
 static lVal lReadList(lReadContext *s, bool rootForm, char terminator);
 
@@ -453,18 +454,11 @@ static lVal lReadElements(lReadContext *s, bool rootForm, char terminator){
 					return lValExceptionReader(s, "Missing car in dotted pair");
 				}
 				s->data++;
-				lVal nv;
-				do {
-					if(unlikely((s->data >= s->bufEnd) || (*s->data == 0) || (*s->data == ')'))){
-						return lValExceptionReader(s, "Missing cdr in dotted pair");
-					}
-					lStringAdvanceToNextCharacter(s);
-					nv = lReadValue(s);
-					if(unlikely(nv.type == ltException)){
-						return nv;
-					}
-				} while(isComment(nv));
-				v.vList->cdr = isComment(nv) ? NIL : nv;
+				const lVal nv = lReadDatum(s);
+				if(unlikely(nv.type == ltException)){
+					return nv;
+				}
+				v.vList->cdr = nv;
 				continue;
 			}else{
 				lVal nv = lReadValue(s);
@@ -489,8 +483,23 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 	return ret.type == ltNil ? lCons(NIL, NIL) : ret;
 }
 
+/* Read the next value, skipping whitespace and comments, it is an error if there is none */
+static lVal lReadDatum(lReadContext *s){
+	while(1){
+		lStringAdvanceToNextCharacter(s);
+		if(unlikely((s->data >= s->bufEnd) || (*s->data == 0) || isClosingChar(*s->data))){
+			return lValExceptionReader(s, "Expected a value");
+		}
+		if(unlikely((*s->data == '.') && (isspace((u8)s->data[1]) || isnonsymbol(s->data[1])))){
+			return lValExceptionReader(s, "Unexpected dot");
+		}
+		const lVal v = lReadValue(s);
+		if(!isComment(v)){return v;}
+	}
+}
+
 static lVal lReadQuote(lReadContext *s, lSymbol *carSym){
-	const lVal v = lReadValue(s);
+	const lVal v = lReadDatum(s);
 	return unlikely(v.type == ltException) ? v : lCons(lValSymS(carSym), lCons(v, NIL));
 }
 
@@ -543,14 +552,14 @@ static lVal lReadValue(lReadContext *s){
 				const lVal v = lReadList(s,false,')');
 				return unlikely(v.type == ltException) ? v : lValComment();
 			}else{
-				const lVal v = lReadValue(s);
+				const lVal v = lReadDatum(s);
 				return unlikely(v.type == ltException) ? v : lValComment();
 			}
 		}
 		return lParseSpecial(s);
 	case ';':
 		lStringAdvanceToNextLine(s);
-		return lReadValue(s);
+		return lValComment();
 	default:
 		if((isdigit((u8)c)) || ((c == '-') && isdigit(((u8 *)s->data)[1]))){
 			return lParseNumber(s, 10, 18);
-- 
2.43.0


From 2fccc5bc7f77ee57b4b63d414a232725af08863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 20/74] fix: malformed literals and dotted pairs are read
 errors

---
 lib/reader.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index eca094e..4f6ccab 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -297,7 +297,10 @@ static lVal lParseNumber(lReadContext *s, int base, int maxDigits){
 }
 
 static lVal lParseCharacter(lReadContext *s){
-	int ret = s->data[0];
+	if(unlikely(s->data >= s->bufEnd)){
+		return lValExceptionReader(s, "Unexpected end of character literal");
+	}
+	int ret = (u8)s->data[0];
 	if((s->data[0] == 'B') && (s->data[1] == 'a')){ret = '\b';}
 	else if((s->data[0] == 'T') && (s->data[1] == 'a')){ret = '\t';}
 	else if((s->data[0] == 'L') && (s->data[1] == 'i')){ret = '\n';}
@@ -380,7 +383,6 @@ static lVal lParseBuffer(lReadContext *s){
 
 static lVal lParseSpecial(lReadContext *s){
 	lVal ret;
-	if(s->data >= s->bufEnd){return NIL;}
 	switch(*s->data++){
 	default:
 		return lValExceptionReaderStartEnd(s, "Wrong char in special lit.");
@@ -403,10 +405,16 @@ static lVal lParseSpecial(lReadContext *s){
 	case 't': return lValBool(true);
 	case 'f': return lValBool(false);
 	case '#':
+		if(unlikely(*s->data != '(')){
+			return lValExceptionReader(s, "Expected an opening parenthesis");
+		}
 		s->data++;
 		ret = lReadElements(s, false, ')');
 		return unlikely(ret.type == ltException) ? ret : lnfArrNew(ret);
 	case '@':
+		if(unlikely(*s->data != '(')){
+			return lValExceptionReader(s, "Expected an opening parenthesis");
+		}
 		s->data++;
 		ret = lReadElements(s, false, ')');
 		if(unlikely(ret.type == ltException)){
@@ -426,6 +434,7 @@ static lVal lParseSpecial(lReadContext *s){
 /* Read values until terminator, returns #nil if there aren't any */
 static lVal lReadElements(lReadContext *s, bool rootForm, char terminator){
 	lVal v = NIL, ret = NIL;
+	bool dotted = false;
 	while(1){
 		lStringAdvanceToNextCharacter(s);
 
@@ -450,7 +459,7 @@ static lVal lReadElements(lReadContext *s, bool rootForm, char terminator){
 		}else{
 			const u8 next = s->data[1];
 			if((c == '.') && (isspace(next) || isnonsymbol(next))){
-				if(unlikely(v.type == ltNil)){
+				if(unlikely((v.type == ltNil) || dotted)){
 					return lValExceptionReader(s, "Missing car in dotted pair");
 				}
 				s->data++;
@@ -459,6 +468,7 @@ static lVal lReadElements(lReadContext *s, bool rootForm, char terminator){
 					return nv;
 				}
 				v.vList->cdr = nv;
+				dotted = true;
 				continue;
 			}else{
 				lVal nv = lReadValue(s);
@@ -466,6 +476,9 @@ static lVal lReadElements(lReadContext *s, bool rootForm, char terminator){
 				if(unlikely(nv.type == ltException)){
 					return nv;
 				}
+				if(unlikely(dotted)){
+					return lValExceptionReader(s, "There has to be exactly one value after the dot");
+				}
 				if(v.type == ltNil){
 					v = ret = lCons(nv, NIL);
 				}else{
@@ -544,7 +557,7 @@ static lVal lReadValue(lReadContext *s){
 	case '#':
 		s->data++;
 		if(s->data >= s->bufEnd){
-			return NIL;
+			return lValExceptionReader(s, "Unexpected end of special literal");
 		}else if(*s->data == ';'){
 			++s->data;
 			if((s->data < s->bufEnd) && (*s->data == '(')){
-- 
2.43.0


From 6dee08151808843fe1e1b7a4af0eddd788eb0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 21/74] fix: string literals of any length with escapes are
 read correctly

---
 lib/reader.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 4f6ccab..b129f7d 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -100,9 +100,9 @@ static lVal lParseString(lReadContext *s){
 		exit(20);
 	}
 	char *b = buf;
-	uint i=0;
 	while(s->data < s->bufEnd){
-		if(unlikely(++i >= bufSize)){
+		const uint i = b - buf;
+		if(unlikely(i + 1 >= bufSize)){
 			bufSize *= 2;
 			buf = realloc(buf,bufSize);
 			if(buf == NULL){
@@ -154,17 +154,13 @@ static lVal lParseString(lReadContext *s){
 			s->data++;
 			return lValAlloc(ltString, lStringNew(buf,b-buf));
 		}else if(unlikely(*s->data == 0)){
-			if (likely(i < bufSize)) {
-				buf[i] = 0;
-			}
+			*b = 0;
 			return lValException(lSymReadError, "Can't find closing \"", lValString(buf));
 		}else{
 			*b++ = *s->data++;
 		}
 	}
-	if (likely(i < bufSize)) {
-		buf[i] = 0;
-	}
+	*b = 0;
 	return lValException(lSymReadError, "Can't find closing \"", lValString(buf));
 }
 
-- 
2.43.0


From e7a806d3c4530424aeb7c290306ec7a8b686e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 22/74] fix: symbols that are too long or empty are errors
 instead of being truncated

---
 lib/core-operators.c |  7 +++++++
 lib/nujel-private.h  |  1 +
 lib/reader.c         | 10 ++++++++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index bdb3e13..18dee8b 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -108,7 +108,13 @@ static lVal lnfSymbolToKeyword(lVal v){
 	return lValKeywordS(v.vSymbol);
 }
 
+/* Only strings without a 0 that fit can be turned into a symbol */
+#define reqSymbolString(v) do { if(unlikely((v.vString->length > (int)lSymbolMaxLength) || memchr(v.vString->data, 0, v.vString->length))){\
+	return lValException(lSymOutOfBounds, "That string can't be turned into a symbol", v);\
+} } while(0)
+
 static lVal lnfStringToKeyword(lVal v){
+	reqSymbolString(v);
 	return lValKeyword(v.vString->data);
 }
 
@@ -117,6 +123,7 @@ static lVal lnfKeywordToSymbol(lVal a){
 }
 
 static lVal lnfStringToSymbol(lVal a){
+	reqSymbolString(a);
 	return lValSym(a.vString->data);
 }
 
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 05fbc35..e91546c 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -87,6 +87,7 @@ struct lSymbol {
 		struct lSymbol *nextFree;
 	};
 };
+#define lSymbolMaxLength (sizeof(((lSymbol *)NULL)->c) - 1)
 
 struct lBytecodeArray {
 	lBytecodeOp *data;
diff --git a/lib/reader.c b/lib/reader.c
index b129f7d..129e69a 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -178,7 +178,7 @@ static lVal lFinishSymbol(lReadContext *s, uint i, char buf[128], const char *st
 	if(buf[0] == ':'){
 		kwstart = &buf[1];
 	}
-	if(unlikely(*start == 0)){
+	if(unlikely(i == 0)){
 		return lValExceptionReaderEnd(s, kwstart, "Sym/KW too short");
 	}
 	lVal ret = keyword
@@ -199,7 +199,7 @@ static lVal lParseSymbol(lReadContext *s, lVal refVal){
 		return refVal;
 	}
 	const char *start = s->data;
-	for(i=0;i<(sizeof(buf)-1);i++){
+	for(i=0;;i++){
 		const char c = *s->data++;
 		if(c == ':'){
 			if(keyword){
@@ -216,12 +216,18 @@ static lVal lParseSymbol(lReadContext *s, lVal refVal){
 			}
 		}
 		if(c == '.'){
+			if(unlikely(i == 0)){
+				return lValExceptionReaderEnd(s, start, "Sym/KW too short");
+			}
 			return lParseSymbol(s, lFinishSymbol(s, i, buf, start, keyword, refVal));
 		}
 		if((c == 0) || isspace((u8)c) || isnonsymbol(c)){
 			s->data--;
 			break;
 		}
+		if(unlikely(i >= lSymbolMaxLength)){
+			return lValExceptionReaderEnd(s, start, "Symbol too long");
+		}
 		buf[i] = c;
 	}
 	return lFinishSymbol(s, i, buf, start, keyword, refVal);
-- 
2.43.0


From dc10e4d7c6efd98c10c23ebd3bf15be1209f8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 23/74] fix: floats are read correctly rounded

---
 lib/reader.c | 52 ++++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 129e69a..bd995b3 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -6,6 +6,7 @@
 #endif
 
 #include <ctype.h>
+#include <inttypes.h>
 #include <limits.h>
 
 #define isparen(v) (((v) == '(') || ((v) == ')'))
@@ -54,10 +55,13 @@ static lVal lValExceptionReaderEnd(lReadContext *s, const char *start, const cha
 	return lValException(lSymReadError, msg, lValStringError(s->buf,s->bufEnd, start ,s->data , end));
 }
 
-static double createFloat(i64 value, i64 mantissa, i64 mantissaLeadingZeroes){
-	if(mantissa == 0){return value;}
-	const double mant = mantissa * pow(10, -(floor(log10(mantissa)) + 1 + mantissaLeadingZeroes));
-	return value + mant;
+static double createFloat(u64 value, u64 mantissa, int mantissaDigits, int base){
+	if(base == 10){
+		char buf[512]; // Anything after 400 zeroes is too small for a double
+		snprintf(buf, sizeof(buf), "%" PRIu64 ".%0*" PRIu64, value, MIN(mantissaDigits, 420), mantissa);
+		return strtod(buf, NULL);
+	}
+	return value + (mantissa / pow(base, mantissaDigits));
 }
 
 static void lStringAdvanceToNextCharacter(lReadContext *s){
@@ -233,9 +237,9 @@ static lVal lParseSymbol(lReadContext *s, lVal refVal){
 	return lFinishSymbol(s, i, buf, start, keyword, refVal);
 }
 
-static lVal lParseNumberBase(lReadContext *s, int base, int maxDigits){
-	i64 ret = 0;
-	int digits = 0;
+/* Parse the digits of a number into RET, unless there are more than MAXDIGITS
+ * of them or the value doesn't fit into 64 bits, DIGITS counts them. */
+static lVal lParseDigits(lReadContext *s, int base, int maxDigits, u64 *ret, int *digits){
 	const char *start = s->data;
 
 	for(;s->data < s->bufEnd;s->data++){
@@ -250,17 +254,17 @@ static lVal lParseNumberBase(lReadContext *s, int base, int maxDigits){
 		}
 
 		if((curDigit >= 0) && (curDigit < base)){
-			ret = (ret * base) + curDigit;
-			if((++digits) > maxDigits){
+			if(((++*digits) > maxDigits) || (*ret > ((UINT64_MAX - curDigit) / base))){
 				return lValExceptionReaderEnd(s, start, "Literal too big, loss of precision imminent");
 			}
+			*ret = (*ret * base) + curDigit;
 		}else{
 			if(!isnumericseparator(c)){
 				return lValExceptionReaderEnd(s, start, "Wrong char in literal");
 			}
 		}
 	}
-	return lValInt(ret);
+	return NIL;
 }
 
 static lVal lParseNumber(lReadContext *s, int base, int maxDigits){
@@ -270,32 +274,28 @@ static lVal lParseNumber(lReadContext *s, int base, int maxDigits){
 		s->data++;
 		negative = true;
 	}
-	lVal val = lParseNumberBase(s, base, maxDigits);
-	if(unlikely(val.type == ltException)){
-		return val;
+	u64 value = 0, mantissa = 0;
+	int digits = 0, mantissaDigits = 0, mantissaLeadingZeroes = 0;
+	const lVal err = lParseDigits(s, base, maxDigits, &value, &digits);
+	if(unlikely(err.type == ltException)){
+		return err;
 	}
 	if(*s->data == '.'){
 		s->data++;
-		int mantissaLeadingZeroes = 0;
-		while(*s->data == '0'){
+		for(;*s->data == '0';s->data++){
 			mantissaLeadingZeroes++;
-			s->data++;
 		}
-		const lVal mantissaVal = lParseNumberBase(s, base, maxDigits);
-		if(unlikely(mantissaVal.type == ltException)){
-			return mantissaVal;
+		const lVal mantissaErr = lParseDigits(s, base, maxDigits, &mantissa, &mantissaDigits);
+		if(unlikely(mantissaErr.type == ltException)){
+			return mantissaErr;
 		}
 		if(*s->data == '.'){
 			return lValExceptionReaderEnd(s, start, "Period at end of number");
-		}else{
-			const double valf = createFloat(val.vInt, mantissaVal.vInt, mantissaLeadingZeroes);
-			return lValFloat(negative ? -valf : valf);
 		}
+		const double valf = createFloat(value, mantissa, mantissaLeadingZeroes + mantissaDigits, base);
+		return lValFloat(negative ? -valf : valf);
 	}
-	if(negative){
-		val.vInt = -val.vInt;
-	}
-	return val;
+	return lValInt(negative ? -value : value);
 }
 
 static lVal lParseCharacter(lReadContext *s){
-- 
2.43.0


From f5f5517d62b13bdce02dd0888b4d6a1744ce3a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 24/74] fix: values nested too deeply are read errors instead
 of stack overflows

---
 lib/reader.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index bd995b3..fe544c3 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -16,8 +16,11 @@
 #define isnonsymbol(v) (isparen(v)||isbracket(v)||isbrace(v)||((v)=='#')||((v)=='\'')||((v)=='\"')||((v)=='`')||((v)==';'))
 #define isnumericseparator(v) (((v)=='_') || ((v)==','))
 
+#define READ_MAX_DEPTH 4096
+
 typedef struct {
 	const char *buf, *bufEnd, *data;
+	int depth;
 } lReadContext;
 
 static inline bool isComment(lVal v){
@@ -29,6 +32,7 @@ static inline lVal lValComment(){
 }
 
 static lVal lReadValue(lReadContext *s);
+static lVal lReadValueRaw(lReadContext *s);
 static lVal lReadDatum(lReadContext *s);
 static lVal lReadElements(lReadContext *s, bool rootForm, char terminator);
 static lVal lReadList(lReadContext *s, bool rootForm, char terminator);
@@ -223,7 +227,13 @@ static lVal lParseSymbol(lReadContext *s, lVal refVal){
 			if(unlikely(i == 0)){
 				return lValExceptionReaderEnd(s, start, "Sym/KW too short");
 			}
-			return lParseSymbol(s, lFinishSymbol(s, i, buf, start, keyword, refVal));
+			if(unlikely(s->depth >= READ_MAX_DEPTH)){
+				return lValExceptionReaderEnd(s, start, "Values are nested too deeply");
+			}
+			s->depth++;
+			const lVal ret = lParseSymbol(s, lFinishSymbol(s, i, buf, start, keyword, refVal));
+			s->depth--;
+			return ret;
 		}
 		if((c == 0) || isspace((u8)c) || isnonsymbol(c)){
 			s->data--;
@@ -523,6 +533,16 @@ static lVal lReadConstructor(lSymbol *carSym, lVal args){
 }
 
 static lVal lReadValue(lReadContext *s){
+	if(unlikely(s->depth >= READ_MAX_DEPTH)){
+		return lValExceptionReader(s, "Values are nested too deeply");
+	}
+	s->depth++;
+	const lVal ret = lReadValueRaw(s);
+	s->depth--;
+	return ret;
+}
+
+static lVal lReadValueRaw(lReadContext *s){
 	if(unlikely(s->data >= s->bufEnd)){
 		return NIL;
 	}
@@ -587,5 +607,6 @@ lVal lRead(const char *str, size_t len){
 	lReadContext ctx;
 	ctx.buf = ctx.data = str;
 	ctx.bufEnd = &str[len];
+	ctx.depth = 0;
 	return lReadList(&ctx, true, ')');
 }
-- 
2.43.0


From b8547b034ac9f89822165e09af9ab709315d86a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 25/74] fix: deep recursion doesn't truncate the saved stack
 position

---
 lib/nujel-private.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index e91546c..283b485 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -154,7 +154,7 @@ struct lClosure {
 		lVal args;
 		lVal exceptionHandler;
 	};
-	u16 sp;
+	u32 sp;
 	u8 type;
 };
 
@@ -504,7 +504,7 @@ typedef struct {
 	i32 text;
 	i32 args;
 	i32 ip;
-	u16 sp;
+	u32 sp;
 	u8 type;
 } lImageClosure;
 
-- 
2.43.0


From 9cdd243a5258438b4eade130f2d08d7e59e4bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 26/74] fix: functions have enough stack space for every
 operation they contain

---
 lib/vm.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 452ca3e..8fdb297 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -44,18 +44,22 @@ static lVal lStackBuildList(lVal *stack, int sp, int len){
 	return ret;
 }
 
+/* Every operation pushes at most a single value/closure, so there has to be room
+ * for as many as there are operations in the current text, as well as for the
+ * arguments that are added when calling a native function. */
 static void lBytecodeEnsureSufficientStack(lThread *ctx){
+	const int textSize = ctx->text->dataEnd - ctx->text->data;
 	const int closureSizeLeft = (ctx->closureStackSize - ctx->csp) - 1;
-	if(unlikely(closureSizeLeft < 16)){
-		ctx->closureStackSize += 512;
+	if(unlikely(closureSizeLeft < (textSize + 16))){
+		ctx->closureStackSize += textSize + 512;
 		lClosure **t = realloc(ctx->closureStack, ctx->closureStackSize * sizeof(lClosure *));
 		if(unlikely(t == NULL)){ exit(56); }
 		ctx->closureStack = t;
 	}
 
 	const int valueSizeLeft = ctx->valueStackSize - ctx->sp;
-	if(unlikely(valueSizeLeft < 32)){
-		ctx->valueStackSize += 512;
+	if(unlikely(valueSizeLeft < (textSize + 32))){
+		ctx->valueStackSize += textSize + 512;
 		lVal *t = realloc(ctx->valueStack, ctx->valueStackSize * sizeof(lVal));
 		if(unlikely(t == NULL)){ exit(57); }
 		ctx->valueStack = t;
@@ -209,6 +213,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	ctx.text             = text;
 	ctx.valueStack[0]    = NIL;
 	ctx.valueStack[1]    = NIL;
+	lBytecodeEnsureSufficientStack(&ctx);
 
 	ip = ops->data;
 
-- 
2.43.0


From 835bd4ed21d0b5cc1a39fadcee758d7a1dafc517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 27/74] fix: calling a keyword without arguments doesn't use a
 stale value

---
 lib/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/vm.c b/lib/vm.c
index 8fdb297..14721cc 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -763,7 +763,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lVal fun = ctx.valueStack[ctx.sp--];
 		lVal *vs = &ctx.valueStack[argsSp];
 		if(unlikely(fun.type == ltKeyword)){
-			const lVal self = vs[1-len];
+			const lVal self = unlikely(len == 0) ? NIL : vs[1-len];
 			const lVal nfun = lMethodLookup(fun.vSymbol, self);
 			if(unlikely(nfun.type == ltException)){
 				lThrow(lValException(lSymTypeError, "Unknown method", lCons(fun, lCons(lValType(&lClassList[self.type]), NIL))));
-- 
2.43.0


From 3a760ddd05416cbcd72e32608c0ab318d884748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 28/74] fix: throwing a list doesn't modify it, setting unbound
 variables always throws

---
 lib/vm.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/vm.c b/lib/vm.c
index 14721cc..7718d5f 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -66,6 +66,15 @@ static void lBytecodeEnsureSufficientStack(lThread *ctx){
 	}
 }
 
+/* Return a copy of the list V, which has to be a pair */
+static lVal lListCopy(lVal v){
+	const lVal ret = lCons(v.vList->car, v.vList->cdr);
+	for(lPair *t = ret.vList; t->cdr.type == ltPair; t = t->cdr.vList){
+		t->cdr = lCons(t->cdr.vList->car, t->cdr.vList->cdr);
+	}
+	return ret;
+}
+
 static lVal stackTrace(const lThread *ctx){
 	lVal ret = NIL;
 	for(int i=0;i<=ctx->csp;i++){
@@ -563,7 +572,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		// used that I prefer to keep it simple
 		const uint v = (ip[0] << 8) | (ip[1]);
 		ip += 2;
-		lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]);
+		if(unlikely(!lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]))){
+			lThrow(lValException(lSymUnboundVariable, "Can't set symbol", lValSymS(lits[v].vSymbol)));
+		}
 		vmbreak; }
 	vmcase(lopSetVal) {
 		const lSymbol *s = lits[*ip++].vSymbol;
@@ -646,6 +657,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopThrow) {
 		lVal v = ctx.valueStack[ctx.sp];
 		if(likely(v.type == ltPair)){
+			v = lListCopy(v); // The stack trace gets appended to it
 			v.type = ltException;
 		}
 		exceptionThrownValue = v;
-- 
2.43.0


From 5a01c4a1098db80008896b3dcd8fa9cd4910788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 29/74] fix: evaluating code within an environment doesn't
 disturb running code using it

---
 lib/core-operators.c |  4 ++--
 lib/nujel-private.h  |  9 +++++++++
 lib/vm.c             | 16 ++++++++--------
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index 18dee8b..dc35003 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -19,11 +19,11 @@ static lVal lnfResolvesPred(lClosure *c, lVal aSym, lVal env){
 }
 
 static lVal lnfCurrentClosure(lClosure *c){
-	return lValAlloc(ltEnvironment, c);
+	return lValAlloc(ltEnvironment, lClosureScope(c));
 }
 
 static lVal lnfCurrentLambda(lClosure *c){
-	return lValAlloc(ltLambda, c);
+	return lValAlloc(ltLambda, lClosureScope(c));
 }
 
 static lVal lnfNReverse(lVal l){
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 283b485..fa0e96f 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -163,6 +163,7 @@ typedef enum closureType {
 	closureCall = 1,
 	closureLet = 2,
 	closureTry = 3,
+	closureEval = 4,
 } closureType;
 
 
@@ -182,6 +183,14 @@ struct lThread {
 /*\
  |  Closure related procedures
 \*/
+/* Evaluating code directly within an environment pushes a closureEval, so that the
+ * state of that evaluation is kept apart from the environment itself. Everything
+ * evaluated should only ever see the environment.
+ */
+static inline lClosure *lClosureScope(lClosure *c){
+	return c->type == closureEval ? c->parent : c;
+}
+
 lClosure *lClosureNew        (lClosure *parent, closureType t);
 lClosure *lClosureNewFunCall (lVal args, lVal lambda);
 bool      lHasClosureSym     (lClosure *c, const lSymbol *s, lVal *v);
diff --git a/lib/vm.c b/lib/vm.c
index 7718d5f..85d6493 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -530,11 +530,11 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopDefValExt) {
 		const uint v = (ip[0] << 8) | (ip[1]);
 		ip += 2;
-		lDefineClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]);
+		lDefineClosureSym(lClosureScope(c), lits[v].vSymbol, ctx.valueStack[ctx.sp]);
 		vmbreak; }
 	vmcase(lopDefVal) {
 		const uint v = *ip++;
-		lDefineClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]);
+		lDefineClosureSym(lClosureScope(c), lits[v].vSymbol, ctx.valueStack[ctx.sp]);
 		vmbreak; }
 	vmcase(lopGetValExt) {
 		// Could be optimized like lopGetVal, but this opcode so rarely
@@ -635,10 +635,10 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.valueStack[++ctx.sp] = cargs;
 		vmbreak; }
 	vmcase(lopClosurePush)
-		ctx.valueStack[++ctx.sp] = lValEnvironment(c);
+		ctx.valueStack[++ctx.sp] = lValEnvironment(lClosureScope(c));
 		vmbreak;
 	vmcase(lopLet)
-		c = lClosureNew(c, closureLet);
+		c = lClosureNew(lClosureScope(c), closureLet);
 		c->type = closureLet;
 		ctx.closureStack[++ctx.csp] = c;
 		vmbreak;
@@ -649,7 +649,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		const lVal handler = ctx.valueStack[ctx.sp--];
 		lStoreInClosure(lBytecodeGetOffset16(ip)-1);
 
-		c = lClosureNew(c, closureTry);
+		c = lClosureNew(lClosureScope(c), closureTry);
 		c->exceptionHandler = handler;
 		ctx.closureStack[++ctx.csp] = c;
 		ip+=2;
@@ -737,7 +737,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lVal cBody = ctx.valueStack[ctx.sp--];
 		lVal cDocs = ctx.valueStack[ctx.sp--];
 		lVal cArgs = ctx.valueStack[ctx.sp--];
-		lVal fun = lLambdaNew(c, cArgs, cBody);
+		lVal fun = lLambdaNew(lClosureScope(c), cArgs, cBody);
 		lClosureSetMeta(fun.vClosure, cDocs);
 		if(unlikely(curOp == lopMacroDynamic)){
 			fun.type = ltMacro;
@@ -756,7 +756,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lStoreInClosure(0);
 
 		if(unlikely(curOp == lopMutableEval)){
-			c = ctx.closureStack[++ctx.csp] = env.vClosure;
+			c = ctx.closureStack[++ctx.csp] = lClosureNew(env.vClosure, closureEval);
 		} else {
 			c = ctx.closureStack[++ctx.csp] = lClosureNew(env.vClosure, closureCall);
 		}
@@ -909,7 +909,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		vmbreak; }
 	vmcase(lopRet)
 		if(likely(ctx.csp > 0)){
-			while(ctx.closureStack[ctx.csp]->type != closureCall){
+			while((ctx.closureStack[ctx.csp]->type != closureCall) && (ctx.closureStack[ctx.csp]->type != closureEval)){
 				if(unlikely(--ctx.csp <= 0)){goto topLevelReturn;}
 			}
 			lVal ret = ctx.valueStack[ctx.sp];
-- 
2.43.0


From fb9c7ec1d9c539787173df014dbf87d4566d24f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 30/74] fix: opening a file for output with :error leaves an
 existing file alone

---
 bin/port.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index f1fcb24..0bb420b 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -52,9 +52,9 @@ static lVal lnfFileOpenOutput(lVal aPathname, lVal aIfExists){
 	FILE *fh = NULL;
 	if(mode == lSymError){
 #if defined(_MSC_VER)
-		if (_access(path, 02) == 0) { lValBool(false); }
+		if (_access(path, 02) == 0) { return lValBool(false); }
 #else
-		if(access(path, F_OK) == 0){lValBool(false);}
+		if(access(path, F_OK) == 0){return lValBool(false);}
 #endif
 		fh = fopen(path, "wb");
 	}else if(mode == lSymReplace){
-- 
2.43.0


From a9c55cf5e0b3a80155e6d0322a6cdf820e105b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 31/74] fix: file operations check their arguments

---
 bin/port.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/port.c b/bin/port.c
index 0bb420b..3034289 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -103,6 +103,9 @@ static lVal lnfFileReadAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset)
 	reqNaturalInt(aSize);
 	const i64 size = aSize.vInt;
 	const i64 offset = castToInt(aOffset, 0);
+	if(offset < 0){
+		return lValException(lSymOutOfBounds, "Negative offsets are not supported", aOffset);
+	}
 
 	void *buf = NULL;
 	i64 bufSize = 0;
@@ -144,6 +147,9 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 	lVal contentV = aBuffer;
 	i64 size = castToInt(aSize, -1);
 	const i64 offset = castToInt(aOffset, 0);
+	if(offset < 0){
+		return lValException(lSymOutOfBounds, "Negative offsets are not supported", aOffset);
+	}
 
 	const void * buf = NULL;
 	i64 bufSize = 0;
@@ -188,6 +194,7 @@ static lVal lnfFileFlush(lVal aHandle){
 }
 
 static lVal lnfFileTell(lVal aHandle){
+	reqFileHandle(aHandle);
 	const i64 pos = ftell(aHandle.vFileHandle);
 	return lValInt(pos);
 }
-- 
2.43.0


From ada0a5a79cffd68bb7035861ed92d7fcea87f8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 32/74] fix: failing to flush, seek or close a file is reported
 and closed files can't be used

---
 bin/port.c           | 14 +++++++++++---
 binlib/io.nuj        |  8 ++++----
 lib/compatibility.c  | 32 ++++++++++++++++++++++++++++++++
 lib/core-operators.c |  2 +-
 lib/nujel.h          |  8 ++++++++
 5 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index 3034289..8736b7f 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -92,7 +92,11 @@ static lVal lnfFileOpenInput(lVal aPathname){
 
 static lVal lnfFileClose(lVal aHandle){
 	reqFileHandle(aHandle);
-	fclose(aHandle.vFileHandle);
+	const int err = fclose(aHandle.vFileHandle);
+	lFileMarkClosed(aHandle.vFileHandle);
+	if(unlikely(err)){
+		return lValException(lSymIOError, "IO Error occured while closing", aHandle);
+	}
 	return NIL;
 }
 
@@ -189,7 +193,9 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 
 static lVal lnfFileFlush(lVal aHandle){
 	reqFileHandle(aHandle);
-	fflush(aHandle.vFileHandle);
+	if(unlikely(fflush(aHandle.vFileHandle))){
+		return lValException(lSymIOError, "IO Error occured while flushing", aHandle);
+	}
 	return aHandle;
 }
 
@@ -210,7 +216,9 @@ static lVal lnfFileSeek(lVal aHandle, lVal aOffset, lVal aWhence){
 		return lValException(lSymTypeError, "Whence has to be in the range 0-2", aWhence);
 	}
 	const int whence = whenceRaw == 0 ? SEEK_SET : whenceRaw == 1 ? SEEK_CUR : SEEK_END;
-	fseek(fh, offset, whence);
+	if(unlikely(fseek(fh, offset, whence))){
+		return lValException(lSymIOError, "Can't seek to that position", aHandle);
+	}
 	return aHandle;
 }
 
diff --git a/binlib/io.nuj b/binlib/io.nuj
index b756c02..8603e1b 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -89,11 +89,11 @@
       (when-not fh (return #f))
 
       (try (fn ()
-               (file/close* fh)
-               (return #f))
+               (try (fn () #nil) (file/close* fh))
+               #f)
            (file/write* fh content)
-           (file/close* fh))
-      (return #t))
+           (file/close* fh)
+           #t))
 
 (defn file/write (content pathname)
       "Writes CONTENT into PATHNAME"
diff --git a/lib/compatibility.c b/lib/compatibility.c
index 6c7b203..ab50b10 100644
--- a/lib/compatibility.c
+++ b/lib/compatibility.c
@@ -54,6 +54,38 @@ u64 getMSecs(){
 #endif
 }
 
+/* Every stream that was closed and hasn't been opened since, values might still
+ * refer to them.
+ */
+static FILE **closedFiles = NULL;
+static uint closedFileCount = 0;
+static uint closedFileSize  = 0;
+
+bool lFileIsClosed(const FILE *fh){
+	for(uint i = 0; i < closedFileCount; i++){
+		if(closedFiles[i] == fh){return true;}
+	}
+	return false;
+}
+
+void lFileMarkClosed(FILE *fh){
+	if(closedFileCount >= closedFileSize){
+		closedFileSize += 64;
+		closedFiles = realloc(closedFiles, closedFileSize * sizeof(FILE *));
+		if(closedFiles == NULL){exit(58);}
+	}
+	closedFiles[closedFileCount++] = fh;
+}
+
+void lFileMarkOpen(FILE *fh){
+	for(uint i = 0; i < closedFileCount; i++){
+		if(closedFiles[i] == fh){
+			closedFiles[i] = closedFiles[--closedFileCount];
+			return;
+		}
+	}
+}
+
 /* Add all the platform specific constants to C */
 void lAddPlatformVars(lClosure *c){
 	lVal valOS, valArch;
diff --git a/lib/core-operators.c b/lib/core-operators.c
index dc35003..738a09b 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -95,7 +95,7 @@ static i64 lValToId(lVal v){
 	case ltBytecodeArr: return v.vBytecodeArr - lBytecodeArrayList;
 	case ltKeyword:
 	case ltSymbol: return v.vSymbol - lSymbolList;
-	case ltFileHandle: return fileno(v.vFileHandle);
+	case ltFileHandle: return lFileIsClosed(v.vFileHandle) ? -1 : fileno(v.vFileHandle);
 	case ltNativeFunc: return v.vNFunc - lNFuncList;
 	}
 }
diff --git a/lib/nujel.h b/lib/nujel.h
index 9726524..ab8c6ec 100644
--- a/lib/nujel.h
+++ b/lib/nujel.h
@@ -239,6 +239,9 @@ if(unlikely(str.vInt < 0)){\
 
 #define reqFileHandle(val) do { if(unlikely(val.type != ltFileHandle)){\
 	return lValException(lSymTypeError, "Need a FileHandle", val);\
+}\
+if(unlikely(lFileIsClosed(val.vFileHandle))){\
+	return lValException(lSymIOError, "That FileHandle has been closed", val);\
 } } while(0)
 
 #define reqMutableBuffer(val) do { if(unlikely(val.type != ltBuffer)){\
@@ -376,7 +379,12 @@ static inline lVal lValKeyword(const char *s){
 	return lValKeywordS(lSymS(s));
 }
 
+bool lFileIsClosed  (const FILE *fh);
+void lFileMarkClosed(FILE *fh);
+void lFileMarkOpen  (FILE *fh);
+
 static inline lVal lValFileHandle(FILE *fh){
+	lFileMarkOpen(fh);
 	return (lVal){ltFileHandle, .vFileHandle = fh};
 }
 
-- 
2.43.0


From c4233ff5e5a77a8e8b1b2589e8baec06dc9f274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 33/74] fix: ports report the end of a file and read lines of
 any length

---
 binlib/io.nuj            |  2 +-
 stdlib/string/portng.nuj | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index 8603e1b..af2f41a 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -13,7 +13,7 @@
 
 (defn file/read/single (path)
       "Read a single value from a file"
-      (car (file/read path)))
+      (car (read (slurp path))))
 
 (defn file/eval (path environment)
        "Evaluate a Nujel source file in the current context"
diff --git a/stdlib/string/portng.nuj b/stdlib/string/portng.nuj
index 723c567..1754e43 100644
--- a/stdlib/string/portng.nuj
+++ b/stdlib/string/portng.nuj
@@ -32,16 +32,15 @@
       "Reads in a line of user input and returns it"
       (def i 0)
       (def c 0)
-      (def view (:u8 buf))
       (while #t
              (while (>= i (:length buf))
-                    (:length! (+ 128 (:length buf))))
+                    (:length! buf (+ 128 (:length buf))))
              (set! c (:char-read port))
              (when (= c :end-of-file)
                    (return (if (zero? i) #nil i)))
              (when (= c #\lf)
                    (return i))
-             (set! view i c)
+             (set! buf i c)
              (set! i (inc i))))
 
 (defn read-line ()
@@ -96,7 +95,7 @@
 
   (defn char-write (self char)
         (set! self.temp-buffer 0 char)
-        (file/write* self.handle temporary-buffer 1))
+        (file/write* self.handle self.temp-buffer 1))
 
   (defn close! (self)
         (file/close* self.handle))
@@ -165,9 +164,12 @@
           :temp-buffer (buffer/allocate 16) })
 
   (defn block-read (self buffer size)
-        (if (file/eof*? self.handle)
+        (when (file/eof*? self.handle)
+          (return :end-of-file))
+        (def bytes-read (file/read* self.handle buffer size))
+        (if (and (zero? bytes-read) (> size 0))
             :end-of-file
-            (file/read* self.handle buffer size)))
+            bytes-read))
 
   (defn length (self)
         (or (file/bytes-available* self.handle) 0))
@@ -175,8 +177,8 @@
   (defn char-read (self char)
         (when (file/eof*? self.handle)
           (return :end-of-file))
-        (when-not (file/read* self.handle self.temp-buffer 1)
-                  (return :end-of-file))
+        (when (zero? (file/read* self.handle self.temp-buffer 1))
+          (return :end-of-file))
         (ref self.temp-buffer 0))
 
   (defn raw! (self)
-- 
2.43.0


From e48fb2cb8d01f2f053f13a187d6cd2a6bf7bd2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 34/74] fix: allocating a native function doesn't leave an
 empty one behind

---
 lib/allocator.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/allocator.c b/lib/allocator.c
index 825760a..8a372c5 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -113,6 +113,7 @@ lNFunc *lNFuncAlloc(){
 	if(unlikely(lNFuncMax >= NFN_MAX-1)){
 		exit(124);
 	}
-	memset(&lNFuncList[lNFuncMax++], 0, sizeof(ltNativeFunc));
-	return &lNFuncList[lNFuncMax++];
+	lNFunc *ret = &lNFuncList[lNFuncMax++];
+	memset(ret, 0, sizeof(lNFunc));
+	return ret;
 }
-- 
2.43.0


From e3ca3a5bc34324408aec3f416c0ff67b4863371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 35/74] fix: collect garbage early enough for symbols and
 operations allocating many values

---
 lib/allocator.c          | 3 ++-
 lib/garbage-collection.c | 5 +++++
 lib/nujel-private.h      | 8 ++++++++
 lib/symbol.c             | 7 ++++---
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/allocator.c b/lib/allocator.c
index 8a372c5..688a0df 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -10,6 +10,7 @@ bool lGCShouldRunSoon = false;
 T T##List[typeMax]; \
 uint T##Max = 0; \
 uint T##Active = 0; \
+uint T##GCThreshold = typeMax - lGCReserve(typeMax); \
 T * T##FFree = NULL; \
 T * T##AllocRaw (){\
 	T *ret;\
@@ -24,7 +25,7 @@ T * T##AllocRaw (){\
 		ret = T ## FFree;\
 		(T##FFree) = ret->nextFree;\
 	}\
-	if(unlikely((typeMax - (++T##Active) < 128))){lGCShouldRunSoon = true;} \
+	if(unlikely(++T##Active > T##GCThreshold)){lGCShouldRunSoon = true;} \
 	T##MarkMap[ret - T##List] = 0;\
 	memset(ret,0,sizeof(T));\
 	return ret;\
diff --git a/lib/garbage-collection.c b/lib/garbage-collection.c
index a105907..ecda5e5 100644
--- a/lib/garbage-collection.c
+++ b/lib/garbage-collection.c
@@ -253,6 +253,11 @@ static void lGCSweep(){
 	defineAllocator(lSymbol, SYM_MAX)
 	defineAllocator(lNFunc, NFN_MAX)
 	#undef defineAllocator
+
+	#define defineAllocator(T, TMAX) T##GCThreshold = TMAX - lGCReserve(TMAX - T##Active);
+	allocatorTypes()
+	defineAllocator(lSymbol, SYM_MAX)
+	#undef defineAllocator
 }
 
 /* Force a garbage collection cycle, shouldn't need to be called manually since
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index fa0e96f..6352055 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -344,10 +344,17 @@ void lGarbageCollect(lThread *ctx);
 	defineAllocator(lBufferView, BFV_MAX) \
 	defineAllocator(lPair, CON_MAX)
 
+/* How many of the FREE cells are kept in reserve when deciding whether the GC
+ * should run, since it can only run in between operations and a single one might
+ * allocate quite a lot.
+ */
+#define lGCReserve(free) MAX((free) / 4, 128)
+
 #define defineAllocator(T, typeMax) \
 extern T T##List[typeMax]; \
 extern uint T##Max;	   \
 extern uint T##Active; \
+extern uint T##GCThreshold; \
 extern u8 T##MarkMap[typeMax]; \
 extern T * T##FFree; \
 T * T##AllocRaw();
@@ -374,6 +381,7 @@ static inline int lNFuncID(const lNFunc *n){
 extern lSymbol  lSymbolList [SYM_MAX];
 extern lSymbol *lSymbolFFree;
 extern uint     lSymbolActive;
+extern uint     lSymbolGCThreshold;
 extern uint     lSymbolMax;
 
 extern lSymbol *symType;
diff --git a/lib/symbol.c b/lib/symbol.c
index cfb1247..711ee43 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -8,6 +8,7 @@
 
 lSymbol  lSymbolList[SYM_MAX];
 uint     lSymbolActive = 0;
+uint     lSymbolGCThreshold = SYM_MAX - lGCReserve(SYM_MAX);
 uint     lSymbolMax    = 0;
 lSymbol *lSymbolFFree = NULL;
 
@@ -213,8 +214,8 @@ uint lSymbolIndexSlot(const char *str){
 			h = 0;
 		}
 	} while (h != hInitial);
-	exit(111);
-	return 0;
+	if(unlikely(firstTomb == 0xffffffff)){exit(111);}
+	return firstTomb;
 }
 
 lSymbol *lSymS(const char *str){
@@ -234,7 +235,7 @@ lSymbol *lSymS(const char *str){
 			ret = &lSymbolList[lSymbolMax++];
 		}
 	}
-	lSymbolActive++;
+	if(unlikely(++lSymbolActive > lSymbolGCThreshold)){lGCShouldRunSoon = true;}
 	strncpy(ret->c, str, sizeof(ret->c));
 	ret->c[sizeof(ret->c)-1] = 0;
 	symIndex = lSymIndex(ret);
-- 
2.43.0


From 5a582e6952c8f5f52d4cec065c3419f7501c194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 36/74] fix: deserializing keeps the identity of trees

---
 lib/imageReader.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index d3ddb69..cace069 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -137,9 +137,9 @@ static lBufferView *readBufferView(readImageMap *map, const lImage *img, i32 off
 	return view;
 }
 
-static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool staticImage){
+static lTreeRoot *readTreeRoot(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	const void *mapP = readMapGet(map, off);
-	if(mapP != NULL){ return ((lTreeRoot *)mapP)->root; }
+	if(mapP != NULL){ return (lTreeRoot *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
 	const i32 len = img->data[off] | (img->data[off+1]<<8);
@@ -157,7 +157,12 @@ static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool stati
 			root->root = lTreeInsert(root->root, s, v);
 		}
 	}
-	return root->root;
+	return root;
+}
+
+static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool staticImage){
+	const lTreeRoot *root = readTreeRoot(map, img, off, staticImage);
+	return root == NULL ? NULL : root->root;
 }
 
 static lNFunc *readNFunc(readImageMap *map, const lImage *img, i32 off, bool staticImage){
@@ -263,7 +268,10 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 	case litBytecodeArr:
 		return lValAlloc(ltBytecodeArr, readBytecodeArray(map, img, tbyte, staticImage));
 	case litTree:
-		return lValTree(readTree(map, img, tbyte, staticImage));
+	{
+		lTreeRoot *root = readTreeRoot(map, img, tbyte, staticImage);
+		return root == NULL ? lValTree(NULL) : lValAlloc(ltTree, root);
+	}
 	case litArray:
 		return lValAlloc(ltArray, readArray(map, img, tbyte, staticImage));
 	case litPair:
-- 
2.43.0


From e925463e69a797c8ed94e98e4edec3a864a53e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 37/74] fix: values read from an image don't depend on its
 memory

---
 bin/main.c        | 2 +-
 lib/imageReader.c | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/bin/main.c b/bin/main.c
index 1f2b579..47a0c35 100644
--- a/bin/main.c
+++ b/bin/main.c
@@ -13,7 +13,7 @@ static void initBinNativeFuncs(){
 static lClosure *createRootClosureFromExternalImage(const char *filename, lVal *init){
 	size_t len = 0;
 	void *img = loadFile(filename, &len);
-	lVal imgVal = readImage(img, len, true);
+	lVal imgVal = readImage(img, len, false);
 	lClosure *imgC = findRoot(imgVal);
 	if(imgC == NULL){
 		fprintf(stderr,"Can't determine root closure of that image, exiting\n");
diff --git a/lib/imageReader.c b/lib/imageReader.c
index cace069..969b238 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -108,13 +108,15 @@ static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool s
 	const u32 len = raw & 0x0FFFFFFF;
 	const bool immutable = (raw >> 28) & BUFFER_IMMUTABLE;
 	void *data = (void *)&img->data[off+4];
-	lBuffer *buf = lBufferAlloc(len, immutable);
+	lBuffer *buf = lBufferAllocRaw();
+	buf->length = len;
+	buf->flags = immutable ? BUFFER_IMMUTABLE : 0;
 	readMapSet(map, off, buf);
 	if(staticImage && immutable){
 		buf->buf = data;
 		buf->flags |= BUFFER_STATIC;
 	} else {
-		buf->buf = malloc(len);
+		buf->buf = calloc(len + 1, 1); // Strings have to be terminated
 		memcpy(buf->buf, data, len);
 	}
 	return buf;
-- 
2.43.0


From 003d12e6582c58c55d4c854558aa970f7230ac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 38/74] fix: serializing an open file throws instead of
 embedding an exception

---
 lib/imageWriter.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 12bddf2..d4ac417 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -17,6 +17,7 @@ typedef struct {
 	i32 curOff;
 	i32 size;
 	writeImageMap map;
+	bool failed;
 } writeImageContext;
 
 static i32 ctxAddVal(writeImageContext *ctx, lVal v);
@@ -246,7 +247,7 @@ static i32 ctxAddPair(writeImageContext *ctx, lPair *v){
 	return curOff;
 }
 
-static u8 ctxAddFilehandle(FILE *fh){
+static u8 ctxAddFilehandle(writeImageContext *ctx, FILE *fh){
 	if(fh == stdin){
 		return 0;
 	} else if(fh == stdout){
@@ -254,6 +255,7 @@ static u8 ctxAddFilehandle(FILE *fh){
 	} else if(fh == stderr){
 		return 2;
 	} else {
+		ctx->failed = true;
 		return 0xFF;
 	}
 }
@@ -272,7 +274,7 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 	case ltFileHandle:
 		ctx->curOff += 2;
 		*outb++ = litFileHandle;
-		*outb = ctxAddFilehandle(v.vFileHandle);
+		*outb = ctxAddFilehandle(ctx, v.vFileHandle);
 		break;
 	case ltNativeFunc: {
 		ctx->curOff += 4;
@@ -436,6 +438,13 @@ static lImage *writeImage(lVal rootValue, i32 *outSize){
 	buf->magic[3] = 'I';
 
 	ctxAddVal(&ctx, rootValue);
+	if(unlikely(ctx.failed)){
+		free(buf);
+		free(ctx.start);
+		free(ctx.map.key);
+		free(ctx.map.val);
+		return NULL;
+	}
 
 	buf = realloc(buf, sizeof(lImage) + ctx.curOff);
 	memcpy(buf->data, ctx.start, ctx.curOff);
-- 
2.43.0


From 16a4d32b99921fab70a4aaac70901d2278d82dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 39/74] fix: write strings containing NUL and pairs ending in
 #f completely

---
 stdlib/string/printer.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/string/printer.nuj b/stdlib/string/printer.nuj
index 68999a4..d9b88f2 100644
--- a/stdlib/string/printer.nuj
+++ b/stdlib/string/printer.nuj
@@ -96,7 +96,7 @@
                          (return (write/raw (cadr v) port hr?)))
                        (:block-write port "(")
                        (def first? #f)
-                       (while v
+                       (while (not (nil? v))
                          (if first?
                              (:block-write port " ")
                              (set! first? #t))
@@ -113,7 +113,7 @@
                        (dotimes (i (:length v))
                          (def c (ref v i))
                          (case c
-                               (0 (return (:block-write port "\"")))
+                               (0 (:block-write port "\\0"))
                                (#x07 (:block-write port "\\a"))
                                (#x08 (:block-write port "\\b"))
                                (#x09 (:block-write port "\\t"))
-- 
2.43.0


From 89c1d5248d4a939225d4bd84a0c93dda8c612439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 40/74] fix: equal? compares pairs and trees by their contents,
 join and odd? work for every argument

---
 stdlib/collections/collection.nuj |  3 ++-
 stdlib/collections/lists.nuj      |  3 ++-
 stdlib/collections/tree.nuj       | 15 +++++++--------
 stdlib/core/predicates.nuj        |  2 +-
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/stdlib/collections/collection.nuj b/stdlib/collections/collection.nuj
index 4b1e9e4..acf4ca5 100644
--- a/stdlib/collections/collection.nuj
+++ b/stdlib/collections/collection.nuj
@@ -45,7 +45,8 @@
       "Join every element of α together into a string with GLUE inbetween"
       (when-not glue (set! glue ""))
       (when-not l (return ""))
-      (reduce l (fn (a b) (if a (cat a glue b) b)) #nil))
+      (or (reduce l (fn (a b) (if a (cat a glue b) (cat b))) #nil)
+          ""))
 
 (defn for-each (l f)
       "Runs F over every item in collection L"
diff --git a/stdlib/collections/lists.nuj b/stdlib/collections/lists.nuj
index 8cf4b7d..9eb971a 100644
--- a/stdlib/collections/lists.nuj
+++ b/stdlib/collections/lists.nuj
@@ -113,7 +113,8 @@
 (defn list/equal? (a b)
       "#t if A and B are equal"
       (if (pair? a)
-          (and (list/equal? (car a) (car b))
+          (and (pair? b)
+               (equal? (car a) (car b))
                (list/equal? (cdr a) (cdr b)))
           (equal? a b)))
 
diff --git a/stdlib/collections/tree.nuj b/stdlib/collections/tree.nuj
index eb3abcc..0f2ed87 100644
--- a/stdlib/collections/tree.nuj
+++ b/stdlib/collections/tree.nuj
@@ -30,14 +30,13 @@
       "Compares two trees for equality"
       (if (and (tree? a)
                (tree? b))
-          (and (= (:key* a)
-                  (:key* b))
-               (equal? (:value* a)
-                       (:value* b))
-               (tree/equal? (:left* a)
-                            (:left* b))
-               (tree/equal? (:right* a)
-                            (:right* b)))
+          (and (= (:length a)
+                  (:length b))
+               (every? (:keys a)
+                       (fn (k)
+                         (and (:has? b k)
+                              (equal? (ref a k)
+                                      (ref b k))))))
           (equal? a b)))
 
 (defn tree/reduce (l o s)
diff --git a/stdlib/core/predicates.nuj b/stdlib/core/predicates.nuj
index 6564935..cabe1a8 100644
--- a/stdlib/core/predicates.nuj
+++ b/stdlib/core/predicates.nuj
@@ -22,7 +22,7 @@
 
 (defn odd? (a)
       "Predicate that returns #t if a is odd"
-      (= (rem (int a) 2) 1))
+      (not= (rem (int a) 2) 0))
 
 (defn even? (a)
       "Predicate that returns #t if a is even"
-- 
2.43.0


From e61a2a1783324042ef0a0a53562f50db9974f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 41/74] fix: JSON strings and keys only use escapes JSON has

---
 stdlib_modules/serialization/json.nuj | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/stdlib_modules/serialization/json.nuj b/stdlib_modules/serialization/json.nuj
index 0287c5c..428b6e7 100644
--- a/stdlib_modules/serialization/json.nuj
+++ b/stdlib_modules/serialization/json.nuj
@@ -3,12 +3,32 @@
 ;;;
 ;;; Contains subroutines for (de-)serializing JSON
 
+(defn string->json (s)
+      "Converts a string into a JSON encoded string"
+      (def p (:new StringOutputPort))
+      (:block-write p "\"")
+      (dotimes (i (:length s))
+        (def c (ref s i))
+        (case c
+              (#x08 (:block-write p "\\b"))
+              (#x09 (:block-write p "\\t"))
+              (#x0A (:block-write p "\\n"))
+              (#x0C (:block-write p "\\f"))
+              (#x0D (:block-write p "\\r"))
+              (#x22 (:block-write p "\\\""))
+              (#x5C (:block-write p "\\\\"))
+              (otherwise (if (< c #x20)
+                             (:write p "\\u00" (pad-start (int->string/HEX c) 2 "0"))
+                             (:char-write p c)))))
+      (:block-write p "\"")
+      (:return-string p))
+
 (defn tree->json (v)
       "Converts a tree into a JSON encoded string, you should prefer VAL->JSON"
       (cat "{"
            (join (map (:keys v)
                       (fn (k)
-                        (cat "\"" (:string k) "\": "
+                        (cat (string->json (:string k)) ": "
                              (val->json (ref v k)))))
                  ",\n")
            "}"))
@@ -21,8 +41,8 @@
             ((:int :float) (:string v))
             (:bool (if v "true" "false"))
             ((:array :pair) (cat "[" (join (map v val->json) ",") "]"))
-            (:string (string/write v))
-            ((:symbol :keyword)  (cat "\"" (:string v) "\""))
+            (:string (string->json v))
+            ((:symbol :keyword)  (string->json (:string v)))
             (:tree (tree->json v))
             (otherwise (exception :type-error "Can't encode the value into JSON" v))))
 
-- 
2.43.0


From 7a1121ff165f8cfcafa3e0663e1618e9d53e6fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 42/74] fix: serializing to JSON doesn't modify arrays

---
 stdlib_modules/serialization/json.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib_modules/serialization/json.nuj b/stdlib_modules/serialization/json.nuj
index 428b6e7..09925b0 100644
--- a/stdlib_modules/serialization/json.nuj
+++ b/stdlib_modules/serialization/json.nuj
@@ -40,7 +40,7 @@
             (:nil "null")
             ((:int :float) (:string v))
             (:bool (if v "true" "false"))
-            ((:array :pair) (cat "[" (join (map v val->json) ",") "]"))
+            ((:array :pair) (cat "[" (join (nreverse (reduce v (fn (a b) (cons (val->json b) a)) #nil)) ",") "]"))
             (:string (string->json v))
             ((:symbol :keyword)  (string->json (:string v)))
             (:tree (tree->json v))
-- 
2.43.0


From 31f8d9672b15b698c07c52d919a8273e0d4c55be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 43/74] fix: arguments are compiled within their environment
 and inlined ones evaluated exactly once

---
 stdlib/compiler/backend_bytecode/compiler.nuj | 23 ++++++++++++++++---
 stdlib/compiler/frontend/macroexpander.nuj    |  2 +-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/stdlib/compiler/backend_bytecode/compiler.nuj b/stdlib/compiler/backend_bytecode/compiler.nuj
index 2e06f23..3cb4dc2 100644
--- a/stdlib/compiler/backend_bytecode/compiler.nuj
+++ b/stdlib/compiler/backend_bytecode/compiler.nuj
@@ -84,6 +84,22 @@
                     (defn bytecompile/procedure/inline? (op)
                           (:meta op :inline))
 
+                    (defn bytecompile/procedure/inline/count (form arg-name)
+                          ; How often ARG-NAME occurs within FORM
+                          (def count 0)
+                          (while (pair? form)
+                            (inc! count (bytecompile/procedure/inline/count (car form) arg-name))
+                            (cdr! form))
+                          (if (= form arg-name) (+ count 1) count))
+
+                    (defn bytecompile/procedure/inline/arg? (op args)
+                          ; Arguments that need to be evaluated can only be
+                          ; inlined when that doesn't duplicate or drop them.
+                          (if (not (pair? (car args)))
+                              (or args (nil? (:arguments op)))
+                              (= 1 (bytecompile/procedure/inline/count (:meta op :source)
+                                                                       (car (:arguments op))))))
+
                     (defn bytecompile/procedure/inline (op args env)
                           (def arg-count (:length args))
                           (when (> arg-count 1)
@@ -95,7 +111,8 @@
                               (bytecompile* form env)))
 
                     (defn bytecompile/procedure (op args env op-raw)
-                          (if (bytecompile/procedure/inline? op)
+                          (if (and (bytecompile/procedure/inline? op)
+                                   (bytecompile/procedure/inline/arg? op args))
                               (bytecompile/procedure/inline op args env)
                               (bytecompile/procedure/default op args env op-raw)))
 
@@ -108,10 +125,10 @@
                           (def arg-count (:length args))
                           (def optimized ($apply/optimized arg-count op))
                           (if optimized
-                              (list (when args (bytecompile/procedure/arg args))
+                              (list (when args (bytecompile/procedure/arg args env))
                                     optimized)
                               (list (bytecompile* op-raw env)
-                                    (when args (bytecompile/procedure/arg args))
+                                    (when args (bytecompile/procedure/arg args env))
                                     ($apply arg-count))))
 
                     (defn bytecompile/and/rec (source env label-end)
diff --git a/stdlib/compiler/frontend/macroexpander.nuj b/stdlib/compiler/frontend/macroexpander.nuj
index 4a28c53..dbc26b9 100644
--- a/stdlib/compiler/frontend/macroexpander.nuj
+++ b/stdlib/compiler/frontend/macroexpander.nuj
@@ -78,7 +78,7 @@
                                        ((fn* macro*)        (macroexpand-form source env op 4 #t #b0111))
                                        ((let* environment*) (list op (macroexpand-do (cdr source) env)))
                                        (otherwise (if (:meta op :fold)
-                                                      (macroexpand-fold op (cdr source))
+                                                      (macroexpand-fold op (cdr source) env)
                                                       (map source (fn (α) (macroexpand* α env)))))))
                                 (otherwise (map source (fn (α) (macroexpand* α env))))))))
 
-- 
2.43.0


From b8c96a65196454f1ea4c782fe45141d8adc27f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 44/74] fix: -0.0 isn't replaced by 0.0 when both occur in the
 same function

---
 stdlib/compiler/backend_bytecode/assembler.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stdlib/compiler/backend_bytecode/assembler.nuj b/stdlib/compiler/backend_bytecode/assembler.nuj
index 7bf7393..e698809 100644
--- a/stdlib/compiler/backend_bytecode/assembler.nuj
+++ b/stdlib/compiler/backend_bytecode/assembler.nuj
@@ -448,7 +448,8 @@
                  (defn assemble/add-literal (lit lit-arr)
                        (when (>= (:length lit-arr) 65535)
                          (exception :out-of-bounds "Can only store up to 255 literals per bytecode-arr" code))
-                       (when (not= (:type-name lit) :pair)
+                       (when (not (or (pair? lit)
+                                      (float? lit))) ; 0.0 and -0.0 are equal but not the same
                          (dotimes (i (:length lit-arr))
                            (when (equal? (ref lit-arr i) lit)
                              (return (literal-index->bytecode-op i)))))
-- 
2.43.0


From 8874eb02cf25a120251b75eafd8077733aecfac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 45/74] fix: code too long for its jumps is rejected instead of
 jumping elsewhere

---
 stdlib/compiler/backend_bytecode/assembler.nuj | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/compiler/backend_bytecode/assembler.nuj b/stdlib/compiler/backend_bytecode/assembler.nuj
index e698809..42cd6e8 100644
--- a/stdlib/compiler/backend_bytecode/assembler.nuj
+++ b/stdlib/compiler/backend_bytecode/assembler.nuj
@@ -427,6 +427,8 @@
                  (defn assemble/relocate-op (code sym-map pos out)
                        (def target (ref sym-map (cadr code)))
                        (def off (- (+ target (cadddr code)) pos))
+                       (when (or (< off -32768) (> off 32767))
+                         (exception :out-of-bounds "Can't jump that far" off))
                        (set! out (inc! pos) (bit-and (bit-shift-right off (caddr code)) #xFF))
                        (return pos))
 
-- 
2.43.0


From 3e42a02d7aa32ef90213e26b27196f307e8c17a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 46/74] fix: let* with a single form, empty bodies and cond
 clauses with a false literal

---
 stdlib/compiler/backend_bytecode/compiler.nuj | 2 +-
 stdlib/compiler/frontend/macroexpander.nuj    | 2 +-
 stdlib/core/flow.nuj                          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/compiler/backend_bytecode/compiler.nuj b/stdlib/compiler/backend_bytecode/compiler.nuj
index 3cb4dc2..fd72775 100644
--- a/stdlib/compiler/backend_bytecode/compiler.nuj
+++ b/stdlib/compiler/backend_bytecode/compiler.nuj
@@ -184,7 +184,7 @@
 
                     (defn bytecompile/let*  (source env)
                           (list ($let)
-                                (bytecompile/do (cadr source) env)
+                                (bytecompile* (cadr source) env)
                                 ($closure/pop)))
 
                     (defn bytecompile/return (source env)
diff --git a/stdlib/compiler/frontend/macroexpander.nuj b/stdlib/compiler/frontend/macroexpander.nuj
index dbc26b9..775eace 100644
--- a/stdlib/compiler/frontend/macroexpander.nuj
+++ b/stdlib/compiler/frontend/macroexpander.nuj
@@ -69,7 +69,7 @@
                                 (:native-function
                                  (case op
                                        (quote source)
-                                       (do                  (macroexpand-do   source env))
+                                       (do                  (macroexpand-do   (cdr source) env))
                                        (return              (macroexpand-form source env op 1 #f #b0))
                                        ((try while)         (macroexpand-form source env op 1 #t #b0))
                                        (set!                (macroexpand-set  source env))
diff --git a/stdlib/core/flow.nuj b/stdlib/core/flow.nuj
index ee9b977..0ae4dae 100644
--- a/stdlib/core/flow.nuj
+++ b/stdlib/core/flow.nuj
@@ -43,7 +43,7 @@
 
 (defn cond/fn (body)
       :internal
-      (when (and body (caar body))
+      (when body
                 (list 'if
                       (caar body)
                       (cons 'do (cdar body))
-- 
2.43.0


From d82e6f1c68c0eb48543f807651a16fb5e253045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 47/74] fix: list can be used as a function value

---
 lib/nujel-private.h | 1 +
 lib/special.c       | 7 +++++--
 lib/vm.c            | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 6352055..f49fc2f 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -458,6 +458,7 @@ void lOperationsBytecode   ();
 
 lVal lValBytecodeOp(lBytecodeOp v);
 lVal lGenericRef(lVal col, lVal key);
+lVal lListCopy(lVal v);
 lVal lGenericSet(lVal col, lVal key, lVal v);
 
 void lTypesInit();
diff --git a/lib/special.c b/lib/special.c
index 6ad65f7..a3ce838 100644
--- a/lib/special.c
+++ b/lib/special.c
@@ -26,10 +26,13 @@ lVMErrorPlaceholder(lnfEnvironment)
 lVMErrorPlaceholder(lnfBytecodeEval)
 lVMErrorPlaceholder(lnfMutableEval)
 lVMErrorPlaceholder(lnfRef)
-lVMErrorPlaceholder(lnfList)
 lVMErrorPlaceholder(lnfThrow)
 lVMErrorPlaceholder(lnfApply)
 
+static lVal lnfList(lVal args){
+	return lListCopy(args);
+}
+
 void lOperationsSpecial(){
 	lAddNativeFunc("do",              "body",                    "Evaluate body in order and returns the last result", lnfDo, 0);
 	lAddNativeFunc("let*",            "body",                    "Run BODY wihtin a new closure",  lnfLetRaw, 0);
@@ -46,7 +49,7 @@ void lOperationsSpecial(){
 	lAddNativeFunc("environment*",    "",                      "Create a new object",       lnfEnvironment, 0);
 	lAddNativeFunc("bytecode-eval*",  "(bc-arr env)",            "Evaluate BC-ARR in call closure ofENV", lnfBytecodeEval, 0);
 	lAddNativeFunc("mutable-eval*",   "(bc-arr env)",            "Evaluate BC-ARR directly in ENV", lnfMutableEval, 0);
-	lAddNativeFunc("list",            "arguments",               "Return ARGUMENTS as a list", lnfList, 0);
+	lAddNativeFuncR("list",           "arguments",               "Return ARGUMENTS as a list", lnfList, 0);
 	lAddNativeFunc("ref",             "(collection key)",        "Look up key in collection", lnfRef, NFUNC_PURE);
 	lAddNativeFunc("throw",           "(v)",                     "Throw V to the closest exception handler", lnfThrow, 0);
 	lAddNativeFunc("apply",           "(func list)",             "Evaluate FUNC with LIST as arguments",  lnfApply, NFUNC_PURE);
diff --git a/lib/vm.c b/lib/vm.c
index 85d6493..8529ebd 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -67,7 +67,7 @@ static void lBytecodeEnsureSufficientStack(lThread *ctx){
 }
 
 /* Return a copy of the list V, which has to be a pair */
-static lVal lListCopy(lVal v){
+lVal lListCopy(lVal v){
 	const lVal ret = lCons(v.vList->car, v.vList->cdr);
 	for(lPair *t = ret.vList; t->cdr.type == ltPair; t = t->cdr.vList){
 		t->cdr = lCons(t->cdr.vList->car, t->cdr.vList->cdr);
-- 
2.43.0


From 98cada8335601aeb3394853619498adb68d26435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 48/74] fix: adding and taking the remainder of #nil is the
 same as an operation and as a function

---
 lib/arithmetic.c | 8 ++++++--
 lib/vm.c         | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index a91b15c..7292fda 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -8,9 +8,13 @@ static lVal lValExceptionFloat(lVal v){
 	return lValException(lSymTypeError, "This function can only be used with floats",v);
 }
 
+static lVal lNumberOrException(lVal v){
+	return ((v.type == ltInt) || (v.type == ltFloat)) ? v : lValExceptionNonNumeric(v);
+}
+
 static lVal lnfAdd(lVal a, lVal b){
 	if(unlikely(a.type == ltNil)){return lValInt(0);}
-	if(unlikely(b.type == ltNil)){return a;}
+	if(unlikely(b.type == ltNil)){return lNumberOrException(a);}
 	lType t = lTypecast(a.type, b.type);
 	switch(t){
 	default:
@@ -117,7 +121,7 @@ static lVal lnfDiv(lVal a, lVal b){
 
 static lVal lnfRem(lVal a, lVal b){
 	if(unlikely(a.type == ltNil)){return b;}
-	if(unlikely(b.type == ltNil)){return a;}
+	if(unlikely(b.type == ltNil)){return lNumberOrException(a);}
 	lType t = lTypecast(a.type, b.type);
 	switch(t){
 		default:
diff --git a/lib/vm.c b/lib/vm.c
index 8529ebd..949fd78 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -402,6 +402,8 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(unlikely(a.type != ltNil)){
 			lThrow(lValExceptionNonNumeric(b));
+		} else {
+			ctx.valueStack[ctx.sp] = b;
 		}
 		vmbreak; }
 
-- 
2.43.0


From fe26b6445b8e54f118c97279b62cf7c345b6b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 49/74] Hooks for exploring the points where garbage collection
 happens, guarded by NUJEL_VERIFY

---
 lib/allocator.c          |  1 +
 lib/core-operators.c     |  1 +
 lib/garbage-collection.c |  1 +
 lib/nujel-private.h      | 14 ++++++++++++++
 lib/vm.c                 |  1 +
 5 files changed, 18 insertions(+)

diff --git a/lib/allocator.c b/lib/allocator.c
index 688a0df..ebea4e0 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -23,6 +23,7 @@ T * T##AllocRaw (){\
 		}\
 	}else{\
 		ret = T ## FFree;\
+		lVerifyAllocated(ret, sizeof(T));\
 		(T##FFree) = ret->nextFree;\
 	}\
 	if(unlikely(++T##Active > T##GCThreshold)){lGCShouldRunSoon = true;} \
diff --git a/lib/core-operators.c b/lib/core-operators.c
index 738a09b..d13f1f7 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -216,6 +216,7 @@ void lInit(){
 	lOperationsTree();
 	lOperationsBytecode();
 	lOperationsString();
+	lVerifyInit();
 }
 
 void lOperationsCore(){
diff --git a/lib/garbage-collection.c b/lib/garbage-collection.c
index ecda5e5..bd0dad5 100644
--- a/lib/garbage-collection.c
+++ b/lib/garbage-collection.c
@@ -246,6 +246,7 @@ static void lGCSweep(){
 	for(uint i=0;i < T##Max;i++){\
 		if(T##MarkMap[i] == 0) {\
 			T##Free(&T##List[i]);\
+			lVerifyFreed(&T##List[i], sizeof(T##List[i]));\
 		}\
 		T##MarkMap[i] = T##MarkMap[i]&2;\
 	}
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index f49fc2f..47ad5c6 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -320,6 +320,20 @@ extern bool lGCShouldRunSoon;
 
 void lGarbageCollect(lThread *ctx);
 
+/* Hooks for exploring every point where a garbage collection may happen, the
+ * implementation is supplied by whoever defines NUJEL_VERIFY */
+#ifdef NUJEL_VERIFY
+void lVerifyInit();
+void lVerifySafepoint(lThread *ctx);
+void lVerifyAllocated(void *cell, size_t size);
+void lVerifyFreed(void *cell, size_t size);
+#else
+#define lVerifyInit()
+#define lVerifySafepoint(ctx)
+#define lVerifyAllocated(cell, size)
+#define lVerifyFreed(cell, size)
+#endif
+
 /*\
  | Allocator related definitions
 \*/
diff --git a/lib/vm.c b/lib/vm.c
index 949fd78..bfb672f 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -111,6 +111,7 @@ static inline lClosure *funCallClosure(lVal lambda) {
 } while (0)
 
 #define lGarbageCollectIfNecessary() do {\
+	lVerifySafepoint(&ctx);\
 	if(unlikely(lGCShouldRunSoon)){\
 		lGarbageCollect(&ctx);\
 	}\
-- 
2.43.0


From 13f5f653b205f8b6aefa97732915d2717d03fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:19 +0000
Subject: [PATCH 50/74] fix: heights in trees are right after rotating to the
 right

---
 lib/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tree.c b/lib/tree.c
index a9a5cca..5e61b84 100644
--- a/lib/tree.c
+++ b/lib/tree.c
@@ -56,8 +56,8 @@ static lTree *lTreeRotateRight(lTree *y){
 	x->right = y;
 	y->left = T2;
 
-	x->height = lTreeCalcHeight(x);
 	y->height = lTreeCalcHeight(y);
+	x->height = lTreeCalcHeight(x);
 
 	return x;
 }
-- 
2.43.0


From 710bbc0440e02f1d87576e7404177ef7e07c5dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 51/74] fix: closed files can be written like every other value

---
 stdlib/string/printer.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/string/printer.nuj b/stdlib/string/printer.nuj
index d9b88f2..9e380b4 100644
--- a/stdlib/string/printer.nuj
+++ b/stdlib/string/printer.nuj
@@ -132,7 +132,7 @@
                              (:nil             (when-not hr? (:block-write port "#nil")))
                              (:bool            (:block-write port (if v "#t" "#f")))
                              (:environment     (:write port "#<environment " (int->string/hex (val->id v)) ">"))
-                             (:file-handle     (:write port "#<file-handle " (int->string/hex (val->id v)) ">"))
+                             (:file-handle     (:write port "#<file-handle " (if (neg? (val->id v)) "closed" (int->string/hex (val->id v))) ">"))
                              (:buffer-view     (:write port "#<buffer-view " (int->string/hex (val->id v)) ">"))
                              ((:lambda :macro :native-function) (:block-write port (:string (or (closure/name v) 'anonymous))))
                              (:int             (:block-write port (int->string/decimal v)))
-- 
2.43.0


From 100f7ef7c25e817fc1eaca63760f5fc886aab268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 52/74] fix: serializing values too big for the offsets of an
 image throws

---
 lib/imageWriter.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index d4ac417..3a255d0 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -42,7 +42,17 @@ static void writeMapSet(writeImageMap *map, void *key, i32 val){
 	map->len++;
 }
 
-static void ctxRealloc(writeImageContext *ctx, i32 eleSize){
+/* Offsets only have 24 bits, with the highest one standing for a missing value */
+#define IMAGE_MAX_SIZE ((1<<24)-1)
+
+/* Make room for eleSize bytes, returns false if the image would get too big */
+static bool ctxRealloc(writeImageContext *ctx, i64 eleSize){
+	if(unlikely((ctx->curOff + eleSize) > IMAGE_MAX_SIZE)){
+		ctx->failed = true;
+	}
+	if(unlikely(ctx->failed)){
+		return false;
+	}
 	if((ctx->size - ctx->curOff) <= eleSize){
 		ctx->size += eleSize;
 		if(ctx->size & 0xFF){
@@ -50,6 +60,7 @@ static void ctxRealloc(writeImageContext *ctx, i32 eleSize){
 		}
 		ctx->start = realloc(ctx->start, ctx->size);
 	}
+	return true;
 }
 
 static i32 ctxAddSymbol(writeImageContext *ctx, const lSymbol *v){
@@ -59,7 +70,7 @@ static i32 ctxAddSymbol(writeImageContext *ctx, const lSymbol *v){
 
 	const i32 strLen = strnlen(v->c, sizeof(v->c));
 	const i32 eleSize = strLen+1;
-	ctxRealloc(ctx, eleSize);
+	if(unlikely(!ctxRealloc(ctx, eleSize))){return -1;}
 
 
 	const i32 curOff = ctx->curOff;
@@ -96,7 +107,7 @@ static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
 
 	const int len = lTreeSize(v);
 	const i32 eleSize = 2 + (6*len);
-	ctxRealloc(ctx, eleSize);
+	if(unlikely(!ctxRealloc(ctx, eleSize))){return -1;}
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -111,8 +122,8 @@ static i32 ctxAddArray(writeImageContext *ctx, lArray *v){
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
 
-	const i32 eleSize = 4 + (4 * v->length);
-	ctxRealloc(ctx, eleSize);
+	const i64 eleSize = 4 + (4 * (i64)v->length);
+	if(unlikely(!ctxRealloc(ctx, eleSize))){return -1;}
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -136,7 +147,7 @@ static i32 ctxAddBytecodeArray(writeImageContext *ctx, lBytecodeArray *v){
 
 	int len = v->dataEnd - v->data;
 	i32 eleSize = 8 + len;
-	ctxRealloc(ctx, eleSize);
+	if(unlikely(!ctxRealloc(ctx, eleSize))){return -1;}
 
 	i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -157,7 +168,7 @@ static i32 ctxAddClosure(writeImageContext *ctx, lClosure *v){
 	if(mapOff > 0){ return mapOff; }
 
 	const i32 eleSize = sizeof(lImageClosure);
-	ctxRealloc(ctx, eleSize);
+	if(unlikely(!ctxRealloc(ctx, eleSize))){return -1;}
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -187,8 +198,8 @@ static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
 
-	const i32 eleSize = 4 + v->length;
-	ctxRealloc(ctx, eleSize);
+	const i64 eleSize = 4 + (i64)v->length;
+	if(unlikely(!ctxRealloc(ctx, eleSize))){return -1;}
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -206,7 +217,7 @@ static i32 ctxAddBufferView(writeImageContext *ctx, lBufferView *v){
 	if(mapOff > 0){ return mapOff; }
 
 	const i32 eleSize = sizeof(lImageBufferView);
-	ctxRealloc(ctx, eleSize);
+	if(unlikely(!ctxRealloc(ctx, eleSize))){return -1;}
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -228,7 +239,7 @@ static i32 ctxAddPair(writeImageContext *ctx, lPair *v){
 	if(mapOff > 0){ return mapOff; }
 
 	const i32 eleSize = 8;
-	ctxRealloc(ctx, eleSize);
+	if(unlikely(!ctxRealloc(ctx, eleSize))){return -1;}
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -261,7 +272,7 @@ static u8 ctxAddFilehandle(writeImageContext *ctx, FILE *fh){
 }
 
 static i32 ctxAddVal(writeImageContext *ctx, lVal v){
-	ctxRealloc(ctx, 16);
+	if(unlikely(!ctxRealloc(ctx, 16))){return -1;}
 
 	const i32 curOff = ctx->curOff;
 	u8 *outb = (u8 *)((void *)&ctx->start[curOff]);
-- 
2.43.0


From 44c4ee41be6b399f14bb58604e16f4431819eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 53/74] fix: deserializing a damaged image throws instead of
 reading beyond it

---
 lib/imageReader.c | 157 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 120 insertions(+), 37 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 969b238..b1816ca 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -5,56 +5,79 @@
 #include "nujel-private.h"
 #endif
 
+#include <limits.h>
+
 typedef struct {
 	i32 imgSize;
 	i32 len;
 	i32 size;
 	i32 *key;
+	lImageType *type;
 	void **val;
+	bool failed;
 } readImageMap;
 
 static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticImage);
 
-static void *readMapGet(readImageMap *map, i32 key){
+/* Nothing outside of the image may be read, no matter what its offsets say */
+static bool inImage(readImageMap *map, i32 off, i64 size){
+	if(unlikely((off < 0) || (size < 0) || ((off + size) > map->imgSize))){
+		map->failed = true;
+	}
+	return !map->failed;
+}
+
+static void *readMapGet(readImageMap *map, i32 key, lImageType type){
 	for(int i=0;i<map->len;i++){
 		if(map->key[i] == key){
+			if(unlikely(map->type[i] != type)){
+				map->failed = true;
+				return NULL;
+			}
 			return map->val[i];
 		}
 	}
 	return NULL;
 }
 
-static void readMapSet(readImageMap *map, i32 key, void *val){
+static void readMapSet(readImageMap *map, i32 key, lImageType type, void *val){
 	if(map->len+1 >= map->size){
 		map->size += 32;
 		map->key = realloc(map->key, map->size * sizeof(i32));
+		map->type = realloc(map->type, map->size * sizeof(lImageType));
 		map->val = realloc(map->val, map->size * sizeof(void *));
 	}
 	map->key[map->len] = key;
+	map->type[map->len] = type;
 	map->val[map->len] = val;
 	map->len++;
 }
 
 static const lSymbol *readSymbol(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	(void)staticImage;
-	(void)map;
 	if(off < 0){return NULL;}
+	if(unlikely(!inImage(map, off, 1) || (memchr(&img->data[off], 0, map->imgSize - off) == NULL))){
+		map->failed = true;
+		return NULL;
+	}
 	return lSymS((const char *)&img->data[off]);
 }
 
 static lArray *readArray(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litArray);
 	if(mapP != NULL){ return (lArray *)mapP; }
+	if(unlikely(!inImage(map, off, 4))){return NULL;}
 
 	const i32 *in = (i32 *)((void *)&img->data[off]);
 	const u32 raw = in[0];
 	const i32 len = raw & 0x0FFFFFFF;
 	const u8 flags = raw >> 28;
+	if(unlikely(!inImage(map, off, 4 + (4 * (i64)len)))){return NULL;}
 	lArray *out = lArrayAlloc(len);
 	out->flags = flags;
-	readMapSet(map, off, out);
+	readMapSet(map, off, litArray, out);
 
 	out->flags = flags;
 	in++;
@@ -68,12 +91,17 @@ static lArray *readArray(readImageMap *map, const lImage *img, i32 off, bool sta
 static lBytecodeArray *readBytecodeArray(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litBytecodeArr);
 	if(mapP != NULL){ return (lBytecodeArray *)mapP; }
+	if(unlikely(!inImage(map, off, 8))){return NULL;}
 	const i32 *in = (i32 *)((void *)&img->data[off]);
 	const i32 len = *in++;
+	if(unlikely((len < 0) || !inImage(map, off, 8 + (i64)len))){
+		map->failed = true;
+		return NULL;
+	}
 	lBytecodeArray *ret = lBytecodeArrayAllocRaw();
-	readMapSet(map, off, ret);
+	readMapSet(map, off, litBytecodeArr, ret);
 	ret->literals = readArray(map, img, *in++, staticImage);
 	if(staticImage){
 		ret->data = (void *)in;
@@ -86,12 +114,13 @@ static lBytecodeArray *readBytecodeArray(readImageMap *map, const lImage *img, i
 }
 
 static lPair *readPair(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litPair);
 	if(mapP != NULL){ return (lPair *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
+	if(unlikely(!inImage(map, off, 6))){return NULL;}
 	lPair *ret = lPairAllocRaw();
-	readMapSet(map, off, ret);
+	readMapSet(map, off, litPair, ret);
 	const i32 car = img->data[off  ] | (img->data[off+1]<<8) | (img->data[off+2]<<16);
 	const i32 cdr = img->data[off+3] | (img->data[off+4]<<8) | (img->data[off+5]<<16);
 	ret->car = car < ((1<<24)-1) ? readVal(map, img, car, staticImage) : NIL;
@@ -100,18 +129,20 @@ static lPair *readPair(readImageMap *map, const lImage *img, i32 off, bool stati
 }
 
 static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litBuffer);
 	if(mapP != NULL){ return (lBuffer *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
+	if(unlikely(!inImage(map, off, 4))){return NULL;}
 	const u32 raw = *(u32 *)((void *)&img->data[off]);
 	const u32 len = raw & 0x0FFFFFFF;
+	if(unlikely(!inImage(map, off, 4 + (i64)len))){return NULL;}
 	const bool immutable = (raw >> 28) & BUFFER_IMMUTABLE;
 	void *data = (void *)&img->data[off+4];
 	lBuffer *buf = lBufferAllocRaw();
 	buf->length = len;
 	buf->flags = immutable ? BUFFER_IMMUTABLE : 0;
-	readMapSet(map, off, buf);
+	readMapSet(map, off, litBuffer, buf);
 	if(staticImage && immutable){
 		buf->buf = data;
 		buf->flags |= BUFFER_STATIC;
@@ -123,14 +154,21 @@ static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool s
 }
 
 static lBufferView *readBufferView(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litBufferView);
 	if(mapP != NULL){ return (lBufferView *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
+	if(unlikely(!inImage(map, off, sizeof(lImageBufferView)))){return NULL;}
 	lImageBufferView *imgBuf = (lImageBufferView *)((void *)&img->data[off]);
 	lBuffer *buf = readBuffer(map, img, imgBuf->buffer, staticImage);
+	if(unlikely((buf == NULL) || (imgBuf->type == lbvtUndefined) || (imgBuf->type > lbvtF64)
+	   || (imgBuf->offset < 0) || (imgBuf->length < 0)
+	   || ((((i64)imgBuf->offset + imgBuf->length) * lBufferViewTypeSize(imgBuf->type)) > buf->length))){
+		map->failed = true;
+		return NULL;
+	}
 	lBufferView *view = lBufferViewAllocRaw();
-	readMapSet(map, off, view);
+	readMapSet(map, off, litBufferView, view);
 	view->buf = buf;
 	view->offset = imgBuf->offset;
 	view->length = imgBuf->length;
@@ -140,13 +178,15 @@ static lBufferView *readBufferView(readImageMap *map, const lImage *img, i32 off
 }
 
 static lTreeRoot *readTreeRoot(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litTree);
 	if(mapP != NULL){ return (lTreeRoot *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
+	if(unlikely(!inImage(map, off, 2))){return NULL;}
 	const i32 len = img->data[off] | (img->data[off+1]<<8);
+	if(unlikely(!inImage(map, off, 2 + (6 * len)))){return NULL;}
 	lTreeRoot *root = lTreeRootAllocRaw();
-	readMapSet(map, off, root);
+	readMapSet(map, off, litTree, root);
 	off += 2;
 	for(int i=0;i<len;i++){
 		const i32 sym = img->data[off+0] | (img->data[off+1] << 8) | (img->data[off+2] << 16);
@@ -168,7 +208,6 @@ static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool stati
 }
 
 static lNFunc *readNFunc(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	(void)map;
 	if(off < 0){return NULL;}
 	const lSymbol *sym = readSymbol(map, img, off, staticImage);
 	for(uint i=0;i<lNFuncMax;i++){
@@ -182,7 +221,6 @@ static lNFunc *readNFunc(readImageMap *map, const lImage *img, i32 off, bool sta
 }
 
 static lClass *readType(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	(void)map;
 	const lSymbol *sym = readSymbol(map, img, off, staticImage);
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
@@ -197,13 +235,14 @@ static lClass *readType(readImageMap *map, const lImage *img, i32 off, bool stat
 }
 
 static lClosure *readClosure(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litEnvironment);
 	if(mapP != NULL){ return (lClosure *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
+	if(unlikely(!inImage(map, off, sizeof(lImageClosure)))){return NULL;}
 	lImageClosure *clo = (lImageClosure *)((void *)&img->data[off]);
 	lClosure *ret = lClosureAllocRaw();
-	readMapSet(map, off, ret);
+	readMapSet(map, off, litEnvironment, ret);
 
 	ret->args = readVal(map, img, clo->args, staticImage);
 	ret->data = readTree(map, img, clo->data, staticImage);
@@ -213,6 +252,10 @@ static lClosure *readClosure(readImageMap *map, const lImage *img, i32 off, bool
 	ret->text = readBytecodeArray(map, img, clo->text, staticImage);
 	ret->type = clo->type;
 	if(ret->text != NULL){
+		if(unlikely((clo->ip < 0) || (clo->ip > (ret->text->dataEnd - ret->text->data)))){
+			map->failed = true;
+			return ret;
+		}
 		ret->ip = &ret->text->data[clo->ip];
 	} else {
 		ret->ip = NULL;
@@ -221,10 +264,43 @@ static lClosure *readClosure(readImageMap *map, const lImage *img, i32 off, bool
 	return ret;
 }
 
+/* How many bytes follow the type of a value */
+static int valueSize(lImageType T){
+	switch(T){
+	case litNil:
+	case litTrue:
+	case litFalse:
+		return 0;
+	case litInt8:
+	case litFileHandle:
+		return 1;
+	case litInt16:
+		return 2;
+	case litInt32:
+		return 4;
+	case litInt64:
+	case litFloat:
+		return 8;
+	default:
+		return 3;
+	}
+}
+
+static lVal readFailed(readImageMap *map){
+	map->failed = true;
+	return NIL;
+}
+
+static lVal readObject(readImageMap *map, lType T, void *p){
+	return unlikely(p == NULL) ? readFailed(map) : lValAlloc(T, p);
+}
+
 static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	if(off < 0){return NIL;}
+	if(unlikely(!inImage(map, off, 1))){return NIL;}
 
 	const lImageType T = img->data[off++];
+	if(unlikely(!inImage(map, off, valueSize(T)))){return NIL;}
 	switch(T){
 	case litFileHandle:
 		switch(img->data[off]){
@@ -235,7 +311,7 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 		case 2:
 			return lValFileHandle(stderr);
 		default:
-			return lValException(lSymReadError, "Can't serialize file handles other than stdin, stdout or stderr", NIL);
+			return readFailed(map);
 		}
 	case litNil:
 		return NIL;
@@ -249,7 +325,8 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 		return lValInt(*(i8 *)((void *)&img->data[off]));
 	case litFloat: {
 		const double *fword = (double *)((void *)&img->data[off]);
-		return lValFloat(*fword);
+		const lVal ret = lValFloat(*fword);
+		return ret.type == ltException ? readFailed(map) : ret;
 	}
 	case litFalse:
 		return lValBool(false);
@@ -262,38 +339,38 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 	const i32 tbyte = img->data[off] | (img->data[off+1] << 8) | (img->data[off+2] << 16);
 	switch(T){
 	default:
-		return lValException(lSymReadError, "Can't have rootValues of that Type", NIL);
+		return readFailed(map);
 	case litNativeFunc:
-		return lValAlloc(ltNativeFunc, readNFunc(map, img, tbyte, staticImage));
+		return readObject(map, ltNativeFunc, readNFunc(map, img, tbyte, staticImage));
 	case litType:
-		return lValAlloc(ltType, readType(map, img, tbyte, staticImage));
+		return readObject(map, ltType, readType(map, img, tbyte, staticImage));
 	case litBytecodeArr:
-		return lValAlloc(ltBytecodeArr, readBytecodeArray(map, img, tbyte, staticImage));
+		return readObject(map, ltBytecodeArr, readBytecodeArray(map, img, tbyte, staticImage));
 	case litTree:
 	{
 		lTreeRoot *root = readTreeRoot(map, img, tbyte, staticImage);
 		return root == NULL ? lValTree(NULL) : lValAlloc(ltTree, root);
 	}
 	case litArray:
-		return lValAlloc(ltArray, readArray(map, img, tbyte, staticImage));
+		return readObject(map, ltArray, readArray(map, img, tbyte, staticImage));
 	case litPair:
-		return lValAlloc(ltPair, readPair(map, img, tbyte, staticImage));
+		return readObject(map, ltPair, readPair(map, img, tbyte, staticImage));
 	case litBufferView:
-		return lValAlloc(ltBufferView, readBufferView(map, img, tbyte, staticImage));
+		return readObject(map, ltBufferView, readBufferView(map, img, tbyte, staticImage));
 	case litLambda:
-		return lValAlloc(ltLambda, readClosure(map, img, tbyte, staticImage));
+		return readObject(map, ltLambda, readClosure(map, img, tbyte, staticImage));
 	case litMacro:
-		return lValAlloc(ltMacro, readClosure(map, img, tbyte, staticImage));
+		return readObject(map, ltMacro, readClosure(map, img, tbyte, staticImage));
 	case litEnvironment:
-		return lValAlloc(ltEnvironment, readClosure(map, img, tbyte, staticImage));
+		return readObject(map, ltEnvironment, readClosure(map, img, tbyte, staticImage));
 	case litString:
-		return lValAlloc(ltString, readBuffer(map, img, tbyte, staticImage));
+		return readObject(map, ltString, readBuffer(map, img, tbyte, staticImage));
 	case litBuffer:
-		return lValAlloc(ltBuffer, readBuffer(map, img, tbyte, staticImage));
+		return readObject(map, ltBuffer, readBuffer(map, img, tbyte, staticImage));
 	case litSymbol:
-		return lValAlloc(ltSymbol, (void *)readSymbol(map, img, tbyte, staticImage));
+		return readObject(map, ltSymbol, (void *)readSymbol(map, img, tbyte, staticImage));
 	case litKeyword:
-		return lValAlloc(ltKeyword, (void *)readSymbol(map, img, tbyte, staticImage));
+		return readObject(map, ltKeyword, (void *)readSymbol(map, img, tbyte, staticImage));
 	}
 	return NIL;
 }
@@ -303,7 +380,9 @@ lVal readImage(const void *ptr, size_t imgSize, bool staticImage){
 	if(unlikely(img == NULL)){
 		return lValExceptionSimple();
 	}
-	if(unlikely((img->magic[0] != 'N')
+	if(unlikely((imgSize < sizeof(img->magic))
+	   || (imgSize > INT_MAX)
+	   || (img->magic[0] != 'N')
 	   || (img->magic[1] != 'u')
 	   || (img->magic[2] != 'j')
 	   || (img->magic[3] != 'I'))){
@@ -311,11 +390,15 @@ lVal readImage(const void *ptr, size_t imgSize, bool staticImage){
 	}
 	readImageMap map;
 	memset(&map, 0, sizeof(map));
-	map.imgSize = imgSize-4;
+	map.imgSize = imgSize - sizeof(img->magic);
 
 	lVal ret = readVal(&map, img, 0, staticImage);
 	free(map.key);
+	free(map.type);
 	free(map.val);
+	if(unlikely(map.failed)){
+		return lValException(lSymReadError, "Damaged Nujel Image", NIL);
+	}
 	return ret;
 }
 
-- 
2.43.0


From fdf66724a9e50d4f48616c69145724f283c42231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 54/74] fix: reading or copying a file that doesn't exist
 returns #nil

---
 binlib/io.nuj | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index af2f41a..b2058fd 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -5,7 +5,8 @@
 
 (defn file/copy (source-path destination-path)
       "Copy a file from SOURCE-PATH to DESTINATION-PATH"
-      (spit destination-path (slurp source-path)))
+      (def content (slurp/buffer source-path))
+      (and content (spit destination-path content)))
 
 (defn file/read (path)
       "Read in a file using the Nujel reader"
@@ -80,7 +81,8 @@
 
 (defn slurp (pathname)
       "Read the entirety of PATHNAME and return it as a string if possible, otherwise return #nil."
-      (buffer->string (slurp/buffer pathname)))
+      (def content (slurp/buffer pathname))
+      (and content (buffer->string content)))
 (def file/read slurp)
 
 (defn spit (pathname content)
-- 
2.43.0


From 09afacd748237aab96029000f321f7635c9e2509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 55/74] fix: environment entries without a value are skipped

---
 bin/environment.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/environment.c b/bin/environment.c
index 890161d..4b6dcc7 100644
--- a/bin/environment.c
+++ b/bin/environment.c
@@ -11,7 +11,9 @@
 /* Add environment key/value pair to tree T */
 static lTree *addVar(const char *e, lTree *t){
 	int endOfKey, endOfString;
-	for(endOfKey=0;e[endOfKey] != '=';endOfKey++){}
+	for(endOfKey=0;e[endOfKey] != '=';endOfKey++){
+		if(e[endOfKey] == 0){return t;}
+	}
 	for(endOfString=endOfKey+1;e[endOfString];endOfString++){}
 	lSymbol *sym = lSymSL(e,endOfKey);
 	lVal v = lValString(&e[endOfKey+1]);
-- 
2.43.0


From 5f1294698622c574ccb902c572d723ef3e6df322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 56/74] fix: commands ended by a signal aren't reported as
 successful

---
 bin/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/io.c b/bin/io.c
index 1005330..6cd4cd9 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -192,7 +192,7 @@ static lVal lnfPopen(lVal aCommand){
 	const int exitCode = pclose(child);
 	#else
 	const int exitStatus = pclose(child);
-	const int exitCode = WEXITSTATUS(exitStatus);
+	const int exitCode = WIFSIGNALED(exitStatus) ? 128 + WTERMSIG(exitStatus) : WEXITSTATUS(exitStatus);
 	#endif
 
 	buf = realloc(buf,len+1);
-- 
2.43.0


From e71b786be575dc582463c60f9c694790a03b5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 57/74] fix: connecting to a socket tries the next address when
 one fails

---
 bin/net.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bin/net.c b/bin/net.c
index 2f6b7cb..58e8056 100644
--- a/bin/net.c
+++ b/bin/net.c
@@ -34,8 +34,7 @@ static lVal lnfSocketConect(lVal host, lVal port){
 	if(errcode != 0){
 		return NIL;
 	}
-	res = result;
-	while (res){
+	for(res = result; res; res = res->ai_next){
 		if(res->ai_family == AF_INET){
 			((struct sockaddr_in*)((void *)res->ai_addr))->sin_port = htons(port.vInt);
 		} else if(res->ai_family == AF_INET6){
@@ -57,7 +56,7 @@ static lVal lnfSocketConect(lVal host, lVal port){
 			}
 			return lValFileHandle(fh);
 		}
-		res = res->ai_next;
+		close(fd);
 	}
 
 	freeaddrinfo(result);
-- 
2.43.0


From f5340fceb2f33a9443199229bf49b4435429762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 58/74] fix: running a program that can't be loaded is an error

---
 binlib/io.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index b2058fd..532e2e9 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -26,7 +26,7 @@
        (def mod-name (module/resolve-string (cat (path/without-extension path)) (cwd)))
        (def mod (module/load mod-name))
        (when-not (= :environment (:type-name mod))
-                 (return mod))
+                 (exception :import-error "Can't load that file as a module" path))
        (def exports (ref mod :exports))
        (when-not exports (exception (fmt "Couldn't load {path} as a module since it has no exports")))
        (when (:has? exports :main)
-- 
2.43.0


From 36c0bade3620428106d24109908cba6e477e3c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 59/74] fix: the trace of exceptions naming a function is
 printed

---
 stdlib/meta.nuj | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stdlib/meta.nuj b/stdlib/meta.nuj
index 1b8c4a2..36e7ddd 100644
--- a/stdlib/meta.nuj
+++ b/stdlib/meta.nuj
@@ -32,8 +32,9 @@
                               (case i
                                     (0 v)
                                     (2 (string/write v))
-                                    (3 (print/stacktrace v))
-                                    (otherwise (:string v)))))
+                                    (otherwise (if (or (nil? v) (pair? v))
+                                                   (print/stacktrace v)
+                                                   (:string v))))))
 
                    (defn print/error/iter (error i)
                          (if error
-- 
2.43.0


From 148c3dad36d254799518f937316ee393e4019d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 60/74] fix: the status of a program whose output can't be
 written isn't success

---
 bin/main.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bin/main.c b/bin/main.c
index 47a0c35..44e8fc3 100644
--- a/bin/main.c
+++ b/bin/main.c
@@ -66,6 +66,5 @@ int main(int argc, char *argv[]){
 	initBinNativeFuncs();
 	setIOSymbols();
 
-	initNujel(argc,argv);
-	return 0;
+	return initNujel(argc,argv).type == ltException;
 }
-- 
2.43.0


From 939c2d0436754b0284d04f194c2244033fe55c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 61/74] fix: the function an exception names is printed

---
 stdlib/meta.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/meta.nuj b/stdlib/meta.nuj
index 36e7ddd..5447653 100644
--- a/stdlib/meta.nuj
+++ b/stdlib/meta.nuj
@@ -34,7 +34,7 @@
                                     (2 (string/write v))
                                     (otherwise (if (or (nil? v) (pair? v))
                                                    (print/stacktrace v)
-                                                   (:string v))))))
+                                                   (string/display v))))))
 
                    (defn print/error/iter (error i)
                          (if error
-- 
2.43.0


From c3edf7b4917cbe8c25a3df0d62e3e0a5f791571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 62/74] fix: values other than trees are no prototypes, their
 methods need their own type

---
 lib/type-system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index c9283be..be207e7 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -237,7 +237,8 @@ lVal lMethodLookup(const lSymbol *method, lVal self){
 			return v;
 		}
 		lVal proto = lTreeRef(self.vTree->root, lSymPrototype);
-		if(proto.type != ltException){
+		// Methods of other types rely on SELF being of their type
+		if(proto.type == ltTree){
 			return lMethodLookup(method, proto);
 		}
 	}
-- 
2.43.0


From cf0b055fc9c8f8665b8d18d82236dd26cebf50c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 63/74] fix: looking up a method in objects whose prototypes
 form a cycle ends

---
 lib/type-system.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index be207e7..ac5d581 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -232,14 +232,18 @@ lVal lMethodLookup(const lSymbol *method, lVal self){
 		lValException(lSymVMError, "Out-of-bounds Type", self);
 	}
 	if(self.type == ltTree){
-		lVal v = lTreeRef(self.vTree->root, method);
-		if(v.type != ltException){
-			return v;
-		}
-		lVal proto = lTreeRef(self.vTree->root, lSymPrototype);
-		// Methods of other types rely on SELF being of their type
-		if(proto.type == ltTree){
-			return lMethodLookup(method, proto);
+		lVal cur = self;
+		// A chain that is longer than the amount of trees there can be is a cycle
+		for(uint i=0; i < TRR_MAX; i++){
+			lVal v = lTreeRef(cur.vTree->root, method);
+			if(v.type != ltException){
+				return v;
+			}
+			// Methods of other types rely on SELF being of their type
+			cur = lTreeRef(cur.vTree->root, lSymPrototype);
+			if(cur.type != ltTree){
+				break;
+			}
 		}
 	}
 	if(self.type == ltType){
-- 
2.43.0


From 999e601b5c0fb40b88dca7f16252cd43841a4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 64/74] fix: scopes without code of their own return #nil as
 their code

---
 lib/type-system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index ac5d581..c719de1 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -141,7 +141,8 @@ static lVal lnmLambdaData(lVal self){
 }
 
 static lVal lnmLambdaCode(lVal self){
-	return lValAlloc(ltBytecodeArr, self.vClosure->text);
+	lBytecodeArray *code = self.vClosure->text;
+	return code == NULL ? NIL : lValAlloc(ltBytecodeArr, code);
 }
 
 static lVal lnmLambdaArguments(lVal self){
-- 
2.43.0


From 18c0405ee40e53e3f66d10d15eb9792668239f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 65/74] fix: list can be applied to no arguments

---
 lib/special.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/special.c b/lib/special.c
index a3ce838..59b793c 100644
--- a/lib/special.c
+++ b/lib/special.c
@@ -30,7 +30,7 @@ lVMErrorPlaceholder(lnfThrow)
 lVMErrorPlaceholder(lnfApply)
 
 static lVal lnfList(lVal args){
-	return lListCopy(args);
+	return args.type == ltPair ? lListCopy(args) : NIL;
 }
 
 void lOperationsSpecial(){
-- 
2.43.0


From ee9422e52b5f8a0bc5c410c183768e13018185a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 66/74] fix: the precision of a format isn't its width or
 padding as well

---
 stdlib/string/fmt.nuj | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stdlib/string/fmt.nuj b/stdlib/string/fmt.nuj
index b8212e7..eb8eee6 100644
--- a/stdlib/string/fmt.nuj
+++ b/stdlib/string/fmt.nuj
@@ -47,8 +47,10 @@
                                                 (:cut spec 0 (- (:length spec) 1))))
                            (#\> (fmt/parse-spec (set! opts :align :right)
                                                 (:cut spec 0 (- (:length spec) 1))))
-                           (#\. (fmt/parse-spec (set! opts :precision (ref opts :width))
-                                                (:cut spec 0 (- (:length spec) 1))))
+                           (#\. (set! opts :precision (ref opts :width))
+                                (set! opts :width #nil)
+                                (set! opts :padding-char " ")
+                                (fmt/parse-spec opts (:cut spec 0 (- (:length spec) 1))))
                            (otherwise (exception :format-error "Unknown form-spec option" spec)))))
 
            (defn fmt/debug (opts)
-- 
2.43.0


From 330f03c68ecff2ae0bff56b10bd2ab6ea417ccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 67/74] fix: relative module names with several parent
 directories in a row

---
 stdlib/core/module.nuj | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/stdlib/core/module.nuj b/stdlib/core/module.nuj
index d189c2e..e030747 100644
--- a/stdlib/core/module.nuj
+++ b/stdlib/core/module.nuj
@@ -62,22 +62,26 @@
       :internal
       (set! module/cache name module))
 
-(defn module/resolve-string/join (parts ret)
+(defn module/resolve-string/join (parts ret up)
       :internal
-      (cond ((not parts) ret)
+      ;; PARTS start with the last one, UP is how many directories to leave out
+      (cond ((not parts)
+             (when (> up 0)
+               (exception "Invalid path" ret))
+             ret)
             ((or (= "" (car parts))
                  (= "." (car parts)))
-             (module/resolve-string/join (cdr parts) ret))
+             (module/resolve-string/join (cdr parts) ret up))
             ((= ".." (car parts))
-             (when-not (cadr parts)
-                       (exception "Invalid path" parts))
-             (module/resolve-string/join (cddr parts) ret))
-            (otherwise (module/resolve-string/join (cdr parts) (cons (car parts) ret)))))
+             (module/resolve-string/join (cdr parts) ret (+ up 1)))
+            ((> up 0)
+             (module/resolve-string/join (cdr parts) ret (- up 1)))
+            (otherwise (module/resolve-string/join (cdr parts) (cons (car parts) ret) up))))
 
 (defn module/resolve-string (name wd)
       :internal
       (def mod-path wd)
-      (def parts (module/resolve-string/join (nreverse (append (split mod-path "/") (split name "/"))) #nil))
+      (def parts (module/resolve-string/join (nreverse (append (split mod-path "/") (split name "/"))) #nil 0))
       (:keyword (join (cons "" parts) "/"))) ; The cons is for the leading /
 
 (defn module/load (name env)
-- 
2.43.0


From 25e581c39cd9d1df208153b198c463ee1cd54a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 68/74] fix: string ports reject positions that aren't integers

---
 stdlib/string/portng.nuj | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stdlib/string/portng.nuj b/stdlib/string/portng.nuj
index 1754e43..4e35a49 100644
--- a/stdlib/string/portng.nuj
+++ b/stdlib/string/portng.nuj
@@ -152,6 +152,7 @@
         self.buffer-pos)
 
   (defn position! (self pos)
+        (typecheck/only pos :int)
         (set! self.buffer-pos (max 0 (min (:length self.buffer) pos)))))
 
 (defclass InputPort
-- 
2.43.0


From 90f2ed81589d257bc5d678fbab3217c30c0d468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 69/74] fix: #f within a quasiquotation stays #f

---
 stdlib/core/quasiquote.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/core/quasiquote.nuj b/stdlib/core/quasiquote.nuj
index 9d2027b..92f83b8 100644
--- a/stdlib/core/quasiquote.nuj
+++ b/stdlib/core/quasiquote.nuj
@@ -6,7 +6,7 @@
 
 (def quasiquote (let*
                   (defn quasiquote-real (l depth)
-                        (when-not l (return #nil))
+                        (when-not l (return l))
                         (if (pair? l)
                             (if (= (caar l) 'unquote-splicing)
                                 (if (zero? depth)
-- 
2.43.0


From b154b34b8b8aad3941bb5a6d1065c095c22c09e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:46 +0000
Subject: [PATCH 70/74] fix: the REPLs read a form over several lines and
 outlive a read error

---
 binlib/tiny-repl.nuj    | 11 ++++++++---
 stdlib_modules/repl.nuj |  7 +++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/binlib/tiny-repl.nuj b/binlib/tiny-repl.nuj
index 25c8387..30a03ab 100644
--- a/binlib/tiny-repl.nuj
+++ b/binlib/tiny-repl.nuj
@@ -14,7 +14,10 @@
                        :export
                        (try (fn (err)
                                 (if (= (car err) :unmatched-opening-bracket)
-                                    (cmd/raw ctx (cat line (readline "... ")))
+                                    (let ((next (readline "... ")))
+                                      (if next
+                                          (cmd/raw (cat line "\n" next))
+                                          (throw err)))
                                     (throw err)))
                             (def expr (read line))
                             (when (equal? '() expr)
@@ -29,7 +32,7 @@
                        (def buf "")
                        (def line "")
                        (while (not= (trim line) "[/cmd]")
-                         (set! buf (cat buf line))
+                         (set! buf (cat buf line "\n"))
                          (set! line (readline)))
                        (try exception-handler
                             (def expr (cons do (read buf)))
@@ -48,5 +51,7 @@
 
                  (defn tiny-repl ()
                        (println "Nujel TinyREPL is ready for service!")
-                       (while #t (read-cmd)))
+                       (while #t
+                         (try exception-handler
+                              (read-cmd))))
 ))
diff --git a/stdlib_modules/repl.nuj b/stdlib_modules/repl.nuj
index 210ab4b..2116b38 100644
--- a/stdlib_modules/repl.nuj
+++ b/stdlib_modules/repl.nuj
@@ -24,7 +24,10 @@
       :export
       (try (fn (err)
                (if (= (car err) :unmatched-opening-bracket)
-                   (cmd/raw ctx (cat line (readline "... ")))
+                   (let ((next (readline "... ")))
+                     (if next
+                         (cmd/raw (cat line "\n" next))
+                         (throw err)))
                    (throw err)))
            (def expr (read line))
            (when (equal? '() expr)
@@ -39,7 +42,7 @@
       (def buf "")
       (def line "")
       (while (not= (trim line) "[/cmd]")
-             (set! buf (cat buf line))
+             (set! buf (cat buf line "\n"))
              (set! line (readline)))
       (def expr (cons do (read buf)))
       (def result (eval-in ctx expr))
-- 
2.43.0


From bbd4ee3dc8b0fde00d4deef002793f378aae3ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:49 +0000
Subject: [PATCH 71/74] fix: an -x expression that raises an error doesn't turn
 the next option into an expression

---
 binlib/init.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binlib/init.nuj b/binlib/init.nuj
index 547695f..2dd9a7d 100644
--- a/binlib/init.nuj
+++ b/binlib/init.nuj
@@ -62,8 +62,8 @@
             (defn init/parse-arg (arg args)
                   (cond (init/parse-args/ignore-next (set! init/parse-args/ignore-next #f))
                         (init/parse-args/eval-next (try print/error
-                                                        (eval-in root-closure (cons do (read arg)))
-                                                        (set! init/parse-args/eval-next #f)))
+                                                        (set! init/parse-args/eval-next #f)
+                                                        (eval-in root-closure (cons do (read arg)))))
                         (init/parse-args/eval-next-module (try (fn (e)
                                                                    (print/error e)
                                                                  (exit 1))
-- 
2.43.0


From dfaaa7241ec9f13d4f58b55cd5729d0f4122762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 72/74] fix: an empty tree is one thing in an image, wherever
 it is referred to

---
 lib/imageWriter.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 3a255d0..fe998e6 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -118,6 +118,21 @@ static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
 	return curOff;
 }
 
+static i32 ctxAddTreeRoot(writeImageContext *ctx, lTreeRoot *v){
+	if(v->root){return ctxAddTree(ctx, v->root);}
+	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
+	if(mapOff > 0){ return mapOff; }
+
+	if(unlikely(!ctxRealloc(ctx, 2))){return -1;}
+
+	const i32 curOff = ctx->curOff;
+	writeMapSet(&ctx->map, (void *)v, curOff);
+	ctx->start[curOff  ] = 0;
+	ctx->start[curOff+1] = 0;
+	ctx->curOff += 2;
+	return curOff;
+}
+
 static i32 ctxAddArray(writeImageContext *ctx, lArray *v){
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
@@ -317,7 +332,7 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 	case ltTree: {
 		ctx->curOff += 4;
 		*outb = litTree;
-		const i32 off = ctxAddTree(ctx, v.vTree->root);
+		const i32 off = ctxAddTreeRoot(ctx, v.vTree);
 		outb = ((void *)&ctx->start[curOff+1]);
 		*outb++ = off&0xFF;
 		*outb++ = (off>>8)&0xFF;
-- 
2.43.0


From aac43202f22a83ce6dcb73760bc7c3d096756456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:09 +0000
Subject: [PATCH 73/74] fix: a tree that is immutable stays so in an image

---
 lib/imageReader.c | 6 +++++-
 lib/imageWriter.c | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index b1816ca..5c19011 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -183,7 +183,8 @@ static lTreeRoot *readTreeRoot(readImageMap *map, const lImage *img, i32 off, bo
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
 	if(unlikely(!inImage(map, off, 2))){return NULL;}
-	const i32 len = img->data[off] | (img->data[off+1]<<8);
+	const i32 len = img->data[off] | ((img->data[off+1] & 0x7F)<<8);
+	const bool immutable = img->data[off+1] & 0x80;
 	if(unlikely(!inImage(map, off, 2 + (6 * len)))){return NULL;}
 	lTreeRoot *root = lTreeRootAllocRaw();
 	readMapSet(map, off, litTree, root);
@@ -199,6 +200,9 @@ static lTreeRoot *readTreeRoot(readImageMap *map, const lImage *img, i32 off, bo
 			root->root = lTreeInsert(root->root, s, v);
 		}
 	}
+	if(immutable && root->root){
+		root->root->flags |= TREE_IMMUTABLE;
+	}
 	return root;
 }
 
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index fe998e6..9f284d8 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -112,7 +112,7 @@ static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
 	ctx->start[curOff  ] =  len     & 0xFF;
-	ctx->start[curOff+1] = (len>>8) & 0xFF;
+	ctx->start[curOff+1] = ((len>>8) & 0x7F) | ((v->flags & TREE_IMMUTABLE) ? 0x80 : 0);
 	ctx->curOff += eleSize;
 	ctxAddTreeVal(ctx, curOff + 2, v);
 	return curOff;
-- 
2.43.0


From 1ade5a7649436e370902bc9d27ddd81f374a44dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:08 +0000
Subject: [PATCH 74/74] fix: names with NUL bytes refer to nothing instead of
 something else

---
 bin/io.c      | 13 +++++++------
 bin/net.c     |  2 +-
 bin/port.c    |  4 ++--
 bin/private.h |  8 ++++++++
 4 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/bin/io.c b/bin/io.c
index 6cd4cd9..3c8a688 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -78,7 +78,7 @@ static lVal lnfExit(lVal aStatus){
 }
 
 static lVal lnfFileRemove(lVal aPath){
-	reqString(aPath);
+	reqCString(aPath);
 	unlink(lBufferData(aPath.vString));
 	return aPath;
 }
@@ -95,7 +95,7 @@ LONGLONG FileTime_to_POSIX(FILETIME ft) {
 #endif
 
 static lVal lnfFileStat(lVal aPath){
-	reqString(aPath);
+	reqCString(aPath);
 #ifdef _MSC_VER
 	WIN32_FIND_DATA ffd;
 	LARGE_INTEGER filesize;
@@ -159,7 +159,7 @@ static lVal lnfFileStat(lVal aPath){
 
 #ifdef ENABLE_POPEN
 static lVal lnfPopen(lVal aCommand){
-	reqString(aCommand);
+	reqCString(aCommand);
 	const int readSize = 1<<12;
 	int len   = 0;
 	int bufSize = readSize;
@@ -208,6 +208,7 @@ static lVal lnfPopen(lVal aCommand){
 #endif
 
 static lVal lnfDirectoryRead(lVal aPath, lVal aShowHidden){
+	if(aPath.type == ltString){ reqCString(aPath); }
 	const char *path = aPath.type == ltString ? lBufferData(aPath.vString) : "./";
 	const bool showHidden = castToBool(aShowHidden);
 
@@ -267,17 +268,17 @@ static lVal lnfDirectoryRead(lVal aPath, lVal aShowHidden){
 }
 
 static lVal lnfDirectoryMake(lVal aPath){
-	reqString(aPath);
+	reqCString(aPath);
 	return lValBool(makeDir(lBufferData(aPath.vString)) == 0);
 }
 
 static lVal lnfDirectoryRemove(lVal aPath){
-	reqString(aPath);
+	reqCString(aPath);
 	return lValBool(rmdir(lBufferData(aPath.vString)) == 0);
 }
 
 static lVal lnfChangeDirectory(lVal aPath){
-	reqString(aPath);
+	reqCString(aPath);
 	return lValBool(chdir(lBufferData(aPath.vString)) == 0);
 }
 
diff --git a/bin/net.c b/bin/net.c
index 58e8056..8ffa248 100644
--- a/bin/net.c
+++ b/bin/net.c
@@ -18,7 +18,7 @@
 
 #if (!defined(_WIN32)) && (!defined(__wasi__))
 static lVal lnfSocketConect(lVal host, lVal port){
-	reqString(host);
+	reqCString(host);
 	reqInt(port);
 	if((port.vInt < 0) || (port.vInt > 0xFFFF)){
 		return lValException(lSymError, "Port numbers need to be between 0-65535", port);
diff --git a/bin/port.c b/bin/port.c
index 8736b7f..2546c84 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -41,7 +41,7 @@ static lVal lnfFileRaw(lVal handle){
 #endif
 
 static lVal lnfFileOpenOutput(lVal aPathname, lVal aIfExists){
-	reqString(aPathname);
+	reqCString(aPathname);
 	const char *path = lBufferData(aPathname.vString);
 	lVal cadr = optionalSymbolic(aIfExists, lSymError);
 	if(unlikely(cadr.type == ltException)){
@@ -85,7 +85,7 @@ static lVal lnfBytesLeftToRead(lVal file){
 
 
 static lVal lnfFileOpenInput(lVal aPathname){
-	reqString(aPathname);
+	reqCString(aPathname);
 	FILE *fh = fopen(lBufferData(aPathname.vString), "rb");
 	return fh ? lValFileHandle(fh) : NIL;
 }
diff --git a/bin/private.h b/bin/private.h
index 6b5892c..033ef92 100644
--- a/bin/private.h
+++ b/bin/private.h
@@ -20,6 +20,14 @@
 	#include <unistd.h>
 #endif
 
+/* Names given to the operating system end at the first NUL byte, so one within
+ * a string would make them refer to something else. */
+#define reqCString(val) do { reqString(val);\
+	if(unlikely(memchr(lBufferData(val.vString), 0, lBufferLength(val.vString)))){\
+		return lValException(lSymTypeError, "Need a String without NUL bytes", val);\
+	}\
+} while(0)
+
 extern lSymbol *lSymError;
 extern lSymbol *lSymReplace;
 extern lSymbol *lSymAppend;
-- 
2.43.0

