From 44df797c4461e5062ae1df19a1c163a93ceba457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:26 +0000
Subject: [PATCH 01/45] fix: a^b panics with index out of range; null base
 yields null

---
 arithmeticeval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 80c3059..de5de55 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -53,13 +53,13 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		Value: val.Get(),
 		Const: val.IsConst(),
 	}
-	for i := 1; 1 < len(expr.parts); i++ {
+	for i := 1; i < len(expr.parts); i++ {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
 		v := val.Get()
-		if v == nil {
+		if v == nil || ret.Value == nil {
 			return RValue{}, nil
 		}
 		var valValue float64
-- 
2.43.0


From 73a5fbab917f8e3ea767e4db9fea44e445faea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:28 +0000
Subject: [PATCH 02/45] fix: * / % lose the error of all but the last
 operation, and fail on a null right operand

---
 arithmeticeval.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index de5de55..14430f1 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -222,7 +222,7 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			ret.Value = val.Get()
 			ret.Const = val.IsConst()
 		} else {
-			if ret.Value == nil {
+			if ret.Value == nil || val.Get() == nil {
 				return RValue{}, nil
 			}
 			ret.Const = ret.Const && val.IsConst()
@@ -261,11 +261,11 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			default:
 				err = ErrInvalidMultiplicativeOperation
 			}
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
-	if err != nil {
-		return nil, err
-	}
 	if ret.Const {
 		expr.constValue = &ret
 	}
-- 
2.43.0


From 704ec7641bffa8d0b55393871d761b6b92060a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:31 +0000
Subject: [PATCH 03/45] fix: a duration divided by a fraction panics, and a
 duration scaled by a float ignores its fraction

---
 arithmeticeval.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 14430f1..1c3d53a 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -172,24 +172,22 @@ func mulintdur(a int64, b Duration, op rune) (Duration, error) {
 }
 
 func muldurfloat(a Duration, b float64, op rune) (Duration, error) {
-	val := int64(b)
 	switch op {
 	case '*':
-		return Duration{Months: int64(a.Months * val), Days: int64(a.Days * val), Seconds: int64(a.Seconds * val), Nanos: a.Nanos * int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) * b), Days: int64(float64(a.Days) * b), Seconds: int64(float64(a.Seconds) * b), Nanos: int(float64(a.Nanos) * b)}, nil
 	case '/':
 		if b == 0 {
 			return Duration{}, ErrDivideByZero
 		}
-		return Duration{Months: int64(a.Months / val), Days: int64(a.Days / val), Seconds: int64(a.Seconds / val), Nanos: a.Nanos / int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) / b), Days: int64(float64(a.Days) / b), Seconds: int64(float64(a.Seconds) / b), Nanos: int(float64(a.Nanos) / b)}, nil
 	}
 	return Duration{}, ErrInvalidDurationOperation
 }
 
 func mulfloatdur(a float64, b Duration, op rune) (Duration, error) {
-	val := int64(a)
 	switch op {
 	case '*':
-		return Duration{Months: b.Months * val, Days: b.Days * val, Seconds: b.Seconds * val, Nanos: b.Nanos * int(val)}, nil
+		return muldurfloat(b, a, op)
 	default:
 		return Duration{}, ErrInvalidDurationOperation
 	}
-- 
2.43.0


From 90a369001d33ee75daa7b15ac4b9023015216716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:33 +0000
Subject: [PATCH 04/45] fix: list concatenation returns null, and caches
 results of non-constant operands

---
 arithmeticeval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 1c3d53a..06b7202 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -372,6 +372,7 @@ func addlistlist(a, b []Value) RValue {
 		}
 		arr = append(arr, x)
 	}
+	ret.Value = arr
 	return ret
 }
 
@@ -473,7 +474,9 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			}
 			switch operandValue := operand.Get().(type) {
 			case []Value:
+				isConst := ret.Const
 				ret = addlistlist(retValue, operandValue)
+				ret.Const = ret.Const && isConst
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
-- 
2.43.0


From 3f0f782b9f4754f1bfaa945815caf0a5e0604b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:36 +0000
Subject: [PATCH 05/45] fix: + and - silently return the left operand when it
 has an unsupported type

---
 arithmeticeval.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 06b7202..43c3173 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -480,6 +480,8 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
+		default:
+			err = ErrInvalidAdditiveOperation
 		}
 		return err
 	}
-- 
2.43.0


From 8537dc1a7cdbc332cf119aecc4c68b5442772412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:38 +0000
Subject: [PATCH 06/45] fix: memoized constants are returned as *RValue, which
 NewLValue and GetVar do not accept

---
 arithmeticeval.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 43c3173..50c86d6 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -32,7 +32,7 @@ func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, err
 		return ret, ErrInvalidUnaryOperation
 	}
 	if ret.IsConst() {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
@@ -80,7 +80,7 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		ret.Const = ret.Const && val.IsConst()
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
@@ -265,7 +265,7 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 		}
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
@@ -505,7 +505,7 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
-- 
2.43.0


From 08423c58adbc468e02f16f83205ca12bfcb3fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 07/45] fix: + and - evaluate all additions before subtractions
 instead of left to right

---
 arithmeticeval.go | 19 +++++--------------
 ast.go            | 24 ++++++++++++++++--------
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 50c86d6..529fc02 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -380,8 +380,8 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	if expr.constValue != nil {
 		return expr.constValue, nil
 	}
-	if len(expr.add) == 1 && len(expr.sub) == 0 {
-		ret, err := expr.add[0].Evaluate(ctx)
+	if len(expr.parts) == 1 && !expr.parts[0].sub {
+		ret, err := expr.parts[0].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
@@ -486,21 +486,12 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return err
 	}
 
-	for i := range expr.add {
-		val, err := expr.add[i].Evaluate(ctx)
-		if err != nil {
-			return RValue{}, err
-		}
-		if err = accumulate(val, false); err != nil {
-			return RValue{}, err
-		}
-	}
-	for i := range expr.sub {
-		val, err := expr.sub[i].Evaluate(ctx)
+	for i := range expr.parts {
+		val, err := expr.parts[i].expr.Evaluate(ctx)
 		if err != nil {
 			return RValue{}, err
 		}
-		if err = accumulate(val, true); err != nil {
+		if err = accumulate(val, expr.parts[i].sub); err != nil {
 			return RValue{}, err
 		}
 	}
diff --git a/ast.go b/ast.go
index 0da0b8a..6d4e117 100644
--- a/ast.go
+++ b/ast.go
@@ -122,12 +122,17 @@ type partialComparisonExpression struct {
 }
 
 type addOrSubtractExpression struct {
-	add []Expression
-	sub []Expression
+	parts []addOrSubtractExpressionPart
 
 	constValue Value
 }
 
+type addOrSubtractExpressionPart struct {
+	// For the first element of parts, sub=false
+	sub  bool
+	expr Expression
+}
+
 type multiplyDivideModuloExpression struct {
 	parts []multiplyDivideModuloExpressionPart
 
@@ -670,26 +675,29 @@ func oC_ComparisonExpression(ctx *parser.OC_ComparisonExpressionContext) Express
 //
 func oC_AddOrSubtractExpression(ctx *parser.OC_AddOrSubtractExpressionContext) Expression {
 	ret := &addOrSubtractExpression{}
-	target := &ret.add
+	sub := false
 	count := ctx.GetChildCount()
 	for child := 0; child < count; child++ {
 		ch := ctx.GetChild(child)
 		expr, ok := ch.(*parser.OC_MultiplyDivideModuloExpressionContext)
 		if ok {
-			(*target) = append(*target, oC_MultiplyDivideModuloExpression(expr))
+			ret.parts = append(ret.parts, addOrSubtractExpressionPart{
+				sub:  sub,
+				expr: oC_MultiplyDivideModuloExpression(expr),
+			})
 		} else {
 			term, ok := ch.(antlr.TerminalNode)
 			if ok {
 				if term.GetText() == "+" {
-					target = &ret.add
+					sub = false
 				} else if term.GetText() == "-" {
-					target = &ret.sub
+					sub = true
 				}
 			}
 		}
 	}
-	if len(ret.add) == 1 && len(ret.sub) == 0 {
-		return ret.add[0]
+	if len(ret.parts) == 1 {
+		return ret.parts[0].expr
 	}
 	return ret
 }
-- 
2.43.0


From 993e754ee67faa72a20cd5737dc6ef3ddca31624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:26 +0000
Subject: [PATCH 08/45] fix: comparing ints by subtraction overflows and
 inverts the order

---
 relationaleval.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/relationaleval.go b/relationaleval.go
index c3eef27..5d8f1a6 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -27,7 +27,13 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 	case int:
 		switch value2 := v2.(type) {
 		case int:
-			return value1 - value2, nil
+			if value1 == value2 {
+				return 0, nil
+			}
+			if value1 < value2 {
+				return -1, nil
+			}
+			return 1, nil
 		case float64:
 			if float64(value1) == value2 {
 				return 0, nil
-- 
2.43.0


From d7c0438c2baff060c7a14e2f6f61cfe948697744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:29 +0000
Subject: [PATCH 09/45] fix: duration comparison is not antisymmetric

---
 relationaleval.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 5d8f1a6..0bec312 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -77,14 +77,23 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if value1.Days == dur.Days && value1.Months == dur.Months && value1.Seconds == dur.Seconds && value1.Nanos == dur.Nanos {
 				return 0, nil
 			}
-			if value1.Days < dur.Days {
-				return -1, nil
+			if value1.Months != dur.Months {
+				if value1.Months < dur.Months {
+					return -1, nil
+				}
+				return 1, nil
 			}
-			if value1.Months < dur.Months {
-				return -1, nil
+			if value1.Days != dur.Days {
+				if value1.Days < dur.Days {
+					return -1, nil
+				}
+				return 1, nil
 			}
-			if value1.Seconds < dur.Seconds {
-				return -1, nil
+			if value1.Seconds != dur.Seconds {
+				if value1.Seconds < dur.Seconds {
+					return -1, nil
+				}
+				return 1, nil
 			}
 			if value1.Nanos < dur.Nanos {
 				return -1, nil
-- 
2.43.0


From 4841839b3c96a288d21c4110d9add1aca9ba46b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:31 +0000
Subject: [PATCH 10/45] fix: dates and times compare equal to any earlier one

---
 relationaleval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 0bec312..caab85c 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -110,7 +110,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalTime:
 		if date, ok := v2.(LocalTime); ok {
@@ -122,7 +122,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalDateTime:
 		if date, ok := v2.(LocalDateTime); ok {
@@ -134,7 +134,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	}
 	return 0, ErrInvalidComparison
-- 
2.43.0


From 0c9a718fd3c5e2ae416e649b4104f6aee1d74c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:33 +0000
Subject: [PATCH 11/45] fix: chained comparisons return only the last
 comparison, against the first operand

---
 relationaleval.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index caab85c..1c90dda 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -147,37 +147,44 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return nil, err
 	}
 
-	if val.Get() == nil {
-		return RValue{}, nil
-	}
-	ret := RValue{Value: val.Get(), Const: val.IsConst()}
+	// a < b < c is (a < b) AND (b < c)
+	ret := RValue{Value: true, Const: val.IsConst()}
 	for i := range expr.second {
 		second, err := expr.second[i].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
-		if second.Get() == nil {
-			return RValue{}, nil
+		ret.Const = ret.Const && second.IsConst()
+		if val.Get() == nil || second.Get() == nil {
+			if ret.Value == true {
+				ret.Value = nil
+			}
+			val = second
+			continue
 		}
 		result, err := comparePrimitiveValues(val.Get(), second.Get())
 		if err != nil {
 			return nil, err
 		}
+		var holds bool
 		switch expr.second[i].op {
 		case "=":
-			ret.Value = result == 0
+			holds = result == 0
 		case "<>":
-			ret.Value = result != 0
+			holds = result != 0
 		case "<":
-			ret.Value = result < 0
+			holds = result < 0
 		case "<=":
-			ret.Value = result <= 0
+			holds = result <= 0
 		case ">":
-			ret.Value = result > 0
+			holds = result > 0
 		case ">=":
-			ret.Value = result >= 0
+			holds = result >= 0
 		}
-		ret.Const = ret.Const && second.IsConst()
+		if !holds {
+			ret.Value = false
+		}
+		val = second
 	}
 	return ret, nil
 }
-- 
2.43.0


From 2877b376b2c7f6e23a7b90d41544c2849c4e6146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:35 +0000
Subject: [PATCH 12/45] fix: the >= operator is dropped when the syntax tree is
 built

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 6d4e117..ed54cd8 100644
--- a/ast.go
+++ b/ast.go
@@ -846,7 +846,7 @@ func oC_PartialComparisonExpression(ctx *parser.OC_PartialComparisonExpressionCo
 	for i := 0; i < ctx.GetChildCount(); i++ {
 		if tok, ok := ctx.GetChild(i).(antlr.TerminalNode); ok {
 			t := tok.GetText()
-			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == "=>" {
+			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == ">=" {
 				ret.op = t
 			}
 		}
-- 
2.43.0


From 5feaab668478b2013f5e7aa03cae5facdd5affd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:37 +0000
Subject: [PATCH 13/45] fix: AND, OR and XOR do not follow three-valued logic
 when an operand is null

---
 relationaleval.go | 81 ++++++++++++++++++-----------------------------
 1 file changed, 31 insertions(+), 50 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 1c90dda..e08025a 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -205,58 +205,46 @@ func (expr notExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr andExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	ret := RValue{Value: true, Const: true}
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
+		ret.Const = ret.Const && val.IsConst()
 		if val.Get() == nil {
-			return RValue{}, nil
+			ret.Value = nil
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval && vval
-			if !bval || !vval {
-				break
-			}
+		bval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		if !bval {
+			ret.Value = false
+			break
 		}
 	}
 	return ret, nil
 }
 
 func (expr xorExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	ret := RValue{Value: false, Const: true}
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
+		ret.Const = ret.Const && val.IsConst()
 		if val.Get() == nil {
-			return RValue{}, nil
+			ret.Value = nil
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
+		vval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		if bval, ok := ret.Value.(bool); ok {
 			ret.Value = bval != vval
 		}
 	}
@@ -264,31 +252,24 @@ func (expr xorExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr orExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	ret := RValue{Value: false, Const: true}
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
+		ret.Const = ret.Const && val.IsConst()
 		if val.Get() == nil {
-			return RValue{}, nil
+			ret.Value = nil
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval || vval
-			if bval || vval {
-				break
-			}
+		bval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		if bval {
+			ret.Value = true
+			break
 		}
 	}
 	return ret, nil
-- 
2.43.0


From 7b8f6e2e97ce82eddc80ba8a5d8cbe564916aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:39 +0000
Subject: [PATCH 14/45] fix: IN rejects every list

---
 eval.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index b13ff57..f386c57 100644
--- a/eval.go
+++ b/eval.go
@@ -123,10 +123,11 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 			return nil, err
 		}
 		list, ok := listValue.Get().([]Value)
-		if ok {
+		if !ok {
 			if listValue.Get() != nil {
 				return nil, ErrNotAList
 			}
+			return RValue{}, nil
 		}
 		if inputValue.Get() == nil {
 			return RValue{}, nil
-- 
2.43.0


From 51b52c5c93ae4d4f9c4d5c09995d86b257a93516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:42 +0000
Subject: [PATCH 15/45] fix: a list slice drops the last element, and slicing
 null is not null

---
 eval.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index f386c57..4d93851 100644
--- a/eval.go
+++ b/eval.go
@@ -158,6 +158,7 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 			if inputValue.Get() != nil {
 				return nil, ErrNotAList
 			}
+			return RValue{}, nil
 		}
 		from, err := expr.listRange.first.Evaluate(ctx)
 		if err != nil {
@@ -190,11 +191,11 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 		if fromi < 0 || toi < 0 {
 			return nil, ErrInvalidListIndex
 		}
-		if fromi >= len(listValue) {
-			fromi = len(listValue) - 1
+		if fromi > len(listValue) {
+			fromi = len(listValue)
 		}
-		if toi >= len(listValue) {
-			toi = len(listValue) - 1
+		if toi > len(listValue) {
+			toi = len(listValue)
 		}
 		if fromi > toi {
 			fromi = toi
-- 
2.43.0


From 3f99232a70e2fc9b444a4f63bc69f24f7ec5c34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:44 +0000
Subject: [PATCH 16/45] fix: list slices with an open end are treated as an
 index

---
 ast.go  | 27 ++++++++++++++++++---------
 eval.go | 57 +++++++++++++++++++++++++++++++--------------------------
 2 files changed, 49 insertions(+), 35 deletions(-)

diff --git a/ast.go b/ast.go
index ed54cd8..cc4a80d 100644
--- a/ast.go
+++ b/ast.go
@@ -789,17 +789,26 @@ func oC_ListOperatorExpression(ctx *parser.OC_ListOperatorExpressionContext) str
 			listIn: oC_PropertyOrLabelsExpression(x.(*parser.OC_PropertyOrLabelsExpressionContext)),
 		}
 	}
-	expr := ctx.AllOC_Expression()
-	if len(expr) == 1 {
-		return stringListNullOperatorExpressionPart{
-			listIndex: oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
+	var rng *listRangeExpression
+	var index Expression
+	for child := 0; child < ctx.GetChildCount(); child++ {
+		switch t := ctx.GetChild(child).(type) {
+		case *parser.OC_ExpressionContext:
+			if rng != nil {
+				rng.second = oC_Expression(t)
+			} else {
+				index = oC_Expression(t)
+			}
+		case antlr.TerminalNode:
+			if t.GetText() == ".." {
+				rng = &listRangeExpression{first: index}
+			}
 		}
 	}
-	return stringListNullOperatorExpressionPart{
-		listRange: &listRangeExpression{
-			first:  oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
-			second: oC_Expression(expr[1].(*parser.OC_ExpressionContext)),
-		}}
+	if rng != nil {
+		return stringListNullOperatorExpressionPart{listRange: rng}
+	}
+	return stringListNullOperatorExpressionPart{listIndex: index}
 }
 
 func oC_StringOperatorExpression(ctx *parser.OC_StringOperatorExpressionContext) stringListNullOperatorExpressionPart {
diff --git a/eval.go b/eval.go
index 4d93851..55ab16d 100644
--- a/eval.go
+++ b/eval.go
@@ -160,33 +160,38 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 			}
 			return RValue{}, nil
 		}
-		from, err := expr.listRange.first.Evaluate(ctx)
-		if err != nil {
-			return nil, err
-		}
-		if from.Get() == nil {
-			return RValue{}, nil
-		}
-		if !from.IsConst() {
-			constant = false
-		}
-		fromi, ok := from.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
-		}
-		to, err := expr.listRange.second.Evaluate(ctx)
-		if err != nil {
-			return nil, err
-		}
-		if to.Get() == nil {
-			return RValue{}, nil
-		}
-		if !to.IsConst() {
-			constant = false
+		fromi, toi := 0, len(listValue)
+		if expr.listRange.first != nil {
+			from, err := expr.listRange.first.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
+			if from.Get() == nil {
+				return RValue{}, nil
+			}
+			if !from.IsConst() {
+				constant = false
+			}
+			fromi, ok = from.Get().(int)
+			if !ok {
+				return nil, ErrInvalidListIndex
+			}
 		}
-		toi, ok := to.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
+		if expr.listRange.second != nil {
+			to, err := expr.listRange.second.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
+			if to.Get() == nil {
+				return RValue{}, nil
+			}
+			if !to.IsConst() {
+				constant = false
+			}
+			toi, ok = to.Get().(int)
+			if !ok {
+				return nil, ErrInvalidListIndex
+			}
 		}
 		if fromi < 0 || toi < 0 {
 			return nil, ErrInvalidListIndex
-- 
2.43.0


From 89494dbd89d62f451c8f5d267e46a57506e0f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:46 +0000
Subject: [PATCH 17/45] fix: string operators fail on null instead of returning
 null

---
 eval.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index 55ab16d..edf4bfd 100644
--- a/eval.go
+++ b/eval.go
@@ -218,14 +218,17 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 }
 
 func (expr stringOperatorExpression) evaluate(ctx *EvalContext, inputValue Value) (Value, error) {
-	inputStrValue, ok := inputValue.Get().(string)
-	if !ok {
-		return nil, ErrInvalidStringOperation
-	}
 	exprValue, err := expr.expr.Evaluate(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if inputValue.Get() == nil || exprValue.Get() == nil {
+		return RValue{}, nil
+	}
+	inputStrValue, ok := inputValue.Get().(string)
+	if !ok {
+		return nil, ErrInvalidStringOperation
+	}
 	strValue, ok := exprValue.Get().(string)
 	if !ok {
 		return nil, ErrInvalidStringOperation
-- 
2.43.0


From db026bb126077e6712df7390d0b06baff1dbde87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:48 +0000
Subject: [PATCH 18/45] fix: ValueAsInt and ValueAsString return zero when
 called with a nil error, so SKIP and LIMIT are always 0

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index bbafe07..5643c37 100644
--- a/value.go
+++ b/value.go
@@ -254,7 +254,7 @@ func (v RValue) String() string {
 // ValueAsInt returns the int value. If value is not int, returns
 // ErrIntValueRequired. If an err argument is given, that error is returned.
 func ValueAsInt(v Value, err ...error) (int, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return 0, err[0]
 	}
 	i, ok := v.Get().(int)
@@ -267,7 +267,7 @@ func ValueAsInt(v Value, err ...error) (int, error) {
 // ValueAsString returns the string value. If value is not string,
 // rReturns ErrStringValueRequired. If an err argument is given, that error is returned.
 func ValueAsString(v Value, err ...error) (string, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return "", err[0]
 	}
 	s, ok := v.Get().(string)
-- 
2.43.0


From 095705aa62d8b9178f88a16487d4242f488caae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:19 +0000
Subject: [PATCH 19/45] fix: right() returns the tail after the first n
 characters, and left()/right() lose strings shorter than n

---
 stringfuncs.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stringfuncs.go b/stringfuncs.go
index 6c7a905..5591ccd 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -125,10 +125,13 @@ func rightFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("In right: %s", err)
 	}
-	if i < 0 || i > len(s) {
+	if i < 0 {
 		return RValue{Value: ""}, nil
 	}
-	return RValue{Value: s[i:]}, nil
+	if i > len(s) {
+		i = len(s)
+	}
+	return RValue{Value: s[len(s)-i:]}, nil
 }
 
 func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
@@ -143,9 +146,12 @@ func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("In left: %w", err)
 	}
-	if i < 0 || i > len(s) {
+	if i < 0 {
 		return RValue{Value: ""}, nil
 	}
+	if i > len(s) {
+		i = len(s)
+	}
 	return RValue{Value: s[:i]}, nil
 }
 
-- 
2.43.0


From 845a2cc6a46a624948d9ed3580e49b70665e922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:21 +0000
Subject: [PATCH 20/45] fix: substring() panics when start+length overflows

---
 stringfuncs.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/stringfuncs.go b/stringfuncs.go
index 5591ccd..6fe7a41 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -184,15 +184,11 @@ func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return RValue{Value: ""}, nil
 	}
 	var end int
-	if max == -1 {
+	if max == -1 || max > len(s)-start {
 		end = len(s)
 	} else {
 		end = start + max
 	}
-
-	if end > len(s) {
-		end = len(s)
-	}
 	return RValue{Value: s[start:end]}, nil
 }
 
-- 
2.43.0


From 3cf58e64cff50f6e7e76e728f97aed830df6bc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:23 +0000
Subject: [PATCH 21/45] fix: toIntegerOrNull is bound to toInteger

---
 scalarfuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalarfuncs.go b/scalarfuncs.go
index 85e7239..f902077 100644
--- a/scalarfuncs.go
+++ b/scalarfuncs.go
@@ -16,7 +16,7 @@ func init() {
 		Name:      "toIntegerOrNull",
 		MinArgs:   1,
 		MaxArgs:   1,
-		ValueFunc: toIntegerFunc,
+		ValueFunc: toIntegerOrNullFunc,
 	}
 	globalFuncs["toFloatOrNull"] = Function{
 		Name:      "toFloatOrNull",
-- 
2.43.0


From 0b86d31bdab83279964ec7e329433f62e6f66095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:26 +0000
Subject: [PATCH 22/45] fix: range() does not terminate when the next element
 overflows

---
 functions.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/functions.go b/functions.go
index c903aca..c474555 100644
--- a/functions.go
+++ b/functions.go
@@ -2,6 +2,7 @@ package opencypher
 
 import (
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/cloudprivacylabs/lpg/v2"
@@ -86,10 +87,16 @@ func rangeFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if end > start {
 		for at := start; at < end; at += skip {
 			arr = append(arr, RValue{Value: at})
+			if at > math.MaxInt-skip {
+				break
+			}
 		}
 	} else {
 		for at := start; at > end; at += skip {
 			arr = append(arr, RValue{Value: at})
+			if at < math.MinInt-skip {
+				break
+			}
 		}
 	}
 	return RValue{Value: arr}, nil
-- 
2.43.0


From e86ed663d32c492287b6bf79a849dd2fcfb5744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:28 +0000
Subject: [PATCH 23/45] fix: IsValueSame is inverted for primitive values

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 5643c37..2f05882 100644
--- a/value.go
+++ b/value.go
@@ -151,7 +151,7 @@ func IsValueSame(v, v2 Value) bool {
 	if IsValuePrimitive(v) {
 		if IsValuePrimitive(v2) {
 			eq, err := comparePrimitiveValues(v.Get(), v2.Get())
-			return err != nil && eq == 0
+			return err == nil && eq == 0
 		}
 		return false
 	}
-- 
2.43.0


From 4da731d581e73c08d738266a571ed207f73e27f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:31 +0000
Subject: [PATCH 24/45] fix: IsValueSame does not consider two nulls the same,
 so UNION keeps duplicate rows containing null

---
 value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value.go b/value.go
index 2f05882..e5017f2 100644
--- a/value.go
+++ b/value.go
@@ -157,6 +157,9 @@ func IsValueSame(v, v2 Value) bool {
 	}
 
 	switch val1 := v.Get().(type) {
+	case nil:
+		return v2.Get() == nil
+
 	case []Value:
 		val2, ok := v2.Get().([]Value)
 		if !ok {
-- 
2.43.0


From 826fb219b4d23053d072a06b1f2d4ae59e33beb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:33 +0000
Subject: [PATCH 25/45] fix: IsValueSame never considers two paths the same

---
 value.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/value.go b/value.go
index e5017f2..d23d391 100644
--- a/value.go
+++ b/value.go
@@ -217,15 +217,20 @@ func IsValueSame(v, v2 Value) bool {
 		return val1 == val2
 
 	case *lpg.Path:
-		val2, ok := v2.Get().([]*lpg.Path)
+		val2, ok := v2.Get().(*lpg.Path)
 		if !ok {
 			return false
 		}
-		if val1.NumEdges() != val1.NumEdges() {
+		if val1.NumEdges() != val2.NumEdges() || val1.NumNodes() != val2.NumNodes() {
 			return false
 		}
 		for i := 0; i < val1.NumEdges(); i++ {
-			if val1.Slice(i, -1) != val2[i] {
+			if val1.GetEdge(i) != val2.GetEdge(i) {
+				return false
+			}
+		}
+		for i := 0; i < val1.NumNodes(); i++ {
+			if val1.GetNode(i) != val2.GetNode(i) {
 				return false
 			}
 		}
-- 
2.43.0


From 6141a65485a5fc96b91d48a341d5aa0251fad0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:35 +0000
Subject: [PATCH 26/45] fix: looking up a row stops at the first row of a
 different size, and fails on different columns

---
 resultset.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resultset.go b/resultset.go
index caebf61..7e97ac4 100644
--- a/resultset.go
+++ b/resultset.go
@@ -59,11 +59,12 @@ func isCompatibleRow(row1, row2 map[string]Value) error {
 func (r *ResultSet) find(row map[string]Value) int {
 	for index, r := range r.Rows {
 		if len(r) != len(row) {
-			break
+			continue
 		}
 		found := true
 		for i := range r {
-			if !IsValueSame(r[i], row[i]) {
+			value, ok := row[i]
+			if !ok || !IsValueSame(r[i], value) {
 				found = false
 				break
 			}
-- 
2.43.0


From 49ede20e71e4e6925b2735862acad4f2323c512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:38 +0000
Subject: [PATCH 27/45] fix: UNION keeps the duplicate rows of its first query

---
 eval.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/eval.go b/eval.go
index edf4bfd..1c84503 100644
--- a/eval.go
+++ b/eval.go
@@ -408,6 +408,14 @@ func (query regularQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	if !ok {
 		return nil, ErrExpectingResultSet
 	}
+	if len(query.unions) > 0 && !query.unions[0].all {
+		unique := *NewResultSet()
+		unique.Cols = resultSet.Cols
+		if err := unique.Union(resultSet, false); err != nil {
+			return nil, err
+		}
+		resultSet = unique
+	}
 	for _, u := range query.unions {
 		lastContext = ctx.SubContext()
 		contexts = append(contexts, lastContext)
-- 
2.43.0


From cb6052f2aa6e864841db4ca7b34fd7be7b4c5873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:40 +0000
Subject: [PATCH 28/45] fix: cartesian product of no columns or no resultsets
 does not terminate

---
 resultset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resultset.go b/resultset.go
index 7e97ac4..cddad2e 100644
--- a/resultset.go
+++ b/resultset.go
@@ -174,7 +174,7 @@ func (r ResultSet) CartesianProduct(f func(map[string]Value) bool) bool {
 		if !f(data) {
 			return false
 		}
-		carry := false
+		carry := true
 		for i := range ctr {
 			ctr[i]++
 			if ctr[i] >= len(r.Rows) {
@@ -214,7 +214,7 @@ func CartesianProduct(resultsets []ResultSet, all bool, filter func(map[string]V
 		if filter(data) {
 			result.Rows = append(result.Rows, data)
 		}
-		carry := false
+		carry := true
 		for i := range ctr {
 			ctr[i]++
 			if ctr[i] >= len(resultsets[i].Rows) {
-- 
2.43.0


From ecf67805090884240e8e9b16ead01d4d13aae4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:27 +0000
Subject: [PATCH 29/45] fix: SET works on the cartesian product of the columns,
 assigning across rows

---
 update.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/update.go b/update.go
index 52b5824..5ea4824 100644
--- a/update.go
+++ b/update.go
@@ -7,20 +7,14 @@ import (
 )
 
 func (s *set) Update(ctx *EvalContext, result ResultSet) (Value, error) {
-	// Work on the cartesian product of result columns
-	var err error
 	subctx := ctx.SubContext()
-	result.CartesianProduct(func(data map[string]Value) bool {
-		subctx.SetVars(data)
+	for _, row := range result.Rows {
+		subctx.SetVars(row)
 		for i := range s.items {
-			if err = s.items[i].update(subctx, data, result); err != nil {
-				return false
+			if err := s.items[i].update(subctx, row, result); err != nil {
+				return nil, err
 			}
 		}
-		return true
-	})
-	if err != nil {
-		return nil, err
 	}
 	return RValue{Value: result}, nil
 }
-- 
2.43.0


From 7d38780932d6620b600b57e2f9dd4ef8cc562a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:29 +0000
Subject: [PATCH 30/45] fix: SET n={key: null} stores a nil property

---
 update.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/update.go b/update.go
index 5ea4824..5506416 100644
--- a/update.go
+++ b/update.go
@@ -85,6 +85,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 				v.RemoveProperty(p)
 			}
 			for key, val := range sourceProps {
+				if val == nil {
+					continue
+				}
 				v.SetProperty(key, ctx.PropertyValueFromNative(key, val))
 			}
 		default:
-- 
2.43.0


From aa16769cdacbe1b56f4710075a8b1ad33c62c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:32 +0000
Subject: [PATCH 31/45] fix: CREATE after MATCH reuses the elements created for
 the first row, and does not return them

---
 update.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/update.go b/update.go
index 5506416..1cf385f 100644
--- a/update.go
+++ b/update.go
@@ -211,13 +211,27 @@ func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 }
 
 func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	ret := *NewResultSet()
+	var vars map[string]Value
 	for _, row := range result.Rows {
-		ctx.SetVars(row)
-		if _, err := c.TopLevelUpdate(ctx); err != nil {
+		// Every row creates its own elements
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
+		if _, err := c.TopLevelUpdate(subctx); err != nil {
 			return nil, err
 		}
+		vars = subctx.GetVarsNearestScope()
+		newRow := make(map[string]Value)
+		for k, v := range row {
+			newRow[k] = v
+		}
+		for k, v := range vars {
+			newRow[k] = v
+		}
+		ret.Append(newRow)
 	}
-	return RValue{Value: result}, nil
+	ctx.SetVars(vars)
+	return RValue{Value: ret}, nil
 }
 
 func (np nodePattern) Create(ctx *EvalContext) (string, *lpg.Node, error) {
-- 
2.43.0


From 2f88112129113c841ddb3cb848efb3752c42c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:34 +0000
Subject: [PATCH 32/45] fix: SKIP and LIMIT are ignored in queries that do not
 read

---
 eval.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/eval.go b/eval.go
index 1c84503..72b6614 100644
--- a/eval.go
+++ b/eval.go
@@ -514,20 +514,12 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		return RValue{Value: *NewResultSet()}, nil
 	}
 
-	if len(results.Rows) > 0 {
-		for _, row := range results.Rows {
-			val, err := query.ret.projection.items.Project(ctx, row)
-			if err != nil {
-				return nil, err
-			}
-			ret.Rows = append(ret.Rows, val)
-		}
-	} else {
-		val, err := query.ret.projection.items.Project(ctx, nil)
-		if err != nil {
-			return nil, err
-		}
-		ret.Rows = append(ret.Rows, val)
+	rows := results.Rows
+	if len(rows) == 0 {
+		rows = []map[string]Value{nil}
+	}
+	if err := project(rows); err != nil {
+		return nil, err
 	}
 	return RValue{Value: ret}, nil
 }
-- 
2.43.0


From 61e596c1a21ec58702b55180beef7d625b9e0a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:37 +0000
Subject: [PATCH 33/45] fix: the rows of multiple MATCH clauses are
 concatenated instead of joined

---
 eval.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/eval.go b/eval.go
index 72b6614..2b8fbe3 100644
--- a/eval.go
+++ b/eval.go
@@ -476,12 +476,34 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 	results := *NewResultSet()
 	if len(query.read) > 0 {
-		for _, r := range query.read {
-			rs, err := r.GetResults(ctx)
-			if err != nil {
-				return nil, err
+		for i, r := range query.read {
+			if i == 0 {
+				rs, err := r.GetResults(ctx)
+				if err != nil {
+					return nil, err
+				}
+				results.Add(rs)
+				continue
+			}
+			// Extend each row with the results of this clause for that row
+			joined := *NewResultSet()
+			for _, row := range results.Rows {
+				subctx := ctx.SubContext()
+				subctx.SetVars(row)
+				rs, err := r.GetResults(subctx)
+				if err != nil {
+					return nil, err
+				}
+				for _, newRow := range rs.Rows {
+					for k, v := range row {
+						newRow[k] = v
+					}
+					if err := joined.Append(newRow); err != nil {
+						return nil, err
+					}
+				}
 			}
-			results.Add(rs)
+			results = joined
 		}
 
 		for _, upd := range query.update {
-- 
2.43.0


From a4af87b60a2644e5a69a3fe4a6cf33119d3b030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:39 +0000
Subject: [PATCH 34/45] fix: escape sequences in string literals are not
 decoded

---
 ast.go     |  2 +-
 literal.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index cc4a80d..fa51952 100644
--- a/ast.go
+++ b/ast.go
@@ -1294,7 +1294,7 @@ func oC_Literal(ctx *parser.OC_LiteralContext) Evaluatable {
 	}
 	if s := ctx.StringLiteral(); s != nil {
 		text := s.GetText()
-		return stringLiteral(text[1 : len(text)-1])
+		return stringLiteral(unescapeStringLiteral(text[1 : len(text)-1]))
 	}
 	if b := ctx.OC_BooleanLiteral(); b != nil {
 		return oC_BooleanLiteral(b.(*parser.OC_BooleanLiteralContext))
diff --git a/literal.go b/literal.go
index 8d03a98..e7559e8 100644
--- a/literal.go
+++ b/literal.go
@@ -1,6 +1,7 @@
 package opencypher
 
 import (
+	"strconv"
 	"strings"
 )
 
@@ -144,3 +145,52 @@ func EscapeStringLiteral(s string) string {
 	bld.WriteRune('"')
 	return bld.String()
 }
+
+// unescapeStringLiteral replaces the escape sequences of a string
+// literal with the characters they stand for
+func unescapeStringLiteral(s string) string {
+	bld := strings.Builder{}
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' || i+1 >= len(s) {
+			bld.WriteByte(s[i])
+			continue
+		}
+		i++
+		switch s[i] {
+		case 'b', 'B':
+			bld.WriteByte('\b')
+		case 'f', 'F':
+			bld.WriteByte('\f')
+		case 'n', 'N':
+			bld.WriteByte('\n')
+		case 'r', 'R':
+			bld.WriteByte('\r')
+		case 't', 'T':
+			bld.WriteByte('\t')
+		case 'u', 'U':
+			// 8 hex digits, or 4
+			digits := 8
+			code, err := strconv.ParseUint(s[i+1:min(i+1+digits, len(s))], 16, 32)
+			if err != nil || i+1+digits > len(s) {
+				digits = 4
+				code, err = strconv.ParseUint(s[i+1:min(i+1+digits, len(s))], 16, 32)
+			}
+			if err != nil {
+				bld.WriteByte(s[i])
+				continue
+			}
+			bld.WriteRune(rune(code))
+			i += digits
+		default:
+			bld.WriteByte(s[i])
+		}
+	}
+	return bld.String()
+}
+
+func min(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
-- 
2.43.0


From e46ce57cf72fd32a71a7fa6d14dd13bfeb2f50f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:41 +0000
Subject: [PATCH 35/45] fix: backticks in labels and property keys are not
 escaped

---
 ast.go     | 2 +-
 literal.go | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index fa51952..ef5e531 100644
--- a/ast.go
+++ b/ast.go
@@ -883,7 +883,7 @@ func oC_SchemaName(ctx *parser.OC_SchemaNameContext) schemaName {
 func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 	if node := ctx.EscapedSymbolicName(); node != nil {
 		text := node.GetText()
-		return symbolicName(text[1 : len(text)-1])
+		return symbolicName(strings.ReplaceAll(text[1:len(text)-1], "``", "`"))
 	}
 	return symbolicName(ctx.GetText())
 }
diff --git a/literal.go b/literal.go
index e7559e8..859eaf0 100644
--- a/literal.go
+++ b/literal.go
@@ -115,15 +115,15 @@ func (r *rangeLiteral) Evaluate(ctx *EvalContext) (from, to *int, err error) {
 }
 
 // EscapeLabelLiteral escape a literal that can be used as a label. It
-// returns `s`
+// returns `s`, with backticks in s doubled
 func EscapeLabelLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapePropertyKeyLiteral escapes a literal that can be used as a
-// property key. Returns `s`
+// property key. Returns `s`, with backticks in s doubled
 func EscapePropertyKeyLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapeStringLiteral returns "s" where backslashes and quotes in s
-- 
2.43.0


From 808c80eaf9d704aba8cadcda80a48938ef8e2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:43 +0000
Subject: [PATCH 36/45] fix: property keys and labels that are reserved words
 are changed to upper case

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index ef5e531..e6000d1 100644
--- a/ast.go
+++ b/ast.go
@@ -889,7 +889,7 @@ func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 }
 
 func oC_ReservedWord(ctx *parser.OC_ReservedWordContext) reservedWord {
-	return reservedWord(strings.ToUpper(ctx.GetText()))
+	return reservedWord(ctx.GetText())
 }
 
 func oC_NodeLabels(ctx *parser.OC_NodeLabelsContext) NodeLabels {
-- 
2.43.0


From deb8337da8c26d7453727bfb8e3a74e0341eb137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 37/45] fix: CASE matches null to null, and fails when a
 condition is null

---
 eval.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eval.go b/eval.go
index 2b8fbe3..1a31e30 100644
--- a/eval.go
+++ b/eval.go
@@ -361,6 +361,10 @@ func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
 			return nil, err
 		}
 		if cs.test != nil {
+			// null is not equal to anything
+			if testValue.Get() == nil || when.Get() == nil {
+				continue
+			}
 			result, err := comparePrimitiveValues(testValue.Get(), when.Get())
 			if err != nil {
 				return nil, err
@@ -369,6 +373,9 @@ func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
 				return alternative.then.Evaluate(ctx)
 			}
 		} else {
+			if when.Get() == nil {
+				continue
+			}
 			boolValue, ok := when.Get().(bool)
 			if !ok {
 				return nil, ErrNotABooleanExpression
-- 
2.43.0


From cfdcecd7d8d4469fffc212cac53c32cf0115cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:18 +0000
Subject: [PATCH 38/45] fix: DELETE removes an item once per row, corrupting
 the graph, and deletes part of the items before failing

---
 update.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/update.go b/update.go
index 1cf385f..ed2db9b 100644
--- a/update.go
+++ b/update.go
@@ -129,6 +129,11 @@ func (deleteClause) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 
 func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 	subctx := ctx.SubContext()
+	// Collect the items first, because an item may appear in several rows
+	nodes := make([]*lpg.Node, 0)
+	nodeSet := make(map[*lpg.Node]struct{})
+	edges := make([]*lpg.Edge, 0)
+	edgeSet := make(map[*lpg.Edge]struct{})
 	for _, row := range result.Rows {
 		subctx.SetVars(row)
 		for _, expr := range d.exprs {
@@ -141,21 +146,40 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 			}
 			switch item := v.Get().(type) {
 			case *lpg.Node:
-				if item.GetEdges(lpg.OutgoingEdge).Next() || item.GetEdges(lpg.IncomingEdge).Next() {
-					// Must have detach
-					if !d.detach {
-						return nil, fmt.Errorf("Cannot delete attached node")
-					}
+				if _, exists := nodeSet[item]; !exists {
+					nodeSet[item] = struct{}{}
+					nodes = append(nodes, item)
 				}
-				item.DetachAndRemove()
 
 			case *lpg.Path:
 				for i := 0; i < item.NumEdges(); i++ {
-					item.GetEdge(i).Remove()
+					edge := item.GetEdge(i)
+					if _, exists := edgeSet[edge]; !exists {
+						edgeSet[edge] = struct{}{}
+						edges = append(edges, edge)
+					}
 				}
 			}
 		}
 	}
+	if !d.detach {
+		for _, node := range nodes {
+			for _, dir := range []lpg.EdgeDir{lpg.OutgoingEdge, lpg.IncomingEdge} {
+				for itr := node.GetEdges(dir); itr.Next(); {
+					if _, exists := edgeSet[itr.Edge()]; !exists {
+						// Must have detach
+						return nil, fmt.Errorf("Cannot delete attached node")
+					}
+				}
+			}
+		}
+	}
+	for _, edge := range edges {
+		edge.Remove()
+	}
+	for _, node := range nodes {
+		node.DetachAndRemove()
+	}
 	return RValue{Value: result}, nil
 }
 
-- 
2.43.0


From b45ea21eb5f793a2126425a7b425e420e5b4813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 39/45] fix: list index result was constant although the list
 or the index was not

---
 eval.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index 1a31e30..5772220 100644
--- a/eval.go
+++ b/eval.go
@@ -105,17 +105,23 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 		if listValue == nil {
 			return RValue{}, nil
 		}
+		// A constant element of a list does not make the result of the
+		// index expression constant
+		constant := inputValue.IsConst() && indexValue.IsConst()
+		elementOf := func(element Value) Value {
+			return RValue{Value: element.Get(), Const: constant && element.IsConst()}
+		}
 		if intValue >= 0 {
 			if intValue >= len(listValue) {
 				return RValue{}, nil
 			}
-			return listValue[intValue], nil
+			return elementOf(listValue[intValue]), nil
 		}
 		index := len(listValue) + intValue
 		if index < 0 {
 			return RValue{}, nil
 		}
-		return listValue[index], nil
+		return elementOf(listValue[index]), nil
 
 	case expr.listIn != nil:
 		listValue, err := expr.listIn.Evaluate(ctx)
-- 
2.43.0


From 373942e9fdb40094b310273479a6942330b81e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 40/45] fix: NOT NOT of a value that is not a boolean is an
 error, as NOT is

---
 ast.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index e6000d1..4fbb583 100644
--- a/ast.go
+++ b/ast.go
@@ -646,12 +646,11 @@ func oC_AndExpression(ctx *parser.OC_AndExpressionContext) Expression {
 }
 
 func oC_NotExpression(ctx *parser.OC_NotExpressionContext) Expression {
-	if len(ctx.AllNOT())%2 == 1 {
-		return notExpression{
-			part: oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext)),
-		}
+	ret := oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext))
+	for range ctx.AllNOT() {
+		ret = notExpression{part: ret}
 	}
-	return oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext))
+	return ret
 }
 
 func oC_ComparisonExpression(ctx *parser.OC_ComparisonExpressionContext) Expression {
-- 
2.43.0


From 03d35042b3330a33ceb043f03ff760f9be06f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 41/45] fix: every sign in front of an operand applies, - - 'a'
 is an error

---
 ast.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ast.go b/ast.go
index 4fbb583..9d3849c 100644
--- a/ast.go
+++ b/ast.go
@@ -749,20 +749,30 @@ func oC_PowerOfExpression(ctx *parser.OC_PowerOfExpressionContext) Evaluatable {
 
 func oC_UnaryAddOrSubtractExpression(ctx *parser.OC_UnaryAddOrSubtractExpressionContext) Evaluatable {
 	ret := unaryAddOrSubtractExpression{}
+	minus := 0
 	for child := 0; child < ctx.GetChildCount(); child++ {
 		ch := ctx.GetChild(child)
 		if tok, ok := ch.(antlr.TerminalNode); ok {
 			if tok.GetText() == "-" {
-				ret.neg = !ret.neg
+				minus++
 			}
 		} else if expr, ok := ch.(*parser.OC_StringListNullOperatorExpressionContext); ok {
 			ret.expr = oC_StringListNullOperatorExpression(expr)
 		}
 	}
-	if !ret.neg {
+	if minus == 0 {
 		return ret.expr
 	}
-	return &ret
+	ret.neg = true
+	result := &ret
+	for ; minus > 1; minus-- {
+		// every sign applies to what follows it
+		result = &unaryAddOrSubtractExpression{
+			neg:  true,
+			expr: stringListNullOperatorExpression{propertyOrLabels: propertyOrLabelsExpression{atom: result}},
+		}
+	}
+	return result
 }
 
 func oC_StringListNullOperatorExpression(ctx *parser.OC_StringListNullOperatorExpressionContext) stringListNullOperatorExpression {
-- 
2.43.0


From 288ebff6d84175e2f0b39e9dea49355eb66e7fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 42/45] fix: a property is not constant, even if its stored
 value says so

---
 eval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index 5772220..378c0b8 100644
--- a/eval.go
+++ b/eval.go
@@ -294,9 +294,9 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 				return RValue{}, nil
 			}
 			if n, ok := prop.(withNativeValue); ok {
-				val = ValueOf(n.GetNativeValue()).(RValue)
+				val = RValue{Value: ValueOf(n.GetNativeValue()).Get()}
 			} else {
-				val = ValueOf(prop).(RValue)
+				val = RValue{Value: ValueOf(prop).Get()}
 			}
 		} else {
 			return nil, ErrValueDoesNotHaveProperties{Value: val.Value, Property: property.String()}
-- 
2.43.0


From f643eafe7de285a9b7bb809dd9821ccf512a7812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:48 +0000
Subject: [PATCH 43/45] fix: CREATE and MERGE do not store null properties

---
 patterneval.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 356f4d9..38ba966 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -317,7 +317,10 @@ func (p *Properties) getPropertiesMap(ctx *EvalContext) (map[string]interface{},
 		}
 		properties = make(map[string]interface{})
 		for k, v := range propertiesAsValue {
-			properties[k] = v.Get()
+			// A null property is no property
+			if value := v.Get(); value != nil {
+				properties[k] = value
+			}
 		}
 	}
 	return properties, nil
-- 
2.43.0


From d47beaf64c849e521d351206e9fcab1a909f4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 44/45] fix: \u takes four hex digits even if more follow

---
 literal.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/literal.go b/literal.go
index 859eaf0..7727e76 100644
--- a/literal.go
+++ b/literal.go
@@ -168,10 +168,13 @@ func unescapeStringLiteral(s string) string {
 		case 't', 'T':
 			bld.WriteByte('\t')
 		case 'u', 'U':
-			// 8 hex digits, or 4
-			digits := 8
+			// \u takes 4 hex digits, \U takes 8, or 4
+			digits := 4
+			if s[i] == 'U' {
+				digits = 8
+			}
 			code, err := strconv.ParseUint(s[i+1:min(i+1+digits, len(s))], 16, 32)
-			if err != nil || i+1+digits > len(s) {
+			if digits == 8 && (err != nil || i+1+digits > len(s)) {
 				digits = 4
 				code, err = strconv.ParseUint(s[i+1:min(i+1+digits, len(s))], 16, 32)
 			}
-- 
2.43.0


From d4bd0731b3515d987c7bfa57a6228bb1a7a7abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:35 +0000
Subject: [PATCH 45/45] fix: characters that belong to no symbol are refused,
 not skipped

---
 lang.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lang.go b/lang.go
index e4a400b..d9776ad 100644
--- a/lang.go
+++ b/lang.go
@@ -27,6 +27,15 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 	}
 }
 
+// listenTo collects the errors of the parser, and those of its lexer, which
+// otherwise skips the characters it cannot recognize
+func (lst *errorListener) listenTo(pr *parser.CypherParser) {
+	pr.AddErrorListener(lst)
+	if lexer, ok := pr.GetTokenStream().GetTokenSource().(antlr.Lexer); ok {
+		lexer.AddErrorListener(lst)
+	}
+}
+
 // GetParser returns a parser that will parse the input string
 func GetParser(input string) *parser.CypherParser {
 	lexer := parser.NewCypherLexer(antlr.NewInputStream(input))
@@ -40,7 +49,7 @@ func GetParser(input string) *parser.CypherParser {
 func Parse(input string) (Evaluatable, error) {
 	pr := GetParser(input)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	errListener.listenTo(pr)
 	c := pr.OC_Cypher()
 	if errListener.err != nil {
 		return nil, fmt.Errorf("%w, input: %s", errListener.err, input)
@@ -74,7 +83,7 @@ func ParseAndEvaluate(input string, ctx *EvalContext) (Value, error) {
 func ParsePatternExpr(expr string) (PatternPart, error) {
 	pr := GetParser(expr)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	errListener.listenTo(pr)
 	c := pr.OC_PatternPart()
 	if errListener.err != nil {
 		return PatternPart{}, errListener.err
-- 
2.43.0

