From 473cc9b1513ff5f36eda6f12d74afba5e2e2291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:45 +0000
Subject: [PATCH 01/51] fix: keep each gap once and in ascending width order in
 the gap pool

---
 internal/gap/pool.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/internal/gap/pool.go b/internal/gap/pool.go
index 7bdd670..bd70d6a 100644
--- a/internal/gap/pool.go
+++ b/internal/gap/pool.go
@@ -8,31 +8,23 @@ type Pool struct {
 func (p *Pool) Add(g Gap) {
 	switch g := g.(type) {
 	case Single:
-		if len(p.singles) == 0 {
-			p.singles = append(p.singles, g)
-			return
-		}
 		for i, s := range p.singles {
 			if g.Width() < s.Width() {
 				p.singles = append(p.singles[:i+1], p.singles[i:]...)
 				p.singles[i] = g
 				return
 			}
-			p.singles = append(p.singles, g)
 		}
+		p.singles = append(p.singles, g)
 	case Array:
-		if len(p.arrays) == 0 {
-			p.arrays = append(p.arrays, g)
-			return
-		}
 		for i, a := range p.arrays {
 			if g.Width() < a.Width() {
 				p.arrays = append(p.arrays[:i+1], p.arrays[i:]...)
 				p.arrays[i] = g
-
 				return
 			}
 		}
+		p.arrays = append(p.arrays, g)
 	}
 }
 
-- 
2.43.0


From 541951b15b789bc257554468dd6e816769c92fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:47 +0000
Subject: [PATCH 02/51] fix: keep a gap not write safe when a status takes part
 of it

---
 internal/reg/status.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index a8ce16e..a10ddf4 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -17,9 +17,11 @@ func regAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 
 func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
+	writeSafe := true
 
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -30,7 +32,7 @@ func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
@@ -74,9 +76,11 @@ func regNonAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 
 func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
+	writeSafe := true
 
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -87,7 +91,7 @@ func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
-- 
2.43.0


From 4c6dc755541e2de24074798ab3ac4d628e5b3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:03 +0000
Subject: [PATCH 03/51] fix: widths occupied by a one register ArrayNRegs
 access not starting at bit 0

---
 pkg/fbdl/types/access.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index 48cb4cf..c17e77d 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -209,8 +209,10 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
 	startRegWidth := busWidth - startBit
+	endRegWidth := endBit + 1
 	if regCount == 1 {
-		startRegWidth = itemCount*width - startBit
+		startRegWidth = totalWidth
+		endRegWidth = totalWidth
 	}
 
 	return Access{
@@ -224,7 +226,7 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 		StartBit:      startBit,
 		EndBit:        endBit,
 		StartRegWidth: startRegWidth,
-		EndRegWidth:   endBit + 1,
+		EndRegWidth:   endRegWidth,
 	}
 }
 
-- 
2.43.0


From a54b050b9b5fc6fc6d14dea8cd52cef9273208f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:06 +0000
Subject: [PATCH 04/51] fix: non-atomic status arrays that do not fill their
 last register

---
 internal/reg/status.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index a10ddf4..a2a9881 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -109,9 +109,12 @@ func regNonAtomicStatusArray(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
 		// TODO: This is a place for adding a potential Gap.
-	} else if busWidth%st.Width == 0 || st.Count <= busWidth/st.Width || st.Width < busWidth/2 {
+	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
 		// TODO: This is a place for adding a potential Gap.
+	} else if st.Width <= busWidth/2 {
+		acs = types.MakeArrayNInRegMInEndRegAccess(st.Count, addr, st.Width)
+		// TODO: This is a place for adding a potential Gap.
 	} else if st.Width > busWidth {
 		acs = types.MakeArrayOneInNRegsAccess(st.Count, addr, st.Width)
 	} else {
-- 
2.43.0


From 207a75ecc393b6373f1e68f8bd76e9fe2238ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 05/51] fix: exact alignment to power of 2 for large sizes

---
 internal/util/util.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 02bb8f7..2766b7e 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -2,7 +2,7 @@ package util
 
 import (
 	"fmt"
-	"math"
+	"math/bits"
 )
 
 const RepoIssueUrl = "https://github.com/Functional-Bus-Description-Language/go-fbdl/issues"
@@ -99,7 +99,10 @@ func IsValidInnerType(it string, ot string) bool {
 }
 
 func AlignToPowerOf2(n int64) int64 {
-	return int64(math.Pow(2, math.Ceil(math.Log2(float64(n)))))
+	if n <= 0 {
+		return 0
+	}
+	return 1 << bits.Len64(uint64(n-1))
 }
 
 // Aligns n to multiple of m.
-- 
2.43.0


From 238301f3dc1ecca1484cd9119db62e7c0ab7547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 06/51] fix: exact bit width of ranges with a large or zero
 right bound

---
 pkg/fbdl/types/range.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/range.go b/pkg/fbdl/types/range.go
index ce1ca78..44df0a4 100644
--- a/pkg/fbdl/types/range.go
+++ b/pkg/fbdl/types/range.go
@@ -1,6 +1,6 @@
 package types
 
-import "math"
+import "math/bits"
 
 // The Range interface represents range type from the FBDL specification.
 //
@@ -23,7 +23,11 @@ type SingleRange struct {
 func (sr SingleRange) isRange() {}
 
 func (sr SingleRange) BitWidth() int64 {
-	return int64(math.Ceil(math.Log2(float64(sr.End + 1))))
+	// Single value range [0, 0] still requires one bit.
+	if sr.End <= 0 {
+		return 1
+	}
+	return int64(bits.Len64(uint64(sr.End)))
 }
 
 func (sr SingleRange) Shift(offset int64) SingleRange {
-- 
2.43.0


From 3c8367bb27b95df2caa28a8652bf8b000f727528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 07/51] fix: keep type arguments apart from type parameters and
 resolve them in every symbol

---
 internal/ins/args.go       |  5 ++++-
 internal/ins/ins.go        |  5 +++++
 internal/ins/type_chain.go | 13 ++++++-------
 internal/prs/inst.go       |  4 ----
 internal/prs/type.go       |  6 ++++--
 5 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 8bbd01a..af4716d 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -40,7 +40,10 @@ func resolveArgListsInSymbols(syms []prs.Symbol) error {
 		}
 
 		if len(f.Symbols()) > 0 {
-			return resolveArgListsInSymbols(f.Symbols())
+			err := resolveArgListsInSymbols(f.Symbols())
+			if err != nil {
+				return err
+			}
 		}
 	}
 
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 22f3c46..44c169a 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -77,6 +77,11 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 					continue
 				}
 
+				// Parameters of the type have no values outside of the instantiation.
+				if t, ok := symbol.(*prs.Type); ok && len(t.Params()) > 0 {
+					continue
+				}
+
 				f := insFunctionality(prsFn)
 
 				if pkgName == "main" && name == mainName {
diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index a0b845a..f440e2c 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -7,18 +7,17 @@ import (
 func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
 	tc := typeChain
 	i := 0
+	// Parameters of the type have values of the arguments provided by the next one in the chain.
+	for j := 0; j+1 < len(tc); j++ {
+		if t, ok := tc[j].(*prs.Type); ok {
+			t.BindParams(tc[j+1].ResolvedArgs())
+		}
+	}
 	return func() (prs.Functionality, bool) {
 		if i == len(tc) {
 			return nil, false
 		}
-		resolvedArgs := make(map[string]prs.Expr)
-		if (i+1) < len(tc) && tc[i+1].ResolvedArgs() != nil {
-			resolvedArgs = tc[i+1].ResolvedArgs()
-		}
 		typ := tc[i]
-		if resolvedArgs != nil {
-			typ.SetResolvedArgs(resolvedArgs)
-		}
 		i += 1
 		return typ, true
 	}
diff --git a/internal/prs/inst.go b/internal/prs/inst.go
index b3992f8..9c7fad1 100644
--- a/internal/prs/inst.go
+++ b/internal/prs/inst.go
@@ -33,10 +33,6 @@ func (i *Inst) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := i.resolvedArgs[name]; ok {
-		return &Const{Value: v}, nil
-	}
-
 	return i.scope.GetConst(name)
 }
 
diff --git a/internal/prs/type.go b/internal/prs/type.go
index cca11e5..33f7513 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -17,7 +17,8 @@ type Type struct {
 
 	params       []Param
 	args         ArgList
-	resolvedArgs map[string]Expr
+	resolvedArgs map[string]Expr // Arguments passed to the type of the type
+	boundParams  map[string]Expr // Values of own parameters in the current instantiation
 
 	props PropContainer
 	symbolContainer
@@ -29,7 +30,7 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.resolvedArgs[name]; ok {
+	if v, ok := t.boundParams[name]; ok {
 		return &Const{Value: v}, nil
 	}
 
@@ -59,6 +60,7 @@ func (t Type) Type() string                        { return t.typ }
 func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
 func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
+func (t *Type) BindParams(ps map[string]Expr)      { t.boundParams = ps }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
-- 
2.43.0


From 1241cddf926da48de753eddb3b02f81eba666d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 08/51] fix: evaluate parenthesised expressions

---
 internal/prs/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 29d11d9..f53c35b 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -41,6 +41,8 @@ func MakeExpr(astExpr ast.Expr, src []byte, s Scope) (Expr, error) {
 		expr, err = MakeFloat(e, src)
 	case ast.String:
 		expr = MakeString(e, src)
+	case ast.ParenExpr:
+		expr, err = MakeExpr(e.X, src, s)
 	case ast.Time:
 		expr, err = MakeTime(e, src, s)
 	case ast.UnaryExpr:
-- 
2.43.0


From 3fae51626fd9206cfbd3a525517bdef068d156ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:57 +0000
Subject: [PATCH 09/51] fix: negation operator and call of a qualified
 identifier no longer crash

---
 internal/ast/expr.go | 15 +++++++--------
 internal/prs/expr.go |  8 +++++++-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index 9b6915b..68fe81a 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -135,12 +135,7 @@ func buildExpr(ctx *context, leftOp tok.Operator) (Expr, error) {
 			expr, err = buildIdent(ctx)
 		}
 	case tok.QualIdent:
-		switch ctx.nextTok().(type) {
-		case tok.LParen:
-			expr, err = buildCallExpr(ctx)
-		default:
-			expr, err = buildQualIdent(ctx)
-		}
+		expr, err = buildQualIdent(ctx)
 	case tok.Bool:
 		expr, err = buildBool(ctx)
 	case tok.Int:
@@ -345,8 +340,12 @@ tokenLoop:
 }
 
 func buildUnaryExpr(ctx *context) (UnaryExpr, error) {
-	op := ctx.tok().(tok.Operator)
-	un := UnaryExpr{Op: op}
+	un := UnaryExpr{Op: ctx.tok()}
+	op, ok := ctx.tok().(tok.Operator)
+	if !ok {
+		// Negation is not a binary operator, it applies only to the operand.
+		op = tok.Exp{}
+	}
 	ctx.idx++
 	x, err := buildExpr(ctx, op)
 	if err != nil {
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index f53c35b..6677f4a 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -488,6 +488,7 @@ type UnaryOperator uint8
 const (
 	UnaryPlus = iota
 	UnaryMinus
+	UnaryNot
 )
 
 type UnaryExpr struct {
@@ -508,9 +509,12 @@ func (ue UnaryExpr) Eval() (val.Value, error) {
 		case UnaryMinus:
 			return -x, nil
 		default:
-			panic("operator not yet supported")
+			return nil, fmt.Errorf("unary expression, operator not supported for type '%s'", x.Type())
 		}
 	}
+	if x, ok := x.(val.Bool); ok && ue.op == UnaryNot {
+		return !x, nil
+	}
 
 	return val.Int(0), fmt.Errorf("unary expression, unknown operand type '%s'", x.Type())
 }
@@ -522,6 +526,8 @@ func MakeUnaryExpr(e ast.UnaryExpr, src []byte, s Scope) (UnaryExpr, error) {
 		op = UnaryPlus
 	case "-":
 		op = UnaryMinus
+	case "!":
+		op = UnaryNot
 	default:
 		return UnaryExpr{}, fmt.Errorf("make unary expression: invalid operator %s", text)
 	}
-- 
2.43.0


From de3bc109f0a0dbffd10db77d0f60153c9fafcbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 10/51] fix: exact integer arithmetic in expressions, error on
 overflow and division by zero

---
 internal/prs/expr.go | 94 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 89 insertions(+), 5 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 6677f4a..f4a7147 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -83,21 +83,39 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Add:
 			switch y := y.(type) {
 			case val.Int:
-				v = x + y
+				r := x + y
+				if (r > x) != (y > 0) {
+					return nil, be.overflowError()
+				}
+				v = r
 			}
 		case tok.Sub:
 			switch y := y.(type) {
 			case val.Int:
-				v = x - y
+				r := x - y
+				if (r < x) != (y > 0) {
+					return nil, be.overflowError()
+				}
+				v = r
 			}
 		case tok.Mul:
 			switch y := y.(type) {
 			case val.Int:
-				v = x * y
+				r, ok := mul(x, y)
+				if !ok {
+					return nil, be.overflowError()
+				}
+				v = r
 			}
 		case tok.Div:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, be.divByZeroError()
+				}
+				if y == -1 && x == math.MinInt64 {
+					return nil, be.overflowError()
+				}
 				if x%y == 0 {
 					v = x / y
 				} else {
@@ -107,12 +125,25 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Rem:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, be.divByZeroError()
+				}
 				v = x % y
 			}
 		case tok.Exp:
 			switch y := y.(type) {
 			case val.Int:
-				v = val.Int(int64(math.Pow(float64(x), float64(y))))
+				if y < 0 {
+					return nil, tok.Error{
+						Msg:  fmt.Sprintf("negative exponent %d", y),
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
+				r, ok := pow(x, y)
+				if !ok {
+					return nil, be.overflowError()
+				}
+				v = r
 			}
 		case tok.LShift:
 			switch y := y.(type) {
@@ -123,7 +154,11 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 						Toks: []tok.Token{be.ast.Y.Tok()},
 					}
 				}
-				v = x << y
+				r := x << y
+				if r>>y != x {
+					return nil, be.overflowError()
+				}
+				v = r
 			default:
 				return nil, tok.Error{
 					Msg:  fmt.Sprintf("right operand of left shift must be of type integer, current type %s", y.Type()),
@@ -180,6 +215,52 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 	}
 }
 
+func (be BinaryExpr) overflowError() error {
+	return tok.Error{
+		Msg:  fmt.Sprintf("result of %s operator does not fit 64-bit integer", be.op.Name()),
+		Toks: []tok.Token{be.op},
+	}
+}
+
+func (be BinaryExpr) divByZeroError() error {
+	return tok.Error{
+		Msg:  "division by zero",
+		Toks: []tok.Token{be.op},
+	}
+}
+
+// mul returns x * y, the second return is false if the result does not fit the integer type.
+func mul(x, y val.Int) (val.Int, bool) {
+	if x == 0 || y == 0 {
+		return 0, true
+	}
+	r := x * y
+	if (x == -1 && y == math.MinInt64) || (y == -1 && x == math.MinInt64) || r/y != x {
+		return 0, false
+	}
+	return r, true
+}
+
+// pow returns x ** y for natural y, the second return is false if the result does not fit the integer type.
+func pow(x, y val.Int) (val.Int, bool) {
+	r := val.Int(1)
+	ok := true
+	for y > 0 {
+		if y%2 == 1 {
+			if r, ok = mul(r, x); !ok {
+				return 0, false
+			}
+		}
+		y /= 2
+		if y > 0 {
+			if x, ok = mul(x, x); !ok {
+				return 0, false
+			}
+		}
+	}
+	return r, true
+}
+
 func MakeBinaryExpr(be ast.BinaryExpr, src []byte, s Scope) (BinaryExpr, error) {
 	x, err := MakeExpr(be.X, src, s)
 	if err != nil {
@@ -507,6 +588,9 @@ func (ue UnaryExpr) Eval() (val.Value, error) {
 		case UnaryPlus:
 			return x, nil
 		case UnaryMinus:
+			if x == math.MinInt64 {
+				return nil, fmt.Errorf("unary expression, result does not fit 64-bit integer")
+			}
 			return -x, nil
 		default:
 			return nil, fmt.Errorf("unary expression, operator not supported for type '%s'", x.Type())
-- 
2.43.0


From de979e76b897a01739993bc2af25ab483c0f2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 11/51] fix: report missing, redundant and unknown arguments

---
 internal/ins/args.go | 76 +++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 44 deletions(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index af4716d..715ee14 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -54,7 +54,6 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 	var err error
 	args := symbol.Args()
 	resolvedArgs := make(map[string]prs.Expr)
-	inPositionalArgs := true
 
 	typeSymbol, err := symbol.GetType(symbol.Type())
 	if err != nil {
@@ -63,53 +62,42 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 
 	params := typeSymbol.Params()
 
-	var argName string
-	var argHasName bool
-	for i, p := range params {
-		if inPositionalArgs {
-			if i < len(args) {
-				argHasName = args[i].Name != ""
-				argName = args[i].Name
-			} else {
-				inPositionalArgs = false
-				argHasName = false
+	for i, a := range args {
+		if a.Name == "" {
+			if i >= len(params) {
+				return nil, fmt.Errorf(
+					"too many arguments, type '%s' has %d parameters", symbol.Type(), len(params),
+				)
 			}
+			resolvedArgs[params[i].Name] = a.Value
+			continue
+		}
 
-			if argHasName {
-				inPositionalArgs = false
-				if argName == p.Name {
-					resolvedArgs[p.Name] = args[i].Value
-				} else {
-					found := false
-					for _, ar := range args {
-						if ar.Name == p.Name {
-							resolvedArgs[p.Name] = ar.Value
-							found = true
-						}
-					}
-					if !found {
-						resolvedArgs[p.Name] = p.DfltValue
-					}
-				}
-			} else {
-				if i < len(args) {
-					resolvedArgs[p.Name] = args[i].Value
-				} else {
-					resolvedArgs[p.Name] = p.DfltValue
-				}
-			}
-		} else {
-			found := false
-			for _, ar := range args {
-				if ar.Name == p.Name {
-					resolvedArgs[p.Name] = ar.Value
-					found = true
-				}
-			}
-			if !found {
-				resolvedArgs[p.Name] = p.DfltValue
+		found := false
+		for _, p := range params {
+			if p.Name == a.Name {
+				found = true
 			}
 		}
+		if !found {
+			return nil, fmt.Errorf("type '%s' has no parameter '%s'", symbol.Type(), a.Name)
+		}
+		if _, ok := resolvedArgs[a.Name]; ok {
+			return nil, fmt.Errorf("argument '%s' is already assigned", a.Name)
+		}
+		resolvedArgs[a.Name] = a.Value
+	}
+
+	for _, p := range params {
+		if _, ok := resolvedArgs[p.Name]; ok {
+			continue
+		}
+		if p.DfltValue == nil {
+			return nil, fmt.Errorf(
+				"missing argument for parameter '%s' of type '%s'", p.Name, symbol.Type(),
+			)
+		}
+		resolvedArgs[p.Name] = p.DfltValue
 	}
 
 	return resolvedArgs, nil
-- 
2.43.0


From 1d7f2d1aa16aae2460534a11c72b90d5ebc5e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 12/51] fix: report constants whose value depends on itself

---
 internal/ins/const.go |  4 +++-
 internal/prs/expr.go  | 34 ++++++++++++++++++++++++----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/internal/ins/const.go b/internal/ins/const.go
index 0c3f184..7779e4e 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -1,6 +1,8 @@
 package ins
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/constContainer"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
@@ -28,7 +30,7 @@ func constifyPkg(pp *prs.Package) *pkg.Package {
 	for _, c := range pp.Consts {
 		v, err := c.Value.Eval()
 		if err != nil {
-			panic("not yet implemented")
+			log.Fatalf("%s: cannot evaluate constant '%s': %v", c.File().Path, c.Name(), err)
 		}
 		constContainer.AddConst(&p.Consts, c.Name(), v)
 	}
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index f4a7147..c49f4f5 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -415,11 +415,18 @@ func MakeFloat(e ast.Float, src []byte) (Float, error) {
 }
 
 type DeclaredIdentifier struct {
-	x string
-	s Scope
+	x       string
+	s       Scope
+	evaling bool
 }
 
-func (di DeclaredIdentifier) Eval() (val.Value, error) {
+func (di *DeclaredIdentifier) Eval() (val.Value, error) {
+	if di.evaling {
+		return nil, fmt.Errorf("value of '%s' depends on itself", di.x)
+	}
+	di.evaling = true
+	defer func() { di.evaling = false }()
+
 	c, err := di.s.GetConst(di.x)
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating identifier '%s': %v", di.x, err)
@@ -432,16 +439,23 @@ func (di DeclaredIdentifier) Eval() (val.Value, error) {
 	return x, nil
 }
 
-func MakeDeclaredIdentifier(e ast.Ident, src []byte, s Scope) DeclaredIdentifier {
-	return DeclaredIdentifier{x: tok.Text(e.Name, src), s: s}
+func MakeDeclaredIdentifier(e ast.Ident, src []byte, s Scope) *DeclaredIdentifier {
+	return &DeclaredIdentifier{x: tok.Text(e.Name, src), s: s}
 }
 
 type QualifiedIdentifier struct {
-	x string
-	s Scope
+	x       string
+	s       Scope
+	evaling bool
 }
 
-func (qi QualifiedIdentifier) Eval() (val.Value, error) {
+func (qi *QualifiedIdentifier) Eval() (val.Value, error) {
+	if qi.evaling {
+		return nil, fmt.Errorf("value of '%s' depends on itself", qi.x)
+	}
+	qi.evaling = true
+	defer func() { qi.evaling = false }()
+
 	c, err := qi.s.GetConst(qi.x)
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating qualified identifier '%s': %v", qi.x, err)
@@ -454,8 +468,8 @@ func (qi QualifiedIdentifier) Eval() (val.Value, error) {
 	return x, nil
 }
 
-func MakeQualifiedIdentifier(e ast.QualIdent, src []byte, s Scope) QualifiedIdentifier {
-	return QualifiedIdentifier{x: tok.Text(e.Name, src), s: s}
+func MakeQualifiedIdentifier(e ast.QualIdent, src []byte, s Scope) *QualifiedIdentifier {
+	return &QualifiedIdentifier{x: tok.Text(e.Name, src), s: s}
 }
 
 type String struct {
-- 
2.43.0


From 9ceda79b5faf96487833f8a808efc94e59bb01b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 13/51] fix: report types derived from itself and types
 containing itself

---
 internal/ins/ins.go | 45 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 44c169a..3c9ec25 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -96,8 +96,35 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	return mainBus, pkgs, nil
 }
 
+// Types which instantiation is in progress.
+var insTypes []*prs.Type
+
+// enterTypes marks types from the type chain as being instantiated.
+// It reports types which instantiation contains itself.
+func enterTypes(typeChain []prs.Functionality) {
+	for _, f := range typeChain {
+		t, ok := f.(*prs.Type)
+		if !ok {
+			continue
+		}
+		for _, it := range insTypes {
+			if it == t {
+				log.Fatalf(
+					"%s:%d:%d: instantiation of type '%s' contains itself",
+					t.File().Path, t.Line(), t.Col(), t.Name(),
+				)
+			}
+		}
+		insTypes = append(insTypes, t)
+	}
+}
+
 func insFunctionality(pf prs.Functionality) fn.Functionality {
-	typeChain := resolveToBaseType(pf)
+	typeChain := resolveToBaseType(pf, nil)
+
+	insTypesCount := len(insTypes)
+	enterTypes(typeChain)
+	defer func() { insTypes = insTypes[:insTypesCount] }()
 
 	var f fn.Functionality
 	var err error
@@ -139,9 +166,21 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 	return f
 }
 
-func resolveToBaseType(f prs.Functionality) []prs.Functionality {
+// resolveToBaseType returns type chain of the functionality.
+// Derived types are functionalities which type chain resolution is in progress.
+func resolveToBaseType(f prs.Functionality, derived []prs.Functionality) []prs.Functionality {
 	typeChain := []prs.Functionality{}
 
+	for _, d := range derived {
+		if d == f {
+			log.Fatalf(
+				"%s:%d:%d: type '%s' is derived from itself",
+				f.File().Path, f.Line(), f.Col(), f.Name(),
+			)
+		}
+	}
+	derived = append(derived, f)
+
 	if !util.IsBaseType(f.Type()) {
 		var s prs.Symbol
 		var err error
@@ -158,7 +197,7 @@ func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 		}
 		typeFn := s.(prs.Functionality)
 
-		typeChain = append(typeChain, resolveToBaseType(typeFn)...)
+		typeChain = append(typeChain, resolveToBaseType(typeFn, derived)...)
 	}
 
 	typeChain = append(typeChain, f)
-- 
2.43.0


From 62ea3d6122a65c2afaebd0b489b37474f4c3073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:28 +0000
Subject: [PATCH 14/51] fix: resolve arguments against the type the
 functionality is derived from

---
 internal/ins/args.go |  2 +-
 internal/prs/type.go | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 715ee14..9f4e662 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -55,7 +55,7 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 	args := symbol.Args()
 	resolvedArgs := make(map[string]prs.Expr)
 
-	typeSymbol, err := symbol.GetType(symbol.Type())
+	typeSymbol, err := symbol.Scope().GetType(symbol.Type())
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/prs/type.go b/internal/prs/type.go
index 33f7513..748ec08 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -55,6 +55,18 @@ func (t *Type) GetType(name string) (*Type, error) {
 	return t.scope.GetType(name)
 }
 
+func (t Type) File() *File {
+	if t.file != nil {
+		return t.file
+	}
+
+	if s, ok := t.scope.(Symbol); ok {
+		return s.File()
+	}
+
+	panic("should never happen")
+}
+
 func (t Type) Kind() SymbolKind                    { return TypeDef }
 func (t Type) Type() string                        { return t.typ }
 func (t Type) Args() []Arg                         { return t.args.Args }
-- 
2.43.0


From 054f0e6dbead014de5b5db652d6294aa7a8fa6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 15/51] fix: report repeated names of all functionalities and
 constants

---
 internal/util/block/block.go                   | 15 +++++++++++++++
 internal/util/constContainer/constContainer.go |  3 +++
 internal/util/group/group.go                   | 15 +++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/internal/util/block/block.go b/internal/util/block/block.go
index c8a3d49..ea55add 100644
--- a/internal/util/block/block.go
+++ b/internal/util/block/block.go
@@ -16,11 +16,26 @@ func AddStream(b *fn.Block, s *fn.Stream)      { b.Streams = append(b.Streams, s
 func AddSubblock(b *fn.Block, s *fn.Block)     { b.Subblocks = append(b.Subblocks, s) }
 
 func HasFunctionality(blk *fn.Block, name string) bool {
+	for i := range blk.Blackboxes {
+		if blk.Blackboxes[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Configs {
 		if blk.Configs[i].Name == name {
 			return true
 		}
 	}
+	for i := range blk.Groups {
+		if blk.Groups[i].Name == name {
+			return true
+		}
+	}
+	for i := range blk.Irqs {
+		if blk.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Masks {
 		if blk.Masks[i].Name == name {
 			return true
diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index ec9ae74..eb5941f 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -13,6 +13,9 @@ func HasConst(c cnst.Container, name string) bool {
 	if _, ok := c.BoolLists[name]; ok {
 		return true
 	}
+	if _, ok := c.Floats[name]; ok {
+		return true
+	}
 	if _, ok := c.Ints[name]; ok {
 		return true
 	}
diff --git a/internal/util/group/group.go b/internal/util/group/group.go
index 1265cbd..d1cc27c 100644
--- a/internal/util/group/group.go
+++ b/internal/util/group/group.go
@@ -12,11 +12,26 @@ func HasFunctionality(grp *fn.Group, name string) bool {
 			return true
 		}
 	}
+	for i := range grp.Irqs {
+		if grp.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Masks {
 		if grp.Masks[i].Name == name {
 			return true
 		}
 	}
+	for i := range grp.Params {
+		if grp.Params[i].Name == name {
+			return true
+		}
+	}
+	for i := range grp.Returns {
+		if grp.Returns[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Statics {
 		if grp.Statics[i].Name == name {
 			return true
-- 
2.43.0


From e2488ec42dade6d50f246e6d1c1e63894386fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 16/51] fix: bit strings of negative values and exact range
 check for wide ones

---
 internal/val/bit_str.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/internal/val/bit_str.go b/internal/val/bit_str.go
index 009a3c7..f010ec5 100644
--- a/internal/val/bit_str.go
+++ b/internal/val/bit_str.go
@@ -132,8 +132,16 @@ func makeHexBitStr(s string) (BitStr, error) {
 func BitStrFromInt(v Int, width int64) (BitStr, error) {
 	i := int64(v)
 
-	max := int64(math.Pow(float64(2), float64(width))) - int64(1)
-	min := -int64(math.Pow(float64(2), float64(width-1)))
+	max := int64(math.MaxInt64)
+	if width < 63 {
+		max = 1<<width - 1
+	}
+	min := int64(math.MinInt64)
+	if width < 1 {
+		min = 0
+	} else if width < 64 {
+		min = -(1 << (width - 1))
+	}
 
 	if i > max {
 		return BitStr(""),
@@ -149,21 +157,18 @@ func BitStrFromInt(v Int, width int64) (BitStr, error) {
 			)
 	}
 
-	if i >= 0 {
-		var s string
-		if width%4 == 0 {
-			s = fmt.Sprintf("x\"%0*x\"", width/4, i)
-		} else if width%3 == 0 {
-			s = fmt.Sprintf("o\"%0*o\"", width/3, i)
-		} else {
-			s = fmt.Sprintf("b\"%0*b\"", width, i)
-		}
-
-		return BitStr(s), nil
+	format, digitWidth := byte('b'), int64(1)
+	if width%4 == 0 {
+		format, digitWidth = 'x', 4
+	} else if width%3 == 0 {
+		format, digitWidth = 'o', 3
 	}
 
-	// Negative value handling
-	panic("BitStrFromInt, negative value handling not yet implemented")
+	digits := make([]byte, width/digitWidth)
+	for d := len(digits) - 1; d >= 0; d-- {
+		digits[d] = "0123456789abcdef"[i&(1<<digitWidth-1)]
+		i >>= digitWidth
+	}
 
-	//return BitStr(""), nil
+	return BitStr(fmt.Sprintf("%c\"%s\"", format, digits)), nil
 }
-- 
2.43.0


From ce4d1f1661af72f2332200ebce49587bdd01555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:02 +0000
Subject: [PATCH 17/51] fix: ID value and TIMESTAMP access of the functionality
 width

---
 internal/reg/reg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index 6331b57..dd20b79 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -58,7 +58,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 		hash = hash & ((1 << busWidth) - 1)
 	}
 	// Ignore error, the value has been trimmed to the proper width.
-	val, _ := val.BitStrFromInt(val.Int(hash), busWidth)
+	val, _ := val.BitStrFromInt(val.Int(hash), id.Width)
 	id.InitValue = types.MakeBitStr(val)
 	bus.Statics = append(bus.Statics, id)
 
@@ -67,7 +67,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 			log.Fatalf("'TIMESTAMP' is reserved functionality name in main bus")
 		}
 		ts := timestamp()
-		ts.Access = types.MakeSingleAccess(timestampAddr, 0, busWidth)
+		ts.Access = types.MakeSingleAccess(timestampAddr, 0, ts.Width)
 		bus.Statics = append(bus.Statics, ts)
 	}
 }
-- 
2.43.0


From 8dbf0099a118078135912a2e2ab3fe0baa590ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 18/51] fix: report array size that cannot be evaluated

---
 internal/ins/common.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index f5b0051..6da4cc6 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -26,14 +26,14 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	if inst.IsArray() {
 		isArray = true
 		v, err := inst.Count().Eval()
+		if err != nil {
+			return fn.Func{}, fmt.Errorf("%v", err)
+		}
 
 		if v.Type() != "integer" {
 			return fn.Func{}, fmt.Errorf("size of array must be of 'integer' type, current type '%s'", v.Type())
 		}
 
-		if err != nil {
-			return fn.Func{}, fmt.Errorf("%v", err)
-		}
 		count = int64(v.(val.Int))
 		if count < 0 {
 			return fn.Func{}, tok.Error{
-- 
2.43.0


From 581594554580a96e204dea678920b4a9aeb1c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 19/51] fix: report constants of unsupported types

---
 internal/ins/block.go                         |  5 ++-
 internal/ins/const.go                         |  5 ++-
 internal/ins/group.go                         |  4 +-
 .../util/constContainer/constContainer.go     | 42 +++++++++----------
 4 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 7fe70c4..65ba89d 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -5,6 +5,7 @@ import (
 	"log"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/block"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/constContainer"
@@ -98,7 +99,9 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality) error {
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
 				)
 			}
-			constContainer.AddConst(&blk.Consts, c.Name(), val)
+			if err := constContainer.AddConst(&blk.Consts, c.Name(), val); err != nil {
+				return tok.Error{Msg: err.Error(), Toks: []tok.Token{c.Tok()}}
+			}
 		}
 
 		_, ok := s.(*prs.Inst)
diff --git a/internal/ins/const.go b/internal/ins/const.go
index 7779e4e..c056cf1 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -4,6 +4,7 @@ import (
 	"log"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/constContainer"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
 )
@@ -32,7 +33,9 @@ func constifyPkg(pp *prs.Package) *pkg.Package {
 		if err != nil {
 			log.Fatalf("%s: cannot evaluate constant '%s': %v", c.File().Path, c.Name(), err)
 		}
-		constContainer.AddConst(&p.Consts, c.Name(), v)
+		if err := constContainer.AddConst(&p.Consts, c.Name(), v); err != nil {
+			log.Fatalf("%v", tok.Error{Msg: err.Error(), Toks: []tok.Token{c.Tok()}})
+		}
 	}
 
 	return &p
diff --git a/internal/ins/group.go b/internal/ins/group.go
index 7699b5b..53d0615 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -104,7 +104,9 @@ func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) err
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
 				)
 			}
-			constContainer.AddConst(&grp.Consts, c.Name(), val)
+			if err := constContainer.AddConst(&grp.Consts, c.Name(), val); err != nil {
+				return tok.Error{Msg: err.Error(), Toks: []tok.Token{c.Tok()}}
+			}
 		}
 
 		_, ok := sym.(*prs.Inst)
diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index eb5941f..e751efb 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -1,6 +1,8 @@
 package constContainer
 
 import (
+	"fmt"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
 )
@@ -29,34 +31,30 @@ func HasConst(c cnst.Container, name string) bool {
 	return false
 }
 
-func AddConst(c *cnst.Container, name string, v val.Value) {
-	switch v.(type) {
-	case val.BitStr:
-		panic("not yet implemented")
+// AddConst adds constant to the container.
+// It returns an error if the container has no place for values of given type.
+func AddConst(c *cnst.Container, name string, v val.Value) error {
+	switch v := v.(type) {
 	case val.Bool:
 		addBoolConst(c, name, v)
+		return nil
 	case val.Float:
 		addFloatConst(c, name, v)
+		return nil
 	case val.Int:
 		addIntConst(c, name, v)
+		return nil
 	case val.List:
-		switch v.(val.List)[0].(type) {
-		case val.BitStr:
-			panic("not yet implemented")
-		case val.Bool:
-			addBoolListConst(c, name, v)
-		case val.Int:
-			addIntListConst(c, name, v)
-		case val.Str:
-			panic("not yet implemented")
-		default:
-			panic("should never happen")
+		if len(v) > 0 && (addBoolListConst(c, name, v) || addIntListConst(c, name, v)) {
+			return nil
 		}
+		return fmt.Errorf("constant '%s' is neither a list of integers nor a list of bools", name)
 	case val.Str:
 		addStrConst(c, name, v)
-	default:
-		panic("should never happen")
+		return nil
 	}
+
+	return fmt.Errorf("constant '%s' of type %s is not supported", name, v.Type())
 }
 
 func addBoolConst(c *cnst.Container, name string, v val.Value) {
@@ -75,16 +73,17 @@ func addFloatConst(c *cnst.Container, name string, v val.Value) {
 	c.Floats[name] = f
 }
 
-func addBoolListConst(c *cnst.Container, name string, v val.Value) {
+func addBoolListConst(c *cnst.Container, name string, v val.Value) bool {
 	l := constifyBoolList(v.(val.List))
 	if l == nil {
-		return
+		return false
 	}
 
 	if c.BoolLists == nil {
 		c.BoolLists = map[string][]bool{name: l}
 	}
 	c.BoolLists[name] = l
+	return true
 }
 
 func addIntConst(c *cnst.Container, name string, v val.Value) {
@@ -95,16 +94,17 @@ func addIntConst(c *cnst.Container, name string, v val.Value) {
 	c.Ints[name] = i
 }
 
-func addIntListConst(c *cnst.Container, name string, v val.Value) {
+func addIntListConst(c *cnst.Container, name string, v val.Value) bool {
 	l := constifyIntList(v.(val.List))
 	if l == nil {
-		return
+		return false
 	}
 
 	if c.IntLists == nil {
 		c.IntLists = map[string][]int64{name: l}
 	}
 	c.IntLists[name] = l
+	return true
 }
 
 func addStrConst(c *cnst.Container, name string, v val.Value) {
-- 
2.43.0


From f876ddb4c804bb331b06dce98e3df338701c7ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 20/51] fix: report ceil and floor arguments which are not
 numbers

---
 internal/prs/call.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 5439258..9d33260 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -63,6 +63,8 @@ func evalCeil(c Call) (val.Value, error) {
 		return arg, nil
 	case val.Float:
 		f = float64(arg)
+	default:
+		return nil, fmt.Errorf("invalid argument type '%s' for ceil function", arg.Type())
 	}
 
 	return val.Int(int64(math.Ceil(f))), nil
@@ -81,6 +83,8 @@ func evalFloor(c Call) (val.Value, error) {
 		return arg, nil
 	case val.Float:
 		f = float64(arg)
+	default:
+		return nil, fmt.Errorf("invalid argument type '%s' for floor function", arg.Type())
 	}
 
 	return val.Int(int64(math.Floor(f))), nil
-- 
2.43.0


From b39b3f7acd7d15ab91ab13c23bae047433f2beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 21/51] fix: strip fbd- prefix from the name of the imported
 package

---
 internal/prs/import.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/import.go b/internal/prs/import.go
index 311d636..3f4ee41 100644
--- a/internal/prs/import.go
+++ b/internal/prs/import.go
@@ -29,7 +29,7 @@ func buildImports(astImports []ast.Import, src []byte) []Import {
 			path = path[1 : len(path)-1]
 			// TODO: Should it be [0] or the last element?
 			name = strings.Split(path, string(os.PathSeparator))[0]
-			if len(name) > 4 && name[0:3] == "fbd-" {
+			if len(name) > 4 && name[0:4] == "fbd-" {
 				name = name[4:]
 			}
 		} else {
-- 
2.43.0


From 1bb388349a08bda07bd1d5d63c8ab892d22f2093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:51 +0000
Subject: [PATCH 22/51] fix: package directories with short file names

---
 internal/prs/prs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index e49ed09..2d1150d 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -55,7 +55,7 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		if file.IsDir() {
 			continue
 		}
-		if file.Name()[len(file.Name())-4:] != ".fbd" {
+		if !strings.HasSuffix(file.Name(), ".fbd") {
 			continue
 		}
 
-- 
2.43.0


From 133bed08a75986ca6ac1d35a930c2f6ade97551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:55 +0000
Subject: [PATCH 23/51] fix: report functionality instantiated in multiple
 files of the package

---
 internal/prs/pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 0697fa7..3cc262a 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -65,7 +65,7 @@ func (p *Package) addInst(i *Inst) error {
 		msg := `reinstantiation of '%s' in package '%s'
   %s:%d:%d
   %s:%d:%d`
-		first, _ := p.symbolContainer.GetConst(i.name)
+		first, _ := p.symbolContainer.GetInst(i.name)
 		return fmt.Errorf(
 			msg, i.name, p.Name,
 			first.File().Path, first.Line(), first.Col(),
-- 
2.43.0


From ccbe4793b43c2a609f79c6fdffdd5f21253ce536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 24/51] fix: location in the width and range conflict message

---
 internal/prs/check.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/check.go b/internal/prs/check.go
index dc28aa3..41b1d0e 100644
--- a/internal/prs/check.go
+++ b/internal/prs/check.go
@@ -19,7 +19,7 @@ func checkPropConflict(typ string, prop Prop, props PropContainer) error {
 
 	if r, ok := props.Get("range"); ok {
 		if prop.Name == "width" {
-			return fmt.Errorf(msg, "width", "range", r.Line, r.Col)
+			return fmt.Errorf(msg, "width", "range", r.Line(), r.Col())
 		}
 	}
 
-- 
2.43.0


From 58ab7a3896ac3bf44b337fb599c41fd2f6178012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:05 +0000
Subject: [PATCH 25/51] fix: report width property set for a block

---
 internal/ins/block.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 65ba89d..b02dd02 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -33,7 +33,7 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 		if !ok {
 			break
 		}
-		err := applyBlockType(&blk, typ)
+		err := applyBlockType(&blk, typ, typeChain[0].Type())
 		if err != nil {
 			return nil, fmt.Errorf("%v", err)
 		}
@@ -44,9 +44,9 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 	return &blk, nil
 }
 
-func applyBlockType(blk *fn.Block, typ prs.Functionality) error {
+func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error {
 	for _, p := range typ.Props() {
-		if err := util.IsValidProperty(p.Name, "bus"); err != nil {
+		if err := util.IsValidProperty(p.Name, baseType); err != nil {
 			return fmt.Errorf(": %v", err)
 		}
 		if err := checkProp(p); err != nil {
-- 
2.43.0


From d5cbf7d90624ba580750d5db9a85b30f61cd310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:29 +0000
Subject: [PATCH 26/51] fix: report results of built-in functions that do not
 exist or do not fit integer

---
 internal/prs/call.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 9d33260..25c532f 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -67,7 +67,7 @@ func evalCeil(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("invalid argument type '%s' for ceil function", arg.Type())
 	}
 
-	return val.Int(int64(math.Ceil(f))), nil
+	return floatToInt(math.Ceil(f))
 }
 
 func evalFloor(c Call) (val.Value, error) {
@@ -87,7 +87,7 @@ func evalFloor(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("invalid argument type '%s' for floor function", arg.Type())
 	}
 
-	return val.Int(int64(math.Floor(f))), nil
+	return floatToInt(math.Floor(f))
 }
 
 func evalLog2(c Call) (val.Value, error) {
@@ -112,6 +112,10 @@ func evalLog2(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log2 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("log2 argument must be positive")
+	}
+
 	r := math.Log2(f)
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
@@ -142,6 +146,10 @@ func evalLog10(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log10 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("log10 argument must be positive")
+	}
+
 	r := math.Log10(f)
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
@@ -149,3 +157,11 @@ func evalLog10(c Call) (val.Value, error) {
 
 	return val.Float(r), nil
 }
+
+// floatToInt converts float with integral value to integer.
+func floatToInt(f float64) (val.Value, error) {
+	if !(-(1<<63) <= f && f < 1<<63) {
+		return nil, fmt.Errorf("value %g does not fit 64-bit integer", f)
+	}
+	return val.Int(int64(f)), nil
+}
-- 
2.43.0


From c64cc476bf039c3d9a7cac3cc00adcc43e1c28ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:34 +0000
Subject: [PATCH 27/51] fix: words with multiple hyphens or with hyphen
 followed by a number

---
 internal/tok/parse.go | 124 ++++++++++--------------------------------
 1 file changed, 29 insertions(+), 95 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 6b2db15..3b651c2 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -763,6 +763,19 @@ func isValidQualifiedIdentifier(qi []byte) bool {
 	return unicode.IsUpper(r) || unicode.IsLower(r)
 }
 
+// isPropertyPlace returns true if property name is allowed after given tokens.
+func isPropertyPlace(toks []Token) bool {
+	prevTok, ok := lastToken(toks)
+	if !ok {
+		return true
+	}
+	switch prevTok.(type) {
+	case Newline, Semicolon, Indent:
+		return true
+	}
+	return false
+}
+
 // TODO: Refactor, too complex, split into 2 (or more) functions.
 func parseWord(ctx *context, toks *[]Token) (Token, error) {
 	var t Token
@@ -770,46 +783,21 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 	word, hasHyphen, hasDot := getWord(ctx.src, ctx.idx)
 
 	qualIdentErrMsg := "symbol name in qualified identifier must start with letter"
-	if hasHyphen && hasDot {
-		// This is for sure part of an expression
-		chunks := bytes.Split(word, []byte{'-'})
-		for i, chunk := range chunks {
-			if bytes.Contains(chunk, []byte{'.'}) {
-				t = QualIdent{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-				if !isValidQualifiedIdentifier(chunk) {
-					return t, Error{qualIdentErrMsg, []Token{t}}
-				}
-			} else {
-				t = Ident{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-			}
-			if i == len(chunks)-1 {
-				return t, nil
-			}
-			*toks = append(*toks, t)
-			ctx.idx += len(chunks[i])
-			t = Sub{ctx.pos()}
-			*toks = append(*toks, t)
-			ctx.idx++
+
+	if hasHyphen {
+		isProperty := false
+		if _, ok := parseProperty(word, ctx).(None); !ok {
+			isProperty = isPropertyPlace(*toks)
 		}
-	} else if hasDot {
+		if !isProperty {
+			// Hyphen is an operator, so the word ends before the first one.
+			word = word[:bytes.IndexByte(word, '-')]
+			hasHyphen = false
+			hasDot = bytes.IndexByte(word, '.') >= 0
+		}
+	}
+
+	if hasDot {
 		// It is qualified identifier
 		t = QualIdent{position{
 			start:  ctx.idx,
@@ -827,26 +815,6 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 		return t, nil
 	}
 
-	splitHyphenatedWord := func() (Ident, Sub, Ident) {
-		i1 := Ident{ctx.pos()}
-		s := Sub{position{line: ctx.line}}
-		i2 := Ident{position{end: ctx.idx + len(word) - 1, line: ctx.line}}
-
-		for i := range word {
-			if word[i] == '-' {
-				i1.end = ctx.idx + i - 1
-
-				s.start = ctx.idx + i
-				s.end = ctx.idx + i
-				s.column = ctx.col(ctx.idx + i)
-
-				i2.start = ctx.idx + i + 1
-				i2.column = ctx.col(ctx.idx + i + 1)
-			}
-		}
-		return i1, s, i2
-	}
-
 	if !hasHyphen {
 		// Firstly assume word is a keyword
 		t = parseKeyword(word, ctx)
@@ -859,13 +827,8 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 			} else {
 				// However, properties are properties only if they are in valid place,
 				// otherwise, these are regular identifiers.
-				if prevTok, ok := lastToken(*toks); ok {
-					switch prevTok.(type) {
-					case Newline, Semicolon, Indent:
-						// Do nothing, this is property
-					default:
-						t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-					}
+				if !isPropertyPlace(*toks) {
+					t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
 				}
 			}
 		}
@@ -883,36 +846,7 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 			}
 		}
 	} else {
-		// Firstly assume word is a property
 		t = parseProperty(word, ctx)
-		// If it is not property, then it is part of an expression.
-		if _, ok := t.(None); ok {
-			// t is last, as deferred function has to calculate new context index.
-			i1, sub, i2 := splitHyphenatedWord()
-			t = i2
-			*toks = append(*toks, []Token{i1, sub, i2}...)
-			// Assing to t for updating context index in deferred function
-			t = i2
-			return None{}, nil
-		} else {
-			// It might be property, or part of an expression.
-			prevTok, ok := lastToken(*toks)
-			if !ok {
-				// Safe to return, time literal units do not contain hyphen '-'.
-				return t, nil
-			}
-			// It is part of an expression.
-			switch prevTok.(type) {
-			case Newline, Indent, Semicolon:
-				// It is property
-			default:
-				i1, sub, i2 := splitHyphenatedWord()
-				*toks = append(*toks, []Token{i1, sub, i2}...)
-				// Assing to t for updating context index in deferred function
-				t = i2
-				return None{}, nil
-			}
-		}
 	}
 
 	// The word might be the unit of time literal
-- 
2.43.0


From 6f0ed2d2aa9a12f309f3b50be63ced5b59b58ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 28/51] fix: qualified identifiers without symbol name or with
 multiple dots

---
 internal/tok/parse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 3b651c2..94e36d9 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -3,7 +3,6 @@ package tok
 import (
 	"bytes"
 	"fmt"
-	"unicode"
 )
 
 // Returns last token from the Token list.
@@ -758,9 +757,10 @@ func parseHexInt(ctx *context) (Int, error) {
 // qualified identifier does not start with upper case letter.
 func isValidQualifiedIdentifier(qi []byte) bool {
 	aux := bytes.Split(qi, []byte("."))
-	sym := aux[1]
-	r := []rune(string(sym))[0]
-	return unicode.IsUpper(r) || unicode.IsLower(r)
+	if len(aux) != 2 || len(aux[1]) == 0 {
+		return false
+	}
+	return isLetter(aux[1][0])
 }
 
 // isPropertyPlace returns true if property name is allowed after given tokens.
-- 
2.43.0


From 8d1519664197271088a5f38e408e3e8e11f1639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:08 +0000
Subject: [PATCH 29/51] fix: properties set after the body of an inner
 functionality

---
 internal/tok/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 94e36d9..4c5a918 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -770,7 +770,7 @@ func isPropertyPlace(toks []Token) bool {
 		return true
 	}
 	switch prevTok.(type) {
-	case Newline, Semicolon, Indent:
+	case Newline, Semicolon, Indent, Dedent:
 		return true
 	}
 	return false
-- 
2.43.0


From cdc3c1083dcdff01683327c529e6ac523faeb72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 30/51] fix: positions of strings spanning multiple lines and
 of tokens following them

---
 internal/tok/join.go  | 8 ++------
 internal/tok/parse.go | 8 +++++---
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/internal/tok/join.go b/internal/tok/join.go
index f3372e0..93be1a2 100644
--- a/internal/tok/join.go
+++ b/internal/tok/join.go
@@ -5,16 +5,12 @@ package tok
 //
 // It panics if:
 //   - tokens are from different source,
-//   - tokens are not in the same line,
 //   - tok1 is after tok2.
 func Join(tok1, tok2 Token) Token {
-	if tok1.Line() != tok2.Line() {
+	if tok1.Path() != tok2.Path() {
 		panic("cannot join tokens from different files")
 	}
-	if tok1.Line() != tok2.Line() {
-		panic("cannot join tokens placed in different lines")
-	}
-	if tok1.Column() > tok2.Column() {
+	if tok1.Start() > tok2.Start() {
 		panic("cannot join tokens, tok1 starts after tok2")
 	}
 
diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 4c5a918..6be93c8 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -509,12 +509,14 @@ func parseString(ctx *context) (String, error) {
 			return t, Error{"unterminated string, probably missing '\"'", []Token{t}}
 		}
 		b := ctx.byte()
-		if b != '\n' {
-			t.end++
-		}
+		t.end++
 		if b == '"' {
 			break
 		}
+		if b == '\n' {
+			ctx.line++
+			ctx.nlIdx = ctx.idx
+		}
 	}
 	ctx.idx++
 	return t, nil
-- 
2.43.0


From 8e5531f019427fedffa374cb0475f9982c19eafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 31/51] fix: float literals with signed exponent

---
 internal/tok/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 6be93c8..b1e4fd4 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -661,6 +661,9 @@ func parseNumber(ctx *context) (Number, error) {
 				}
 				hasPoint = true
 			}
+		} else if hasE && (b == '-' || b == '+') && (ctx.src[ctx.idx-1] == 'e' || ctx.src[ctx.idx-1] == 'E') {
+			// Sign of the exponent.
+			continue
 		} else if b == 'e' || b == 'E' {
 			if hasE {
 				return nil, Error{
-- 
2.43.0


From 8799c7faf801d4d43bda8bc0b436a83a600a2b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:22 +0000
Subject: [PATCH 32/51] fix: error code of unexpected end of file

---
 internal/tok/error.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tok/error.go b/internal/tok/error.go
index cbb7175..38c9e2e 100644
--- a/internal/tok/error.go
+++ b/internal/tok/error.go
@@ -74,6 +74,11 @@ func (err Error) code(tok Token) string {
 		lineEndIdx--
 	}
 
+	if lineEndIdx >= len(src) {
+		// End of file
+		lineEndIdx = len(src) - 1
+	}
+
 	line := src[lineStartIdx : lineEndIdx+1]
 
 	b.WriteRune(' ')
-- 
2.43.0


From eb865e638a1d45fb0c4cd1c265498fdee1f4e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:40 +0000
Subject: [PATCH 33/51] fix: keep documentation of inner functionalities,
 constants and types

---
 internal/ast/body.go  | 8 +++++++-
 internal/ast/build.go | 3 +++
 internal/ast/doc.go   | 4 +---
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/ast/body.go b/internal/ast/body.go
index e04a3d1..742473a 100644
--- a/internal/ast/body.go
+++ b/internal/ast/body.go
@@ -37,13 +37,16 @@ tokenLoop:
 		case tok.Const:
 			consts, err = buildConst(ctx)
 			if len(consts) > 0 {
-				if doc.endLine() == consts[0].Name.Line()+1 {
+				if doc.endLine() == consts[0].Name.Line()-1 {
 					consts[0].Doc = doc
 				}
 				body.Consts = append(body.Consts, consts...)
 			}
 		case tok.Ident:
 			ins, err = buildInst(ctx)
+			if doc.endLine() == ins.Name.Line()-1 {
+				ins.Doc = doc
+			}
 			body.Insts = append(body.Insts, ins)
 		case tok.Property:
 			props, err = buildPropAssignments(ctx)
@@ -55,6 +58,9 @@ tokenLoop:
 			}
 		case tok.Type:
 			typ, err = buildType(ctx)
+			if doc.endLine() == typ.Name.Line()-1 {
+				typ.Doc = doc
+			}
 			body.Types = append(body.Types, typ)
 		case tok.Dedent:
 			ctx.idx++
diff --git a/internal/ast/build.go b/internal/ast/build.go
index a110f87..7ec00ef 100644
--- a/internal/ast/build.go
+++ b/internal/ast/build.go
@@ -54,6 +54,9 @@ func Build(src []byte, path string) (File, error) {
 			}
 		case tok.Type:
 			typ, err = buildType(&ctx)
+			if doc.endLine() == typ.Name.Line()-1 {
+				typ.Doc = doc
+			}
 			f.Types = append(f.Types, typ)
 		default:
 			return f, unexpected(t, "const, type, identifier, import or comment")
diff --git a/internal/ast/doc.go b/internal/ast/doc.go
index 8a12d0d..f0eef2d 100644
--- a/internal/ast/doc.go
+++ b/internal/ast/doc.go
@@ -29,9 +29,7 @@ func (d Doc) Text(src []byte) string {
 			}
 		}
 
-		if len(t) > 2 {
-			text += t[start:]
-		}
+		text += t[start:]
 
 		if i < len(d.Lines)-1 {
 			text += "\n"
-- 
2.43.0


From f758076aedfca0c4dace0924e0fef3e78683c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 34/51] fix: documentation comments separated with empty lines
 and documentation of the first constant

---
 internal/ast/const.go |  9 +++++++++
 internal/ast/doc.go   | 12 +++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/ast/const.go b/internal/ast/const.go
index 8a74ab5..4f51240 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -72,7 +72,13 @@ tokenLoop:
 			switch t := ctx.tok().(type) {
 			case tok.Ident:
 				con.Name = t
+				if con.Doc.endLine() != t.Line()-1 {
+					con.Doc = Doc{}
+				}
 				state = Ass
+			case tok.Comment:
+				con.Doc = buildDoc(ctx)
+				ctx.idx--
 			default:
 				return nil, unexpected(t, "identifier")
 			}
@@ -97,6 +103,9 @@ tokenLoop:
 			switch t := ctx.tok().(type) {
 			case tok.Ident:
 				con.Name = t
+				if con.Doc.endLine() != t.Line()-1 {
+					con.Doc = Doc{}
+				}
 				state = Ass
 			case tok.Comment:
 				doc := buildDoc(ctx)
diff --git a/internal/ast/doc.go b/internal/ast/doc.go
index f0eef2d..aa2f0c0 100644
--- a/internal/ast/doc.go
+++ b/internal/ast/doc.go
@@ -42,19 +42,17 @@ func buildDoc(ctx *context) Doc {
 	doc := Doc{}
 	doc.Lines = append(doc.Lines, ctx.tok().(tok.Comment))
 
-	prevNewline := false
 	for {
 		ctx.idx++
 		switch t := ctx.tok().(type) {
 		case tok.Newline:
-			if prevNewline {
-				break
-			} else {
-				prevNewline = true
-			}
+			continue
 		case tok.Comment:
+			if t.Line() != doc.endLine()+1 {
+				// Comment separated with empty lines, it is not the same documentation.
+				doc.Lines = nil
+			}
 			doc.Lines = append(doc.Lines, t)
-			prevNewline = false
 		default:
 			return doc
 		}
-- 
2.43.0


From 74919e3bafa3918fdfb69f51c2970841ef8c0a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:30 +0000
Subject: [PATCH 35/51] fix: respect width of the main bus set in its type

---
 internal/ins/ins.go | 53 +++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 3c9ec25..63e0087 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -17,30 +17,37 @@ const dfltBusWidth int64 = 32
 var busWidth int64
 
 func setBusWidth(main *prs.Inst) error {
-	prop, ok := main.Props().Get("width")
-	if !ok {
-		busWidth = dfltBusWidth
-		return nil
-	}
+	busWidth = dfltBusWidth
 
-	v, err := prop.Value.Eval()
-	if err != nil {
-		return fmt.Errorf(
-			"%s:%s: cannot evaluate main bus 'width' property",
-			main.File().Path, prop.Loc(),
-		)
-	}
+	tci := typeChainIter(resolveToBaseType(main, nil))
+	for {
+		typ, ok := tci()
+		if !ok {
+			return nil
+		}
 
-	if vi, ok := v.(val.Int); ok {
-		busWidth = int64(vi)
-	} else {
-		return fmt.Errorf(
-			"%s:%s: main bus 'width' property must be of integer type, current type %s",
-			main.File().Path, prop.Loc(), v.Type(),
-		)
-	}
+		prop, ok := typ.Props().Get("width")
+		if !ok {
+			continue
+		}
 
-	return nil
+		v, err := prop.Value.Eval()
+		if err != nil {
+			return fmt.Errorf(
+				"%s:%s: cannot evaluate main bus 'width' property",
+				typ.File().Path, prop.Loc(),
+			)
+		}
+
+		if vi, ok := v.(val.Int); ok {
+			busWidth = int64(vi)
+		} else {
+			return fmt.Errorf(
+				"%s:%s: main bus 'width' property must be of integer type, current type %s",
+				typ.File().Path, prop.Loc(), v.Type(),
+			)
+		}
+	}
 }
 
 // Instantiate main bus within given packages scope.
@@ -52,12 +59,12 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	}
 	log.Printf("debug: instantiating '%s' as the main bus", mainName)
 
-	err = setBusWidth(main)
+	err = resolveArgLists(packages)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
 
-	err = resolveArgLists(packages)
+	err = setBusWidth(main)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
-- 
2.43.0


From 2730262e77cdccf3251c79aec87a14608cd292b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 36/51] fix: report main bus which is not a bus

---
 internal/ins/ins.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 63e0087..d9f019f 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -64,6 +64,10 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 		log.Fatalf("%v", err)
 	}
 
+	if base := resolveToBaseType(main, nil)[0].Type(); base != "bus" {
+		return nil, nil, fmt.Errorf("main bus '%s' must be of type bus, current type %s", mainName, base)
+	}
+
 	err = setBusWidth(main)
 	if err != nil {
 		log.Fatalf("%v", err)
-- 
2.43.0


From 556da1d457bc382cad6f4df56c6074748cdbc66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:21 +0000
Subject: [PATCH 37/51] fix: time literals which nanoseconds do not fit 64-bit
 integer

---
 internal/prs/expr.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index c49f4f5..0970c39 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -561,21 +561,18 @@ func MakeTime(e ast.Time, src []byte, s Scope) (Time, error) {
 func (tim Time) Eval() (val.Value, error) {
 	v, _ := tim.v.Eval()
 
-	var t val.Time
-
+	x := int64(v.(val.Int))
+	perSec := int64(1) // Number of units per second
 	switch tim.unit {
-	case "s":
-		t = val.Time{S: int64(v.(val.Int)), Ns: 0}
 	case "ms":
-		t = val.Time{S: 0, Ns: 1000000 * int64(v.(val.Int))}
+		perSec = 1000
 	case "us":
-		t = val.Time{S: 0, Ns: 1000 * int64(v.(val.Int))}
+		perSec = 1000000
 	case "ns":
-		t = val.Time{S: 0, Ns: int64(v.(val.Int))}
+		perSec = 1000000000
 	}
 
-	t.Normalize()
-	return t, nil
+	return val.Time{S: x / perSec, Ns: x % perSec * (1000000000 / perSec)}, nil
 }
 
 type UnaryOperator uint8
-- 
2.43.0


From 0cdd709c322eb885d26c40ce110c2fbae040e918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:27 +0000
Subject: [PATCH 38/51] fix: extend octal bit strings

---
 pkg/fbdl/types/bit_str.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/fbdl/types/bit_str.go b/pkg/fbdl/types/bit_str.go
index 57f0293..b470b27 100644
--- a/pkg/fbdl/types/bit_str.go
+++ b/pkg/fbdl/types/bit_str.go
@@ -3,6 +3,7 @@ package types
 import (
 	"fmt"
 	"strconv"
+	"strings"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 )
@@ -59,7 +60,7 @@ func (bs BitStr) Extend(width int64) BitStr {
 	case 'b':
 		return extendBin(bs, width)
 	case 'o':
-		panic("not yet implemented")
+		return extendOctal(bs, width)
 	case 'x':
 		return extendHex(bs, width)
 	default:
@@ -87,6 +88,16 @@ func extendBin(bs BitStr, width int64) BitStr {
 	return BitStr(string(s))
 }
 
+func extendOctal(bs BitStr, width int64) BitStr {
+	bitWidthDiff := width - bs.BitWidth()
+
+	if bitWidthDiff%3 == 0 {
+		return BitStr("o\"" + strings.Repeat("0", int(bitWidthDiff/3)) + string(bs)[2:])
+	}
+
+	return extendBin(bs.ToBin(), width)
+}
+
 func extendHex(bs BitStr, width int64) BitStr {
 	bitWidthDiff := width - bs.BitWidth()
 
-- 
2.43.0


From 29a4fbb93c52b7610de6e71cbdd9e9b1f1280561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:33 +0000
Subject: [PATCH 39/51] fix: broken symlink stops package discovery in a
 directory

---
 internal/prs/pre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index cdbd022..d3d9aad 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -90,7 +90,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 			dePath, err = filepath.EvalSymlinks(dePath)
 			// If symlink returns an error, just ignore it.
 			if err != nil {
-				return
+				continue
 			}
 		}
 
-- 
2.43.0


From 3b6c2e4ddd8229199a100f0bd96547a582abc8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 40/51] fix: report functionalities instantiated in
 functionalities without inner ones

---
 internal/ins/blackbox.go |  2 +-
 internal/ins/common.go   | 19 +++++++++++++++++++
 internal/ins/config.go   |  2 +-
 internal/ins/irq.go      |  2 +-
 internal/ins/mask.go     |  2 +-
 internal/ins/param.go    |  2 +-
 internal/ins/return.go   |  2 +-
 internal/ins/static.go   |  2 +-
 internal/ins/status.go   |  2 +-
 9 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/internal/ins/blackbox.go b/internal/ins/blackbox.go
index e3f2658..984115e 100644
--- a/internal/ins/blackbox.go
+++ b/internal/ins/blackbox.go
@@ -73,5 +73,5 @@ func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
 		}
 	}
 
-	return nil
+	return checkNoInner(typ, "blackbox")
 }
diff --git a/internal/ins/common.go b/internal/ins/common.go
index 6da4cc6..bab2a03 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -76,3 +76,22 @@ func processValue(v val.Value, width int64) (val.BitStr, error) {
 
 	return dflt, nil
 }
+
+// checkNoInner returns an error if any functionality is instantiated in the typ.
+// It is meant for functionalities that cannot have inner functionalities.
+func checkNoInner(typ prs.Functionality, baseType string) error {
+	for _, sym := range typ.Symbols() {
+		inst, ok := sym.(*prs.Inst)
+		if !ok {
+			continue
+		}
+
+		f := insFunctionality(inst)
+		return tok.Error{
+			Msg:  fmt.Sprintf(invalidInnerTypeMsg, f.GetName(), f.Type(), baseType),
+			Toks: []tok.Token{inst.Tok()},
+		}
+	}
+
+	return nil
+}
diff --git a/internal/ins/config.go b/internal/ins/config.go
index daf73f9..9fe645e 100644
--- a/internal/ins/config.go
+++ b/internal/ins/config.go
@@ -133,7 +133,7 @@ func applyConfigType(cfg *fn.Config, typ prs.Functionality, diary *configDiary)
 		}
 	}
 
-	return nil
+	return checkNoInner(typ, "config")
 }
 
 func fillConfigProps(cfg *fn.Config, diary configDiary) {
diff --git a/internal/ins/irq.go b/internal/ins/irq.go
index e20b27e..e198697 100644
--- a/internal/ins/irq.go
+++ b/internal/ins/irq.go
@@ -108,7 +108,7 @@ func applyIrqType(irq *fn.Irq, typ prs.Functionality, diary *irqDiary) error {
 		}
 	}
 
-	return nil
+	return checkNoInner(typ, "irq")
 }
 
 func fillIrqProps(irq *fn.Irq, diary irqDiary) {
diff --git a/internal/ins/mask.go b/internal/ins/mask.go
index a9bffdd..e2e79fb 100644
--- a/internal/ins/mask.go
+++ b/internal/ins/mask.go
@@ -102,7 +102,7 @@ func applyMaskType(mask *fn.Mask, typ prs.Functionality, diary *maskDiary) error
 		}
 	}
 
-	return nil
+	return checkNoInner(typ, "mask")
 }
 
 func fillMaskProps(mask *fn.Mask, diary maskDiary) {
diff --git a/internal/ins/param.go b/internal/ins/param.go
index 6c4f1f5..82fc2a5 100644
--- a/internal/ins/param.go
+++ b/internal/ins/param.go
@@ -98,7 +98,7 @@ func applyParamType(param *fn.Param, typ prs.Functionality, diary *paramDiary) e
 		}
 	}
 
-	return nil
+	return checkNoInner(typ, "param")
 }
 
 func fillParamProps(param *fn.Param, diary paramDiary) {
diff --git a/internal/ins/return.go b/internal/ins/return.go
index 31be25d..6820bb6 100644
--- a/internal/ins/return.go
+++ b/internal/ins/return.go
@@ -66,7 +66,7 @@ func applyReturnType(ret *fn.Return, typ prs.Functionality, diary *returnDiary)
 		}
 	}
 
-	return nil
+	return checkNoInner(typ, "return")
 }
 
 func fillReturnProps(ret *fn.Return, diary returnDiary) {
diff --git a/internal/ins/static.go b/internal/ins/static.go
index f75841b..ecd40c5 100644
--- a/internal/ins/static.go
+++ b/internal/ins/static.go
@@ -100,7 +100,7 @@ func applyStaticType(st *fn.Static, typ prs.Functionality, diary *staticDiary) e
 		}
 	}
 
-	return nil
+	return checkNoInner(typ, "static")
 }
 
 func fillStaticProps(st *fn.Static, diary staticDiary) {
diff --git a/internal/ins/status.go b/internal/ins/status.go
index 72fc45d..c68d48e 100644
--- a/internal/ins/status.go
+++ b/internal/ins/status.go
@@ -90,7 +90,7 @@ func applyStatusType(st *fn.Status, typ prs.Functionality, diary *statusDiary) e
 		}
 	}
 
-	return nil
+	return checkNoInner(typ, "status")
 }
 
 func fillStatusProps(st *fn.Status, diary statusDiary) {
-- 
2.43.0


From 0ddab53109a2678243d141cf818e96dbeb6e301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:41 +0000
Subject: [PATCH 41/51] fix: report group set virtual after its irqs, params or
 returns are added

---
 internal/ins/group.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/ins/group.go b/internal/ins/group.go
index 53d0615..0cd0a3a 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -164,6 +164,24 @@ func addGroupInnerElement(grp *fn.Group, f any) error {
 }
 
 func checkGroup(grp fn.Group) error {
+	// The virtual property can be set in a type following the one with the inner functionalities.
+	if grp.Virtual {
+		kind := ""
+		switch {
+		case len(grp.Irqs) > 0:
+			kind = "irq"
+		case len(grp.Params) > 0:
+			kind = "param"
+		case len(grp.Returns) > 0:
+			kind = "return"
+		}
+		if kind != "" {
+			return fmt.Errorf(
+				"group '%s' cannot be virtual, virtual %s group makes no sense", grp.Name, kind,
+			)
+		}
+	}
+
 	if len(grp.Irqs) > 0 {
 		return checkIrqGroup(grp)
 	}
-- 
2.43.0


From de3ac5e93aff15ec207045f7d0d817e6090d74d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 42/51] fix: report bus instantiated in a block

---
 internal/ins/block.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index b02dd02..c987c91 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -104,12 +104,20 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error
 			}
 		}
 
-		_, ok := s.(*prs.Inst)
+		inst, ok := s.(*prs.Inst)
 		if !ok {
 			continue
 		}
 
-		f := insFunctionality(s.(prs.Functionality))
+		// Both bus and block are instantiated as a block.
+		if resolveToBaseType(inst, nil)[0].Type() == "bus" {
+			return tok.Error{
+				Msg:  fmt.Sprintf(invalidInnerTypeMsg, inst.Name(), "bus", "block"),
+				Toks: []tok.Token{inst.Tok()},
+			}
+		}
+
+		f := insFunctionality(inst)
 
 		if !util.IsValidInnerType(f.Type(), "block") {
 			return fmt.Errorf(
-- 
2.43.0


From 110313ee8ad89ee36481ec9714b079897f8a6c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 43/51] fix: match imports with whole elements of package paths

An import path matched any package whose path merely ended with it, so
import "b" bound package fbd-bb, or failed as ambiguous when there was
also package fbd-b.
---
 internal/prs/pkg.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 3cc262a..2fd6870 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -2,6 +2,7 @@ package prs
 
 import (
 	"fmt"
+	"os"
 	"strings"
 	"sync"
 
@@ -10,13 +11,26 @@ import (
 
 type Packages map[string][]*Package
 
+// hasPathSuffix reports whether whole trailing elements of the path equal suffix.
+// The first of them may lack the "fbd-" prefix in the suffix.
+func hasPathSuffix(path, suffix string) bool {
+	if !strings.HasSuffix(path, suffix) {
+		return false
+	}
+
+	dir := strings.TrimSuffix(path, suffix)
+	dir = strings.TrimSuffix(dir, "fbd-")
+
+	return dir == "" || dir[len(dir)-1] == os.PathSeparator
+}
+
 // GetMatching returns list of pointers to packages which Path contains path suffix.
 func (packages Packages) GetMatching(path string) []*Package {
 	ret := []*Package{}
 
 	for _, pkgs := range packages {
 		for _, pkg := range pkgs {
-			if strings.HasSuffix(pkg.Path, path) {
+			if hasPathSuffix(pkg.Path, path) {
 				ret = append(ret, pkg)
 			}
 		}
-- 
2.43.0


From 1f3a97f0c54d4982969f8df6e18986b7d2aca843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:07 +0000
Subject: [PATCH 44/51] fix: allow comment and inequality operator right after
 number

width = 12# comment was rejected with an invalid character error, while
the same comment right after an identifier is accepted.
---
 internal/tok/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tok/utils.go b/internal/tok/utils.go
index ab767cf..8e85642 100644
--- a/internal/tok/utils.go
+++ b/internal/tok/utils.go
@@ -13,7 +13,7 @@ func isHexDigit(b byte) bool {
 // Returns true if character is a valid character after number literal.
 func isValidAfterNumber(b byte) bool {
 	switch b {
-	case ' ', '\t', '\n', '(', ')', ']', '-', '+', '*', '/', '%', '=', '<', '>', ';', ':', ',', '|', '&':
+	case ' ', '\t', '\n', '(', ')', ']', '-', '+', '*', '/', '%', '=', '<', '>', ';', ':', ',', '|', '&', '!', '#':
 		return true
 	}
 	return false
-- 
2.43.0


From 0df2d5b2d0c1d1bc893faa6b0f4d9d06dd0bfe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:46 +0000
Subject: [PATCH 45/51] fix: allow comments in indented imports

A comment line among indented imports was reported as an unexpected token.
---
 internal/ast/import.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ast/import.go b/internal/ast/import.go
index f9b8d46..59e4321 100644
--- a/internal/ast/import.go
+++ b/internal/ast/import.go
@@ -73,7 +73,7 @@ tokenLoop:
 				i.Path = t
 				imps = append(imps, i)
 				i = Import{}
-			case tok.Newline:
+			case tok.Newline, tok.Comment:
 				// Do nothing
 			case tok.Dedent:
 				ctx.idx++
-- 
2.43.0


From 0ab29b5bd277d07e543a5bf7b1b0b9e17457d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:29 +0000
Subject: [PATCH 46/51] fix: place interrupt enable bit within one bit wide
 registers

---
 internal/reg/irq.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/reg/irq.go b/internal/reg/irq.go
index 7e5e5eb..752ceeb 100644
--- a/internal/reg/irq.go
+++ b/internal/reg/irq.go
@@ -32,7 +32,13 @@ func regIrqSingle(irq *fn.Irq, addr int64, gp *gap.Pool) int64 {
 
 	irq.Access = types.MakeSingleAccess(addr, 0, 1)
 	if irq.AddEnable {
-		irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		enableBit := int64(1)
+		if busWidth == 1 {
+			// There is only one bit in each register.
+			addr++
+			enableBit = 0
+		}
+		irq.EnableAccess = types.MakeSingleAccess(addr, enableBit, 1)
 		addr++
 	}
 	if irq.Clear == "Explicit" {
-- 
2.43.0


From 04606675e18112b2a59a2d3d3842640a2fbc332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:09 +0000
Subject: [PATCH 47/51] fix: report values of widths which are too large for
 bit strings

---
 internal/val/bit_str.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/val/bit_str.go b/internal/val/bit_str.go
index f010ec5..7c40cad 100644
--- a/internal/val/bit_str.go
+++ b/internal/val/bit_str.go
@@ -126,6 +126,9 @@ func makeHexBitStr(s string) (BitStr, error) {
 	return BitStr("x" + s[1:]), nil
 }
 
+// maxBitStrWidth is the maximum width of a bit string that an integer can be converted to.
+const maxBitStrWidth = 1 << 24
+
 // BitStrFromInt converts val.Int to BitStr.
 // It only checks whether given value can be represented with given width.
 // It uses U2 encoding for negative values.
@@ -157,6 +160,13 @@ func BitStrFromInt(v Int, width int64) (BitStr, error) {
 			)
 	}
 
+	if width > maxBitStrWidth {
+		return BitStr(""),
+			fmt.Errorf(
+				"value of width %d is not supported, maximum width = %d", width, maxBitStrWidth,
+			)
+	}
+
 	format, digitWidth := byte('b'), int64(1)
 	if width%4 == 0 {
 		format, digitWidth = 'x', 4
-- 
2.43.0


From 364fab74d02fa7e9983430fe5a1c0ca5addbc04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:09 +0000
Subject: [PATCH 48/51] fix: counting registers of single access hangs for huge
 widths

---
 pkg/fbdl/types/access.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index c17e77d..2d3df5f 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -82,19 +82,10 @@ func MakeSingleOneRegAccess(addr, startBit, width int64) Access {
 //	|| c(0) || || c(1) || || c(2) | 24 bits gap ||
 //	---------- ---------- ------------------------
 func MakeSingleNRegsAccess(addr, startBit, width int64) Access {
-	regCount := int64(1)
-
-	endBit := int64(0)
-	w := busWidth - startBit
-	for {
-		regCount += 1
-		if w+busWidth < width {
-			w += busWidth
-		} else {
-			endBit = width - w - 1
-			break
-		}
-	}
+	// Width placed in the registers following the first one.
+	w := width - (busWidth - startBit)
+	regCount := (w-1)/busWidth + 2
+	endBit := (w - 1) % busWidth
 
 	return Access{
 		Type:          "SingleNRegs",
-- 
2.43.0


From c2df7478335e7b7bc8586218febebaa15bd928fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:09 +0000
Subject: [PATCH 49/51] fix: report blocks which are too large to be addressed

---
 internal/reg/reg.go  |  4 +++
 internal/reg/size.go | 60 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)
 create mode 100644 internal/reg/size.go

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index dd20b79..286fd7f 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -39,6 +39,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 
 	for _, sb := range bus.Subblocks {
 		sbSizes := regBlock(sb)
+		checkSubblockSize(bus, sizes, sb.Count, sbSizes)
 		sizes.Cumulated += sb.Count * sbSizes.Cumulated
 		sizes.Aligned += sb.Count * sbSizes.Aligned
 	}
@@ -73,6 +74,8 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 }
 
 func regFunctionalities(blk *fn.Block, addr int64) int64 {
+	checkFunctionalitiesSize(blk)
+
 	gp := gap.Pool{}
 
 	addr = regProcs(blk, addr)
@@ -258,6 +261,7 @@ func regBlock(blk *fn.Block) types.Sizes {
 
 	for _, sb := range blk.Subblocks {
 		b := regBlock(sb)
+		checkSubblockSize(blk, sizes, sb.Count, b)
 		sizes.Cumulated += sb.Count * b.Cumulated
 		sizes.Aligned += sb.Count * b.Aligned
 	}
diff --git a/internal/reg/size.go b/internal/reg/size.go
new file mode 100644
index 0000000..f178998
--- /dev/null
+++ b/internal/reg/size.go
@@ -0,0 +1,60 @@
+package reg
+
+import (
+	"log"
+
+	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
+)
+
+// maxSize is the maximum size of a block, both in bits of its functionalities and in registers.
+// It guarantees that neither addresses nor sizes overflow.
+const maxSize = int64(1) << 48
+
+// addItems returns size increased by the size of count items.
+func addItems(blk *fn.Block, size int64, count int64, itemSize int64) int64 {
+	if count > (maxSize-size)/max(itemSize, 1) {
+		log.Fatalf("size of '%s' exceeds maximum supported size %d", blk.Name, maxSize)
+	}
+	return size + count*itemSize
+}
+
+// checkSubblockSize checks that count items of the subblock can be added to the sizes of the block.
+func checkSubblockSize(blk *fn.Block, sizes types.Sizes, count int64, subblock types.Sizes) {
+	addItems(blk, sizes.Cumulated, count, subblock.Cumulated)
+	addItems(blk, sizes.Aligned, count, subblock.Aligned)
+}
+
+// checkFunctionalitiesSize checks that functionalities of the block are not too large to be addressed.
+func checkFunctionalitiesSize(blk *fn.Block) {
+	size := int64(0)
+
+	for _, p := range blk.Procs {
+		size = addParamsAndReturns(blk, size, p.Params, p.Returns)
+	}
+	for _, s := range blk.Streams {
+		size = addParamsAndReturns(blk, size, s.Params, s.Returns)
+	}
+	for _, c := range blk.Configs {
+		size = addItems(blk, size, c.Count, c.Width)
+	}
+	for _, m := range blk.Masks {
+		size = addItems(blk, size, m.Count, m.Width)
+	}
+	for _, s := range blk.Statics {
+		size = addItems(blk, size, s.Count, s.Width)
+	}
+	for _, s := range blk.Statuses {
+		size = addItems(blk, size, s.Count, s.Width)
+	}
+}
+
+func addParamsAndReturns(blk *fn.Block, size int64, params []*fn.Param, returns []*fn.Return) int64 {
+	for _, p := range params {
+		size = addItems(blk, size, p.Count, p.Width)
+	}
+	for _, r := range returns {
+		size = addItems(blk, size, r.Count, r.Width)
+	}
+	return size
+}
-- 
2.43.0


From 7364ca6d1be00ee860d7b94cc33544b5d319d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 50/51] fix: array marker of a type was ignored

---
 internal/ins/common.go     | 34 ++++++++++++++++++++++++++++++++--
 internal/ins/type_chain.go | 13 +++++++++----
 internal/prs/type.go       |  2 +-
 3 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index bab2a03..3df33ad 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -23,9 +23,15 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	isArray := false
 	count := int64(1)
 
-	if inst.IsArray() {
+	// Array marker can be placed in the instantiation or in one of the types.
+	array, err := arrayInTypeChain(typeChain)
+	if err != nil {
+		return fn.Func{}, err
+	}
+
+	if array != nil {
 		isArray = true
-		v, err := inst.Count().Eval()
+		v, err := array.Count().Eval()
 		if err != nil {
 			return fn.Func{}, fmt.Errorf("%v", err)
 		}
@@ -51,6 +57,30 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	}, nil
 }
 
+// arrayInTypeChain returns the only functionality in the type chain with the array marker.
+// It returns nil if there is no such functionality.
+func arrayInTypeChain(typeChain []prs.Functionality) (prs.Functionality, error) {
+	var array prs.Functionality
+
+	for _, f := range typeChain {
+		if !f.IsArray() {
+			continue
+		}
+		if array != nil {
+			return nil, tok.Error{
+				Msg:  fmt.Sprintf("'%s' is already an array in one of ancestor types", f.Name()),
+				Toks: []tok.Token{f.Tok()},
+			}
+		}
+		array = f
+	}
+
+	// The size of the array can depend on the parameters of the type.
+	bindParams(typeChain)
+
+	return array, nil
+}
+
 // processValue processes the '*-value' property.
 // If the value is BitStr, it checks whether its width is not greater than the width.
 // If the value is Int, it tries to convert it to the BitStr with width of width argument.
diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index f440e2c..a47f51a 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -4,15 +4,20 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 )
 
-func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
-	tc := typeChain
-	i := 0
-	// Parameters of the type have values of the arguments provided by the next one in the chain.
+// bindParams binds parameters of types from the type chain.
+// Parameters of the type have values of the arguments provided by the next one in the chain.
+func bindParams(tc []prs.Functionality) {
 	for j := 0; j+1 < len(tc); j++ {
 		if t, ok := tc[j].(*prs.Type); ok {
 			t.BindParams(tc[j+1].ResolvedArgs())
 		}
 	}
+}
+
+func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
+	tc := typeChain
+	i := 0
+	bindParams(tc)
 	return func() (prs.Functionality, bool) {
 		if i == len(tc) {
 			return nil, false
diff --git a/internal/prs/type.go b/internal/prs/type.go
index 748ec08..47bedd9 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -76,7 +76,7 @@ func (t *Type) BindParams(ps map[string]Expr)      { t.boundParams = ps }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
-func (t Type) IsArray() bool                       { return false }
+func (t Type) IsArray() bool                       { return t.count != nil }
 func (t Type) Count() Expr                         { return t.count }
 
 // buildTypes builds list of Types based on the list of ast.Type.
-- 
2.43.0


From 36b419c0630e783054828353dff7195a24483732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:33 +0000
Subject: [PATCH 51/51] fix: error at empty lines showed more than the line it
 names

---
 internal/tok/error.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/tok/error.go b/internal/tok/error.go
index 38c9e2e..5de45c7 100644
--- a/internal/tok/error.go
+++ b/internal/tok/error.go
@@ -71,7 +71,8 @@ func (err Error) code(tok Token) string {
 			lineEndIdx++
 		}
 	} else {
-		lineEndIdx--
+		// Newline token might span multiple lines, show only the first one.
+		lineEndIdx = tok.Start() - 1
 	}
 
 	if lineEndIdx >= len(src) {
@@ -101,9 +102,14 @@ func (err Error) code(tok Token) string {
 		col++
 	}
 
+	width := tok.End() - tok.Start() + 1
+	if _, ok := tok.(Newline); ok {
+		width = 1
+	}
+
 	colorPrefix, colorSuffix := err.getColor()
 	b.WriteString(colorPrefix)
-	for col < tok.Column()+(tok.End()-tok.Start()+1) {
+	for col < tok.Column()+width {
 		b.WriteRune('^')
 		col++
 	}
-- 
2.43.0

