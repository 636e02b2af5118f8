package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
)

func init() {
	reg_("ArithAdd", ArithAdd)
	reg_("ArithMul", ArithMul)
	reg_("ArithDiv", ArithDiv)
	reg_("ArithShift", ArithShift)
	reg_("ArithExp", ArithExp)
	reg_("ArithFunc", ArithFunc)
	reg_("ArithTypes", ArithTypes)
}

const maxInt = int64(1)<<62 + (1<<62 - 1)

// operand is the definition of a constant with an arbitrary value of either sign.
func operand(name string, max int64) (def string, x int64) {
	l, x := v.Lit(name, 0, max)
	if v.Choice(name+".neg", 2) == 1 {
		if max == maxInt && v.Choice(name+".min", 2) == 1 {
			return "const " + name + " = -9223372036854775807 - 1\n", -maxInt - 1
		}
		return "const " + name + " = -" + l + "\n", -x
	}
	return "const " + name + " = " + l + "\n", x
}

// result asserts that the expression has the integer value r, or is rejected when it
// does not fit.
func result(defs, expr string, fits bool, r int64) {
	c, res := evalConst(defs, expr)
	v.Assert(res != 1 && res != 3, "P18:crash")
	v.Assert(v.Iff(fits, res == 0), "P18:overflow")
	if res != 0 {
		return
	}
	got, ok := intR(c)
	v.Assert(ok && v.Decide(got == r), "P18:value")
	v.Reach("end")
}

// ArithAdd: sums, differences and signs over all 64 bit integers.
func ArithAdd() {
	v.FreeHash()
	da, x := operand("A", maxInt)
	db, y := operand("B", maxInt)
	switch v.Choice("op", 4) {
	case 0:
		r := x + y
		over := v.Or(all(x >= 0, y >= 0, r < 0), all(x < 0, y < 0, r >= 0))
		result(da+db, "A + B", v.Not(over), r)
	case 1:
		r := x - y
		over := v.Or(all(x >= 0, y < 0, r < 0), all(x < 0, y >= 0, r >= 0))
		result(da+db, "A - B", v.Not(over), r)
	case 2:
		result(da, "-A", x != -maxInt-1, -x)
	case 3:
		result(da, "+A", true, x)
	}
}

// ArithMul: products, over all 64 bit integers for one operand and a set of the
// other, and over both operands of up to 2^20 (thorough 2^31).
func ArithMul() {
	v.FreeHash()
	if v.Choice("form", 2) == 0 {
		max := int64(1) << 20
		if v.Thorough() {
			max = 1 << 31
		}
		da, x := operand("A", max)
		db, y := operand("B", max)
		result(da+db, "A * B", true, x*y)
		return
	}
	ks := []int64{0, 1, 2, 3, 7, 10, 1 << 31, 1<<32 + 1, 1 << 62, maxInt}
	k := ks[v.Choice("k", len(ks))]
	kt := v.LitOf(k)
	da, x := operand("A", maxInt)
	neg := v.Choice("neg", 2) == 1
	fits := true
	if neg {
		kt = "-" + kt
		k = -k
		// -k*x in range: x in [-(2^63-1)/k .. 2^63/k] for positive k
		if k != 0 {
			hi := maxInt / -k // floor
			lo := -hi
			if v.Decide(k == -1) {
				fits = x != -maxInt-1
			} else {
				mh := (maxInt/-k)*-k + -k - 1 // is 2^63 divisible by -k
				if mh == maxInt {
					fits = v.And(x >= lo, x <= hi+1)
				} else {
					fits = v.And(x >= lo, x <= hi)
				}
			}
		}
	} else if k != 0 {
		hi := maxInt / k
		mh := hi*k + (k - 1)
		if k == 1 {
			fits = true
		} else if mh == maxInt {
			fits = v.And(x >= -hi-1, x <= hi)
		} else {
			fits = v.And(x >= -hi, x <= hi)
		}
	}
	expr := "A * K"
	if v.Choice("swap", 2) == 1 {
		expr = "K * A"
	}
	result(da+"const K = "+kt+"\n", expr, fits, x*k)
}

// ArithDiv: quotients and remainders.
func ArithDiv() {
	v.FreeHash()
	var da, db string
	var x, y int64
	if v.Choice("form", 2) == 0 {
		max := int64(1) << 10
		if v.Thorough() {
			max = 1 << 16
		}
		da, x = operand("A", max)
		db, y = operand("B", max)
	} else {
		ks := []int64{0, 1, 2, 3, 8, 10, 1 << 40, maxInt}
		y = ks[v.Choice("k", len(ks))]
		db = "const B = " + v.LitOf(y) + "\n"
		if v.Choice("neg", 2) == 1 {
			db = "const B = -" + v.LitOf(y) + "\n"
			y = -y
		}
		da, x = operand("A", maxInt)
	}
	if v.Choice("op", 2) == 0 {
		if v.Decide(y == 0) {
			result(da+db, "A % B", false, 0)
			return
		}
		result(da+db, "A % B", true, x%y)
		return
	}
	v.Assume(anyOf(y == 0, v.And(within(-(1<<53), x, 1<<53), within(-(1<<53), y, 1<<53)), x%v.Ite(y == 0, 1, y) == 0))
	c, res := evalConst(da+db, "A / B")
	v.Assert(res != 1 && res != 3, "P18:crash")
	bad := v.Or(y == 0, v.And(y == -1, x == -maxInt-1))
	v.Assert(v.Iff(bad, res == 2), "P18:overflow")
	if res != 0 {
		return
	}
	got, isInt := intR(c)
	if v.Decide(x%y == 0) {
		v.Assert(isInt && v.Decide(v.And(got*y == x, v.Or(y == -1, got == x/y))), "P18:value")
		v.Reach("end")
		return
	}
	_, isFloat := c.Floats["R"]
	v.Assert(isFloat && !isInt, "P18:value")
}

// ArithShift: shifts are products and floored quotients by powers of two.
func ArithShift() {
	v.FreeHash()
	da, x := operand("A", maxInt)
	db, y := operand("B", 100)
	if v.Choice("op", 2) == 0 {
		fits := y >= 0
		// x << y fits when x is within [-2^(63-y), 2^(63-y))
		if v.Decide(v.And(y >= 0, y <= 63)) {
			if v.Decide(y == 0) {
				result(da+db, "A << B", true, x)
				return
			}
			lim := int64(1) << uint(63-y) // y >= 1
			fits = v.And(x >= -lim, x < lim)
			result(da+db, "A << B", fits, x<<uint(y))
			return
		}
		result(da+db, "A << B", v.And(fits, x == 0), 0)
		return
	}
	r := int64(0)
	if v.Decide(v.And(y >= 0, y <= 63)) {
		r = x >> uint(y)
	} else {
		r = v.Ite(x < 0, -1, 0)
	}
	result(da+db, "A >> B", y >= 0, r)
}

// ArithExp: powers by repeated multiplication.
func ArithExp() {
	v.FreeHash()
	base := int64(v.Choice("base", 14)) - 3
	bt := num(int(base))
	if base < 0 {
		bt = "-" + num(int(-base))
	}
	max := int64(12)
	if v.Thorough() {
		max = 70
	}
	n := max - v.Conc(v.Int("n", 0, max+1)) // -1..max
	if v.Choice("big", 2) == 1 {
		n += 52
	}
	nt := num(int(n))
	if n < 0 {
		nt = "-1"
	}
	r, fits := int64(1), n >= 0
	for i := int64(0); i < n && fits; i++ {
		p := r * base
		if base != 0 && (p/base != r) {
			fits = false
		}
		r = p
	}
	result("const A = "+bt+"\nconst B = "+nt+"\n", "A ** B", fits, r)
}

// ArithFunc: the built-in functions of integers and of fractions.
func ArithFunc() {
	v.FreeHash()
	switch v.Choice("func", 6) {
	case 0: // ceil and floor of an integer
		da, x := operand("A", maxInt)
		result(da, []string{"ceil(A)", "floor(A)"}[v.Choice("f", 2)], true, x)
	case 1: // ceil and floor of a quotient
		da, x := operand("A", 1<<16)
		ys := []int64{1, 2, 3, 5, 7, 10, 64, 1000, 12345}
		y := ys[v.Choice("B", len(ys))]
		lb := num(int(y))
		if v.Choice("f", 2) == 0 {
			r := v.Ite(x > 0, (x+y-1)/y, -(-x / y))
			result(da+"const B = "+lb+"\n", "ceil(A / B)", true, r)
			return
		}
		r := v.Ite(x >= 0, x/y, -((-x + y - 1) / y))
		result(da+"const B = "+lb+"\n", "floor(A / B)", true, r)
	case 2: // bool
		da, x := operand("A", maxInt)
		c, res := evalConst(da, "bool(A)")
		v.Assert(res == 0, "P18:overflow")
		b, ok := c.Bools["R"]
		v.Assert(ok && v.Decide(b == (x != 0)), "P18:value")
		v.Reach("end")
	case 3: // log2 of powers of two
		n := v.Choice("n", 63)
		result("", "log2("+v.LitOf(int64(1)<<uint(n))+")", true, int64(n))
	case 4: // log2 of numbers which are not powers of two: between the neighbours
		la, x := v.Lit("A", 3, 1<<16)
		v.Assume(x&(x-1) != 0)
		r := int64(0)
		for i := int64(1); i <= 16; i++ {
			r = v.Ite(x > int64(1)<<uint(i-1), i, r)
		}
		if v.Choice("f", 2) == 0 {
			result("", "ceil(log2("+la+"))", true, r)
		} else {
			result("", "floor(log2("+la+"))", true, r-1)
		}
	case 5: // not positive
		la, x := v.Lit("A", 0, 1<<53)
		f := []string{"log2", "log10"}[v.Choice("f", 2)]
		v.Observe("x", x)
		result("", f+"(-"+la+")", false, 0)
	}
}

// ArithTypes: an operator or function applied to operands it is not defined for is
// rejected, whatever the operands.
func ArithTypes() {
	v.FreeHash()
	li, x := v.Lit("i", 1, 6)
	ops := []string{"+", "-", "*", "/", "%", "**", "<<", ">>", ":", "&&", "||", "==", "<"}
	vals := []string{li, "true", "1.5", "\"s\"", "1 ns", "b\"1\"", "[1]", "(1:2)"}
	a, b := v.Choice("a", len(vals)), v.Choice("b", len(vals))
	switch v.Choice("form", 3) {
	case 0:
		o := v.Choice("op", len(ops))
		_, res := evalConst("", vals[a]+" "+ops[o]+" "+vals[b])
		v.Assert(res != 1 && res != 3, "P18:crash")
		if a != 0 || b != 0 {
			v.Assert(res == 2, "P18:types")
		}
	case 1:
		if b > 2 {
			return
		}
		op := []string{"-", "!", "+"}[b]
		_, res := evalConst("", op+vals[a])
		v.Assert(res != 1 && res != 3, "P18:crash")
		ok := op != "!" && a == 0 || op == "!" && a == 1
		v.Assert(ok == (res == 0), "P18:types")
	case 2:
		if b > 4 {
			return
		}
		f := []string{"bool", "ceil", "floor", "log2", "log10"}[b]
		arg := vals[a]
		n := v.Choice("args", 3)
		if n == 0 {
			arg = ""
		} else if n == 2 {
			arg += ", 1"
		}
		_, res := evalConst("", f+"("+arg+")")
		v.Assert(res != 1 && res != 3, "P18:crash")
		ok := n == 1 && (a == 0 || a == 2 && f != "bool")
		v.Assert(ok == (res == 0), "P18:types")
	}
	v.Observe("x", x)
	v.Reach("end")
}
