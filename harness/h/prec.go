package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
)

func init() {
	reg_("Precedence", Precedence)
	reg_("ParenLayout", ParenLayout)
	reg_("OperandKinds", OperandKinds)
}

// node is an expression built by the harness: its value and whether it has one.
type node struct {
	x   int64
	bad bool
}

var opPrec = map[string]int{"**": 6, "*": 5, "%": 5, "<<": 5, ">>": 5, "+": 4, "-": 4}

func apply(op string, a, b node) node {
	bad := v.Or(a.bad, b.bad)
	x, y := a.x, b.x
	switch op {
	case "+":
		r := x + y
		return node{r, v.Or(bad, (r > x) != (y > 0))}
	case "-":
		r := x - y
		return node{r, v.Or(bad, (r < x) != (y > 0))}
	case "*":
		return node{x * y, bad}
	case "%":
		z := v.Ite(y == 0, 1, y)
		return node{x % z, v.Or(bad, y == 0)}
	case "<<":
		in := within(0, y, 62)
		k := v.Ite(in, y, 0)
		r := x << uint(k)
		return node{v.Ite(in, r, 0), anyOf(bad, y < 0, v.And(v.Not(in), x != 0), r>>uint(k) != x)}
	case ">>":
		in := within(0, y, 62)
		k := v.Ite(in, y, 62)
		return node{x >> uint(k), v.Or(bad, y < 0)}
	case "**": // concrete operands
		if bad || y < 0 {
			return node{0, true}
		}
		r := int64(1)
		for i := int64(0); i < y; i++ {
			p := r * x
			if x != 0 && p/x != r {
				return node{0, true}
			}
			r = p
		}
		return node{r, false}
	}
	return node{0, true}
}

// reduce evaluates operands joined by operators: the leftmost of the operators that
// bind the tightest goes first.
func reduce(xs []node, ops []string) node {
	xs = append([]node{}, xs...)
	ops = append([]string{}, ops...)
	for len(ops) > 0 {
		k := 0
		for i := range ops {
			if opPrec[ops[i]] > opPrec[ops[k]] {
				k = i
			}
		}
		xs[k] = apply(ops[k], xs[k], xs[k+1])
		xs = append(xs[:k+1], xs[k+2:]...)
		ops = append(ops[:k], ops[k+1:]...)
	}
	return xs[0]
}

// Precedence: the value of an expression with operators of different precedence,
// parentheses and signs.
func Precedence() {
	v.FreeHash()
	n := 3
	if v.Thorough() {
		n = 4
	}
	names := []string{"+", "-", "*", "%", "<<", ">>", "**"}
	ops := []string{}
	pow := false
	for i := 0; i < n-1; i++ {
		o := names[v.Choice("op", len(names))]
		pow = pow || o == "**"
		ops = append(ops, o)
	}
	l, r := 0, n // parenthesised operands
	switch k := v.Choice("paren", 4); {
	case k == 1:
		r = n - 1
	case k == 2:
		l = 1
	case k == 3 && n == 4:
		l, r = 1, 3
	case k == 3:
		l, r = 1, 2
	}
	neg := v.Choice("neg", n+1) - 1 // operand with a sign
	if neg > 0 && (neg != l || l == 0) {
		// a sign within an expression is always in parentheses
		neg = -1
	}
	xs := []node{}
	text := ""
	space := []string{"", " "}[v.Choice("space", 2)]
	for i := 0; i < n; i++ {
		hi := int64(6)
		if pow {
			hi = 3
		}
		t, x := v.Lit("x", 1, hi)
		if pow {
			x = v.Conc(x)
			t = v.LitOf(x)
		}
		if i > 0 {
			text += space + ops[i-1] + space
		}
		if i == l && (l > 0 || r < n) {
			text += "("
		}
		if i == neg {
			text += "-"
		}
		text += t
		if i == r-1 && (l > 0 || r < n) {
			text += ")"
		}
		xs = append(xs, node{x: x})
	}
	// a sign before the first operand of a parenthesis or of the whole expression
	// takes the product which follows
	group := func(ys []node, zs []string, sign bool) node {
		if sign {
			k := 0
			for k < len(zs) && opPrec[zs[k]] > 4 {
				k++
			}
			p := reduce(ys[:k+1], zs[:k])
			p.x = -p.x
			ys = append([]node{p}, ys[k+1:]...)
			zs = zs[k:]
		}
		return reduce(ys, zs)
	}
	want := node{}
	if l == 0 && r == n {
		want = group(xs, ops, neg == 0)
	} else {
		p := group(xs[l:r], ops[l:r-1], neg == l)
		ys := append(append(append([]node{}, xs[:l]...), p), xs[r:]...)
		zs := append(append([]string{}, ops[:l]...), ops[r-1:]...)
		want = group(ys, zs, neg == 0 && l > 0)
	}
	c, res := evalConst("", text)
	v.Assert(res != 1 && res != 3, "P19:crash")
	v.Assert(v.Iff(want.bad, res == 2), "P19:accepted")
	if res != 0 {
		return
	}
	got, ok := intR(c)
	v.Assert(ok && v.Decide(got == want.x), "P19:value")
	v.Reach("end")
}

// ParenLayout: parentheses around any part and spaces do not change the value.
func ParenLayout() {
	v.FreeHash()
	la, a := v.Lit("a", 0, 1000)
	lb, b := v.Lit("b", 1, 1000)
	lc, c := v.Lit("c", 0, 1000)
	p := func(s string) string {
		switch v.Choice("p", 4) {
		case 1:
			return "(" + s + ")"
		case 2:
			return "((" + s + "))"
		case 3:
			return "( " + s + " )"
		}
		return s
	}
	var want int64
	text := ""
	switch v.Choice("shape", 4) {
	case 0:
		text, want = p(p(la)+" + "+p(lb)+" * "+p(lc)), a+b*c
	case 1:
		text, want = p(p("("+la+" - "+lb+")")+"*"+p(lc)), (a-b)*c
	case 2:
		text, want = p(la)+" - "+p("("+lb+" - "+lc+")"), a-(b-c)
	case 3:
		text, want = "-"+p("("+la+" + "+lb+")")+" - "+p(lc), -(a+b)-c
	}
	k, res := evalConst("", text)
	v.Assert(res == 0, "P19:accepted")
	got, ok := intR(k)
	v.Assert(ok && v.Decide(got == want), "P19:value")
	v.Reach("end")
}

// OperandKinds: an operand may be a literal, a constant, a constant of a package, a
// call, a parenthesis or a signed one, on either side of any operator.
func OperandKinds() {
	v.FreeHash()
	v.File("fbd-q/q.fbd", "const k = 7\n")
	defs := "import \"q\"\nconst K = 5\n"
	one := func(id string) (string, int64) {
		l, x := v.Lit(id, 1, 9)
		switch v.Choice(id, 9) {
		case 0:
			return l, x
		case 1:
			return "K", 5
		case 2:
			return "q.k", 7
		case 3:
			return "ceil(" + l + ")", x
		case 4:
			return "floor(" + l + " + K)", x + 5
		case 5:
			return "(" + l + " - K)", x - 5
		case 6:
			return "0x1f", 31
		case 7:
			return "(-" + l + ")", -x
		default:
			return "ceil(-" + l + " - q.k)", -x - 7
		}
	}
	ta, a := one("a")
	tb, b := one("b")
	o := []string{"+", "-", "*", "<<"}[v.Choice("op", 4)]
	if o == "<<" {
		v.Assume(v.And(b >= 0, b < 40))
	}
	sp := []string{"", " "}[v.Choice("space", 2)]
	want := apply(o, node{x: a}, node{x: b})
	sign := v.Choice("sign", 3)
	text := ta + sp + o + sp + tb
	if sign > 0 {
		op := []string{"", "-", "+"}[sign]
		text = op + "(" + text + ")"
		if sign == 1 {
			want.x = -want.x
		}
	}
	c, res := evalConst(defs, text)
	v.Assert(res == 0, "P19:accepted")
	got, ok := intR(c)
	v.Assert(ok && v.Decide(got == want.x), "P19:value")
	v.Reach("end")
}
