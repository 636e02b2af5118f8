package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
)

func init() {
	reg_("ConstExact", ConstExact)
	reg_("ConstInt", ConstInt)
	reg_("ConstStr", ConstStr)
}

// compileAll runs the tool on the files already created, see compile.
func compileAll(path string) (bus *fn.Block, pkgs map[string]*pkg.Package, res int) {
	var err error
	r := v.Try(func() {
		bus, pkgs, err = fbdl.Compile(path, "Main", false)
	})
	switch {
	case r == 3:
		return nil, nil, 3
	case r == 1:
		return nil, nil, 1
	case r == 2 || err != nil:
		return nil, nil, 2
	}
	return bus, pkgs, 0
}

// evalConst compiles "const <defs>... const R = expr" and returns the container with R.
func evalConst(defs, expr string) (cnst.Container, int) {
	v.File("bus.fbd", defs+"const R = "+expr+"\nMain bus\n  c config\n")
	_, ps, res := compileAll("bus.fbd")
	if res != 0 {
		return cnst.Container{}, res
	}
	return ps["main"].Consts, 0
}

// ints returns the integer constant R.
func intR(c cnst.Container) (int64, bool) {
	x, ok := c.Ints["R"]
	_, f := c.Floats["R"]
	_, b := c.Bools["R"]
	return x, ok && !f && !b
}

func constCount(c cnst.Container) int {
	return len(c.Bools) + len(c.BoolLists) + len(c.Floats) + len(c.Ints) + len(c.IntLists) + len(c.Strings)
}

// cdecl is a constant: its text and a check of the exported value.
type cdecl struct {
	text string
	bad  bool
	ok   func(c cnst.Container, name string) bool
}

const cKinds = 20

func constDecl(id string, kind int) cdecl {
	bools := func(want ...bool) func(cnst.Container, string) bool {
		return func(c cnst.Container, n string) bool {
			l, ok := c.BoolLists[n]
			if !ok || len(l) != len(want) {
				return false
			}
			for i := range l {
				if l[i] != want[i] {
					return false
				}
			}
			return true
		}
	}
	float := func(want float64) func(cnst.Container, string) bool {
		return func(c cnst.Container, n string) bool {
			y, ok := c.Floats[n]
			return ok && y == want
		}
	}
	isInt := func(x int64) func(cnst.Container, string) bool {
		return func(c cnst.Container, n string) bool {
			y, ok := c.Ints[n]
			return ok && v.Decide(x == y)
		}
	}
	isBool := func(x bool) func(cnst.Container, string) bool {
		return func(c cnst.Container, n string) bool {
			y, ok := c.Bools[n]
			return ok && y == x
		}
	}
	big := int64(1)<<62 + (1<<62 - 1)
	switch kind {
	case 0:
		l, x := v.Lit(id, 0, big)
		return cdecl{text: l, ok: isInt(x)}
	case 1:
		l, x := v.Lit(id, 0, big)
		return cdecl{text: "-" + l, ok: isInt(-x)}
	case 2:
		return cdecl{text: "true", ok: isBool(true)}
	case 3:
		return cdecl{text: "false", ok: isBool(false)}
	case 4:
		s := v.Str(id, 3)
		for i := 0; i < 3; i++ {
			v.Assume(all(s[i] >= 32, s[i] < 127, s[i] != '"'))
		}
		return cdecl{text: "\"" + s + "\"", ok: func(c cnst.Container, n string) bool {
			y, ok := c.Strings[n]
			return ok && v.Decide(v.StrEq(s, y))
		}}
	case 5:
		return cdecl{text: "\"\"", ok: func(c cnst.Container, n string) bool {
			y, ok := c.Strings[n]
			return ok && y == ""
		}}
	case 6:
		l, x := v.Lit(id, 1, 1<<20)
		return cdecl{text: l + " / " + "7919", ok: func(c cnst.Container, n string) bool {
			if v.Decide(x%7919 == 0) {
				y, ok := c.Ints[n]
				return ok && v.Decide(y == x/7919)
			}
			y, ok := c.Floats[n]
			return ok && v.Decide(y == float64(x)/7919)
		}}
	case 7:
		return cdecl{text: "25e-3", ok: float(25e-3)}
	case 8:
		return cdecl{text: "0.1", ok: float(0.1)}
	case 9:
		l, x := v.Lit(id, 0, 1<<40)
		m, y := v.Lit(id, 0, 1<<40)
		n, z := v.Lit(id, 1, 1<<40)
		return cdecl{text: "[" + l + ", -" + m + ", " + n + "]", ok: func(c cnst.Container, nm string) bool {
			li, ok := c.IntLists[nm]
			return ok && len(li) == 3 && v.Decide(all(li[0] == x, li[1] == -y, li[2] == z))
		}}
	case 10:
		l, x := v.Lit(id, 0, 1<<40)
		return cdecl{text: "[" + l + "]", ok: func(c cnst.Container, nm string) bool {
			li, ok := c.IntLists[nm]
			return ok && len(li) == 1 && v.Decide(li[0] == x)
		}}
	case 11:
		return cdecl{text: "[true, false, false]", ok: bools(true, false, false)}
	case 12:
		return cdecl{text: "[false]", ok: bools(false)}
	case 13:
		return cdecl{text: "[]", bad: true}
	case 14:
		return cdecl{text: "[1, true]", bad: true}
	case 15:
		return cdecl{text: "[true, 1]", bad: true}
	case 16:
		return cdecl{text: "[[1]]", bad: true}
	case 17:
		return cdecl{text: "1:2", bad: true}
	case 18:
		return cdecl{text: "1 ms", bad: true}
	default:
		return cdecl{text: "b\"01\"", bad: true}
	}
}

// ConstExact: constants of every exported type are published with exactly the
// declared value in exactly the scope they are declared in.
func ConstExact() {
	v.FreeHash()
	ka := v.Choice("ka", cKinds)
	kb := v.Choice("kb", cKinds)
	if !v.Thorough() && kb > 0 && kb != 3 && kb != 4 && kb != 7 && kb != 9 && kb != 11 {
		return
	}
	a, b := constDecl("a", ka), constDecl("b", kb)
	da, db := "const aa = "+a.text+"\n", "const bb = "+b.text+"\n"
	multi := "const\n  aa = " + a.text + "\n  bb = " + b.text + "\n"
	src := ""
	where := v.Choice("where", 9)
	switch where {
	case 0:
		src = da + "Main bus\n  c config\n" + db
	case 1:
		src = multi + "Main bus\n  c config\n"
	case 2:
		v.File("fbd-q/x.fbd", da)
		v.File("fbd-q/y.fbd", db)
		src = "import \"q\"\nMain bus\n  c config\n"
	case 3:
		src = "Main bus\n  " + da + "  c config\n  " + db
	case 4:
		src = "type T bus\n  " + da + "Main T\n  " + db
	case 5:
		src = "Main bus\n  i block\n    " + da + "    " + db
	case 6:
		src = "Main bus\n  g group\n    " + da + "    c config\n    " + db
	case 7:
		src = "type T group\n  " + da + "  c config\nMain bus\n  g T\n    " + db
	case 8: // referred from the other scope
		src = da + "Main bus\n  const bb = aa\n"
		b = a
	}
	v.File("bus.fbd", src)
	bus, ps, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P17:crash")
	v.Assert((a.bad || b.bad) == (res == 2), "P17:accepted")
	if res != 0 {
		return
	}
	ca, cb := bus.Consts, bus.Consts
	main := ps["main"].Consts
	total := 2
	n := 0
	switch where {
	case 0, 1:
		ca, cb = main, main
	case 2:
		if ps["q"] == nil {
			v.Assert(false, "P17:value")
			return
		}
		ca, cb = ps["q"].Consts, ps["q"].Consts
		n += constCount(ca)
	case 5:
		ca, cb = bus.Subblocks[0].Consts, bus.Subblocks[0].Consts
		n += constCount(ca)
	case 6, 7:
		ca, cb = bus.Groups[0].Consts, bus.Groups[0].Consts
		n += constCount(ca)
	case 8:
		ca = main
	}
	n += constCount(main) + constCount(bus.Consts)
	v.Assert(n == total, "P17:only")
	v.Assert(a.ok(ca, "aa"), "P17:value")
	v.Assert(b.ok(cb, "bb"), "P17:value")
	v.Reach("end")
}

// ConstInt: integer literals of every base keep their value; those which do not fit
// are rejected.
func ConstInt() {
	v.FreeHash()
	max := 4
	if v.Thorough() {
		max = 6
	}
	base := v.Choice("base", 7)
	pre := []string{"", "0x", "0X", "0b", "0B", "0o", "0"}[base]
	b := []int64{10, 16, 16, 2, 2, 8, 8}[base]
	n := 1 + v.Choice("digits", max)
	lead := []string{"", "7", "7fffffffffff"}[v.Choice("lead", 3)]
	if b == 10 || b == 2 || b == 8 {
		lead = []string{"", "1", "1000000000"}[len(lead)/6]
	}
	d := v.Str("d", n)
	x := int64(0)
	for i := 0; i < len(lead); i++ {
		x = x*b + digit(lead[i])
	}
	for i := 0; i < n; i++ {
		g := digit(d[i])
		v.Assume(all(g >= 0, g < b))
		if base == 0 && i == 0 && lead == "" {
			v.Assume(d[0] != '0')
		}
		x = x*b + g
	}
	c, res := evalConst("", pre+lead+d)
	v.Assert(res == 0, "P17:accepted")
	if res != 0 {
		return
	}
	got, ok := intR(c)
	v.Assert(ok && v.Decide(got == x), "P17:literal")
	v.Reach("end")
}

// ConstStr: any text between quotation marks.
func ConstStr() {
	v.FreeHash()
	n := 4
	if v.Thorough() {
		n = 7
	}
	s := v.Str("s", n)
	q := false
	for i := 0; i < n; i++ {
		v.Assume(all(s[i] < 128, s[i] != '"'))
		q = v.Or(q, s[i] == '"')
	}
	c, res := evalConst("", "\""+s+"\"")
	v.Assert(res == 0, "P17:accepted")
	if res != 0 {
		return
	}
	got, ok := c.Strings["R"]
	v.Assert(ok && v.Decide(v.StrEq(got, s)), "P17:string")
	v.Reach("end")
}
