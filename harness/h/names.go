package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
)

func init() {
	reg_("NameMatch", NameMatch)
	reg_("ArgNames", ArgNames)
}

// NameMatch: two definitions with arbitrary names and a reference with an arbitrary name.
// The reference means the definition with exactly that name, and is rejected when there is none.
func NameMatch() { nameMatch("P21", []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}) }

// ArgNames: the same for parameters and named arguments.
func ArgNames() { nameMatch("P13", []int{6, 7}) }

func nameMatch(prop string, whats []int) {
	v.FreeHash()
	lens := [][3]int{{1, 1, 1}, {1, 2, 1}, {1, 2, 2}, {2, 1, 1}}
	if v.Thorough() {
		lens = append(lens, [3]int{2, 2, 2}, [3]int{1, 3, 2}, [3]int{3, 2, 3}, [3]int{1, 1, 2})
	}
	l := lens[v.Choice("lens", len(lens))]
	a, b, r := name("a", l[0]), name("b", l[1]), name("r", l[2])
	v.Assume(v.Not(v.StrEq(a, b)))
	for _, s := range []string{a, b, r} {
		if len(s) == 3 { // keywords
			v.Assume(v.And(v.Not(v.StrEq(s, "bus")), v.Not(v.StrEq(s, "irq"))))
		}
	}
	lx, x := v.Lit("x", 1, 15)
	ly, y := v.Lit("y", 16, 32)
	src := ""
	width := func(w string) string { return "Main bus\n  c config\n    width = " + w + "\n" }
	what := whats[v.Choice("what", len(whats))]
	switch what {
	case 0: // constants of the package
		src = "const " + a + " = " + lx + "\nconst " + b + " = " + ly + "\n" + width(r)
	case 1: // of the bus
		src = width(r) + "  const " + a + " = " + lx + "\n  const " + b + " = " + ly + "\n"
	case 2: // of the functionality and of the package
		src = "const " + b + " = " + ly + "\n" + width(r) + "    const " + a + " = " + lx + "\n"
	case 3: // of another package
		v.File("fbd-p/p.fbd", "const "+a+" = "+lx+"\n")
		v.File("fbd-p/q.fbd", "const "+b+" = "+ly+"\n")
		// names of exported symbols start with a capital letter
		for _, s := range []string{a, b, r} {
			v.Assume(v.And(s[0] >= 'A', s[0] <= 'Z'))
		}
		src = "import \"p\"\n" + width("p."+r)
	case 4: // types
		src = "type " + a + " config\n  width = " + lx + "\ntype " + b + " config\n  width = " + ly + "\nMain bus\n  c " + r + "\n"
	case 5: // types of the bus
		src = "Main bus\n  type " + a + " config\n    width = " + lx + "\n  type " + b + " config\n    width = " + ly + "\n  c " + r + "\n"
	case 6: // parameters
		src = "type TTTT(" + a + ", " + b + ") config\n  width = " + r + "\nMain bus\n  c TTTT(" + lx + ", " + ly + ")\n"
	case 7: // named arguments
		src = "type TTTT(" + a + " = " + lx + ", " + b + " = " + ly + ") config\n  width = " + a + " * 100 + " + b + "\nMain bus\n  c TTTT(" + r + " = 33)\n"
	case 8: // names of imports
		v.File("fbd-pp/p.fbd", "const W = "+lx+"\n")
		v.File("fbd-qq/q.fbd", "const W = "+ly+"\n")
		src = "import " + a + " \"pp\"\nimport " + b + " \"qq\"\n" + width(r+".W")
	case 9: // types of another package
		v.File("fbd-p/p.fbd", "type "+a+" config\n  width = "+lx+"\ntype "+b+" config\n  width = "+ly+"\n")
		for _, s := range []string{a, b, r} {
			v.Assume(v.And(s[0] >= 'A', s[0] <= 'Z'))
		}
		src = "import \"p\"\nMain bus\n  c p." + r + "\n"
	case 10: // constants of a type and of the package
		src = "const " + b + " = " + ly + "\ntype TTTT config\n  const " + a + " = " + lx + "\n  width = " + r + "\nMain bus\n  c TTTT\n"
	case 11: // in an expression
		src = "const " + a + " = " + lx + "\nconst " + b + " = " + ly + "\nconst CCCC = 2 * (" + r + ")\n" + width("CCCC / 2")
	}
	v.File("bus.fbd", src)
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res != 1, prop+":crash")
	isA, isB := v.StrEq(r, a), v.StrEq(r, b)
	v.Assert(v.Iff(v.Or(isA, isB), res == 0), prop+":name")
	if res != 0 {
		v.Reach("none")
		return
	}
	w := bus.Configs[0].Width
	if what == 7 {
		v.Assert(v.Ite(isA, 33*100+y, x*100+33) == w, prop+":value")
		v.Reach("end")
		return
	}
	v.Assert(v.Ite(isA, x, y) == w, prop+":value")
	v.Reach("end")
}
