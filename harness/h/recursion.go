package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
)

func init() {
	reg_("CycleConst", CycleConst)
	reg_("CycleLong", CycleLong)
	reg_("CycleForms", CycleForms)
	reg_("CycleType", CycleType)
	reg_("CycleInner", CycleInner)
	reg_("CycleParam", CycleParam)
}

// follow computes which nodes lie on or lead to a cycle of the graph.
func follow(to [][]int) []bool {
	n := len(to)
	bad := make([]bool, n)
	for i := range bad {
		state := make([]int, n) // 1: on the stack, 2: done
		var visit func(k int) bool
		visit = func(k int) bool {
			if state[k] == 1 {
				return true
			}
			if state[k] == 2 {
				return false
			}
			state[k] = 1
			for _, t := range to[k] {
				if visit(t) {
					return true
				}
			}
			state[k] = 2
			return false
		}
		bad[i] = visit(i)
	}
	return bad
}

// CycleConst: constants which refer to each other, in one scope or in several
// packages: rejected exactly when one depends on itself, otherwise they have the value
// which the order of dependence gives.
func CycleConst() {
	v.FreeHash()
	n := 3
	if v.Thorough() {
		n = 4
	}
	names := []string{"aa", "bb", "cc", "dd"}[:n]
	where := v.Choice("where", 4)
	ref := func(from, to int) string {
		if where == 3 && from != to {
			return []string{"main", "q", "r", "r"}[to] + "." + names[to]
		}
		return names[to]
	}
	to := make([][]int, n)
	lit := make([]int64, n)
	forms := make([]int, n)
	text := make([]string, n)
	for i := 0; i < n; i++ {
		k := v.Choice("ref", n+1) - 1
		l, x := v.Lit("x", 0, 1000)
		lit[i] = x
		if k < 0 {
			text[i] = l
			continue
		}
		to[i] = []int{k}
		r := ref(i, k)
		if where == 3 && (i != 0 && k == 0 || i == 2 && k == 3 || i == 3 && k == 2) {
			// the main package cannot be imported, and no constant of
			// package r refers to the other one by the name of the package
			if k == 0 {
				return
			}
			r = names[k]
		}
		f := 0
		if v.Thorough() {
			f = v.Choice("form", 4)
		} else if f = v.Choice("form", 2) + 1; where == 1 {
			f = 3 * (f - 1)
		}
		forms[i] = f
		switch f {
		case 0:
			text[i] = r
		case 1:
			text[i] = r + " + " + l
		case 2:
			text[i] = "floor(" + l + " - (" + r + "))"
		case 3:
			j := v.Choice("ref2", n)
			if where == 3 && (j != k) {
				return
			}
			to[i] = append(to[i], j)
			text[i] = "-" + r + " + " + l + " * " + r
			if j != k {
				text[i] = "-" + r + " + " + l + " * " + ref(i, j)
			}
		}
	}
	d := make([]string, n)
	for i := range d {
		d[i] = "const " + names[i] + " = " + text[i] + "\n"
	}
	src := ""
	switch where {
	case 0:
		for _, s := range d {
			src += s
		}
		src += "Main bus\n  c config\n"
	case 1:
		src = "Main bus\n"
		for _, s := range d {
			src += "  " + s
		}
		src += "  c config\n"
	case 2: // spread over the files of a package
		if v.Thorough() {
			v.File("fbd-q/w.fbd", d[3])
		}
		v.File("fbd-q/x.fbd", d[0])
		v.File("fbd-q/y.fbd", d[1])
		v.File("fbd-q/z.fbd", d[2])
		src = "import \"q\"\nMain bus\n  c config\n"
	case 3: // packages importing each other
		src = "import \"q\"\nimport \"r\"\n" + d[0] + "Main bus\n  c config\n"
		v.File("fbd-q/x.fbd", "import \"r\"\n"+d[1])
		s := "import \"q\"\n" + d[2]
		if n > 3 {
			s += d[3]
		}
		v.File("fbd-r/x.fbd", s)
	}
	v.File("bus.fbd", src)
	bus, ps, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P20:crash")
	bad := follow(to)
	cyclic := false
	for _, b := range bad {
		cyclic = cyclic || b
	}
	v.Assert(cyclic == (res == 2), "P20:accepted")
	if res != 0 || cyclic {
		v.Reach("cyclic")
		return
	}
	var val func(i int) int64
	val = func(i int) int64 {
		if len(to[i]) == 0 {
			return lit[i]
		}
		r := val(to[i][0])
		switch forms[i] {
		case 0:
			return r
		case 1:
			return r + lit[i]
		case 2:
			return lit[i] - r
		}
		return -r + lit[i]*val(to[i][1])
	}
	for i := range names {
		var c cnst.Container
		switch where {
		case 0:
			c = ps["main"].Consts
		case 1:
			c = bus.Consts
		case 2:
			c = ps["q"].Consts
		case 3:
			c = ps[[]string{"main", "q", "r", "r"}[i]].Consts
		}
		x, ok := c.Ints[names[i]]
		v.Assert(ok && v.Decide(x == val(i)), "P20:value")
	}
	v.Reach("end")
}

// CycleType: types derived from each other, in one file or in several packages, are
// rejected exactly when one is derived from itself.
func CycleType() {
	v.FreeHash()
	n := 3
	if v.Thorough() {
		n = 4
	}
	names := []string{"T", "U", "V", "W"}[:n]
	where := v.Choice("where", 3)
	args := v.Choice("args", 2) == 1
	ind := "  "
	if where == 1 {
		ind = "    "
	}
	to := make([][]int, n)
	text := make([]string, n)
	ls, ws := v.Lit("w", 1, 32)
	for i := 0; i < n; i++ {
		k := v.Choice("of", n+1) - 1
		text[i] = "type " + names[i]
		if args {
			text[i] += "(n)"
		}
		if k < 0 {
			text[i] += " config\n"
			if args {
				text[i] += ind + "width = n\n"
			} else {
				text[i] += ind + "width = " + ls + "\n"
			}
			continue
		}
		to[i] = []int{k}
		if where == 2 && i != k {
			if k == 0 {
				return
			}
			if i > 1 && k > 1 {
				text[i] += " " + names[k]
			} else {
				text[i] += " " + []string{"", "q.", "r.", "r."}[k] + names[k]
			}
		} else {
			text[i] += " " + names[k]
		}
		if args {
			text[i] += "(n)"
		}
		text[i] += "\n"
	}
	use := v.Choice("use", 3)
	inst := "  x T"
	if use == 1 {
		inst = "  x [2]T"
	}
	if args {
		inst += "(" + ls + ")"
	}
	inst += "\n"
	if use == 2 {
		inst = "  x config\n    width = " + ls + "\n"
	}
	src := ""
	switch where {
	case 0:
		for _, s := range text {
			src += s
		}
		src += "Main bus\n" + inst
	case 1: // types of the body
		src = "Main bus\n"
		for _, s := range text {
			src += "  " + s
		}
		src += inst
	case 2:
		src = "import \"q\"\nimport \"r\"\n" + text[0] + "Main bus\n" + inst
		v.File("fbd-q/x.fbd", "import \"r\"\n"+text[1])
		s := "import \"q\"\n" + text[2]
		if n > 3 {
			s += text[3]
		}
		v.File("fbd-r/x.fbd", s)
	}
	v.File("bus.fbd", src)
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P20:crash")
	bad := follow(to)
	if use != 2 {
		v.Assert(imp(bad[0], res == 2), "P20:accepted")
	}
	cyclic := false
	for _, b := range bad {
		cyclic = cyclic || b
	}
	v.Assert(imp(!cyclic, res == 0), "P20:rejected")
	if res != 0 || cyclic {
		v.Reach("cyclic")
		return
	}
	v.Assert(len(bus.Configs) == 1 && v.Decide(bus.Configs[0].Width == ws), "P20:value")
	v.Reach("end")
}

// CycleInner: blocks or groups which contain instances of each other's types are
// rejected exactly when an instance would contain itself.
func CycleInner() {
	v.FreeHash()
	n := 3
	if v.Thorough() {
		n = 4
	}
	names := []string{"T", "U", "V", "W"}[:n]
	to := make([][]int, n)
	leaf := make([]bool, n)
	text := make([]string, n)
	ls, ws := v.Lit("w", 1, 32)
	form := v.Choice("form", 3)
	for i := 0; i < n; i++ {
		k := v.Choice("of", n+1) - 1
		text[i] = "type " + names[i] + " block\n"
		if k < 0 {
			leaf[i] = true
			text[i] += "  c config\n    width = " + ls + "\n"
			continue
		}
		to[i] = []int{k}
		switch form {
		case 0:
			text[i] += "  x " + names[k] + "\n"
		case 1: // in a block of the body
			text[i] += "  b block\n    x [2]" + names[k] + "\n"
		case 2: // derived within the body
			text[i] += "  type Z " + names[k] + "\n  x Z\n"
		}
	}
	src := ""
	for _, s := range text {
		src += s
	}
	src += "Main bus\n  x T\n"
	v.File("bus.fbd", src)
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P20:crash")
	bad := follow(to)
	v.Assert(bad[0] == (res == 2), "P20:accepted")
	if res != 0 || bad[0] {
		v.Reach("cyclic")
		return
	}
	b := bus.Subblocks[0]
	for k := 0; !leaf[k]; k = to[k][0] {
		if form == 1 {
			v.Assert(len(b.Subblocks) == 1, "P20:value")
			b = b.Subblocks[0]
		}
		v.Assert(len(b.Subblocks) == 1, "P20:value")
		b = b.Subblocks[0]
	}
	v.Assert(len(b.Configs) == 1 && v.Decide(b.Configs[0].Width == ws), "P20:value")
	v.Reach("end")
}

// CycleParam: default values of parameters which refer to each other.
func CycleParam() {
	v.FreeHash()
	n := 3
	names := []string{"k", "l", "m"}
	to := make([][]int, n)
	lit := make([]int64, n)
	src := "type T("
	for i := 0; i < n; i++ {
		l, x := v.Lit("x", 1, 10)
		lit[i] = x
		if i > 0 {
			src += ", "
		}
		src += names[i] + " = " + l
		if k := v.Choice("ref", n+1) - 1; k >= 0 {
			to[i] = []int{k}
			src += " + " + names[k]
		}
	}
	src += ") config\n  width = k\n"
	given := v.Choice("given", n+1) - 1
	inst := "  c T"
	if given >= 0 {
		l, x := v.Lit("g", 1, 10)
		inst += "(" + names[given] + " = " + l + ")"
		lit[given] = x
		to[given] = nil
	}
	v.File("bus.fbd", src+"Main bus\n"+inst+"\n")
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P20:crash")
	bad := follow(to)
	v.Assert(imp(bad[0], res == 2), "P20:accepted")
	cyclic := false
	for _, b := range bad {
		cyclic = cyclic || b
	}
	v.Assert(imp(!cyclic, res == 0), "P20:rejected")
	if res != 0 || bad[0] {
		v.Reach("cyclic")
		return
	}
	want := lit[0]
	for k := 0; len(to[k]) > 0; {
		k = to[k][0]
		want += lit[k]
	}
	v.Assert(len(bus.Configs) == 1 && v.Decide(bus.Configs[0].Width == want), "P20:value")
	v.Reach("end")
}

// CycleLong: long chains of references, closed to a cycle at any place or not at all.
func CycleLong() {
	v.FreeHash()
	n := 12
	if v.Thorough() {
		n = 40
	}
	lx, x := v.Lit("x", 1, 8)
	name := func(i int) string { return "N" + string(rune('a'+i/10)) + string(rune('0'+i%10)) }
	// the last one refers to no other or to any
	k := v.Choice("to", n+1) - 1
	rev := v.Choice("rev", 2) == 1
	what := v.Choice("what", 4)
	text := make([]string, n)
	for i := range text {
		to := i + 1
		if i == n-1 {
			to = k
		}
		next := ""
		if to >= 0 {
			next = name(to)
		}
		switch what {
		case 0: // constants
			if next == "" {
				next = lx
			}
			text[i] = "const " + name(i) + " = " + next + " + 1\n"
		case 1: // types
			if next == "" {
				text[i] = "type " + name(i) + " config\n  width = " + lx + "\n"
			} else {
				text[i] = "type " + name(i) + " " + next + "\n"
			}
		case 2: // types with an argument
			if next == "" {
				text[i] = "type " + name(i) + "(n) config\n  width = n\n"
			} else {
				text[i] = "type " + name(i) + "(n = 1) " + next + "(n + 1)\n"
			}
		case 3: // types of blocks in blocks
			if next == "" {
				text[i] = "type " + name(i) + " block\n  x config; width = " + lx + "\n"
			} else {
				text[i] = "type " + name(i) + " block\n  b " + next + "\n"
			}
		}
	}
	src := ""
	for i := range text {
		if rev {
			i = n - 1 - i
		}
		src += text[i]
	}
	src += "Main bus\n"
	switch what {
	case 0:
		src += "  x config; width = Na0\n"
	case 2:
		src += "  x Na0(" + lx + ")\n"
	default:
		src += "  x Na0\n"
	}
	v.File("bus.fbd", src)
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P20:crash")
	v.Assert(imp(k >= 0, res == 2), "P20:accepted")
	v.Assert(imp(k < 0, res == 0), "P20:rejected")
	if k >= 0 || res != 0 {
		v.Reach("cyclic")
		return
	}
	if what == 3 {
		b := bus
		for range n {
			v.Assert(len(b.Subblocks) == 1, "P20:value")
			b = b.Subblocks[0]
		}
		v.Assert(len(b.Configs) == 1 && v.Decide(b.Configs[0].Width == x), "P20:value")
		v.Reach("end")
		return
	}
	want := x
	switch what {
	case 0:
		want += int64(n)
	case 2:
		want += int64(n - 1)
	}
	v.Assert(len(bus.Configs) == 1 && v.Decide(bus.Configs[0].Width == want), "P20:value")
	v.Reach("end")
}

// CycleForms: every form of expression evaluates all of its parts, so a cycle through
// any of them is found, also where a part does not matter for the value.
func CycleForms() {
	v.FreeHash()
	l, x := v.Lit("x", 0, 1000)
	type form struct {
		text string
		val  func(y int64) int64 // nil: the value is not an integer
	}
	f := func(text string, val func(y int64) int64) form { return form{text, val} }
	forms := []form{
		f("Y", func(y int64) int64 { return y }),
		f("(Y)", func(y int64) int64 { return y }),
		f("-Y", func(y int64) int64 { return -y }),
		f("+Y", func(y int64) int64 { return y }),
		f("Y + L", func(y int64) int64 { return y + x }),
		f("L + Y", func(y int64) int64 { return x + y }),
		f("Y - L", func(y int64) int64 { return y - x }),
		f("L - Y", func(y int64) int64 { return x - y }),
		f("Y * L", func(y int64) int64 { return y * x }),
		f("L * Y", func(y int64) int64 { return x * y }),
		f("0 * Y", func(y int64) int64 { return 0 }),
		f("Y * 0", func(y int64) int64 { return 0 }),
		f("Y - Y", func(y int64) int64 { return 0 }),
		f("Y / 1", func(y int64) int64 { return y }),
		f("Y % 1", func(y int64) int64 { return 0 }),
		f("Y ** 0", func(y int64) int64 { return 1 }),
		f("1 ** (Y * Y)", func(y int64) int64 { return 1 }),
		f("Y << 0", func(y int64) int64 { return y }),
		f("0 << (Y * 0)", func(y int64) int64 { return 0 }),
		f("floor(Y)", func(y int64) int64 { return y }),
		f("ceil(Y)", func(y int64) int64 { return y }),
		f("[Y]", nil),
		f("[Y, L, L]", nil),
		f("[L, Y, L]", nil),
		f("[L, L, Y]", nil),
		f("bool(Y)", nil),
		f("log2(1 + 0 * Y)", nil),
	}
	where := v.Choice("where", 3)
	n := len(forms)
	if where > 0 && !v.Thorough() {
		n = 0
	}
	a := forms[v.Choice("a", len(forms))]
	// what B is: a value, itself, or A through any form of an integer
	cyc := v.Choice("b", 2+n)
	sub := func(s, id string) string {
		r := ""
		for i := range s {
			switch s[i] {
			case 'Y':
				r += id
			case 'L':
				r += l
			default:
				r += s[i : i+1]
			}
		}
		return r
	}
	lb, b := v.Lit("b", 0, 1000)
	ta, tb := sub(a.text, "B"), lb
	switch {
	case cyc == 1:
		tb = sub(a.text, "B")
		ta = l
	case cyc > 1:
		tb = sub(forms[cyc-2].text, "A")
	}
	src := ""
	switch where {
	case 0:
		src = "const A = " + ta + "\nconst B = " + tb + "\nMain bus\n  c config\n"
	case 1:
		src = "Main bus\n  const B = " + tb + "\n  const A = " + ta + "\n  c config\n"
	case 2:
		src = "const A = " + ta + "\nMain bus\n  c config\n  b block\n    const C = A\n"
	}
	v.File("bus.fbd", src)
	if where == 2 {
		v.File("fbd-q/two.fbd", "const B = "+tb+"\nconst A = "+ta+"\n")
		v.File("bus.fbd", "import \"q\"\nMain bus\n  const C = q.A\n  c config\n")
	}
	_, ps, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P20:crash")
	if cyc > 0 {
		v.Assert(res == 2, "P20:accepted")
		v.Reach("cyclic")
		return
	}
	if a.val == nil && a.text != "bool(Y)" && a.text[0] != '[' {
		v.Reach("end") // not exportable
		return
	}
	v.Assert(res == 0, "P20:rejected")
	if res == 0 && where == 0 && a.val != nil {
		y, ok := ps["main"].Consts.Ints["A"]
		v.Assert(ok && v.Decide(y == a.val(b)), "P20:value")
		v.Reach("end")
	}
}
