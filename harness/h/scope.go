package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
)

func init() {
	reg_("ScopeConst", ScopeConst)
	reg_("ScopeType", ScopeType)
	reg_("ScopeDef", ScopeDef)
	reg_("ImportPath", ImportPath)
	reg_("ImportFile", ImportFile)
	reg_("ImportAny", ImportAny)
	reg_("WordNames", WordNames)
}

// layer is one of the nested scopes: the definition it holds, if any.
type layer struct {
	has  bool
	text string
	x    int64
}

// layers of definitions of the constant or type n with arbitrary distinct values.
func layers(n int, typ bool) []layer {
	ls := make([]layer, n)
	for i := range ls {
		if v.Choice("has", 2) == 0 {
			continue
		}
		t, x := v.Lit("x", 1, 32)
		for j := 0; j < i; j++ {
			if ls[j].has {
				v.Assume(ls[j].x != x)
			}
		}
		ls[i] = layer{true, "const n = " + t + "\n", x}
		if typ {
			ls[i].text = "type n config; width = " + t + "\n"
		}
	}
	return ls
}

// innermost is the value of the innermost of the layers with a definition.
func innermost(ls ...layer) (int64, bool) {
	for i := len(ls) - 1; i >= 0; i-- {
		if ls[i].has {
			return ls[i].x, true
		}
	}
	return 0, false
}

// at is the definition of a layer with an indentation, or nothing.
func at(l layer, ind string) string {
	if !l.has {
		return ""
	}
	return ind + l.text
}

func memberWidth(b *fn.Block, kind int) (int64, bool) {
	switch kind {
	case 0:
		if len(b.Configs) == 1 {
			return b.Configs[0].Width, true
		}
	case 1:
		if len(b.Procs) == 1 && len(b.Procs[0].Params) == 1 {
			return b.Procs[0].Params[0].Width, true
		}
	case 2:
		if len(b.Streams) == 1 && len(b.Streams[0].Returns) == 1 {
			return b.Streams[0].Returns[0].Width, true
		}
	case 3:
		if len(b.Groups) == 1 && len(b.Groups[0].Configs) == 1 {
			return b.Groups[0].Configs[0].Width, true
		}
	case 4:
		if len(b.Statuses) == 1 {
			return b.Statuses[0].Width, true
		}
	}
	return 0, false
}

// ScopeConst: a name refers to the definition of the innermost enclosing scope,
// wherever in the scope it is written.
func ScopeConst() {
	v.FreeHash()
	ls := layers(4, false) // package, bus, block, functionality
	kind := v.Choice("kind", 5)
	deep := v.Choice("deep", 2) == 1
	late := v.Choice("late", 2) == 1
	if !deep && ls[2].has {
		return
	}
	ind := "  "
	if deep {
		ind = "    "
	}
	before, after := "", at(ls[3], ind+"  ")
	if !late {
		before, after = after, before
	}
	var user string
	switch kind {
	case 0:
		user = ind + "c config\n" + before + ind + "  width = n\n" + after
	case 1:
		user = ind + "c proc\n" + before + ind + "  p param\n" + ind + "    width = n\n" + after
	case 2:
		user = ind + "c stream\n" + before + ind + "  p return\n" + ind + "    width = n\n" + after
	case 3:
		user = ind + "c group\n" + before + ind + "  p config\n" + ind + "    width = n\n" + after
	case 4: // by a type without own scope
		user = ind + "type T status; width = n\n" + ind + "c T\n" + before + after
		if late {
			user = ind + "c T\n" + before + after + ind + "type T status; width = n\n"
		}
	}
	src := ""
	if deep {
		user = "  b block\n" + user
		if late {
			user += at(ls[2], ind)
		} else {
			user = "  b block\n" + at(ls[2], ind) + user[len("  b block\n"):]
		}
	}
	if late {
		src = "Main bus\n" + user + at(ls[1], "  ") + at(ls[0], "")
	} else {
		src = at(ls[0], "") + "Main bus\n" + at(ls[1], "  ") + user
	}
	if kind == 4 {
		ls[3].has = false // not visible in the type
	}
	want, ok := innermost(ls...)
	v.File("bus.fbd", src)
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P21:crash")
	v.Assert(ok == (res == 0), "P21:resolved")
	if res != 0 {
		return
	}
	b := bus
	if deep {
		b = bus.Subblocks[0]
	}
	got, found := memberWidth(b, kind)
	v.Assert(found && v.Decide(got == want), "P21:value")
	v.Reach("end")
}

// ScopeType: the same for names of types.
func ScopeType() {
	v.FreeHash()
	ls := layers(4, true)
	deep := v.Choice("deep", 2) == 1
	group := v.Choice("group", 2) == 1
	late := v.Choice("late", 2) == 1
	array := v.Choice("array", 2) == 1
	if !deep && ls[2].has || !group && ls[3].has {
		return
	}
	ind := "  "
	if deep {
		ind = "    "
	}
	user := "c n\n"
	if array {
		user = "c [1]n\n"
	}
	switch {
	case group && late:
		user = ind + "g group\n" + ind + "  " + user + at(ls[3], ind+"  ")
	case group:
		user = ind + "g group\n" + at(ls[3], ind+"  ") + ind + "  " + user
	default:
		user = ind + user
	}
	src := ""
	switch {
	case deep && late:
		src = "Main bus\n  b block\n" + user + at(ls[2], ind) + at(ls[1], "  ") + at(ls[0], "")
	case deep:
		src = at(ls[0], "") + "Main bus\n" + at(ls[1], "  ") + "  b block\n" + at(ls[2], ind) + user
	case late:
		src = "Main bus\n" + user + at(ls[1], "  ") + at(ls[0], "")
	default:
		src = at(ls[0], "") + "Main bus\n" + at(ls[1], "  ") + user
	}
	want, ok := innermost(ls...)
	v.File("bus.fbd", src)
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P21:crash")
	v.Assert(ok == (res == 0), "P21:resolved")
	if res != 0 {
		return
	}
	b := bus
	if deep {
		b = bus.Subblocks[0]
	}
	kind := 0
	if group {
		kind = 3
	}
	got, found := memberWidth(b, kind)
	v.Assert(found && v.Decide(got == want), "P21:value")
	v.Reach("end")
}

// ScopeDef: a name in the body of a type refers to the scope in which the type is
// defined, and a name in the body of an instance to the scope of the instance.
func ScopeDef() {
	v.FreeHash()
	typ := v.Choice("typ", 2) == 1
	ls := layers(4, typ) // main, bus, body of the type, body of the instance
	t, x := v.Lit("q", 1, 32)
	q := layer{v.Choice("hasq", 2) == 1, "const n = " + t + "\n", x}
	if typ {
		q.text = "type n config; width = " + t + "\n"
	}
	for i := range ls {
		if ls[i].has && q.has {
			v.Assume(ls[i].x != x)
		}
	}
	where := v.Choice("where", 3) // type defined in main, in the bus, in package q
	param := !typ && v.Choice("param", 2) == 1
	user := func(name, ind string) string {
		if typ {
			return ind + name + " n\n"
		}
		return ind + name + " config; width = n\n"
	}
	def := func(ind string) string {
		s := ind + "type T"
		if param {
			s += "(n)"
		}
		return s + " block\n" + user("a", ind+"  ") + at(ls[2], ind+"  ")
	}
	arg := ""
	var px int64
	if param {
		l, y := v.Lit("p", 1, 32)
		px = y
		arg = "(" + l + ")"
		for i := range ls {
			if ls[i].has {
				v.Assume(ls[i].x != y)
			}
		}
	}
	both := v.Choice("inst", 2) == 1 // use in the body of the instance too
	src := "import \"q\"\n" + at(ls[0], "")
	if where == 0 {
		src += def("")
	}
	src += "Main bus\n" + at(ls[1], "  ")
	if where == 1 {
		src += def("  ")
	}
	src += "  b " + []string{"", "", "q."}[where] + "T" + arg + "\n"
	src += at(ls[3], "    ")
	if both {
		src += user("d", "    ")
	}
	qs := "const z = 1\n" + at(q, "")
	if where == 2 {
		qs += def("")
	}
	v.File("fbd-q/q.fbd", qs)
	v.File("bus.fbd", src)
	p := layer{param, "", px}
	var want int64
	var ok bool
	switch where {
	case 0:
		want, ok = innermost(ls[0], p, ls[2])
	case 1:
		want, ok = innermost(ls[0], ls[1], p, ls[2])
	case 2:
		want, ok = innermost(q, p, ls[2])
	}
	wantD, okD := innermost(ls[0], ls[1], ls[3])
	// the same symbol in the type and in the instance is a redefinition
	dup := ls[2].has && ls[3].has
	if param && ls[2].has || dup {
		return // see DupNames
	}
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P21:crash")
	v.Assert((ok && (okD || !both)) == (res == 0), "P21:resolved")
	if res != 0 {
		return
	}
	b := bus.Subblocks[0]
	found := 0
	for _, c := range b.Configs {
		if c.Name == "a" && v.Decide(c.Width == want) || c.Name == "d" && v.Decide(c.Width == wantD) {
			found++
		}
	}
	v.Assert(found == len(b.Configs) && (found == 2) == both, "P21:value")
	v.Reach("end")
}

// ImportPath: an import binds the only package whose path ends with the whole elements
// given, with or without the prefix of package directories, and nothing else.
func ImportPath() {
	v.FreeHash()
	dirs := []string{"fbd-b", "fbd-bb", "lib/fbd-ab", "lib/x/fbd-d", "fbd-e/sub/fbd-f", "lib/fbd-fbd-g", "l/fbd-dd"}
	// directories which are no packages
	v.File("g/x.fbd", "const k = 77\n")
	v.File("fbd-h/x.txt", "const k = 77\n")
	v.File("fbd-b/readme.md", "not a description")
	v.File("fbd-e/e.fbd", "const k = 78\n")
	ks := make([]int64, len(dirs))
	for i, d := range dirs {
		t, x := v.Lit("k", 1, 32)
		for j := 0; j < i; j++ {
			v.Assume(ks[j] != x)
		}
		ks[i] = x
		v.File(d+"/x.fbd", "const k = "+t+"\n")
	}
	cases := []struct {
		path, name string
		pkg        int
	}{
		{"b", "b", 0}, {"fbd-b", "b", 0}, {"bb", "bb", 1}, {"fbd-bb", "bb", 1},
		{"ab", "ab", 2}, {"lib/fbd-ab", "", 2}, {"x/fbd-d", "", 3}, {"lib/x/fbd-d", "", 3},
		{"d", "d", 3}, {"dd", "dd", 6}, {"f", "f", 4}, {"sub/fbd-f", "", 4}, {"fbd-e/sub/fbd-f", "", 4},
		{"fbd-fbd-g", "fbd-g", 5}, {"g", "g", -1}, {"h", "h", -1}, {"fbd-h", "h", -1},
		{"bd-b", "", -1}, {"-b", "", -1}, {"zz", "zz", -1}, {"B", "B", -1},
		{"ib/fbd-ab", "", -1}, {"b/fbd-d", "", -1}, {"x", "x", -1}, {"/d", "", -1}, {"", "", -1},
		{"fbd", "", -1}, {"fbd-", "", -1}, {"bus.fbd/", "", -1},
	}
	c := cases[v.Choice("case", len(cases))]
	alias := v.Choice("alias", 2) == 1
	second := v.Choice("second", 2) == 1
	name, imp := c.name, "import \""+c.path+"\"\n"
	if alias {
		name, imp = "al", "import al \""+c.path+"\"\n"
	} else if c.name == "" || c.name == "fbd-g" {
		return
	}
	// another package under the name the first one would have without an alias
	other := ""
	if second {
		if !alias || c.name == "" || c.name == "fbd-g" {
			return
		}
		imp += "import " + c.name + " \"bb\"\n"
		other = "  d config; width = " + c.name + ".k\n"
	}
	v.File("bus.fbd", imp+"Main bus\n  c config; width = "+name+".k\n"+other)
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P21:crash")
	v.Assert((c.pkg >= 0) == (res == 0), "P21:import")
	if res != 0 {
		return
	}
	v.Assert(v.Decide(bus.Configs[0].Width == ks[c.pkg]), "P21:package")
	if second {
		v.Assert(v.Decide(bus.Configs[1].Width == ks[1]), "P21:package")
	}
	v.Reach("end")
}

// ImportFile: an import holds in its file only, files of a package share symbols, and
// what a package imports is not visible to those who import it.
func ImportFile() {
	v.FreeHash()
	var ks [4]int64
	for i, d := range []string{"fbd-r", "fbd-s", "sub/fbd-t"} {
		t, x := v.Lit("k", 1, 32)
		ks[i] = x
		v.File(d+"/x.fbd", "const k = "+t+"\ntype T config; width = k\n")
	}
	names := []string{"r", "s", "t"}
	imports := func(id string) (string, int) { // the package imported as p
		k := v.Choice(id, 4)
		if k == 3 {
			return "import \"r\"\nimport \"s\"\n", -1
		}
		return "import p \"" + names[k] + "\"\n", k
	}
	ix, px := imports("x")
	iy, py := imports("y")
	im, pm := imports("main")
	uy := v.Choice("uy", 3) // what y.fbd refers to: p.k, b of x.fbd, b of x.fbd by the type
	ut := v.Choice("ut", 2) // the type refers to p.T or p.k
	y := iy + "const c = " + []string{"p.k", "b", "b"}[uy] + "\n"
	x := ix + "const b = p.k\n"
	if ut == 0 {
		y += "type U p.T\n"
	} else {
		y += "type U config; width = p.k\n"
	}
	v.File("fbd-q/x.fbd", x)
	v.File("fbd-q/y.fbd", y)
	um := v.Choice("um", 4)
	use := []string{"p.k", "q.b", "q.c", "q.p.k"}[um]
	v.File("bus.fbd", im+"import \"q\"\nMain bus\n  c q.U\n  d config; width = "+use+"\n")
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P21:crash")
	ok := px >= 0 && py >= 0 && um != 3 && !(um == 0 && pm < 0)
	v.Assert(ok == (res == 0), "P21:resolved")
	if res != 0 {
		return
	}
	want := int64(0)
	switch {
	case um == 0:
		want = ks[pm]
	case um == 1, uy > 0:
		want = ks[px]
	default:
		want = ks[py]
	}
	v.Assert(len(bus.Configs) == 2 && v.Decide(v.And(bus.Configs[0].Width == ks[py], bus.Configs[1].Width == want)), "P21:value")
	v.Reach("end")
}

// ImportAny: no other text selects a package.
func ImportAny() {
	v.FreeHash()
	lens := []int{1, 2, 5}
	if v.Thorough() {
		lens = []int{1, 2, 3, 4, 5, 6, 7}
	}
	s := v.Str("s", lens[v.Choice("len", len(lens))])
	for i := 0; i < len(s); i++ {
		v.Assume(all(s[i] >= 32, s[i] < 127, s[i] != '"'))
	}
	names := []string{"b", "bb", "c"}
	dirs := []string{"", "", "l/"}
	want := int64(0)
	ok := false
	for i, n := range names {
		t, x := v.Lit("k", 1, 32)
		v.File(dirs[i]+"fbd-"+n+"/x.fbd", "const k = "+t+"\n")
		for _, p := range []string{n, "fbd-" + n, dirs[i] + "fbd-" + n} {
			eq := len(p) == len(s) && v.Decide(v.StrEq(s, p))
			if eq {
				want, ok = x, true
			}
		}
	}
	v.File("bus.fbd", "import al \""+s+"\"\nMain bus\n  c config; width = al.k\n")
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res != 1 && res != 3, "P21:crash")
	v.Assert(ok == (res == 0), "P21:import")
	if res != 0 {
		return
	}
	v.Assert(v.Decide(bus.Configs[0].Width == want), "P21:package")
	v.Reach("end")
}

// WordNames: names equal to words which have a meaning elsewhere (properties, units of time)
// or which only begin like a keyword, a number or a bit string are ordinary names wherever a
// name may stand, next to every operator with and without spaces.
func WordNames() {
	v.FreeHash()
	words := []string{"width", "size", "range", "delay", "atomic", "virtual", "reset", "masters", "align", "access", "clear",
		"s", "ms", "us", "ns", "b", "x", "o", "X1", "configs", "busy", "types", "true1", "const_", "in", "init"}
	w := words[v.Choice("word", len(words))]
	lw, x := v.Lit("w", 20, 40)
	la, a := v.Lit("a", 1, 5)
	type form struct {
		e string
		x int64
	}
	n := w
	defs, head := "", ""
	tail := ""
	use := "  c config; width = "
	switch v.Choice("place", 7) {
	case 0:
		defs = "const " + w + " = " + lw + "\n"
	case 1:
		defs = "const\n  A0 = 1\n"
		head = "  const " + w + " = " + lw + "\n"
	case 2:
		v.File("fbd-q/q.fbd", "const "+w+" = "+lw+"\nconst A9 = "+w+"\n")
		defs = "import \"q\"\n"
		n = "q." + w
	case 3:
		v.File("fbd-q/q.fbd", "const V = "+lw+"\n")
		defs = "import " + w + " \"q\"\n"
		n = w + ".V"
	case 4:
		defs = "type t(" + w + ") config; width = "
		tail = "  c t(" + lw + ")\n"
	case 5:
		defs = "type t(" + w + " = 3) config; width = "
		tail = "  c t(" + w + " = " + lw + ")\n"
	case 6:
		defs = "type t(q, " + w + " = 3) config; width = "
		tail = "  c t(" + w + "=" + lw + ",q=1)\n"
	}
	forms := []form{
		{n, x}, {n + "-A", x - a}, {n + " - A", x - a}, {n + "- A", x - a}, {n + " -A", x - a}, {n + "-1", x - 1},
		{"60-" + n, 60 - x}, {"60 - " + n, 60 - x}, {"2*" + n, 2 * x}, {"2 * " + n, 2 * x}, {n + "+A", x + a},
		{"(" + n + ")", x}, {"A*" + n + "-A-" + n + "*A+" + n, x - a}, {"-A+" + n, x - a}, {n + "-A- A", x - 2*a}, {"100-A-" + n, 100 - a - x}, {"7%" + n, 7},
	}
	f := forms[v.Choice("form", len(forms))]
	src := defs
	if tail != "" {
		src += f.e + "\n"
	} else {
		tail = use + f.e + "\n"
	}
	if len(defs) > 6 && defs[:6] == "import" {
		src = defs + "const A = " + la + "\n"
	} else {
		src = "const A = " + la + "\n" + src
	}
	v.File("bus.fbd", src+"Main bus\n  width = 32\n"+head+tail)
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res == 0, "P21:accepted")
	if res != 0 {
		return
	}
	v.Assert(len(bus.Configs) == 1 && v.Decide(bus.Configs[0].Width == f.x), "P21:value")
	v.Reach("end")
}
