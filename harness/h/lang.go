package h

import (
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
)

func init() {
	reg_("TypeArgs", TypeArgs)
	reg_("TypeArrays", TypeArrays)
	reg_("TypeNest", TypeNest)
	reg_("TypeOverride", TypeOverride)
	reg_("PropTwice", PropTwice)
	reg_("DupNames", DupNames)
	reg_("DupReserved", DupReserved)
	reg_("GroupOrder", GroupOrder)
	reg_("GroupIrqs", GroupIrqs)
	reg_("Nesting", Nesting)
	reg_("StreamMix", StreamMix)
}

func sub(b *fn.Block, name string) *fn.Block {
	for _, s := range b.Subblocks {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// TypeArgs: parameters of a type get the values of the arguments: positional ones in
// order, named ones by name, the rest the defaults; anything else is rejected.
func TypeArgs() {
	v.FreeHash()
	names := []string{"a", "b", "c"}
	nd := v.Choice("defaults", 4)
	lo := int64(10)
	if v.Thorough() {
		lo = 1
	}
	var val [3]int64
	var set [3]bool
	src := "type T("
	for i, n := range names {
		if i > 0 {
			src += ", "
		}
		src += n
		if i >= 3-nd {
			l, x := v.Lit("d"+n, lo, 32)
			src += " = " + l
			val[i], set[i] = x, true
		}
	}
	src += ") block\n  const B = b\n  const C = c\n  x config\n    width = a\n"
	max := 3
	if v.Thorough() {
		max = 4
	}
	n := v.Choice("args", max+1)
	list := ""
	ok := true
	named := false
	var given [3]bool
	for i := 0; i < n; i++ {
		if i > 0 {
			list += ", "
		}
		l, x := v.Lit("v", lo, 32)
		k := v.Choice("arg", 5)
		if k == 0 {
			list += l
			if named || i >= 3 {
				ok = false
				continue
			}
			k = i + 1
		} else {
			named = true
			list += []string{"", "a", "b", "c", "q"}[k] + " = " + l
		}
		if k == 4 || given[k-1] {
			ok = false
			continue
		}
		given[k-1] = true
		val[k-1], set[k-1] = x, true
	}
	if n > 0 {
		list = "(" + list + ")"
	}
	for i := range set {
		ok = ok && set[i]
	}
	src += "Main bus\n  i T" + list + "\n  j T(3, 2, 1)\n  k T(c = 4, b = 5, a = 6)\n"
	b, res := compile(src)
	v.Assert(res != 1, "P13:crash")
	v.Assert(ok == (res == 0), "P13:accepted")
	if res != 0 {
		return
	}
	v.Assert(widths3(sub(b, "i"), val[0], val[1], val[2]), "P13:bound")
	v.Assert(widths3(sub(b, "j"), 3, 2, 1), "P13:bound")
	if k := sub(b, "k"); k != nil {
		v.Assert(widths3(k, 6, 5, 4), "P13:bound")
	}
	v.Reach("end")
}

func widths3(b *fn.Block, x, y, z int64) bool {
	if b == nil || len(b.Configs) != 1 || len(b.Consts.Ints) != 2 {
		return false
	}
	return all(b.Configs[0].Width == x, b.Consts.Ints["B"] == y, b.Consts.Ints["C"] == z)
}

// TypeNest: an argument is evaluated where it is written and a parameter belongs to
// its type only, whatever other symbols have the same name.
func TypeNest() {
	v.FreeHash()
	nm := []string{"n", "m", "k"}
	inner := nm[v.Choice("inner", 2)]
	outer := nm[v.Choice("outer", 3)]
	pk := v.Choice("pkgconst", 3)
	lx, x := v.Lit("x", 1, 10)
	ly, y := v.Lit("y", 1, 10)
	lp, p := v.Lit("p", 1, 10)
	ld, d := v.Lit("d", 1, 10)
	lz, z := v.Lit("z", 1, 10)
	src := ""
	if pk < 2 {
		src = "const " + nm[pk] + " = " + lp + "\n"
	}
	switch v.Choice("shape", 6) {
	case 0: // type of a type with the outer parameter passed down
		src += "type U(" + inner + ") config; width = " + inner + " + " + ld + "\n"
		src += "type T(" + outer + ") U(" + outer + " + " + lz + ")\n"
		src += "Main bus\n  e T(" + lx + ")\n  f T(" + ly + ")\n  g U(" + ly + ")\n"
		b, res := compile(src)
		v.Assert(res == 0, "P13:accepted")
		if res == 0 {
			v.Assert(cfgWidths(b, x+z+d, y+z+d, y+d), "P13:scope")
			v.Reach("end")
		}
	case 1: // instance within a type, argument from the parameter of the outer type
		src += "type U(" + inner + ") config; width = " + inner + " + " + ld + "\n"
		src += "type T(" + outer + ") block\n  e U(" + outer + " * 2)\n  f U(" + inner + " = " + outer + " + 1)\n"
		src += "Main bus\n  i T(" + lx + ")\n  j T(" + ly + ")\n"
		b, res := compile(src)
		v.Assert(res == 0, "P13:accepted")
		if res == 0 {
			v.Assert(v.And(cfgWidths(sub(b, "i"), 2*x+d, x+1+d), cfgWidths(sub(b, "j"), 2*y+d, y+1+d)), "P13:scope")
			v.Reach("end")
		}
	case 2: // default of a parameter refers to another symbol of the package
		src += "const q = " + lz + "\n"
		src += "type U(" + inner + " = q + 1) config; width = " + inner + "\n"
		src += "type T(" + outer + ") block\n  const q = " + ly + "\n  e U\n  f U(q)\n  g U(" + outer + ")\n"
		src += "Main bus\n  i T(" + lx + ")\n"
		b, res := compile(src)
		v.Assert(res == 0, "P13:accepted")
		if res == 0 {
			v.Assert(cfgWidths(sub(b, "i"), z+1, y, x), "P13:scope")
			v.Reach("end")
		}
	case 3: // a constant of the package used as an argument
		if pk == 2 {
			v.Skip()
		}
		src += "type U(" + inner + ") config; width = " + inner + " + " + ld + "\n"
		src += "Main bus\n  e U(" + nm[pk] + ")\n  f U(" + nm[pk] + " + " + lx + ")\n"
		b, res := compile(src)
		v.Assert(res == 0, "P13:accepted")
		if res == 0 {
			v.Assert(cfgWidths(b, p+d, p+x+d), "P13:scope")
			v.Reach("end")
		}
	case 4: // three levels with a parameter at each
		src += "type A(" + inner + ") config; width = " + inner + "\n"
		src += "type B(" + outer + ") A(" + outer + " + " + ld + ")\n"
		src += "type C(" + inner + ", " + "w) B(" + inner + " + w)\n"
		src += "Main bus\n  e C(" + lx + ", " + ly + ")\n  f C(w = " + lx + ", " + inner + " = " + lz + ")\n  g B(" + lz + ")\n"
		b, res := compile(src)
		v.Assert(res == 0, "P13:accepted")
		if res == 0 {
			v.Assert(cfgWidths(b, x+y+d, z+x+d, z+d), "P13:scope")
			v.Reach("end")
		}
	case 5: // count and property of instances within the type
		src += "type T(" + outer + ", w = " + ly + ") block\n  const s = " + outer + " + " + ld + "\n  e [" + outer + "] config; width = s\n  b [w] block\n    f config; width = " + outer + " + w\n"
		src += "Main bus\n  i T(" + lx + ")\n  j T(" + lz + ", " + lx + ")\n"
		b, res := compile(src)
		v.Assert(res == 0, "P13:accepted")
		if res == 0 {
			i, j := sub(b, "i"), sub(b, "j")
			v.Assert(v.And(nest(i, x, y, d), nest(j, z, x, d)), "P13:scope")
			v.Reach("end")
		}
	}
}

func nest(b *fn.Block, o, w, d int64) bool {
	if b == nil || len(b.Configs) != 1 || len(b.Subblocks) != 1 || len(b.Subblocks[0].Configs) != 1 {
		return false
	}
	return all(b.Configs[0].Count == o, b.Configs[0].Width == o+d, b.Subblocks[0].Count == w, b.Subblocks[0].Configs[0].Width == o+w)
}

func cfgWidths(b *fn.Block, ws ...int64) bool {
	if b == nil || len(b.Configs) != len(ws) {
		return false
	}
	r := true
	for i, w := range ws {
		r = v.And(r, b.Configs[i].Width == w)
	}
	return r
}

// intProp reads the integer property of the only functionality of the kind.
func intProp(b *fn.Block, kind, prop string) int64 {
	switch kind + " " + prop {
	case "block align":
		return b.Subblocks[0].Align
	case "bus align":
		return b.Align
	case "block masters":
		return b.Subblocks[0].Masters
	case "bus masters":
		return b.Masters
	case "bus width":
		return b.Width
	case "blackbox size":
		return b.Blackboxes[0].Size
	case "config width":
		return b.Configs[0].Width
	case "mask width":
		return b.Masks[0].Width
	case "static width":
		for _, s := range b.Statics {
			if s.Name == "e" {
				return s.Width
			}
		}
	case "status width":
		return b.Statuses[0].Width
	case "param width", "return width":
		p, r := members(b)
		if len(p) == 1 && len(r) == 0 {
			return p[0].Width
		}
		if len(r) == 1 && len(p) == 0 {
			return r[0].Width
		}
	}
	return -1
}

// TypeOverride: a property set at one level of a type chain applies, a property set
// at two levels is rejected.
func TypeOverride() {
	v.FreeHash()
	kind := kinds[v.Choice("kind", len(kinds))]
	prop := propNames[v.Choice("prop", len(propNames))]
	if !legal(kind, prop) {
		return
	}
	l, x := v.Lit("x", 1, 1)
	val := func(k int) string {
		switch valueType(prop) {
		case "string":
			if prop == "clear" && k == 1 {
				return "\"Explicit\""
			}
			return "\"" + goodString(prop) + "\""
		case "bool":
			return []string{"true", "false"}[k]
		case "time":
			return l + " ms"
		case "value", "range":
			return l
		}
		if prop == "align" || prop == "masters" || prop == "size" {
			l, x = v.Lit("x", 1, 1<<20)
			v.Assume(v.Or(prop != "align", x&(x-1) == 0))
		} else if prop == "width" {
			l, x = v.Lit("x", 8, 40)
		}
		return l
	}
	levels := 3
	set := v.Choice("set", 1<<uint(levels))
	src := []string{"type A " + kind + "\n", "type B A\n", ""}
	ind := "  "
	head := ""
	switch kind {
	case "bus":
		src[2] = "Main B\n"
	case "param", "return":
		head = "Main bus\n  o proc\n"
		src[2] = "    e B\n"
	default:
		head = "Main bus\n"
		src[2] = "  e B\n"
	}
	k := 0
	for i := 0; i < levels; i++ {
		in := ind
		if i == 2 && kind != "bus" {
			in = "    "
			if kind == "param" || kind == "return" {
				in = "      "
			}
		}
		if i == 0 {
			switch {
			case kind == "static" && prop != "init-value":
				src[0] += ind + "init-value = 0\n"
			case kind == "blackbox" && set == 0:
				src[0] += ind + "size = 1\n"
			case kind == "irq" && (prop == "enable-init-value" || prop == "enable-reset-value"):
				src[0] += ind + "add-enable = true\n"
			case kind == "group":
				src[0] += ind + "g1 config\n"
			}
		}
		if set&(1<<uint(i)) != 0 {
			src[i] += in + prop + " = " + val(i&1) + "\n"
			k++
		}
	}
	if (prop == "init-value" && kind == "static" || prop == "size") && set&1 == 0 {
		v.Skip() // the type without the mandatory property is rejected on its own
	}
	b, res := compile(src[0] + src[1] + head + src[2])
	v.Assert(res != 1, "P13:crash")
	v.Assert((k <= 1) == (res == 0), "P13:override")
	if res == 0 && k == 1 {
		if valueType(prop) == "int" {
			v.Assert(intProp(b, kind, prop) == x, "P13:inherited")
		}
		v.Reach("end")
	}
}

// PropTwice: a property set twice in one body is rejected, whatever is set between,
// before or after; properties set once are accepted.
func PropTwice() {
	v.FreeHash()
	l, x := v.Lit("x", 8, 40)
	names := []string{"width", "atomic", "init-value", "reset-value", "read-value"}
	vals := [][2]string{{l, l}, {"true", "false"}, {"1", "2"}, {"3", "3"}, {"x\"0f\"", "4"}}
	n := 3
	if v.Thorough() {
		n = 4
	}
	var lines []string
	cnt := make([]int, len(names))
	for range n {
		k := v.Choice("prop", len(names)+1)
		if k == len(names) {
			continue
		}
		lines = append(lines, names[k]+" = "+vals[k][cnt[k]&1])
		cnt[k]++
	}
	twice := false
	for _, c := range cnt {
		twice = twice || c > 1
	}
	body := ""
	switch v.Choice("form", 3) {
	case 0:
		for _, s := range lines {
			body += "; " + s
		}
		body += "\n"
	case 1:
		body = "\n"
		for _, s := range lines {
			body += "  IND" + s + "\n"
		}
	case 2:
		body = "\n"
		for i, s := range lines {
			switch i {
			case 0:
				body += "  IND" + s
			case 1:
				body += "; " + s
			case 2:
				body += "\n  IND" + s
			default:
				body += "; " + s
			}
		}
		body += "\n"
		if len(lines) == 0 {
			body = "\n"
		}
	}
	src := ""
	switch v.Choice("where", 3) {
	case 0:
		src = "Main bus\n  e config" + strings.ReplaceAll(body, "  IND", "    ")
	case 1:
		src = "type T config" + strings.ReplaceAll(body, "  IND", "  ") + "Main bus\n  e T\n"
	case 2:
		src = "type T config\nMain bus\n  e T" + strings.ReplaceAll(body, "  IND", "    ")
	}
	b, res := compile(src)
	v.Assert(res != 1, "P13:crash")
	v.Assert(twice == (res == 2), "P13:twice")
	if res == 0 && cnt[0] == 1 {
		v.Assert(len(b.Configs) == 1 && v.Decide(b.Configs[0].Width == x), "P13:inherited")
		v.Reach("end")
	}
}

// name is an arbitrary identifier of n characters.
func name(id string, n int) string {
	s := v.Str(id, n)
	for i := 0; i < n; i++ {
		c := s[i]
		l := anyOf(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z'), c == '_')
		if i > 0 {
			l = v.Or(l, v.And(c >= '0', c <= '9'))
		}
		v.Assume(l)
	}
	return s
}

var kinds1 = []string{"config", "mask", "static", "status", "irq", "proc", "stream", "block", "group", "blackbox"}

// DupNames: two symbols of one scope with the same name are rejected, different
// names are accepted.
func DupNames() {
	v.FreeHash()
	max := 2
	if v.Thorough() {
		max = 3
	}
	la, lb := 1+v.Choice("lenA", max), 1+v.Choice("lenB", max)
	few := !v.Thorough() && la+lb > 2
	if !v.Thorough() && la == 2 && lb == 2 {
		return
	}
	a, b := name("a", la), name("b", lb)
	for _, s := range []string{a, b} {
		if len(s) == 2 {
			v.Assume(v.Not(v.StrEq(s, "ID")))
		}
		if len(s) == 3 { // keywords
			v.Assume(v.And(v.Not(v.StrEq(s, "bus")), v.Not(v.StrEq(s, "irq"))))
		}
	}
	// a third symbol before both or between them
	extra := 0
	if !few {
		extra = v.Choice("extra", 3)
	}
	ex := func(at int, text string) string {
		if extra == at {
			return text
		}
		return ""
	}
	where := v.Choice("where", 17)
	decl1 := func(id, nm, ind string) string {
		s := ind + nm
		if few || id == "k2" && where > 0 && !v.Thorough() {
			return s + " config\n"
		}
		k := kinds1[v.Choice(id, len(kinds1))]
		return s + " " + k + "\n" + need(k, ind+"  ")
	}
	src := ""
	switch where {
	case 0:
		src = "Main bus\n" + ex(1, "  zz9z config\n") + decl1("k1", a, "  ") + ex(2, "  zz9z config\n") + decl1("k2", b, "  ")
	case 1:
		src = "type T bus\n" + ex(1, "  zz9z config\n") + decl1("k1", a, "  ") + "Main T\n" + ex(2, "  zz9z config\n") + decl1("k2", b, "  ")
	case 2:
		src = "type T block\n" + ex(1, "  zz9z status\n") + decl1("k1", a, "  ") + ex(2, "  zz9z status\n") + "type U T\nMain bus\n  blk U\n" + decl1("k2", b, "    ")
	case 3:
		src = "Main bus\n" + ex(1, "  const zz9z = 1\n") + "  const " + a + " = 1\n" + ex(2, "  const zz9z = 1\n") + "  const " + b + " = 2\n"
	case 4:
		src = ex(1, "const zz9z = 1\n") + "const " + a + " = 1\n" + ex(2, "const zz9z = 1\n") + "const " + b + " = 1\nMain bus\n  c config\n"
	case 5:
		v1 := []string{"1", "true", "\"s\"", "1.5", "[1, 2]", "[true]"}
		src = "type T bus\n  const " + a + " = " + v1[v.Choice("v1", 6)] + "\n" + ex(1, "  const zz9z = 1\n") + "Main T\n" + ex(2, "  const zz9z = \"r\"\n") + "  const " + b + " = " + v1[v.Choice("v2", 6)] + "\n"
	case 6:
		src = ex(1, "type zz9z config\n") + "type " + a + " config\n" + ex(2, "type zz9z config\n") + "type " + b + " status\nMain bus\n  c config\n"
	case 7:
		src = "type TT(" + ex(1, "zz9z = 1, ") + a + " = 1, " + ex(2, "zz9z = 1, ") + b + " = 2) config\nMain bus\n  c TT\n"
	case 8:
		k := v.Choice("outer", 3)
		mem := func(id string) string {
			if k == 0 {
				return []string{"param", "return"}[v.Choice(id, 2)]
			}
			return "param"
		}
		src = "Main bus\n  o " + []string{"proc", "stream", "group"}[k] + "\n" + ex(1, "    zz9z param\n") + "    " + a + " " + mem("k1") + "\n" + ex(2, "    zz9z param\n") + "    " + b + " " + mem("k2") + "\n"
	case 9:
		mem := []string{"config", "mask", "status"}
		src = "type G group\n" + ex(1, "  zz9z config\n") + "  " + a + " " + mem[v.Choice("k1", 3)] + "\n" + ex(2, "  zz9z config\n") + "Main bus\n  g G\n    " + b + " " + mem[v.Choice("k2", 3)] + "\n"
	case 10:
		src = "type G group\n" + ex(1, "  const zz9z = 1\n") + "  const " + a + " = 1\n  c config\n" + ex(2, "  const zz9z = 2\n") + "Main bus\n  g G\n    const " + b + " = 2\n"
	case 11:
		src = "type P " + []string{"proc", "stream"}[v.Choice("outer", 2)] + "\n" + ex(1, "  zz9z param\n") + "  " + a + " param\n" + ex(2, "  zz9z param\n") + "Main bus\n  p P\n    " + b + " param\n"
	case 12, 13, 14: // in two files of a package
		d, e := []string{"const ", "type ", ""}[where-12], []string{" = 1\n", " config\n", " zz8z\n"}[where-12]
		v.File("fbd-p/x.fbd", "type zz8z config\n"+d+a+e+ex(1, d+"zz9z"+e))
		v.File("fbd-p/y.fbd", ex(2, d+"zz9z"+e)+d+b+e)
		src = "import \"p\"\nMain bus\n  c config\n"
	case 16: // of the package
		src = ex(1, "zz9z bus\n") + a + " bus\n" + ex(2, "zz9z bus\n") + b + " bus\n" + "Main bus\n  c config\n"
	case 15: // in an unused type
		src = "type T block\n" + ex(1, "  zz9z config\n") + decl1("k1", a, "  ") + ex(2, "  zz9z config\n") + decl1("k2", b, "  ") + "Main bus\n  c config\n"
	}
	_, res := compile(src)
	v.Assert(res != 1, "P14:crash")
	v.Assert(v.Iff(v.StrEq(a, b), res == 2), "P14:duplicate")
	v.Reach("end")
}

// DupReserved: a functionality cannot take the name of the identifier.
func DupReserved() {
	v.FreeHash()
	n := name("n", 2)
	k := kinds1[v.Choice("kind", len(kinds1))]
	_, res := compile("Main bus\n  " + n + " " + k + "\n" + need(k, "    "))
	v.Assert(res != 1, "P14:crash")
	v.Assert(v.Iff(v.StrEq(n, "ID"), res == 2), "P14:reserved")
	v.Reach("end")
}

// GroupOrder: what a group may contain does not depend on the order of its members
// nor on how they are spread over the types of the group.
func GroupOrder() {
	v.FreeHash()
	ks := []string{"config", "irq", "mask", "param", "return", "static", "status"}
	n := 2 + v.Choice("n", 2)
	lv := []string{"type G group\n", "  g G\n"}
	kind := make([]string, n)
	trig := make([]int, n)
	virtual := v.Choice("virtual", 5) // none, false/true at level 0, false/true at level 1
	if virtual > 0 {
		l := (virtual - 1) / 2
		lv[l] += []string{"  ", "    "}[l] + "virtual = " + []string{"false", "true"}[(virtual-1)%2] + "\n"
	}
	for i := 0; i < n; i++ {
		kind[i] = ks[v.Choice("kind", len(ks))]
		l := v.Choice("level", 2)
		ind := []string{"  ", "    "}[l]
		lv[l] += ind + nm("m", i) + " " + kind[i] + "\n"
		switch kind[i] {
		case "static":
			lv[l] += ind + "  init-value = 0\n"
		case "irq":
			trig[i] = v.Choice("trigger", 3)
			if trig[i] > 0 {
				lv[l] += ind + "  out-trigger = \"" + []string{"", "Level", "Edge"}[trig[i]] + "\"\n"
			}
		default:
			w, _ := v.Lit("w", 1, 32)
			lv[l] += ind + "  width = " + w + "\n"
		}
	}
	exp := true
	class := func(k string) string {
		if k == "irq" || k == "param" || k == "return" {
			return k
		}
		return "data"
	}
	for i := 0; i < n; i++ {
		if class(kind[i]) != class(kind[0]) {
			exp = false
		}
		if (virtual == 2 || virtual == 4) && class(kind[i]) != "data" {
			exp = false
		}
		if kind[i] == "irq" && kind[0] == "irq" && (trig[i] == 2) != (trig[0] == 2) {
			exp = false
		}
	}
	b, res := compile(lv[0] + "Main bus\n" + lv[1])
	v.Assert(res != 1, "P15:crash")
	v.Assert(exp == (res == 0), "P15:accepted")
	if res == 0 {
		v.Assert(len(b.Groups) == 1 && b.Groups[0].Virtual == (virtual == 2 || virtual == 4), "P15:virtual")
		v.Reach("end")
	}
}

// GroupIrqs: groups of many interrupts.
func GroupIrqs() {
	v.FreeHash()
	n := 2 + v.Choice("n", 3)
	if v.Thorough() {
		n = 6
	}
	lv := []string{"type G group\n", "  g G\n"}
	exp, first := true, 0
	for i := 0; i < n; i++ {
		l := v.Choice("level", 2)
		ind := []string{"  ", "    "}[l]
		lv[l] += ind + nm("m", i) + " irq\n"
		trig := v.Choice("trigger", 3)
		if trig > 0 {
			lv[l] += ind + "  out-trigger = \"" + []string{"", "Level", "Edge"}[trig] + "\"\n"
		}
		if i == 0 {
			first = trig
		} else if (trig == 2) != (first == 2) {
			exp = false
		}
	}
	b, res := compile(lv[0] + "Main bus\n" + lv[1])
	v.Assert(res != 1, "P15:crash")
	v.Assert(exp == (res == 0), "P15:accepted")
	if res == 0 {
		v.Assert(len(b.Groups) == 1 && len(b.Groups[0].Irqs) == n, "P15:irqs")
		v.Reach("end")
	}
}

var inner = map[string]string{
	"block":  " blackbox block config group irq mask proc static status stream ",
	"bus":    " blackbox block config group irq mask proc static status stream ",
	"group":  " config irq mask param return static status ",
	"proc":   " param return ",
	"stream": " param return ",
}

// need is what an instance of the kind must have in its body.
func need(kind, ind string) string {
	switch kind {
	case "static":
		return ind + "init-value = 0\n"
	case "blackbox":
		return ind + "size = 1\n"
	case "group":
		return ind + "q1 config\n"
	}
	return ""
}

// Nesting: which kind may be instantiated in which.
func Nesting() {
	v.FreeHash()
	out := kinds[v.Choice("outer", len(kinds))]
	in := kinds[v.Choice("inner", len(kinds))]
	outType := v.Choice("outerType", 3) // direct, via a type holding the inner one, via a type and inner in the instance
	inType := v.Choice("innerType", 2)
	l, _ := v.Lit("w", 1, 32)
	pre := ""
	inK := in
	body := func(ind string) string {
		s := ind + "i " + inK + "\n"
		if inType == 0 {
			s += need(in, ind+"  ")
			if legal(in, "width") && in != "bus" {
				s += ind + "  width = " + l + "\n"
			}
		}
		return s
	}
	if inType == 1 {
		pre += "type I " + in + "\n" + need(in, "  ")
		inK = "I"
	}
	ind := "  "
	head := "Main bus\n"
	switch out {
	case "bus":
		ind, head = "", ""
	case "param", "return":
		ind, head = "    ", "Main bus\n  p proc\n"
	}
	nm := "o "
	if out == "bus" {
		nm = "Main "
	}
	outNeed := need(out, "  ")
	if out == "group" {
		outNeed = ""
	}
	src := ""
	switch outType {
	case 0:
		outNeed = need(out, ind+"  ")
		if out == "group" {
			outNeed = ""
		}
		src = pre + head + ind + nm + out + "\n" + outNeed + body(ind+"  ")
	case 1:
		src = pre + "type O " + out + "\n" + outNeed + body("  ") + head + ind + nm + "O\n"
	case 2:
		src = pre + "type O " + out + "\n" + outNeed + head + ind + nm + "O\n" + body(ind+"  ")
		if out == "group" {
			v.Skip() // the type alone would be an empty group
		}
	}
	ok := contains(inner[out], " "+in+" ")
	_, res := compile(src)
	v.Assert(res != 1, "P16:crash")
	v.Assert(ok == (res == 0), "P16:accepted")
	v.Reach("end")
	if ok {
		v.Reach("accepted")
	}
}

// StreamMix: the members of a stream are all params or all returns, those of a
// procedure may be mixed.
func StreamMix() {
	v.FreeHash()
	n := 3
	if v.Thorough() {
		n = 5
	}
	stream := v.Choice("stream", 2) == 1
	lv := []string{"type S proc\n", "  s S\n"}
	if stream {
		lv[0] = "type S stream\n"
	}
	p, r := 0, 0
	for i := 0; i < n; i++ {
		k := v.Choice("kind", 3)
		if k == 0 {
			continue
		}
		l := v.Choice("level", 2)
		lv[l] += []string{"  ", "    "}[l] + nm("m", i) + " " + []string{"", "param", "return"}[k] + "\n"
		if k == 1 {
			p++
		} else {
			r++
		}
	}
	b, res := compile(lv[0] + "Main bus\n" + lv[1])
	v.Assert(res != 1, "P16:crash")
	v.Assert((!stream || p == 0 || r == 0) == (res == 0), "P16:stream")
	if res == 0 {
		ps, rs := members(b)
		v.Assert(len(ps) == p && len(rs) == r, "P16:stream")
		v.Reach("end")
	}
}

// TypeArrays: the array marker in the instantiation or in any type of the chain,
// with a size given by a literal, a parameter or a constant of the scope of the type.
func TypeArrays() {
	v.FreeHash()
	kinds := []string{"config", "status", "static", "block", "param", "return"}
	kind := kinds[v.Choice("kind", len(kinds))]
	l1, n1 := v.Lit("x", 1, 16)
	l2, n2 := v.Lit("y", 1, 16)
	l3, n3 := v.Lit("z", 1, 16)
	// the marker of every link of the chain and the number of items it gives
	marks := []string{"", "", ""}
	how := []int{v.Choice("t1", 4), v.Choice("t2", 4), v.Choice("inst", 3)}
	args2, args3 := "", ""
	set, num := 0, int64(1)
	for i, k := range how {
		switch k {
		case 1: // literal
			marks[i], num = " ["+l1+"]", n1
		case 2: // constant of the scope
			marks[i] = " [N]"
			num = n2
			if i == 2 {
				num = n3 // the one of the bus
			}
		case 3: // parameter of the type
			marks[i] = " [n]"
			num = n1 + 1
			if i == 0 {
				args2 = "(m)"
				args3 = "(" + l1 + " + 1)"
			} else {
				args3 = "(m = " + l1 + " + 1)"
			}
		}
		if k > 0 {
			set++
		}
	}
	if how[1] == 3 {
		marks[1] = " [m]"
	}
	body := ""
	switch kind {
	case "static":
		body = "; init-value = 0"
	case "block":
		body = "\n  s status"
	}
	src := "const N = " + l2 + "\n" +
		"type T1(n = 5)" + marks[0] + " " + kind + body + "\n" +
		"type T2(m = 6)" + marks[1] + " T1" + args2 + "\n" +
		"Main bus\n  const N = " + l3 + "\n"
	ins := "e" + marks[2] + " T2" + args3 + "\n"
	switch kind {
	case "param":
		src += "  p proc\n    " + ins
	case "return":
		src += "  p stream\n    " + ins
	default:
		src += "  " + ins
	}
	b, res := compile(src)
	v.Assert(res != 1, "P07:crash")
	v.Assert(v.Iff(res == 0, set < 2), "P07:array-twice")
	if res != 0 {
		v.Reach("rejected")
		return
	}
	var f *fn.Func
	switch {
	case kind == "config" && len(b.Configs) == 1:
		f = &b.Configs[0].Func
	case kind == "status" && len(b.Statuses) == 1:
		f = &b.Statuses[0].Func
	case kind == "static" && len(b.Statics) == 2:
		f = &b.Statics[0].Func
	case kind == "block" && len(b.Subblocks) == 1:
		f = &b.Subblocks[0].Func
	case kind == "param" && len(b.Procs) == 1 && len(b.Procs[0].Params) == 1:
		f = &b.Procs[0].Params[0].Func
	case kind == "return" && len(b.Streams) == 1 && len(b.Streams[0].Returns) == 1:
		f = &b.Streams[0].Returns[0].Func
	}
	v.Assert(f != nil && f.Name == "e", "P07:missing")
	if f == nil {
		return
	}
	v.Assert(f.IsArray == (set == 1), "P07:is-array")
	v.Assert(f.Count == num, "P07:count")
	v.Reach("end")
}
