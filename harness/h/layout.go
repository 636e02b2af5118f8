package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
)

func init() {
	reg_("Layout", Layout)
	reg_("Spaces", Spaces)
	reg_("SpacesMore", SpacesMore)
	reg_("LayoutImports", LayoutImports)
}

// lineEnds are the ways to end a line which do not change the meaning. The characters
// of comments are arbitrary.
func lineEnd(k int, ind string) string {
	if k == 0 {
		return "\n"
	}
	if k == 1 {
		return "\n\n\n"
	}
	s := v.Str("comment", 2)
	v.Assume(v.And(s[0] != '\n', s[1] != '\n'))
	switch k {
	case 2:
		return " #" + s + "\n"
	case 3:
		return "\n" + ind + "#" + s + "\n"
	case 4:
		return "\n\n" + ind + "# " + s + "\n\n"
	}
	return "#" + s + "\n" + ind + "#\n"
}

// Layout: line ends, blank lines, comments and the form in which properties and
// constants are written do not change the meaning.
func Layout() {
	v.FreeHash()
	lw, w := "12", int64(12)
	li, x := v.Lit("i", 1000, 4095)
	lc, c := v.Lit("c", 10, 50)
	type line struct{ ind, text string }
	var ls []line
	add := func(ind, text string) { ls = append(ls, line{ind, text}) }
	// constants, at the start or at the end of the file
	consts := func(form int) {
		switch form {
		case 0:
			add("", "const C = "+lc)
			add("", "const D = "+lc+" + 1")
		case 1:
			add("", "const")
			add("  ", "C = "+lc)
			add("  ", "D = C + 1")
		case 2:
			add("", "const D = C + 1")
			add("", "const")
			add("  ", "C = "+lc)
		}
	}
	form, last := v.Choice("consts", 3), v.Choice("last", 2) == 1
	if !last {
		consts(form)
	}
	config := func(ind, head string) {
		props := []string{"width = " + lw, "init-value = " + li, "atomic = false"}
		switch v.Choice("props", 4) {
		case 0:
			add(ind, head+"; "+props[0]+"; "+props[1]+"; "+props[2])
		case 1:
			add(ind, head)
			for _, p := range props {
				add(ind+"  ", p)
			}
		case 2:
			add(ind, head)
			add(ind+"  ", props[2]+";"+props[0])
			add(ind+"  ", props[1])
		case 3:
			add(ind, head)
			add(ind+"  ", props[0])
			add(ind+"  ", "const z = 1")
			add(ind+"  ", props[1]+"; "+props[2])
		}
	}
	typed := v.Choice("typed", 2) == 1
	if typed {
		config("", "type T config")
	}
	add("", "Main bus")
	first := v.Choice("first", 2) == 1
	if first {
		add("  ", "width = 16; masters = 2")
	}
	if typed {
		add("  ", "a T")
	} else {
		config("  ", "a config")
	}
	add("  ", "b [C]status; width = D")
	if !first {
		add("  ", "masters = 2")
		add("  ", "width = 16")
	}
	if last {
		consts(form)
	}
	at := v.Choice("at", len(ls))
	kind := v.Choice("kind", 6)
	src := ""
	for i, l := range ls {
		src += l.ind + l.text
		switch {
		case i == at:
			ind := l.ind
			if i+1 < len(ls) {
				ind = ls[i+1].ind
			}
			src += lineEnd(kind, ind)
		case i < len(ls)-1:
			src += "\n"
		}
	}
	v.File("bus.fbd", src)
	bus, ps, res := compileAll("bus.fbd")
	v.Assert(res == 0, "P24:accepted")
	if res != 0 {
		return
	}
	v.Assert(len(bus.Configs) == 1 && len(bus.Statuses) == 1 && bus.Masters == 2 && bus.Width == 16, "P24:meaning")
	a, b := bus.Configs[0], bus.Statuses[0]
	k := ps["main"].Consts.Ints
	v.Assert(v.Decide(all(a.Width == w, a.Atomic == false, represents(string(a.InitValue), x, w), k["C"] == c, k["D"] == c+1)), "P24:meaning")
	v.Assert(v.Decide(all(b.IsArray, b.Count == c, b.Width == c+1)), "P24:meaning")
	v.Reach("end")
}

// Spaces: any number of spaces, or none, around operators, brackets, commas and
// keywords, and every end of a file.
func Spaces() {
	v.FreeHash()
	lx, x := v.Lit("x", 10, 20)
	ly, y := v.Lit("y", 10, 20)
	ln, n := v.Lit("n", 10, 20)
	lk, k := v.Lit("k", 100, 255)
	toks := []string{
		"type", "~~", "T", "~", "(", "~", "a", "~", ",", "~", "b", "~", "=", "~", "@ly", "~", ")", "~~", "config", "~", ";", "~",
		"width", "~", "=", "~", "a", "~", "+", "~", "(", "~", "b", "~", "*", "~", "3", "~", ")", "\n",
		"const", "~~", "L", "~", "=", "~", "[", "~", "@lx", "~", ",", "~", "-", "~", "@ly", "~", "]", "\n",
		"Main", "~~", "bus", "\n  ", "width", "~", "=", "~", "0b1000", "~", "<<", "~", "2", "\n  ",
		"c", "~~", "T", "~", "(", "~", "@lx", "~", ",", "~", "b", "~", "=", "~", "ceil", "~", "(", "~", "@ly", "~", ")", "~", ")", "\n  ",
		"s", "~~", "[", "~", "@ln", "~", "]", "~~", "static", "~", ";", "~", "init-value", "~", "=", "~", "@lk", "~", ";", "~", "width", "~", "=", "~", "8",
		[]string{"", "\n", "\n\n"}[v.Choice("eof", 3)],
	}
	gaps := 0
	for _, t := range toks {
		if t == "~" || t == "~~" {
			gaps++
		}
	}
	// all gaps alike but one
	base := v.Choice("base", 3)
	at := v.Choice("at", gaps)
	other := v.Choice("other", 3)
	src, g := "", 0
	for _, t := range toks {
		switch t {
		case "@lx":
			src += lx
		case "@ly":
			src += ly
		case "@ln":
			src += ln
		case "@lk":
			src += lk
		case "~", "~~":
		default:
			src += t
		}
		if t != "~" && t != "~~" {
			continue
		}
		w := base
		if g == at {
			w = other
		}
		g++
		if t == "~~" && w == 0 {
			w = 1
		}
		src += []string{"", " ", "   "}[w]
	}
	v.File("bus.fbd", src)
	bus, ps, res := compileAll("bus.fbd")
	v.Assert(res == 0, "P24:accepted")
	if res != 0 {
		return
	}
	v.Assert(len(bus.Configs) == 1 && len(bus.Statics) == 2 && bus.Width == 32, "P24:meaning")
	s := bus.Statics[0]
	if s.Name != "s" {
		s = bus.Statics[1]
	}
	l := ps["main"].Consts.IntLists["L"]
	v.Assert(len(l) == 2 && v.Decide(all(l[0] == x, l[1] == -y, bus.Configs[0].Width == x+y*3, s.Count == n, represents(string(s.InitValue), k, 8))), "P24:meaning")
	v.Reach("end")
}

// SpacesMore: the same for the other constructs: imports, times, ranges, strings, lists,
// members.
func SpacesMore() {
	v.FreeHash()
	ly, y := v.Lit("y", 10, 20)
	ld, d := v.Lit("d", 10, 20)
	v.File("fbd-aa/a.fbd", "const W = "+ly+"\n")
	end := []string{"\n", "\n\n\n", " # x\n"}[v.Choice("line", 3)]
	toks := []string{
		"import", "~~", "q", "~~", "\"fbd-aa\"", "$",
		"const", "~~", "F", "~", "=", "~", "[", "~", "true", "~", ",", "~", "false", "~", "]", "$",
		"const", "~~", "G", "~", "=", "~", "\"a  b\"", "$",
		"Main", "~~", "bus", "$  ",
		"p", "~~", "proc", "$    ", "delay", "~", "=", "~", "@ld", "~~", "us", "$    ",
		"x", "~~", "param", "~", ";", "~", "range", "~", "=", "~", "0", "~", ":", "~", "@ly", "$    ",
		"r", "~~", "return", "$  ",
		"e", "~~", "config", "~", ";", "~", "range", "~", "=", "~", "[", "~", "0", "~", ":", "~", "3", "~", ",", "~", "7", "~", ":", "~", "q.W", "~", "]", "$  ",
		"i", "~~", "irq", "~", ";", "~", "in-trigger", "~", "=", "~", "\"Edge\"", "$  ",
		"b", "~~", "blackbox", "~", ";", "~", "size", "~", "=", "~", "2", "~", "**", "~", "3", "~", "%", "~", "5", "~", "-", "~", "-", "~", "@ly", "$  ",
		"m", "~~", "mask", "~", ";", "~", "init-value", "~", "=", "~", "x\"0F\"", "~", ";", "~", "width", "~", "=", "~", "8", "~", "/", "~", "1",
		[]string{"", "\n", "\n\n"}[v.Choice("eof", 3)],
	}
	gaps := 0
	for _, t := range toks {
		if t == "~" || t == "~~" {
			gaps++
		}
	}
	base := v.Choice("base", 3)
	at := v.Choice("at", gaps)
	other := v.Choice("other", 3)
	src, g := "", 0
	for _, t := range toks {
		switch {
		case t == "@ly":
			src += ly
		case t == "@ld":
			src += ld
		case t == "~" || t == "~~":
			w := base
			if g == at {
				w = other
			}
			g++
			if t == "~~" && w == 0 {
				w = 1
			}
			src += []string{"", " ", "   "}[w]
		case t[:min(len(t), 1)] == "$":
			src += end + t[1:]
		default:
			src += t
		}
	}
	v.File("bus.fbd", src)
	b, ps, res := compileAll("bus.fbd")
	v.Assert(res == 0, "P24:accepted")
	if res != 0 {
		return
	}
	v.Assert(len(b.Procs) == 1 && len(b.Configs) == 1 && len(b.Irqs) == 1 && len(b.Blackboxes) == 1 && len(b.Masks) == 1, "P24:meaning")
	p, f := b.Procs[0], ps["main"].Consts.BoolLists["F"]
	v.Assert(p.Delay != nil && len(p.Params) == 1 && len(p.Returns) == 1 && len(f) == 2 && f[0] && !f[1], "P24:meaning")
	v.Assert(v.StrEq(ps["main"].Consts.Strings["G"], "a  b"), "P24:meaning")
	pw := int64(4)
	if v.Decide(y > 15) {
		pw = 5
	}
	v.Assert(v.Decide(all(p.Delay.S == 0, int64(p.Delay.Ns) == d*1000, p.Params[0].Width == pw, b.Configs[0].Width == pw,
		b.Blackboxes[0].Size == 3+y, b.Masks[0].Width == 8)) && string(b.Masks[0].InitValue) == "x\"0F\"", "P24:meaning")
	v.Reach("end")
}

// LayoutImports: line ends, blank lines and comments around imports, and the form in
// which the imports are written, do not change what they bind.
func LayoutImports() {
	v.FreeHash()
	la, a := v.Lit("a", 10, 16)
	lb, b := v.Lit("b", 17, 30)
	v.File("fbd-aa/a.fbd", "const W = "+la+"\n")
	v.File("fbd-bb/b.fbd", "const W = "+lb+"\n")
	type line struct{ ind, text string }
	var ls []line
	add := func(ind, text string) { ls = append(ls, line{ind, text}) }
	named := v.Choice("named", 2) == 1
	ia, ib, na := `"aa"`, `"bb"`, "aa"
	if named {
		ia, na = `n "aa"`, "n"
	}
	switch v.Choice("form", 6) {
	case 0:
		add("", "import "+ia)
		add("", "import "+ib)
	case 1:
		add("", "import")
		add("  ", ia)
		add("  ", ib)
	case 2:
		add("", "import")
		add("  ", ib)
		add("  ", ia)
	case 3:
		add("", "import")
		add("  ", ia)
		add("", "import "+ib)
	case 4:
		add("", "import "+ib)
		add("", "const Z = 1")
		add("", "import")
		add("  ", ia)
	case 5:
		add("", "import")
		add("  ", ia)
		add("", "import")
		add("  ", ib)
	}
	n := len(ls)
	body := []line{{"", "Main bus"}, {"  ", "x config; width = " + na + ".W"}, {"  ", "y status; width = bb.W"}}
	first := 0
	switch v.Choice("place", 2) {
	case 0:
		ls = append(ls, body...)
	case 1:
		ls = append(body, ls...)
		first = len(body)
	}
	at := first + v.Choice("at", n)
	kind := v.Choice("kind", 6)
	// A comment may follow the last line with either indentation.
	deep := at == first+n-1 && v.Choice("deep", 2) == 1
	eof := v.Choice("eof", 2) == 1
	src := ""
	for i, l := range ls {
		src += l.ind + l.text
		switch {
		case i == at:
			ind := ""
			if i+1 < len(ls) {
				ind = ls[i+1].ind
			}
			if deep {
				ind = l.ind
			}
			end := lineEnd(kind, ind)
			if eof && i+1 == len(ls) {
				end = end[:len(end)-1]
			}
			src += end
		case i+1 < len(ls) || !eof:
			src += "\n"
		}
	}
	v.File("bus.fbd", src)
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res == 0, "P24:accepted")
	if res != 0 {
		return
	}
	v.Assert(len(bus.Configs) == 1 && len(bus.Statuses) == 1 && v.Decide(all(bus.Configs[0].Width == a, bus.Statuses[0].Width == b)), "P24:meaning")
	v.Reach("end")
}
