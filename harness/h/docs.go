package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
)

func init() {
	reg_("Docs", Docs)
	reg_("DocPlaces", DocPlaces)
}

// comment is a comment line with arbitrary characters and the text it documents.
func comment(id string) (line, text string) {
	switch v.Choice(id, 4) {
	case 0:
		return "#", ""
	case 1:
		return "# ", ""
	}
	s := v.Str(id, 3)
	v.Assume(all(s[0] != '\n', s[1] != '\n', s[2] != '\n'))
	if v.Choice(id+"space", 2) == 1 {
		return "# " + s, s
	}
	v.Assume(s[0] != ' ')
	return "#" + s, s
}

// Docs: the comment lines directly above a functionality, and only those, are its
// documentation, letter for letter.
func Docs() {
	v.FreeHash()
	n := 3
	if v.Thorough() {
		n = 4
	}
	text := ""
	have := false
	src := ""
	for i := 0; i < n; i++ {
		switch v.Choice("line", 3) {
		case 0: // blank line ends the text
			src += "\n"
			text, have = "", false
		case 1:
			l, t := comment("c")
			if l == "# " {
				l = "#"
			}
			src += "  " + l + "\n"
			if have {
				text += "\n"
			}
			text += t
			have = true
		case 2: // another functionality
			src += "  " + []string{"x", "y", "z", "xx"}[i] + " status # " + v.Str("t", 1) + "\n"
			v.Assume(src[len(src)-2] != '\n')
			text, have = "", false
		}
	}
	kind := []string{"config", "static", "mask", "irq", "block", "proc", "stream", "group"}[v.Choice("kind", 8)]
	v.File("bus.fbd", "Main bus\n"+src+"  a "+kind+"\n"+need(kind, "    ")+"  e status\n")
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res == 0, "P25:accepted")
	if res != 0 {
		return
	}
	d, ok := docOf(bus, "a")
	v.Assert(ok && v.Decide(v.StrEq(d, text)), "P25:doc")
	d, ok = docOf(bus, "e")
	v.Assert(ok && d == "", "P25:other")
	v.Reach("end")
}

// docOf finds the documentation of a functionality.
func docOf(b *fn.Block, name string) (string, bool) {
	var fs []fn.Func
	for _, x := range b.Configs {
		fs = append(fs, x.Func)
	}
	for _, x := range b.Statics {
		fs = append(fs, x.Func)
	}
	for _, x := range b.Statuses {
		fs = append(fs, x.Func)
	}
	for _, x := range b.Masks {
		fs = append(fs, x.Func)
	}
	for _, x := range b.Irqs {
		fs = append(fs, x.Func)
	}
	for _, x := range b.Subblocks {
		fs = append(fs, x.Func)
	}
	for _, x := range b.Procs {
		fs = append(fs, x.Func)
		for _, p := range x.Params {
			fs = append(fs, p.Func)
		}
		for _, p := range x.Returns {
			fs = append(fs, p.Func)
		}
	}
	for _, x := range b.Streams {
		fs = append(fs, x.Func)
		for _, p := range x.Params {
			fs = append(fs, p.Func)
		}
		for _, p := range x.Returns {
			fs = append(fs, p.Func)
		}
	}
	for _, x := range b.Groups {
		fs = append(fs, x.Func)
		for _, p := range x.Configs {
			fs = append(fs, p.Func)
		}
	}
	for _, f := range fs {
		if f.Name == name {
			return f.Doc, true
		}
	}
	return "", false
}

// DocPlaces: the same for the bus, members, instances of types and bodies of types.
func DocPlaces() {
	v.FreeHash()
	l, t := comment("c")
	if l == "# " {
		l = "#"
	}
	m, _ := comment("o")
	if m == "# " {
		m = "#"
	}
	name := "a"
	other := ""
	src := ""
	where := v.Choice("where", 8)
	switch where {
	case 0:
		name, src = "Main", l+"\nMain bus\n  "+m+"\n\n  a config\n"
	case 1:
		name, src = "p", "Main bus\n  a proc\n    "+l+"\n    p param\n  b config\n"
	case 2:
		name, src = "p", "Main bus\n  a stream\n    p return # "+m+"\n    q return\n"
		l, t = "", ""
	case 3:
		src = m + "\ntype T config\n\nMain bus\n  " + l + "\n  a T\n"
	case 4:
		src = m + "\ntype T bus\n  " + l + "\n  a config\nMain T\n  b config\n"
	case 5:
		src = "Main bus\n  " + m + "\n  const C = 1\n  " + l + "\n  a config; width = C\n"
	case 6:
		src = "Main bus\n  g group\n    " + m + "\n\n    " + l + "\n    a config\n    b config\n"
	case 7:
		src = "Main bus\n  " + m + "\n  b block\n    " + l + "\n    a config\n"
		other = "b"
	}
	v.File("bus.fbd", src)
	bus, _, res := compileAll("bus.fbd")
	v.Assert(res == 0, "P25:accepted")
	if res != 0 {
		return
	}
	d, ok := bus.Doc, true
	if where == 7 {
		o, found := docOf(bus, other)
		v.Assert(found && v.Decide(v.StrEq(m, "#"+o)) || v.Decide(v.StrEq(m, "# "+o)), "P25:doc")
		d, ok = docOf(bus.Subblocks[0], name)
	} else if where > 0 {
		d, ok = docOf(bus, name)
	}
	v.Assert(ok && v.Decide(v.StrEq(d, t)), "P25:doc")
	v.Reach("end")
}
