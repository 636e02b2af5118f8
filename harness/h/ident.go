package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
)

func init() {
	reg_("IdDiffers", IdDiffers)
	reg_("IdSame", IdSame)
	reg_("IdKinds", IdKinds)
}

// idOf returns the value of the identifier of a compiled description.
func idOf(b *fn.Block) string {
	for _, s := range b.Statics {
		if s.Name == "ID" {
			return string(s.InitValue)
		}
	}
	return ""
}

// versions are descriptions with one place which differs; values with the same number of
// characters but for those of list.
var versions = []struct {
	before, after string
	lo, hi        int64    // the place holds a number
	list          []string // or one of these
	letters       bool     // or two letters
}{
	{"  c config\n    width = ", "\n", 1, 40, nil, false},
	{"  c [2]status\n    width = ", "\n", 1, 40, nil, false},
	{"  c [", "]status\n    width = 5\n", 1, 99, nil, false},
	{"  c [", "]config\n    width = 5\n", 1, 6, nil, false},
	{"  c mask\n    width = ", "\n", 1, 32, nil, false},
	{"  c static\n    init-value = 0\n    width = ", "\n", 1, 32, nil, false},
	{"  c static\n    width = 9\n    init-value = ", "\n", 0, 511, nil, false},
	{"  c config\n    width = 9\n    init-value = ", "\n", 0, 511, nil, false},
	{"  c mask\n    width = 9\n    init-value = ", "\n", 0, 511, nil, false},
	{"  c proc\n    p param; width = ", "\n", 1, 32, nil, false},
	{"  c proc\n    p [", "]param; width = 3\n", 1, 32, nil, false},
	{"  c proc\n    p return; width = ", "\n", 1, 32, nil, false},
	{"  c stream\n    p param; width = ", "\n", 1, 32, nil, false},
	{"  c stream\n    p return; width = ", "\n", 1, 32, nil, false},
	{"  c block\n    p status; width = ", "\n", 1, 32, nil, false},
	{"  c [", "]block\n    p status\n", 1, 9, nil, false},
	{"  c block\n    masters = ", "\n    p status\n", 1, 9, nil, false},
	{"  masters = ", "\n", 1, 9, nil, false},
	{"  const K = ", "\n", 0, 99999, nil, false},
	{"  c block\n    const K = ", "\n    p status\n", 0, 99999, nil, false},
	{"  const K = [1, ", "]\n", 0, 99999, nil, false},
	{"  const K = ", "\n", 0, 0, []string{"true", "false"}, false},
	{"  const K = ", "\n", 0, 0, []string{"1.5", "2.5"}, false},
	{"  const K = [true, ", "]\n", 0, 0, []string{"true", "false"}, false},
	{"  const K = \"", "\"\n", 0, 0, nil, true},
	{"  c_", " config\n", 0, 0, nil, true},
	{"  c_", " static; init-value = 0\n", 0, 0, nil, true},
	{"  c_", " status\n", 0, 0, nil, true},
	{"  c_", " mask\n", 0, 0, nil, true},
	{"  c_", " irq\n", 0, 0, nil, true},
	{"  c_", " proc\n", 0, 0, nil, true},
	{"  c_", " stream\n", 0, 0, nil, true},
	{"  c_", " block\n    x config\n", 0, 0, nil, true},
	{"  c_", " blackbox; size = 4\n", 0, 0, nil, true},
	{"  c proc\n    c_", " param\n", 0, 0, nil, true},
	{"  c proc\n    c_", " return\n", 0, 0, nil, true},
	{"  c stream\n    c_", " param\n", 0, 0, nil, true},
	{"  c block\n    c block\n      c_", " config\n", 0, 0, nil, true},
	{"  # ", "\n  c config\n", 0, 0, nil, true},
	{"  c blackbox; size = ", "\n", 1, 9, nil, false},
	{"  c config\n    width = 40\n    atomic = ", "\n", 0, 0, []string{"true", "false"}, false},
	{"  c status\n    width = 40\n    atomic = ", "\n", 0, 0, []string{"true", "false"}, false},
	{"  c irq\n    add-enable = ", "\n", 0, 0, []string{"true", "false"}, false},
	{"  c irq\n    clear = ", "\n", 0, 0, []string{"\"Explicit\"", "\"On Read\""}, false},
	{"  c irq\n    in-trigger = ", "\n", 0, 0, []string{"\"Level\"", "\"Edge\""}, false},
	{"  c irq\n    out-trigger = ", "\n", 0, 0, []string{"\"Level\"", "\"Edge\""}, false},
	{"  c irq\n    add-enable = true\n    enable-init-value = ", "\n", 0, 1, nil, false},
	{"  c irq\n    add-enable = true\n    enable-reset-value = ", "\n", 0, 1, nil, false},
	{"  c", "", 0, 0, []string{" config\n", " irq\n", " stream\n", " blackbox; size = 3\n", " block\n    x config\n", " static; init-value = 0\n", " [1]config\n"}, false},
	{"  c proc\n", "", 0, 0, []string{"    a param\n", "    a param\n    b param\n", "    delay = 1 s\n", "    delay = 1 s\n    a return\n", "    a [1]param\n", ""}, false},
	{"", "", 0, 0, []string{"  x config\n  y config; width = 2\n", "  y config; width = 2\n  x config\n", "  x config\n", "  y config; width = 2\n"}, false},
	{"  c config; width = 8\n  d config; width = 8\n  e block\n", "", 0, 0, []string{"    s status\n", "    s block\n      s status\n", "    s status\n    t status\n"}, false},
}

// place fills the place of a version.
func fill(k int, id string) (string, int64) {
	c := versions[k]
	switch {
	case c.letters:
		s := v.Str(id, 2)
		v.Assume(allOf(s, func(b byte) bool { return within('a', int64(b), 'z') }))
		return c.before + s + c.after, 0
	case c.list != nil:
		i := v.Choice(id, len(c.list))
		return c.before + c.list[i] + c.after, int64(i)
	}
	t, x := v.Lit(id, c.lo, c.hi)
	return c.before + t + c.after, x
}

// IdDiffers: descriptions which differ in any one place which makes a difference in the
// register map have different identifiers (but for collisions of the checksum).
func IdDiffers() {
	v.AbstractHash()
	k := v.Choice("place", len(versions))
	rest := "  zz config; width = 7\n"
	if v.Thorough() {
		rest = []string{"", rest, "  zz block\n    z2 status\n"}[v.Choice("rest", 3)]
	}
	a, x := fill(k, "x")
	b, y := fill(k, "y")
	if versions[k].letters {
		v.Assume(v.Not(v.StrEq(a, b)))
	} else {
		v.Assume(x < y)
	}
	b1, r1 := compile("Main bus\n" + a + rest)
	if r1 != 0 {
		v.Skip()
	}
	b2, r2 := compile("Main bus\n" + b + rest)
	if r2 != 0 {
		v.Skip()
	}
	v.Assert(v.Not(v.StrEq(idOf(b1), idOf(b2))), "P28:differs")
	v.Reach("end")
}

// IdSame: the identifier depends on nothing else.
func IdSame() {
	v.AbstractHash()
	lw, _ := v.Lit("w", 1, 32)
	li, x := v.Lit("i", 0, 1)
	lc, _ := v.Lit("c", 2, 9)
	v.Observe("i", x)
	base := "Main bus\n  c config\n    width = " + lw + "\n    init-value = " + li + "\n  s [" + lc + "]status\n    width = " + lw + "\n  b block\n    i irq\n"
	same := []string{
		base,
		"Main bus\n  c config; width = " + lw + "; init-value = " + li + "\n  s [" + lc + "]status; width = " + lw + "\n\n  b block\n    i irq\n",
		"Main bus\n  c config\n    init-value = " + li + "\n    width = " + lw + "\n  s [" + lc + "]status\n    width = " + lw + "\n  b block\n    i irq\n# end\n",
		"type C config\n  width = " + lw + "\nconst K = 1\ntype B block\n  i irq\nMain bus\n  c C\n    init-value = " + li + "\n  s [" + lc + "]status\n    width = " + lw + "\n  b B\n",
		"type C(w, i) config\n  width = w\n  init-value = i\ntype S status\n  width = " + lw + "\nMain bus\n  c C(i = " + li + ", w = " + lw + ")\n  s [" + lc + "]S\n  b block\n    i irq\n",
		"import \"p\"\nMain bus\n  c p.C\n    init-value = " + li + "\n  s [p.N]status\n    width = p.W\n  b p.B\n",
		"type U bus\n  c config\n    width = " + lw + "\n    init-value = " + li + "\nMain U\n  s [" + lc + "]status\n    width = " + lw + "\n  b block\n    i irq\n",
		"Main bus\n  width = 32\n  masters = 1\n  b block\n    i irq\n      clear = \"Explicit\"\n      in-trigger = \"Level\"\n  s [" + lc + "]status\n    atomic = true\n    width = " + lw + "\n  c config\n    width = " + lw + "\n    atomic = true\n    init-value = " + li + "\n",
	}
	v.File("fbd-p/p.fbd", "const W = "+lw+"\nconst N = "+lc+"\ntype C config\n  width = W\ntype B block\n  i irq\n")
	ts := v.Choice("timestamp", 2) == 1
	comp := func(src string) (b *fn.Block) {
		v.File("bus.fbd", src)
		if v.Try(func() { b, _, _ = fbdl.Compile("bus.fbd", "Main", ts) }) != 0 {
			return nil
		}
		return
	}
	b1 := comp(base)
	b2 := comp(same[v.Choice("form", len(same))])
	v.Assert(b1 != nil && b2 != nil, "P28:accepted")
	if b1 != nil && b2 != nil {
		v.Assert(v.StrEq(idOf(b1), idOf(b2)), "P28:same")
	}
	v.Reach("end")
}

// alike are functionalities of different kinds with like properties.
var alike = []struct{ kind, src, end string }{
	{"config", "  c config; width = ", "\n"},
	{"status", "  c status; width = ", "\n"},
	{"mask", "  c mask; width = ", "\n"},
	{"static", "  c static; init-value = 0; width = ", "\n"},
	{"config-array", "  c [1]config; width = ", "\n"},
	{"status-array", "  c [1]status; width = ", "\n"},
	{"proc", "  c proc # ", "\n"},
	{"stream", "  c stream # ", "\n"},
	{"irq", "  c irq # ", "\n"},
	{"proc-param", "  c proc\n    a param; width = ", "\n"},
	{"proc-return", "  c proc\n    a return; width = ", "\n"},
	{"stream-param", "  c stream\n    a param; width = ", "\n"},
	{"stream-return", "  c stream\n    a return; width = ", "\n"},
	{"block-config", "  c block\n    a config; width = ", "\n"},
	{"block-status", "  c block\n    a status; width = ", "\n"},
	{"block-array", "  c [1]block\n    a status; width = ", "\n"},
	{"blackbox", "  c blackbox; size = 1 # ", "\n"},
}

// IdKinds: the same for functionalities of kinds which have alike properties.
func IdKinds() {
	v.AbstractHash()
	lw, _ := v.Lit("w", 1, 32)
	i := v.Choice("a", len(alike))
	j := v.Choice("b", len(alike))
	if i >= j {
		v.Skip()
	}
	b1, r1 := compile("Main bus\n" + alike[i].src + lw + alike[i].end)
	b2, r2 := compile("Main bus\n" + alike[j].src + lw + alike[j].end)
	v.Assert(r1 == 0 && r2 == 0, "P28:accepted")
	if r1 == 0 && r2 == 0 {
		v.Assert(v.Not(v.StrEq(idOf(b1), idOf(b2))), "P28:kind-"+alike[i].kind+"-"+alike[j].kind)
	}
	v.Reach("end")
}
