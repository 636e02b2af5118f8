package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
)

func init() {
	reg_("KeepFlat", KeepFlat)
	reg_("KeepTypes", KeepTypes)
	reg_("KeepNested", KeepNested)
	reg_("KeepMembers", KeepMembers)
	reg_("KeepWords", KeepWords)
}

// decl is one declared functionality, as the source says it.
type decl struct {
	kind, name string
	arr        bool
	n, w       int64
	hasW       bool
}

const (
	kNone = iota
	kConfig
	kMask
	kStatic
	kStatus
	kIrq
	kProc
	kStream
	kBlock
	kGroup
	kBlackbox
	kConfigs
	kStatics
	kStatuses
	kBlocks
	kN
)

// declare returns the source lines (with one level of indentation more than ind)
// and the model of one functionality of the given kind.
func declare(kind int, name, ind string, bw int64) (string, decl) {
	d := decl{name: name, n: 1}
	suf := ""
	if kind >= kConfigs {
		l, n := v.Lit(name+".count", 1, 20)
		d.arr, d.n = true, n
		suf = " [" + l + "]"
	}
	width := func(kind string, max int64, rest string) string {
		d.kind = kind
		d.hasW = true
		s := ind + name + suf + " " + kind + "\n"
		if v.Choice(name+".explicit", 2) == 1 {
			l, w := v.Lit(name+".width", 1, max)
			d.w = w
			s += ind + "  width = " + l + "\n"
		} else {
			d.w = bw
		}
		if rest != "" {
			s += ind + "  " + rest + "\n"
		}
		return s
	}
	switch kind {
	case kConfig:
		return width("config", 2*bw, ""), d
	case kMask:
		return width("mask", 2*bw, ""), d
	case kStatic:
		return width("static", bw, "init-value = 0"), d
	case kStatus:
		return width("status", 2*bw, ""), d
	case kConfigs:
		return width("config", bw, ""), d
	case kStatics:
		return width("static", bw, "init-value = 1"), d
	case kStatuses:
		return width("status", 2*bw, ""), d
	case kIrq:
		d.kind = "irq"
		return ind + name + " irq\n", d
	case kProc:
		d.kind = "proc"
		return ind + name + " proc\n" + ind + "  p param\n" + ind + "  r return\n", d
	case kStream:
		d.kind = "stream"
		return ind + name + " stream\n" + ind + "  p param\n", d
	case kBlock, kBlocks:
		d.kind = "block"
		return ind + name + suf + " block\n" + ind + "  x config\n", d
	case kGroup:
		d.kind = "group"
		return ind + name + " group\n" + ind + "  g1 config\n" + ind + "  g2 config\n", d
	case kBlackbox:
		d.kind = "blackbox"
		l, w := v.Lit(name+".size", 1, 1000)
		d.w, d.hasW = w, true
		return ind + name + " blackbox\n" + ind + "  size = " + l + "\n", d
	}
	return "", d
}

type got struct {
	kind string
	f    *fn.Func
	w    int64
}

// listed returns the functionalities of the compiled block, kind by kind.
func listed(b *fn.Block) []got {
	g := []got{}
	for _, x := range b.Blackboxes {
		g = append(g, got{"blackbox", &x.Func, x.Size})
	}
	for _, x := range b.Configs {
		g = append(g, got{"config", &x.Func, x.Width})
	}
	for _, x := range b.Groups {
		g = append(g, got{"group", &x.Func, 0})
	}
	for _, x := range b.Irqs {
		g = append(g, got{"irq", &x.Func, 0})
	}
	for _, x := range b.Masks {
		g = append(g, got{"mask", &x.Func, x.Width})
	}
	for _, x := range b.Procs {
		g = append(g, got{"proc", &x.Func, 0})
	}
	for _, x := range b.Statics {
		if x.Name != "ID" && x.Name != "TIMESTAMP" {
			g = append(g, got{"static", &x.Func, x.Width})
		}
	}
	for _, x := range b.Statuses {
		g = append(g, got{"status", &x.Func, x.Width})
	}
	for _, x := range b.Streams {
		g = append(g, got{"stream", &x.Func, 0})
	}
	for _, x := range b.Subblocks {
		g = append(g, got{"block", &x.Func, 0})
	}
	return g
}

func same(d decl, g got) bool {
	if d.kind != g.kind || d.name != g.f.Name || d.arr != g.f.IsArray {
		return false
	}
	return v.And(d.n == g.f.Count, imp(d.hasW, d.w == g.w))
}

// sameAll: for every kind, the compiled functionalities of that kind are exactly
// the declared ones, in the order of declaration.
func sameAll(ds []decl, gs []got) bool {
	k := 0
	for _, d := range ds {
		if d.kind != "" {
			k++
		}
	}
	if k != len(gs) {
		return false
	}
	r := true
	used := map[string]int{}
	for _, d := range ds {
		if d.kind == "" {
			continue
		}
		n := used[d.kind]
		used[d.kind]++
		found := false
		for _, g := range gs {
			if g.kind != d.kind {
				continue
			}
			if d.kind == "block" && d.name != g.f.Name {
				continue // blocks are listed by address
			}
			if d.kind != "block" && n > 0 {
				n--
				continue
			}
			r = v.And(r, same(d, g))
			found = true
			break
		}
		if !found {
			return false
		}
	}
	return r
}

func busHead(bw int64) string {
	if bw == 32 {
		return "Main bus\n"
	}
	return "Main bus\n  width = " + num(int(bw)) + "\n"
}

// KeepFlat: functionalities of every kind declared directly in the bus.
func KeepFlat() {
	v.FreeHash()
	n := 2
	if v.Thorough() {
		n = 3
	}
	bw := []int64{32, 8}[v.Choice("bus", 2)]
	src := busHead(bw)
	ds := []decl{}
	names := [][]string{{"b", "e", "x"}, {"e", "b", "c"}}[v.Choice("names", 2)]
	for i := 0; i < n; i++ {
		s, d := declare(v.Choice("kind", kN), names[i], "  ", bw)
		src += s
		ds = append(ds, d)
	}
	b, res := compile(src)
	v.Assert(res == 0, "P07:accepted")
	if res != 0 {
		return
	}
	v.Assert(sameAll(ds, listed(b)), "P07:same")
	v.Assert(v.And(b.Width == bw, b.Name == "Main"), "P07:bus")
	v.Reach("end")
}

// KeepTypes: functionalities spread over a chain of types and the bus itself;
// ancestors come first.
func KeepTypes() {
	v.FreeHash()
	bw := int64(32)
	part := func(name string) (string, decl) {
		return declare(v.Choice("kind", kN), name, "  ", bw)
	}
	orders := 2
	if v.Thorough() {
		orders = 6
	}
	order := v.Choice("order", orders)
	s0, d0 := part("k")
	s1, d1 := part("z")
	s2 := "  d config\n"
	d2 := decl{kind: "config", name: "d", n: 1, w: bw, hasW: true}
	if v.Thorough() {
		s2, d2 = part("d")
	}
	ts := []string{"type A bus\n" + s0, "type B A\n" + s1, "Main B\n" + s2}
	if s2 == "" {
		ts[2] = "Main B\n"
	}
	perm := [][]int{{0, 1, 2}, {2, 1, 0}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}}[order]
	src := ""
	for _, i := range perm {
		src += ts[i]
	}
	b, res := compile(src)
	v.Assert(res == 0, "P07:accepted")
	if res != 0 {
		return
	}
	v.Assert(sameAll([]decl{d0, d1, d2}, listed(b)), "P07:same")
	v.Reach("end")
}

// KeepNested: a block in a block, both with functionalities of any kind; widths
// default to the width of the bus at every level.
func KeepNested() {
	v.FreeHash()
	bw := []int64{32, 16}[v.Choice("bus", 2)]
	src := busHead(bw)
	l1, n1 := v.Lit("n1", 1, 10)
	l2, n2 := v.Lit("n2", 1, 10)
	s0, d0 := declare(v.Choice("kind", kN), "zz", "    ", bw)
	s1, d1 := declare(v.Choice("kind", kN), "e", "      ", bw)
	src += "  b1 [" + l1 + "] block\n"
	src += s0
	src += "    b2 [" + l2 + "] block\n"
	src += s1
	src += "    z status\n"
	src += "  y config\n"
	b, res := compile(src)
	v.Assert(res == 0, "P07:accepted")
	if res != 0 {
		return
	}
	ok := sameAll([]decl{{kind: "block", name: "b1", arr: true, n: n1}, {kind: "config", name: "y", n: 1, w: bw, hasW: true}}, listed(b))
	v.Assert(ok, "P07:same")
	b1 := b.Subblocks[0]
	in1 := []decl{d0, {kind: "block", name: "b2", arr: true, n: n2}, {kind: "status", name: "z", n: 1, w: bw, hasW: true}}
	v.Assert(sameAll(in1, listed(b1)), "P07:same")
	for _, s := range b1.Subblocks {
		if s.Name == "b2" {
			v.Assert(sameAll([]decl{d1}, listed(s)), "P07:same")
			v.Reach("end")
		}
	}
}

// KeepMembers: members of procedures, streams and groups.
func KeepMembers() {
	v.FreeHash()
	bw := []int64{32, 8}[v.Choice("bus", 2)]
	src := busHead(bw)
	outer := v.Choice("outer", 3)
	src += "  o " + []string{"proc", "stream", "group"}[outer] + "\n"
	type mem struct {
		kind string
		name string
		arr  bool
		n, w int64
	}
	ms := []mem{}
	max := 2
	if v.Thorough() {
		max = 3
	}
	names := [][]string{{"b", "e", "x"}, {"e", "b", "c"}}[v.Choice("names", 2)]
	for i := 0; i < max; i++ {
		var kinds []string
		switch outer {
		case 0:
			kinds = []string{"", "param", "return"}
		case 1:
			kinds = []string{"", "param"}
			if v.Choice("up", 2) == 1 {
				kinds = []string{"", "return"}
			}
		default:
			kinds = []string{"", "config", "mask", "static", "status", "param", "return"}
		}
		k := kinds[v.Choice("kind", len(kinds))]
		if k == "" {
			continue
		}
		if i > 0 && outer == 1 && len(ms) > 0 && ms[0].kind != k {
			return
		}
		if outer == 2 && len(ms) > 0 && !groupPair(ms[0].kind, k) {
			return
		}
		m := mem{kind: k, name: names[i], n: 1, w: bw}
		suf := ""
		if outer != 2 && v.Choice("array", 2) == 1 {
			l, c := v.Lit("count", 1, 10)
			m.arr, m.n = true, c
			suf = " [" + l + "]"
		}
		src += "    " + m.name + suf + " " + k + "\n"
		if v.Choice("explicit", 2) == 1 {
			l, w := v.Lit("width", 1, bw)
			src += "      width = " + l + "\n"
			m.w = w
		}
		if k == "static" {
			src += "      init-value = 0\n"
		}
		ms = append(ms, m)
	}
	b, res := compile(src)
	if outer == 2 && len(ms) == 0 {
		v.Assert(res == 2, "P07:empty-group")
		return
	}
	v.Assert(res == 0, "P07:accepted")
	if res != 0 {
		return
	}
	var ps []*fn.Param
	var rs []*fn.Return
	gs := []got{}
	switch outer {
	case 0:
		ps, rs = b.Procs[0].Params, b.Procs[0].Returns
	case 1:
		ps, rs = b.Streams[0].Params, b.Streams[0].Returns
	default:
		g := b.Groups[0]
		ps, rs = g.Params, g.Returns
		for _, x := range g.Configs {
			gs = append(gs, got{"config", &x.Func, x.Width})
		}
		for _, x := range g.Masks {
			gs = append(gs, got{"mask", &x.Func, x.Width})
		}
		for _, x := range g.Statics {
			gs = append(gs, got{"static", &x.Func, x.Width})
		}
		for _, x := range g.Statuses {
			gs = append(gs, got{"status", &x.Func, x.Width})
		}
	}
	for _, p := range ps {
		gs = append(gs, got{"param", &p.Func, p.Width})
	}
	for _, p := range rs {
		gs = append(gs, got{"return", &p.Func, p.Width})
	}
	ds := []decl{}
	for _, m := range ms {
		ds = append(ds, decl{m.kind, m.name, m.arr, m.n, m.w, true})
	}
	v.Assert(sameAll(ds, gs), "P07:same")
	v.Reach("end")
}

// groupPair tells whether functionalities of two kinds may share a group.
func groupPair(a, b string) bool {
	if a == "param" || a == "return" || b == "param" || b == "return" {
		return a == b
	}
	return true
}

// KeepWords: a functionality may be named like a kind of functionality or a unit of time, or
// begin like a keyword, after whatever line.
func KeepWords() {
	v.FreeHash()
	words := []string{"config", "mask", "static", "status", "irq", "proc", "stream", "block", "group", "blackbox", "param", "return", "bus", "memory",
		"s", "ms", "us", "ns", "b", "x", "X1", "configs", "width_", "irqs", "_block", "constant", "typed", "true1", "imports"}
	w := words[v.Choice("word", len(words))]
	lx, x := v.Lit("x", 1, 20)
	lc, c := v.Lit("count", 2, 9)
	arr := v.Choice("array", 2) == 1
	place := v.Choice("place", 5)
	open := []string{"", "  k block\n", "  k group\n", "  k proc\n", "  k stream\n"}[place]
	ind := "  "
	if place > 0 {
		ind = "    "
	}
	kind := []string{"config", "status", "config", "return", "param"}[place]
	suf := " "
	if arr {
		suf = []string{" [" + lc + "]", " [" + lc + "] "}[v.Choice("form", 2)]
	}
	first := ind + "a0 " + kind
	switch v.Choice("before", 7) {
	case 0:
		first += "; width = 3\n"
	case 1:
		first += "\n" + ind + "  width = 3\n"
	case 2:
		first += "; width = 3\n\n\n"
	case 3:
		first += "; width = 3\n" + ind + "# a 5\n"
	case 4:
		first += "; width = 3 # 5\n"
	case 5:
		first = ""
	case 6:
		first += "; width = 3\n" + ind + "#\n\n"
	}
	src := "Main bus\n  width = 32\n" + open + first + ind + w + suf + kind
	switch v.Choice("body", 3) {
	case 0:
		src += "; width = " + lx + "\n"
	case 1:
		src += "\n" + ind + "  width = " + lx + "\n"
	case 2:
		src += "; width = " + lx + "\n" + ind + "z9 " + kind + "; width = 3\n"
	}
	bus, res := compile(src)
	v.Assert(res == 0, "P07:accepted")
	if res != 0 {
		return
	}
	n := 0
	see := func(f *fn.Func, width int64) {
		if f.Name == w {
			n++
			v.Assert(v.Decide(all(f.IsArray == arr, v.Or(!arr, f.Count == c), width == x)), "P07:words")
			return
		}
		v.Assert((f.Name == "a0" || f.Name == "z9") && !f.IsArray && v.Decide(width == 3), "P07:neighbour")
	}
	switch place {
	case 0:
		for _, f := range bus.Configs {
			see(&f.Func, f.Width)
		}
	case 1:
		for _, f := range bus.Subblocks[0].Statuses {
			see(&f.Func, f.Width)
		}
	case 2:
		for _, f := range bus.Groups[0].Configs {
			see(&f.Func, f.Width)
		}
	case 3:
		for _, f := range bus.Procs[0].Returns {
			see(&f.Func, f.Width)
		}
	case 4:
		for _, f := range bus.Streams[0].Params {
			see(&f.Func, f.Width)
		}
	}
	v.Assert(n == 1, "P07:once")
	v.Reach("end")
}
