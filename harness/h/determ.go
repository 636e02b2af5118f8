package h

import (
	"sort"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

func init() {
	reg_("Schedules", Schedules)
	reg_("SchedulesBad", SchedulesBad)
	reg_("Repeat", Repeat)
}

// item is a named number or string of a result.
type item struct {
	name string
	x    int64
	s    string
	f    float64
}

// flat lists a compiled description in order: everything that is published.
type flat struct{ items []item }

func (f *flat) n(name string, x int64) { f.items = append(f.items, item{name, x, "", 0}) }
func (f *flat) s(name, s string)       { f.items = append(f.items, item{name, 0, s, 0}) }
func (f *flat) b(name string, b bool) {
	x := int64(0)
	if b {
		x = 1
	}
	f.n(name, x)
}
func (f *flat) p(name string, p *int64) {
	if p == nil {
		f.s(name, "none")
	} else {
		f.n(name, *p)
	}
}

func (f *flat) fun(kind string, x fn.Func) {
	f.s(kind, x.Name)
	f.s("doc", x.Doc)
	f.b("array", x.IsArray)
	f.n("count", x.Count)
}

func (f *flat) acc(a types.Access) {
	f.s("type", a.Type)
	f.n("RegCount", a.RegCount)
	f.n("RegWidth", a.RegWidth)
	f.n("ItemCount", a.ItemCount)
	f.n("ItemWidth", a.ItemWidth)
	f.n("StartAddr", a.StartAddr)
	f.n("EndAddr", a.EndAddr)
	f.n("StartBit", a.StartBit)
	f.n("EndBit", a.EndBit)
	f.n("StartRegWidth", a.StartRegWidth)
	f.n("EndRegWidth", a.EndRegWidth)
}

func (f *flat) rng(r types.Range) {
	switch r := r.(type) {
	case types.SingleRange:
		f.n("start", r.Start)
		f.n("end", r.End)
	case types.ArrayRange:
		for _, x := range r {
			f.rng(x)
		}
	}
}

func (f *flat) delay(t *types.Time) {
	if t != nil {
		f.n("s", t.S)
		f.n("ns", t.Ns)
	}
}

func keys[T any](m map[string]T) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (f *flat) consts(c cnst.Container) {
	for _, k := range keys(c.Bools) {
		f.s("bool", k)
		f.b(k, c.Bools[k])
	}
	for _, k := range keys(c.BoolLists) {
		f.s("bools", k)
		for _, b := range c.BoolLists[k] {
			f.b(k, b)
		}
	}
	for _, k := range keys(c.Floats) {
		f.s("float", k)
		f.items = append(f.items, item{k, 0, "", c.Floats[k]})
	}
	for _, k := range keys(c.Ints) {
		f.s("int", k)
		f.n(k, c.Ints[k])
	}
	for _, k := range keys(c.IntLists) {
		f.s("ints", k)
		for _, x := range c.IntLists[k] {
			f.n(k, x)
		}
	}
	for _, k := range keys(c.Strings) {
		f.s("string", k)
		f.s(k, c.Strings[k])
	}
}

func (f *flat) config(x *fn.Config) {
	f.fun("config", x.Func)
	f.b("atomic", x.Atomic)
	f.s("init", string(x.InitValue))
	f.rng(x.Range)
	f.s("read", string(x.ReadValue))
	f.s("reset", string(x.ResetValue))
	f.n("width", x.Width)
	f.acc(x.Access)
}

func (f *flat) irq(x *fn.Irq) {
	f.fun("irq", x.Func)
	f.b("enable", x.AddEnable)
	f.s("clear", x.Clear)
	f.s("init", string(x.EnableInitValue))
	f.s("reset", string(x.EnableResetValue))
	f.s("in", x.InTrigger)
	f.s("out", x.OutTrigger)
	f.acc(x.Access)
	f.acc(x.EnableAccess)
	f.p("clear", x.ClearAddr)
}

func (f *flat) mask(x *fn.Mask) {
	f.fun("mask", x.Func)
	f.b("atomic", x.Atomic)
	f.s("init", string(x.InitValue))
	f.s("read", string(x.ReadValue))
	f.s("reset", string(x.ResetValue))
	f.n("width", x.Width)
	f.acc(x.Access)
}

func (f *flat) static(x *fn.Static) {
	f.fun("static", x.Func)
	f.s("init", string(x.InitValue))
	f.s("read", string(x.ReadValue))
	f.s("reset", string(x.ResetValue))
	f.n("width", x.Width)
	f.acc(x.Access)
}

func (f *flat) status(x *fn.Status) {
	f.fun("status", x.Func)
	f.b("atomic", x.Atomic)
	f.s("read", string(x.ReadValue))
	f.n("width", x.Width)
	f.acc(x.Access)
}

func (f *flat) params(ps []*fn.Param, rs []*fn.Return) {
	for _, x := range ps {
		f.fun("param", x.Func)
		f.rng(x.Range)
		f.n("width", x.Width)
		f.acc(x.Access)
	}
	for _, x := range rs {
		f.fun("return", x.Func)
		f.n("width", x.Width)
		f.acc(x.Access)
	}
}

func (f *flat) sizes(s types.Sizes, a types.SingleRange) {
	f.n("own", s.Own)
	f.n("cumulated", s.Cumulated)
	f.n("aligned", s.Aligned)
	f.n("start", a.Start)
	f.n("end", a.End)
}

func (f *flat) block(b *fn.Block) {
	f.fun("block", b.Func)
	f.n("align", b.Align)
	f.n("masters", b.Masters)
	f.s("reset", b.Reset)
	f.n("width", b.Width)
	f.sizes(b.Sizes, b.AddrSpace)
	f.consts(b.Consts)
	for _, x := range b.Blackboxes {
		f.fun("blackbox", x.Func)
		f.n("size", x.Size)
		f.sizes(x.Sizes, x.AddrSpace)
	}
	for _, x := range b.Configs {
		f.config(x)
	}
	for _, g := range b.Groups {
		f.fun("group", g.Func)
		f.b("virtual", g.Virtual)
		f.consts(g.Consts)
		for _, x := range g.Configs {
			f.config(x)
		}
		for _, x := range g.Irqs {
			f.irq(x)
		}
		for _, x := range g.Masks {
			f.mask(x)
		}
		f.params(g.Params, g.Returns)
		for _, x := range g.Statics {
			f.static(x)
		}
		for _, x := range g.Statuses {
			f.status(x)
		}
	}
	for _, x := range b.Irqs {
		f.irq(x)
	}
	for _, x := range b.Masks {
		f.mask(x)
	}
	for _, x := range b.Procs {
		f.fun("proc", x.Func)
		f.delay(x.Delay)
		f.params(x.Params, x.Returns)
		f.p("call", x.CallAddr)
		f.p("exit", x.ExitAddr)
	}
	for _, x := range b.Statics {
		f.static(x)
	}
	for _, x := range b.Statuses {
		f.status(x)
	}
	for _, x := range b.Streams {
		f.fun("stream", x.Func)
		f.delay(x.Delay)
		f.params(x.Params, x.Returns)
		f.n("strobe", x.StbAddr)
	}
	for _, x := range b.Subblocks {
		f.block(x)
	}
}

func flatten(b *fn.Block, ps map[string]*pkg.Package) *flat {
	f := &flat{}
	if b != nil {
		f.block(b)
	}
	for _, k := range keys(ps) {
		f.s("package", k)
		f.consts(ps[k].Consts)
	}
	return f
}

// equal: the same result, number by number and letter by letter.
func (f *flat) equal(g *flat) bool {
	if len(f.items) != len(g.items) {
		return false
	}
	ok := true
	for i, a := range f.items {
		b := g.items[i]
		if a.name != b.name || a.f != b.f {
			return false
		}
		ok = v.And(ok, v.And(a.x == b.x, v.StrEq(a.s, b.s)))
	}
	return ok
}

// project creates the files of a description of several packages.
func project(w, c string) string {
	v.File("fbd-p/a.fbd", "import \"q\"\nconst A = "+c+"\nconst L = [1, A, q.Q]\nconst S = \"s\"\ntype T(n = q.Q) config\n  width = n\n")
	v.File("fbd-p/b.fbd", "const B = A + 1\nconst F = 1.5\ntype U block\n  t T(B)\n  u [B]status; width = 3\n")
	v.File("sub/fbd-q/q.fbd", "const Q = "+w+"\nconst R = true\nconst Z = Q + 2\ntype T irq\n  add-enable = true\n")
	v.File("sub/fbd-q/b.fbd", "const X = Y\n")
	v.File("sub/fbd-q/c.fbd", "const Y = 8\n")
	return "import \"p\"\nimport qq \"q\"\n" +
		"const M = p.A + qq.Q\nconst N = [true, false]\n" +
		"# doc\nMain bus\n" +
		"  const K = M\n  const J = \"j\"\n  const\n    I1 = 12\n    I2 = 13\n    S1 = \"tu\"\n    F1 = 0.5\n    F2 = 0.25\n" +
		"    B1 = true\n    B2 = false\n    L1 = [1, 2]\n    L2 = [3]\n    M1 = [true]\n    M2 = [false, true]\n" +
		"  c1 p.T\n  c2 p.T(7)\n    atomic = false\n" +
		"  i qq.T\n    clear = \"Explicit\"\n" +
		"  s [3]status\n    width = 9\n" +
		"  m mask; width = 5\n" +
		"  t static; width = 4; init-value = 3\n" +
		"  pr proc\n    a param; width = 20\n    r return\n" +
		"  st stream\n    a [2]param; width = 3\n" +
		"  g group\n    const G = 1\n    x config\n    y config\n" +
		"  bb blackbox; size = 3\n" +
		"  blk p.U\n  blks [2]p.U\n    const W = 3\n    z status\n"
}

// Schedules: the result does not depend on the order in which packages are parsed and
// maps are iterated, and the parsing has no data races and deadlocks.
func Schedules() {
	n := v.Choice("maps", 2)
	if v.Thorough() {
		n = 2
	}
	v.File("bus.fbd", project("6", "4"))
	b1, p1, r1 := compileAll("bus.fbd")
	v.Permute(n, n == 0 || v.Thorough())
	b2, p2, r2 := compileAll("bus.fbd")
	raced := v.Raced()
	v.Permute(-1, false)
	v.Assert(!raced, "P26:race")
	v.Assert(r1 == 0 && r2 == 0, "P26:verdict")
	if r1 == 0 && r2 == 0 {
		v.Assert(flatten(b1, p1).equal(flatten(b2, p2)), "P26:result")
	}
	v.Reach("end")
}

// SchedulesBad: whether a description of several packages is accepted does not depend
// on the order either.
func SchedulesBad() {
	flaws := []struct{ file, text string }{
		{"fbd-p/c.fbd", "const A = 1\n"},
		{"fbd-p/c.fbd", "type T config\n"},
		{"fbd-p/c.fbd", "const C = unknown\n"},
		{"fbd-p/c.fbd", "const C = q.Q\n"},
		{"fbd-p/c.fbd", "x config\n"},
		{"fbd-p/c.fbd", "Main bus\n  c config\n"},
		{"sub/fbd-q/d.fbd", "import \"p\"\nconst C = p.C\n"},
		{"sub/fbd-q/d.fbd", "import \"p\"\nconst C = p.E\n"},
		{"sub/fbd-q/d.fbd", "import \"zzz\"\n"},
		{"sub/fbd-q/d.fbd", "const = 1\n"},
		{"sub/fbd-q/d.fbd", "import \"p\"\nimport p \"q\"\n"},
		{"fbd-r/c.fbd", "const C = 1 / 0\n"},
		{"fbd-r/c.fbd", "const C = 3\nconst D = C\n"},
		{"fbd-r/c.fbd", "const C =\n"},
	}
	n := v.Choice("maps", 2)
	f := flaws[v.Choice("flaw", len(flaws))]
	v.File("bus.fbd", project("6", "4"))
	v.File("fbd-p/d.fbd", "const D = E\nconst E = 2\n")
	v.File(f.file, f.text)
	b1, p1, r1 := compileAll("bus.fbd")
	v.Permute(n, n == 0 || v.Thorough())
	b2, p2, r2 := compileAll("bus.fbd")
	raced := v.Raced()
	v.Permute(-1, false)
	v.Assert(!raced, "P26:race")
	v.Assert(r1 == r2 && r1 != 1 && r1 != 3, "P26:verdict")
	if r1 == 0 && r2 == 0 {
		v.Assert(flatten(b1, p1).equal(flatten(b2, p2)), "P26:result")
		v.Reach("accepted")
	}
	v.Reach("end")
}

// Repeat: what has been compiled before has no influence.
func Repeat() {
	v.AbstractHash()
	lw, w := v.Lit("w", 10, 32)
	lc, _ := v.Lit("c", 2, 9)
	v.Observe("w", w)
	v.File("bus.fbd", project(lw, lc))
	others := []string{
		"Main bus\n  width = 8\n  c config; width = 8\n  d config; width = 3\n",
		"Main bus\n  width = 64\n  align = 16\n  c [5]status; width = 33\n  b block\n    masters = 2\n    i irq\n",
		"type T block\n  x config\nMain bus\n  width = 16\n  masters = 3\n  t T\n    y T2\n  type T2 mask; width = 17\n",
		"Main bus\n  width = 24\n  c config; width = -1\n",
		"Main bus\n  c config; width = zzz\n",
		"Other bus\n  width = 8\n  c config\n",
		"const M = 3\n",
	}
	v.File("other.fbd", others[v.Choice("other", len(others))])
	b1, p1, r1 := compileAll("bus.fbd")
	f1 := flatten(b1, p1)
	v.Try(func() { compileAll("other.fbd") })
	b2, p2, r2 := compileAll("bus.fbd")
	v.Assert(r1 == r2 && r1 == 0, "P26:verdict")
	if r1 == 0 && r2 == 0 {
		v.Assert(f1.equal(flatten(b2, p2)), "P26:repeated")
		// the first result is not touched by later ones
		v.Assert(f1.equal(flatten(b1, p1)), "P26:kept")
	}
	v.Reach("end")
}
