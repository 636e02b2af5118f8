package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/reg"
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

func init() {
	reg_("RegGaps", RegGaps)
	reg_("RegMix", RegMix)
	reg_("RegMany", RegMany)
	reg_("RegSub", RegSub)
	reg_("RegWidths", RegWidths)
	reg_("RegHuge", RegHuge)
	reg_("RegHugeBlocks", RegHugeBlocks)
	reg_("RegArrays", RegArrays)
	reg_("RegProc", RegProc)
	reg_("RegStream", RegStream)
	reg_("RegMembers", RegMembers)
}

func newBus(bw int64) *fn.Block {
	return &fn.Block{Func: fun("Main"), Masters: 1, Width: bw}
}

// registerify runs the real address assignment; a crash is a violation of its own.
func registerify(b *fn.Block, ts bool) bool {
	r := v.Try(func() { reg.Registerify(b, ts) })
	v.Assert(r == 0, "P08:crash")
	return r == 0
}

// RegGaps: singles of every kind that can share registers through gaps.
func RegGaps() {
	v.FreeHash()
	bw := widthOf([]int64{8, 32}, []int64{2, 8, 24, 32, 64})
	total := 4
	if v.Thorough() {
		total = 5
	}
	b := newBus(bw)
	max := bw + bw/2
	nc := v.Choice("configs", 3)
	ns := v.Choice("statics", 2)
	nst := v.Choice("statuses", 4)
	ni := v.Choice("irqs", 3)
	if nc+ns+nst+ni > total {
		return
	}
	for i := 0; i < nc; i++ {
		b.Configs = append(b.Configs, &fn.Config{Func: fun(nm("c", i)), Width: v.Int("cw", 1, max), Atomic: i == 1})
	}
	if ns == 1 {
		b.Statics = append(b.Statics, &fn.Static{Func: fun("s"), Width: v.Int("sw", 1, max)})
	}
	for i := 0; i < nst; i++ {
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun(nm("t", i)), Width: v.Int("tw", 1, max), Atomic: i == 1})
	}
	for i := 0; i < ni; i++ {
		b.Irqs = append(b.Irqs, &fn.Irq{Func: fun(nm("q", i)), Clear: "Explicit"})
	}
	if !registerify(b, false) {
		return
	}
	checkMap(b, bw, 1)
	observe(b)
	v.Reach("end")
	if ni > 0 {
		v.Reach("irq")
	}
}

func observe(b *fn.Block) {
	for _, s := range slotsOf(b) {
		v.Observe(s.name, s.acs.StartAddr*100000+s.acs.EndAddr*1000+s.acs.EndBit)
	}
	v.Observe("own", b.Sizes.Own)
	v.Observe("aligned", b.Sizes.Aligned)
}

// RegMix: one functionality of each kind, any subset: the order in which the kinds
// are placed must not make them collide.
func RegMix() {
	v.FreeHash()
	bw := widthOf([]int64{32}, []int64{8, 16, 32, 64})
	b := newBus(bw)
	max := 2*bw + 3
	have, limit := 0, 4
	if v.Thorough() {
		limit = 6
	}
	// at most `limit` of the options are taken together
	on := func(n string) bool {
		if have < limit && v.Choice(n, 2) == 1 {
			have++
			return true
		}
		return false
	}
	if on("proc") {
		p := &fn.Proc{Func: fun("p")}
		if on("param") {
			p.Params = append(p.Params, &fn.Param{Func: fun("pp"), Width: v.Int("pw", 1, max)})
		}
		b.Procs = append(b.Procs, p)
	}
	if on("stream") {
		s := &fn.Stream{Func: fun("st")}
		s.Returns = append(s.Returns, &fn.Return{Func: fun("sr"), Width: v.Int("sw", 1, max)})
		b.Streams = append(b.Streams, s)
	}
	if on("config") {
		b.Configs = append(b.Configs, &fn.Config{Func: fun("c"), Width: v.Int("cw", 1, max), Atomic: true})
	}
	if on("mask") {
		b.Masks = append(b.Masks, &fn.Mask{Func: fun("m"), Width: v.Int("mw", 1, max), Atomic: on("ma")})
	}
	if on("static") {
		b.Statics = append(b.Statics, &fn.Static{Func: fun("s"), Width: v.Int("tw", 1, max)})
	}
	if on("status") {
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun("t"), Width: v.Int("uw", 1, bw)})
	}
	for i := 0; i < 2; i++ {
		q := &fn.Irq{Func: fun(nm("q", i)), Clear: "Explicit"}
		if !on("irq") {
			continue
		}
		switch v.Choice("irqKind", 4) {
		case 1:
			q.Clear = "On Read"
		case 2:
			q.AddEnable = true
		case 3:
			q.AddEnable = true
			q.Clear = "On Read"
		}
		b.Irqs = append(b.Irqs, q)
	}
	ts := on("timestamp")
	if !registerify(b, ts) {
		return
	}
	checkMap(b, bw, 1)
	checkTimestamp(b, bw, ts)
	observe(b)
	v.Reach("end")
}

// checkTimestamp: the timestamp has the last own register for itself.
func checkTimestamp(b *fn.Block, bw int64, ts bool) {
	n := 0
	for _, s := range b.Statics {
		if s.Name == "TIMESTAMP" {
			n++
			v.Assert(all(s.Access.StartAddr == b.Sizes.Own-1, s.Access.EndAddr == b.Sizes.Own-1, s.Access.StartBit == 0), "P02:timestamp-address")
		}
		if s.Name == "ID" {
			n += 2
			v.Assert(all(s.Access.StartAddr == 0, s.Access.EndAddr == 0, s.Access.StartBit == 0), "P02:id-address")
		}
	}
	if ts {
		v.Assert(n == 3, "P02:timestamp-present")
	} else {
		v.Assert(n == 2, "P02:id-present")
	}
}

// RegArrays: one array of configs, statics or statuses followed by a single one.
func RegArrays() {
	v.FreeHash()
	bw := widthOf([]int64{8, 32}, []int64{1, 8, 16, 24, 32, 64})
	b := newBus(bw)
	n := v.Int("count", 1, 1<<20)
	w := v.Conc(v.Int("width", 1, 2*bw+3))
	f := arr("a", n)
	kind := v.Choice("kind", 5)
	switch kind {
	case 0:
		b.Configs = append(b.Configs, &fn.Config{Func: f, Width: w, Atomic: true})
		b.Configs = append(b.Configs, &fn.Config{Func: fun("b"), Width: v.Int("w2", 1, bw+1), Atomic: true})
	case 1:
		b.Statics = append(b.Statics, &fn.Static{Func: f, Width: w})
		b.Statics = append(b.Statics, &fn.Static{Func: fun("b"), Width: v.Int("w2", 1, bw+1)})
	case 2:
		b.Statuses = append(b.Statuses, &fn.Status{Func: f, Width: w, Atomic: true})
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun("b"), Width: v.Int("w2", 1, bw+1), Atomic: true})
	case 3:
		b.Statuses = append(b.Statuses, &fn.Status{Func: f, Width: w})
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun("b"), Width: v.Int("w2", 1, bw+1)})
	case 4:
		b.Statuses = append(b.Statuses, &fn.Status{Func: f, Width: w})
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun("b"), Width: v.Int("w2", 1, bw+1), Atomic: true})
	}
	// not implemented by the tool: arrays of configs and statics wider than the bus
	v.Assume(v.Or(kind >= 2, w <= bw))
	if !registerify(b, false) {
		return
	}
	checkMap(b, bw, 1)
	observe(b)
	v.Reach("end")
}

func choiceLists(bw int64, what string, maxN int) []fn.Param {
	l := []fn.Param{}
	arrays := false
	counts := []int64{1, 3}
	if v.Thorough() {
		counts = []int64{1, 2, 3, 4, 5}
	}
	n := v.Choice(what+"s", maxN+1)
	for i := 0; i < n; i++ {
		p := fn.Param{Func: fun(nm(what, i))}
		if (!arrays || v.Thorough()) && v.Choice(what+"Arr", 2) == 1 {
			arrays = true
			p.Func = arr(nm(what, i), counts[v.Choice(what+"Count", len(counts))])
			p.Width = v.Int(what+"Width", 1, bw+1)
		} else {
			p.Width = v.Int(what+"Width", 1, 2*bw+3)
		}
		l = append(l, p)
	}
	return l
}

// RegProc: two procedures with parameters, returns and delays in every combination.
func RegProc() {
	v.FreeHash()
	bw := widthOf([]int64{8, 32}, []int64{8, 16, 32, 64})
	b := newBus(bw)
	max := 2
	if v.Thorough() {
		max = 3
	}
	p := &fn.Proc{Func: fun("p")}
	for _, x := range choiceLists(bw, "param", max) {
		q := x
		p.Params = append(p.Params, &q)
	}
	if !v.Thorough() && len(p.Params) == 2 {
		max = 1
	}
	for _, x := range choiceLists(bw, "return", max) {
		p.Returns = append(p.Returns, &fn.Return{Func: x.Func, Width: x.Width})
	}
	if v.Choice("delay", 2) == 1 {
		p.Delay = &types.Time{S: 1, Ns: 0}
	}
	b.Procs = append(b.Procs, p)
	b.Procs = append(b.Procs, &fn.Proc{Func: fun("e")})
	b.Configs = append(b.Configs, &fn.Config{Func: fun("c"), Width: bw, Atomic: true})
	if !registerify(b, false) {
		return
	}
	checkMap(b, bw, 1)
	observe(b)
	v.Reach("end")
}

// RegStream: two streams.
func RegStream() {
	v.FreeHash()
	bw := widthOf([]int64{8, 32}, []int64{8, 16, 32, 64})
	b := newBus(bw)
	max := 3
	s := &fn.Stream{Func: fun("s")}
	if v.Choice("down", 2) == 1 {
		for _, x := range choiceLists(bw, "param", max) {
			q := x
			s.Params = append(s.Params, &q)
		}
	} else {
		for _, x := range choiceLists(bw, "return", max) {
			s.Returns = append(s.Returns, &fn.Return{Func: x.Func, Width: x.Width})
		}
	}
	b.Streams = append(b.Streams, s)
	b.Streams = append(b.Streams, &fn.Stream{Func: fun("e")})
	b.Statuses = append(b.Statuses, &fn.Status{Func: fun("c"), Width: bw, Atomic: true})
	if !registerify(b, false) {
		return
	}
	checkMap(b, bw, 1)
	observe(b)
	v.Reach("end")
}

// RegMembers: one big array of members between two single ones, anywhere in a
// register.
func RegMembers() {
	v.FreeHash()
	bw := widthOf([]int64{32}, []int64{8, 24, 32, 64})
	b := newBus(bw)
	max := bw + 3
	if v.Thorough() {
		max = 2*bw + 1
	}
	w0 := v.Int("first", 1, bw+1)
	n := v.Int("count", 1, 1<<20)
	w := v.Conc(v.Int("width", 1, max))
	w1 := v.Int("last", 1, bw)
	params := []*fn.Param{{Func: fun("x"), Width: w0}, {Func: arr("a", n), Width: w}, {Func: fun("y"), Width: w1}}
	returns := []*fn.Return{{Func: fun("x"), Width: w0}, {Func: arr("a", n), Width: w}, {Func: fun("y"), Width: w1}}
	switch v.Choice("kind", 4) {
	case 0:
		b.Procs = append(b.Procs, &fn.Proc{Func: fun("p"), Params: params})
	case 1:
		b.Procs = append(b.Procs, &fn.Proc{Func: fun("p"), Returns: returns})
	case 2:
		b.Streams = append(b.Streams, &fn.Stream{Func: fun("s"), Params: params})
	case 3:
		b.Streams = append(b.Streams, &fn.Stream{Func: fun("s"), Returns: returns})
	}
	b.Configs = append(b.Configs, &fn.Config{Func: fun("c"), Width: bw, Atomic: true})
	if !registerify(b, false) {
		return
	}
	checkMap(b, bw, 1)
	observe(b)
	v.Reach("end")
}

// RegMany: many singles, with as many gaps to share as there are configs and statics.
// Widths do not grow in the order of declaration within one kind.
func RegMany() {
	v.FreeHash()
	bw := widthOf([]int64{32}, []int64{8, 32})
	nc, ns, nt, ni := 3, 0, 3, 1
	if v.Thorough() {
		nc, ns, nt, ni = 3, 2, 3, 2
	}
	b := newBus(bw)
	atomic := v.Choice("atomic", 2) == 1
	last := int64(0)
	width := func(id string, i int) int64 {
		w := v.Int(id, 1, bw)
		if i > 0 {
			v.Assume(w <= last)
		}
		last = w
		return w
	}
	for i := 0; i < nc; i++ {
		b.Configs = append(b.Configs, &fn.Config{Func: fun(nm("c", i)), Width: width("cw", i), Atomic: atomic})
	}
	for i := 0; i < ns; i++ {
		b.Statics = append(b.Statics, &fn.Static{Func: fun(nm("s", i)), Width: width("sw", i)})
	}
	for i := 0; i < nt; i++ {
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun(nm("t", i)), Width: width("tw", i), Atomic: atomic})
	}
	for i := 0; i < ni; i++ {
		b.Irqs = append(b.Irqs, &fn.Irq{Func: fun(nm("q", i)), Clear: "Explicit"})
	}
	if !registerify(b, false) {
		return
	}
	checkMap(b, bw, 1)
	observe(b)
	v.Reach("end")
}

// RegSub: functionalities of the bus and of blocks within it, each with its own registers.
func RegSub() {
	v.FreeHash()
	bw := widthOf([]int64{32}, []int64{8, 32})
	b := newBus(bw)
	max := bw
	if v.Thorough() {
		max++
	}
	some := func(b *fn.Block, id string) {
		b.Configs = append(b.Configs, &fn.Config{Func: fun(id + "c"), Width: v.Int(id+"cw", 1, max), Atomic: true})
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun(id + "t"), Width: v.Int(id+"tw", 1, max), Atomic: true})
	}
	some(b, "b")
	blks := []*fn.Block{}
	at := b
	deep := v.Choice("deep", 2) == 1
	for i := 0; i < 2; i++ {
		s := &fn.Block{Func: fun(nm("k", i)), Masters: 1, Width: bw}
		some(s, nm("k", i))
		if i == 0 && v.Choice("irq", 2) == 1 {
			s.Irqs = append(s.Irqs, &fn.Irq{Func: fun("q"), Clear: "Explicit"})
		}
		if i == 1 && v.Choice("proc", 2) == 1 {
			s.Procs = append(s.Procs, &fn.Proc{Func: fun("p"), Returns: []*fn.Return{{Func: fun("r"), Width: v.Int("rw", 1, max)}}})
		}
		at.Subblocks = append(at.Subblocks, s)
		if deep {
			at = s
		}
		blks = append(blks, s)
	}
	if !registerify(b, false) {
		return
	}
	checkMap(b, bw, 1)
	for _, s := range blks {
		checkMap(s, bw, 0)
		observe(s)
	}
	v.Reach("end")
}

// RegWidths: one functionality of every kind with many bus widths.
func RegWidths() {
	v.FreeHash()
	bw := widthOf([]int64{1, 2, 7, 16, 24, 64, 100}, []int64{1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 256, 1000})
	b := newBus(bw)
	max := 5*bw + 3
	f := func(n string) fn.Func {
		if v.Choice(n, 2) == 1 {
			return arr(n, 3)
		}
		return fun(n)
	}
	w := func() int64 { return v.Int("w", 1, max) }
	small := func() int64 { return v.Int("w", 1, bw) }
	switch v.Choice("kind", 7) {
	case 0:
		b.Configs = append(b.Configs, &fn.Config{Func: fun("c"), Width: w(), Atomic: v.Choice("atomic", 2) == 1})
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun("t"), Width: small(), Atomic: true})
	case 1:
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun("s"), Width: w(), Atomic: v.Choice("atomic", 2) == 1})
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun("t"), Width: small(), Atomic: true})
	case 2:
		b.Statics = append(b.Statics, &fn.Static{Func: fun("s"), Width: w()})
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun("t"), Width: small(), Atomic: true})
	case 3:
		b.Masks = append(b.Masks, &fn.Mask{Func: fun("m"), Width: w(), Atomic: v.Choice("atomic", 2) == 1})
		b.Statuses = append(b.Statuses, &fn.Status{Func: fun("t"), Width: small(), Atomic: true})
	case 4:
		b.Procs = append(b.Procs, &fn.Proc{Func: fun("p"), Params: []*fn.Param{{Func: fun("x"), Width: w()}, {Func: f("y"), Width: small()}}})
	case 5:
		b.Streams = append(b.Streams, &fn.Stream{Func: fun("p"), Returns: []*fn.Return{{Func: fun("x"), Width: w()}, {Func: f("y"), Width: small()}}})
	case 6:
		for i := 0; i < 3; i++ {
			b.Irqs = append(b.Irqs, &fn.Irq{Func: fun(nm("q", i)), Clear: "Explicit", AddEnable: i == 1})
		}
	}
	ts := v.Choice("ts", 2) == 1
	if !registerify(b, ts) {
		return
	}
	checkMap(b, bw, 1)
	checkTimestamp(b, bw, ts)
	observe(b)
	v.Reach("end")
}

// exactRegs is the part of the geometry which overflow would break, in divisions
// which cannot overflow themselves.
func exactRegs(a *types.Access, n, w, bw, own int64) bool {
	c := all(a.ItemCount == n, a.ItemWidth == w, a.StartAddr >= 0, a.RegCount >= 1,
		a.EndAddr == a.StartAddr+a.RegCount-1, a.EndAddr >= a.StartAddr, a.EndAddr < own,
		within(0, a.StartBit, bw-1), within(0, a.EndBit, bw-1))
	switch a.Type {
	case "SingleOneReg", "ArrayOneReg":
		return all(c, a.RegCount == 1, n <= bw/w)
	case "SingleNRegs":
		return all(c, w > bw-a.StartBit, a.RegCount == (w-1-(bw-a.StartBit))/bw+2)
	case "ArrayOneInReg":
		return all(c, a.RegCount == n, w <= bw)
	case "ArrayNInReg", "ArrayNInRegMInEndReg":
		return all(c, w <= bw, a.RegCount == (n-1)/(bw/w)+1)
	case "ArrayOneInNRegs":
		return all(c, w > bw, a.RegCount/((w-1)/bw+1) == n, a.RegCount%((w-1)/bw+1) == 0)
	case "ArrayNRegs":
		return all(c, n <= 1<<62/w, a.RegCount == (n*w-1+a.StartBit)/bw+1)
	}
	return false
}

// RegHuge: widths and counts over the whole range of integers. What cannot be
// addressed is rejected; whatever is accepted has an exact map.
func RegHuge() {
	v.FreeHash()
	const bw = 32
	const max = 1<<63 - 1
	b := newBus(bw)
	n, w := int64(1), int64(0)
	f := fun("a")
	kind := v.Choice("kind", 9)
	if kind == 6 || v.Choice("single", 2) == 1 {
		w = v.Int("width", 1, max)
	} else {
		ws := []int64{1, 7, 17, 32, 33, 1 << 40}
		w = ws[v.Choice("widths", len(ws))]
		n = v.Int("count", 1, max)
		f = arr("a", n)
		v.Assume(v.Or(kind > 1, w <= bw))
	}
	var acs func() *types.Access
	switch kind {
	case 0:
		x := &fn.Config{Func: f, Width: w, Atomic: true}
		b.Configs, acs = append(b.Configs, x), func() *types.Access { return &x.Access }
	case 1:
		x := &fn.Static{Func: f, Width: w}
		b.Statics, acs = append(b.Statics, x), func() *types.Access { return &x.Access }
	case 2, 3:
		x := &fn.Status{Func: f, Width: w, Atomic: kind == 3}
		b.Statuses, acs = append(b.Statuses, x), func() *types.Access { return &x.Access }
	case 4:
		x := &fn.Param{Func: f, Width: w}
		b.Procs, acs = append(b.Procs, &fn.Proc{Func: fun("p"), Params: []*fn.Param{x}}), func() *types.Access { return &x.Access }
	case 5:
		x := &fn.Return{Func: f, Width: w}
		b.Streams, acs = append(b.Streams, &fn.Stream{Func: fun("p"), Returns: []*fn.Return{x}}), func() *types.Access { return &x.Access }
	case 6:
		x := &fn.Mask{Func: f, Width: w, Atomic: true}
		b.Masks, acs = append(b.Masks, x), func() *types.Access { return &x.Access }
	case 7:
		x := &fn.Return{Func: f, Width: w}
		b.Procs, acs = append(b.Procs, &fn.Proc{Func: fun("p"), Returns: []*fn.Return{x}}), func() *types.Access { return &x.Access }
	case 8:
		x := &fn.Param{Func: f, Width: w}
		b.Streams, acs = append(b.Streams, &fn.Stream{Func: fun("p"), Params: []*fn.Param{x}}), func() *types.Access { return &x.Access }
	}
	b.Statuses = append(b.Statuses, &fn.Status{Func: fun("b"), Width: 5})
	r := v.Try(func() { reg.Registerify(b, false) })
	v.Assert(v.Or(r == 0, r == 2), "P08:crash")
	if r != 0 {
		// everything of a reasonable size has a map
		v.Assert(v.Not(v.And(n <= 1<<20, w <= 1<<20)), "P08:rejected")
		v.Reach("rejected")
		return
	}
	v.Assert(exactRegs(acs(), n, w, bw, b.Sizes.Own), "P04:overflow")
	v.Assert(v.And(b.Sizes.Own <= b.Sizes.Cumulated, b.Sizes.Cumulated <= b.Sizes.Aligned), "P06:overflow")
	v.Assert(v.And(b.AddrSpace.Start == 0, b.AddrSpace.End == b.Sizes.Aligned-1), "P05:overflow")
	v.Reach("accepted")
}

// RegHugeBlocks: the same for the counts and alignments of blocks.
func RegHugeBlocks() {
	v.FreeHash()
	const max = 1<<63 - 1
	b := newBus(32)
	x, y := &fn.Block{Func: fun("x"), Masters: 1}, &fn.Block{Func: fun("y"), Masters: 1}
	aligns := []int64{0, 4, 1 << 40, 1 << 62}
	b.Align = aligns[v.Choice("align", len(aligns))]
	if v.Choice("own", 2) == 1 {
		x.Align = aligns[v.Choice("alignX", len(aligns))]
	}
	x.Statuses = append(x.Statuses, &fn.Status{Func: fun("s"), Width: 70})
	y.Statuses = append(y.Statuses, &fn.Status{Func: fun("t"), Width: 7})
	n := v.Int("count", 1, max)
	counts := []int64{1, 3, 1 << 31, 1 << 62}
	m := counts[v.Choice("counts", len(counts))]
	big := x
	switch v.Choice("where", 3) {
	case 0: // side by side
		x.Func, y.Func = arr("x", n), arr("y", m)
		b.Subblocks = append(b.Subblocks, x, y)
	case 1: // nested, the outer one large
		x.Func, y.Func = arr("x", n), arr("y", m)
		x.Subblocks = append(x.Subblocks, y)
		b.Subblocks = append(b.Subblocks, x)
	case 2: // nested, the inner one large
		x.Func, y.Func = arr("x", m), arr("y", n)
		big = y
		x.Subblocks = append(x.Subblocks, y)
		b.Subblocks = append(b.Subblocks, x)
	}
	r := v.Try(func() { reg.Registerify(b, false) })
	v.Assert(v.Or(r == 0, r == 2), "P08:crash")
	if r != 0 {
		v.Assert(v.Not(all(n <= 1<<10, m <= 3, b.Align < 5, x.Align < 5)), "P08:rejected")
		v.Reach("rejected")
		return
	}
	var fits func(*fn.Block)
	fits = func(k *fn.Block) {
		left := k.Sizes.Aligned - k.Sizes.Own
		leftC := k.Sizes.Cumulated - k.Sizes.Own
		v.Assert(all(k.Sizes.Own >= 1, left >= 0, leftC >= 0), "P06:overflow")
		for _, s := range k.Subblocks {
			fits(s)
			v.Assert(v.And(s.Sizes.Aligned >= 1, s.Sizes.Cumulated >= 1), "P06:overflow")
			if s == big {
				// count symbolic, size concrete
				v.Assert(v.And(s.Count <= left/s.Sizes.Aligned, s.Count <= leftC/s.Sizes.Cumulated), "P06:overflow")
			} else {
				v.Assert(v.And(s.Sizes.Aligned <= left/s.Count, s.Sizes.Cumulated <= leftC/s.Count), "P06:overflow")
			}
			v.Assert(all(k.AddrSpace.Start <= s.AddrSpace.Start, s.AddrSpace.Start <= s.AddrSpace.End, s.AddrSpace.End <= k.AddrSpace.End), "P05:overflow")
			left -= s.Count * s.Sizes.Aligned
			leftC -= s.Count * s.Sizes.Cumulated
		}
	}
	v.Assert(b.Sizes.Aligned >= 1, "P06:overflow")
	v.Assert(v.And(b.AddrSpace.Start == 0, b.AddrSpace.End == b.Sizes.Aligned-1), "P05:overflow")
	fits(b)
	v.Reach("accepted")
}
