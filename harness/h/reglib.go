package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

// num turns a small non-negative number into text without involving fmt.
func num(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return num(i/10) + string(rune('0'+i%10))
}

func all(c ...bool) bool {
	r := true
	for _, x := range c {
		r = v.And(r, x)
	}
	return r
}

func anyOf(c ...bool) bool {
	r := false
	for _, x := range c {
		r = v.Or(r, x)
	}
	return r
}

func imp(a, b bool) bool { return v.Implies(a, b) }

func within(lo, x, hi int64) bool { return v.And(lo <= x, x <= hi) }

func widthOf(quick []int64, thorough []int64) int64 {
	l := quick
	if v.Thorough() {
		l = thorough
	}
	return l[v.Choice("busWidth", len(l))]
}

func fun(name string) fn.Func { return fn.Func{Name: name, Count: 1} }

func arr(name string, count int64) fn.Func {
	return fn.Func{Name: name, IsArray: true, Count: count}
}

// slot is one functionality of a block, seen by the address-map oracles.
type slot struct {
	name string
	kind string
	acs  *types.Access
	w    int64 // declared width
	n    int64 // declared number of items
	arr  bool
	wr   bool // written by the bus master (config, mask, param)
	priv int  // >0: member number priv of a procedure or stream
}

func slotsOf(b *fn.Block) []slot {
	s := []slot{}
	for _, x := range b.Configs {
		s = append(s, slot{name: x.Name, kind: "config", acs: &x.Access, w: x.Width, n: x.Count, arr: x.IsArray, wr: true})
	}
	for _, x := range b.Masks {
		s = append(s, slot{name: x.Name, kind: "mask", acs: &x.Access, w: x.Width, n: x.Count, arr: x.IsArray, wr: true})
	}
	for _, x := range b.Statics {
		k := "static"
		if x.Name == "ID" {
			k = "id"
		}
		s = append(s, slot{name: x.Name, kind: k, acs: &x.Access, w: x.Width, n: x.Count, arr: x.IsArray})
	}
	for _, x := range b.Statuses {
		s = append(s, slot{name: x.Name, kind: "status", acs: &x.Access, w: x.Width, n: x.Count, arr: x.IsArray})
	}
	for _, x := range b.Irqs {
		s = append(s, slot{name: x.Name, kind: "irq", acs: &x.Access, w: 1, n: x.Count, arr: x.IsArray})
		if x.AddEnable {
			s = append(s, slot{name: x.Name, kind: "irqenable", acs: &x.EnableAccess, w: 1, n: x.Count, arr: x.IsArray})
		}
	}
	p := 0
	for _, x := range b.Procs {
		p++
		for _, y := range x.Params {
			s = append(s, slot{name: y.Name, kind: "param", acs: &y.Access, w: y.Width, n: y.Count, arr: y.IsArray, wr: true, priv: p})
		}
		for _, y := range x.Returns {
			s = append(s, slot{name: y.Name, kind: "return", acs: &y.Access, w: y.Width, n: y.Count, arr: y.IsArray, priv: p})
		}
	}
	for _, x := range b.Streams {
		p++
		for _, y := range x.Params {
			s = append(s, slot{name: y.Name, kind: "param", acs: &y.Access, w: y.Width, n: y.Count, arr: y.IsArray, wr: true, priv: p})
		}
		for _, y := range x.Returns {
			s = append(s, slot{name: y.Name, kind: "return", acs: &y.Access, w: y.Width, n: y.Count, arr: y.IsArray, priv: p})
		}
	}
	return s
}

// occupies tells whether bit `bit` of register `addr` belongs to the access, from
// the documented layout of its type. 0 <= bit < bw.
func occupies(a *types.Access, bw, addr, bit int64) bool {
	inRegs := within(a.StartAddr, addr, a.EndAddr)
	switch a.Type {
	case "SingleOneReg", "ArrayOneReg":
		return v.And(addr == a.StartAddr, within(a.StartBit, bit, a.EndBit))
	case "SingleNRegs", "ArrayNRegs":
		// continuous from StartBit of the first to EndBit of the last register
		return all(inRegs,
			imp(addr == a.StartAddr, bit >= a.StartBit),
			imp(addr == a.EndAddr, bit <= a.EndBit))
	case "ArrayOneInReg":
		return v.And(inRegs, within(a.StartBit, bit, a.EndBit))
	case "ArrayNInReg":
		return v.And(inRegs, within(a.StartBit, bit, a.EndBit))
	case "ArrayNInRegMInEndReg":
		return all(inRegs, bit >= a.StartBit,
			imp(addr != a.EndAddr, bit < a.StartBit+a.StartRegWidth),
			imp(addr == a.EndAddr, bit <= a.EndBit))
	case "ArrayOneInNRegs":
		per := (a.ItemWidth + bw - 1) / bw
		last := (addr-a.StartAddr)%per == per-1
		return v.And(inRegs, imp(last, bit <= a.EndBit))
	}
	panic("unknown access type " + a.Type)
}

// touches tells whether register addr holds a bit of the access.
func touches(a *types.Access, addr int64) bool {
	return within(a.StartAddr, addr, a.EndAddr)
}

// itemBit is the register and the bit, counted from bit 0 of register 0 as
// addr*bw+bit, in which the documented layout of the access type stores bit j of
// item i.
func itemBit(a *types.Access, bw, i, j int64) int64 {
	switch a.Type {
	case "SingleOneReg", "SingleNRegs":
		return a.StartAddr*bw + a.StartBit + j
	case "ArrayOneReg", "ArrayNRegs":
		return a.StartAddr*bw + a.StartBit + i*a.ItemWidth + j
	case "ArrayOneInReg":
		return (a.StartAddr+i)*bw + a.StartBit + j
	case "ArrayNInReg", "ArrayNInRegMInEndReg":
		per := bw / a.ItemWidth
		return (a.StartAddr+i/per)*bw + (i%per)*a.ItemWidth + j
	case "ArrayOneInNRegs":
		per := (a.ItemWidth + bw - 1) / bw
		return (a.StartAddr+i*per)*bw + j
	}
	panic("unknown access type " + a.Type)
}

// geometry is the documented internal consistency of one access description.
func geometry(a *types.Access, bw int64) bool {
	total := a.ItemCount * a.ItemWidth
	c := all(a.RegWidth == bw, a.RegCount >= 1, a.ItemCount >= 1, a.ItemWidth >= 1,
		a.EndAddr == a.StartAddr+a.RegCount-1,
		within(0, a.StartBit, bw-1), within(0, a.EndBit, bw-1),
		within(1, a.StartRegWidth, bw), within(1, a.EndRegWidth, bw))
	switch a.Type {
	case "SingleOneReg":
		return all(c, a.RegCount == 1, a.ItemCount == 1, a.EndBit-a.StartBit+1 == total,
			a.StartRegWidth == total, a.EndRegWidth == total)
	case "SingleNRegs":
		return all(c, a.RegCount >= 2, a.ItemCount == 1,
			(a.RegCount-1)*bw+a.EndBit+1-a.StartBit == total,
			a.StartRegWidth == bw-a.StartBit, a.EndRegWidth == a.EndBit+1)
	case "ArrayOneReg":
		return all(c, a.RegCount == 1, a.EndBit-a.StartBit+1 == total,
			a.StartRegWidth == total, a.EndRegWidth == total)
	case "ArrayNRegs":
		return all(c, (a.RegCount-1)*bw+a.EndBit+1-a.StartBit == total,
			imp(a.RegCount > 1, all(a.StartRegWidth == bw-a.StartBit, a.EndRegWidth == a.EndBit+1)),
			imp(a.RegCount == 1, v.And(a.StartRegWidth == total, a.EndRegWidth == total)))
	case "ArrayOneInReg":
		return all(c, a.RegCount == a.ItemCount, a.EndBit-a.StartBit+1 == a.ItemWidth,
			a.StartRegWidth == a.ItemWidth, a.EndRegWidth == a.ItemWidth)
	case "ArrayNInReg":
		per := bw / a.ItemWidth
		return all(c, a.RegCount*per == a.ItemCount, a.StartBit == 0, a.EndBit == per*a.ItemWidth-1,
			a.StartRegWidth == per*a.ItemWidth, a.EndRegWidth == per*a.ItemWidth)
	case "ArrayNInRegMInEndReg":
		per := bw / a.ItemWidth
		end := a.ItemCount - (a.RegCount-1)*per
		return all(c, within(1, end, per-1), a.StartBit == 0, a.EndBit == end*a.ItemWidth-1,
			imp(a.RegCount > 1, a.StartRegWidth == per*a.ItemWidth), a.EndRegWidth == end*a.ItemWidth)
	case "ArrayOneInNRegs":
		per := (a.ItemWidth + bw - 1) / bw
		return all(c, a.RegCount == per*a.ItemCount, a.StartBit == 0,
			a.EndBit == a.ItemWidth-(per-1)*bw-1, a.StartRegWidth == bw, a.EndRegWidth == a.EndBit+1)
	}
	return false
}

// checkMap asserts every address-map property of one registerified block.
// lo is the first address the block's own functionalities may use.
func checkMap(b *fn.Block, bw, lo int64) {
	ss := slotsOf(b)
	own := b.Sizes.Own
	addr := v.Int("probeAddr", 0, 1<<20)
	bit := v.Int("probeBit", 0, bw-1)

	// no two functionalities share a bit
	taken := false
	clash := false
	for i := range ss {
		o := occupies(ss[i].acs, bw, addr, bit)
		clash = v.Or(clash, v.And(taken, o))
		taken = v.Or(taken, o)
	}
	v.Assert(v.Not(clash), "P01:bit-shared")

	// containment
	in := true
	for i := range ss {
		a := ss[i].acs
		if ss[i].kind == "id" {
			in = all(in, a.StartAddr == 0, a.EndAddr == 0, a.StartBit == 0)
			continue
		}
		in = all(in, a.StartAddr >= lo, a.EndAddr < own, a.StartAddr <= a.EndAddr)
	}
	v.Assert(in, "P02:outside-own")

	// geometry and faithful size
	for i := range ss {
		s := ss[i]
		v.Assert(geometry(s.acs, bw), "P04:geometry-"+s.kind)
		v.Assert(all(s.acs.ItemWidth == s.w, s.acs.ItemCount == v.Ite(s.arr, s.n, 1)), "P04:size-"+s.kind)
	}

	// write safety
	clears := map[int]int64{}
	for qi, q := range b.Irqs {
		if q.Clear == "On Read" {
			// reading clears the interrupt: nothing else may be read there
			ok := true
			for i := range ss {
				if ss[i].name != q.Name {
					ok = v.And(ok, v.Not(touches(ss[i].acs, q.Access.StartAddr)))
				}
			}
			v.Assert(ok, "P03:clear-on-read-shared")
		}
		if q.Clear != "Explicit" {
			v.Assert(q.ClearAddr == nil, "P03:clear-addr-without-explicit")
			continue
		}
		if q.ClearAddr == nil {
			v.Assert(false, "P03:no-clear-addr")
			continue
		}
		ok := true
		for i := range ss {
			s := ss[i]
			if s.wr || s.kind == "irqenable" {
				ok = v.And(ok, v.Not(touches(s.acs, *q.ClearAddr)))
			}
		}
		v.Assert(ok, "P03:clear-write-hits-writable")
		for j := 0; j < qi; j++ {
			if a, ok := clears[j]; ok {
				v.Assert(a != *q.ClearAddr, "P03:clear-addr-twice")
			}
		}
		clears[qi] = *q.ClearAddr
		v.Assert(within(lo, *q.ClearAddr, own-1), "P03:clear-addr-outside")
	}
	checkStrobes(b, ss, bw, lo, addr)
}

// checkStrobes asserts the placement of call, exit and strobe addresses.
func checkStrobes(b *fn.Block, ss []slot, bw, lo, addr int64) {
	own := b.Sizes.Own
	excl := func(addr int64, p int) bool {
		ok := within(lo, addr, own-1)
		for i := range ss {
			if ss[i].priv != p {
				ok = v.And(ok, v.Not(touches(ss[i].acs, addr)))
			}
		}
		return ok
	}
	p := 0
	var strobes []int64
	for _, x := range b.Procs {
		p++
		np, nr := len(x.Params), len(x.Returns)
		if np > 0 || nr == 0 || x.Delay != nil {
			if x.CallAddr == nil {
				v.Assert(false, "P03:no-call-addr")
			} else {
				v.Assert(excl(*x.CallAddr, p), "P03:call-addr-shared")
				strobes = append(strobes, *x.CallAddr)
				if np > 0 {
					v.Assert(*x.CallAddr == x.Params[np-1].Access.EndAddr, "P03:call-addr-last-param")
				}
			}
		}
		if nr > 0 || x.Delay != nil {
			if x.ExitAddr == nil {
				v.Assert(false, "P03:no-exit-addr")
			} else {
				v.Assert(excl(*x.ExitAddr, p), "P03:exit-addr-shared")
				if nr > 0 {
					v.Assert(*x.ExitAddr == x.Returns[nr-1].Access.EndAddr, "P03:exit-addr-last-return")
				}
			}
		}
		// parameters are written in order, the last register last
		for i := 1; i < np; i++ {
			v.Assert(x.Params[i-1].Access.EndAddr <= x.Params[i].Access.StartAddr, "P03:param-order")
		}
		for i := 1; i < nr; i++ {
			v.Assert(x.Returns[i-1].Access.EndAddr <= x.Returns[i].Access.StartAddr, "P03:return-order")
		}
	}
	for _, x := range b.Streams {
		p++
		np, nr := len(x.Params), len(x.Returns)
		v.Assert(excl(x.StbAddr, p), "P03:strobe-addr-shared")
		strobes = append(strobes, x.StbAddr)
		if np > 0 {
			v.Assert(x.StbAddr == x.Params[np-1].Access.EndAddr, "P03:strobe-addr-last-param")
		}
		if nr > 0 {
			v.Assert(x.StbAddr == x.Returns[nr-1].Access.EndAddr, "P03:strobe-addr-last-return")
		}
		for i := 1; i < np; i++ {
			v.Assert(x.Params[i-1].Access.EndAddr <= x.Params[i].Access.StartAddr, "P03:param-order")
		}
		for i := 1; i < nr; i++ {
			v.Assert(x.Returns[i-1].Access.EndAddr <= x.Returns[i].Access.StartAddr, "P03:return-order")
		}
	}
	d := true
	for i := range strobes {
		for j := 0; j < i; j++ {
			d = v.And(d, strobes[i] != strobes[j])
		}
	}
	v.Assert(d, "P03:strobe-addr-twice")
	// every register that belongs to a procedure or stream belongs only to it
	ok := true
	for i := range ss {
		for j := 0; j < i; j++ {
			if ss[i].priv != ss[j].priv {
				ok = v.And(ok, v.Not(v.And(touches(ss[i].acs, addr), touches(ss[j].acs, addr))))
			}
		}
	}
	v.Assert(ok, "P03:private-register-shared")
}

// nm returns names which are not in alphabetic order.
func nm(prefix string, i int) string {
	return prefix + []string{"m", "c", "x", "a", "q"}[i%5] + num(i)
}
