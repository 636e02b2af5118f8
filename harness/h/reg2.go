package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
)

func init() {
	reg_("RegBlocks", RegBlocks)
	reg_("RegDeep", RegDeep)
	reg_("RegAligns", RegAligns)
}

// sized gives a block with a number of own registers the solver chooses.
func sized(name string, maxOwn int64) *fn.Block {
	b := &fn.Block{Func: fun(name), Masters: 1}
	n := v.Int("own", 0, maxOwn)
	if v.Choice("ownZero", 2) == 1 {
		v.Assume(n == 0)
		return b
	}
	v.Assume(n > 0)
	s := &fn.Stream{Func: fun(name + "s")}
	s.Returns = append(s.Returns, &fn.Return{Func: arr("r", n), Width: 8})
	b.Streams = append(b.Streams, s)
	return b
}

func isPow2(n int64) bool { return v.And(n > 0, n&(n-1) == 0) }

// checkSpaces asserts the address-space and size properties of blk and everything
// below it. inherited is the alignment in force for blocks without their own.
func checkSpaces(blk *fn.Block, inherited int64, top bool) {
	if top {
		v.Assert(blk.AddrSpace.Start == 0, "P05:bus-start")
	}
	n := v.Ite(blk.IsArray, blk.Count, 1)
	sz := blk.Sizes
	v.Assert(blk.AddrSpace.End-blk.AddrSpace.Start+1 == n*sz.Aligned, "P05:span-"+blk.Name)

	align := blk.Align
	if align == 0 {
		align = inherited
	}
	sumC, sumA := sz.Own, int64(0)
	for _, sb := range blk.Subblocks {
		m := v.Ite(sb.IsArray, sb.Count, 1)
		sumC += m * sb.Sizes.Cumulated
		sumA += m * sb.Sizes.Aligned
	}
	v.Assert(sz.Cumulated == sumC, "P06:cumulated-"+blk.Name)
	v.Assert(v.And(sz.Own <= sz.Cumulated, sz.Cumulated <= sz.Aligned), "P06:order-"+blk.Name)
	v.Assert(sz.Aligned >= sz.Own+sumA, "P06:room-"+blk.Name)
	if align == 0 {
		v.Assert(v.Or(sz.Aligned == 0, isPow2(sz.Aligned)), "P06:power-of-2-"+blk.Name)
		v.Assert(imp(sz.Aligned > 0, sz.Aligned < 4*(sz.Own+sumA)), "P06:tight-"+blk.Name)
		v.Assert(imp(len(blk.Subblocks) == 0, v.Or(sz.Own == 0, sz.Aligned < 2*sz.Own)), "P06:tight-leaf-"+blk.Name)
	} else {
		v.Assert(sz.Aligned%align == 0, "P06:multiple-"+blk.Name)
		v.Assert(sz.Aligned < sz.Own+sumA+align, "P06:tight-"+blk.Name)
	}

	// the own registers of every item of the block, seen from a probe
	item := v.Int("probeItem", 0, 1<<20)
	at := v.Int("probeOff", 0, 1<<30)
	for i, sb := range blk.Subblocks {
		s := sb.AddrSpace
		empty := s.End < s.Start
		v.Assert(v.Or(empty, v.And(s.Start >= blk.AddrSpace.Start, s.End <= blk.AddrSpace.End)), "P05:nested-"+sb.Name)
		own := all(item < n, at < sz.Own, within(s.Start, blk.AddrSpace.Start+item*sz.Aligned+at, s.End))
		v.Assert(v.Not(own), "P05:over-parent-registers-"+sb.Name)
		for j := 0; j < i; j++ {
			o := blk.Subblocks[j].AddrSpace
			v.Assert(anyOf(empty, o.End < o.Start, s.End < o.Start, o.End < s.Start), "P05:siblings-overlap")
		}
	}
	for _, sb := range blk.Subblocks {
		checkSpaces(sb, inherited, false)
	}
}

func homogeneous(blk *fn.Block, align int64) {
	for _, sb := range blk.Subblocks {
		if align == 0 {
			v.Assert(v.Or(sb.Sizes.Aligned == 0, sb.AddrSpace.Start&(sb.Sizes.Aligned-1) == 0), "P06:start-natural-"+sb.Name)
		} else {
			v.Assert(sb.AddrSpace.Start%align == 0, "P06:start-aligned-"+sb.Name)
		}
		homogeneous(sb, align)
	}
}

func maybeArray(b *fn.Block, max int64) {
	switch v.Choice("array", 3) {
	case 0:
	case 1:
		b.IsArray = true
		b.Count = 1
	case 2:
		b.IsArray = true
		b.Count = v.Int("count", 2, max)
	}
}

// RegBlocks: a bus with up to three subblocks of arbitrary size and count, default
// (power of 2) alignment.
func RegBlocks() {
	v.FreeHash()
	maxOwn := int64(100)
	if v.Thorough() {
		maxOwn = 5000
	}
	b := newBus(32)
	n := v.Choice("subblocks", 4)
	b.Streams = sized("Main", 20).Streams
	for i := 0; i < n; i++ {
		sb := sized(nm("b", i), maxOwn)
		if i == 0 {
			maybeArray(sb, 6)
		} else if i == 1 {
			sb.IsArray = true
			sb.Count = 3
		}
		b.Subblocks = append(b.Subblocks, sb)
	}
	if !registerify(b, false) {
		return
	}
	checkSpaces(b, 0, true)
	homogeneous(b, 0)
	v.Observe("aligned", b.Sizes.Aligned)
	for _, sb := range b.Subblocks {
		v.Observe(sb.Name, sb.AddrSpace.Start)
		checkPreservedStream(sb)
	}
	v.Reach("end")
}

func checkPreservedStream(b *fn.Block) {
	for _, s := range b.Streams {
		v.Assert(b.Sizes.Own == s.Returns[0].Access.EndAddr+1, "P06:own-"+b.Name)
		v.Assert(s.Returns[0].Access.StartAddr == 0, "P05:block-local-address")
	}
}

// RegDeep: a chain of three blocks with arrays at the middle level.
func RegDeep() {
	v.FreeHash()
	b := newBus(32)
	b.Streams = sized("Main", 6).Streams
	mid := sized("mid", 40)
	maybeArray(mid, 4)
	leaf := sized("leaf", 40)
	maybeArray(leaf, 3)
	mid.Subblocks = append(mid.Subblocks, leaf)
	switch v.Choice("second", 3) {
	case 1:
		l2 := sized("leaf2", 40)
		mid.Subblocks = append(mid.Subblocks, l2)
	case 2:
		l2 := sized("leaf2", 20)
		leaf.Subblocks = append(leaf.Subblocks, l2)
	}
	b.Subblocks = append(b.Subblocks, mid)
	if !registerify(b, false) {
		return
	}
	checkSpaces(b, 0, true)
	homogeneous(b, 0)
	v.Observe("aligned", b.Sizes.Aligned)
	v.Observe("leaf", leaf.AddrSpace.Start)
	v.Reach("end")
}

// RegAligns: explicit alignment on the bus and on the blocks.
func RegAligns() {
	v.FreeHash()
	b := newBus(32)
	aligns := []int64{0, 1, 2, 4, 16, 128}
	b.Align = aligns[v.Choice("busAlign", len(aligns))]
	b.Streams = sized("Main", 20).Streams
	s1 := sized("b1", 60)
	maybeArray(s1, 4)
	s2 := sized("b2", 60)
	switch v.Choice("blkAlign", 3) {
	case 1:
		s1.Align = 4
	case 2:
		s1.Align = 8
		s2.Align = 2
	}
	b.Subblocks = append(b.Subblocks, s1, s2)
	if !registerify(b, false) {
		return
	}
	checkSpaces(b, b.Align, true)
	if s1.Align == 0 {
		homogeneous(b, b.Align)
	}
	v.Observe("aligned", b.Sizes.Aligned)
	v.Observe("b1", s1.AddrSpace.Start)
	v.Observe("b2", s2.AddrSpace.Start)
	v.Reach("end")
}
