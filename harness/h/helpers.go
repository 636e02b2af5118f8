package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

func init() {
	reg_("BitExtend", BitExtend)
	reg_("BitValue", BitValue)
	reg_("RangeBits", RangeBits)
	reg_("Buffers", Buffers)
	reg_("ReadOnly", ReadOnly)
}

// bitOf is bit j (counted from the most significant of k) of a digit: '0', '1' or the
// meta value itself.
func bitOf(c byte, k, j int64) int64 {
	d := digit(c)
	return v.Ite(d >= 0, '0'+(d>>uint(k-1-j))&1, int64(c))
}

// bitString is any bit string of n digits, meta values included if meta.
func bitString(n int, meta bool) (types.BitStr, string, int64) {
	i := v.Choice("base", 3)
	s := v.Str("s", n)
	max := []byte{'1', '7', 'f'}[i]
	v.Assume(allOf(s, func(c byte) bool {
		ok := within('0', int64(c), int64(max))
		if max == 'f' {
			ok = anyOf(within('0', int64(c), '9'), within('a', int64(c), 'f'), within('A', int64(c), 'F'))
		}
		if meta {
			for _, m := range "-hHlLuUwWxXzZ" {
				ok = v.Or(ok, int64(c) == int64(m))
			}
		}
		return ok
	}))
	return types.BitStr([]string{"b", "o", "x"}[i] + "\"" + s + "\""), s, []int64{1, 3, 4}[i]
}

// BitExtend: the binary form and the extension of a bit string keep every bit.
func BitExtend() {
	n := 1 + v.Choice("digits", 3)
	if v.Thorough() {
		n = 1 + v.Choice("digits", 9)
	}
	bs, s, k := bitString(n, true)
	w := int64(n) * k
	v.Assert(bs.BitWidth() == w && bs.CharWidth() == int64(n), "P27:width")
	v.Assert(v.StrEq(bs.ValueLiteral(), s), "P27:literal")
	same := func(b types.BitStr, to int64) bool {
		t := string(b)
		q := []int64{1, 3, 4}[0]
		switch t[0] {
		case 'o':
			q = 3
		case 'x':
			q = 4
		case 'b':
		default:
			return false
		}
		if int64(len(t)-3)*q != to || t[1] != '"' || t[len(t)-1] != '"' {
			return false
		}
		r := true
		for j := int64(0); j < to; j++ {
			got := bitOf(t[2+j/q], q, j%q)
			want := int64('0')
			if o := j - (to - w); o >= 0 {
				want = bitOf(s[o/k], k, o%k)
			}
			r = v.And(r, got == want)
		}
		return r
	}
	var r types.BitStr
	c := v.Try(func() { r = bs.ToBin() })
	v.Assert(c == 0, "P27:crash")
	if c == 0 {
		v.Assert(r.IsBin() && same(r, w), "P27:binary")
	}
	to := int64(v.Choice("to", int(w)+10))
	c = v.Try(func() { r = bs.Extend(to) })
	v.Assert((c == 0) == (to >= w) && c < 2, "P27:narrower")
	if c == 0 {
		v.Assert(same(r, to), "P27:extend")
		v.Assert(r.BitWidth() == to, "P27:extended")
	}
	v.Reach("end")
}

// BitValue: the value of a bit string is exact, or there is none.
func BitValue() {
	ns := []int{1, 2, 3, 16, 17}
	if v.Thorough() {
		ns = []int{1, 2, 3, 4, 8, 16, 17, 21, 22, 63, 64, 65}
	}
	n := ns[v.Choice("digits", len(ns))]
	bs, s, k := bitString(n, n < 4)
	if n > 3 && bs[0] == 'x' { // digits and letters at given places
		m := v.Choice("letters", 4)
		ok := true
		for i := 0; i < n; i++ {
			c := int64(s[i])
			switch {
			case m == 0 || m == 2 && i%2 == 0 || m == 3 && i%2 == 1:
				ok = v.And(ok, c <= '9')
			case m == 1 || m == 2:
				ok = v.And(ok, c >= 'a')
			default:
				ok = v.And(ok, within('A', c, 'F'))
			}
		}
		v.Assume(ok)
	}
	fits, x := true, uint64(0)
	for i := 0; i < n; i++ {
		d := digit(s[i])
		fits = v.And(fits, d >= 0)
		if hi := int64(n-1-i) * k; hi >= 64 {
			fits = v.And(fits, d == 0)
		} else {
			if hi+k > 64 {
				fits = v.And(fits, d>>uint(64-hi) == 0)
			}
			x += uint64(d) << uint(hi)
		}
	}
	var got uint64
	c := v.Try(func() { got = bs.Uint64() })
	v.Assert(c < 2, "P27:crash")
	v.Assert(v.Iff(c == 0, fits), "P27:fits")
	if c == 0 {
		v.Assert(int64(got) == int64(x), "P27:value")
	}
	v.Reach("end")
}

// RangeBits: the width of a range is the least one which represents all its values.
func RangeBits() {
	n := 1 + v.Choice("n", 3)
	var ar types.ArrayRange
	max := int64(0)
	least := func(w, x int64) bool {
		return all(w >= 1, w <= 63, v.Or(w == 63, x>>uint(w) == 0), v.Or(w == 1, x>>uint(w-1) != 0))
	}
	for i := 0; i < n; i++ {
		a := v.Int("a", 0, 1<<62)
		b := v.Int("b", 0, 1<<62)
		v.Assume(a <= b)
		sr := types.SingleRange{Start: a, End: b}
		v.Assert(least(sr.BitWidth(), b), "P27:range")
		d := v.Int("d", -1000, 1<<61)
		sh := sr.Shift(d)
		v.Assert(all(sh.Start == a+d, sh.End == b+d, sr.Start == a, sr.End == b), "P27:shift")
		ar = append(ar, sr)
		max = v.Ite(b > max, b, max)
	}
	v.Assert(least(ar.BitWidth(), max), "P27:ranges")
	v.Assert(!ar.IsEmpty() && types.ArrayRange{}.IsEmpty(), "P27:empty")
	v.Reach("end")
}

// span is the first and last address of some accesses.
func span(as []types.Access) (lo, hi int64) {
	lo, hi = as[0].StartAddr, as[0].EndAddr
	for _, a := range as {
		lo = v.Ite(a.StartAddr < lo, a.StartAddr, lo)
		hi = v.Ite(a.EndAddr > hi, a.EndAddr, hi)
	}
	return
}

// Buffers: the functions for generators cover exactly the registers of the members.
func Buffers() {
	v.FreeHash()
	bw := widthOf([]int64{32}, []int64{8, 16, 32, 64})
	b := newBus(bw)
	b.Configs = append(b.Configs, &fn.Config{Func: fun("c"), Width: v.Int("before", 1, bw), Atomic: true})
	var pa, ra []types.Access
	params, returns := []*fn.Param{}, []*fn.Return{}
	kind := v.Choice("kind", 3)
	if kind < 2 {
		for _, x := range choiceLists(bw, "param", 2) {
			q := x
			params = append(params, &q)
		}
	}
	if kind == 0 || kind == 2 {
		max := 2
		if kind == 0 && !v.Thorough() {
			max = 1
		}
		for _, x := range choiceLists(bw, "return", max) {
			returns = append(returns, &fn.Return{Func: x.Func, Width: x.Width})
		}
	}
	p := &fn.Proc{Func: fun("p"), Params: params, Returns: returns}
	s := &fn.Stream{Func: fun("p"), Params: params, Returns: returns}
	blk := &fn.Block{Func: fun("b"), Width: bw, Align: 1}
	blk.Statuses = append(blk.Statuses, &fn.Status{Func: fun("s"), Width: 1, Atomic: true})
	if kind == 0 {
		blk.Procs = append(blk.Procs, p)
	} else {
		blk.Streams = append(blk.Streams, s)
	}
	b.Subblocks = append(b.Subblocks, blk)
	if !registerify(b, false) {
		return
	}
	for _, x := range params {
		pa = append(pa, x.Access)
		v.Assert(v.And(x.Access.AddrRange().Start == x.Access.StartAddr, x.Access.AddrRange().End == x.Access.EndAddr), "P29:range")
	}
	for _, x := range returns {
		ra = append(ra, x.Access)
	}
	v.Assert(blk.StartAddr() == blk.AddrSpace.Start, "P29:block")
	np, nr := len(pa), len(ra)
	if kind == 0 {
		v.Assert(p.IsEmpty() == (np == 0 && nr == 0) && p.IsParam() == (np > 0 && nr == 0) && p.IsReturn() == (np == 0 && nr > 0), "P29:proc")
		var a int64
		c := v.Try(func() { a = p.ParamsStartAddr() })
		v.Assert((c == 0) == (np > 0), "P29:params")
		if np > 0 {
			lo, hi := span(pa)
			v.Assert(v.And(a == lo, p.ParamsBufSize() == hi-lo+1), "P29:params")
		} else {
			v.Assert(p.ParamsBufSize() == 0, "P29:params")
		}
		c = v.Try(func() { a = p.ReturnsStartAddr() })
		v.Assert((c == 0) == (nr > 0), "P29:returns")
		if nr > 0 {
			lo, hi := span(ra)
			v.Assert(v.And(a == lo, p.ReturnsBufSize() == hi-lo+1), "P29:returns")
		} else {
			v.Assert(p.ReturnsBufSize() == 0, "P29:returns")
		}
	} else {
		v.Assert(s.IsDownstream() == (nr == 0) && s.IsUpstream() == (nr > 0), "P29:stream")
		if np+nr == 0 {
			v.Assert(s.StartAddr() == s.StbAddr, "P29:start")
		} else {
			lo, _ := span(append(pa, ra...))
			v.Assert(s.StartAddr() == lo, "P29:start")
		}
	}
	v.Reach("end")
}

// ReadOnly: a group is read-only when writing to none of its members has an effect.
func ReadOnly() {
	g := fn.Group{}
	n := 1 + v.Choice("n", 3)
	ro := true
	for i := 0; i < n; i++ {
		switch v.Choice("kind", 7) {
		case 0:
			g.Configs = append(g.Configs, &fn.Config{})
			ro = false
		case 1:
			g.Masks = append(g.Masks, &fn.Mask{})
			ro = false
		case 2:
			g.Params = append(g.Params, &fn.Param{})
			ro = false
		case 3:
			g.Statics = append(g.Statics, &fn.Static{})
		case 4:
			g.Statuses = append(g.Statuses, &fn.Status{})
		case 5:
			g.Returns = append(g.Returns, &fn.Return{})
		case 6:
			q := &fn.Irq{AddEnable: v.Choice("enable", 2) == 1, Clear: []string{"Explicit", "On Read"}[v.Choice("clear", 2)]}
			g.Irqs = append(g.Irqs, q)
			if q.AddEnable || q.Clear == "Explicit" {
				ro = false
			}
		}
	}
	v.Assert(g.IsReadOnly() == ro, "P29:readonly")
	v.Reach("end")
}
