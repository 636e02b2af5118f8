package main

// SMT terms: hash-consed, constant-folded bit-vector / boolean expressions.
// A TermTable belongs to one worker; it is never shared between goroutines.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OSDiv
	OSRem
	OUDiv
	OURem
	OAnd
	OOr
	OXor
	ONotBV
	ONeg
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OExtract // low w bits
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OIte
)

var opName = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OUDiv: "bvudiv", OURem: "bvurem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor",
	ONotBV: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBNot: "not", OBAnd: "and", OBOr: "or", OIte: "ite",
}

// Term with w==0 is boolean.
type Term struct {
	op      Op
	w       uint8
	c       uint64
	a       [3]*Term
	name    string
	id      int32
	lo, hi  int64   // signed interval of the value read as a w-bit two's complement number
	vs      []int32 // inputs the term depends on (varsOf)
	stamp   int32   // evaluation cache stamp
	cache   uint64
	size    int32
	varIdx  int32
	magnLit bool
}

type tkey struct {
	op   Op
	w    uint8
	c    uint64
	a    [3]*Term
	name string
}

type TermTable struct {
	tab   map[tkey]*Term
	n     int32
	vars  []*Term
	stamp int32
	tru   *Term
	fls   *Term
}

func NewTermTable() *TermTable {
	tt := &TermTable{tab: map[tkey]*Term{}}
	tt.tru = tt.mk(tkey{op: OConst, w: 0, c: 1}, 0, 0)
	tt.fls = tt.mk(tkey{op: OConst, w: 0, c: 0}, 0, 0)
	return tt
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func minS(w uint8) int64 {
	if w == 0 {
		return 0
	}
	return -1 << (w - 1)
}
func maxS(w uint8) int64 {
	if w == 0 {
		return 1
	}
	return 1<<(w-1) - 1
}

func (tt *TermTable) mk(k tkey, lo, hi int64) *Term {
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.n++
	t := &Term{op: k.op, w: k.w, c: k.c, a: k.a, name: k.name, id: tt.n, lo: lo, hi: hi}
	t.size = 1
	for _, x := range k.a {
		if x != nil {
			t.size += x.size
			if t.size > 1<<29 {
				t.size = 1 << 29
			}
		}
	}
	tt.tab[k] = t
	return t
}

func (tt *TermTable) Const(v uint64, w uint8) *Term {
	v &= mask(w)
	if w == 0 {
		if v != 0 {
			return tt.tru
		}
		return tt.fls
	}
	s := sext(v, w)
	return tt.mk(tkey{op: OConst, w: w, c: v}, s, s)
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.tru
	}
	return tt.fls
}

// Var returns the variable called name; lo..hi is its (asserted elsewhere) signed range.
func (tt *TermTable) Var(name string, w uint8, lo, hi int64) *Term {
	k := tkey{op: OVar, w: w, name: name, c: uint64(lo)*1000003 ^ uint64(hi)}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := tt.mk(k, lo, hi)
	t.varIdx = int32(len(tt.vars))
	tt.vars = append(tt.vars, t)
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) sval() int64   { return sext(t.c, t.w) }

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}
func subOv(a, b int64) (int64, bool) {
	c := a - b
	return c, (c < a) == (b > 0)
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if hi != 0 || lo > 1<<62 || a == minS(64) || b == minS(64) {
		return 0, false
	}
	r := int64(lo)
	if (a < 0) != (b < 0) {
		r = -r
	}
	return r, true
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func in(w uint8, v int64) bool { return v >= minS(w) && v <= maxS(w) }

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opName[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tt.Const(evalBin(op, w, a.c, b.c), w)
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	lo, hi := minS(w), maxS(w)
	switch op {
	case OAdd:
		if b.isConst() && b.c == 0 {
			return a
		}
		if b.isConst() && a.op == OAdd && a.a[1].isConst() {
			return tt.Bin(OAdd, a.a[0], tt.Const(a.a[1].c+b.c, w))
		}
		l, o1 := addOv(a.lo, b.lo)
		h, o2 := addOv(a.hi, b.hi)
		if o1 && o2 && in(w, l) && in(w, h) {
			lo, hi = l, h
		}
	case OSub:
		if a == b {
			return tt.Const(0, w)
		}
		if b.isConst() {
			return tt.Bin(OAdd, a, tt.Const(-b.c, w))
		}
		if a.op == OAdd {
			if a.a[0] == b {
				return a.a[1]
			}
			if a.a[1] == b {
				return a.a[0]
			}
		}
		l, o1 := subOv(a.lo, b.hi)
		h, o2 := subOv(a.hi, b.lo)
		if o1 && o2 && in(w, l) && in(w, h) {
			lo, hi = l, h
		}
	case OMul:
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
		ok := true
		var mn, mx int64
		for i, p := range [4][2]int64{{a.lo, b.lo}, {a.lo, b.hi}, {a.hi, b.lo}, {a.hi, b.hi}} {
			m, o := mulOv(p[0], p[1])
			if !o {
				ok = false
				break
			}
			if i == 0 || m < mn {
				mn = m
			}
			if i == 0 || m > mx {
				mx = m
			}
		}
		if ok && in(w, mn) && in(w, mx) {
			lo, hi = mn, mx
		}
	case OSDiv:
		if b.isConst() && b.c == 1 {
			return a
		}
		// a division is only made where its divisor is not 0 (intop decides that before), so a
		// lower bound of 0 is a lower bound of 1; elsewhere the value is never looked at
		if bl := max(b.lo, 1); b.lo >= 0 && b.hi > 0 {
			ql := []int64{a.lo / bl, a.lo / b.hi, a.hi / bl, a.hi / b.hi}
			lo, hi = ql[0], ql[0]
			for _, q := range ql {
				if q < lo {
					lo = q
				}
				if q > hi {
					hi = q
				}
			}
			if lo == 0 && hi == 0 {
				return tt.Const(0, w)
			}
		}
	case OSRem:
		if b.isConst() && b.c == 1 {
			return tt.Const(0, w)
		}
		if b.lo >= 0 && b.hi > 0 {
			if a.lo >= 0 {
				if a.hi < b.lo {
					return a
				}
				lo = 0
				hi = b.hi - 1
				if a.hi < hi {
					hi = a.hi
				}
			} else {
				lo, hi = -(b.hi - 1), b.hi-1
			}
		}
	case OUDiv:
		if b.isConst() && b.c == 1 {
			return a
		}
		if a.lo >= 0 && b.lo > 0 {
			lo, hi = a.lo/b.hi, a.hi/b.lo
		}
	case OURem:
		if a.lo >= 0 && b.lo > 0 {
			if a.hi < b.lo {
				return a
			}
			lo, hi = 0, b.hi-1
		}
	case OAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
			// low mask: extract+zext keeps it simple
			if b.c&(b.c+1) == 0 && b.sval() >= 0 {
				k := uint8(bits.Len64(b.c))
				if a.lo >= 0 && uint64(a.hi) <= b.c {
					return a
				}
				return tt.ZExt(tt.Extract(a, k), w)
			}
		}
		if a.lo >= 0 || b.lo >= 0 {
			lo = 0
			if a.lo >= 0 && b.lo >= 0 {
				hi = min(a.hi, b.hi)
			} else if a.lo >= 0 {
				hi = a.hi
			} else {
				hi = b.hi
			}
		}
	case OOr, OXor:
		if a == b {
			if op == OXor {
				return tt.Const(0, w)
			}
			return a
		}
		if b.isConst() && b.c == 0 {
			return a
		}
		if a.lo >= 0 && b.lo >= 0 {
			lo = 0
			m := uint64(a.hi) | uint64(b.hi)
			k := bits.Len64(m)
			if k < 63 {
				hi = int64(1)<<k - 1
			}
			if hi > maxS(w) {
				hi = maxS(w)
			}
		}
	case OShl:
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if b.c >= uint64(w) {
				return tt.Const(0, w)
			}
			if a.lo >= 0 && bits.Len64(uint64(a.hi))+int(b.c) < int(w) {
				lo, hi = a.lo<<b.c, a.hi<<b.c
			}
		} else if a.lo >= 0 && b.lo >= 0 && b.hi < 64 && bits.Len64(uint64(a.hi))+int(b.hi) < int(w) {
			lo, hi = a.lo<<uint(b.lo), a.hi<<uint(b.hi)
		}
	case OLShr:
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if b.c >= uint64(w) {
				return tt.Const(0, w)
			}
			if a.lo >= 0 {
				lo, hi = a.lo>>b.c, a.hi>>b.c
			} else {
				lo, hi = 0, int64(mask(w)>>b.c)
			}
		} else if a.lo >= 0 {
			lo, hi = 0, a.hi
		}
	case OAShr:
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			s := b.c
			if s > 63 {
				s = 63
			}
			lo, hi = a.lo>>s, a.hi>>s
		} else if a.lo >= 0 {
			lo, hi = 0, a.hi
		}
	}
	return tt.mk(tkey{op: op, w: w, a: [3]*Term{a, b}}, lo, hi)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		s := y
		if s > 63 {
			s = 63
		}
		return uint64(sext(x, w)>>s) & m
	}
	panic("evalBin")
}

func (tt *TermTable) NotBV(a *Term) *Term {
	if a.isConst() {
		return tt.Const(^a.c, a.w)
	}
	return tt.mk(tkey{op: ONotBV, w: a.w, a: [3]*Term{a}}, ^a.hi, ^a.lo)
}

func (tt *TermTable) Neg(a *Term) *Term {
	if a.isConst() {
		return tt.Const(-a.c, a.w)
	}
	if a.op == ONeg {
		return a.a[0]
	}
	lo, hi := minS(a.w), maxS(a.w)
	if a.lo > minS(a.w) {
		lo, hi = -a.hi, -a.lo
	}
	return tt.mk(tkey{op: ONeg, w: a.w, a: [3]*Term{a}}, lo, hi)
}

func (tt *TermTable) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(a.c, w)
	}
	if a.op == OZExt {
		return tt.ZExt(a.a[0], w)
	}
	if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
		return tt.Ite(a.a[0], tt.ZExt(a.a[1], w), tt.ZExt(a.a[2], w))
	}
	lo, hi := int64(0), int64(mask(a.w))
	if a.lo >= 0 {
		lo, hi = a.lo, a.hi
	}
	return tt.mk(tkey{op: OZExt, w: w, a: [3]*Term{a}}, lo, hi)
}

func (tt *TermTable) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(uint64(a.sval()), w)
	}
	if a.lo >= 0 {
		return tt.ZExt(a, w)
	}
	return tt.mk(tkey{op: OSExt, w: w, a: [3]*Term{a}}, a.lo, a.hi)
}

// Extract returns the low w bits.
func (tt *TermTable) Extract(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(a.c, w)
	}
	if a.op == OZExt || a.op == OSExt {
		in := a.a[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return tt.Extract(in, w)
		}
		if a.op == OZExt {
			return tt.ZExt(in, w)
		}
		return tt.SExt(in, w)
	}
	if a.op == OExtract {
		return tt.Extract(a.a[0], w)
	}
	if a.op == OIte && (a.a[1].isConst() || a.a[2].isConst()) && a.size < 2000 {
		return tt.Ite(a.a[0], tt.Extract(a.a[1], w), tt.Extract(a.a[2], w))
	}
	lo, hi := minS(w), maxS(w)
	if in64(w, a.lo, a.hi) {
		lo, hi = a.lo, a.hi
	}
	return tt.mk(tkey{op: OExtract, w: w, a: [3]*Term{a}}, lo, hi)
}

func in64(w uint8, lo, hi int64) bool { return in(w, lo) && in(w, hi) }

func (tt *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.c == 0)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return tt.mk(tkey{op: OBNot, a: [3]*Term{a}}, 0, 1)
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OBNot && a.a[0] == b || b.op == OBNot && b.a[0] == a {
		return tt.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(tkey{op: OBAnd, a: [3]*Term{a, b}}, 0, 1)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.c != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OBNot && a.a[0] == b || b.op == OBNot && b.a[0] == a {
		return tt.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(tkey{op: OBOr, a: [3]*Term{a, b}}, 0, 1)
}

// mulCheck rewrites x*y/y == x (64 bits, signed): for y other than 0 and -1 it holds
// exactly when the product does not overflow, since a wrapped product is off by a
// multiple of 2^64 and |y| <= 2^63. For y == -1 it always holds, for y == 0 the
// quotient of the SMT theory is -1.
func (tt *TermTable) mulCheck(q, x *Term) *Term {
	if q.op != OSDiv || q.w != 64 || q.a[0].op != OMul {
		return nil
	}
	m, y := q.a[0], q.a[1]
	if !(m.a[0] == x && m.a[1] == y || m.a[0] == y && m.a[1] == x) {
		return nil
	}
	zero := tt.Or(tt.Not(tt.Eq(y, tt.Const(0, 64))), tt.Eq(x, tt.Const(^uint64(0), 64)))
	rng := func(c int64, v *Term) *Term {
		lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
		switch {
		case c > 0:
			lo, hi = lo/c, hi/c
		case c == -1:
			lo = -hi
		default:
			lo, hi = hi/c, lo/c
		}
		return tt.And(tt.Cmp(OSle, tt.Const(uint64(lo), 64), v), tt.Cmp(OSle, v, tt.Const(uint64(hi), 64)))
	}
	switch {
	case y.isConst():
		c := y.sval()
		if c == 0 || c == math.MinInt64 {
			return nil
		}
		if c == -1 {
			return tt.tru
		}
		return rng(c, x)
	case x.isConst():
		c := x.sval()
		if c == 0 || c == math.MinInt64 {
			return nil
		}
		return tt.And(rng(c, y), zero)
	}
	for _, a := range []int64{x.lo, x.hi} {
		for _, b := range []int64{y.lo, y.hi} {
			if _, ok := mulOv(a, b); !ok {
				return nil
			}
		}
	}
	return zero
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.tru
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.c != 0 {
				return a
			}
			return tt.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tt.mk(tkey{op: OEq, a: [3]*Term{a, b}}, 0, 1)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return tt.fls
	}
	if r := tt.mulCheck(a, b); r != nil {
		return r
	}
	if r := tt.mulCheck(b, a); r != nil {
		return r
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			in := a.a[0]
			if b.c > mask(in.w) {
				return tt.fls
			}
			return tt.Eq(in, tt.Const(b.c, in.w))
		case OIte:
			x, y := a.a[1], a.a[2]
			if x.isConst() || y.isConst() {
				return tt.IteB(a.a[0], tt.Eq(x, b), tt.Eq(y, b))
			}
		case OAdd:
			if a.a[1].isConst() {
				return tt.Eq(a.a[0], tt.Const(b.c-a.a[1].c, a.w))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
			return tt.Eq(a.a[0], b.a[0])
		}
		if a.op == OAdd && b.op == OAdd && a.a[1].isConst() && b.a[1].isConst() && a.a[0] == b.a[0] {
			return tt.Bool(a.a[1].c == b.a[1].c)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(tkey{op: OEq, a: [3]*Term{a, b}}, 0, 1)
}

func (tt *TermTable) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Bool(evalCmp(op, a.w, a.c, b.c))
	}
	if a == b {
		return tt.Bool(op == OUle || op == OSle)
	}
	unsignedSameAsSigned := (a.lo >= 0 && b.lo >= 0)
	if op == OUlt && unsignedSameAsSigned {
		op = OSlt
	}
	if op == OUle && unsignedSameAsSigned {
		op = OSle
	}
	switch op {
	case OSlt:
		if a.hi < b.lo {
			return tt.tru
		}
		if a.lo >= b.hi {
			return tt.fls
		}
	case OSle:
		if a.hi <= b.lo {
			return tt.tru
		}
		if a.lo > b.hi {
			return tt.fls
		}
	}
	// narrow comparisons of zero-extended operands
	if a.op == OZExt && b.isConst() && b.c <= mask(a.a[0].w) && b.sval() >= 0 {
		in := a.a[0]
		o := OUlt
		if op == OSle || op == OUle {
			o = OUle
		}
		return tt.Cmp2(o, in, tt.Const(b.c, in.w))
	}
	if b.op == OZExt && a.isConst() && a.c <= mask(b.a[0].w) && a.sval() >= 0 {
		in := b.a[0]
		o := OUlt
		if op == OSle || op == OUle {
			o = OUle
		}
		return tt.Cmp2(o, tt.Const(a.c, in.w), in)
	}
	return tt.Cmp2(op, a, b)
}

// Cmp2 normalises <= with constants and strictness: a<=b is not(b<a).
func (tt *TermTable) Cmp2(op Op, a, b *Term) *Term {
	switch op {
	case OSle:
		return tt.Not(tt.Cmp2(OSlt, b, a))
	case OUle:
		return tt.Not(tt.Cmp2(OUlt, b, a))
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(evalCmp(op, a.w, a.c, b.c))
	}
	return tt.mk(tkey{op: op, a: [3]*Term{a, b}}, 0, 1)
}

func evalCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext(x, w) < sext(y, w)
	case OSle:
		return sext(x, w) <= sext(y, w)
	case OEq:
		return x == y
	}
	panic("evalCmp")
}

func (tt *TermTable) IteB(c, a, b *Term) *Term {
	if c.isConst() {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.isConst() {
		if a.c != 0 {
			return tt.Or(c, b)
		}
		return tt.And(tt.Not(c), b)
	}
	if b.isConst() {
		if b.c != 0 {
			return tt.Or(tt.Not(c), a)
		}
		return tt.And(c, a)
	}
	return tt.mk(tkey{op: OIte, a: [3]*Term{c, a, b}}, 0, 1)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if a.w == 0 {
		return tt.IteB(c, a, b)
	}
	if c.isConst() {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		c, a, b = c.a[0], b, a
	}
	return tt.mk(tkey{op: OIte, w: a.w, a: [3]*Term{c, a, b}}, min(a.lo, b.lo), max(a.hi, b.hi))
}

// ---- evaluation under a model ----

type Model []uint64 // indexed by varIdx; missing entries are the variable's lo

func (tt *TermTable) NewEval() { tt.stamp++ }

func (tt *TermTable) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.c
	}
	if t.stamp == tt.stamp {
		return t.cache
	}
	var r uint64
	switch t.op {
	case OVar:
		if int(t.varIdx) < len(m) {
			r = m[t.varIdx]
		} else {
			r = uint64(t.lo) & mask1(t.w)
		}
	case ONotBV:
		r = ^tt.Eval(t.a[0], m) & mask(t.w)
	case ONeg:
		r = -tt.Eval(t.a[0], m) & mask(t.w)
	case OZExt:
		r = tt.Eval(t.a[0], m)
	case OSExt:
		r = uint64(sext(tt.Eval(t.a[0], m), t.a[0].w)) & mask(t.w)
	case OExtract:
		r = tt.Eval(t.a[0], m) & mask(t.w)
	case OEq, OUlt, OUle, OSlt, OSle:
		if evalCmp(t.op, t.a[0].w, tt.Eval(t.a[0], m), tt.Eval(t.a[1], m)) {
			r = 1
		}
	case OBNot:
		r = 1 - tt.Eval(t.a[0], m)
	case OBAnd:
		r = tt.Eval(t.a[0], m) & tt.Eval(t.a[1], m)
	case OBOr:
		r = tt.Eval(t.a[0], m) | tt.Eval(t.a[1], m)
	case OIte:
		if tt.Eval(t.a[0], m) != 0 {
			r = tt.Eval(t.a[1], m)
		} else {
			r = tt.Eval(t.a[2], m)
		}
	default:
		r = evalBin(t.op, t.w, tt.Eval(t.a[0], m), tt.Eval(t.a[1], m))
	}
	t.stamp = tt.stamp
	t.cache = r
	return r
}

func mask1(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- SMT-LIB output ----

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constText(c uint64, w uint8) string {
	if w == 0 {
		if c != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), c)
	}
	return fmt.Sprintf("#b%0*b", int(w), c)
}

func (t *Term) ref() string {
	if t.op == OConst {
		return constText(t.c, t.w)
	}
	if t.op == OVar {
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

// nw is the number of bits that hold every value of the term's interval; terms
// are sent to the solver in that width and read as sign-extended.
func (t *Term) nw() uint8 {
	if t.w == 0 {
		return 0
	}
	k := uint8(1)
	if t.hi > 0 {
		k = uint8(bits.Len64(uint64(t.hi))) + 1
	}
	if t.lo < 0 {
		k = max(k, uint8(bits.Len64(uint64(^t.lo)))+1)
	}
	return min(k, t.w)
}

// at refers to t in exactly k bits (sign-extended or truncated).
func (t *Term) at(k uint8) string {
	if t.w == 0 {
		return t.ref()
	}
	if t.op == OConst {
		return constText(uint64(sx(t.c, t.w))&mask(k), k)
	}
	n := t.nw()
	switch {
	case k > n:
		return fmt.Sprintf("((_ sign_extend %d) %s)", k-n, t.ref())
	case k < n:
		return fmt.Sprintf("((_ extract %d 0) %s)", k-1, t.ref())
	}
	return t.ref()
}

func sx(c uint64, w uint8) int64 { return int64(c<<(64-w)) >> (64 - w) }

// body renders the defining expression of t (arguments by reference), in nw() bits.
func (t *Term) body() string {
	k := t.nw()
	bin := func(w uint8, op Op) string {
		return fmt.Sprintf("(%s %s %s)", opName[op], t.a[0].at(w), t.a[1].at(w))
	}
	cut := func(w uint8, e string) string {
		switch {
		case w > k:
			return fmt.Sprintf("((_ extract %d 0) %s)", k-1, e)
		case w < k:
			return fmt.Sprintf("((_ sign_extend %d) %s)", k-w, e)
		}
		return e
	}
	switch t.op {
	case OBNot:
		return fmt.Sprintf("(not %s)", t.a[0].ref())
	case OBAnd, OBOr:
		return fmt.Sprintf("(%s %s %s)", opName[t.op], t.a[0].ref(), t.a[1].ref())
	case OEq, OUlt, OUle, OSlt, OSle:
		return bin(max(t.a[0].nw(), t.a[1].nw()), t.op)
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", t.a[0].ref(), t.a[1].at(k), t.a[2].at(k))
	case OAdd, OSub, OMul, OAnd, OOr, OXor:
		return bin(k, t.op)
	case ONotBV, ONeg:
		return fmt.Sprintf("(%s %s)", opName[t.op], t.a[0].at(k))
	case OSExt, OExtract:
		return t.a[0].at(k)
	case OZExt:
		a := t.a[0]
		if a.lo >= 0 {
			return a.at(k)
		}
		return cut(t.w, fmt.Sprintf("((_ zero_extend %d) %s)", t.w-a.w, a.at(a.w)))
	}
	a, b := t.a[0], t.a[1]
	switch t.op {
	case OShl:
		w := t.w
		if b.lo >= 0 {
			w = min(w, max(k, b.nw()))
		}
		return cut(w, bin(w, OShl))
	case OLShr:
		w := t.w
		if a.lo >= 0 && b.lo >= 0 {
			w = min(w, max(a.nw(), b.nw()))
		}
		return cut(w, bin(w, OLShr))
	case OAShr:
		w := t.w
		if b.lo >= 0 {
			w = min(w, max(a.nw(), b.nw()))
		}
		return cut(w, bin(w, OAShr))
	case OSDiv, OSRem, OUDiv, OURem:
		if a.lo >= 0 && b.lo >= 0 {
			// same result, cheaper circuit
			w := max(a.nw(), b.nw())
			op := OUDiv
			if t.op == OSRem || t.op == OURem {
				op = OURem
			}
			if b.lo == 0 && (t.op == OSDiv || t.op == OSRem) {
				op = t.op
			}
			return cut(w, bin(w, op))
		}
		w := t.w
		if c := b.c; b.op == OConst && c&(c-1) == 0 && c > 1 && sx(c, b.w) > 0 && (t.op == OSDiv || t.op == OSRem) {
			// by a power of two: shift
			j := uint8(bits.Len64(c) - 1)
			w := max(a.nw(), j+2)
			if w <= t.w {
				x := a.at(w)
				neg := fmt.Sprintf("(bvslt %s %s)", x, constText(0, w))
				q := fmt.Sprintf("(bvashr (bvadd %s (ite %s %s %s)) %s)", a.at(w+1), neg, constText(c-1, w+1), constText(0, w+1), constText(uint64(j), w+1))
				if t.op == OSDiv {
					return cut(w+1, q)
				}
				return cut(w+1, fmt.Sprintf("(bvsub %s (bvshl %s %s))", a.at(w+1), q, constText(uint64(j), w+1)))
			}
		}
		if t.op == OSDiv || t.op == OSRem {
			w = min(w, max(a.nw(), b.nw())+1)
		}
		return cut(w, bin(w, t.op))
	}
	panic("body: operator")
}

// String is for diagnostics only.
func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}
func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			sb.WriteString(constText(t.c, 0))
		} else {
			fmt.Fprintf(sb, "%d", t.sval())
		}
	case OVar:
		sb.WriteString(t.name)
	default:
		if d == 0 {
			sb.WriteString("…")
			return
		}
		n := opName[t.op]
		switch t.op {
		case OZExt:
			n = "zext"
		case OSExt:
			n = "sext"
		case OExtract:
			n = fmt.Sprintf("low%d", t.w)
		}
		sb.WriteString("(" + n)
		for _, x := range t.a {
			if x != nil {
				sb.WriteString(" ")
				x.str(sb, d-1)
			}
		}
		sb.WriteString(")")
	}
}

// varsOf lists the inputs t depends on.
func (tt *TermTable) varsOf(t *Term) []int32 {
	if t.op == OConst {
		return nil
	}
	if t.vs != nil {
		return t.vs
	}
	if t.op == OVar {
		t.vs = []int32{t.varIdx}
		return t.vs
	}
	var r []int32
	n := 0
	for _, x := range t.a {
		if x == nil {
			continue
		}
		v := tt.varsOf(x)
		if len(v) == 0 {
			continue
		}
		if n == 0 {
			r = v
		} else {
			r = union32(r, v)
		}
		n++
	}
	t.vs = r
	return r
}

// union32 merges sorted lists; a is returned unchanged when it contains b.
func union32(a, b []int32) []int32 {
	i, j := 0, 0
	sub := true
	for j < len(b) {
		if i < len(a) && a[i] < b[j] {
			i++
		} else if i < len(a) && a[i] == b[j] {
			i++
			j++
		} else {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}
