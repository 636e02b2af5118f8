package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func (w *W) binop(op token.Token, k, ky kinfo, t types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return w.equal(t, x, y)
	case token.NEQ:
		return w.not(w.equal(t, x, y))
	}
	switch k.cls {
	case kInt:
		return w.intop(op, k, ky, x, y)
	case kString:
		switch op {
		case token.ADD:
			return w.concat(x, y)
		case token.LSS:
			return w.strLess(x, y)
		case token.GTR:
			return w.strLess(y, x)
		case token.LEQ:
			return w.not(w.strLess(y, x))
		case token.GEQ:
			return w.not(w.strLess(x, y))
		}
	case kFloat:
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return w.fcmp(op, x, y)
		}
		r := w.fbin(op, x, y)
		if k.w == 32 {
			return w.fe32(r)
		}
		return r
	case kBool:
		a, b := w.term(x, 0), w.term(y, 0)
		switch op {
		case token.AND, token.LAND:
			return val(w.tt.And(a, b))
		case token.OR, token.LOR:
			return val(w.tt.Or(a, b))
		}
	}
	w.unsup("binop %s on %s", op, t)
	return nil
}

func (w *W) intop(op token.Token, k, ky kinfo, x, y value) value {
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	if ok1 && ok2 {
		m := mask(k.w)
		switch op {
		case token.ADD:
			return (a + b) & m
		case token.SUB:
			return (a - b) & m
		case token.MUL:
			return (a * b) & m
		case token.QUO, token.REM:
			if b == 0 {
				w.rtPanic("integer divide by zero")
			}
			if k.signed {
				sa, sb := sext(a, k.w), sext(b, k.w)
				if sb == -1 {
					if op == token.QUO {
						return uint64(-sa) & m
					}
					return uint64(0)
				}
				if op == token.QUO {
					return uint64(sa/sb) & m
				}
				return uint64(sa%sb) & m
			}
			if op == token.QUO {
				return a / b
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.SHL, token.SHR:
			if ky.signed && sext(b, ky.w) < 0 {
				w.rtPanic("negative shift amount")
			}
			if op == token.SHL {
				if b >= 64 {
					return uint64(0)
				}
				return (a << b) & m
			}
			if k.signed {
				if b > 63 {
					b = 63
				}
				return uint64(sext(a, k.w)>>b) & m
			}
			if b >= 64 {
				return uint64(0)
			}
			return a >> b
		case token.LSS:
			if k.signed {
				return sext(a, k.w) < sext(b, k.w)
			}
			return a < b
		case token.LEQ:
			if k.signed {
				return sext(a, k.w) <= sext(b, k.w)
			}
			return a <= b
		case token.GTR:
			if k.signed {
				return sext(a, k.w) > sext(b, k.w)
			}
			return a > b
		case token.GEQ:
			if k.signed {
				return sext(a, k.w) >= sext(b, k.w)
			}
			return a >= b
		}
		w.unsup("intop %s", op)
	}
	tt := w.tt
	p := w.term(x, k.w)
	var q *Term
	if op == token.SHL || op == token.SHR {
		q = w.term(y, ky.w)
		if ky.signed {
			if w.decide(tt.Cmp(OSlt, q, tt.Const(0, ky.w))) {
				w.rtPanic("negative shift amount")
			}
		}
		// bring the count to the operand width
		wd := k.w
		if q.w > wd {
			wd = q.w
		}
		qq := tt.ZExt(q, wd)
		small := tt.Cmp(OUlt, qq, tt.Const(uint64(k.w), wd))
		if k.w == 8 && wd == 8 {
			small = tt.Cmp(OUlt, qq, tt.Const(8, 8))
		}
		qx := tt.Extract(qq, k.w)
		if p.isConst() && q.op == OIte && iteTable(q, 70) {
			// a table of shift counts becomes a table of shifted values
			return val(tt.mapTable(q, func(c uint64) *Term {
				switch {
				case op == token.SHL && c >= uint64(k.w):
					return tt.Const(0, k.w)
				case op == token.SHL:
					return tt.Const(p.c<<c, k.w)
				case k.signed:
					if c > uint64(k.w)-1 {
						c = uint64(k.w) - 1
					}
					return tt.Bin(OAShr, p, tt.Const(c, k.w))
				case c >= uint64(k.w):
					return tt.Const(0, k.w)
				}
				return tt.Bin(OLShr, p, tt.Const(c, k.w))
			}))
		}
		var r, big *Term
		if op == token.SHL {
			r, big = tt.Bin(OShl, p, qx), tt.Const(0, k.w)
		} else if k.signed {
			r, big = tt.Bin(OAShr, p, qx), tt.Bin(OAShr, p, tt.Const(uint64(k.w)-1, k.w))
		} else {
			r, big = tt.Bin(OLShr, p, qx), tt.Const(0, k.w)
		}
		return val(tt.Ite(small, r, big))
	}
	q = w.term(y, k.w)
	switch op {
	case token.ADD:
		return val(tt.Bin(OAdd, p, q))
	case token.SUB:
		return val(tt.Bin(OSub, p, q))
	case token.MUL:
		return val(tt.Bin(OMul, p, q))
	case token.QUO, token.REM:
		z := tt.Eq(q, tt.Const(0, k.w))
		if w.decide(z) {
			w.rtPanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case k.signed && op == token.QUO:
			o = OSDiv
		case k.signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return val(tt.Bin(o, p, q))
	case token.AND:
		return val(tt.Bin(OAnd, p, q))
	case token.OR:
		return val(tt.Bin(OOr, p, q))
	case token.XOR:
		return val(tt.Bin(OXor, p, q))
	case token.AND_NOT:
		return val(tt.Bin(OAnd, p, tt.NotBV(q)))
	}
	lt, le := OUlt, OUle
	if k.signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.LSS:
		return val(tt.Cmp(lt, p, q))
	case token.LEQ:
		return val(tt.Cmp(le, p, q))
	case token.GTR:
		return val(tt.Cmp(lt, q, p))
	case token.GEQ:
		return val(tt.Cmp(le, q, p))
	}
	w.unsup("intop %s", op)
	return nil
}

func (w *W) convert(from, to types.Type, kf, kt kinfo, x value) value {
	switch {
	case kf.cls == kInt && kt.cls == kInt:
		switch x := x.(type) {
		case uint64:
			if kf.signed {
				return uint64(sext(x, kf.w)) & mask(kt.w)
			}
			return x & mask(kt.w)
		case *Term:
			if kt.w <= kf.w {
				return val(w.tt.Extract(x, kt.w))
			}
			if kf.signed {
				return val(w.tt.SExt(x, kt.w))
			}
			return val(w.tt.ZExt(x, kt.w))
		}
	case kf.cls == kInt && kt.cls == kFloat:
		switch x := x.(type) {
		case uint64:
			f := float64(x)
			if kf.signed {
				f = float64(sext(x, kf.w))
			}
			if kt.w == 32 {
				return w.fe32(f)
			}
			return f
		case *Term:
			t := w.idx64(x, kf)
			if !kf.signed && kf.w == 64 && t.lo < 0 {
				if w.decide(w.tt.Cmp(OSlt, t, w.tt.Const(0, 64))) {
					v := w.concretize(t, 4)
					return float64(v)
				}
			}
			if kt.w == 32 {
				return w.fe32(w.feInt(t))
			}
			return w.feInt(t)
		}
	case kf.cls == kFloat && kt.cls == kInt:
		switch x := x.(type) {
		case float64:
			if kt.signed {
				return uint64(int64(x)) & mask(kt.w)
			}
			return uint64(x) & mask(kt.w)
		case *FE:
			return w.feToInt(x, kt)
		}
	case kf.cls == kFloat && kt.cls == kFloat:
		if kt.w == 32 {
			return w.fe32(x)
		}
		return x
	case kt.cls == kString:
		switch kf.cls {
		case kString:
			return x
		case kSlice:
			et := from.Underlying().(*types.Slice).Elem()
			if kindOf(et).w == 8 {
				return mkStr(x.(Slice))
			}
			// []rune
			var out []value
			for _, r := range x.(Slice) {
				out = append(out, w.runeBytes(r)...)
			}
			return mkStr(out)
		case kInt:
			if u, ok := x.(uint64); ok {
				v := sext(u, kf.w)
				if !kf.signed {
					v = int64(u)
				}
				if v < 0 || v > 0x10ffff {
					return "\uFFFD"
				}
				return string(rune(v))
			}
			return mkStr(w.runeBytes(val(w.tt.Extract(w.tt.ZExt(x.(*Term), 64), 32))))
		}
	case kt.cls == kSlice && kf.cls == kString:
		et := to.Underlying().(*types.Slice).Elem()
		if kindOf(et).w == 8 {
			b := w.strBytes(x)
			s := make(Slice, len(b), max(len(b), roundupsize(len(b))))
			copy(s, b)
			for i := len(b); i < cap(s); i++ {
				s[:i+1][i] = uint64(0)
			}
			return s
		}
		var out Slice
		it := &strIter{s: w.force(x)}
		for {
			r := w.next(nil2, it).(Tuple)
			if r[0] == false {
				break
			}
			out = append(out, r[2])
		}
		return out
	case kf.cls == kPtr && kt.cls == kUnsafePtr, kf.cls == kUnsafePtr:
		return x
	case kf.cls == kSlice && kt.cls == kSlice, kf.cls == kPtr && kt.cls == kPtr:
		return x
	}
	w.unsup("convert %s to %s (%T)", from, to, x)
	return nil
}

var nil2 *ssa.Next

func (w *W) runeBytes(r value) []value {
	if u, ok := r.(uint64); ok {
		s := string(rune(int32(u)))
		b := make([]value, len(s))
		for i := range b {
			b[i] = uint64(s[i])
		}
		return b
	}
	t := r.(*Term)
	if w.decide(w.tt.Cmp(OUlt, t, w.tt.Const(0x80, 32))) {
		return []value{val(w.tt.Extract(t, 8))}
	}
	v := w.concretize(t, 8)
	return w.runeBytes(v)
}

// ---- symbolic floating point, restricted to what is exact ----

type FE struct {
	op   uint8 // feI integer, feR n/d with d>0, feL log2(n)
	n, d *Term
}

const (
	feI = iota
	feR
	feL
)

const twoP53 = int64(1) << 53

func (w *W) within(t *Term, lo, hi int64) bool {
	if t.lo >= lo && t.hi <= hi {
		return true
	}
	c := w.tt.And(w.tt.Cmp(OSle, w.tt.Const(uint64(lo), 64), t), w.tt.Cmp(OSle, t, w.tt.Const(uint64(hi), 64)))
	return w.decide(c)
}

func (w *W) feInt(t *Term) value {
	if t.isConst() {
		return float64(t.sval())
	}
	if w.within(t, -twoP53, twoP53) {
		return &FE{op: feI, n: t}
	}
	v := w.concretize(t, 4)
	return float64(int64(v))
}

// feConc turns a symbolic float into a concrete one by splitting on its leaves (bounded).
func (w *W) feConc(x value) float64 {
	switch x := x.(type) {
	case float64:
		return x
	case *FE:
		n := float64(int64(w.concretize(x.n, 6)))
		switch x.op {
		case feI:
			return n
		case feR:
			return n / float64(int64(w.concretize(x.d, 6)))
		case feL:
			return math.Log2(n)
		}
	}
	panic(unsupported{"feConc"})
}

// fe32 rounds to single precision: numbers that are exact there (and quotients of
// such numbers, whose floor, ceiling and order are exact) stay symbolic.
func (w *W) fe32(x value) value {
	if f, ok := x.(float64); ok {
		return float64(float32(f))
	}
	e := x.(*FE)
	lim := int64(1) << 24
	switch e.op {
	case feI:
		if w.within(e.n, -lim, lim) {
			return e
		}
	case feR:
		if w.within(e.n, -lim, lim) && w.within(e.d, 1, lim) {
			return e
		}
	}
	return float64(float32(w.feConc(e)))
}

func (w *W) feOf(x value) *FE {
	switch x := x.(type) {
	case *FE:
		return x
	case float64:
		if x == math.Trunc(x) && math.Abs(x) <= float64(twoP53) {
			return &FE{op: feI, n: w.tt.Const(uint64(int64(x)), 64)}
		}
		// k/2^j constants such as 0.5
		for j := 1; j <= 20; j++ {
			y := x * float64(int64(1)<<j)
			if y == math.Trunc(y) && math.Abs(y) < 1<<40 {
				return &FE{op: feR, n: w.tt.Const(uint64(int64(y)), 64), d: w.tt.Const(uint64(1)<<j, 64)}
			}
		}
	}
	return nil
}

func (w *W) feVal(e *FE) value {
	if e.op == feI && e.n.isConst() {
		return float64(e.n.sval())
	}
	return e
}

func (w *W) fbin(op token.Token, x, y value) value {
	a, ok1 := x.(float64)
	b, ok2 := y.(float64)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	}
	p, q := w.feOf(x), w.feOf(y)
	if p != nil && q != nil && p.op == feI && q.op == feI {
		tt := w.tt
		switch op {
		case token.ADD, token.SUB:
			o := OAdd
			if op == token.SUB {
				o = OSub
			}
			if w.within(p.n, -twoP53, twoP53) && w.within(q.n, -twoP53, twoP53) {
				r := tt.Bin(o, p.n, q.n)
				if w.within(r, -twoP53, twoP53) {
					return w.feVal(&FE{op: feI, n: r})
				}
			}
		case token.MUL:
			if w.within(p.n, -(1<<26), 1<<26) && w.within(q.n, -(1<<26), 1<<26) {
				return w.feVal(&FE{op: feI, n: tt.Bin(OMul, p.n, q.n)})
			}
		case token.QUO:
			if w.within(p.n, -twoP53, twoP53) {
				if w.within(q.n, 1, twoP53) {
					return &FE{op: feR, n: p.n, d: q.n}
				}
				if w.within(q.n, -twoP53, -1) {
					return &FE{op: feR, n: tt.Neg(p.n), d: tt.Neg(q.n)}
				}
			}
		}
	}
	return w.fbin(op, w.feConc(x), w.feConc(y))
}

func (w *W) fneg(x value) value {
	switch x := x.(type) {
	case float64:
		return -x
	case *FE:
		switch x.op {
		case feI:
			return &FE{op: feI, n: w.tt.Neg(x.n)}
		case feR:
			return &FE{op: feR, n: w.tt.Neg(x.n), d: x.d}
		}
	}
	return -w.feConc(x)
}

func (w *W) fcmp(op token.Token, x, y value) value {
	a, ok1 := x.(float64)
	b, ok2 := y.(float64)
	if ok1 && ok2 {
		switch op {
		case token.EQL:
			return a == b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	// a symbolic float is at most 2^53 in magnitude
	if fx, ok := x.(*FE); ok && ok2 && math.Abs(b) > float64(twoP53) && fx != nil {
		return op == token.LSS && b > 0 || op == token.LEQ && b > 0 || op == token.GTR && b < 0 || op == token.GEQ && b < 0
	}
	if fy, ok := y.(*FE); ok && ok1 && math.Abs(a) > float64(twoP53) && fy != nil {
		return op == token.LSS && a < 0 || op == token.LEQ && a < 0 || op == token.GTR && a > 0 || op == token.GEQ && a > 0
	}
	p, q := w.feOf(x), w.feOf(y)
	if op == token.EQL && p != nil && q != nil {
		if q.op == feL {
			p, q = q, p
		}
		// log2(n) == m, exact for n < 2^46 (see feFloorCeil)
		if p.op == feL && q.op == feI && w.within(p.n, 1, 1<<46) {
			tt := w.tt
			ok := tt.And(tt.Cmp(OSle, tt.Const(0, 64), q.n), tt.Cmp(OSle, q.n, tt.Const(46, 64)))
			return val(tt.And(ok, tt.Eq(p.n, tt.Bin(OShl, tt.Const(1, 64), q.n))))
		}
	}
	if p != nil && q != nil && p.op != feL && q.op != feL {
		n1, n2 := p.n, q.n
		ok := true
		// cross multiplication; exact only for small numbers
		if p.op == feR || q.op == feR {
			lim := int64(1) << 30
			d1, d2 := w.tt.Const(1, 64), w.tt.Const(1, 64)
			if p.op == feR {
				d1 = p.d
			}
			if q.op == feR {
				d2 = q.d
			}
			ok = w.within(n1, -lim, lim) && w.within(n2, -lim, lim) && w.within(d1, 1, lim) && w.within(d2, 1, lim)
			n1, n2 = w.tt.Bin(OMul, n1, d2), w.tt.Bin(OMul, n2, d1)
		}
		if ok {
			switch op {
			case token.EQL:
				return val(w.tt.Eq(n1, n2))
			case token.LSS:
				return val(w.tt.Cmp(OSlt, n1, n2))
			case token.LEQ:
				return val(w.tt.Cmp(OSle, n1, n2))
			case token.GTR:
				return val(w.tt.Cmp(OSlt, n2, n1))
			case token.GEQ:
				return val(w.tt.Cmp(OSle, n2, n1))
			}
		}
	}
	return w.fcmp(op, w.feConc(x), w.feConc(y))
}

func (w *W) feToInt(x *FE, k kinfo) value {
	var t *Term
	switch x.op {
	case feI:
		t = x.n
	case feR:
		t = w.tt.Bin(OSDiv, x.n, x.d) // truncation
	case feL:
		t = w.feFloorCeil(x, false)
		if t == nil {
			return uint64(int64(w.feConc(x))) & mask(k.w)
		}
	}
	return val(w.tt.Extract(t, k.w))
}

// feFloorCeil returns floor (or ceil) of x as an integer term, or nil.
func (w *W) feFloorCeil(x *FE, up bool) *Term {
	tt := w.tt
	one := tt.Const(1, 64)
	switch x.op {
	case feI:
		return x.n
	case feR:
		q := tt.Bin(OSDiv, x.n, x.d)
		r := tt.Bin(OSRem, x.n, x.d)
		z := tt.Const(0, 64)
		if up {
			return tt.Bin(OAdd, q, tt.Ite(tt.Cmp(OSlt, z, r), one, z))
		}
		return tt.Bin(OSub, q, tt.Ite(tt.Cmp(OSlt, r, z), one, z))
	case feL:
		// exact for 1 <= n < 2^46 (math.Log2 of such an n is within half an ulp of the true
		// value and no integer lies strictly between)
		if !w.within(x.n, 1, 1<<46) {
			return nil
		}
		n := x.n
		if up {
			n = tt.Bin(OSub, n, one)
		}
		l := w.bitLen(n)
		if up {
			return l
		}
		return tt.Bin(OSub, l, one)
	}
	return nil
}

// iteTable says whether t is a decision tree with at most n constants.
func iteTable(t *Term, n int) bool {
	var walk func(*Term) bool
	walk = func(t *Term) bool {
		if t.isConst() {
			n--
			return n >= 0
		}
		return t.op == OIte && walk(t.a[1]) && walk(t.a[2])
	}
	return walk(t)
}

// mapTable applies f to the constants of a decision tree.
func (tt *TermTable) mapTable(t *Term, f func(uint64) *Term) *Term {
	if t.isConst() {
		return f(t.c)
	}
	return tt.Ite(t.a[0], tt.mapTable(t.a[1], f), tt.mapTable(t.a[2], f))
}

// bitLen is the position of the highest set bit plus one, as a 64-bit term.
func (w *W) bitLen(t *Term) *Term {
	tt := w.tt
	wd := t.w
	hi := 64
	if wd < 64 {
		hi = int(wd)
	}
	neg := false
	if t.lo >= 0 {
		hi = bits.Len64(uint64(t.hi))
	} else if t.hi >= 0 && bits.Len64(uint64(t.hi)) < hi {
		hi, neg = bits.Len64(uint64(t.hi)), true
	}
	full := tt.Const(uint64(wd), 64)
	r := tt.Const(0, 64)
	for i := 0; i < hi; i++ {
		c := tt.Cmp(OUle, tt.Const(uint64(1)<<i, wd), t)
		r = tt.Ite(c, tt.Const(uint64(i+1), 64), r)
	}
	if neg {
		r = tt.Ite(tt.Cmp(OSlt, t, tt.Const(0, wd)), full, r)
	}
	return r
}

func (w *W) fround(name string, x value) value {
	if f, ok := x.(float64); ok {
		switch name {
		case "Ceil":
			return math.Ceil(f)
		case "Floor":
			return math.Floor(f)
		case "Trunc":
			return math.Trunc(f)
		case "Round":
			return math.Round(f)
		}
	}
	e := x.(*FE)
	switch name {
	case "Ceil", "Floor":
		if t := w.feFloorCeil(e, name == "Ceil"); t != nil {
			return w.feVal(&FE{op: feI, n: t})
		}
	case "Trunc":
		if e.op == feI {
			return e
		}
		if e.op == feR {
			return w.feVal(&FE{op: feI, n: w.tt.Bin(OSDiv, e.n, e.d)})
		}
	case "Round":
		if e.op == feI {
			return e
		}
	}
	return w.fround(name, w.feConc(x))
}

func (w *W) fpow(x, y value) value {
	a, ok1 := x.(float64)
	b, ok2 := y.(float64)
	if ok1 && ok2 {
		return math.Pow(a, b)
	}
	if ok1 && a == 2 {
		if e, ok := y.(*FE); ok && e.op == feI {
			if w.within(e.n, 0, 62) {
				return &FE{op: feI, n: w.tt.Bin(OShl, w.tt.Const(1, 64), e.n)}
			}
		}
	}
	if e, ok := y.(*FE); ok && e.op == feI {
		// split on small exponents
		if w.within(e.n, -8, 64) {
			v := int64(w.concretize(e.n, 0))
			return w.fpow(x, float64(v))
		}
		// large exponents: the value only matters through its magnitude; keep samples
		return w.fpow(x, w.feConc(y))
	}
	if e, ok := x.(*FE); ok && e.op == feI && ok2 && b == math.Trunc(b) && b >= 0 {
		n := int(b)
		switch {
		case n == 0:
			return float64(1)
		case n == 1:
			return x
		}
		lim := int64(math.Floor(math.Pow(float64(twoP53), 1/b)))
		if lim >= 1 && w.within(e.n, -lim, lim) {
			r := e.n
			for i := 1; i < n && i < 64; i++ {
				r = w.tt.Bin(OMul, r, e.n)
			}
			if n < 64 {
				return w.feVal(&FE{op: feI, n: r})
			}
		}
	}
	return w.fpow(w.feConc(x), w.feConc(y))
}

// ---- builtins ----

func (w *W) builtin(fr *frame, b *ssa.Builtin, args []value, call *ssa.Call) value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			w.access(x, false)
			return uint64(x.n)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.q))
		case *value:
			return uint64(len((*x).(Array)))
		default:
			return uint64(w.strLen(x))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case Array:
			return uint64(len(x))
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add []value
		var et types.Type = types.Typ[types.Byte]
		if call != nil {
			et = call.Type().Underlying().(*types.Slice).Elem()
		}
		switch x := args[1].(type) {
		case Slice:
			add = x
		default:
			add = w.strBytes(x)
		}
		if len(add) == 0 {
			return s
		}
		n := len(s) + len(add)
		if n <= cap(s) {
			r := s[:n]
			// copy through a temporary: source and destination may overlap
			tmp := make([]value, len(add))
			for i, v := range add {
				tmp[i] = copyVal(v)
			}
			for i := range tmp {
				w.access(&r[len(s)+i], true)
				storeInto(&r[len(s)+i], tmp[i])
			}
			return r
		}
		c := growCap(cap(s), n, w.P.sizes.Sizeof(et))
		r := make(Slice, n, c)
		for i, v := range s {
			w.access(&s[i], false)
			r[i] = copyVal(v)
		}
		for i, v := range add {
			r[len(s)+i] = copyVal(v)
		}
		full := r[:c]
		for i := n; i < c; i++ {
			full[i] = zero(et)
		}
		return r
	case "copy":
		d := args[0].(Slice)
		var s []value
		switch x := args[1].(type) {
		case Slice:
			s = x
		default:
			s = w.strBytes(x)
		}
		n := min(len(d), len(s))
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			w.access(&s[i], false)
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			w.access(&d[i], true)
			storeInto(&d[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		if m := args[0].(*Map); m != nil {
			w.access(m, true)
			w.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				w.access(x, true)
				x.keys, x.vals, x.live, x.idx, x.n = nil, nil, nil, map[string]int{}, 0
			}
		case Slice:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(et)
			}
		}
		return nil
	case "min", "max":
		t := b.Type().(*types.Signature).Params().At(0).Type()
		k := kindOf(t)
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := w.binop(op, k, k, t, a, r)
			switch c := c.(type) {
			case bool:
				if c {
					r = a
				}
			case *Term:
				r = w.iteVal(t, c, a, r)
			}
		}
		return r
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0].(Iface)})
	case "recover":
		// called from a deferred function: the caller of that function is panicking
		c := fr.caller
		if c != nil && c.panicking {
			c.panicking = false
			v := c.panicV.v
			if c.panicV.msg != "" {
				// a runtime.Error; represented as an error value
				return w.mkErr(value("runtime error: " + c.panicV.msg))
			}
			return v
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "SliceData":
		return sliceDataPtr{args[0].(Slice)}
	case "StringData":
		return strDataPtr{args[0]}
	case "String":
		n := int(w.cint(args[1], kinfo{kInt, 64, true}))
		switch p := args[0].(type) {
		case sliceDataPtr:
			return mkStr(p.s[:n])
		case strDataPtr:
			return w.substr(p.s, 0, n)
		}
		if n == 0 {
			return ""
		}
		if p, ok := args[0].(*value); ok && p != nil {
			// elements of a slice are contiguous here as well
			return mkStr(append([]value(nil), unsafe.Slice(p, n)...))
		}
	case "Slice":
		n := int(w.cint(args[1], kinfo{kInt, 64, true}))
		switch p := args[0].(type) {
		case sliceDataPtr:
			return p.s[:n]
		case strDataPtr:
			return Slice(append([]value(nil), w.strBytes(p.s)[:n]...))
		case *value:
			if p != nil {
				return Slice(unsafe.Slice(p, n))
			}
		}
	case "close":
		w.chClose(args[0])
		return nil
	}
	w.unsup("builtin %s (%s)", b.Name(), fmt.Sprintf("%T", args[0]))
	return nil
}

// mkErr makes an *errors.errorString holding msg.
func (w *W) mkErr(msg value) Iface {
	c := new(value)
	*c = Struct{msg}
	return Iface{w.P.errorStringT, c}
}
