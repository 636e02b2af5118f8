package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// fmtSprintf models fmt.Sprintf. With symbolic arguments the result is produced lazily.
func (w *W) fmtSprintf(format value, args []value) value {
	sym := hasSym(format, 3)
	for _, a := range args {
		if hasSym(a, 5) {
			sym = true
		}
	}
	if sym {
		cp := snapshot(args)
		fs, _ := format.(string)
		if fs != "" {
			fs = "f:" + fs
		}
		return &LazyStr{f: func() value { return mkStr(w.fmtf(format, cp)) }, sig: fs, args: cp}
	}
	return mkStr(w.fmtf(format, args))
}

// snapshot copies arguments with what they refer to, for they may change before a string
// made of them is needed.
func snapshot(args []value) []value {
	seen := map[any]value{}
	var cp func(v value, d int) value
	cp = func(v value, d int) value {
		if d == 0 {
			return v
		}
		list := func(l []value) []value {
			n := make([]value, len(l))
			for i, x := range l {
				n[i] = cp(x, d-1)
			}
			return n
		}
		switch v := v.(type) {
		case Struct:
			return Struct(list(v))
		case Array:
			return Array(list(v))
		case Slice:
			if v == nil {
				return v
			}
			return Slice(list(v))
		case Iface:
			return Iface{v.t, cp(v.v, d)}
		case *value:
			if v == nil {
				return v
			}
			if n, ok := seen[v]; ok {
				return n
			}
			var n value
			p := &n
			seen[v] = p
			n = cp(*v, d-1)
			return p
		case *Map:
			if v == nil {
				return v
			}
			if n, ok := seen[v]; ok {
				return n
			}
			n := *v
			seen[v] = &n
			n.vals = list(v.vals)
			n.live = append([]bool(nil), v.live...)
			return &n
		}
		return v
	}
	return cp(Slice(args), 7).(Slice)
}

// errorsIs models errors.Is.
func (w *W) errorsIs(err, target Iface) value {
	for err.t != nil {
		if target.t != nil && types.Comparable(target.t) && w.truth(w.equal(types.Universe.Lookup("error").Type(), err, target)) {
			return true
		}
		if s := w.methodByName(err.t, "Is"); s != nil {
			if w.truth(w.callFn(w.P.prog.MethodValue(s), []value{copyVal(err.v), target}, nil)) {
				return true
			}
		}
		s := w.methodByName(err.t, "Unwrap")
		if s == nil {
			return false
		}
		r := w.callFn(w.P.prog.MethodValue(s), []value{copyVal(err.v)}, nil)
		if l, ok := r.(Slice); ok {
			for _, e := range l {
				if w.truth(w.errorsIs(e.(Iface), target)) {
					return true
				}
			}
			return false
		}
		err = r.(Iface)
	}
	return target.t == nil
}

// errorsAs models errors.As.
func (w *W) errorsAs(err, target Iface) value {
	p, ok := target.v.(*value)
	if !ok || p == nil {
		w.rtPanic("errors: target must be a non-nil pointer")
	}
	t := deref(target.t)
	for err.t != nil {
		if it, ok := t.Underlying().(*types.Interface); ok {
			if types.Implements(err.t, it) {
				w.store(p, err)
				return true
			}
		} else if types.Identical(err.t, t) {
			w.store(p, err.v)
			return true
		}
		if s := w.methodByName(err.t, "As"); s != nil {
			r := w.callFn(w.P.prog.MethodValue(s), []value{copyVal(err.v), target}, nil)
			if w.truth(r) {
				return true
			}
		}
		s := w.methodByName(err.t, "Unwrap")
		if s == nil {
			return false
		}
		r := w.callFn(w.P.prog.MethodValue(s), []value{copyVal(err.v)}, nil)
		if l, ok := r.(Slice); ok {
			for _, e := range l {
				if w.truth(w.errorsAs(e.(Iface), target)) {
					return true
				}
			}
			return false
		}
		err = r.(Iface)
	}
	return false
}

func (w *W) fmtSprint(args []value, ln bool) value {
	f := func() value {
		var out []value
		for i, a := range args {
			ifc := a.(Iface)
			if i > 0 {
				isS := func(x Iface) bool { return x.t != nil && kindOf(x.t).cls == kString }
				if ln || (!isS(ifc) && !isS(args[i-1].(Iface))) {
					out = append(out, uint64(' '))
				}
			}
			out = append(out, w.fmtVal(ifc, 'v', fflags{}, 0)...)
		}
		if ln {
			out = append(out, uint64('\n'))
		}
		return mkStr(out)
	}
	for _, a := range args {
		if hasSym(a, 5) {
			args = snapshot(args)
			return &LazyStr{f: f, sig: fmt.Sprint("p:", ln), args: append([]value(nil), args...)}
		}
	}
	return f()
}

type fflags struct {
	minus, plus, sharp, space, zero bool
	width                           int
	hasW                            bool
	prec                            int
	hasP                            bool
}

func bytesOf(s string) []value {
	b := make([]value, len(s))
	for i := range b {
		b[i] = uint64(s[i])
	}
	return b
}

func (w *W) fmtf(format value, args []value) []value {
	fs, ok := w.force(format).(string)
	if !ok {
		w.unsup("symbolic format string")
	}
	var out []value
	ai := 0
	next := func() (Iface, bool) {
		if ai >= len(args) {
			return Iface{}, false
		}
		a := args[ai].(Iface)
		ai++
		return a, true
	}
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				j = len(fs) - i
			}
			out = append(out, bytesOf(fs[i:i+j])...)
			i += j
			continue
		}
		i++
		var fl fflags
	flags:
		for ; i < len(fs); i++ {
			switch fs[i] {
			case '-':
				fl.minus = true
			case '+':
				fl.plus = true
			case '#':
				fl.sharp = true
			case ' ':
				fl.space = true
			case '0':
				fl.zero = true
			default:
				break flags
			}
		}
		num := func() (int, bool) {
			if i < len(fs) && fs[i] == '*' {
				i++
				a, ok := next()
				if !ok {
					return 0, false
				}
				return int(w.cint(a.v, kindOf(a.t))), true
			}
			st := i
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				i++
			}
			if st == i {
				return 0, false
			}
			n, _ := strconv.Atoi(fs[st:i])
			return n, true
		}
		fl.width, fl.hasW = num()
		if fl.width < 0 {
			fl.width, fl.minus = -fl.width, true
		}
		if i < len(fs) && fs[i] == '.' {
			i++
			fl.prec, fl.hasP = num()
			fl.hasP = true
		}
		if i >= len(fs) {
			out = append(out, bytesOf("%!(NOVERB)")...)
			break
		}
		verb := fs[i]
		i++
		if verb == '%' {
			out = append(out, uint64('%'))
			continue
		}
		a, ok := next()
		if !ok {
			out = append(out, bytesOf("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		s := w.fmtVal(a, verb, fl, 0)
		if fl.hasW && len(s) < fl.width {
			pad := make([]value, fl.width-len(s))
			c := uint64(' ')
			if fl.zero && !fl.minus {
				c = '0'
			}
			for k := range pad {
				pad[k] = c
			}
			if fl.minus {
				s = append(append([]value(nil), s...), pad...)
			} else if c == '0' && len(s) > 0 && s[0] == uint64('-') {
				s = append(append([]value{uint64('-')}, pad...), s[1:]...)
			} else {
				s = append(pad, s...)
			}
		}
		out = append(out, s...)
	}
	return out
}

func (w *W) methodByName(t types.Type, name string) *types.Selection {
	ms := w.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return s
		}
	}
	return nil
}

func (w *W) callStringer(a Iface) (value, bool) {
	for _, n := range []string{"Error", "String"} {
		s := w.methodByName(a.t, n)
		if s == nil {
			continue
		}
		sig := s.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || kindOf(sig.Results().At(0).Type()).cls != kString {
			continue
		}
		fn := w.P.prog.MethodValue(s)
		if p, ok := a.v.(*value); ok && p == nil {
			return "<nil>", true
		}
		return w.callFn(fn, []value{copyVal(a.v)}, nil), true
	}
	return nil, false
}

func (w *W) fmtVal(a Iface, verb byte, fl fflags, depth int) []value {
	if verb == 'T' {
		if a.t == nil {
			return bytesOf("<nil>")
		}
		return bytesOf(types.TypeString(a.t, func(p *types.Package) string { return p.Name() }))
	}
	if a.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return bytesOf("%!s(<nil>)")
			}
			return bytesOf("<nil>")
		}
		return bytesOf("%!" + string(verb) + "(<nil>)")
	}
	if depth > 6 {
		return bytesOf("...")
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if s, ok := w.callStringer(a); ok {
			if verb == 'q' {
				return w.quote(s)
			}
			return w.strBytes(s)
		}
	}
	k := kindOf(a.t)
	switch k.cls {
	case kString:
		switch verb {
		case 'v', 's':
			b := w.strBytes(a.v)
			if fl.hasP && fl.prec < len(b) {
				b = b[:fl.prec]
			}
			return b
		case 'q':
			return w.quote(a.v)
		case 'x', 'X':
			if s, ok := w.force(a.v).(string); ok {
				return bytesOf(fmt.Sprintf("%"+string(verb), s))
			}
		}
		return bytesOf("%!" + string(verb) + "(string=?)")
	case kBool:
		if w.truth(a.v) {
			return bytesOf("true")
		}
		return bytesOf("false")
	case kInt:
		switch verb {
		case 'v', 'd':
			return w.fmtInt(a.v, k, 10, false, fl)
		case 'x':
			return w.fmtInt(a.v, k, 16, false, fl)
		case 'X':
			return w.fmtInt(a.v, k, 16, true, fl)
		case 'o':
			return w.fmtInt(a.v, k, 8, false, fl)
		case 'b':
			return w.fmtInt(a.v, k, 2, false, fl)
		case 'c':
			return w.runeBytes(val(w.tt.Extract(w.idx64(w.term(a.v, k.w), k), 32)))
		case 'q':
			return bytesOf(strconv.QuoteRune(rune(w.cint(a.v, k))))
		case 'U':
			return bytesOf(fmt.Sprintf("%U", w.cint(a.v, k)))
		}
		return bytesOf("%!" + string(verb) + "(int)")
	case kFloat:
		f := w.feConc(a.v)
		if verb == 'v' {
			return bytesOf(fmt.Sprint(f))
		}
		if fl.hasP {
			return bytesOf(fmt.Sprintf("%."+strconv.Itoa(fl.prec)+string(verb), f))
		}
		return bytesOf(fmt.Sprintf("%"+string(verb), f))
	case kPtr:
		if p, ok := a.v.(*value); ok && p != nil && depth == 0 {
			el := deref(a.t)
			if kindOf(el).cls == kStruct {
				return append([]value{uint64('&')}, w.fmtVal(Iface{el, *p}, verb, fl, depth+1)...)
			}
		}
		if p, ok := a.v.(*value); ok && p == nil {
			return bytesOf("<nil>")
		}
		return bytesOf("0xc000000000")
	case kIface:
		return w.fmtVal(a.v.(Iface), verb, fl, depth)
	case kStruct:
		st := a.t.Underlying().(*types.Struct)
		out := []value{uint64('{')}
		for i, x := range a.v.(Struct) {
			if i > 0 {
				out = append(out, uint64(' '))
			}
			if fl.plus {
				out = append(out, bytesOf(st.Field(i).Name()+":")...)
			}
			out = append(out, w.fmtElem(st.Field(i).Type(), x, verb, fl, depth+1)...)
		}
		return append(out, uint64('}'))
	case kSlice, kArray:
		var el types.Type
		var xs []value
		switch u := a.t.Underlying().(type) {
		case *types.Slice:
			el = u.Elem()
			xs = a.v.(Slice)
		case *types.Array:
			el = u.Elem()
			xs = a.v.(Array)
		}
		if kindOf(el).w == 8 && (verb == 's') {
			return append([]value(nil), xs...)
		}
		out := []value{uint64('[')}
		for i, x := range xs {
			if i > 0 {
				out = append(out, uint64(' '))
			}
			out = append(out, w.fmtElem(el, x, verb, fl, depth+1)...)
		}
		return append(out, uint64(']'))
	case kMap:
		m := a.v.(*Map)
		mt := a.t.Underlying().(*types.Map)
		out := bytesOf("map[")
		if m != nil {
			for i := range m.keys {
				if !m.live[i] {
					continue
				}
				if len(out) > 4 {
					out = append(out, uint64(' '))
				}
				out = append(out, w.fmtElem(mt.Key(), m.keys[i], verb, fl, depth+1)...)
				out = append(out, uint64(':'))
				out = append(out, w.fmtElem(mt.Elem(), m.vals[i], verb, fl, depth+1)...)
			}
		}
		return append(out, uint64(']'))
	}
	return bytesOf("?")
}

func (w *W) fmtElem(t types.Type, v value, verb byte, fl fflags, depth int) []value {
	if i, ok := v.(Iface); ok {
		return w.fmtVal(i, verb, fl, depth)
	}
	return w.fmtVal(Iface{t, v}, verb, fl, depth)
}

func (w *W) quote(s value) []value {
	if x, ok := w.force(s).(string); ok {
		return bytesOf(strconv.Quote(x))
	}
	out := []value{uint64('"')}
	out = append(out, w.strBytes(s)...)
	return append(out, uint64('"'))
}

// fmtInt renders an integer; for a symbolic one the number of digits is split on.
func (w *W) fmtInt(v value, k kinfo, base uint64, upper bool, fl fflags) []value {
	if u, ok := v.(uint64); ok {
		var s string
		if k.signed {
			s = strconv.FormatInt(sext(u, k.w), int(base))
		} else {
			s = strconv.FormatUint(u, int(base))
		}
		if upper {
			s = strings.ToUpper(s)
		}
		if fl.sharp && base == 16 {
			s = "0x" + s
		}
		if fl.plus && s[0] != '-' {
			s = "+" + s
		}
		return bytesOf(s)
	}
	tt := w.tt
	t := w.idx64(v.(*Term), k)
	var out []value
	if k.signed && t.lo < 0 {
		if w.decide(tt.Cmp(OSlt, t, tt.Const(0, 64))) {
			t = tt.Neg(t)
			out = append(out, uint64('-'))
		}
	}
	n := 1
	lim := base
	for {
		if t.lo >= 0 && uint64(t.hi) < lim {
			break
		}
		if w.decide(tt.Cmp(OUlt, t, tt.Const(lim, 64))) {
			break
		}
		n++
		if lim > ^uint64(0)/base {
			break
		}
		lim *= base
	}
	digs := make([]value, n)
	shift := map[uint64]uint64{2: 1, 8: 3, 16: 4}[base]
	cur := t
	for i := n - 1; i >= 0; i-- {
		var d *Term
		if shift > 0 {
			d = tt.Bin(OAnd, tt.Bin(OLShr, t, tt.Const(shift*uint64(n-1-i), 64)), tt.Const(base-1, 64))
		} else {
			d = tt.Bin(OURem, cur, tt.Const(base, 64))
			cur = tt.Bin(OUDiv, cur, tt.Const(base, 64))
		}
		d8 := tt.Extract(d, 8)
		ch := tt.Bin(OAdd, d8, tt.Const('0', 8))
		if base == 16 {
			a := uint64('a' - 10)
			if upper {
				a = 'A' - 10
			}
			ch = tt.Ite(tt.Cmp(OUlt, d8, tt.Const(10, 8)), ch, tt.Bin(OAdd, d8, tt.Const(a, 8)))
		}
		digs[i] = val(ch)
	}
	return append(out, digs...)
}
