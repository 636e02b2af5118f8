package main

// The command line program: its main function is run like a function of the
// library, with the standard streams and the files it writes captured.

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cliPath = modPath + "/cmd/fbdl"

// program runs the main package; the harness package has set os.Args.
func (w *W) program() {
	p := w.P.byPath[cliPath]
	if p == nil {
		w.unsup("the command line program is not loaded")
	}
	was := w.p.capture
	w.p.capture, w.p.logOut, w.p.logFlags = true, Iface{}, 3
	defer func() { w.p.capture = was }()
	if f := p.Func("init"); f != nil {
		w.callFn(f, nil, nil)
	}
	w.callFn(p.Func("main"), nil, nil)
}

// stdFile is os.Stdout or os.Stderr.
func (w *W) stdFile(name string) Iface {
	g := w.P.byPath["os"].Members[name].(*ssa.Global)
	return Iface{deref(g.Type()), *w.global(g)}
}

// logText passes one message of package log on to the writer set.
func (w *W) logText(s value) {
	if !w.p.capture {
		return
	}
	b := w.messageBytes(s)
	if w.p.logFlags != 0 {
		b = append(bytesOf("2000/01/01 00:00:00 "), b...)
	}
	if n := len(b); n == 0 || b[n-1] != value(uint64('\n')) {
		b = append(b, uint64('\n'))
	}
	out := w.p.logOut
	if out.t == nil {
		out = w.stdFile("Stderr")
	}
	w.fwriteB(out, b)
}

// messageBytes is the text of a message; one with symbolic parts stands for itself
// by its constant beginning, the rest of it is never looked at.
func (w *W) messageBytes(s value) []value {
	if l, ok := s.(*LazyStr); ok && l.done == nil {
		f := l.sig
		if i := strings.IndexByte(f, '%'); i >= 0 && strings.HasPrefix(f, "f:") {
			return append([]value(nil), bytesOf(f[2:i]+"...")...)
		}
		return bytesOf("...")
	}
	return append([]value(nil), w.strBytes(s)...)
}

func (w *W) logf(a []value, ln int) {
	if !w.p.capture {
		return
	}
	switch ln {
	case 0:
		w.logText(w.fmtSprintf(a[0], a[1].(Slice)))
	case 1:
		w.logText(w.fmtSprint(a[0].(Slice), false))
	case 2:
		w.logText(w.fmtSprint(a[0].(Slice), true))
	}
}

// stdPrint is fmt.Print and its kin.
func (w *W) stdPrint(s func() value) value {
	if !w.p.capture {
		return Tuple{uint64(0), Iface{}}
	}
	return w.fwriteB(w.stdFile("Stdout"), w.strBytes(s()))
}

// jsonVal is the JSON text of a value up to an injective encoding of its leaves:
// same text if and only if same value.
func (w *W) jsonVal(t types.Type, v value, depth int) []value {
	if depth > 60 {
		w.unsup("JSON of a cyclic value")
	}
	if t == nil {
		return bytesOf("null")
	}
	if p, ok := v.(*value); ok && p == nil && kindOf(t).cls == kPtr {
		return bytesOf("null")
	}
	for _, m := range []string{"MarshalJSON", "MarshalText"} {
		if s := w.methodByName(t, m); s != nil {
			if types.IsInterface(t) {
				break
			}
			r := w.callFn(w.P.prog.MethodValue(s), []value{v}, nil).(Tuple)
			if r[1].(Iface).t != nil {
				w.unsup("JSON encoding fails")
			}
			b := []value(r[0].(Slice))
			return append(bytesOf(fmt.Sprintf("M%d:", len(b))), b...)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return w.jsonVal(u.Elem(), *(v.(*value)), depth+1)
	case *types.Interface:
		i := v.(Iface)
		return w.jsonVal(i.t, i.v, depth+1)
	case *types.Struct:
		out := bytesOf("{")
		out = w.jsonFields(out, u, v.(Struct), depth)
		return append(out, uint64('}'))
	case *types.Slice:
		s, _ := v.(Slice)
		if s == nil {
			return bytesOf("null")
		}
		out := bytesOf("[")
		for _, x := range s {
			out = append(append(out, w.jsonVal(u.Elem(), x, depth+1)...), uint64(','))
		}
		return append(out, uint64(']'))
	case *types.Array:
		out := bytesOf("[")
		for _, x := range v.(Array) {
			out = append(append(out, w.jsonVal(u.Elem(), x, depth+1)...), uint64(','))
		}
		return append(out, uint64(']'))
	case *types.Map:
		m, _ := v.(*Map)
		if m == nil {
			return bytesOf("null")
		}
		type kv struct {
			k string
			v value
		}
		var kvs []kv
		for i := range m.keys {
			if m.live[i] {
				k := m.keys[i]
				if s, ok := k.(value); ok {
					k = w.force(s)
				}
				switch k := k.(type) {
				case string:
					kvs = append(kvs, kv{k, m.vals[i]})
				case uint64:
					kvs = append(kvs, kv{fmt.Sprint(int64(k)), m.vals[i]})
				default:
					w.unsup("JSON of a map with symbolic keys")
				}
			}
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		out := bytesOf("{")
		for _, x := range kvs {
			out = append(out, bytesOf(fmt.Sprintf("%q:", x.k))...)
			out = append(append(out, w.jsonVal(u.Elem(), x.v, depth+1)...), uint64(','))
		}
		return append(out, uint64('}'))
	case *types.Basic:
		k := kindOf(t)
		switch k.cls {
		case kString:
			return append(bytesOf("S"), w.jsonStr(v)...)
		case kInt:
			tm := w.term(v, k.w)
			out := bytesOf("I")
			for i := 0; i < int(k.w/8); i++ {
				out = append(out, val(w.tt.Extract(w.tt.Bin(OLShr, tm, w.tt.Const(uint64(8*i), k.w)), 8)))
			}
			return out
		case kBool:
			b, _ := w.binBytes(t, v, true)
			return append(bytesOf("B"), b...)
		case kFloat:
			x := math.Float64bits(w.feConc(v))
			return bytesOf(fmt.Sprintf("F%d", x))
		}
	}
	w.unsup("JSON of %s", t)
	return nil
}

type jsonField struct {
	name   string
	tagged bool
	omit   bool
	depth  int
	t      types.Type
	v      value
}

func (w *W) jsonFields(out []value, u *types.Struct, s Struct, depth int) []value {
	fs := w.jsonCollect(nil, u, s, 0)
	// of several fields with one name the shallowest tells, a tagged one first
	wins := func(i int) bool {
		f := fs[i]
		for k, g := range fs {
			if k == i || g.name != f.name || g.depth > f.depth {
				continue
			}
			if g.depth < f.depth || g.tagged || !f.tagged {
				return false
			}
		}
		return true
	}
	for i, f := range fs {
		if !wins(i) || f.omit && w.jsonEmpty(f.t, f.v) {
			continue
		}
		out = append(out, bytesOf(fmt.Sprintf("%q:", f.name))...)
		out = append(append(out, w.jsonVal(f.t, f.v, depth+1)...), uint64(','))
	}
	return out
}

func (w *W) jsonEmpty(t types.Type, v value) bool {
	switch k := kindOf(t); k.cls {
	case kInt:
		return w.truth(val(w.tt.Eq(w.term(v, k.w), w.tt.Const(0, k.w))))
	case kBool:
		return w.truth(w.not(v))
	}
	switch v := v.(type) {
	case Iface:
		return v.t == nil
	case *value:
		return v == nil
	case Slice:
		return len(v) == 0
	case *Map:
		return v == nil || v.n == 0
	case string, *SymStr, *LazyStr:
		return len(w.strBytes(v)) == 0
	}
	return false
}

func (w *W) jsonCollect(out []jsonField, u *types.Struct, s Struct, depth int) []jsonField {
	for i := range s {
		f := u.Field(i)
		tag := reflect.StructTag(u.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if f.Embedded() && name == "" {
			t, v := f.Type(), s[i]
			if p, ok := t.Underlying().(*types.Pointer); ok {
				c := v.(*value)
				if c == nil {
					continue
				}
				t, v = p.Elem(), *c
			}
			if st, ok := t.Underlying().(*types.Struct); ok {
				out = w.jsonCollect(out, st, v.(Struct), depth+1)
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		tagged := name != ""
		if !tagged {
			name = f.Name()
		}
		out = append(out, jsonField{name, tagged, strings.Contains(opts, "omitempty") || strings.Contains(opts, "omitzero"), depth, f.Type(), s[i]})
	}
	return out
}

// jsonStr encodes a string; one which is formatted on demand by how it is made.
func (w *W) jsonStr(v value) []value {
	if l, ok := v.(*LazyStr); ok && l.sig != "" {
		out := bytesOf(fmt.Sprintf("L%q(", l.sig))
		for _, a := range l.args {
			switch a := a.(type) {
			case Iface:
				if a.t != nil && w.methodByName(a.t, "Error") == nil && w.methodByName(a.t, "String") == nil {
					out = append(out, w.jsonVal(a.t, a.v, 0)...)
					continue
				}
				return append(bytesOf("T"), w.strBytes(v)...)
			case *Term:
				out = append(out, w.jsonVal(types.Typ[types.Int64], val(w.tt.ZExt(a, 64)), 0)...)
			default:
				out = append(out, w.jsonStr(a)...)
			}
		}
		return append(out, uint64(')'))
	}
	b := w.strBytes(v)
	return append(bytesOf(fmt.Sprintf("%d:", len(b))), b...)
}

func (w *W) jsonMarshal(i Iface) value {
	return Tuple{Slice(w.jsonVal(i.t, i.v, 0)), Iface{}}
}
