package main

// Run-time values of the symbolic interpreter.
//
//   integers   uint64 (masked to the type's width)  or *Term
//   booleans   bool                                 or *Term (w==0)
//   floats     float64                              or *FE
//   strings    string, *SymStr (concrete length, symbolic bytes) or *LazyStr
//   pointers   *value, *SymPtr (element with symbolic index), or nil *value
//   structs    Struct, arrays Array, slices Slice, maps *Map
//   interfaces Iface, functions *ssa.Function, *Closure, *Native, *ssa.Builtin

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value = any

type Struct []value
type Array []value
type Slice []value
type Tuple []value

type SymStr struct{ b []value } // each element uint64 or *Term(w=8)
type LazyStr struct {
	f    func() value
	sig  string  // how it is made
	args []value // and of what
	done value
}

type SymPtr struct {
	elems []value
	idx   *Term
	elemT types.Type
}

type Iface struct {
	t types.Type
	v value
}

type Closure struct {
	fn  *ssa.Function
	env []value
}

type Native struct {
	name string
	f    func(w *W, args []value) value
}

type Map struct {
	keyT types.Type
	keys []value
	vals []value
	live []bool
	idx  map[string]int // fully concrete keys
	n    int
	symb bool // at least one key is not fully concrete
}

type mapIter struct {
	m     *Map
	order []int
	pos   int
	nd    bool
}

type strIter struct {
	s   value
	pos int
}

type sliceDataPtr struct{ s Slice }
type strDataPtr struct{ s value }

type kinfo struct {
	cls    uint8
	w      uint8
	signed bool
}

const (
	kOther uint8 = iota
	kInt
	kBool
	kFloat
	kString
	kPtr
	kIface
	kSlice
	kMap
	kStruct
	kArray
	kFunc
	kUnsafePtr
	kChan
	kComplex
	kTuple
)

func kindOf(t types.Type) kinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kinfo{cls: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return kinfo{kInt, 64, true}
		case types.Int32, types.UntypedRune:
			return kinfo{kInt, 32, true}
		case types.Int16:
			return kinfo{kInt, 16, true}
		case types.Int8:
			return kinfo{kInt, 8, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return kinfo{kInt, 64, false}
		case types.Uint32:
			return kinfo{kInt, 32, false}
		case types.Uint16:
			return kinfo{kInt, 16, false}
		case types.Uint8:
			return kinfo{kInt, 8, false}
		case types.Float64, types.UntypedFloat:
			return kinfo{kFloat, 64, true}
		case types.Float32:
			return kinfo{kFloat, 32, true}
		case types.String, types.UntypedString:
			return kinfo{cls: kString}
		case types.UnsafePointer:
			return kinfo{cls: kUnsafePtr}
		case types.Complex128, types.Complex64:
			return kinfo{cls: kComplex}
		case types.UntypedNil:
			return kinfo{cls: kPtr}
		}
	case *types.Pointer:
		return kinfo{cls: kPtr}
	case *types.Interface:
		return kinfo{cls: kIface}
	case *types.Slice:
		return kinfo{cls: kSlice}
	case *types.Map:
		return kinfo{cls: kMap}
	case *types.Struct:
		return kinfo{cls: kStruct}
	case *types.Array:
		return kinfo{cls: kArray}
	case *types.Signature:
		return kinfo{cls: kFunc}
	case *types.Chan:
		return kinfo{cls: kChan}
	case *types.Tuple:
		return kinfo{cls: kTuple}
	}
	return kinfo{}
}

func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch k := kindOf(t); k.cls {
		case kBool:
			return false
		case kInt:
			return uint64(0)
		case kFloat:
			return float64(0)
		case kString:
			return ""
		case kUnsafePtr:
			return (*value)(nil)
		case kPtr:
			return (*value)(nil)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		t := make(Tuple, u.Len())
		for i := range t {
			t[i] = zero(u.At(i).Type())
		}
		return t
	}
	return nil
}

func copyVal(v value) value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

func storeInto(p *value, v value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// encodeKey gives a canonical text for fully concrete values.
func encodeKey(sb *strings.Builder, v value) bool {
	switch v := v.(type) {
	case uint64:
		fmt.Fprintf(sb, "i%d;", v)
	case bool:
		fmt.Fprintf(sb, "b%v;", v)
	case float64:
		fmt.Fprintf(sb, "f%v;", v)
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(v), v)
	case *value:
		fmt.Fprintf(sb, "p%p;", v)
	case *Map:
		fmt.Fprintf(sb, "m%p;", v)
	case Struct:
		sb.WriteString("{")
		for _, x := range v {
			if !encodeKey(sb, x) {
				return false
			}
		}
		sb.WriteString("}")
	case Array:
		sb.WriteString("[")
		for _, x := range v {
			if !encodeKey(sb, x) {
				return false
			}
		}
		sb.WriteString("]")
	case Iface:
		if v.t == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString("T" + types.TypeString(v.t, nil) + "=")
		return encodeKey(sb, v.v)
	case *LazyStr:
		return false
	default:
		return false
	}
	return true
}

func keyText(v value) (string, bool) {
	switch v := v.(type) {
	case string:
		return v, true
	}
	var sb strings.Builder
	ok := encodeKey(&sb, v)
	return sb.String(), ok
}

// hasSym reports whether a value contains anything symbolic (shallow through pointers).
func hasSym(v value, depth int) bool {
	if depth <= 0 {
		return false
	}
	switch v := v.(type) {
	case *Term, *FE, *SymStr, *LazyStr:
		return true
	case Struct:
		for _, x := range v {
			if hasSym(x, depth-1) {
				return true
			}
		}
	case Array:
		for _, x := range v {
			if hasSym(x, depth-1) {
				return true
			}
		}
	case Slice:
		for _, x := range v {
			if hasSym(x, depth-1) {
				return true
			}
		}
	case Iface:
		return hasSym(v.v, depth-1)
	case *value:
		if v != nil {
			return hasSym(*v, depth-1)
		}
	case *Map:
		if v != nil {
			for _, x := range v.vals {
				if hasSym(x, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// ---- Go's slice growth policy (needed because capacity is observable through aliasing) ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldCap, newLen int, elemSize int64) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else {
		const threshold = 256
		if oldCap < threshold {
			newcap = doublecap
		} else {
			for newcap < newLen {
				newcap += (newcap + 3*threshold) >> 2
			}
		}
	}
	if elemSize == 0 {
		return newcap
	}
	return roundupsize(newcap*int(elemSize)) / int(elemSize)
}
