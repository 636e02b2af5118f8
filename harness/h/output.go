package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

func init() {
	reg_("ProgramOutput", ProgramOutput)
}

// ProgramOutput: the printed text tells every attribute of every element; two
// elements which differ in any of them are printed differently.
func ProgramOutput() {
	x, y := v.Int("x", -40, 40), v.Int("y", -40, 40)
	p, q := v.Bool("p"), v.Bool("q")
	s, t := v.Str("s", 2), v.Str("t", 2)
	v.Assume(v.And(allOf(s, isLet), allOf(t, isLet)))
	switch v.Choice("part", 3) {
	case 0:
		v.Assume(x != y)
	case 1:
		v.Assume(v.Not(v.Iff(p, q)))
		x, s = 1, "ab"
		y, t = x, s
	case 2:
		v.Assume(v.Not(v.StrEq(s, t)))
		x, p = 1, true
		y, q = x, p
	}
	i := v.Choice("element", nOutputs)
	a, b := output(i, x, p, s), output(i, y, q, t)
	na, nb := len(a), len(b)
	v.Assert(na == nb, "P30:output-count")
	for k := range a {
		// every entry depends on all three values
		v.Assert(v.Not(v.StrEq(v.JSON(a[k]), v.JSON(b[k]))), "P30:output-differs")
	}
	v.Reach("end")
}

const nOutputs = 14

type tri struct {
	A, B, C any
}

// output lists elements; in each one attribute of every type depends on the values.
func output(i int, x int64, p bool, s string) (out []any) {
	add := func(ints, bools, strs []any) {
		n := max(len(ints), len(bools), len(strs))
		at := func(l []any, k int) any {
			if len(l) == 0 {
				return nil
			}
			return l[k%len(l)]
		}
		for k := 0; k < n; k++ {
			e := tri{at(ints, k), at(bools, k), at(strs, k)}
			if len(ints) == 0 {
				e.A = x
			}
			if len(bools) == 0 {
				e.B = p
			}
			if len(strs) == 0 {
				e.C = s
			}
			out = append(out, e)
		}
	}
	bs := types.BitStr(s)
	ac := func(f func(types.Access) any) (l []any) {
		for _, a := range []types.Access{{RegCount: x}, {RegWidth: x}, {ItemCount: x}, {ItemWidth: x}, {StartAddr: x}, {EndAddr: x}, {StartBit: x}, {EndBit: x}, {StartRegWidth: x}, {EndRegWidth: x}} {
			l = append(l, f(a))
		}
		return
	}
	rng := func(f func(types.Range) any) []any {
		return []any{f(types.SingleRange{Start: x}), f(types.SingleRange{End: x}), f(types.ArrayRange{{Start: x}}), f(types.ArrayRange{{}, {End: x}})}
	}
	base := func(f func(fn.Func) any) (ints, bools, strs []any) {
		return []any{f(fn.Func{Count: x})}, []any{f(fn.Func{IsArray: p})}, []any{f(fn.Func{Name: s}), f(fn.Func{Doc: s})}
	}
	type l = []any
	switch i {
	case 0:
		n, b, t := base(func(f fn.Func) any { return &fn.Blackbox{Func: f} })
		add(append(n, &fn.Blackbox{Size: x}, &fn.Blackbox{Sizes: types.Sizes{Own: x}}, &fn.Blackbox{AddrSpace: types.SingleRange{Start: x}}, &fn.Blackbox{AddrSpace: types.SingleRange{End: x}}), b, t)
	case 1:
		n, b, t := base(func(f fn.Func) any { return &fn.Block{Func: f} })
		add(append(n, &fn.Block{Align: x}, &fn.Block{Masters: x}, &fn.Block{Width: x}, &fn.Block{Sizes: types.Sizes{Own: x}}, &fn.Block{Sizes: types.Sizes{Cumulated: x}}, &fn.Block{Sizes: types.Sizes{Aligned: x}},
			&fn.Block{AddrSpace: types.SingleRange{Start: x}}, &fn.Block{AddrSpace: types.SingleRange{End: x}}), b, append(t, &fn.Block{Reset: s}))
	case 2:
		n, b, t := base(func(f fn.Func) any { return &fn.Config{Func: f} })
		n = append(n, rng(func(r types.Range) any { return &fn.Config{Range: r} })...)
		n = append(n, ac(func(a types.Access) any { return &fn.Config{Access: a} })...)
		add(append(n, &fn.Config{Width: x}), append(b, &fn.Config{Atomic: p}), append(t, &fn.Config{InitValue: bs}, &fn.Config{ReadValue: bs}, &fn.Config{ResetValue: bs}, &fn.Config{Access: types.Access{Type: s}}))
	case 3:
		n, b, t := base(func(f fn.Func) any { return &fn.Group{Func: f} })
		add(n, append(b, &fn.Group{Virtual: p}), t)
		f := fn.Func{Name: s, IsArray: p, Count: x}
		out = append(out, &fn.Group{Configs: []*fn.Config{{Func: f}}}, &fn.Group{Irqs: []*fn.Irq{{Func: f}}}, &fn.Group{Masks: []*fn.Mask{{}, {Func: f}}},
			&fn.Group{Params: []*fn.Param{{Func: f}}}, &fn.Group{Returns: []*fn.Return{{Func: f}}}, &fn.Group{Statics: []*fn.Static{{Func: f}}}, &fn.Group{Statuses: []*fn.Status{{Func: f}}})
	case 4:
		n, b, t := base(func(f fn.Func) any { return &fn.Irq{Func: f} })
		n = append(n, ac(func(a types.Access) any { return &fn.Irq{Access: a} })...)
		n = append(n, ac(func(a types.Access) any { return &fn.Irq{EnableAccess: a} })...)
		add(append(n, &fn.Irq{ClearAddr: &x}), append(b, &fn.Irq{AddEnable: p}),
			append(t, &fn.Irq{Clear: s}, &fn.Irq{EnableInitValue: bs}, &fn.Irq{EnableResetValue: bs}, &fn.Irq{InTrigger: s}, &fn.Irq{OutTrigger: s}))
	case 5:
		n, b, t := base(func(f fn.Func) any { return &fn.Mask{Func: f} })
		n = append(n, ac(func(a types.Access) any { return &fn.Mask{Access: a} })...)
		add(append(n, &fn.Mask{Width: x}), append(b, &fn.Mask{Atomic: p}), append(t, &fn.Mask{InitValue: bs}, &fn.Mask{ReadValue: bs}, &fn.Mask{ResetValue: bs}))
	case 6:
		n, b, t := base(func(f fn.Func) any { return &fn.Param{Func: f} })
		n = append(n, rng(func(r types.Range) any { return &fn.Param{Range: r} })...)
		n = append(n, ac(func(a types.Access) any { return &fn.Param{Access: a} })...)
		add(append(n, &fn.Param{Width: x}), b, t)
	case 7:
		n, b, t := base(func(f fn.Func) any { return &fn.Proc{Func: f} })
		add(append(n, &fn.Proc{CallAddr: &x}, &fn.Proc{ExitAddr: &x}, &fn.Proc{Delay: &types.Time{S: x}}, &fn.Proc{Delay: &types.Time{Ns: x}},
			&fn.Proc{Params: []*fn.Param{{Width: x}}}, &fn.Proc{Returns: []*fn.Return{{}, {Width: x}}}), b, t)
	case 8:
		n, b, t := base(func(f fn.Func) any { return &fn.Return{Func: f} })
		n = append(n, ac(func(a types.Access) any { return &fn.Return{Access: a} })...)
		add(append(n, &fn.Return{Width: x}), b, t)
	case 9:
		n, b, t := base(func(f fn.Func) any { return &fn.Static{Func: f} })
		n = append(n, ac(func(a types.Access) any { return &fn.Static{Access: a} })...)
		add(append(n, &fn.Static{Width: x}), b, append(t, &fn.Static{InitValue: bs}, &fn.Static{ReadValue: bs}, &fn.Static{ResetValue: bs}))
	case 10:
		n, b, t := base(func(f fn.Func) any { return &fn.Status{Func: f} })
		n = append(n, ac(func(a types.Access) any { return &fn.Status{Access: a} })...)
		add(append(n, &fn.Status{Width: x}), append(b, &fn.Status{Atomic: p}), append(t, &fn.Status{ReadValue: bs}))
	case 11:
		n, b, t := base(func(f fn.Func) any { return &fn.Stream{Func: f} })
		add(append(n, &fn.Stream{StbAddr: x}, &fn.Stream{Delay: &types.Time{S: x}}, &fn.Stream{Params: []*fn.Param{{Width: x}}}, &fn.Stream{Returns: []*fn.Return{{}, {Width: x}}}), b, t)
	case 12:
		f := fn.Func{Name: s, IsArray: p, Count: x}
		out = append(out, &fn.Block{Blackboxes: []*fn.Blackbox{{Func: f}}}, &fn.Block{Configs: []*fn.Config{{Func: f}}}, &fn.Block{Groups: []*fn.Group{{Func: f}}}, &fn.Block{Irqs: []*fn.Irq{{Func: f}}},
			&fn.Block{Masks: []*fn.Mask{{Func: f}}}, &fn.Block{Procs: []*fn.Proc{{Func: f}}}, &fn.Block{Statics: []*fn.Static{{Func: f}}}, &fn.Block{Statuses: []*fn.Status{{Func: f}}},
			&fn.Block{Streams: []*fn.Stream{{Func: f}}}, &fn.Block{Subblocks: []*fn.Block{{}, {Func: f}}})
	case 13:
		c := func(c cnst.Container) any { return tri{&fn.Block{Consts: c}, &fn.Group{Consts: c}, nil} }
		add(l{c(cnst.Container{Ints: map[string]int64{"a": x}}), c(cnst.Container{IntLists: map[string][]int64{"a": {1, x}}})},
			l{c(cnst.Container{Bools: map[string]bool{"a": p}}), c(cnst.Container{BoolLists: map[string][]bool{"a": {true, p}}})},
			l{c(cnst.Container{Strings: map[string]string{"a": s}})})
	}
	return
}
