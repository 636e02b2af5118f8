package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

func init() {
	reg_("PropTable", PropTable)
	reg_("PropInt", PropInt)
	reg_("PropStr", PropStr)
	reg_("PropDelay", PropDelay)
	reg_("PropEnable", PropEnable)
	reg_("RangeWidth", RangeWidth)
	reg_("RangeConflict", RangeConflict)
	reg_("InitInt", InitInt)
	reg_("InitHuge", InitHuge)
	reg_("InitStr", InitStr)
	reg_("IdValue", IdValue)
}

var kinds = []string{"blackbox", "block", "bus", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream"}

var propNames = []string{
	"access", "add-enable", "align", "atomic", "byte-write-enable", "clear", "delay", "enable-init-value", "enable-reset-value",
	"init-value", "in-trigger", "masters", "out-trigger", "range", "read-latency", "read-value", "reset", "reset-value", "size", "virtual", "width",
}

// legalProps is the table of the language reference.
var legalProps = map[string]string{
	"blackbox": " size ",
	"block":    " align masters reset ",
	"bus":      " align masters reset width ",
	"config":   " atomic init-value range read-value reset-value width ",
	"group":    " virtual ",
	"irq":      " add-enable clear enable-init-value enable-reset-value in-trigger out-trigger ",
	"mask":     " atomic init-value read-value reset-value width ",
	"param":    " range width ",
	"proc":     " delay ",
	"return":   " width ",
	"static":   " init-value read-value reset-value width ",
	"status":   " atomic read-value width ",
	"stream":   " delay ",
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

func legal(kind, prop string) bool { return contains(legalProps[kind], " "+prop+" ") }

// valueType is the type a property takes.
func valueType(prop string) string {
	switch prop {
	case "access", "clear", "in-trigger", "out-trigger", "reset":
		return "string"
	case "add-enable", "atomic", "byte-write-enable", "virtual":
		return "bool"
	case "delay":
		return "time"
	case "range":
		return "range"
	case "init-value", "read-value", "reset-value", "enable-init-value", "enable-reset-value":
		return "value"
	}
	return "int"
}

// inst returns a complete description with one functionality "e" of the given kind
// and the given property lines (without indentation).
func inst(kind, name string, props ...string) string {
	body := func(ind string) string {
		s := ""
		for _, p := range props {
			s += ind + p + "\n"
		}
		switch kind {
		case "blackbox":
			s += sizeLine(ind, props)
		case "static":
			s += initLine(ind, props)
		case "group":
			s += ind + "g1 config\n" + ind + "g2 config\n"
		}
		return s
	}
	switch kind {
	case "bus":
		return "Main bus\n" + body("  ") + "  c config\n    width = 1\n"
	case "param":
		return "Main bus\n  o " + []string{"proc", "stream"}[v.Choice("outer", 2)] + "\n    " + name + " param\n" + body("      ")
	case "return":
		return "Main bus\n  o " + []string{"proc", "stream"}[v.Choice("outer", 2)] + "\n    " + name + " return\n" + body("      ")
	}
	return "Main bus\n  " + name + " " + kind + "\n" + body("    ")
}

func hasProp(props []string, p string) bool {
	for _, x := range props {
		if len(x) > len(p) && x[:len(p)] == p && x[len(p)] == ' ' {
			return true
		}
	}
	return false
}

func sizeLine(ind string, props []string) string {
	if hasProp(props, "size") {
		return ""
	}
	return ind + "size = 4\n"
}

func initLine(ind string, props []string) string {
	if hasProp(props, "init-value") {
		return ""
	}
	return ind + "init-value = 0\n"
}

// PropTable: a property of a kind is accepted exactly when the kind has it and the
// value has its type.
func PropTable() {
	v.FreeHash()
	kind := kinds[v.Choice("kind", len(kinds))]
	prop := propNames[v.Choice("prop", len(propNames))]
	vt := v.Choice("value", 8)
	max := int64(1) << 20
	if prop == "width" {
		max = 64
	}
	n, x := v.Lit("n", 1, max)
	val := []string{n, "true", "\"" + goodString(prop) + "\"", "1 ms", "b\"1\"", n + ":" + n, "1.5", "[0:" + n + "]"}[vt]
	props := []string{prop + " = " + val}
	if prop == "enable-init-value" || prop == "enable-reset-value" {
		props = append(props, "add-enable = true")
	}
	_, res := compile(inst(kind, "e", props...))
	ok := legal(kind, prop)
	num := vt == 0
	switch valueType(prop) {
	case "string":
		ok = ok && vt == 2
	case "bool":
		ok = ok && vt == 1
	case "time":
		ok = ok && vt == 3
	case "value":
		ok = ok && (vt == 4 || vt == 0)
	case "range":
		ok = ok && (vt == 0 || vt == 5 || vt == 7)
	default:
		ok = ok && num
	}
	exp := ok
	if ok && num {
		switch prop {
		case "align":
			exp = x&(x-1) == 0
		case "init-value", "read-value", "reset-value":
			exp = x <= 1<<32-1
		case "enable-init-value", "enable-reset-value":
			exp = x <= 1
		}
	}
	v.Assert(res != 1, "P10:crash")
	v.Assert(v.Iff(exp, res == 0), "P10:accepted")
	v.Reach("end")
	if res == 0 {
		v.Reach("accepted")
	}
}

func goodString(prop string) string {
	switch prop {
	case "access":
		return "Read Only"
	case "clear":
		return "On Read"
	case "in-trigger", "out-trigger":
		return "Edge"
	}
	return "Async"
}

// PropInt: integer properties over all integers: domain, stored value, default.
func PropInt() {
	v.FreeHash()
	type pk struct{ kind, prop string }
	cases := []pk{{"block", "align"}, {"bus", "align"}, {"block", "masters"}, {"bus", "masters"}, {"bus", "width"}, {"blackbox", "size"},
		{"config", "width"}, {"mask", "width"}, {"param", "width"}, {"return", "width"}, {"static", "width"}, {"status", "width"}}
	c := cases[v.Choice("case", len(cases))]
	form := v.Choice("form", 3) // absent, value, negative value
	hi := int64(1) << 40
	switch {
	case c.kind == "bus" && c.prop == "width":
		hi = 64
	case c.prop == "width":
		hi = 100
	}
	lo := int64(0)
	if c.prop == "width" {
		lo = 1
	}
	l, x := v.Lit("x", lo, hi)
	props := []string{}
	switch form {
	case 1:
		props = append(props, c.prop+" = "+l)
	case 2:
		v.Assume(x > 0)
		props = append(props, c.prop+" = -"+l)
		x = -x
	}
	b, res := compile(inst(c.kind, "e", props...))
	v.Assert(res != 1, "P10:crash")
	exp := true
	dflt := int64(32)
	if form > 0 {
		switch c.prop {
		case "align":
			exp = v.And(x > 0, x&(x-1) == 0)
		case "masters", "size":
			exp = x > 0
		default:
			exp = x >= 0
		}
	} else {
		switch c.prop {
		case "align":
			dflt = 0
		case "masters":
			dflt = 1
		case "size":
			dflt = 4
		}
		x = dflt
	}
	v.Assert(v.Iff(exp, res == 0), "P10:accepted")
	if res != 0 {
		return
	}
	got := int64(-1)
	switch c.kind + " " + c.prop {
	case "block align":
		got = b.Subblocks[0].Align
	case "bus align":
		got = b.Align
	case "block masters":
		got = b.Subblocks[0].Masters
	case "bus masters":
		got = b.Masters
	case "bus width":
		got = b.Width
	case "blackbox size":
		got = b.Blackboxes[0].Size
	case "config width":
		got = b.Configs[0].Width
	case "mask width":
		got = b.Masks[0].Width
	case "static width":
		for _, s := range b.Statics {
			if s.Name == "e" {
				got = s.Width
			}
		}
	case "status width":
		got = b.Statuses[0].Width
	case "param width", "return width":
		p, r := members(b)
		if len(p) == 1 && len(r) == 0 {
			got = p[0].Width
		}
		if len(r) == 1 && len(p) == 0 {
			got = r[0].Width
		}
	}
	v.Assert(got == x, "P10:stored")
	v.Reach("end")
}

// members returns the params and returns of the only proc or stream of the bus.
func members(b *fn.Block) ([]*fn.Param, []*fn.Return) {
	if len(b.Procs) == 1 {
		return b.Procs[0].Params, b.Procs[0].Returns
	}
	if len(b.Streams) == 1 {
		return b.Streams[0].Params, b.Streams[0].Returns
	}
	return nil, nil
}

// PropStr: properties with enumerated string values accept exactly the listed
// values, whatever the string.
func PropStr() {
	v.FreeHash()
	type pk struct{ kind, prop, a, b, dflt string }
	cases := []pk{{"irq", "clear", "Explicit", "On Read", "Explicit"}, {"irq", "in-trigger", "Edge", "Level", "Level"},
		{"irq", "out-trigger", "Edge", "Level", "Level"}, {"block", "reset", "Sync", "Async", ""}, {"bus", "reset", "Sync", "Async", ""}}
	c := cases[v.Choice("case", len(cases))]
	n := v.Choice("len", 11)
	if !v.Thorough() && n < 9 && n != len(c.a) && n != len(c.b) && n > 1 {
		return
	}
	props := []string{}
	s := c.dflt
	exp := true
	if n < 10 {
		s = v.Str("s", n)
		for i := 0; i < n; i++ {
			v.Assume(all(s[i] >= 32, s[i] < 127, s[i] != '"'))
		}
		props = append(props, c.prop+" = \""+s+"\"")
		exp = v.Or(v.StrEq(s, c.a), v.StrEq(s, c.b))
	}
	b, res := compile(inst(c.kind, "e", props...))
	v.Assert(res != 1, "P10:crash")
	v.Assert(v.Iff(exp, res == 0), "P10:accepted")
	if res != 0 {
		return
	}
	got := ""
	switch c.kind + " " + c.prop {
	case "irq clear":
		got = b.Irqs[0].Clear
	case "irq in-trigger":
		got = b.Irqs[0].InTrigger
	case "irq out-trigger":
		got = b.Irqs[0].OutTrigger
	case "block reset":
		got = b.Subblocks[0].Reset
	case "bus reset":
		got = b.Reset
	}
	v.Assert(v.StrEq(got, s), "P10:stored")
	v.Reach("end")
}

// PropDelay: the delay of a procedure or stream is kept exactly.
func PropDelay() {
	v.FreeHash()
	l, x := v.Lit("x", 0, 1<<62)
	u := v.Choice("unit", 5)
	kind := []string{"proc", "stream"}[v.Choice("kind", 2)]
	props := []string{}
	if u < 4 {
		props = append(props, "delay = "+l+" "+[]string{"s", "ms", "us", "ns"}[u])
	}
	b, res := compile(inst(kind, "e", props...))
	v.Assert(res == 0, "P10:accepted")
	if res != 0 {
		return
	}
	var d *types.Time
	if kind == "proc" {
		d = b.Procs[0].Delay
	} else {
		d = b.Streams[0].Delay
	}
	if u == 4 {
		v.Assert(d == nil, "P10:stored")
		return
	}
	v.Assert(d != nil, "P10:stored")
	if d == nil {
		return
	}
	per := []int64{1, 1000, 1000000, 1000000000}[u]
	ns := []int64{1000000000, 1000000, 1000, 1}[u]
	v.Assert(all(d.S == x/per, d.Ns == x%per*ns), "P10:stored")
	v.Reach("end")
}

// PropEnable: enable values of irqs need the enable register.
func PropEnable() {
	v.FreeHash()
	add := v.Choice("add", 3)
	val := v.Choice("val", 3)
	first := v.Choice("first", 2) == 1
	l, x := v.Lit("x", 0, 5)
	a, e := "", ""
	if add > 0 {
		a = "    add-enable = " + []string{"", "false", "true"}[add] + "\n"
	}
	if val > 0 {
		e = "    enable-" + []string{"", "init", "reset"}[val] + "-value = " + l + "\n"
	}
	if first {
		a, e = e, a
	}
	b, res := compile("Main bus\n  q irq\n" + a + e)
	v.Assert(v.Iff(res == 0, v.Or(val == 0, v.And(add == 2, x <= 1))), "P10:accepted")
	if res != 0 {
		return
	}
	q := b.Irqs[0]
	v.Assert(q.AddEnable == (add == 2), "P10:stored")
	if val == 1 {
		v.Assert(all(string(q.EnableInitValue) == bit(x), q.EnableResetValue == ""), "P10:stored")
	} else if val == 2 {
		v.Assert(all(string(q.EnableResetValue) == bit(x), q.EnableInitValue == ""), "P10:stored")
	} else {
		v.Assert(q.EnableResetValue == "" && q.EnableInitValue == "", "P10:stored")
	}
	v.Reach("end")
}

func bit(x int64) string { return "b\"" + string([]byte{byte('0' + x)}) + "\"" }

// rangeText returns the text and the bounds of a range property value.
func rangeText(form int) (s string, ls, rs []int64) {
	max := int64(1)<<62 + 5
	one := func(i string) string {
		a, x := v.Lit("l"+i, 0, max)
		b, y := v.Lit("r"+i, 0, max)
		ls, rs = append(ls, x), append(rs, y)
		return a + ":" + b
	}
	switch form {
	case 0:
		a, x := v.Lit("r", 0, max)
		return a, []int64{0}, []int64{x}
	case 1:
		return one("0"), ls, rs
	case 2:
		s = "[" + one("0") + "]"
	case 3:
		s = "[" + one("0") + ", " + one("1") + "]"
	case 4:
		a, x := v.Lit("r", 1, max)
		return "-" + a, []int64{0}, []int64{-x}
	case 5:
		a, x := v.Lit("l", 1, max)
		b, y := v.Lit("r", 0, max)
		return "-" + a + ":" + b, []int64{-x}, []int64{y}
	case 6:
		a, x := v.Lit("l", 1, max)
		s = "[0:1, -" + a + ":3]"
		ls, rs = []int64{0, -x}, []int64{1, 3}
	case 7:
		s = "[" + one("0") + ", " + one("1") + ", " + one("2") + "]"
	case 8:
		s = "[" + one("0") + ", " + one("1") + ", " + one("2") + ", " + one("3") + "]"
	}
	return
}

// RangeWidth: the width derived from a range holds every value of the range and no
// bit is wasted; improper ranges are rejected; the range is kept.
func RangeWidth() {
	v.FreeHash()
	kind := []string{"config", "param"}[v.Choice("kind", 2)]
	form := v.Choice("form", 9)
	s, ls, rs := rangeText(form)
	src := "Main bus\n  e config\n    range = " + s + "\n"
	if kind == "param" {
		src = "Main bus\n  p proc\n    e param\n      range = " + s + "\n"
	}
	b, res := compile(src)
	v.Assert(res != 1, "P11:crash")
	exp := true
	max := int64(1)
	for i := range ls {
		exp = all(exp, ls[i] >= 0, rs[i] >= 0, ls[i] <= rs[i])
		max = v.Ite(rs[i] > max, rs[i], max)
	}
	v.Assert(v.Iff(exp, res == 0), "P11:accepted")
	if res != 0 {
		return
	}
	var w int64
	var r types.Range
	if kind == "param" {
		w, r = b.Procs[0].Params[0].Width, b.Procs[0].Params[0].Range
	} else {
		w, r = b.Configs[0].Width, b.Configs[0].Range
	}
	fits := v.And(w >= 1, w <= 63)
	v.Assert(fits, "P11:width")
	v.Assert(imp(fits, all(max>>uint(w) == 0, max>>uint(w-1) != 0)), "P11:width")
	rb := r.BitWidth()
	v.Assert(rb == w, "P11:width")
	switch r := r.(type) {
	case types.SingleRange:
		v.Assert(form < 2 && all(r.Start == ls[0], r.End == rs[0]), "P11:stored")
	case types.ArrayRange:
		v.Assert(form >= 2 && len(r) == len(ls), "P11:stored")
		for i := range r {
			v.Assert(all(r[i].Start == ls[i], r[i].End == rs[i]), "P11:stored")
		}
	}
	v.Reach("end")
}

// RangeConflict: range and width exclude each other in a body and along a type chain,
// whatever is set between them.
func RangeConflict() {
	v.FreeHash()
	kind := []string{"config", "param"}[v.Choice("kind", 2)]
	l, x := v.Lit("w", 1, 32)
	m, y := v.Lit("r", 0, 1<<20)
	a, b := "width = "+l, "range = "+m
	if v.Choice("swap", 2) == 1 {
		a, b = b, a
	}
	between, before, after := "", "", ""
	if kind == "config" {
		extra := v.Choice("extra", 4)
		between = []string{"", "; atomic = false", "; init-value = 0; atomic = true", ""}[extra]
		before = []string{"", "", "", "atomic = true; "}[extra]
		after = []string{"; init-value = 0", "", "", "; init-value = 1"}[extra]
	}
	form := v.Choice("form", 2)
	body := func(ind string, props ...string) string {
		if form == 0 {
			r := ""
			for _, p := range props {
				r += "; " + p
			}
			return r + "\n"
		}
		r := "\n"
		for _, p := range props {
			r += ind + p + "\n"
		}
		return r
	}
	in := "    "
	if kind == "param" {
		in = "      "
	}
	where := v.Choice("where", 4)
	src := "type T " + kind + "\n"
	inst := " T\n"
	switch where {
	case 0:
		src = "type T " + kind + body("  ", before+a+between, b+after)
	case 1:
		inst = " T" + body(in, before+a+between, b+after)
	case 2:
		src = "type T " + kind + body("  ", before+a+between)
		inst = " T" + body(in, b)
	case 3: // no type
		inst = " " + kind + body(in, before+a+between, b+after)
	}
	if kind == "config" {
		src += "Main bus\n  e" + inst
	} else {
		src += "Main bus\n  p proc\n    e" + inst
	}
	_, res := compile(src)
	v.Assert(res == 2, "P11:conflict")
	v.Observe("x", x+y)
	v.Reach("end")
}

func init_(b *fn.Block, kind string, which int) (s string, w int64) {
	switch kind {
	case "config":
		x := b.Configs[0]
		return string([]types.BitStr{x.InitValue, x.ReadValue, x.ResetValue}[which]), x.Width
	case "mask":
		x := b.Masks[0]
		return string([]types.BitStr{x.InitValue, x.ReadValue, x.ResetValue}[which]), x.Width
	case "static":
		for _, x := range b.Statics {
			if x.Name == "e" {
				return string([]types.BitStr{x.InitValue, x.ReadValue, x.ResetValue}[which]), x.Width
			}
		}
	case "status":
		return string(b.Statuses[0].ReadValue), b.Statuses[0].Width
	case "irq":
		return string([]types.BitStr{b.Irqs[0].EnableInitValue, "", b.Irqs[0].EnableResetValue}[which]), 1
	}
	return "", -1
}

// valueCase chooses a kind, one of its value properties and the other lines.
func valueCase() (kind string, which int, prop string, other []string) {
	kind = []string{"config", "mask", "static", "status", "irq"}[v.Choice("kind", 5)]
	which = v.Choice("which", 3)
	prop = []string{"init-value", "read-value", "reset-value"}[which]
	if kind == "status" && which != 1 || kind == "irq" && which == 1 {
		v.Skip()
	}
	if kind == "irq" {
		prop = "enable-" + prop
		other = []string{"add-enable = true"}
	}
	return
}

// digit value of c, -1 when it is not a digit.
func digit(c byte) int64 {
	x := int64(c)
	return v.Ite(within('0', x, '9'), x-'0', v.Ite(within('a', x, 'f'), x-'a'+10, v.Ite(within('A', x, 'F'), x-'A'+10, -1)))
}

// represents: the bit string s has exactly w bits and the value of x in them.
func represents(s string, x, w int64) bool {
	if len(s) < 3 || s[1] != '"' || s[len(s)-1] != '"' {
		return false
	}
	k := int64(1)
	switch s[0] {
	case 'x':
		k = 4
	case 'o':
		k = 3
	case 'b':
	default:
		return false
	}
	n := int64(len(s) - 3)
	if n*k != w {
		return false
	}
	r := true
	for i := int64(0); i < n; i++ {
		sh := k * (n - 1 - i)
		if sh > 63 {
			sh = 63
		}
		r = v.And(r, digit(s[2+i]) == (x>>uint(sh))&(1<<uint(k)-1))
	}
	return r
}

func valueWidths() []int64 {
	if v.Thorough() {
		return []int64{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 27, 31, 32, 33, 36, 48, 60, 61, 62, 63, 64, 65, 66, 67, 68, 72, 96, 100}
	}
	return []int64{1, 2, 3, 4, 7, 8, 32, 33, 62, 63, 64, 65, 68}
}

// InitInt: integer init, read and reset values.
func InitInt() {
	v.FreeHash()
	kind, which, prop, other := valueCase()
	ws := valueWidths()
	w := int64(1)
	if kind != "irq" {
		w = ws[v.Choice("width", len(ws))]
		other = append(other, "width = "+num(int(w)))
	}
	l, x := v.Lit("x", 0, 1<<62+(1<<62-1))
	if v.Choice("neg", 2) == 1 {
		x = -x
		l = "-" + l
	}
	props := append(other, prop+" = "+l)
	if v.Choice("order", 2) == 1 {
		props = append([]string{prop + " = " + l}, other...)
	}
	b, res := compile(inst(kind, "e", props...))
	v.Assert(res != 1, "P12:crash")
	exp := true
	if w < 63 {
		exp = x <= 1<<uint(w)-1
	}
	if w < 64 {
		exp = v.And(exp, x >= -(1<<uint(w-1)))
	}
	v.Assert(v.Iff(exp, res == 0), "P12:accepted")
	if res != 0 {
		return
	}
	s, gw := init_(b, kind, which)
	v.Assert(gw == w, "P12:width")
	v.Assert(represents(s, x, w), "P12:value")
	for i := 0; i < 3; i++ {
		if i != which && !(kind == "static" && i == 0) && !(kind == "status") {
			o, _ := init_(b, kind, i)
			v.Assert(o == "", "P12:others")
		}
	}
	v.Reach("end")
}

// InitHuge: values for widths that no memory can hold.
func InitHuge() {
	v.FreeHash()
	kind, _, prop, other := valueCase()
	if kind == "irq" {
		return
	}
	l, _ := v.Lit("width", 1<<61, 1<<62+(1<<62-1))
	vals := []string{"0", "1", "-1", "9223372036854775807"}
	other = append(other, "width = "+l, prop+" = "+vals[v.Choice("value", len(vals))])
	_, res := compile(inst(kind, "e", other...))
	v.Assert(v.Or(res == 0, res == 2), "P12:crash")
	v.Assert(v.Or(res == 0, res == 2), "P22:crash")
	v.Reach("end")
}

// InitStr: bit string init, read and reset values with any characters.
func InitStr() {
	v.FreeHash()
	kind, which, prop, other := valueCase()
	pre := []string{"b", "B", "o", "O", "x", "X"}[v.Choice("prefix", 6)]
	max := 3
	if v.Thorough() {
		max = 5
	}
	n := 1 + v.Choice("digits", max)
	w, wt := int64(1), "1"
	if kind != "irq" {
		wt, w = v.Lit("w", 1, 24)
		other = append(other, "width = "+wt)
	}
	s := v.Str("s", n)
	hi := byte('0')
	k := int64(1)
	switch pre {
	case "b", "B":
		hi = '1'
	case "o", "O":
		hi, k = '7', 3
	default:
		hi, k = '9', 4
	}
	ok := true
	for i := 0; i < n; i++ {
		c := s[i]
		v.Assume(all(c >= 32, c < 127, c != '"'))
		okc := v.And(c >= '0', c <= hi)
		if k == 4 {
			okc = anyOf(okc, v.And(c >= 'a', c <= 'f'), v.And(c >= 'A', c <= 'F'))
		}
		okc = anyOf(okc, c == '-', c == 'u', c == 'U', c == 'w', c == 'W', c == 'x', c == 'X', c == 'z', c == 'Z')
		ok = v.And(ok, okc)
	}
	src := inst(kind, "e", append(other, prop+" = "+pre+"\""+s+"\"")...)
	b, res := compile(src)
	v.Assert(res != 1, "P12:crash")
	v.Assert(v.Iff(v.And(ok, k*int64(n) <= w), res == 0), "P12:accepted")
	if res != 0 {
		return
	}
	got, _ := init_(b, kind, which)
	low := pre
	if low < "a" {
		low = string([]byte{pre[0] + 32})
	}
	v.Assert(v.StrEq(got, low+"\""+s+"\""), "P12:value")
	v.Reach("end")
}

// IdValue: the identifier and the timestamp are complete and as wide as documented.
func IdValue() {
	bw := int64(32)
	if v.Thorough() {
		bw = 1 + int64(v.Choice("bus", 70))
	} else {
		bw = []int64{1, 2, 3, 4, 7, 8, 15, 16, 24, 30, 31, 32, 33, 35, 36, 37, 40, 64}[v.Choice("bus", 18)]
	}
	v.FreeHash()
	ts := v.Choice("ts", 2) == 1
	s0, _ := declare(v.Choice("kind", kN), "e0", "  ", bw)
	// The hash is free for the solver. When its values are replayed on the real
	// code, the hash is the real one, so try descriptions with different hashes.
	salts := 1
	if !v.Symbolic() {
		salts = 64
	}
	for i := 0; i < salts; i++ {
		src := "Main bus\n  width = " + num(int(bw)) + "\n" + s0
		for j := 0; j < i; j++ {
			src += "  " + nm("s", j) + " status\n"
		}
		if !checkId(src, bw, ts) {
			return
		}
	}
	v.Reach("end")
}

func checkId(src string, bw int64, ts bool) bool {
	v.File("bus.fbd", src)
	var b *fn.Block
	var err error
	res := v.Try(func() { b, _, err = fbdl.Compile("bus.fbd", "Main", ts) })
	if err != nil {
		res = 2
	}
	v.Assert(res == 0, "P09:accepted")
	if res != 0 {
		return false
	}
	width := func(max int64) int64 {
		if bw < max {
			return bw
		}
		return max
	}
	ids, tss := 0, 0
	for _, s := range b.Statics {
		switch s.Name {
		case "ID":
			ids++
			w := width(32)
			v.Assert(s.Width == w, "P09:width")
			v.Assert(goodBits(string(s.InitValue), w), "P09:value")
			a := s.Access
			v.Assert(all(a.StartAddr == 0, a.EndAddr == 0, a.StartBit == 0, a.EndBit == w-1, s.Count == 1, !s.IsArray), "P09:place")
		case "TIMESTAMP":
			tss++
			w := width(36)
			v.Assert(s.Width == w, "P09:tswidth")
			v.Assert(goodBits(string(s.InitValue), w), "P09:tsvalue")
			a := s.Access
			v.Assert(all(a.StartAddr == a.EndAddr, a.StartBit == 0, a.EndBit == w-1, s.Count == 1, !s.IsArray), "P09:tsplace")
		}
	}
	v.Assert(ids == 1, "P09:one")
	v.Assert(tss == 1 == ts, "P09:ts")
	return true
}

// goodBits: s is a bit string of exactly w bits, all of them digits.
func goodBits(s string, w int64) bool {
	if len(s) < 4 || s[1] != '"' || s[len(s)-1] != '"' {
		return false
	}
	k, max := int64(1), int64(1)
	switch s[0] {
	case 'x':
		k, max = 4, 15
	case 'o':
		k, max = 3, 7
	case 'b':
	default:
		return false
	}
	if int64(len(s)-3)*k != w {
		return false
	}
	r := true
	for i := 2; i < len(s)-1; i++ {
		r = v.And(r, within(0, digit(s[i]), max))
	}
	return r
}
