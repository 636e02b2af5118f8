package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"slices"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow exceptions of the interpreter ----

type unsupported struct{ msg string }
type targetPanic struct {
	v   Iface
	msg string // run-time error text ("" for an explicit panic)
}
type fatalExit struct {
	code int
	msg  string
}
type pathEnd struct{ why string } // infeasible, bound, done
type mergeAbort struct{}
type diverge struct{ why string } // stack exhausted or step limit

type Dec struct {
	K uint8  `json:"k"` // 0 branch, 1 value, 2 choice
	B bool   `json:"b"`
	V uint64 `json:"v"`
	I bool   `json:"i,omitempty"` // implied by the path condition
}

type Input struct {
	Name string
	T    *Term
	Lit  bool
	C    uint64 // for concrete choices
	Kind string // int, bool, byte, str(start), choice
}

type Obs struct {
	Name string
	V    value
	kind string
}

// Path is the state of the path being executed.
type Path struct {
	prefix    []Dec
	decs      []Dec
	pos       int
	pc        []*Term
	known     map[*Term]bool
	model     Model
	globals   map[*ssa.Global]*value
	inputs    []Input
	names     map[string]int
	obs       []Obs
	steps     int64
	depth     int
	merge     int
	gos       []goWait
	cur       *goState
	wgs       map[*value]*wgState
	locks     map[*value]int
	race      raceState
	permMap   int  // map iterations which may still be out of order
	permGo    bool // races are detected
	permOrd   bool // any order of goroutines
	tryDep    int
	vio       bool
	tags      []string
	lits      map[string]*Term
	adler     []adlerCall
	state     map[string]value
	incompl   string
	fresh     int
	catch     string
	once      map[*value]bool
	adlerUF   bool
	adlerFree bool
	pending   []pendA
	lastFatal []value
	capture   bool  // the command line program runs
	logOut    Iface // what log.SetOutput has set
	logFlags  uint64
	now       *Term // the time, when it stands still
}

type adlerCall struct {
	data []value
	h    *Term
}

// W executes paths; one per goroutine.
type W struct {
	P        *Prog
	R        *Run
	tt       *TermTable
	sol      *Solver
	p        *Path
	stdG     map[*ssa.Global]*value
	stdInit  map[*ssa.Package]bool
	methods  map[methKey]*ssa.Function
	implC    map[implKey]bool
	totSteps int64
	evalM    bool
	fns      map[string]int64
	stack    []*ssa.Function
	pend     map[string]uint64 // model of the work item, by variable name
}

type methKey struct {
	t types.Type
	m *types.Func
}
type implKey struct{ t, i types.Type }

func (w *W) unsup(f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func (w *W) rtPanic(msg string) {
	if w.p.merge > 0 {
		panic(mergeAbort{})
	}
	if os.Getenv("VE_DEBUG") == "2" {
		fmt.Fprintln(os.Stderr, "rtPanic", msg, w.trace())
	}
	panic(targetPanic{v: Iface{types.Typ[types.String], msg}, msg: msg})
}

// ---- decisions ----

func (w *W) addPC(t *Term) {
	if t.isConst() {
		return
	}
	p := w.p
	p.pc = append(p.pc, t)
	w.learn(t, true)
}

func (w *W) learn(t *Term, v bool) {
	if t.isConst() {
		return
	}
	if _, ok := w.p.known[t]; ok {
		return
	}
	w.p.known[t] = v
	switch t.op {
	case OBNot:
		w.learn(t.a[0], !v)
	case OBAnd:
		if v {
			w.learn(t.a[0], true)
			w.learn(t.a[1], true)
		}
	case OBOr:
		if !v {
			w.learn(t.a[0], false)
			w.learn(t.a[1], false)
		}
	}
}

func (w *W) lookKnown(t *Term) (bool, bool) {
	if v, ok := w.p.known[t]; ok {
		return v, true
	}
	if t.op == OBNot {
		if v, ok := w.lookKnown(t.a[0]); ok {
			return !v, true
		}
	}
	if t.op == OBAnd || t.op == OBOr {
		a, ok1 := w.lookKnown(t.a[0])
		b, ok2 := w.lookKnown(t.a[1])
		if t.op == OBAnd {
			if ok1 && !a || ok2 && !b {
				return false, true
			}
			if ok1 && ok2 {
				return a && b, true
			}
		} else {
			if ok1 && a || ok2 && b {
				return true, true
			}
			if ok1 && ok2 {
				return a || b, true
			}
		}
	}
	return false, false
}

func (w *W) evalU(t *Term) uint64 {
	w.usePend()
	if !w.evalM {
		w.tt.NewEval()
		w.evalM = true
	}
	return w.tt.Eval(t, w.p.model)
}

// usePend installs the model that came with the work item once its prefix is consumed.
func (w *W) usePend() {
	if w.pend == nil {
		return
	}
	m := make(Model, len(w.tt.vars))
	for _, v := range w.tt.vars {
		if x, ok := w.pend[v.name]; ok {
			m[v.varIdx] = x
		} else {
			m[v.varIdx] = uint64(v.lo) & mask1(v.w)
		}
	}
	w.p.model = m
	w.evalM = false
	w.pend = nil
}

func (w *W) setModel(m Model) {
	w.pend = nil
	w.p.model = m
	w.evalM = false
}

func (w *W) check(t *Term) (Res, Model) {
	w.usePend()
	w.evalM = false
	return w.sol.Check(w.p.pc, t, w.p.model)
}

func (w *W) replaying() bool { return w.p.pos < len(w.p.prefix) }

func (w *W) record(d Dec) {
	w.p.decs = append(w.p.decs, d)
}

func (w *W) nextDec(k uint8) Dec {
	d := w.p.prefix[w.p.pos]
	if d.K != k {
		w.unsup("replay divergence: decision kind %d, expected %d", d.K, k)
	}
	w.p.pos++
	w.record(d)
	return d
}

func (w *W) decide(t *Term) bool {
	if t.isConst() {
		return t.c != 0
	}
	if v, ok := w.lookKnown(t); ok {
		return v
	}
	if w.p.merge > 0 {
		panic(mergeAbort{})
	}
	w.R.checkStop()
	w.flush()
	if v, ok := w.lookKnown(t); ok {
		return v
	}
	if w.replaying() {
		d := w.nextDec(0)
		switch {
		case d.I:
			w.learn(t, d.B)
		case d.B:
			w.addPC(t)
		default:
			w.addPC(w.tt.Not(t))
		}
		return d.B
	}
	b := w.evalU(t) != 0
	yes, no := t, w.tt.Not(t)
	if !b {
		yes, no = no, yes
	}
	w.usePend()
	r, m := w.check(no)
	switch r {
	case Sat:
		w.push(Dec{K: 0, B: !b}, m)
		w.record(Dec{K: 0, B: b})
		w.p.pos++
		w.p.prefix = w.p.decs
		w.addPC(yes)
	case Unsat:
		w.record(Dec{K: 0, B: b, I: true})
		w.p.pos++
		w.p.prefix = w.p.decs
		w.learn(yes, true)
	case Unknown:
		w.R.note("solver gave no answer for a branch; one side not explored", true)
		w.record(Dec{K: 0, B: b})
		w.p.pos++
		w.p.prefix = w.p.decs
		w.addPC(yes)
	}
	return b
}

// push schedules the sibling of the current path.
func (w *W) push(d Dec, m Model) {
	n := len(w.p.decs)
	pre := make([]Dec, n+1)
	copy(pre, w.p.decs)
	pre[n] = d
	var mm map[string]uint64
	if m != nil {
		mm = map[string]uint64{}
		for _, v := range w.tt.vars {
			if int(v.varIdx) < len(m) {
				mm[v.name] = m[v.varIdx]
			}
		}
	}
	w.R.add(Item{pre, mm})
}

// concretize splits on the values of t; limit bounds the number of values (0: none).
func (w *W) concretize(t *Term, limit int) uint64 {
	if t.isConst() {
		return t.c
	}
	if w.p.merge > 0 {
		panic(mergeAbort{})
	}
	n := 0
	w.flush()
	for {
		w.R.checkStop()
		if w.replaying() {
			d := w.nextDec(1)
			eq := w.tt.Eq(t, w.tt.Const(d.V, t.w))
			if d.I {
				return d.V
			}
			if d.B {
				w.addPC(eq)
				return d.V
			}
			w.addPC(w.tt.Not(eq))
			n++
			continue
		}
		v := w.evalU(t)
		eq := w.tt.Eq(t, w.tt.Const(v, t.w))
		if eq.isConst() {
			return v
		}
		if limit > 0 && n >= limit {
			if os.Getenv("VE_DEBUG") != "" {
				debug.PrintStack()
			}
			w.R.note("value split bounded", true)
		} else {
			r, m := w.check(w.tt.Not(eq))
			switch r {
			case Unsat:
				w.record(Dec{K: 1, B: true, V: v, I: true})
				w.p.pos++
				w.p.prefix = w.p.decs
				return v
			case Sat:
				w.push(Dec{K: 1, B: false, V: v}, m)
			default:
				w.R.note("solver gave no answer in a value split", true)
			}
		}
		w.record(Dec{K: 1, B: true, V: v})
		w.p.pos++
		w.p.prefix = w.p.decs
		w.addPC(eq)
		return v
	}
}

func (w *W) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if w.p.merge > 0 {
		panic(mergeAbort{})
	}
	w.flush()
	if w.replaying() {
		return int(w.nextDec(2).V)
	}
	w.usePend()
	for i := n - 1; i >= 1; i-- {
		w.push(Dec{K: 2, V: uint64(i)}, w.p.model)
	}
	w.record(Dec{K: 2, V: 0})
	w.p.pos++
	w.p.prefix = w.p.decs
	return 0
}

func (w *W) assume(t *Term) {
	w.flush()
	w.assume1(t)
}

func (w *W) assume1(t *Term) {
	if t.isConst() {
		if t.c == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if v, ok := w.lookKnown(t); ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	if !w.replaying() && w.evalU(t) == 0 {
		r, m := w.check(t)
		switch r {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			w.R.note("solver gave no answer for an assumption", true)
			panic(pathEnd{"unknown"})
		}
		w.setModel(m)
	}
	w.addPC(t)
}

type pendA struct {
	t  *Term
	id string
}

// assert checks that t holds on this path; a model of its negation is a violation.
// Assertions made under the same path condition are decided together.
func (w *W) assert(t *Term, id string) {
	if o := w.R.only; o != "" && len(id) > 4 && id[0] == 'P' && id[3] == ':' && id[:3] != o {
		return // belongs to another property
	}
	if t.isConst() {
		if t.c != 0 {
			if !w.replaying() {
				w.R.obligation(id)
			}
			return
		}
		w.flush()
		if w.replaying() {
			panic(pathEnd{"violation"})
		}
		w.R.obligation(id)
		w.usePend()
		w.R.violation(w, id, w.p.model)
		panic(pathEnd{"violation"})
	}
	w.p.pending = append(w.p.pending, pendA{t, id})
}

// flush decides the pending assertions.
func (w *W) flush() {
	if len(w.p.pending) == 0 {
		return
	}
	l := w.p.pending
	w.p.pending = nil
	if w.replaying() {
		// decided when the ancestor path was executed
		for _, a := range l {
			if w.nextDec(3).B {
				w.learn(a.t, true)
			} else {
				w.addPC(a.t)
			}
		}
		return
	}
	rec := func(b bool) {
		w.record(Dec{K: 3, B: b})
		w.p.pos++
		w.p.prefix = w.p.decs
	}
	w.usePend()
	conj := w.tt.tru
	for _, a := range l {
		w.R.obligation(a.id)
		conj = w.tt.And(conj, a.t)
	}
	if len(l) > 1 && !conj.isConst() && w.evalU(conj) != 0 {
		if r, _ := w.check(w.tt.Not(conj)); r == Unsat {
			for _, a := range l {
				rec(true)
				w.learn(a.t, true)
			}
			return
		}
	}
	for _, a := range l {
		if v, ok := w.lookKnown(a.t); ok && v {
			rec(true)
			continue
		}
		if w.evalU(a.t) == 0 {
			w.R.violation(w, a.id, w.p.model)
			rec(false)
			w.assume1(a.t)
			continue
		}
		r, m := w.check(w.tt.Not(a.t))
		switch r {
		case Unsat:
			rec(true)
			w.learn(a.t, true)
			continue
		case Sat:
			w.R.violation(w, a.id, m)
		case Unknown:
			w.R.note("solver gave no answer for obligation "+a.id, true)
		}
		rec(false)
		w.addPC(a.t)
	}
}

// ---- scalar helpers ----

func (w *W) term(v value, wd uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return w.tt.Const(v, wd)
	case bool:
		return w.tt.Bool(v)
	case nil:
		w.unsup("nil scalar")
	}
	panic(unsupported{fmt.Sprintf("not a scalar: %T", v)})
}

func val(t *Term) value {
	if t.op == OConst {
		if t.w == 0 {
			return t.c != 0
		}
		return t.c
	}
	return t
}

func (w *W) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return w.decide(v)
	}
	panic(unsupported{fmt.Sprintf("condition %T", v)})
}

func (w *W) not(v value) value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return val(w.tt.Not(v))
	}
	panic(unsupported{"not"})
}

func (w *W) andV(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return val(w.tt.And(a.(*Term), b.(*Term)))
}

// cint makes an integer concrete (splitting on values).
func (w *W) cint(v value, k kinfo) int64 {
	var u uint64
	switch v := v.(type) {
	case uint64:
		u = v
	case *Term:
		u = w.concretize(v, 0)
	default:
		w.unsup("integer expected, have %T", v)
	}
	if k.signed {
		return sext(u, k.w)
	}
	return int64(u)
}

// force resolves lazily formatted strings.
func (w *W) force(v value) value {
	for {
		l, ok := v.(*LazyStr)
		if !ok {
			return v
		}
		if l.done == nil {
			l.done = l.f()
		}
		v = l.done
	}
}

func (w *W) strLen(v value) int {
	switch v := w.force(v).(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(unsupported{fmt.Sprintf("string expected, have %T", v)})
}

func (w *W) strBytes(v value) []value {
	switch v := w.force(v).(type) {
	case string:
		b := make([]value, len(v))
		for i := range b {
			b[i] = uint64(v[i])
		}
		return b
	case *SymStr:
		return v.b
	}
	panic(unsupported{fmt.Sprintf("string expected, have %T", v)})
}

func mkStr(b []value) value {
	buf := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			c := make([]value, len(b))
			copy(c, b)
			return &SymStr{c}
		}
		buf[i] = byte(u)
	}
	return string(buf)
}

func (w *W) byteAt(v value, i int) value {
	switch v := w.force(v).(type) {
	case string:
		return uint64(v[i])
	case *SymStr:
		return v.b[i]
	}
	panic(unsupported{"byteAt"})
}

func (w *W) substr(v value, lo, hi int) value {
	switch v := w.force(v).(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(v.b[lo:hi])
	}
	panic(unsupported{"substr"})
}

func (w *W) concat(a, b value) value {
	_, l1 := a.(*LazyStr)
	_, l2 := b.(*LazyStr)
	if l1 || l2 {
		return &LazyStr{f: func() value { return w.concat(w.force(a), w.force(b)) }, sig: "+", args: []value{a, b}}
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := w.strBytes(a), w.strBytes(b)
	r := make([]value, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return mkStr(r)
}

func (w *W) strEq(a, b value) value {
	a, b = w.force(a), w.force(b)
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	if w.strLen(a) != w.strLen(b) {
		return false
	}
	xb, yb := w.strBytes(a), w.strBytes(b)
	r := w.tt.tru
	for i := range xb {
		r = w.tt.And(r, w.tt.Eq(w.term(xb[i], 8), w.term(yb[i], 8)))
		if r.isConst() && r.c == 0 {
			return false
		}
	}
	return val(r)
}

func (w *W) strLess(a, b value) value {
	a, b = w.force(a), w.force(b)
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	xb, yb := w.strBytes(a), w.strBytes(b)
	n := min(len(xb), len(yb))
	r := w.tt.Bool(len(xb) < len(yb))
	for i := n - 1; i >= 0; i-- {
		p, q := w.term(xb[i], 8), w.term(yb[i], 8)
		r = w.tt.Or(w.tt.Cmp(OUlt, p, q), w.tt.And(w.tt.Eq(p, q), r))
	}
	return val(r)
}

// ---- equality of arbitrary values ----

func (w *W) equal(t types.Type, a, b value) value {
	switch k := kindOf(t); k.cls {
	case kInt:
		x, ok1 := a.(uint64)
		y, ok2 := b.(uint64)
		if ok1 && ok2 {
			return x == y
		}
		return val(w.tt.Eq(w.term(a, k.w), w.term(b, k.w)))
	case kBool:
		x, ok1 := a.(bool)
		y, ok2 := b.(bool)
		if ok1 && ok2 {
			return x == y
		}
		return val(w.tt.Eq(w.term(a, 0), w.term(b, 0)))
	case kFloat:
		return w.fcmp(token.EQL, a, b)
	case kString:
		return w.strEq(a, b)
	case kPtr, kUnsafePtr:
		x, ok1 := a.(*value)
		y, ok2 := b.(*value)
		if ok1 && ok2 {
			return x == y
		}
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		return a == b
	case kIface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		switch kindOf(x.t).cls {
		case kSlice, kMap, kFunc:
			w.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return w.equal(x.t, x.v, y.v)
	case kStruct:
		st := t.Underlying().(*types.Struct)
		x, y := a.(Struct), b.(Struct)
		var r value = true
		for i := range x {
			r = w.andV(r, w.equal(st.Field(i).Type(), x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case kArray:
		et := t.Underlying().(*types.Array).Elem()
		x, y := a.(Array), b.(Array)
		var r value = true
		for i := range x {
			r = w.andV(r, w.equal(et, x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case kSlice:
		return (a.(Slice) == nil) && (b.(Slice) == nil)
	case kMap:
		return a.(*Map) == b.(*Map)
	case kFunc:
		return isNilFunc(a) && isNilFunc(b)
	case kChan:
		return a == b
	}
	panic(unsupported{"equality on " + t.String()})
}

func isNilFunc(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *ssa.Function:
		return v == nil
	}
	return false
}

// ---- maps ----

func (w *W) mapFind(m *Map, k value) int {
	if m == nil {
		return -1
	}
	k = w.force(k)
	ks, conc := "", false
	if !hasSym(k, 6) {
		ks, conc = keyText(k)
	}
	if conc && !m.symb {
		if i, ok := m.idx[ks]; ok && m.live[i] {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if m.live[i] && w.truth(w.equal(m.keyT, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (w *W) mapSet(m *Map, k, v value) {
	if m == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	k = w.force(k)
	if i := w.mapFind(m, k); i >= 0 {
		m.vals[i] = copyVal(v)
		return
	}
	ks, conc := "", false
	if !hasSym(k, 6) {
		ks, conc = keyText(k)
	}
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, copyVal(v))
	m.live = append(m.live, true)
	m.n++
	if conc {
		m.idx[ks] = len(m.keys) - 1
	} else {
		m.symb = true
	}
}

func (w *W) mapDelete(m *Map, k value) {
	if i := w.mapFind(m, k); i >= 0 {
		m.live[i] = false
		m.n--
		if ks, ok := keyText(m.keys[i]); ok {
			delete(m.idx, ks)
		}
	}
}

// ---- globals ----

func (w *W) global(g *ssa.Global) *value {
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	if isMod(path) {
		if p, ok := w.p.globals[g]; ok {
			return p
		}
		c := new(value)
		*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
		w.p.globals[g] = c
		return c
	}
	if p, ok := w.stdG[g]; ok {
		return p
	}
	if g.Pkg != nil && !w.stdInit[g.Pkg] {
		w.stdInit[g.Pkg] = true
		for _, m := range g.Pkg.Members {
			if gg, ok := m.(*ssa.Global); ok {
				if w.stdG[gg] == nil {
					c := new(value)
					*c = zero(gg.Type().Underlying().(*types.Pointer).Elem())
					w.stdG[gg] = c
				}
			}
		}
		if path == "os" {
			for _, n := range []string{"Stdout", "Stderr"} {
				g := g.Pkg.Members[n].(*ssa.Global)
				c := new(value)
				*c = zero(deref(deref(g.Type())))
				*w.stdG[g] = c
			}
		}
		if !noInit[path] {
			if f := g.Pkg.Func("init"); f != nil {
				w.runStdInit(f)
			}
		}
	}
	if p, ok := w.stdG[g]; ok {
		return p
	}
	c := new(value)
	*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.stdG[g] = c
	return c
}

// package-level state of these packages is never initialised by the interpreter
var noInit = map[string]bool{"os": true, "runtime": true, "syscall": true, "internal/poll": true, "log": true, "reflect": true, "time": true, "fmt": true, "internal/godebug": true, "internal/cpu": true, "internal/bytealg": true, "sync": true}

func (w *W) runStdInit(f *ssa.Function) {
	sp, sm := w.p.steps, w.p.merge
	w.p.merge = 0
	defer func() {
		w.p.steps = sp
		w.p.merge = sm
	}()
	w.callFn(f, nil, nil)
}

// ---- frames ----

type deferred struct {
	fn   value
	args []value
}

type frame struct {
	fi        *fnInfo
	regs      []value
	blk, prev *ssa.BasicBlock
	defers    []deferred
	result    value
	panicking bool
	panicV    *targetPanic
	skipPhi   bool
	caller    *frame
}

const maxDepth = 1500

func (w *W) callFn(fn *ssa.Function, args []value, env []value) value {
	return w.callFrom(nil, fn, args, env)
}

func (w *W) callFrom(caller *frame, fn *ssa.Function, args []value, env []value) value {
	fi := w.P.info(fn)
	if fi.intr != nil {
		return fi.intr(w, args)
	}
	if fn.Blocks == nil {
		if fn.Pkg != nil && fn.Name() == "init" {
			return nil
		}
		w.unsup("no body: %s", fi.name)
	}
	if fn.Pkg != nil && fn.Synthetic == "package initializer" && !fi.inMod && caller != nil {
		return nil // initialised lazily
	}
	if fi.inMod {
		w.fns[fi.name]++
	}
	w.p.depth++
	w.stack = append(w.stack, fn)
	if w.p.depth > maxDepth {
		panic(diverge{"call depth " + fi.name})
	}
	fr := &frame{fi: fi, regs: make([]value, fi.nregs), caller: caller}
	n := copy(fr.regs, args)
	copy(fr.regs[n:], env)
	d, sl := w.p.depth, len(w.stack)
	if fn.Recover != nil || hasDefer(fn) {
		w.runWithDefers(fr, d, sl)
	} else {
		w.runFrame(fr)
	}
	w.p.depth = d - 1
	w.stack = w.stack[:sl-1]
	return fr.result
}

func hasDefer(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (w *W) runWithDefers(fr *frame, depth, sl int) {
	func() {
		defer func() {
			if fr.panicking {
				return
			}
		}()
		tp := w.protect(func() { w.runFrame(fr) })
		if tp == nil {
			return
		}
		w.p.depth = depth
		w.stack = w.stack[:sl]
		fr.panicking = true
		fr.panicV = tp
	}()
	if !fr.panicking {
		return
	}
	w.runDefers(fr)
	if fr.panicking {
		panic(*fr.panicV)
	}
	// recovered
	if fr.fi.fn.Recover != nil {
		fr.blk = fr.fi.fn.Recover
		fr.prev = nil
		w.runBlocks(fr)
	} else {
		fr.result = zero(fr.fi.fn.Signature.Results())
	}
}

// protect runs f and catches a target-level panic.
func (w *W) protect(f func()) (tp *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(targetPanic); ok {
				tp = &t
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (w *W) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		dep, sl := w.p.depth, len(w.stack)
		tp := w.protect(func() { w.call(fr, d.fn, d.args) })
		if tp != nil {
			w.p.depth = dep
			w.stack = w.stack[:sl]
			fr.panicking = true
			fr.panicV = tp
		}
	}
}

func (w *W) call(fr *frame, f value, args []value) value {
	switch f := f.(type) {
	case *ssa.Function:
		if f == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return w.callFrom(fr, f, args, nil)
	case *Closure:
		return w.callFrom(fr, f.fn, args, f.env)
	case *Native:
		return f.f(w, args)
	case *ssa.Builtin:
		return w.builtin(fr, f, args, nil)
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	w.unsup("call of %T", f)
	return nil
}

func (w *W) get(fr *frame, o *opnd) value {
	switch o.k {
	case 1:
		return fr.regs[o.idx]
	case 2:
		return o.val
	case 3:
		return w.global(o.g)
	case 4:
		return zero(o.t)
	}
	return nil
}

func (w *W) runFrame(fr *frame) {
	fr.blk = fr.fi.fn.Blocks[0]
	w.runBlocks(fr)
}

func (w *W) runBlocks(fr *frame) {
	for fr.blk != nil {
		cb := fr.fi.blk[fr.blk.Index]
		if fr.skipPhi {
			fr.skipPhi = false
		} else if cb.nphi > 0 && fr.prev != nil {
			pi := -1
			for i, p := range fr.blk.Preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			var tmp [8]value
			vals := tmp[:0]
			for i := 0; i < cb.nphi; i++ {
				vals = append(vals, w.get(fr, &cb.code[i].op[pi]))
			}
			for i := 0; i < cb.nphi; i++ {
				fr.regs[cb.code[i].dst] = vals[i]
			}
		}
		w.p.steps += int64(len(cb.code))
		if w.p.steps > w.R.maxSteps {
			panic(diverge{"step limit in " + fr.fi.name})
		}
		next := w.runBlock(fr, cb, cb.nphi)
		fr.prev = fr.blk
		fr.blk = next
	}
}

// runBlock executes cb from instruction i on; it returns the next block (nil: returned).
func (w *W) runBlock(fr *frame, cb *cblock, i int) *ssa.BasicBlock {
	for ; i < len(cb.code); i++ {
		ci := &cb.code[i]
		switch ins := ci.ins.(type) {
		case *ssa.If:
			c := w.get(fr, &ci.op[0])
			if t, ok := c.(*Term); ok && ci.mi != nil {
				if _, known := w.lookKnown(t); !known {
					if nb, ok := w.tryMerge(fr, cb.b, t, ci.mi); ok {
						return nb
					}
				}
			}
			if t, ok := c.(*Term); ok && w.p.merge == 0 {
				if _, known := w.lookKnown(t); !known {
					if nb, ok := w.foldChain(fr, cb.b, t); ok {
						return nb
					}
				}
			}
			if w.truth(c) {
				return cb.b.Succs[0]
			}
			return cb.b.Succs[1]
		case *ssa.Jump:
			return cb.b.Succs[0]
		case *ssa.Return:
			switch len(ci.op) {
			case 0:
				fr.result = nil
			case 1:
				fr.result = copyVal(w.get(fr, &ci.op[0]))
			default:
				t := make(Tuple, len(ci.op))
				for j := range t {
					t[j] = copyVal(w.get(fr, &ci.op[j]))
				}
				fr.result = t
			}
			return nil
		case *ssa.Panic:
			v := w.get(fr, &ci.op[0]).(Iface)
			if w.p.merge > 0 {
				panic(mergeAbort{})
			}
			panic(targetPanic{v: v})
		case *ssa.RunDefers:
			w.runDefers(fr)
			if fr.panicking {
				fr.panicking = false
				panic(*fr.panicV)
			}
		case *ssa.Defer:
			fn, args := w.prepCall(fr, &ins.Call, ci)
			fr.defers = append(fr.defers, deferred{fn, args})
		case *ssa.Go:
			fn, args := w.prepCall(fr, &ins.Call, ci)
			w.spawn(func() { w.call(nil, fn, args) })
		case *ssa.Call:
			fn, args := w.prepCall(fr, &ins.Call, ci)
			if b, ok := fn.(*ssa.Builtin); ok {
				fr.regs[ci.dst] = w.builtin(fr, b, args, ins)
			} else {
				fr.regs[ci.dst] = w.call(fr, fn, args)
			}
		case *ssa.Store:
			w.store(w.get(fr, &ci.op[0]), w.get(fr, &ci.op[1]))
		case *ssa.MapUpdate:
			m := w.get(fr, &ci.op[0]).(*Map)
			w.access(m, true)
			w.mapSet(m, w.get(fr, &ci.op[1]), w.get(fr, &ci.op[2]))
		case *ssa.DebugRef:
		case *ssa.Send:
			w.chSend(w.get(fr, &ci.op[0]), w.get(fr, &ci.op[1]))
		default:
			fr.regs[ci.dst] = w.exec(fr, ci)
		}
	}
	return nil
}

func (w *W) store(p value, v value) {
	switch p := p.(type) {
	case *value:
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		w.access(p, true)
		storeInto(p, v)
		return
	case *SymPtr:
		for i := range p.elems {
			w.access(&p.elems[i], true)
		}
		k := kindOf(p.elemT)
		if k.cls != kInt && k.cls != kBool {
			i := w.concretize(p.idx, 0)
			storeInto(&p.elems[i], v)
			return
		}
		for i := range p.elems {
			c := w.tt.Eq(p.idx, w.tt.Const(uint64(i), p.idx.w))
			p.elems[i] = val(w.tt.Ite(c, w.term(v, k.w), w.term(p.elems[i], k.w)))
		}
		return
	}
	w.unsup("store through %T", p)
}

func (w *W) load(p value) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		w.access(p, false)
		return copyVal(*p)
	case *SymPtr:
		for i := range p.elems {
			w.access(&p.elems[i], false)
		}
		return w.symIndex(p.elems, p.idx, p.elemT)
	}
	w.unsup("load through %T", p)
	return nil
}

// symIndex reads elems[idx]; idx is known to be in range.
func (w *W) symIndex(elems []value, idx *Term, et types.Type) value {
	k := kindOf(et)
	if k.cls != kInt && k.cls != kBool || len(elems) > 4096 {
		i := w.concretize(idx, 0)
		return copyVal(elems[i])
	}
	n := len(elems)
	if idx.hi >= 0 && idx.hi+1 < int64(n) && idx.lo >= 0 {
		n = int(idx.hi) + 1
	}
	r := w.term(elems[n-1], k.w)
	// runs of equal values become range tests
	i := n - 1
	for i > 0 {
		j := i - 1
		cur := w.term(elems[j], k.w)
		for j > 0 && w.term(elems[j-1], k.w) == cur {
			j--
		}
		// elements j..i-1 are cur; everything below j still to come
		c := w.tt.Cmp(OUlt, idx, w.tt.Const(uint64(i), idx.w))
		r = w.tt.Ite(c, cur, r)
		i = j
	}
	return val(r)
}

func (w *W) prepCall(fr *frame, c *ssa.CallCommon, ci *cinstr) (value, []value) {
	if c.IsInvoke() {
		recv := w.get(fr, &ci.op[0])
		ifc, ok := recv.(Iface)
		if !ok {
			w.unsup("invoke on %T", recv)
		}
		if ifc.t == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := w.method(ifc.t, c.Method)
		args := make([]value, 0, len(ci.op))
		args = append(args, copyVal(ifc.v))
		for i := 1; i <= len(c.Args); i++ {
			args = append(args, copyVal(w.get(fr, &ci.op[i])))
		}
		return fn, args
	}
	fn := w.get(fr, &ci.op[0])
	args := make([]value, 0, len(ci.op)-1)
	for i := 1; i <= len(c.Args); i++ {
		args = append(args, copyVal(w.get(fr, &ci.op[i])))
	}
	return fn, args
}

func (w *W) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		w.unsup("method %s of %s", m.Name(), t)
	}
	w.methods[k] = f
	return f
}

func (w *W) implements(t types.Type, it types.Type) bool {
	k := implKey{t, it}
	if b, ok := w.implC[k]; ok {
		return b
	}
	b := types.Implements(t, it.Underlying().(*types.Interface))
	w.implC[k] = b
	return b
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (w *W) exec(fr *frame, ci *cinstr) value {
	switch ins := ci.ins.(type) {
	case *ssa.Alloc:
		c := new(value)
		*c = zero(deref(ins.Type()))
		return c
	case *ssa.BinOp:
		return w.binop(ins.Op, ci.ki, ci.kj, ins.X.Type(), w.get(fr, &ci.op[0]), w.get(fr, &ci.op[1]))
	case *ssa.UnOp:
		x := w.get(fr, &ci.op[0])
		switch ins.Op {
		case token.ARROW:
			v, ok := w.chRecv(x)
			if ins.CommaOk {
				return Tuple{v, ok}
			}
			return v
		case token.MUL:
			return w.load(x)
		case token.NOT:
			return w.not(x)
		case token.SUB:
			if ci.ki.cls == kFloat {
				return w.fneg(x)
			}
			if u, ok := x.(uint64); ok {
				return -u & mask(ci.ki.w)
			}
			return val(w.tt.Neg(x.(*Term)))
		case token.XOR:
			if u, ok := x.(uint64); ok {
				return ^u & mask(ci.ki.w)
			}
			return val(w.tt.NotBV(x.(*Term)))
		}
		w.unsup("unop %s", ins.Op)
	case *ssa.ChangeType:
		return w.get(fr, &ci.op[0])
	case *ssa.ChangeInterface:
		return w.get(fr, &ci.op[0])
	case *ssa.Convert:
		return w.convert(ins.X.Type(), ins.Type(), ci.ki, ci.kj, w.get(fr, &ci.op[0]))
	case *ssa.MultiConvert:
		return w.convert(ins.X.Type(), ins.Type(), kindOf(ins.X.Type()), kindOf(ins.Type()), w.get(fr, &ci.op[0]))
	case *ssa.MakeInterface:
		return Iface{ins.X.Type(), copyVal(w.get(fr, &ci.op[0]))}
	case *ssa.Extract:
		t := w.get(fr, &ci.op[0]).(Tuple)
		return t[ins.Index]
	case *ssa.FieldAddr:
		p, ok := w.get(fr, &ci.op[0]).(*value)
		if !ok {
			w.unsup("field of %T", w.get(fr, &ci.op[0]))
		}
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return &(*p).(Struct)[ins.Field]
	case *ssa.Field:
		return w.get(fr, &ci.op[0]).(Struct)[ins.Field]
	case *ssa.IndexAddr:
		x := w.get(fr, &ci.op[0])
		var elems []value
		switch x := x.(type) {
		case Slice:
			elems = x
		case *value:
			if x == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			elems = (*x).(Array)
		default:
			w.unsup("IndexAddr on %T", x)
		}
		i, sym := w.index(w.get(fr, &ci.op[1]), ci.kj, len(elems))
		if sym != nil {
			return &SymPtr{elems, sym, deref(ins.Type())}
		}
		return &elems[i]
	case *ssa.Index:
		x := w.get(fr, &ci.op[0])
		switch x := x.(type) {
		case Array:
			i, sym := w.index(w.get(fr, &ci.op[1]), ci.kj, len(x))
			if sym != nil {
				return w.symIndex(x, sym, ins.Type())
			}
			return copyVal(x[i])
		default:
			return w.strIndex(x, w.get(fr, &ci.op[1]), ci.kj)
		}
	case *ssa.Lookup:
		x := w.get(fr, &ci.op[0])
		if ci.ki.cls == kString {
			return w.strIndex(x, w.get(fr, &ci.op[1]), ci.kj)
		}
		m := x.(*Map)
		w.access(m, false)
		i := w.mapFind(m, w.get(fr, &ci.op[1]))
		var v value
		if i >= 0 {
			v = copyVal(m.vals[i])
		} else {
			v = zero(ins.X.Type().Underlying().(*types.Map).Elem())
		}
		if ins.CommaOk {
			return Tuple{v, i >= 0}
		}
		return v
	case *ssa.MakeSlice:
		et := ins.Type().Underlying().(*types.Slice).Elem()
		n := w.cint(w.get(fr, &ci.op[0]), kinfo{kInt, 64, true})
		c := w.cint(w.get(fr, &ci.op[1]), kinfo{kInt, 64, true})
		if n < 0 || n > 1<<24 {
			w.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			w.rtPanic("makeslice: cap out of range")
		}
		s := make(Slice, n, c)
		full := s[:c]
		z := zero(et)
		_, isS := z.(Struct)
		_, isA := z.(Array)
		for i := range full {
			if isS || isA {
				full[i] = zero(et)
			} else {
				full[i] = z
			}
		}
		return s
	case *ssa.MakeMap:
		return &Map{keyT: ins.Type().Underlying().(*types.Map).Key(), idx: map[string]int{}}
	case *ssa.MakeClosure:
		env := make([]value, len(ci.op)-1)
		for i := range env {
			env[i] = w.get(fr, &ci.op[i+1])
		}
		return &Closure{ins.Fn.(*ssa.Function), env}
	case *ssa.MakeChan:
		return &Chan{cap: int(w.cint(w.get(fr, &ci.op[0]), kinfo{kInt, 64, true})), vc: map[int]int{}, elem: ins.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.Select:
		return w.chSelect(fr, ins, ci)
	case *ssa.Slice:
		return w.slice(fr, ins, ci)
	case *ssa.TypeAssert:
		return w.typeAssert(ins, w.get(fr, &ci.op[0]).(Iface))
	case *ssa.Range:
		x := w.get(fr, &ci.op[0])
		switch x := x.(type) {
		case *Map:
			it := &mapIter{m: x}
			w.access(x, false)
			if x != nil {
				for i := range x.keys {
					if x.live[i] {
						it.order = append(it.order, i)
					}
				}
				if w.p.permMap > 0 && len(it.order) > 1 && w.choice(2) == 1 {
					it.nd = true
					w.p.permMap--
				}
			}
			return it
		default:
			return &strIter{s: w.force(x)}
		}
	case *ssa.Next:
		return w.next(ins, w.get(fr, &ci.op[0]))
	case *ssa.SliceToArrayPointer:
		s := w.get(fr, &ci.op[0]).(Slice)
		n := deref(ins.Type()).Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			w.rtPanic("cannot convert slice to array pointer: length mismatch")
		}
		c := new(value)
		*c = Array(s[:n])
		return c
	}
	w.unsup("instruction %T", ci.ins)
	return nil
}

func (w *W) strIndex(s value, iv value, k kinfo) value {
	n := w.strLen(s)
	i, sym := w.index(iv, k, n)
	if sym != nil {
		return w.symIndex(w.strBytes(s), sym, types.Typ[types.Byte])
	}
	return w.byteAt(s, i)
}

// index checks bounds; returns a concrete index or a symbolic one known to be in range.
func (w *W) index(iv value, k kinfo, n int) (int, *Term) {
	switch x := iv.(type) {
	case uint64:
		i := int64(x)
		if k.signed {
			i = sext(x, k.w)
		}
		if i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *Term:
		t := w.idx64(x, k)
		ok := w.tt.And(w.tt.Cmp(OSle, w.tt.Const(0, 64), t), w.tt.Cmp(OSlt, t, w.tt.Const(uint64(n), 64)))
		if !w.decide(ok) {
			w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
		if n == 1 {
			return 0, nil
		}
		return 0, t
	}
	w.unsup("index %T", iv)
	return 0, nil
}

func (w *W) idx64(t *Term, k kinfo) *Term {
	if k.signed {
		return w.tt.SExt(t, 64)
	}
	return w.tt.ZExt(t, 64)
}

func (w *W) slice(fr *frame, ins *ssa.Slice, ci *cinstr) value {
	x := w.get(fr, &ci.op[0])
	bound := func(i int, def int64) int64 {
		if i >= len(ci.op) || ci.op[i].k == 0 {
			return def
		}
		var k kinfo
		switch i {
		case 1:
			if ins.Low != nil {
				k = kindOf(ins.Low.Type())
			}
		case 2:
			k = kindOf(ins.High.Type())
		case 3:
			k = kindOf(ins.Max.Type())
		}
		return w.cint(w.get(fr, &ci.op[i]), k)
	}
	lo := bound(1, 0)
	switch x := x.(type) {
	case Slice:
		hi := bound(2, int64(len(x)))
		mx := bound(3, int64(cap(x)))
		if mx < 0 || mx > int64(cap(x)) || hi < 0 || hi > mx || lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(x)))
		}
		if x == nil {
			return x
		}
		return x[lo:hi:mx]
	case *value:
		if x == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*x).(Array)
		hi := bound(2, int64(len(a)))
		mx := bound(3, int64(len(a)))
		if mx < 0 || mx > int64(len(a)) || hi < 0 || hi > mx || lo < 0 || lo > hi {
			w.rtPanic("slice bounds out of range")
		}
		return Slice(a[lo:hi:mx])
	default:
		n := int64(w.strLen(x))
		hi := bound(2, n)
		if hi < 0 || hi > n || lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return w.substr(x, int(lo), int(hi))
	}
}

func (w *W) typeAssert(ins *ssa.TypeAssert, x Iface) value {
	ok := false
	if x.t != nil {
		if types.IsInterface(ins.AssertedType) {
			ok = w.implements(x.t, ins.AssertedType)
		} else {
			ok = x.t == ins.AssertedType || types.Identical(x.t, ins.AssertedType)
		}
	}
	var v value
	if ok {
		if types.IsInterface(ins.AssertedType) {
			v = x
		} else {
			v = copyVal(x.v)
		}
	} else {
		if !ins.CommaOk {
			d := "nil"
			if x.t != nil {
				d = x.t.String()
			}
			w.rtPanic("interface conversion: interface is " + d + ", not " + ins.AssertedType.String())
		}
		v = zero(ins.AssertedType)
	}
	if ins.CommaOk {
		return Tuple{v, ok}
	}
	return v
}

func (w *W) next(ins *ssa.Next, it value) value {
	switch it := it.(type) {
	case *mapIter:
		for len(it.order) > 0 {
			k := 0
			if it.nd && len(it.order) > 1 {
				k = w.choice(len(it.order))
				if len(it.order) > 3 { // any element first, the others in reverse
					it.nd = false
					o := append(append([]int(nil), it.order[:k]...), it.order[k+1:]...)
					slices.Reverse(o)
					it.order = append([]int{it.order[k]}, o...)
					k = 0
				}
			}
			i := it.order[k]
			it.order = append(append([]int(nil), it.order[:k]...), it.order[k+1:]...)
			if !it.m.live[i] {
				continue
			}
			return Tuple{true, copyVal(it.m.keys[i]), copyVal(it.m.vals[i])}
		}
		mt := ins.Type().(*types.Tuple)
		return Tuple{false, zeroOrNil(mt.At(1).Type()), zeroOrNil(mt.At(2).Type())}
	case *strIter:
		n := w.strLen(it.s)
		if it.pos >= n {
			return Tuple{false, uint64(0), uint64(0)}
		}
		p := it.pos
		b := w.byteAt(it.s, p)
		if u, ok := b.(uint64); ok && u < 0x80 {
			it.pos++
			return Tuple{true, uint64(p), u}
		}
		if t, ok := b.(*Term); ok {
			if w.decide(w.tt.Cmp(OUlt, t, w.tt.Const(0x80, 8))) {
				it.pos++
				return Tuple{true, uint64(p), val(w.tt.ZExt(t, 32))}
			}
		}
		f := w.P.byPath["unicode/utf8"].Func("DecodeRuneInString")
		r := w.callFn(f, []value{w.substr(it.s, p, n)}, nil).(Tuple)
		it.pos += int(w.cint(r[1], kinfo{kInt, 64, true}))
		return Tuple{true, uint64(p), r[0]}
	}
	w.unsup("next on %T", it)
	return nil
}

func zeroOrNil(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

// ---- if-conversion ----

func (w *W) tryMerge(fr *frame, b *ssa.BasicBlock, cond *Term, mi *mergeInfo) (nb *ssa.BasicBlock, ok bool) {
	dep, sl := w.p.depth, len(w.stack)
	defer func() {
		if r := recover(); r != nil {
			w.p.merge--
			switch r.(type) {
			case mergeAbort, targetPanic, unsupported:
				w.p.depth, w.stack = dep, w.stack[:sl]
				nb, ok = nil, false
				return
			}
			panic(r)
		}
		w.p.merge--
	}()
	w.p.merge++
	type edge struct{ from, to *ssa.BasicBlock }
	ec := map[edge]*Term{}
	addE := func(f, t *ssa.BasicBlock, c *Term) {
		e := edge{f, t}
		if o, ok := ec[e]; ok {
			c = w.tt.Or(o, c)
		}
		ec[e] = c
	}
	addE(b, b.Succs[0], cond)
	addE(b, b.Succs[1], w.tt.Not(cond))
	type ret struct {
		c *Term
		v value
	}
	var rets []ret
	for _, x := range mi.order {
		bc := w.tt.fls
		for _, p := range x.Preds {
			if c, ok := ec[edge{p, x}]; ok {
				bc = w.tt.Or(bc, c)
			}
		}
		if bc.isConst() && bc.c == 0 {
			continue
		}
		cb := fr.fi.blk[x.Index]
		w.p.steps += int64(len(cb.code))
		w.mergePhis(fr, cb, func(p *ssa.BasicBlock) *Term { return ec[edge{p, x}] })
		for i := cb.nphi; i < len(cb.code); i++ {
			ci := &cb.code[i]
			switch ins := ci.ins.(type) {
			case *ssa.If:
				switch c := w.get(fr, &ci.op[0]).(type) {
				case bool:
					if c {
						addE(x, x.Succs[0], bc)
					} else {
						addE(x, x.Succs[1], bc)
					}
				case *Term:
					addE(x, x.Succs[0], w.tt.And(bc, c))
					addE(x, x.Succs[1], w.tt.And(bc, w.tt.Not(c)))
				default:
					panic(mergeAbort{})
				}
			case *ssa.Jump:
				addE(x, x.Succs[0], bc)
			case *ssa.Return:
				switch len(ci.op) {
				case 1:
					rets = append(rets, ret{bc, w.get(fr, &ci.op[0])})
				default:
					t := make(Tuple, len(ci.op))
					for j := range t {
						t[j] = w.get(fr, &ci.op[j])
					}
					rets = append(rets, ret{bc, t})
				}
			case *ssa.Call:
				fn, args := w.prepCall(fr, &ins.Call, ci)
				if bi, ok := fn.(*ssa.Builtin); ok {
					fr.regs[ci.dst] = w.builtin(fr, bi, args, ins)
				} else {
					fr.regs[ci.dst] = w.call(fr, fn, args)
				}
			case *ssa.DebugRef:
			default:
				fr.regs[ci.dst] = w.exec(fr, ci)
			}
		}
	}
	if mi.join == nil {
		if len(rets) == 0 {
			panic(mergeAbort{})
		}
		r := rets[len(rets)-1].v
		for i := len(rets) - 2; i >= 0; i-- {
			r = w.iteVal(resultT(fr.fi.fn), rets[i].c, rets[i].v, r)
		}
		fr.result = r
		return nil, true
	}
	cb := fr.fi.blk[mi.join.Index]
	w.mergePhis(fr, cb, func(p *ssa.BasicBlock) *Term { return ec[edge{p, mi.join}] })
	fr.skipPhi = true
	return mi.join, true
}

// chainBlock tells whether x only computes a condition without side effects.
func chainBlock(x *ssa.BasicBlock) bool {
	if len(x.Preds) != 1 {
		return false
	}
	for _, in := range x.Instrs {
		switch in := in.(type) {
		case *ssa.If, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType:
		case *ssa.BinOp:
			if in.Op == token.QUO || in.Op == token.REM {
				return false
			}
		case *ssa.UnOp:
			if in.Op != token.NOT {
				return false
			}
		default:
			return false
		}
	}
	_, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
	return ok
}

// foldChain decides a chain of conditions with a common target (a switch case with
// several values, a || b, a && b) by one case split instead of one per condition.
func (w *W) foldChain(fr *frame, b *ssa.BasicBlock, cond *Term) (nb *ssa.BasicBlock, ok bool) {
	for k := 0; k < 2; k++ {
		target, other := b.Succs[k], b.Succs[1-k]
		if target == other || !chainBlock(other) || other.Succs[0] != target && other.Succs[1] != target {
			continue
		}
		type edge struct {
			p *ssa.BasicBlock
			c *Term
		}
		ct := cond
		if k == 1 {
			ct = w.tt.Not(cond)
		}
		es := []edge{{b, ct}}
		rest := w.tt.Not(ct)
		last := b
		cb := fr.fi.blk[target.Index]
		good := w.pure(func() {
			for chainBlock(other) && (other.Succs[0] == target) != (other.Succs[1] == target) {
				xb := fr.fi.blk[other.Index]
				for i := 0; i < len(xb.code)-1; i++ {
					if _, dbg := xb.code[i].ins.(*ssa.DebugRef); dbg {
						continue
					}
					fr.regs[xb.code[i].dst] = w.exec(fr, &xb.code[i])
				}
				var c *Term
				switch v := w.get(fr, &xb.code[len(xb.code)-1].op[0]).(type) {
				case bool:
					c = w.tt.Bool(v)
				case *Term:
					c = v
				default:
					panic(mergeAbort{})
				}
				last = other
				next := other.Succs[1]
				if other.Succs[1] == target {
					c = w.tt.Not(c)
					next = other.Succs[0]
				}
				es = append(es, edge{other, w.tt.And(rest, c)})
				rest = w.tt.And(rest, w.tt.Not(c))
				other = next
			}
			// The values at the target must be mergeable.
			for i := 0; i < cb.nphi; i++ {
				var r value
				for j, e := range es {
					for p, q := range target.Preds {
						if q != e.p {
							continue
						}
						v := w.get(fr, &cb.code[i].op[p])
						if j == 0 {
							r = v
						} else {
							r = w.iteVal(cb.code[i].ins.(*ssa.Phi).Type(), e.c, v, r)
						}
					}
				}
			}
		})
		if !good {
			continue
		}
		if !w.truth(val(w.tt.Not(rest))) {
			fr.blk = last // predecessor of other
			return other, true
		}
		if cb.nphi > 0 {
			w.mergePhis(fr, cb, func(p *ssa.BasicBlock) *Term {
				for _, e := range es {
					if e.p == p {
						return e.c
					}
				}
				return nil
			})
			fr.skipPhi = true
		}
		return target, true
	}
	return nil, false
}

// pure runs f in merge mode; false: it had to be abandoned.
func (w *W) pure(f func()) (ok bool) {
	dep, sl := w.p.depth, len(w.stack)
	defer func() {
		if r := recover(); r != nil {
			w.p.merge--
			switch r.(type) {
			case mergeAbort, targetPanic, unsupported:
				w.p.depth, w.stack = dep, w.stack[:sl]
				ok = false
				return
			}
			panic(r)
		}
		w.p.merge--
	}()
	w.p.merge++
	f()
	return true
}

func (w *W) mergePhis(fr *frame, cb *cblock, ec func(p *ssa.BasicBlock) *Term) {
	if cb.nphi == 0 {
		return
	}
	vals := make([]value, cb.nphi)
	for i := 0; i < cb.nphi; i++ {
		first := true
		var r value
		for k, p := range cb.b.Preds {
			c := ec(p)
			if c == nil || c.isConst() && c.c == 0 {
				continue
			}
			v := w.get(fr, &cb.code[i].op[k])
			if first {
				r = v
				first = false
			} else {
				r = w.iteVal(cb.code[i].ins.(*ssa.Phi).Type(), c, v, r)
			}
		}
		if first {
			panic(mergeAbort{})
		}
		vals[i] = r
	}
	for i := range vals {
		fr.regs[cb.code[i].dst] = vals[i]
	}
}

func resultT(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (w *W) iteVal(t types.Type, c *Term, a, b value) value {
	switch k := kindOf(t); k.cls {
	case kTuple:
		x, y := a.(Tuple), b.(Tuple)
		r := make(Tuple, len(x))
		for i := range x {
			r[i] = w.iteVal(t.(*types.Tuple).At(i).Type(), c, x[i], y[i])
		}
		return r
	case kInt:
		if x, ok := a.(uint64); ok {
			if y, ok := b.(uint64); ok && x == y {
				return a
			}
		}
		return val(w.tt.Ite(c, w.term(a, k.w), w.term(b, k.w)))
	case kBool:
		return val(w.tt.Ite(c, w.term(a, 0), w.term(b, 0)))
	}
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok && x == y {
			return a
		}
	case *value:
		if y, ok := b.(*value); ok && x == y {
			return a
		}
	case float64:
		if y, ok := b.(float64); ok && x == y {
			return a
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.t == nil && y.t == nil {
			return a
		}
	case *FE:
		if y, ok := b.(*FE); ok && x == y {
			return a
		}
	case *SymStr:
		if y, ok := b.(*SymStr); ok && x == y {
			return a
		}
	case *Map:
		if y, ok := b.(*Map); ok && x == y {
			return a
		}
	}
	panic(mergeAbort{})
}
