package main

import (
	"fmt"
	"go/types"
	"hash/adler32"
	"math"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *W, args []value) value

var intrinsics map[string]intrinsic

func i64(n int64) value { return uint64(n) }

func (w *W) cstr(v value) string {
	s, ok := w.force(v).(string)
	if !ok {
		w.unsup("concrete string expected")
	}
	return s
}

// splitStr is a string of concrete bytes; the path splits on all values of the others.
func (w *W) splitStr(v value) string {
	y, ok := w.force(v).(*SymStr)
	if !ok {
		return w.cstr(v)
	}
	for _, x := range y.b {
		if t, ok := x.(*Term); ok && t.w != 8 {
			w.unsup("concrete string expected")
		}
	}
	b := make([]byte, len(y.b))
	for i, x := range y.b {
		switch x := x.(type) {
		case uint64:
			b[i] = byte(x)
		case *Term:
			b[i] = byte(w.concretize(x, 0))
		default:
			w.unsup("concrete string expected")
		}
	}
	return string(b)
}

var k64 = kinfo{kInt, 64, true}

func (w *W) uniq(name string) string {
	n := w.p.names[name]
	w.p.names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func smtName(name string, wd uint8, lo, hi int64) string {
	var sb strings.Builder
	sb.WriteString("|")
	sb.WriteString(name)
	if wd > 0 {
		fmt.Fprintf(&sb, ":%d:%d:%d", wd, lo, hi)
	}
	sb.WriteString("|")
	return sb.String()
}

func (w *W) input(name string, wd uint8, lo, hi int64, kind string) *Term {
	name = w.uniq(name)
	t := w.tt.Var(smtName(name, wd, lo, hi), wd, lo, hi)
	w.p.inputs = append(w.p.inputs, Input{Name: name, T: t, Kind: kind})
	return t
}

// freshVar is an internal unknown (not an input of the harness).
func (w *W) freshVar(name string, wd uint8, lo, hi int64) *Term {
	w.p.fresh++
	return w.tt.Var(smtName(fmt.Sprintf("$%s%d", name, w.p.fresh), wd, lo, hi), wd, lo, hi)
}

func (w *W) vfn(name string) *ssa.Function {
	f := w.P.vpkg.Func(name)
	if f == nil {
		w.unsup("no model function %s", name)
	}
	return f
}

func redirect(name string) intrinsic {
	return func(w *W, args []value) value { return w.callFn(w.vfn(name), args, nil) }
}

func noop(w *W, args []value) value { return nil }

func fatal(w *W, args []value) value {
	if w.p.merge > 0 {
		panic(mergeAbort{})
	}
	w.p.lastFatal = args
	if os.Getenv("VE_DEBUG") == "2" {
		fmt.Fprintln(os.Stderr, "fatal", args, w.trace())
	}
	panic(fatalExit{1, ""})
}

// fatalLog is a function of the log.Fatal family.
func fatalLog(ln int) intrinsic {
	return func(w *W, args []value) value {
		if w.p.merge == 0 {
			w.logf(args, ln)
		}
		return fatal(w, args)
	}
}

func printLog(ln int) intrinsic {
	return func(w *W, args []value) value { w.logf(args, ln); return nil }
}

func (w *W) try(f value) (code int) {
	dep, sl := w.p.depth, len(w.stack)
	cur, off := w.gor(), w.p.race.off
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		w.p.cur, w.p.race.off = cur, off
		switch x := r.(type) {
		case targetPanic:
			code = 1
			w.p.catch = "panic: " + w.panicText(x)
		case fatalExit:
			code = 2
			w.p.catch = "exit"
		case diverge:
			code = 3
			w.p.catch = "diverges: " + x.why
		default:
			panic(r)
		}
		w.p.gos, w.p.locks, w.p.race.cells, w.p.race.quiet = nil, nil, nil, true
		w.p.depth, w.stack = dep, w.stack[:sl]
	}()
	w.call(nil, f, nil)
	w.runGos()
	return 0
}

func (w *W) panicText(t targetPanic) (s string) {
	if t.msg != "" {
		return t.msg
	}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				panic(pe)
			}
			s = "panic"
		}
	}()
	if t.v.t == nil {
		return "nil"
	}
	if hasSym(t.v, 4) {
		return "(" + t.v.t.String() + " with symbolic content)"
	}
	b := w.fmtVal(t.v, 'v', fflags{}, 0)
	if x, ok := mkStr(b).(string); ok {
		return x
	}
	return "(symbolic)"
}

func (w *W) structField(p value, i int) *value {
	return &(*(p.(*value))).(Struct)[i]
}

func (w *W) indexByte(b []value, c value) value {
	for i, x := range b {
		if w.truth(w.equal(types.Typ[types.Byte], x, c)) {
			return i64(int64(i))
		}
	}
	return i64(-1)
}

func (w *W) parseMagic(s value) (*Term, bool) {
	x, ok := w.force(s).(string)
	if !ok {
		return nil, false
	}
	t, ok := w.p.lits[x]
	return t, ok
}

func init() {
	v := vPkgPath + "."
	m := map[string]intrinsic{
		// ---- harness API ----
		v + "Int": func(w *W, a []value) value {
			lo, hi := w.cint(a[1], k64), w.cint(a[2], k64)
			if lo == hi {
				w.uniq(w.cstr(a[0]))
				return i64(lo)
			}
			return w.input(w.cstr(a[0]), 64, lo, hi, "int")
		},
		v + "Bool": func(w *W, a []value) value { return w.input(w.cstr(a[0]), 0, 0, 1, "bool") },
		v + "Byte": func(w *W, a []value) value { return w.input(w.cstr(a[0]), 8, -128, 127, "byte") },
		v + "Str": func(w *W, a []value) value {
			n := int(w.cint(a[1], k64))
			name := w.cstr(a[0])
			b := make([]value, n)
			for i := range b {
				b[i] = w.input(fmt.Sprintf("%s[%d]", name, i), 8, -128, 127, "byte")
			}
			return mkStr(b)
		},
		v + "Choice": func(w *W, a []value) value {
			n := int(w.cint(a[1], k64))
			name := w.uniq(w.cstr(a[0]))
			c := w.choice(n)
			w.p.inputs = append(w.p.inputs, Input{Name: name, C: uint64(c), Kind: "choice"})
			return i64(int64(c))
		},
		v + "Lit": func(w *W, a []value) value {
			lo, hi := w.cint(a[1], k64), w.cint(a[2], k64)
			t := w.input(w.cstr(a[0]), 64, lo, hi, "int")
			s := strconv.Itoa(700000001 + len(w.p.lits))
			w.p.lits[s] = t
			return Tuple{s, value(t)}
		},
		v + "LitOf": func(w *W, a []value) value {
			t, ok := a[0].(*Term)
			if !ok {
				return strconv.FormatInt(int64(a[0].(uint64)), 10)
			}
			s := strconv.Itoa(700000001 + len(w.p.lits))
			w.p.lits[s] = t
			return s
		},
		v + "Assume": func(w *W, a []value) value { w.assume(w.term(a[0], 0)); return nil },
		v + "Assert": func(w *W, a []value) value { w.assert(w.term(a[0], 0), w.cstr(a[1])); return nil },
		v + "Reach": func(w *W, a []value) value {
			w.p.tags = append(w.p.tags, w.cstr(a[0]))
			return nil
		},
		v + "And":     func(w *W, a []value) value { return w.andV(a[0], a[1]) },
		v + "Or":      func(w *W, a []value) value { return val(w.tt.Or(w.term(a[0], 0), w.term(a[1], 0))) },
		v + "Not":     func(w *W, a []value) value { return w.not(a[0]) },
		v + "Implies": func(w *W, a []value) value { return val(w.tt.Or(w.tt.Not(w.term(a[0], 0)), w.term(a[1], 0))) },
		v + "Iff":     func(w *W, a []value) value { return val(w.tt.Eq(w.term(a[0], 0), w.term(a[1], 0))) },
		v + "Ite": func(w *W, a []value) value {
			return val(w.tt.Ite(w.term(a[0], 0), w.term(a[1], 64), w.term(a[2], 64)))
		},
		v + "StrEq":  func(w *W, a []value) value { return w.strEq(a[0], a[1]) },
		v + "Decide": func(w *W, a []value) value { return w.truth(a[0]) },
		v + "Conc":   func(w *W, a []value) value { return i64(w.cint(a[0], k64)) },
		v + "Try":    func(w *W, a []value) value { return i64(int64(w.try(a[0]))) },
		v + "Caught": func(w *W, a []value) value { return w.p.catch },
		v + "Symbolic": func(w *W, a []value) value {
			return true
		},
		v + "Thorough": func(w *W, a []value) value { return w.R.thorough },
		v + "Raced":    func(w *W, a []value) value { return w.p.race.raced != "" },
		v + "Permute": func(w *W, a []value) value {
			n := int(int64(w.cint(a[0], kinfo{kInt, 64, true})))
			w.p.permGo, w.p.permMap, w.p.permOrd = n >= 0, max(n, 0), w.truth(a[1])
			return nil
		},
		v + "Observe": func(w *W, a []value) value {
			w.p.obs = append(w.p.obs, Obs{w.cstr(a[0]), a[1], "int"})
			return nil
		},
		v + "ObserveS": func(w *W, a []value) value {
			w.p.obs = append(w.p.obs, Obs{w.cstr(a[0]), a[1], "str"})
			return nil
		},
		v + "Skip": func(w *W, a []value) value { w.flush(); panic(pathEnd{"skip"}) },
		v + "GetState": func(w *W, a []value) value {
			return w.p.state[w.cstr(a[0])].(value)
		},

		// ---- log / fmt ----
		"log.Fatal": fatalLog(1), "log.Fatalf": fatalLog(0), "log.Fatalln": fatalLog(2),
		"(*log.Logger).Fatal": fatal, "(*log.Logger).Fatalf": fatal, "(*log.Logger).Fatalln": fatal,
		"log.Print": printLog(1), "log.Printf": printLog(0), "log.Println": printLog(2), "log.SetPrefix": noop,
		"log.SetFlags":   func(w *W, a []value) value { w.p.logFlags = uint64(w.cint(a[0], k64)); return nil },
		"log.SetOutput":  func(w *W, a []value) value { w.p.logOut = a[0].(Iface); return nil },
		"log.Flags":      func(w *W, a []value) value { return w.p.logFlags },
		v + "runProgram": func(w *W, a []value) value { w.program(); return nil },
		v + "StopClock":  func(w *W, a []value) value { w.p.now = w.freshVar("now", 64, 0, 1<<40); return nil },
		v + "jsonOf": func(w *W, a []value) value {
			i := a[0].(Iface)
			return mkStr(w.jsonVal(i.t, i.v, 0))
		},
		"encoding/json.Marshal":       func(w *W, a []value) value { return w.jsonMarshal(a[0].(Iface)) },
		"encoding/json.MarshalIndent": func(w *W, a []value) value { return w.jsonMarshal(a[0].(Iface)) },
		"log.Panic": func(w *W, a []value) value {
			panic(targetPanic{v: Iface{types.Typ[types.String], "log.Panic"}})
		},
		"log.Panicf": func(w *W, a []value) value {
			panic(targetPanic{v: Iface{types.Typ[types.String], "log.Panicf"}})
		},
		"fmt.Sprintf":  func(w *W, a []value) value { return w.fmtSprintf(a[0], a[1].(Slice)) },
		"fmt.Sprint":   func(w *W, a []value) value { return w.fmtSprint(a[0].(Slice), false) },
		"fmt.Sprintln": func(w *W, a []value) value { return w.fmtSprint(a[0].(Slice), true) },
		"fmt.Errorf": func(w *W, a []value) value {
			msg := w.fmtSprintf(a[0], a[1].(Slice))
			if fs, ok := a[0].(string); ok && strings.Contains(fs, "%w") && w.P.wrapErrorT != nil {
				fs = strings.ReplaceAll(fs, "%w", "%v")
				msg = w.fmtSprintf(fs, a[1].(Slice))
				for _, x := range a[1].(Slice) {
					if i := x.(Iface); i.t != nil && w.methodByName(i.t, "Error") != nil {
						c := new(value)
						*c = Struct{msg, i}
						return Iface{w.P.wrapErrorT, c}
					}
				}
			}
			return w.mkErr(msg)
		},
		"fmt.Printf": func(w *W, a []value) value {
			return w.stdPrint(func() value { return w.fmtSprintf(a[0], a[1].(Slice)) })
		},
		"fmt.Print": func(w *W, a []value) value {
			return w.stdPrint(func() value { return w.fmtSprint(a[0].(Slice), false) })
		},
		"fmt.Println": func(w *W, a []value) value {
			return w.stdPrint(func() value { return w.fmtSprint(a[0].(Slice), true) })
		},
		"fmt.Fprintf": func(w *W, a []value) value {
			return w.fwrite(a[0].(Iface), w.fmtSprintf(a[1], a[2].(Slice)))
		},
		"fmt.Fprint": func(w *W, a []value) value {
			return w.fwrite(a[0].(Iface), w.fmtSprint(a[1].(Slice), false))
		},
		"fmt.Fprintln": func(w *W, a []value) value {
			return w.fwrite(a[0].(Iface), w.fmtSprint(a[1].(Slice), true))
		},
		"errors.Is": func(w *W, a []value) value { return w.errorsIs(a[0].(Iface), a[1].(Iface)) },
		"errors.As": func(w *W, a []value) value { return w.errorsAs(a[0].(Iface), a[1].(Iface)) },
		"maps.clone": func(w *W, a []value) value {
			i := a[0].(Iface)
			m, _ := i.v.(*Map)
			if m == nil {
				return i
			}
			n := &Map{keyT: m.keyT, idx: map[string]int{}}
			for j, k := range m.keys {
				if m.live[j] {
					w.mapSet(n, copyVal(k), copyVal(m.vals[j]))
				}
			}
			return Iface{i.t, n}
		},

		// ---- os / time / sync ----
		"os.ReadFile": redirect("OSReadFile"), "os.ReadDir": redirect("OSReadDir"), "os.Getwd": redirect("OSGetwd"),
		"os.Getenv": redirect("OSGetenv"), "os.Lstat": redirect("OSLstat"), "os.Stat": redirect("OSStat"),
		"os.LookupEnv":                          redirect("OSLookupEnv"),
		"os.Create":                             redirect("OSCreate"),
		"os.Open":                               redirect("OSOpen"),
		"(*os.File).Read":                       redirect("OSFileRead"),
		"os.OpenFile":                           redirect("OSOpenFile"),
		"(*os.File).Fd":                         func(w *W, a []value) value { return uint64(1) },
		"os.WriteFile":                          redirect("OSWriteFile"),
		"(*os.File).Write":                      redirect("OSFileWrite"),
		"(*os.File).WriteString":                redirect("OSFileWriteString"),
		"(*os.File).Close":                      redirect("OSFileClose"),
		"(*os.File).Sync":                       redirect("OSFileClose"),
		"path/filepath.EvalSymlinks":            redirect("OSEvalSymlinks"),
		"os.Exit":                               func(w *W, a []value) value { panic(fatalExit{int(w.cint(a[0], k64)), "os.Exit"}) },
		"github.com/mattn/go-isatty.IsTerminal": func(w *W, a []value) value { return false },
		"golang.org/x/sys/unix.ioctlPtr":        func(w *W, a []value) value { return w.mkErr(value("inappropriate ioctl for device")) },
		"time.Now":                              func(w *W, a []value) value { return Struct{uint64(0), uint64(0), (*value)(nil)} },
		"(time.Time).Unix": func(w *W, a []value) value {
			if w.p.now != nil {
				return value(w.p.now)
			}
			return w.freshVar("now", 64, 0, 1<<40)
		},
		"(time.Time).UnixNano": func(w *W, a []value) value {
			return w.freshVar("nowns", 64, 0, 1<<62)
		},
		"(time.Time).UnixMilli": func(w *W, a []value) value {
			return w.freshVar("nowms", 64, 0, 1<<50)
		},
		"(*sync.Mutex).Lock":      func(w *W, a []value) value { w.lock(a[0], false); return nil },
		"(*sync.Mutex).Unlock":    func(w *W, a []value) value { w.unlock(a[0], false); return nil },
		"(*sync.RWMutex).Lock":    func(w *W, a []value) value { w.lock(a[0], false); return nil },
		"(*sync.RWMutex).Unlock":  func(w *W, a []value) value { w.unlock(a[0], false); return nil },
		"(*sync.RWMutex).RLock":   func(w *W, a []value) value { w.lock(a[0], true); return nil },
		"(*sync.RWMutex).RUnlock": func(w *W, a []value) value { w.unlock(a[0], true); return nil },
		"(*sync.Mutex).TryLock": func(w *W, a []value) value {
			if w.p.locks[a[0].(*value)] != 0 {
				return false
			}
			w.lock(a[0], false)
			return true
		},
		"(*sync.WaitGroup).Add":  func(w *W, a []value) value { w.wgAdd(a[0], int64(w.cint(a[1], kinfo{kInt, 64, true}))); return nil },
		"(*sync.WaitGroup).Done": func(w *W, a []value) value { w.wgAdd(a[0], -1); return nil },
		"(*sync.WaitGroup).Wait": func(w *W, a []value) value { w.wgWait(a[0]); return nil },
		"(*sync.WaitGroup).Go": func(w *W, a []value) value {
			f := a[1]
			w.wgAdd(a[0], 1)
			w.spawn(func() { w.call(nil, f, nil); w.wgAdd(a[0], -1) })
			return nil
		},
		"(*sync.Once).Do": func(w *W, a []value) value {
			f := a[0].(*value)
			if w.p.once[f] {
				return nil
			}
			w.p.once[f] = true
			w.p.race.off++
			w.call(nil, a[1], nil)
			w.p.race.off--
			return nil
		},
		"runtime.KeepAlive": noop, "runtime.GC": noop,
		"internal/race.Enable": noop, "internal/race.Disable": noop,

		// ---- strings / bytes internals ----
		"(*strings.Builder).copyCheck": noop,
		"internal/bytealg.IndexByte": func(w *W, a []value) value {
			return w.indexByte(a[0].(Slice), a[1])
		},
		"internal/bytealg.IndexByteString": func(w *W, a []value) value {
			if s, ok := w.force(a[0]).(string); ok {
				if c, ok := a[1].(uint64); ok {
					return i64(int64(strings.IndexByte(s, byte(c))))
				}
			}
			return w.indexByte(w.strBytes(a[0]), a[1])
		},
		"internal/bytealg.LastIndexByteString": func(w *W, a []value) value {
			b := w.strBytes(a[0])
			for i := len(b) - 1; i >= 0; i-- {
				if w.truth(w.equal(types.Typ[types.Byte], b[i], a[1])) {
					return i64(int64(i))
				}
			}
			return i64(-1)
		},
		"internal/bytealg.CountString": func(w *W, a []value) value {
			n := int64(0)
			for _, x := range w.strBytes(a[0]) {
				if w.truth(w.equal(types.Typ[types.Byte], x, a[1])) {
					n++
				}
			}
			return i64(n)
		},
		"internal/bytealg.Count": func(w *W, a []value) value {
			n := int64(0)
			for _, x := range a[0].(Slice) {
				if w.truth(w.equal(types.Typ[types.Byte], x, a[1])) {
					n++
				}
			}
			return i64(n)
		},
		"internal/bytealg.Equal": func(w *W, a []value) value {
			return w.strEq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
		},
		"bytes.Equal": func(w *W, a []value) value {
			return w.strEq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
		},
		"internal/bytealg.Compare": func(w *W, a []value) value {
			return w.strCompare(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
		},
		"internal/bytealg.CompareString": func(w *W, a []value) value { return w.strCompare(a[0], a[1]) },
		"strings.Compare":                func(w *W, a []value) value { return w.strCompare(a[0], a[1]) },
		"strings.Index":                  func(w *W, a []value) value { return w.strIndexOf(a[0], a[1]) },
		"internal/stringslite.Index":     func(w *W, a []value) value { return w.strIndexOf(a[0], a[1]) },
		"internal/bytealg.IndexString":   func(w *W, a []value) value { return w.strIndexOf(a[0], a[1]) },
		"bytes.Index": func(w *W, a []value) value {
			return w.strIndexOf(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
		},
		"internal/bytealg.MakeNoZero": func(w *W, a []value) value {
			n := int(w.cint(a[0], k64))
			s := make(Slice, n, roundupsize(n))
			f := s[:cap(s)]
			for i := range f {
				f[i] = uint64(0)
			}
			return s
		},
		"strings.Clone":              func(w *W, a []value) value { return a[0] },
		"internal/stringslite.Clone": func(w *W, a []value) value { return a[0] },
		"strings.ToLower":            func(w *W, a []value) value { return w.mapCase(a[0], 'A', 'Z', 32) },
		"strings.ToUpper":            func(w *W, a []value) value { return w.mapCase(a[0], 'a', 'z', ^uint64(31)) },

		// ---- strconv: literals standing for symbolic numbers ----
		"strconv.ParseInt": func(w *W, a []value) value {
			if t, ok := w.parseMagic(a[0]); ok {
				return Tuple{val(t), Iface{}}
			}
			return w.native("strconv.ParseInt", a)
		},
		"strconv.ParseUint": func(w *W, a []value) value {
			if t, ok := w.parseMagic(a[0]); ok {
				return Tuple{val(t), Iface{}}
			}
			return w.native("strconv.ParseUint", a)
		},
		"strconv.Atoi": func(w *W, a []value) value {
			if t, ok := w.parseMagic(a[0]); ok {
				return Tuple{val(t), Iface{}}
			}
			return w.native("strconv.Atoi", a)
		},
		"strconv.FormatInt": func(w *W, a []value) value {
			b := w.cint(a[1], k64)
			if t, ok := a[0].(*Term); ok {
				return &LazyStr{f: func() value { return mkStr(w.fmtInt(t, k64, uint64(b), false, fflags{})) }, sig: fmt.Sprint("i:", b), args: []value{t}}
			}
			return strconv.FormatInt(int64(a[0].(uint64)), int(b))
		},
		"strconv.FormatUint": func(w *W, a []value) value {
			b := w.cint(a[1], k64)
			ku := kinfo{kInt, 64, false}
			if t, ok := a[0].(*Term); ok {
				return &LazyStr{f: func() value { return mkStr(w.fmtInt(t, ku, uint64(b), false, fflags{})) }, sig: fmt.Sprint("i:", b), args: []value{t}}
			}
			return strconv.FormatUint(a[0].(uint64), int(b))
		},
		"strconv.Itoa": func(w *W, a []value) value {
			if t, ok := a[0].(*Term); ok {
				return &LazyStr{f: func() value { return mkStr(w.fmtInt(t, k64, 10, false, fflags{})) }, sig: "i:10", args: []value{t}}
			}
			return strconv.Itoa(int(a[0].(uint64)))
		},
		"strconv.ParseFloat": func(w *W, a []value) value {
			f, err := strconv.ParseFloat(w.splitStr(a[0]), int(w.cint(a[1], k64)))
			if err != nil {
				return Tuple{f, w.mkErr(err.Error())}
			}
			return Tuple{f, Iface{}}
		},
		"strconv.Quote": func(w *W, a []value) value { return mkStr(w.quote(a[0])) },

		// ---- math ----
		"math.Ceil": func(w *W, a []value) value { return w.fround("Ceil", a[0]) }, "math.Floor": func(w *W, a []value) value { return w.fround("Floor", a[0]) },
		"math.Trunc": func(w *W, a []value) value { return w.fround("Trunc", a[0]) }, "math.Round": func(w *W, a []value) value { return w.fround("Round", a[0]) },
		"math.Pow": func(w *W, a []value) value { return w.fpow(a[0], a[1]) },
		"math.Log2": func(w *W, a []value) value {
			if f, ok := a[0].(float64); ok {
				return math.Log2(f)
			}
			if e := a[0].(*FE); e.op == feI && w.within(e.n, 1, math.MaxInt64) {
				return &FE{op: feL, n: e.n}
			}
			return math.Log2(w.feConc(a[0]))
		},
		"math.Log":   func(w *W, a []value) value { return math.Log(w.feConc(a[0])) },
		"math.Log10": func(w *W, a []value) value { return math.Log10(w.feConc(a[0])) },
		"math.Sqrt":  func(w *W, a []value) value { return math.Sqrt(w.feConc(a[0])) },
		"math.IsNaN": func(w *W, a []value) value {
			if f, ok := a[0].(float64); ok {
				return math.IsNaN(f)
			}
			return false
		},
		"math.IsInf": func(w *W, a []value) value {
			if f, ok := a[0].(float64); ok {
				return math.IsInf(f, int(w.cint(a[1], k64)))
			}
			return false
		},
		"math.Abs": func(w *W, a []value) value {
			if f, ok := a[0].(float64); ok {
				return math.Abs(f)
			}
			return math.Abs(w.feConc(a[0]))
		},
		"math.Mod":         func(w *W, a []value) value { return math.Mod(w.feConc(a[0]), w.feConc(a[1])) },
		"math.Float64bits": func(w *W, a []value) value { return math.Float64bits(w.feConc(a[0])) },
		"math.Float64frombits": func(w *W, a []value) value {
			return math.Float64frombits(uint64(w.cint(a[0], k64)))
		},
		"math.Max":      func(w *W, a []value) value { return math.Max(w.feConc(a[0]), w.feConc(a[1])) },
		"math.Min":      func(w *W, a []value) value { return math.Min(w.feConc(a[0]), w.feConc(a[1])) },
		"math.Inf":      func(w *W, a []value) value { return math.Inf(int(w.cint(a[0], k64))) },
		"math.NaN":      func(w *W, a []value) value { return math.NaN() },
		"math/bits.Len": func(w *W, a []value) value { return w.bitLenV(a[0], 64) }, "math/bits.Len64": func(w *W, a []value) value { return w.bitLenV(a[0], 64) },
		"math/bits.Len32": func(w *W, a []value) value { return w.bitLenV(a[0], 32) },
		"math/bits.LeadingZeros64": func(w *W, a []value) value {
			l := w.bitLenV(a[0], 64)
			return val(w.tt.Bin(OSub, w.tt.Const(64, 64), w.term(l, 64)))
		},
		"math/bits.TrailingZeros64": func(w *W, a []value) value {
			if u, ok := a[0].(uint64); ok {
				n := 0
				for n < 64 && u>>n&1 == 0 {
					n++
				}
				return uint64(n)
			}
			t := a[0].(*Term)
			r := w.tt.Const(64, 64)
			for i := 63; i >= 0; i-- {
				b := w.tt.Bin(OAnd, w.tt.Bin(OLShr, t, w.tt.Const(uint64(i), 64)), w.tt.Const(1, 64))
				r = w.tt.Ite(w.tt.Eq(b, w.tt.Const(1, 64)), w.tt.Const(uint64(i), 64), r)
			}
			return val(r)
		},

		// ---- sort ----
		"sort.Slice": func(w *W, a []value) value {
			s := a[0].(Iface).v.(Slice)
			w.sortSlice(s, a[1], false)
			return nil
		},
		"sort.SliceStable": func(w *W, a []value) value {
			s := a[0].(Iface).v.(Slice)
			w.sortSlice(s, a[1], true)
			return nil
		},

		// ---- hash ----
		"hash/adler32.Checksum": func(w *W, a []value) value {
			d := a[0].(Slice)
			buf := make([]byte, len(d))
			if w.p.adlerFree {
				return w.freshVar("adler", 32, minS(32), maxS(32))
			}
			conc := true
			for i, x := range d {
				u, ok := x.(uint64)
				if !ok {
					conc = false
					break
				}
				buf[i] = byte(u)
			}
			if conc && !w.p.adlerUF {
				return uint64(adler32.Checksum(buf))
			}
			return w.adler(d)
		},
		v + "FreeHash":     func(w *W, a []value) value { w.p.adlerFree = true; return nil },
		v + "AbstractHash": func(w *W, a []value) value { w.p.adlerUF = true; return nil },
		"encoding/binary.Write": func(w *W, a []value) value {
			le := true
			if o := a[1].(Iface); o.t != nil && strings.Contains(o.t.String(), "bigEndian") {
				le = false
			}
			d := a[2].(Iface)
			b, ok := w.binBytes(d.t, d.v, le)
			if !ok {
				w.unsup("binary.Write of %s", d.t)
			}
			r := w.fwriteB(a[0].(Iface), b).(Tuple)
			return r[1]
		},
	}
	for n, wd := range map[string]uint8{"Int32": 32, "Uint32": 32, "Int64": 64, "Uint64": 64, "Uintptr": 64} {
		k := kinfo{kInt, wd, strings.HasPrefix(n, "Int")}
		// accesses which synchronise are no races
		at := func(f intrinsic) intrinsic {
			return func(w *W, a []value) value {
				w.p.race.off++
				defer func() { w.p.race.off-- }()
				return f(w, a)
			}
		}
		m["sync/atomic.Load"+n] = at(func(w *W, a []value) value { return w.load(a[0]) })
		m["sync/atomic.Store"+n] = at(func(w *W, a []value) value { w.store(a[0], a[1]); return nil })
		m["sync/atomic.Add"+n] = at(func(w *W, a []value) value {
			x := val(w.tt.Bin(OAdd, w.term(w.load(a[0]), k.w), w.term(a[1], k.w)))
			w.store(a[0], x)
			return x
		})
		m["sync/atomic.Swap"+n] = at(func(w *W, a []value) value {
			x := w.load(a[0])
			w.store(a[0], a[1])
			return x
		})
		m["sync/atomic.CompareAndSwap"+n] = at(func(w *W, a []value) value {
			if w.truth(val(w.tt.Eq(w.term(w.load(a[0]), k.w), w.term(a[1], k.w)))) {
				w.store(a[0], a[2])
				return true
			}
			return false
		})
	}
	intrinsics = m
	for _, n := range []string{"math/bits.Len", "math/bits.Len64", "math/bits.Len32", v + "And", v + "Or", v + "Not", v + "Implies", v + "Ite", v + "StrEq", v + "Iff"} {
		pureIntr[n] = true
	}
}

func (w *W) binBytes(t types.Type, v value, le bool) ([]value, bool) {
	k := kindOf(t)
	switch k.cls {
	case kInt:
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int, types.Uint, types.Uintptr:
				return nil, false
			}
		}
		n := int(k.w / 8)
		tm := w.term(v, k.w)
		out := make([]value, n)
		for i := 0; i < n; i++ {
			x := val(w.tt.Extract(w.tt.Bin(OLShr, tm, w.tt.Const(uint64(8*i), k.w)), 8))
			if le {
				out[i] = x
			} else {
				out[n-1-i] = x
			}
		}
		return out, true
	case kBool:
		if b, ok := v.(bool); ok {
			if b {
				return []value{uint64(1)}, true
			}
			return []value{uint64(0)}, true
		}
		return []value{val(w.tt.Ite(w.term(v, 0), w.tt.Const(1, 8), w.tt.Const(0, 8)))}, true
	case kFloat:
		if k.w == 64 {
			if _, ok := v.(*FE); ok && w.p.adlerFree { // bytes end up in the free hash only
				return w.binBytes(types.Typ[types.Uint64], w.freshVar("fbits", 64, math.MinInt64, math.MaxInt64), le)
			}
			return w.binBytes(types.Typ[types.Uint64], math.Float64bits(w.feConc(v)), le)
		}
	case kPtr:
		if p := v.(*value); p != nil {
			return w.binBytes(deref(t), *p, le)
		}
	case kStruct:
		var out []value
		st := t.Underlying().(*types.Struct)
		for i, x := range v.(Struct) {
			b, ok := w.binBytes(st.Field(i).Type(), x, le)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	case kSlice:
		var out []value
		et := t.Underlying().(*types.Slice).Elem()
		for _, x := range v.(Slice) {
			b, ok := w.binBytes(et, x, le)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	}
	return nil, false
}

// adler abstracts the checksum of symbolic data by an injective function.
func (w *W) adler(d []value) value {
	data := append([]value(nil), d...)
	eq := func(c []value) *Term {
		if len(c) != len(data) {
			return w.tt.fls
		}
		r := w.tt.tru
		for i := range c {
			r = w.tt.And(r, w.tt.Eq(w.term(c[i], 8), w.term(data[i], 8)))
		}
		return r
	}
	for _, c := range w.p.adler {
		if e := eq(c.data); e.isConst() && e.c == 1 {
			return c.h
		}
	}
	h := w.freshVar("adler", 32, minS(32), maxS(32))
	for _, c := range w.p.adler {
		// h == c.h  <=>  data equal
		w.assumeTrue(w.tt.Eq(w.tt.Eq(h, c.h), eq(c.data)))
	}
	w.p.adler = append(w.p.adler, adlerCall{data, h})
	return h
}

// assumeTrue adds a fact that is satisfiable by construction.
func (w *W) assumeTrue(t *Term) { w.assume(t) }

func (w *W) bitLenV(v value, wd uint8) value {
	if u, ok := v.(uint64); ok {
		n := 0
		for u > 0 {
			n++
			u >>= 1
		}
		return uint64(n)
	}
	return val(w.bitLen(v.(*Term)))
}

func (w *W) strCompare(a, b value) value {
	x, ok1 := w.force(a).(string)
	y, ok2 := w.force(b).(string)
	if ok1 && ok2 {
		return i64(int64(strings.Compare(x, y)))
	}
	eq, lt := w.term(w.strEq(a, b), 0), w.term(w.strLess(a, b), 0)
	return val(w.tt.Ite(eq, w.tt.Const(0, 64), w.tt.Ite(lt, w.tt.Const(^uint64(0), 64), w.tt.Const(1, 64))))
}

func (w *W) strIndexOf(a, b value) value {
	x, ok1 := w.force(a).(string)
	y, ok2 := w.force(b).(string)
	if ok1 && ok2 {
		return i64(int64(strings.Index(x, y)))
	}
	n, m := w.strLen(a), w.strLen(b)
	for i := 0; i+m <= n; i++ {
		if w.truth(w.strEq(w.substr(a, i, i+m), b)) {
			return i64(int64(i))
		}
	}
	return i64(-1)
}

func (w *W) mapCase(s value, lo, hi uint64, d uint64) value {
	if x, ok := w.force(s).(string); ok {
		if lo == 'A' {
			return strings.ToLower(x)
		}
		return strings.ToUpper(x)
	}
	b := w.strBytes(s)
	out := make([]value, len(b))
	for i, x := range b {
		t := w.term(x, 8)
		if w.decide(w.tt.Cmp(OUle, w.tt.Const(0x80, 8), t)) {
			w.unsup("case mapping of non-ASCII symbolic text")
		}
		c := w.tt.And(w.tt.Cmp(OUle, w.tt.Const(lo, 8), t), w.tt.Cmp(OUle, t, w.tt.Const(hi, 8)))
		add := w.tt.Const(32, 8)
		if lo == 'a' {
			add = w.tt.Const(uint64(256-32), 8)
		}
		out[i] = val(w.tt.Ite(c, w.tt.Bin(OAdd, t, add), t))
	}
	return mkStr(out)
}

func (w *W) fwrite(wr Iface, s value) value {
	if wr.t != nil && wr.t.String() == "*os.File" && !w.p.capture {
		return Tuple{uint64(0), Iface{}}
	}
	return w.fwriteB(wr, w.strBytes(s))
}

func (w *W) fwriteB(wr Iface, b []value) value {
	if wr.t == nil {
		w.rtPanic("nil writer")
	}
	if wr.t.String() == "*os.File" {
		if w.p.capture {
			return w.callFn(w.vfn("OSFileWrite"), []value{wr.v, Slice(append([]value(nil), b...))}, nil)
		}
		return Tuple{uint64(len(b)), Iface{}}
	}
	sel := w.methodByName(wr.t, "Write")
	if sel == nil {
		w.unsup("no Write on %s", wr.t)
	}
	return w.callFn(w.P.prog.MethodValue(sel), []value{wr.v, Slice(append([]value(nil), b...))}, nil)
}

// native interprets the library source of a function that has an intrinsic wrapper.
func (w *W) native(name string, a []value) value {
	i := strings.LastIndex(name, ".")
	fn := w.P.byPath[name[:i]].Func(name[i+1:])
	return w.callBody(fn, a)
}

func (w *W) callBody(fn *ssa.Function, a []value) value {
	fi := w.P.info(fn)
	w.p.depth++
	w.stack = append(w.stack, fn)
	d, sl := w.p.depth, len(w.stack)
	fr := &frame{fi: fi, regs: make([]value, fi.nregs)}
	copy(fr.regs, a)
	if hasDefer(fn) {
		w.runWithDefers(fr, d, sl)
	} else {
		w.runFrame(fr)
	}
	w.p.depth = d - 1
	w.stack = w.stack[:sl-1]
	return fr.result
}

func (w *W) sortSlice(s Slice, less value, stable bool) {
	lt := func(i, j int) bool {
		return w.truth(w.call(nil, less, []value{i64(int64(i)), i64(int64(j))}))
	}
	swap := func(i, j int) {
		a, b := copyVal(s[i]), copyVal(s[j])
		storeInto(&s[i], b)
		storeInto(&s[j], a)
	}
	n := len(s)
	if stable || n <= 12 {
		if n > 20 {
			// blocks of 20 then symMerge: any stable algorithm gives the same result for a strict weak order
		}
		for i := 1; i < n; i++ {
			for j := i; j > 0 && lt(j, j-1); j-- {
				swap(j, j-1)
			}
		}
		return
	}
	nat := &Native{name: "swap", f: func(w *W, a []value) value {
		swap(int(w.cint(a[0], k64)), int(w.cint(a[1], k64)))
		return nil
	}}
	fn := w.P.byPath["sort"].Func("pdqsort_func")
	lim := 0
	for x := n; x > 0; x >>= 1 {
		lim++
	}
	w.callFn(fn, []value{Struct{less, nat}, i64(0), i64(int64(n)), i64(int64(lim))}, nil)
}
