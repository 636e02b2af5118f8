package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Item struct {
	prefix []Dec
	model  map[string]uint64
}

type Violation struct {
	Harness string            `json:"harness"`
	ID      string            `json:"assertion"`
	Inputs  map[string]int64  `json:"inputs"`
	Order   []string          `json:"-"`
	Where   string            `json:"where"`
	Caught  string            `json:"caught,omitempty"`
	Decs    []Dec             `json:"-"`
	Native  string            `json:"native_result,omitempty"`
	Conf    bool              `json:"confirmed"`
	Extra   map[string]string `json:"-"`
}

type Sample struct {
	Inputs map[string]int64 `json:"inputs"`
	Obs    []string         `json:"obs"`
	Tags   []string         `json:"tags"`
	End    string           `json:"end"`
}

// Run is the exploration of one harness.
type Run struct {
	P         *Prog
	fn        *ssa.Function
	name      string
	thorough  bool
	maxSteps  int64
	deadline  time.Time
	timeoutMs int

	mu      sync.Mutex
	cond    *sync.Cond
	work    []Item
	busy    int
	stopped bool
	stop    atomic.Bool

	paths, infeasible, ended     int64
	ends                         map[string]int64
	tags                         map[string]int64
	oblig                        map[string]int64
	notes                        map[string]int64
	reduced                      bool
	viols                        []Violation
	violN                        map[string]int
	firstViol                    time.Time
	samples                      []Sample
	maxSample                    int
	steps                        int64
	queries, sat, unsat, unknown int
	solverT                      time.Duration
	fns                          map[string]int64
	decsTotal                    int64
	nvars                        int
	decTotalMax                  int
	wall                         time.Duration
	only                         string // property whose assertions are decided ("" all)
	stopAfter                    int
}

func NewRun(P *Prog, name string, thorough bool) (*Run, error) {
	fn := P.hpkg.Func(name)
	if fn == nil {
		return nil, fmt.Errorf("no harness %s", name)
	}
	r := &Run{P: P, fn: fn, name: name, thorough: thorough, maxSteps: 30_000_000, ends: map[string]int64{}, tags: map[string]int64{},
		oblig: map[string]int64{}, notes: map[string]int64{}, violN: map[string]int{}, fns: map[string]int64{}, maxSample: samplesN(), timeoutMs: 20000, stopAfter: 16}
	r.cond = sync.NewCond(&r.mu)
	return r, nil
}

func (r *Run) checkStop() {
	if r.stop.Load() {
		panic(pathEnd{"stopped"})
	}
}

func (r *Run) add(it Item) {
	r.mu.Lock()
	r.work = append(r.work, it)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) note(s string, reduced bool) {
	r.mu.Lock()
	r.notes[s]++
	if reduced {
		r.reduced = true
	}
	r.mu.Unlock()
}

func (r *Run) obligation(id string) {
	r.mu.Lock()
	r.oblig[id]++
	r.mu.Unlock()
}

func (w *W) inputsOf(m Model) (map[string]int64, []string) {
	w.setModel(m)
	in := map[string]int64{}
	var order []string
	for _, i := range w.p.inputs {
		order = append(order, i.Name)
		if i.T == nil {
			in[i.Name] = int64(i.C)
			continue
		}
		v := w.evalU(i.T)
		if i.T.w == 64 {
			in[i.Name] = int64(v)
		} else {
			in[i.Name] = int64(v)
		}
	}
	return in, order
}

func (r *Run) violation(w *W, id string, m Model) {
	old := w.p.model
	in, order := w.inputsOf(m)
	w.setModel(old)
	where := ""
	if n := len(w.stack); n > 0 {
		where = w.stack[n-1].String()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violN[id]++
	if r.firstViol.IsZero() {
		r.firstViol = time.Now()
	}
	w.p.vio = true
	if r.violN[id] <= 4 {
		r.viols = append(r.viols, Violation{Harness: r.name, ID: id, Inputs: in, Order: order, Where: where, Caught: w.p.catch, Decs: append([]Dec(nil), w.p.decs...)})
	}
}

func (r *Run) go1(nw int) {
	t0 := time.Now()
	r.work = []Item{{}}
	var wg sync.WaitGroup
	stopTimer := make(chan struct{})
	go func() {
		tk := time.NewTicker(200 * time.Millisecond)
		defer tk.Stop()
		for {
			select {
			case <-stopTimer:
				return
			case <-tk.C:
				r.mu.Lock()
				out := time.Now().After(r.deadline)
				v := !r.firstViol.IsZero() && (time.Since(r.firstViol) > 15*time.Second || len(r.viols) >= r.stopAfter)
				if out || v {
					if !r.stop.Load() {
						if out {
							r.notes[fmt.Sprintf("time budget exhausted")]++
							r.reduced = true
						}
						r.stop.Store(true)
					}
					r.cond.Broadcast()
				}
				r.mu.Unlock()
			}
		}
	}()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.worker()
		}()
	}
	wg.Wait()
	close(stopTimer)
	r.wall = time.Since(t0)
}

func (r *Run) worker() {
	w := &W{P: r.P, R: r, tt: NewTermTable(), stdG: map[*ssa.Global]*value{}, stdInit: map[*ssa.Package]bool{},
		methods: map[methKey]*ssa.Function{}, implC: map[implKey]bool{}, fns: map[string]int64{}}
	w.sol = NewSolver(w.tt, r.timeoutMs)
	defer w.sol.Close()
	for {
		r.mu.Lock()
		for len(r.work) == 0 && r.busy > 0 && !r.stop.Load() {
			r.cond.Wait()
		}
		if r.stop.Load() || len(r.work) == 0 {
			if r.stop.Load() && len(r.work) > 0 {
				r.notes["paths left unexplored"] += int64(len(r.work))
				r.work = nil
			}
			// done
			r.steps += w.totSteps
			r.queries += w.sol.Queries
			if w.sol.Misfit > 0 {
				r.notes["models asked for twice"] += int64(w.sol.Misfit)
			}
			r.sat += w.sol.SatN
			r.unsat += w.sol.UnsatN
			r.unknown += w.sol.UnknownN
			r.solverT += w.sol.Time
			for k, v := range w.fns {
				r.fns[k] += v
			}
			r.nvars = max(r.nvars, len(w.tt.vars))
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		it := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		r.busy++
		r.mu.Unlock()

		w.runPath(it)

		r.mu.Lock()
		r.busy--
		r.cond.Broadcast()
		r.mu.Unlock()
	}
}

func (w *W) runPath(it Item) {
	if len(w.tt.tab) > 3_000_000 {
		// start afresh to bound memory
		tt := NewTermTable()
		w.tt = tt
		w.sol.Close()
		w.sol.tt = tt
		w.sol.cache = nil
		w.stdG = map[*ssa.Global]*value{}
		w.stdInit = map[*ssa.Package]bool{}
	}
	p := &Path{prefix: it.prefix, known: map[*Term]bool{}, globals: map[*ssa.Global]*value{}, names: map[string]int{},
		lits: map[string]*Term{}, state: map[string]value{}, once: map[*value]bool{}}
	w.p = p
	w.stack = w.stack[:0]
	// the item's model is by name; variables appear as the path declares them
	w.setModel(nil)
	end := "ok"
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			switch x := x.(type) {
			case pathEnd:
				end = x.why
			case targetPanic:
				end = "panic: " + w.panicText(x)
				w.safe(func() { w.flush(); w.uncaught("uncaught-panic") })
			case fatalExit:
				end = "exit"
				w.safe(func() { w.flush(); w.uncaught("uncaught-exit") })
			case diverge:
				end = "diverge"
				w.R.note("path cut: "+x.why, true)
			case unsupported:
				end = "unsupported"
				w.R.note("unsupported: "+x.msg+" in "+w.where(), true)
				if os.Getenv("VE_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "unsupported:", x.msg, w.trace())
				}
			default:
				end = "internal"
				w.R.note(fmt.Sprintf("internal error: %v in %s", x, w.where()), true)
				if os.Getenv("VE_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "internal:", x, w.trace(), string(debug.Stack()))
				}
			}
		}()
		w.pend = it.model
		for _, name := range []string{hPkgPath} {
			if f := w.P.byPath[name].Func("init"); f != nil {
				w.callFn(f, nil, nil)
			}
		}
		w.p.steps = 0
		w.callFn(w.R.fn, nil, nil)
		w.runGos()
		w.flush()
	}()
	w.totSteps += p.steps
	r := w.R
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ends[end]++
	for _, t := range p.tags {
		r.tags[t]++
	}
	r.decsTotal += int64(len(p.decs))
	if len(p.decs) > r.decTotalMax {
		r.decTotalMax = len(p.decs)
	}
	switch end {
	case "assume", "skip", "stopped", "unknown":
	default:
		r.paths++
	}
	if end == "ok" && (len(r.samples) < r.maxSample || (r.paths%97 == 0 && len(r.samples) < 4*r.maxSample)) && !p.vio {
		r.mu.Unlock()
		var s Sample
		w.safe(func() {
			w.usePend()
			in, _ := w.inputsOf(p.model)
			s = Sample{Inputs: in, Tags: append([]string(nil), p.tags...), End: end}
			for _, o := range p.obs {
				s.Obs = append(s.Obs, o.Name+"="+w.obsText(o))
			}
		})
		r.mu.Lock()
		if s.End != "" {
			r.samples = append(r.samples, s)
		}
	}
}

func (w *W) obsText(o Obs) string {
	switch x := o.V.(type) {
	case uint64:
		return fmt.Sprint(int64(x))
	case bool:
		return fmt.Sprint(x)
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(w.evalU(x) != 0)
		}
		return fmt.Sprint(int64(w.evalU(x)))
	default:
		b := w.strBytes(x)
		buf := make([]byte, len(b))
		for i, y := range b {
			buf[i] = byte(w.evalU(w.term(y, 8)))
		}
		return string(buf)
	}
}

func (w *W) safe(f func()) {
	defer func() { recover() }()
	f()
}

// uncaught reports a panic or exit that escaped the harness: harnesses that allow
// it wrap the call in Try, so anything else is a violation of the harness' property.
func (w *W) uncaught(id string) {
	w.R.obligation(id)
	w.usePend()
	w.R.violation(w, id, w.p.model)
}

func (w *W) where() string {
	if n := len(w.stack); n > 0 {
		return w.stack[n-1].String()
	}
	return "?"
}

func (w *W) trace() string {
	var sb strings.Builder
	for i := len(w.stack) - 1; i >= 0 && i > len(w.stack)-14; i-- {
		sb.WriteString("\n   " + w.stack[i].String())
	}
	return sb.String()
}

func (r *Run) summary() map[string]any {
	fns := make([]string, 0, len(r.fns))
	for k := range r.fns {
		if !strings.Contains(k, "/verifh/") && !strings.HasSuffix(k, ".init") {
			fns = append(fns, strings.TrimPrefix(strings.ReplaceAll(k, modPath+"/", ""), ""))
		}
	}
	sort.Strings(fns)
	return map[string]any{
		"harness": r.name, "paths": r.paths, "path_ends": r.ends, "reached": r.tags, "obligations": r.oblig, "notes": r.notes,
		"complete_within_bounds": !r.reduced && !r.stop.Load(), "ssa_instructions": r.steps, "queries": r.queries, "sat": r.sat, "unsat": r.unsat, "unknown": r.unknown,
		"solver_s": float64(int(r.solverT.Seconds()*100)) / 100, "wall_s": float64(int(r.wall.Seconds()*100)) / 100, "functions_encoded": fns, "symbolic_inputs_max": r.nvars,
		"decisions": r.decsTotal, "max_path_decisions": r.decTotalMax,
	}
}

func toJSON(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func samplesN() int {
	if n, err := strconv.Atoi(os.Getenv("VE_SAMPLES")); err == nil {
		return n
	}
	return 24
}
