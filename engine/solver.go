package main

import (
	"bufio"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one persistent SMT process; its assertion stack is kept in
// step with the path condition of the path being executed.
type Solver struct {
	tt         *TermTable
	bin        string
	args       []string
	fast, slow *proc
	cache      map[string]cached
	CacheHits  int
	Hard       int // queries that needed the second, non-incremental process
	Misfit     int // models that did not extend a partial one
	timeoutMs  int

	Queries, SatN, UnsatN, UnknownN int
	Time                            time.Duration
	err                             string
}

func NewSolver(tt *TermTable, timeoutMs int) *Solver {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	return &Solver{tt: tt, bin: bin, args: []string{"-in", "-smt2"}, timeoutMs: timeoutMs}
}

// proc is one running SMT solver.
type proc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	n   int
}

func startProc(bin string, args []string, prelude string) *proc {
	p := &proc{cmd: exec.Command(bin, args...)}
	w, err := p.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	p.cmd.Stderr = os.Stderr
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	p.in = bufio.NewWriterSize(w, 1<<16)
	p.out = bufio.NewReaderSize(r, 1<<16)
	p.send(prelude)
	return p
}

func (p *proc) send(x string) { p.in.WriteString(x) }

func (p *proc) close() {
	p.in.Flush()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (p *proc) readLine() string {
	p.in.Flush()
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			return "(error died " + err.Error()
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) Close() {
	if s.fast != nil {
		s.fast.close()
		s.fast = nil
	}
	if s.slow != nil {
		s.slow.close()
		s.slow = nil
	}
}

// Check decides pc ∧ extra, where cur is a model of pc. On Sat a model is returned.
// Only the constraints that share inputs (transitively) with extra are sent; the
// other inputs keep their values from cur.
func (s *Solver) Check(pc []*Term, extra *Term, cur Model) (Res, Model) {
	t0 := time.Now()
	sl := s.slice(pc, extra)
	key := cacheKey(sl)
	if c, ok := s.cache[key]; ok {
		s.CacheHits++
		if c.r != Sat {
			return c.r, nil
		}
		if m := s.complete(pc, extra, sl, c.m, cur); m != nil {
			return Sat, m
		}
	}
	s.Queries++
	defer func() {
		s.Time += time.Since(t0)
		if d := os.Getenv("VE_SLOW"); d != "" && time.Since(t0) > slowT {
			f := fmt.Sprintf("%s/q%d-%d.smt2", d, os.Getpid(), time.Now().UnixNano())
			os.WriteFile(f, []byte("(set-logic QF_BV)\n"+standalone(sl)+"(check-sat)\n"), 0o644)
		}
	}()
	r, m := s.fresh(sl)
	switch r {
	case Sat:
		s.SatN++
		if len(sl) < len(pc)+1 {
			f := s.complete(pc, extra, sl, m, cur)
			if s.cache == nil {
				s.cache = map[string]cached{}
			}
			s.cache[key] = cached{r, m}
			if f == nil { // cur was not a model of the rest: ask for everything
				s.Misfit++
				r, f = s.fresh(append(append([]*Term{}, pc...), extra))
			}
			return r, f
		}
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
		return r, m
	}
	if s.cache == nil {
		s.cache = map[string]cached{}
	}
	s.cache[key] = cached{r, m}
	return r, m
}

type cached struct {
	r Res
	m Model
}

func cacheKey(sl []*Term) string {
	ids := make([]int, len(sl))
	for i, t := range sl {
		ids[i] = int(t.id)
	}
	sort.Ints(ids)
	b := make([]byte, 0, 4*len(ids))
	for _, i := range ids {
		b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	return string(b)
}

// complete extends the model m of the slice to all inputs using cur; nil when the
// result is not a model of everything.
func (s *Solver) complete(pc []*Term, extra *Term, sl []*Term, m, cur Model) Model {
	r := make(Model, len(s.tt.vars))
	for _, v := range s.tt.vars {
		if int(v.varIdx) < len(cur) {
			r[v.varIdx] = cur[v.varIdx]
		} else {
			r[v.varIdx] = uint64(v.lo) & mask1(v.w)
		}
	}
	for _, t := range sl {
		for _, i := range s.tt.varsOf(t) {
			r[i] = m[i]
		}
	}
	s.tt.NewEval()
	for _, t := range pc {
		if s.tt.Eval(t, r) == 0 {
			return nil
		}
	}
	if s.tt.Eval(extra, r) == 0 {
		return nil
	}
	return r
}

func (s *Solver) slice(pc []*Term, extra *Term) []*Term {
	in := map[int32]bool{}
	for _, i := range s.tt.varsOf(extra) {
		in[i] = true
	}
	used := make([]bool, len(pc))
	sl := []*Term{extra}
	for again := true; again; {
		again = false
		for k, t := range pc {
			if used[k] {
				continue
			}
			vs := s.tt.varsOf(t)
			hit := false
			for _, i := range vs {
				if in[i] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[k] = true
			sl = append(sl, t)
			for _, i := range vs {
				if !in[i] {
					in[i] = true
					again = true
				}
			}
		}
	}
	return sl
}

// fresh decides a conjunction on its own: first quickly in an incremental process,
// then, when that takes too long, from scratch in another one.
func (s *Solver) fresh(sl []*Term) (Res, Model) {
	txt := standalone(sl)
	if s.fast == nil || s.fast.n > 4000 {
		if s.fast != nil {
			s.fast.close()
		}
		s.fast = startProc(s.bin, s.args, "(set-option :produce-models true)\n(set-option :timeout 150)\n")
	}
	r, m := s.ask(s.fast, "(push)\n"+txt+"(check-sat)\n", sl)
	if s.fast != nil {
		s.fast.send("(pop)\n")
	}
	if r != Unknown {
		return r, m
	}
	if s.slow == nil {
		s.slow = startProc(s.bin, s.args, "")
	}
	s.Hard++
	return s.ask(s.slow, fmt.Sprintf("(reset)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n%s(check-sat)\n", s.timeoutMs, txt), sl)
}

func (s *Solver) ask(p *proc, q string, sl []*Term) (Res, Model) {
	p.n++
	p.send(q)
	l := p.readLine()
	switch l {
	case "sat":
		m := s.model(p, sl)
		if m != nil {
			return Sat, m
		}
	case "unsat":
		return Unsat, nil
	case "unknown", "timeout":
		return Unknown, nil
	}
	if l != "sat" {
		s.err = l
		fmt.Fprintln(os.Stderr, "solver:", l)
	}
	p.close()
	if p == s.fast {
		s.fast = nil
	} else {
		s.slow = nil
	}
	return Unknown, nil
}

func (s *Solver) model(p *proc, sl []*Term) Model {
	vars := s.tt.vars
	m := make(Model, len(vars))
	var sb strings.Builder
	var asked []*Term
	for _, v := range vars {
		m[v.varIdx] = uint64(v.lo) & mask1(v.w)
	}
	seen := map[int32]bool{}
	for _, t := range sl {
		for _, i := range s.tt.varsOf(t) {
			if !seen[i] {
				seen[i] = true
				sb.WriteString(" " + vars[i].name)
				asked = append(asked, vars[i])
			}
		}
	}
	if len(asked) == 0 {
		return m
	}
	p.send("(get-value (" + sb.String() + "))\n")
	depth := 0
	var txt strings.Builder
	for {
		l := p.readLine()
		if strings.HasPrefix(l, "(error") {
			s.err = l
			fmt.Fprintln(os.Stderr, "solver:", l)
			return nil
		}
		txt.WriteString(l)
		txt.WriteByte(' ')
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	f := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	if len(f) != 2*len(asked) {
		s.err = "cannot parse model " + txt.String()
		fmt.Fprintln(os.Stderr, s.err)
		return nil
	}
	for i, v := range asked {
		x := f[2*i+1]
		var u uint64
		var err error
		switch {
		case x == "true":
			u = 1
		case x == "false":
			u = 0
		case strings.HasPrefix(x, "#x"):
			u, err = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			u, err = strconv.ParseUint(x[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %s", x)
		}
		if err != nil {
			s.err = err.Error()
			return nil
		}
		if v.w > 0 {
			u = uint64(sx(u, v.nw())) & mask(v.w)
		}
		m[v.varIdx] = u
	}
	return m
}

// standalone writes the conjunction as an SMT-LIB script of its own.
func standalone(ts []*Term) string {
	var sb strings.Builder
	seen := map[*Term]bool{}
	var decl func(t *Term)
	decl = func(t *Term) {
		if t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		for _, x := range t.a {
			if x != nil {
				decl(x)
			}
		}
		if t.op == OVar {
			k := t.nw()
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.name, sortOf(k))
			if k > 0 && t.lo != minS(k) {
				fmt.Fprintf(&sb, "(assert (bvsle %s %s))\n", constText(uint64(t.lo)&mask(k), k), t.name)
			}
			if k > 0 && t.hi != maxS(k) {
				fmt.Fprintf(&sb, "(assert (bvsle %s %s))\n", t.name, constText(uint64(t.hi)&mask(k), k))
			}
			return
		}
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.nw()), t.body())
	}
	for _, t := range ts {
		decl(t)
		sb.WriteString("(assert " + t.ref() + ")\n")
	}
	return sb.String()
}

var slowT = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VE_SLOWT")); err == nil {
		return d
	}
	return time.Second
}()
