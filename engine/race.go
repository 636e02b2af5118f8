package main

import "strings"

// Goroutines run atomically at synchronisation points, in any order when permOrd is on.
// Two accesses of a cell by goroutines which are not ordered by go statements and
// WaitGroups, at least one of them a write, are a data race unless both hold a common
// lock. The analysis is on while permGo is.

type goState struct {
	id   int
	vc   map[int]int
	held map[*value]int
}

type accRec struct {
	gid, clk int
	held     []*value
	where    string
}

type cellAcc struct{ w, r []*accRec }

type wgState struct {
	n  int64
	vc map[int]int
}

type goWait struct {
	st *goState
	f  func()
}

type raceState struct {
	cells map[any]*cellAcc
	nid   int
	raced string
	off   int
	quiet bool        // all goroutines are joined by the main one
	last  map[int]int // clock of the last access of each goroutine
}

func join(a, b map[int]int) {
	for k, c := range b {
		if c > a[k] {
			a[k] = c
		}
	}
}

func (w *W) gor() *goState {
	if w.p.cur == nil {
		w.p.cur = &goState{vc: map[int]int{0: 1}, held: map[*value]int{}}
	}
	return w.p.cur
}

// spawn queues a goroutine.
func (w *W) spawn(f func()) {
	g := w.gor()
	w.p.race.nid++
	w.p.race.quiet = false
	n := &goState{id: w.p.race.nid, vc: map[int]int{}, held: map[*value]int{}}
	join(n.vc, g.vc)
	n.vc[n.id] = 1
	g.vc[g.id]++
	w.p.gos = append(w.p.gos, goWait{n, f})
}

// runGo runs one of the queued goroutines.
func (w *W) runGo() {
	k := 0
	if w.p.permOrd && len(w.p.gos) > 1 {
		k = w.choice(len(w.p.gos))
	}
	g := w.p.gos[k]
	w.p.gos = append(append([]goWait{}, w.p.gos[:k]...), w.p.gos[k+1:]...)
	old := w.gor()
	w.p.cur = g.st
	g.f()
	w.p.cur = old
}

// runGos runs all queued goroutines.
func (w *W) runGos() {
	for len(w.p.gos) > 0 {
		w.runGo()
	}
}

func (w *W) wg(p value) *wgState {
	c := p.(*value)
	if w.p.wgs == nil {
		w.p.wgs = map[*value]*wgState{}
	}
	s := w.p.wgs[c]
	if s == nil {
		s = &wgState{vc: map[int]int{}}
		w.p.wgs[c] = s
	}
	return s
}

func (w *W) wgAdd(p value, n int64) {
	s := w.wg(p)
	s.n += n
	if n < 0 {
		g := w.gor()
		join(s.vc, g.vc)
		g.vc[g.id]++
	}
	if s.n < 0 {
		w.rtPanic("sync: negative WaitGroup counter")
	}
}

func (w *W) wgWait(p value) {
	s := w.wg(p)
	if s.n == 0 && w.p.permOrd && len(w.p.gos) > 0 {
		// goroutines which have not been added may or may not have run
		for len(w.p.gos) > 0 && w.choice(2) == 1 {
			w.runGo()
		}
	}
	for s.n > 0 {
		if len(w.p.gos) == 0 {
			panic(diverge{"deadlock: wait for goroutines which never finish"})
		}
		w.runGo()
	}
	g := w.gor()
	join(g.vc, s.vc)
	if g.id == 0 && len(w.p.gos) == 0 {
		for id, clk := range w.p.race.last {
			if id != 0 && g.vc[id] < clk {
				return
			}
		}
		w.p.race.quiet, w.p.race.cells = true, nil
	}
}

func (w *W) lock(p value, read bool) {
	c := p.(*value)
	g := w.gor()
	if w.p.locks == nil {
		w.p.locks = map[*value]int{}
	}
	switch n := w.p.locks[c]; {
	case n < 0, n > 0 && !read:
		panic(diverge{"deadlock: locking of a locked mutex"})
	}
	if read {
		w.p.locks[c]++
	} else {
		w.p.locks[c] = -1
	}
	g.held[c]++
}

func (w *W) unlock(p value, read bool) {
	c := p.(*value)
	n := w.p.locks[c]
	if n == 0 || read != (n > 0) {
		w.p.catch = "unlock of unlocked mutex"
		panic(diverge{"fatal error: unlock of unlocked mutex"})
	}
	if read {
		w.p.locks[c]--
	} else {
		w.p.locks[c] = 0
	}
	g := w.gor()
	if g.held[c]--; g.held[c] <= 0 {
		delete(g.held, c)
	}
}

// access notes an access of a cell, a map or the cells of a structure.
func (w *W) access(c any, write bool) {
	p := w.p
	if !p.permGo || p.race.nid == 0 || p.race.quiet || p.race.off > 0 || p.race.raced != "" {
		return
	}
	switch v := c.(type) {
	case *Map:
		if v == nil {
			return
		}
	case *value:
		switch x := (*v).(type) {
		case Struct:
			for i := range x {
				w.access(&x[i], write)
			}
			return
		case Array:
			for i := range x {
				w.access(&x[i], write)
			}
			return
		}
	}
	g := w.gor()
	where := ""
	if n := len(w.stack); n > 0 {
		fn := w.stack[n-1]
		if fn.Pkg != nil && (strings.Contains(fn.Pkg.Pkg.Path(), "verifh") || fn.Pkg.Pkg.Path() == "log") {
			return
		}
		where = fn.String()
	}
	if p.race.cells == nil {
		p.race.cells = map[any]*cellAcc{}
	}
	a := p.race.cells[c]
	if a == nil {
		a = &cellAcc{}
		p.race.cells[c] = a
	}
	clk := g.vc[g.id]
	clash := func(o *accRec) bool {
		if o == nil || o.gid == g.id || o.clk <= g.vc[o.gid] {
			return false
		}
		for _, l := range o.held {
			if g.held[l] > 0 {
				return false
			}
		}
		p.race.raced = o.where + " and " + where
		return true
	}
	for _, o := range a.w {
		if clash(o) {
			return
		}
	}
	if write {
		for _, o := range a.r {
			if clash(o) {
				return
			}
		}
	}
	rec := &accRec{gid: g.id, clk: clk, where: where}
	for l := range g.held {
		rec.held = append(rec.held, l)
	}
	if p.race.last == nil {
		p.race.last = map[int]int{}
	}
	p.race.last[g.id] = clk
	l := &a.r
	if write {
		l = &a.w
	}
	for i, o := range *l {
		if o.gid == g.id {
			if o.clk < clk || len(rec.held) < len(o.held) {
				(*l)[i] = rec
			}
			return
		}
	}
	*l = append(*l, rec)
}
