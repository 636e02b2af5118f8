package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Chan is a channel. A send to an unbuffered channel does not wait for its receiver, it
// waits when another value is still in the channel.
type Chan struct {
	cap    int
	q      []value
	closed bool
	vc     map[int]int
	elem   types.Type
}

// sync orders the operations of a channel.
func (w *W) chSync(c *Chan) {
	g := w.gor()
	join(g.vc, c.vc)
	join(c.vc, g.vc)
	g.vc[g.id]++
}

// await runs other goroutines until ready.
func (w *W) await(ready func() bool) {
	for !ready() {
		if len(w.p.gos) == 0 {
			if w.gor().id == 0 {
				panic(diverge{"deadlock: all goroutines are asleep"})
			}
			w.unsup("goroutine which waits for one that runs it")
		}
		w.runGo()
	}
}

func chanOf(v value) *Chan {
	c, _ := v.(*Chan)
	return c
}

func (c *Chan) canSend() bool {
	return c != nil && (c.closed || len(c.q) < max(c.cap, 1))
}

func (c *Chan) canRecv() bool { return c != nil && (c.closed || len(c.q) > 0) }

func (w *W) chSend(v, x value) {
	c := chanOf(v)
	w.await(c.canSend)
	if c.closed {
		w.rtPanic("send on closed channel")
	}
	w.chSync(c)
	c.q = append(c.q, copyVal(x))
}

func (w *W) chRecv(v value) (value, bool) {
	c := chanOf(v)
	w.await(c.canRecv)
	w.chSync(c)
	if len(c.q) == 0 {
		return zero(c.elem), false
	}
	x := c.q[0]
	c.q = c.q[1:]
	return x, true
}

func (w *W) chClose(v value) {
	c := chanOf(v)
	if c == nil {
		w.rtPanic("close of nil channel")
	}
	if c.closed {
		w.rtPanic("close of closed channel")
	}
	w.chSync(c)
	c.closed = true
}

func (w *W) chSelect(fr *frame, ins *ssa.Select, ci *cinstr) value {
	ready := func() []int {
		var r []int
		for i, s := range ins.States {
			c := chanOf(w.get(fr, &ci.op[2*i]))
			if s.Dir == types.SendOnly && c.canSend() || s.Dir == types.RecvOnly && c.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	if ins.Blocking {
		w.await(func() bool { return len(ready()) > 0 })
	} else {
		for len(ready()) == 0 && len(w.p.gos) > 0 && (!w.p.permOrd || w.choice(2) == 1) {
			w.runGo()
		}
	}
	r := ready()
	out := Tuple{^uint64(0), false}
	for _, s := range ins.States {
		if s.Dir == types.RecvOnly {
			out = append(out, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	if len(r) == 0 {
		return out
	}
	k := r[0]
	if len(r) > 1 && w.p.permOrd {
		k = r[w.choice(len(r))]
	}
	out[0] = uint64(k)
	if ins.States[k].Dir == types.SendOnly {
		w.chSend(w.get(fr, &ci.op[2*k]), w.get(fr, &ci.op[2*k+1]))
		return out
	}
	x, ok := w.chRecv(w.get(fr, &ci.op[2*k]))
	out[1] = ok
	j := 2
	for i := 0; i < k; i++ {
		if ins.States[i].Dir == types.RecvOnly {
			j++
		}
	}
	out[j] = x
	return out
}
