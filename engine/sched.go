package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type vclock []uint32

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func join(a, b vclock) vclock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i := range b {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
	return a
}

type Thread struct {
	id     int
	resume chan bool
	ready  func() bool
	done   bool
	vc     vclock
	why    string
}

type mutexState struct {
	w  bool
	r  int
	vc vclock
}

type wgState struct {
	n  int64
	vc vclock
}

type access struct {
	wt    int
	wc    uint32
	wpos  token.Pos
	reads map[int]uint32
	rpos  token.Pos
	hasW  bool
}

var threadWG sync.WaitGroup

func (in *Interp) newThread(parent *Thread) *Thread {
	th := &Thread{id: len(in.threads), resume: make(chan bool, 1)}
	if parent != nil {
		th.vc = parent.vc.clone()
		in.tick(parent)
	}
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	th.vc[th.id]++
	in.threads = append(in.threads, th)
	return th
}

func (in *Interp) tick(th *Thread) { th.vc[th.id]++ }

// startThread launches the goroutine that executes a thread of the interpreted program.
func (in *Interp) startThread(th *Thread, wg *sync.WaitGroup, body func(fr *frame)) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		if !<-th.resume {
			th.done = true
			return
		}
		defer func() {
			r := recover()
			th.done = true
			switch e := r.(type) {
			case nil:
			case pathEnd:
				if e.kind == "killed" {
					return
				}
				in.finish(e)
				return
			case *targetPanic:
				in.violation("panic", fmt.Sprintf("panic: %s at %s", e.msg, e.pos))
				in.finish(pathEnd{"done", "panic"})
				return
			default:
				in.finish(pathEnd{"internal", fmt.Sprintf("%v", r) + "\n" + stack()})
				return
			}
			if th.id == 0 {
				in.finish(pathEnd{"done", ""})
				return
			}
			// hand the baton on
			func() {
				defer func() {
					if r := recover(); r != nil {
						if e, ok := r.(pathEnd); ok {
							in.finish(e)
							return
						}
						in.finish(pathEnd{"internal", fmt.Sprintf("%v", r) + "\n" + stack()})
					}
				}()
				next := in.pick(th, false)
				if next == nil {
					in.deadlock()
				}
				in.cur = next
				next.resume <- true
			}()
		}()
		body(&frame{in: in, th: th, fn: nil})
	}()
}

func (in *Interp) finish(e pathEnd) {
	select {
	case in.end <- e:
	default:
	}
}

func (in *Interp) deadlock() {
	msg := "deadlock: all goroutines blocked:"
	for _, t := range in.threads {
		if !t.done {
			msg += fmt.Sprintf(" g%d(%s)", t.id, t.why)
		}
	}
	in.violation("deadlock", msg)
	panic(pathEnd{"done", "deadlock"})
}

func (in *Interp) spawn(fr *frame, fn *Fn, args []Value, pos token.Pos) {
	if fn == nil {
		in.panicT(fr, "go of nil func value", pos)
	}
	if len(in.threads) > 400 {
		panic(pathEnd{"limit", "too many goroutines"})
	}
	th := in.newThread(fr.th)
	in.startThread(th, &in.w.wgFor(in).wg, func(f *frame) {
		in.callFn(f, fn, args, pos)
	})
	in.yield(fr.th)
}

// runnable threads in scheduling order starting after th.
func (in *Interp) runnable(th *Thread) []*Thread {
	var out []*Thread
	n := len(in.threads)
	for k := 1; k <= n; k++ {
		t := in.threads[(th.id+k)%n]
		if t.done || t == th {
			continue
		}
		if t.ready == nil || t.ready() {
			out = append(out, t)
		}
	}
	return out
}

// pick selects the next thread; each skipped candidate costs one delay.
func (in *Interp) pick(th *Thread, selfOK bool) *Thread {
	c := in.runnable(th)
	if selfOK {
		c = append([]*Thread{th}, c...)
	}
	if len(c) == 0 {
		return nil
	}
	k := 0
	if in.delays > 0 && len(c) > 1 {
		k = in.choose(min(len(c), in.delays+1))
		in.delays -= k
	}
	return c[k]
}

// yield is a possible preemption point.
func (in *Interp) yield(th *Thread) {
	if in.delays <= 0 {
		return
	}
	next := in.pick(th, true)
	if next != th {
		in.transfer(th, next)
	}
}

func (in *Interp) transfer(th, next *Thread) {
	in.cur = next
	next.resume <- true
	if !<-th.resume {
		panic(pathEnd{"killed", ""})
	}
	in.cur = th
}

// block suspends the thread until ready() holds.
func (in *Interp) block(th *Thread, why string, ready func() bool) {
	for !ready() {
		th.ready, th.why = ready, why
		next := in.pick(th, false)
		if next == nil {
			in.deadlock()
		}
		in.transfer(th, next)
		th.ready = nil
	}
}

// ---- channels ----

func (in *Interp) chanSend(fr *frame, c *Chan, v Value, pos token.Pos) {
	th := fr.th
	in.yield(th)
	if c == nil {
		in.block(th, "send on nil channel", func() bool { return false })
	}
	if c.closed {
		in.panicT(fr, "send on closed channel", pos)
	}
	if c.cap > 0 {
		in.block(th, "chan send", func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			in.panicT(fr, "send on closed channel", pos)
		}
		if c.sent >= c.cap && c.sent-c.cap < len(c.rvcs) {
			th.vc = join(th.vc, c.rvcs[c.sent-c.cap])
		}
		c.sent++
		c.buf = append(c.buf, chanItem{v, th.vc.clone()})
		in.tick(th)
		in.yield(th)
		return
	}
	o := &offer{v: v, vc: th.vc.clone()}
	in.tick(th)
	c.offers = append(c.offers, o)
	in.block(th, "chan send", func() bool { return o.taken || c.closed })
	if !o.taken {
		in.panicT(fr, "send on closed channel", pos)
	}
	th.vc = join(th.vc, o.rvc)
}

func (in *Interp) chanRecv(fr *frame, c *Chan, et types.Type) (Value, bool) {
	th := fr.th
	in.yield(th)
	if c == nil {
		in.block(th, "receive from nil channel", func() bool { return false })
	}
	c.recvq++
	in.block(th, "chan receive", func() bool { return len(c.buf) > 0 || len(c.offers) > 0 || c.closed })
	c.recvq--
	return in.recvReady(th, c, et)
}

func (in *Interp) recvReady(th *Thread, c *Chan, et types.Type) (Value, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		th.vc = join(th.vc, it.vc)
		c.rvcs = append(c.rvcs, th.vc.clone())
		in.tick(th)
		c.rcvd++
		return it.v, true
	}
	if len(c.offers) > 0 {
		o := c.offers[0]
		c.offers = c.offers[1:]
		o.taken = true
		th.vc = join(th.vc, o.vc)
		o.rvc = th.vc.clone()
		in.tick(th)
		return o.v, true
	}
	th.vc = join(th.vc, c.cvc)
	return in.zero(et), false
}

func (in *Interp) chanClose(fr *frame, c *Chan, pos token.Pos) {
	in.yield(fr.th)
	if c == nil {
		in.panicT(fr, "close of nil channel", pos)
	}
	if c.closed {
		in.panicT(fr, "close of closed channel", pos)
	}
	c.closed = true
	c.cvc = fr.th.vc.clone()
	in.tick(fr.th)
	in.yield(fr.th)
}

func (fr *frame) selectStmt(x *ssa.Select) Value {
	in := fr.in
	th := fr.th
	in.yield(th)
	type cs struct {
		c    *Chan
		send Value
		dir  types.ChanDir
		et   types.Type
	}
	var cases []cs
	nrecv := 0
	for _, s := range x.States {
		c, _ := fr.get(s.Chan).(*Chan)
		k := cs{c: c, dir: s.Dir, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Dir == types.SendOnly {
			k.send = copyVal(fr.get(s.Send))
		} else {
			nrecv++
		}
		cases = append(cases, k)
	}
	readyIdx := func() []int {
		var r []int
		for i, k := range cases {
			if k.c == nil {
				continue
			}
			if k.dir == types.SendOnly {
				if k.c.closed || (k.c.cap > 0 && len(k.c.buf) < k.c.cap) || (k.c.cap == 0 && k.c.recvq > len(k.c.offers)) {
					r = append(r, i)
				}
			} else if len(k.c.buf) > 0 || len(k.c.offers) > 0 || k.c.closed {
				r = append(r, i)
			}
		}
		return r
	}
	rd := readyIdx()
	idx := -1
	if len(rd) == 0 && x.Blocking {
		for _, k := range cases {
			if k.c != nil && k.dir == types.RecvOnly {
				k.c.recvq++
			}
		}
		in.block(th, "select", func() bool { return len(readyIdx()) > 0 })
		for _, k := range cases {
			if k.c != nil && k.dir == types.RecvOnly {
				k.c.recvq--
			}
		}
		rd = readyIdx()
	}
	if len(rd) > 0 {
		idx = rd[in.choose(len(rd))]
	}
	res := Tuple{in.tt.bv(uint64(int64(idx)), 64), in.tt.tFalse}
	for i, k := range cases {
		if k.dir == types.SendOnly {
			continue
		}
		if i == idx {
			v, ok := in.recvReady(th, k.c, k.et)
			res[1] = in.tt.boolC(ok)
			res = append(res, v)
		} else {
			res = append(res, in.zero(k.et))
		}
	}
	if idx >= 0 && cases[idx].dir == types.SendOnly {
		in.chanSend(fr, cases[idx].c, cases[idx].send, x.Pos())
	}
	return res
}

// ---- mutexes, wait groups ----

func (in *Interp) mutex(p *Value) *mutexState {
	m := in.mutexes[p]
	if m == nil {
		m = &mutexState{}
		in.mutexes[p] = m
	}
	return m
}

func (in *Interp) lock(fr *frame, p *Value) {
	in.yield(fr.th)
	m := in.mutex(p)
	in.block(fr.th, "mutex lock", func() bool { return !m.w && m.r == 0 })
	m.w = true
	fr.th.vc = join(fr.th.vc, m.vc)
}

func (in *Interp) unlock(fr *frame, p *Value) {
	m := in.mutex(p)
	if !m.w {
		in.violation("panic", "fatal error: unlock of unlocked mutex")
		panic(pathEnd{"done", "panic"})
	}
	m.w = false
	m.vc = join(m.vc, fr.th.vc)
	in.tick(fr.th)
	in.yield(fr.th)
}

func (in *Interp) rlock(fr *frame, p *Value) {
	in.yield(fr.th)
	m := in.mutex(p)
	in.block(fr.th, "rwmutex rlock", func() bool { return !m.w })
	m.r++
	fr.th.vc = join(fr.th.vc, m.vc)
}

func (in *Interp) runlock(fr *frame, p *Value) {
	m := in.mutex(p)
	if m.r == 0 {
		in.violation("panic", "fatal error: RUnlock of unlocked RWMutex")
		panic(pathEnd{"done", "panic"})
	}
	m.r--
	m.vc = join(m.vc, fr.th.vc)
	in.tick(fr.th)
	in.yield(fr.th)
}

func (in *Interp) wgAdd(fr *frame, p *Value, d int64) {
	w := in.wgs[p]
	if w == nil {
		w = &wgState{}
		in.wgs[p] = w
	}
	w.n += d
	if w.n < 0 {
		in.panicT(fr, "sync: negative WaitGroup counter", token.NoPos)
	}
	w.vc = join(w.vc, fr.th.vc)
	in.tick(fr.th)
	in.yield(fr.th)
}

func (in *Interp) wgWait(fr *frame, p *Value) {
	in.yield(fr.th)
	w := in.wgs[p]
	if w == nil {
		w = &wgState{}
		in.wgs[p] = w
	}
	in.block(fr.th, "WaitGroup.Wait", func() bool { return w.n == 0 })
	fr.th.vc = join(fr.th.vc, w.vc)
}

func (in *Interp) atomicSync(fr *frame, p *Value) {
	in.yield(fr.th)
	v := join(in.atomvc[p], fr.th.vc)
	in.atomvc[p] = v
	fr.th.vc = join(fr.th.vc, v)
	in.tick(fr.th)
}

// ---- data races (happens-before) ----

func (in *Interp) recordTree(fr *frame, p *Value, write bool, pos token.Pos) {
	if len(in.threads) < 2 {
		return
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			in.recordTree(fr, &x[i], write, pos)
		}
		return
	case *Arr:
		if x.n <= 64 {
			for i := 0; i < x.n; i++ {
				in.recordTree(fr, x.at(i), write, pos)
			}
			return
		}
	}
	in.record(fr, p, write, pos)
}

func (in *Interp) record(fr *frame, p *Value, write bool, pos token.Pos) {
	if len(in.threads) < 2 {
		return
	}
	th := fr.th
	a := in.acc[p]
	if a == nil {
		a = &access{}
		in.acc[p] = a
	}
	if a.hasW && a.wt != th.id && a.wc > th.vc.get(a.wt) {
		in.race(fr, pos, a.wpos)
	}
	if write {
		for t, c := range a.reads {
			if t != th.id && c > th.vc.get(t) {
				in.race(fr, pos, a.rpos)
				break
			}
		}
		a.hasW, a.wt, a.wc, a.wpos = true, th.id, th.vc[th.id], pos
		a.reads = nil
	} else {
		if a.reads == nil {
			a.reads = map[int]uint32{}
		}
		a.reads[th.id] = th.vc[th.id]
		a.rpos = pos
	}
}

func (in *Interp) race(fr *frame, p1, p2 token.Pos) {
	fs := in.w.prog.Fset
	in.violation("race", fmt.Sprintf("data race between %s and %s", fs.Position(p1), fs.Position(p2)))
	panic(pathEnd{"done", "race"})
}
