package main

// Goroutines: one host goroutine each, exactly one running at a time (baton
// passing). Which one runs next is a symbolic choice when the harness asks for
// schedule exploration.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type gor struct {
	id       int
	wake     chan bool
	cur      *frame
	ready    func() bool
	idle     bool
	sleeping bool
	done     bool
	what     string
	as       *gor // detached from it, in race detection
}

type lockState struct {
	writer  int // goroutine id+1
	readers int
	count   int // WaitGroup
}

type chanV struct {
	cap    int
	et     types.Type
	buf    []value
	closed bool
	sendq  []*sendReq
	recvw  int // receivers currently waiting
}

type sendReq struct {
	v    value
	done bool
}

func (w *Worker) spawn(fn value, args []value) {
	if w.initialising {
		return // background goroutines of library initialisers are not modelled
	}
	g := &gor{id: len(w.gs), wake: make(chan bool)}
	w.gs = append(w.gs, g)
	w.raceSpawn(g)
	go func() {
		if !<-g.wake {
			g.done = true
			w.ack <- struct{}{}
			return
		}
		aborted := false
		defer func() {
			g.done = true
			r := recover()
			if s, ok := r.(stopPath); ok && s.kind == "abort" {
				aborted = true
			}
			if aborted {
				w.ack <- struct{}{}
				return
			}
			if r != nil {
				switch r.(type) {
				case goPanic, exitPath, stopPath:
				default:
					r = stopPath{"engine", fmt.Sprint(r, w.whereStr())}
				}
				w.fail = r
				w.handTo(w.gs[0])
				return
			}
			// finished: pass the baton on
			func() {
				defer func() {
					if r := recover(); r != nil {
						w.fail = r
						w.handTo(w.gs[0])
					}
				}()
				n := w.pick(nil)
				if n == nil {
					panic(stopPath{"deadlock", w.blockedText()})
				}
				w.handTo(n)
			}()
		}()
		w.cur = nil
		w.call(fn, args, 0)
	}()
	w.yieldPoint("go")
}

// handTo gives the baton to g without waiting for it back.
func (w *Worker) handTo(g *gor) {
	w.g = g
	g.wake <- true
}

func (w *Worker) switchTo(n *gor) {
	me := w.g
	me.cur = w.cur
	w.g = n
	n.wake <- true
	ok := <-me.wake
	if !ok {
		panic(stopPath{"abort", ""})
	}
	w.g = me
	w.cur = me.cur
	if w.fail != nil && me.id == 0 {
		panic(w.fail)
	}
}

func (w *Worker) killOthers() {
	for _, g := range w.gs[1:] {
		if !g.done {
			g.wake <- false
			<-w.ack
		}
	}
	w.gs = w.gs[:1]
}

func (g *gor) runnable() bool {
	if g.done || g.idle || g.sleeping {
		return false
	}
	return g.ready == nil || g.ready()
}

// pick selects the next goroutine to run (not counting self unless it is runnable).
func (w *Worker) pick(self *gor) *gor {
	var rs []*gor
	n := len(w.gs)
	start := 0
	if w.g != nil {
		start = w.g.id + 1
	}
	for k := 0; k < n; k++ {
		g := w.gs[(start+k)%n]
		if g.runnable() {
			rs = append(rs, g)
		}
	}
	if len(rs) > 0 {
		if w.schedExplore && len(rs) > 1 {
			return rs[w.choose(len(rs), "sched")]
		}
		return rs[0]
	}
	for _, g := range w.gs {
		if g.idle && !g.done {
			return g
		}
	}
	for k := 0; k < n; k++ {
		g := w.gs[(start+k)%n]
		if g.sleeping && !g.done {
			return g
		}
	}
	return nil
}

func (w *Worker) blockedText() string {
	s := ""
	for _, g := range w.gs {
		if !g.done {
			s += fmt.Sprintf(" g%d: %s;", g.id, g.what)
		}
	}
	return "all goroutines are blocked:" + s
}

func (w *Worker) block(what string, ready func() bool) {
	if ready() {
		return
	}
	g := w.g
	g.what = what + w.whereStr()
	for !ready() {
		if w.initialising {
			w.unsupported("blocking operation during initialisation")
		}
		g.ready = ready
		n := w.pick(g)
		if n == nil {
			panic(stopPath{"deadlock", w.blockedText()})
		}
		if n != g {
			w.switchTo(n)
		}
		g.ready = nil
	}
	g.what = ""
}

// waitIdle returns when every other goroutine is blocked.
func (w *Worker) waitIdle() {
	g := w.g
	g.idle = true
	n := w.pick(g)
	if n != g {
		w.switchTo(n)
	}
	g.idle = false
	w.raceJoinAll()
}

func (w *Worker) sleep() {
	if len(w.gs) == 1 {
		return
	}
	g := w.g
	g.sleeping = true
	n := w.pick(g)
	if n != nil && n != g {
		w.switchTo(n)
	}
	g.sleeping = false
}

func (w *Worker) gosched() {
	n := w.pick(w.g)
	if n != nil && n != w.g {
		w.switchTo(n)
	}
}

// yieldPoint is a place where another goroutine may be scheduled.
func (w *Worker) yieldPoint(kind string) {
	if !w.preempt || w.preemptLeft <= 0 || len(w.gs) < 2 {
		return
	}
	var rs []*gor
	for _, g := range w.gs {
		if g != w.g && g.runnable() {
			rs = append(rs, g)
		}
	}
	if len(rs) == 0 {
		return
	}
	c := w.choose(len(rs)+1, "preempt")
	if c == 0 {
		return
	}
	w.preemptLeft--
	w.switchTo(rs[c-1])
}

// maybeYieldMem is called at loads and stores; accesses to package-level
// variables of the code under test are scheduling points.
func (w *Worker) maybeYieldMem(p *value) {
	if w.preemptLeft <= 0 || len(w.gs) < 2 || w.race != nil { // without races, switching at the synchronisation is enough
		return
	}
	if w.cur == nil || !w.cur.cf.inRepo || !w.isRepoGlobal(p) {
		return
	}
	w.yieldPoint("mem")
}

func (w *Worker) isRepoGlobal(p *value) bool {
	m, _ := w.ps.ext["repoglobals"].(map[*value]bool)
	if m == nil {
		m = map[*value]bool{}
		for i, g := range w.p.globals {
			if g.Pkg != nil && hasPrefix(g.Pkg.Pkg.Path(), modPath) && !hasPrefix(g.Pkg.Pkg.Path(), modPath+"/zzverif") &&
				i < len(w.globals) && w.globals[i] != nil {
				m[w.globals[i]] = true
			}
		}
		w.ps.ext["repoglobals"] = m
	}
	return m[p]
}

// ---- channels ------------------------------------------------------------------

func (w *Worker) chanSave(c *chanV) {
	old := *c
	old.buf = append([]value(nil), c.buf...)
	old.sendq = append([]*sendReq(nil), c.sendq...)
	w.undoFn(func() { *c = old })
}

func (w *Worker) chanSend(c *chanV, v value) {
	if c == nil {
		w.block("send on nil channel", func() bool { return false })
	}
	w.yieldPoint("send")
	if c.closed {
		w.goPanicStr("send on closed channel")
	}
	w.chanSave(c)
	w.raceRelease(c)
	if c.cap > 0 {
		w.block("channel send", func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			w.goPanicStr("send on closed channel")
		}
		w.raceAcquire(chanBack{c})
		c.buf = append(c.buf, v)
		return
	}
	r := &sendReq{v: v}
	c.sendq = append(c.sendq, r)
	w.block("channel send", func() bool { return r.done || c.closed })
	if !r.done {
		w.goPanicStr("send on closed channel")
	}
	w.raceAcquire(chanBack{c})
}

func (c *chanV) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (w *Worker) take(c *chanV) (value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]value(nil), c.buf[1:]...)
		return v, true
	}
	if len(c.sendq) > 0 {
		r := c.sendq[0]
		c.sendq = append([]*sendReq(nil), c.sendq[1:]...)
		r.done = true
		return r.v, true
	}
	return w.zero(c.et), false
}

func (w *Worker) chanRecv(c *chanV) (value, bool) {
	if c == nil {
		w.block("receive from nil channel", func() bool { return false })
	}
	w.yieldPoint("recv")
	w.chanSave(c)
	c.recvw++
	w.block("channel receive", c.canRecv)
	c.recvw--
	w.raceRelease(chanBack{c})
	w.raceAcquire(c)
	return w.take(c)
}

func (w *Worker) chanClose(c *chanV) {
	if c == nil {
		w.goPanicStr("close of nil channel")
	}
	if c.closed {
		w.goPanicStr("close of closed channel")
	}
	w.chanSave(c)
	w.raceRelease(c)
	c.closed = true
}

func (w *Worker) selectOp(fr *frame, ci *cinstr, in *ssa.Select) value {
	type st struct {
		c    *chanV
		v    value
		send bool
	}
	var sts []st
	for _, s := range in.States {
		var x st
		x.send = s.Dir == types.SendOnly
		x.c, _ = w.operandOf(fr, ci, s.Chan).(*chanV)
		if x.send {
			x.v = copyVal(w.operandOf(fr, ci, s.Send))
		}
		sts = append(sts, x)
		if x.c != nil {
			w.chanSave(x.c)
		}
	}
	w.yieldPoint("select")
	readyList := func() []int {
		var r []int
		for i, x := range sts {
			if x.c == nil {
				continue
			}
			if x.send {
				if x.c.closed || (x.c.cap > 0 && len(x.c.buf) < x.c.cap) || (x.c.cap == 0 && x.c.recvw > len(x.c.sendq)) {
					r = append(r, i)
				}
			} else if x.c.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	rl := readyList()
	if len(rl) == 0 && in.Blocking {
		for _, x := range sts {
			if x.c != nil && !x.send {
				x.c.recvw++
			}
		}
		w.block("select", func() bool { return len(readyList()) > 0 })
		for _, x := range sts {
			if x.c != nil && !x.send {
				x.c.recvw--
			}
		}
		rl = readyList()
	}
	nr := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nr++
		}
	}
	res := make(tuple, 2+nr)
	ri := 0
	recvAt := map[int]int{}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			recvAt[i] = 2 + ri
			res[2+ri] = w.zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
			ri++
		}
	}
	res[1] = w.f.False
	if len(rl) == 0 {
		res[0] = w.intv(-1)
		return res
	}
	k := rl[0]
	if w.schedExplore && len(rl) > 1 {
		k = rl[w.choose(len(rl), "select")]
	}
	res[0] = w.intv(k)
	x := sts[k]
	if x.send {
		w.raceRelease(x.c)
		w.raceAcquire(chanBack{x.c})
		if x.c.closed {
			w.goPanicStr("send on closed channel")
		}
		if x.c.cap > 0 {
			x.c.buf = append(x.c.buf, x.v)
		} else {
			x.c.sendq = append(x.c.sendq, &sendReq{v: x.v})
		}
		return res
	}
	w.raceRelease(chanBack{x.c})
	w.raceAcquire(x.c)
	v, ok := w.take(x.c)
	res[recvAt[k]] = v
	res[1] = w.f.Bool(ok)
	return res
}

func (w *Worker) operandOf(fr *frame, ci *cinstr, v ssa.Value) value {
	for i, o := range ci.i.Operands(nil) {
		if o != nil && *o == v {
			return w.get(fr, &ci.o[i])
		}
	}
	w.unsupported("select operand")
	return nil
}

// ---- locks -----------------------------------------------------------------------

func (w *Worker) lock(v value) *lockState {
	p := w.ptr(v)
	if p == nil {
		w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	l := w.locks[p]
	if l == nil {
		l = &lockState{}
		w.locks[p] = l
	}
	return l
}

func init() {
	reg := func(n string, f intrinsic) { intrinsics[n] = f }
	lockW := func(w *Worker, _ *ssa.Function, a []value) value {
		l := w.lock(a[0])
		w.yieldPoint("lock")
		w.block("mutex lock", func() bool { return l.writer == 0 && l.readers == 0 })
		l.writer = w.g.id + 1
		w.raceAcquire(l)
		return nil
	}
	unlockW := func(w *Worker, _ *ssa.Function, a []value) value {
		l := w.lock(a[0])
		if l.writer == 0 {
			panic(exitPath{2, "fatal error: sync: unlock of unlocked mutex"})
		}
		l.writer = 0
		w.raceRelease(l)
		w.yieldPoint("unlock")
		return nil
	}
	tryLock := func(w *Worker, _ *ssa.Function, a []value) value {
		l := w.lock(a[0])
		w.yieldPoint("lock")
		if l.writer != 0 || l.readers != 0 {
			return w.f.False
		}
		l.writer = w.g.id + 1
		w.raceAcquire(l)
		return w.f.True
	}
	reg("(*sync.Mutex).Lock", lockW)
	reg("(*sync.Mutex).Unlock", unlockW)
	reg("(*sync.Mutex).TryLock", tryLock)
	reg("(*sync.RWMutex).Lock", lockW)
	reg("(*sync.RWMutex).Unlock", unlockW)
	reg("(*sync.RWMutex).TryLock", tryLock)
	reg("(*internal/sync.Mutex).Lock", lockW)
	reg("(*internal/sync.Mutex).Unlock", unlockW)
	reg("(*internal/sync.Mutex).TryLock", tryLock)
	reg("(*sync.RWMutex).RLock", func(w *Worker, _ *ssa.Function, a []value) value {
		l := w.lock(a[0])
		w.yieldPoint("lock")
		w.block("mutex rlock", func() bool { return l.writer == 0 })
		l.readers++
		w.raceAcquire(l)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(w *Worker, _ *ssa.Function, a []value) value {
		l := w.lock(a[0])
		if l.readers == 0 {
			panic(exitPath{2, "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		l.readers--
		w.raceRelease(l)
		w.yieldPoint("unlock")
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(w *Worker, _ *ssa.Function, a []value) value {
		l := w.lock(a[0])
		l.count += int(w.mustInt(a[1]))
		if l.count < 0 {
			w.goPanicStr("sync: negative WaitGroup counter")
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(w *Worker, _ *ssa.Function, a []value) value {
		l := w.lock(a[0])
		w.raceRelease(l)
		l.count--
		if l.count < 0 {
			w.goPanicStr("sync: negative WaitGroup counter")
		}
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(w *Worker, _ *ssa.Function, a []value) value {
		l := w.lock(a[0])
		w.block("waitgroup wait", func() bool { return l.count == 0 })
		w.raceAcquire(l)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(w *Worker, _ *ssa.Function, a []value) value {
		l := w.lock(a[0])
		l.count++
		f := a[1]
		w.spawn(hostFn(func(w *Worker, _ []value) value {
			w.call(f, nil, 0)
			w.raceRelease(l)
			l.count--
			return nil
		}), nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(w *Worker, fn *ssa.Function, a []value) value {
		p := w.ptr(a[0])
		st := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := (*p).(structure)[i]
				if c, ok := f.(*closure); ok && c == nil {
					return iface{}
				}
				return w.call(f, nil, 0)
			}
		}
		return iface{}
	})
	reg("(*sync.Pool).Put", func(w *Worker, _ *ssa.Function, a []value) value { return nil })
	reg(symMod("Pause"), func(w *Worker, _ *ssa.Function, a []value) value {
		if d, ok := a[0].(*Term); ok && d.isConst() && int64(d.val) <= 0 {
			w.gosched() // no sleep
			return nil
		}
		w.sleep()
		return nil
	})
	reg("runtime.Gosched", func(w *Worker, _ *ssa.Function, a []value) value { w.gosched(); return nil })
}
