package main

import (
	"golang.org/x/tools/go/ssa"
)

// Cooperative threads for the harnesses: vfThreads runs closures under every
// schedule with at most a given number of preemptions; a thread can lose the
// processor at vfYield and loses it at vfBlock (until some vfWake).

type vthread struct {
	f       Value
	fr      *frame
	depth   int
	panic_  *targetPanic
	resume  chan bool // false: unwind
	started bool
	done    bool
	blocked bool
}

type threadMsg struct {
	r interface{} // what the thread panicked with
}

type scheduler struct {
	ts     []*vthread
	cur    *vthread
	budget int
	back   chan threadMsg
	root   bool // goroutines of the program, the harness itself being one
}

type threadKill struct{}

func (w *Worker) swapIn(t *vthread)  { w.fr, w.depth, w.lastPanic = t.fr, t.depth, t.panic_ }
func (w *Worker) swapOut(t *vthread) { t.fr, t.depth, t.panic_ = w.fr, w.depth, w.lastPanic }

func vfThreads(w *Worker, fn *ssa.Function, a []Value) Value {
	if w.sched != nil {
		w.unsupported("vfThreads within threads")
	}
	s := &scheduler{budget: int(w.concretize(a[0].(*Expr))), back: make(chan threadMsg)}
	for _, f := range w.sliceVals(a[1]) {
		s.ts = append(s.ts, &vthread{f: f, fr: w.fr, depth: w.depth, resume: make(chan bool)})
	}
	w.sched = s
	mainFr, mainDepth, mainPanic := w.fr, w.depth, w.lastPanic
	restore := func() { w.fr, w.depth, w.lastPanic = mainFr, mainDepth, mainPanic }
	defer w.killThreads()
	for {
		restore()
		all := true
		for _, t := range s.ts {
			all = all && t.done
		}
		if all {
			return nil
		}
		if !w.runOne(s) && !w.fireTimer() {
			at := ""
			for _, t := range s.ts {
				if !t.done {
					w.fr = t.fr
					at += " " + w.where()
				}
			}
			restore()
			panic(&targetPanic{v: Iface{w.p.rtErrorString, "deadlock"}, msg: "deadlock: every thread waits", where: at})
		}
	}
}

// runOne lets one of the threads that can run do so until it gives up the
// processor; false if none can.
func (w *Worker) runOne(s *scheduler) bool {
	mainFr, mainDepth, mainPanic := w.fr, w.depth, w.lastPanic
	restore := func() { w.fr, w.depth, w.lastPanic = mainFr, mainDepth, mainPanic }
	var run []*vthread
	if s.cur != nil && !s.cur.done && !s.cur.blocked {
		run = append(run, s.cur)
	}
	for _, t := range s.ts {
		if t != s.cur && !t.done && !t.blocked {
			run = append(run, t)
		}
	}
	if len(run) == 0 {
		return false
	}
	k := 0
	name := "sched"
	if s.root {
		name = "goroutine"
	}
	preempt := run[0] == s.cur
	if len(run) > 1 && !(preempt && s.budget == 0) {
		k = int(vfChoice(w, nil, []Value{name, mkConst(64, uint64(len(run)))}).(*Expr).c)
		if preempt && k > 0 {
			s.budget--
		}
	}
	t := run[k]
	s.cur = t
	w.swapIn(t)
	if !t.started {
		t.started = true
		go w.runThread(s, t)
	} else {
		t.resume <- true
	}
	m := <-s.back
	w.swapOut(t)
	restore()
	if m.r != nil {
		panic(m.r)
	}
	return true
}

// killThreads ends what still runs when a path ends.
func (w *Worker) killThreads() {
	s := w.sched
	if s == nil {
		return
	}
	w.sched = nil
	for _, t := range s.ts {
		if t.started && !t.done {
			t.resume <- false
			<-s.back
		}
	}
}

// onMain: the harness's own goroutine, outside vfThreads.
func (w *Worker) onMain() bool { return w.sched == nil || (w.sched.root && w.sched.cur == nil) }

// waitFor blocks until cond holds.
func (w *Worker) waitFor(cond func() bool) {
	for !cond() {
		if !w.onMain() {
			w.sched.cur.blocked = true
			w.park()
			continue
		}
		if w.background() {
			continue
		}
		panic(&pathEnd{endHang, "deadlock: waits for itself at " + w.where()})
	}
}

// background, on the main goroutine, lets another one run, or a timer run out.
func (w *Worker) background() bool {
	if s := w.sched; s != nil {
		ok := w.runOne(s)
		s.cur = nil
		if ok {
			return true
		}
	}
	return w.fireTimer()
}

// spawn starts a goroutine. It runs when this one blocks (or, in vfThreads, as
// any thread does).
func (w *Worker) spawn(f Value, args []Value) {
	if w.sched == nil {
		w.sched = &scheduler{back: make(chan threadMsg), root: true}
	}
	g := &Closure{native: func(w *Worker, _ []Value) Value { return w.callValue(f, args, nil) }}
	w.sched.ts = append(w.sched.ts, &vthread{f: g, resume: make(chan bool)})
}

// ---- timers ----

type vtimer struct {
	at   uint64
	f    Value // func() or *ChanObj
	live bool
}

func (w *Worker) timers() []*vtimer {
	t, _ := w.side["timers"].([]*vtimer)
	return t
}

func (w *Worker) startTimer(d *Expr, f Value) *vtimer {
	t := &vtimer{at: w.clock, f: f, live: true}
	if n := int64(w.concretize(d)); n > 0 {
		t.at += uint64(n)
	}
	w.side["timers"] = append(w.timers()[:len(w.timers()):len(w.timers())], t)
	return t
}

// fireTimer moves the clock on to the first timer.
func (w *Worker) fireTimer() bool {
	var first *vtimer
	for _, t := range w.timers() {
		if t.live && (first == nil || t.at < first.at) {
			first = t
		}
	}
	if first == nil {
		return false
	}
	first.live = false
	if first.at > w.clock {
		w.clock = first.at
	}
	if c, ok := first.f.(*ChanObj); ok {
		if len(c.buf) < c.cap {
			c.buf = append(c.buf, w.mkTime(w.now()))
		}
		vfWake(w, nil, nil)
	} else {
		w.spawn(first.f, nil)
	}
	return true
}

// ---- channels ----

func (w *Worker) canSend(c *ChanObj) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || (c.cap == 0 && c.waiting > len(c.buf)))
}

func (w *Worker) canRecv(c *ChanObj) bool { return c != nil && (c.closed || len(c.buf) > 0) }

func (w *Worker) doSend(c *ChanObj, v Value) {
	if c.closed {
		panic(&targetPanic{v: Iface{w.p.rtErrorString, "send on closed channel"}, msg: "send on closed channel", rt: true, where: w.where()})
	}
	c.buf = append(c.buf[:len(c.buf):len(c.buf)], v)
	vfWake(w, nil, nil)
}

func (w *Worker) doRecv(c *ChanObj) (Value, *Expr) {
	if len(c.buf) == 0 {
		return c.zero(), eFalse
	}
	v := c.buf[0]
	c.buf = c.buf[1:]
	c.taken++
	vfWake(w, nil, nil)
	return v, eTrue
}

func (w *Worker) chanSend(c *ChanObj, v Value) {
	if c == nil || c.cap > 0 {
		w.waitFor(func() bool { return w.canSend(c) })
		w.doSend(c, v)
		return
	}
	// unbuffered: wait until it is taken
	n := c.taken + len(c.buf) + 1
	w.doSend(c, v)
	w.waitFor(func() bool { return c.taken >= n })
}

func (w *Worker) chanRecv(c *ChanObj) (Value, *Expr) {
	if c != nil {
		c.waiting++
		vfWake(w, nil, nil)
	}
	w.waitFor(func() bool { return w.canRecv(c) })
	c.waiting--
	return w.doRecv(c)
}

func (w *Worker) chanClose(c *ChanObj) {
	if c == nil || c.closed {
		panic(&targetPanic{v: Iface{w.p.rtErrorString, "close of nil or closed channel"}, msg: "close of nil or closed channel", rt: true, where: w.where()})
	}
	c.closed = true
	vfWake(w, nil, nil)
}

// chanSelect is a select statement: the case, whether a value was received,
// and the value received by each receive case.
func (w *Worker) chanSelect(ci *cinstr, fr *frame) Value {
	type sel struct {
		c *ChanObj
		v Value
	}
	var cs []sel
	for i := range ci.args {
		x := sel{c: w.get(fr, &ci.args[i]).(*ChanObj)}
		if ci.sends[i].kind != 0 {
			x.v = w.get(fr, &ci.sends[i])
		}
		cs = append(cs, x)
	}
	ready := func() (r []int) {
		for i, x := range cs {
			if x.v != nil && w.canSend(x.c) || x.v == nil && w.canRecv(x.c) {
				r = append(r, i)
			}
		}
		return
	}
	r := ready()
	if len(r) == 0 && !ci.flag {
		for _, x := range cs {
			if x.c != nil && x.v == nil {
				x.c.waiting++
			}
		}
		vfWake(w, nil, nil)
		w.waitFor(func() bool { r = ready(); return len(r) > 0 })
		for _, x := range cs {
			if x.c != nil && x.v == nil {
				x.c.waiting--
			}
		}
	}
	pick := -1
	if len(r) > 0 {
		k := 0
		if len(r) > 1 {
			k = int(vfChoice(w, nil, []Value{"select", mkConst(64, uint64(len(r)))}).(*Expr).c)
		}
		pick = r[k]
	}
	out := Tuple{mkConst(64, uint64(int64(pick))), eFalse}
	for i, x := range cs {
		if x.v != nil {
			if i == pick {
				w.doSend(x.c, x.v)
			}
			continue
		}
		if i == pick {
			v, ok := w.doRecv(x.c)
			out[1] = ok
			out = append(out, v)
		} else {
			out = append(out, ci.zeros[i]())
		}
	}
	return out
}

func (w *Worker) runThread(s *scheduler, t *vthread) {
	defer func() {
		t.done = true
		s.back <- threadMsg{recover()}
	}()
	w.callValue(t.f, nil, nil)
}

func (w *Worker) park() {
	s := w.sched
	t := s.cur
	s.back <- threadMsg{}
	if !<-t.resume {
		panic(threadKill{})
	}
}

func vfYield(w *Worker, fn *ssa.Function, a []Value) Value {
	if !w.onMain() {
		w.park()
	}
	return nil
}

func vfBlock(w *Worker, fn *ssa.Function, a []Value) Value {
	if w.onMain() {
		if w.background() {
			return nil
		}
		panic(&targetPanic{v: Iface{w.p.rtErrorString, "deadlock"}, msg: "deadlock: waits for itself", where: w.where()})
	}
	w.sched.cur.blocked = true
	w.park()
	return nil
}

func vfWake(w *Worker, fn *ssa.Function, a []Value) Value {
	if w.sched != nil {
		for _, t := range w.sched.ts {
			t.blocked = false
		}
	}
	return nil
}
