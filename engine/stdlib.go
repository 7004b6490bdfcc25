package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions that mint does not use today but a change to it
// might: sorting with closures, error chains, atomics, pools, time arithmetic.

func (w *Worker) unwrapErr(e Iface) Iface {
	if e.t == nil {
		return Iface{}
	}
	if isOpaque(e.t) {
		if n, ok := e.v.(*Native); ok {
			if d, ok := n.d.(*errData); ok {
				return d.wrap
			}
		}
		return Iface{}
	}
	if f := w.p.methodByName(e.t, "Unwrap"); f != nil && f.Signature.Results().Len() == 1 && types.IsInterface(f.Signature.Results().At(0).Type()) {
		r, _ := w.callFn(f, []Value{e.v}, nil, nil).(Iface)
		return r
	}
	return Iface{}
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	buildMu.Lock()
	defer buildMu.Unlock()
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

func (w *Worker) sortSlice(a []Value) {
	s := a[0].(Iface).v.(Slice)
	less := func(i, j int) bool {
		r := w.callValue(a[1], []Value{mkConst(64, uint64(i)), mkConst(64, uint64(j))}, nil).(*Expr)
		return w.branch(r)
	}
	for i := 1; i < s.len; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			x, y := copyVal(s.arr.get(s.off+j)), copyVal(s.arr.get(s.off+j-1))
			w.store(ElemPtr{s.arr, s.off + j}, y)
			w.store(ElemPtr{s.arr, s.off + j - 1}, x)
		}
	}
}

func fmtSprint(w *Worker, args []Value) string {
	var ga []interface{}
	for _, a := range args {
		ga = append(ga, w.fmtArg(a))
	}
	return fmt.Sprint(ga...)
}

func (w *Worker) writeStr(to Value, s string) Value {
	i := to.(Iface)
	b := mkByteSlice(constBytes([]byte(s)))
	if isOpaque(i.t) {
		return Tuple{mkConst(64, uint64(len(s))), nilErr}
	}
	return w.callMethod(i.t, i.v, "Write", b)
}

func addStdlib(m map[string]intrinsic) {
	m["errors.Unwrap"] = func(w *Worker, fn *ssa.Function, a []Value) Value { return w.unwrapErr(a[0].(Iface)) }
	m["errors.Is"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		e, target := a[0].(Iface), a[1].(Iface)
		for {
			if e.t == nil {
				return mkBool(target.t == nil)
			}
			if w.branch(w.eqVal(e, target)) {
				return eTrue
			}
			if !isOpaque(e.t) {
				if f := w.p.methodByName(e.t, "Is"); f != nil && w.branch(w.callFn(f, []Value{e.v, target}, nil, nil).(*Expr)) {
					return eTrue
				}
			}
			if e = w.unwrapErr(e); e.t == nil {
				return eFalse
			}
		}
	}
	m["errors.As"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		e, target := a[0].(Iface), a[1].(Iface)
		pt, ok := target.t.(*types.Pointer)
		if !ok {
			w.unsupported("errors.As target")
		}
		for e.t != nil {
			if types.IsInterface(pt.Elem()) {
				if isOpaque(e.t) && w.opaqueImplements(e, pt.Elem()) || !isOpaque(e.t) && w.p.implements(e.t, pt.Elem()) {
					w.store(target.v, e)
					return eTrue
				}
			} else if types.Identical(e.t, pt.Elem()) {
				w.store(target.v, e.v)
				return eTrue
			}
			e = w.unwrapErr(e)
		}
		return eFalse
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		m[n] = func(w *Worker, fn *ssa.Function, a []Value) Value { w.sortSlice(a); return nil }
	}
	m["sort.SliceIsSorted"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		for i := s.len - 1; i > 0; i-- {
			if w.branch(w.callValue(a[1], []Value{mkConst(64, uint64(i)), mkConst(64, uint64(i-1))}, nil).(*Expr)) {
				return eFalse
			}
		}
		return eTrue
	}

	// atomics (no other thread runs between two switch points)
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		m["sync/atomic.Load"+t] = func(w *Worker, fn *ssa.Function, a []Value) Value { return w.load(a[0]) }
		m["sync/atomic.Store"+t] = func(w *Worker, fn *ssa.Function, a []Value) Value { w.store(a[0], a[1]); return nil }
		m["sync/atomic.Swap"+t] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			o := w.load(a[0])
			w.store(a[0], a[1])
			return o
		}
		m["sync/atomic.Add"+t] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			n := w.x.Bin(OAdd, w.load(a[0]).(*Expr), a[1].(*Expr))
			w.store(a[0], n)
			return n
		}
		m["sync/atomic.CompareAndSwap"+t] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			if w.branch(w.eqVal(w.load(a[0]), a[1])) {
				w.store(a[0], a[2])
				return eTrue
			}
			return eFalse
		}
	}
	m["(*sync/atomic.Value).Load"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		nilCheck(w, a[0])
		if v, ok := w.side[lockKey(a[0])].(Iface); ok {
			return v
		}
		return Iface{}
	}
	m["(*sync/atomic.Value).Store"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		nilCheck(w, a[0])
		w.side[lockKey(a[0])] = a[1].(Iface)
		return nil
	}
	group := func(w *Worker, p Value, d int64) {
		nilCheck(w, p)
		k := lockKey(p)
		n, _ := w.side[k].(int64)
		if n += d; n < 0 {
			panic(&targetPanic{v: Iface{w.p.rtErrorString, "sync: negative WaitGroup counter"}, msg: "sync: negative WaitGroup counter", where: w.where()})
		}
		w.side[k] = n
		vfWake(w, nil, nil)
	}
	m["(*sync.WaitGroup).Add"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		group(w, a[0], int64(w.concretize(a[1].(*Expr))))
		return nil
	}
	m["(*sync.WaitGroup).Done"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		group(w, a[0], -1)
		return nil
	}
	m["(*sync.WaitGroup).Wait"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		nilCheck(w, a[0])
		k := lockKey(a[0])
		w.waitFor(func() bool { n, _ := w.side[k].(int64); return n == 0 })
		return nil
	}
	m["(*sync.WaitGroup).Go"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		group(w, a[0], 1)
		p, f := a[0], a[1]
		w.spawn(&Closure{native: func(w *Worker, _ []Value) Value {
			w.callValue(f, nil, nil)
			group(w, p, -1)
			return nil
		}}, nil)
		return nil
	}
	m["runtime.Gosched"] = vfYield
	// timers run out when everything waits
	m["time.AfterFunc"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		c := &Cell{w.p.zeroFn(deref(fn.Signature.Results().At(0).Type()))()}
		w.side[lockKey(c)] = w.startTimer(a[0].(*Expr), a[1])
		return c
	}
	m["time.After"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		ch := &ChanObj{cap: 1, zero: w.p.zeroFn(fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem())}
		w.startTimer(a[0].(*Expr), ch)
		return ch
	}
	m["time.NewTimer"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		t := deref(fn.Signature.Results().At(0).Type())
		c := &Cell{w.p.zeroFn(t)()}
		f := t.Underlying().(*types.Struct).Field(0)
		ch := &ChanObj{cap: 1, zero: w.p.zeroFn(f.Type().Underlying().(*types.Chan).Elem())}
		c.v.(*Struct).f[0].v = ch
		w.side[lockKey(c)] = w.startTimer(a[0].(*Expr), ch)
		return c
	}
	m["(*time.Timer).Stop"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		nilCheck(w, a[0])
		t, ok := w.side[lockKey(a[0])].(*vtimer)
		if !ok {
			w.unsupported("Stop of an uninitialised timer")
		}
		live := t.live
		t.live = false
		return mkBool(live)
	}
	m["(*time.Timer).Reset"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		nilCheck(w, a[0])
		t, ok := w.side[lockKey(a[0])].(*vtimer)
		if !ok {
			w.unsupported("Reset of an uninitialised timer")
		}
		live := t.live
		t.live = false
		w.side[lockKey(a[0])] = w.startTimer(a[1].(*Expr), t.f)
		return mkBool(live)
	}
	m["time.Sleep"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		done := false
		w.startTimer(a[0].(*Expr), &Closure{native: func(w *Worker, _ []Value) Value {
			done = true
			vfWake(w, nil, nil)
			return nil
		}})
		w.waitFor(func() bool { return done })
		return nil
	}
	// the network of vfServe
	dial := func(w *Worker, fn *ssa.Function, network, addr Value) Value {
		t := fn.Signature.Results()
		if c, ok := w.side["dial:"+w.str(network)+" "+w.str(addr)].(Iface); ok {
			return Tuple{c, w.p.zeroFn(t.At(1).Type())()}
		}
		w.unsupported("dialing " + w.str(addr))
		return nil
	}
	m["net.Dial"] = func(w *Worker, fn *ssa.Function, a []Value) Value { return dial(w, fn, a[0], a[1]) }
	m["net.DialTimeout"] = m["net.Dial"]
	m["(*net.Dialer).Dial"] = func(w *Worker, fn *ssa.Function, a []Value) Value { return dial(w, fn, a[1], a[2]) }
	m["(*net.Dialer).DialContext"] = func(w *Worker, fn *ssa.Function, a []Value) Value { return dial(w, fn, a[2], a[3]) }
	m["vfServe"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		addr := w.str(a[1]) + ":4433"
		w.side["dial:"+w.str(a[0])+" "+addr] = a[2].(Iface)
		return Tuple{addr, &Closure{native: func(w *Worker, _ []Value) Value { return nil }}}
	}
	// a pool hands back what was put last
	m["(*sync.Pool).Put"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		k := lockKey(a[0])
		s, _ := w.side[k].([]Value)
		w.side[k] = append(s[:len(s):len(s)], a[1])
		return nil
	}
	m["(*sync.Pool).Get"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		k := lockKey(a[0])
		if s, _ := w.side[k].([]Value); len(s) > 0 {
			w.side[k] = s[:len(s)-1]
			return s[len(s)-1]
		}
		st := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := w.load(w.fieldAddr(a[0], i, st))
				if isNilFunc(f) {
					return Iface{}
				}
				return w.callValue(f, nil, nil)
			}
		}
		w.unsupported("sync.Pool")
		return nil
	}

	m["(time.Time).UnixMilli"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.x.Bin(OSDiv, timeNS(a[0]), mkConst(64, 1e6))
	}
	m["(time.Time).UnixMicro"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.x.Bin(OSDiv, timeNS(a[0]), mkConst(64, 1e3))
	}
	m["(time.Time).UTC"] = func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] }
	m["(time.Time).Local"] = m["(time.Time).UTC"]
	m["(time.Time).Round"] = nil
	m["(time.Time).Truncate"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		d := sx(w.concretize(a[1].(*Expr)), 64)
		if d <= 0 {
			return a[0]
		}
		if 1e9%d != 0 {
			w.unsupported("Time.Truncate")
		}
		ns := timeNS(a[0])
		return w.mkTime(w.x.Bin(OSub, ns, w.x.Bin(OSRem, ns, mkConst(64, uint64(d)))))
	}
	delete(m, "(time.Time).Round")
	m["(time.Time).Compare"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		x, y := timeNS(a[0]), timeNS(a[1])
		return w.x.Ite(w.x.Eq(x, y), mkConst(64, 0), w.x.Ite(w.x.Cmp(OSlt, x, y), mkConst(64, ^uint64(0)), mkConst(64, 1)))
	}
	m["(time.Duration).Microseconds"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.x.Bin(OSDiv, a[0].(*Expr), mkConst(64, 1e3))
	}
	m["(time.Duration).Truncate"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		d := sx(w.concretize(a[1].(*Expr)), 64)
		if d <= 0 {
			return a[0]
		}
		return w.x.Bin(OSub, a[0].(*Expr), w.x.Bin(OSRem, a[0].(*Expr), mkConst(64, uint64(d))))
	}
	m["(time.Duration).Minutes"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return float64(sx(w.concretize(a[0].(*Expr)), 64)) / 60e9
	}
	m["(time.Duration).Hours"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return float64(sx(w.concretize(a[0].(*Expr)), 64)) / 3600e9
	}

	m["(*strings.Builder).copyCheck"] = nopIntr
	m["internal/bytealg.Count"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		n := mkConst(64, 0)
		for _, e := range w.sliceBytes(a[0]) {
			n = w.x.Bin(OAdd, n, w.x.Ite(w.x.Eq(e, a[1].(*Expr)), mkConst(64, 1), mkConst(64, 0)))
		}
		return n
	}
	m["internal/bytealg.CountString"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		n := mkConst(64, 0)
		for _, e := range strBytes(a[0]) {
			n = w.x.Bin(OAdd, n, w.x.Ite(w.x.Eq(e, a[1].(*Expr)), mkConst(64, 1), mkConst(64, 0)))
		}
		return n
	}
	m["fmt.Sprint"] = func(w *Worker, fn *ssa.Function, a []Value) Value { return fmtSprint(w, w.sliceVals(a[0])) }
	m["fmt.Sprintln"] = func(w *Worker, fn *ssa.Function, a []Value) Value { return fmtSprint(w, w.sliceVals(a[0])) + "\n" }
	m["fmt.Fprintf"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.writeStr(a[0], w.sprintf(w.str(a[1]), w.sliceVals(a[2])))
	}
	m["fmt.Fprintln"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.writeStr(a[0], fmtSprint(w, w.sliceVals(a[1]))+"\n")
	}
	m["fmt.Fprint"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.writeStr(a[0], fmtSprint(w, w.sliceVals(a[1])))
	}
}

func isNilFunc(f Value) bool {
	switch x := f.(type) {
	case nil:
		return true
	case *ssa.Function:
		return x == nil
	case *Closure:
		return x == nil
	case *Cell:
		return x == nil
	}
	return false
}
