package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// intrinsic replaces the body of a function.
type intrinsic func(w *Worker, fn *ssa.Function, args []Value) Value

type targetPanic struct {
	v     Value // Iface
	msg   string
	rt    bool
	where string
}

type endKind int

const (
	endOK endKind = iota
	endInfeasible
	endUnsupported
	endBudget
	endViolation
	endUnknown
	endPanic
	endHang
)

type pathEnd struct {
	kind endKind
	msg  string
}

type deferred struct {
	fn   Value // *Closure
	args []Value
}

type frame struct {
	cf        *cfunc
	regs      []Value
	env       []Value
	defers    []deferred
	panicking *targetPanic
	deferOf   *frame
	caller    *frame
	cur       *cinstr
}

func (w *Worker) unsupported(msg string) {
	panic(&pathEnd{endUnsupported, msg + " at " + w.where()})
}

func (w *Worker) where() string {
	var sb strings.Builder
	n := 0
	for fr := w.fr; fr != nil && n < 8; fr = fr.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		n++
		sb.WriteString(shortFn(fr.cf.named))
		if fr.cur != nil && fr.cur.instr != nil {
			if p := fr.cur.instr.Pos(); p.IsValid() {
				fmt.Fprintf(&sb, ":%d", w.p.fset.Position(p).Line)
			}
		}
	}
	return sb.String()
}

func (w *Worker) rtPanic(msg string) {
	m := "runtime error: " + msg
	panic(&targetPanic{v: Iface{w.p.rtErrorString, msg}, msg: m, rt: true, where: w.where()})
}

func (w *Worker) get(fr *frame, o *operand) Value {
	switch o.kind {
	case 1:
		return fr.regs[o.idx]
	case 2:
		return o.v
	case 3:
		return w.global(o.g)
	case 4:
		return fr.env[o.idx]
	}
	return nil
}

func (w *Worker) global(g *ssa.Global) *Cell {
	if c, ok := w.globals[g]; ok {
		return c
	}
	if c, ok := w.stdGlobals[g]; ok {
		return c
	}
	path := g.Pkg.Pkg.Path()
	if !w.p.repoPkgs[path] {
		if f, ok := globalOverride[path+"."+g.Name()]; ok {
			c := &Cell{f(w)}
			w.stdGlobals[g] = c
			return c
		}
		c := &Cell{w.p.zeroFn(deref(g.Type()))()}
		w.stdGlobals[g] = c
		if !w.p.interp[path] {
			// error variables of native packages
			if named := deref(g.Type()); named.String() == "error" {
				c.v = w.opaqueError(path + "." + g.Name())
			}
			return c
		}
		if !w.stdInit[path] {
			w.stdInit[path] = true
			w.runInit(g.Pkg)
		}
		return c
	}
	c := &Cell{w.p.zeroFn(deref(g.Type()))()}
	w.globals[g] = c
	return c
}

// runInit executes the variable initialisers of an interpreted package.
func (w *Worker) runInit(pk *ssa.Package) {
	init := pk.Func("init")
	if init == nil {
		return
	}
	w.callFn(init, nil, nil, nil)
}

func (w *Worker) callValue(f Value, args []Value, deferOf *frame) Value {
	c, ok := f.(*Closure)
	if !ok {
		panic(fmt.Sprintf("call of %T", f))
	}
	if c == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.native != nil {
		return c.native(w, args)
	}
	if c.fn == nil {
		if strings.HasPrefix(c.name, "builtin:") {
			return w.builtin(nil, c.name[8:], nil, args)
		}
		w.unsupported("call of " + c.name)
	}
	return w.callFn(c.fn, args, c.env, deferOf)
}

func (w *Worker) callFn(fn *ssa.Function, args, env []Value, deferOf *frame) Value {
	if in := w.p.intrinsicFor(fn); in != nil {
		return in(w, fn, args)
	}
	cf := w.p.cfuncOf(fn)
	if cf == nil {
		return w.noBody(fn, args)
	}
	w.depth++
	if w.depth > 3000 {
		w.depth = 0
		panic(&pathEnd{endHang, "stack depth exceeded (unbounded recursion) at " + w.where()})
	}
	if cf.inRepo {
		w.cov[cf]++
	}
	fr := &frame{cf: cf, env: env, deferOf: deferOf, caller: w.fr}
	fr.regs = make([]Value, cf.nregs)
	for i, r := range cf.params {
		fr.regs[r] = args[i]
	}
	w.fr = fr
	var res Value
	if cf.hasDefer {
		res = w.runWithDefers(fr)
	} else {
		res = w.exec(fr, cf.blocks[0])
	}
	w.fr = fr.caller
	w.depth--
	return res
}

func (w *Worker) noBody(fn *ssa.Function, args []Value) Value {
	if fn.Name() == "init" && fn.Pkg != nil {
		return nil
	}
	if len(args) > 0 && fn.Signature.Recv() != nil {
		if c, ok := args[0].(*Cell); ok && c == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		if n := asNative(args[0]); n != nil {
			return w.nativeInvoke(n, fn.Name(), args, fn.Signature)
		}
	}
	w.unsupported("no model for " + fn.String())
	return nil
}

func (w *Worker) runWithDefers(fr *frame) (res Value) {
	depth := w.depth
	catch := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = tp
				w.fr = fr
				w.depth = depth
			}
		}()
		f()
	}
	catch(func() { res = w.exec(fr, fr.cf.blocks[0]) })
	if fr.panicking != nil {
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			catch(func() { w.callValue(d.fn, d.args, fr) })
		}
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fr.cf.recover != nil {
			res = w.exec(fr, fr.cf.recover)
		} else {
			res = w.zeroResults(fr.cf.fn)
		}
	}
	return res
}

func (w *Worker) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return w.p.zeroFn(r.At(0).Type())()
	}
	return w.p.zeroFn(r)()
}

func (w *Worker) runDefersNormal(fr *frame) {
	depth := w.depth
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = tp
					w.fr = fr
					w.depth = depth
				}
			}()
			w.callValue(d.fn, d.args, fr)
		}()
	}
	if fr.panicking != nil {
		tp := fr.panicking
		panic(tp)
	}
}

func (w *Worker) jump(fr *frame, from *cblock, i int) *cblock {
	nb := from.succs[i]
	w.setPhis(fr, nb, from.predIx[i])
	return nb
}

func (w *Worker) setPhis(fr *frame, nb *cblock, pi int) {
	switch len(nb.phis) {
	case 0:
	case 1:
		fr.regs[nb.phis[0].dst] = w.get(fr, &nb.phis[0].edges[pi])
	default:
		var tmp [16]Value
		t := tmp[:0]
		for k := range nb.phis {
			t = append(t, w.get(fr, &nb.phis[k].edges[pi]))
		}
		for k := range nb.phis {
			fr.regs[nb.phis[k].dst] = t[k]
		}
	}
}

func (w *Worker) exec(fr *frame, blk *cblock) Value {
	for {
		w.steps += len(blk.ins)
		if w.steps > w.maxSteps {
			panic(&pathEnd{endHang, fmt.Sprintf("step budget %d exceeded at %s", w.maxSteps, w.where())})
		}
		var next *cblock
		for i := range blk.ins {
			ci := &blk.ins[i]
			fr.cur = ci
			switch ci.op {
			case cJump:
				next = w.jump(fr, blk, 0)
			case cIf:
				c := w.get(fr, &ci.a).(*Expr)
				if c.isConst() {
					if c.c != 0 {
						next = w.jump(fr, blk, 0)
					} else {
						next = w.jump(fr, blk, 1)
					}
					break
				}
				if blk.conv != nil {
					if d, known := w.known(c); !known {
						next = w.ifConvert(fr, blk.conv, c)
						break
					} else if d {
						next = w.jump(fr, blk, 0)
						break
					} else {
						next = w.jump(fr, blk, 1)
						break
					}
				}
				if w.branch(c) {
					next = w.jump(fr, blk, 0)
				} else {
					next = w.jump(fr, blk, 1)
				}
			case cReturn:
				switch len(ci.args) {
				case 0:
					return nil
				case 1:
					return w.get(fr, &ci.args[0])
				}
				t := make(Tuple, len(ci.args))
				for k := range ci.args {
					t[k] = w.get(fr, &ci.args[k])
				}
				return t
			case cPanic:
				v := w.get(fr, &ci.a)
				w.doPanic(v)
			default:
				w.instr(fr, ci)
			}
		}
		blk = next
	}
}

func (w *Worker) doPanic(v Value) {
	ifc, _ := v.(Iface)
	tp := &targetPanic{v: v, where: w.where()}
	if ifc.t == nil {
		tp.msg = "panic(nil)"
	} else {
		tp.rt = ifc.t == w.p.rtErrorString
		tp.msg = "panic: " + w.describe(ifc)
	}
	panic(tp)
}

func (w *Worker) describe(i Iface) string {
	switch v := i.v.(type) {
	case string:
		return v
	case *Expr:
		if v.isConst() {
			return fmt.Sprint(v.c)
		}
	}
	if i.t != nil {
		return i.t.String()
	}
	return "nil"
}

func (w *Worker) ifConvert(fr *frame, ic *ifConv, c *Expr) *cblock {
	w.nIfConv++
	for k := range ic.tIns {
		w.instr(fr, &ic.tIns[k])
	}
	tv := make([]Value, len(ic.join.phis))
	for k := range ic.join.phis {
		tv[k] = w.get(fr, &ic.join.phis[k].edges[ic.tPred])
	}
	for k := range ic.fIns {
		w.instr(fr, &ic.fIns[k])
	}
	fv := make([]Value, len(ic.join.phis))
	for k := range ic.join.phis {
		fv[k] = w.get(fr, &ic.join.phis[k].edges[ic.fPred])
	}
	for k := range ic.join.phis {
		fr.regs[ic.join.phis[k].dst] = w.x.Ite(c, tv[k].(*Expr), fv[k].(*Expr))
	}
	return ic.join
}

func (w *Worker) argv(fr *frame, ops []operand) []Value {
	a := make([]Value, len(ops))
	for k := range ops {
		a[k] = w.get(fr, &ops[k])
	}
	return a
}

func (w *Worker) instr(fr *frame, ci *cinstr) {
	switch ci.op {
	case cAlloc:
		fr.regs[ci.dst] = &Cell{ci.zero()}
	case cStore:
		w.store(w.get(fr, &ci.a), w.get(fr, &ci.b))
	case cDeref:
		fr.regs[ci.dst] = w.load(w.get(fr, &ci.a))
	case cFieldAddr:
		fr.regs[ci.dst] = w.fieldAddr(w.get(fr, &ci.a), ci.n, ci.t)
	case cField:
		v := w.get(fr, &ci.a)
		switch v := v.(type) {
		case *Struct:
			fr.regs[ci.dst] = v.f[ci.n].v
		case *Native:
			fr.regs[ci.dst] = w.load(&natField{v, ci.t.Underlying().(*types.Struct).Field(ci.n)})
		default:
			w.unsupported(fmt.Sprintf("field of %T", v))
		}
	case cIndexAddr:
		fr.regs[ci.dst] = w.indexAddr(w.get(fr, &ci.a), w.get(fr, &ci.b).(*Expr), ci.sgn)
	case cIndex:
		fr.regs[ci.dst] = w.index(w.get(fr, &ci.a), w.get(fr, &ci.b).(*Expr), ci.sgn)
	case cBinOp:
		a, b := w.get(fr, &ci.a), w.get(fr, &ci.b)
		fr.regs[ci.dst] = w.binop(ci, a, b)
	case cUnOp:
		fr.regs[ci.dst] = w.unop(ci, w.get(fr, &ci.a))
	case cMove:
		fr.regs[ci.dst] = w.get(fr, &ci.a)
	case cConvert:
		fr.regs[ci.dst] = w.convert(ci.t, ci.t2, w.get(fr, &ci.a))
	case cExtract:
		fr.regs[ci.dst] = w.get(fr, &ci.a).(Tuple)[ci.n]
	case cStaticCall:
		args := w.argv(fr, ci.args)
		var r Value
		if ci.intr != nil {
			r = ci.intr(w, ci.fn, args)
		} else {
			r = w.callFn(ci.fn, args, nil, nil)
		}
		fr.cur = ci
		fr.regs[ci.dst] = r
	case cCall:
		f := w.get(fr, &ci.a)
		fr.regs[ci.dst] = w.callValue(f, w.argv(fr, ci.args), nil)
	case cInvoke:
		recv := w.get(fr, &ci.a).(Iface)
		fr.regs[ci.dst] = w.invoke(recv, ci.meth, w.argv(fr, ci.args), nil)
	case cBuiltin:
		fr.regs[ci.dst] = w.builtin(fr, ci.name, ci, w.argv(fr, ci.args))
	case cDefer:
		w.deferInstr(fr, ci)
	case cRunDefers:
		w.runDefersNormal(fr)
	case cMakeInterface:
		fr.regs[ci.dst] = Iface{ci.t, w.get(fr, &ci.a)}
	case cMakeClosure:
		fr.regs[ci.dst] = &Closure{fn: ci.fn, env: w.argv(fr, ci.args)}
	case cMakeMap:
		fr.regs[ci.dst] = newMap()
	case cMakeChan:
		n := int64(w.concretize(w.get(fr, &ci.a).(*Expr)))
		if n < 0 || n > 1<<20 {
			w.rtPanic("makechan: size out of range")
		}
		fr.regs[ci.dst] = &ChanObj{cap: int(n), zero: ci.zero}
	case cSend:
		w.chanSend(w.get(fr, &ci.a).(*ChanObj), w.get(fr, &ci.b))
	case cRecv:
		v, ok := w.chanRecv(w.get(fr, &ci.a).(*ChanObj))
		if ci.flag {
			fr.regs[ci.dst] = Tuple{v, ok}
		} else {
			fr.regs[ci.dst] = v
		}
	case cSelect:
		fr.regs[ci.dst] = w.chanSelect(ci, fr)
	case cGo:
		f, args := w.callee(fr, ci)
		w.spawn(f, args)
	case cMakeSlice:
		ln := w.get(fr, &ci.a).(*Expr)
		cp := w.get(fr, &ci.b).(*Expr)
		n := w.makeLen(ln)
		c := n
		symCap := false
		if cp != ln {
			c, symCap = w.makeCap(cp, n)
		}
		if c < n {
			w.rtPanic("makeslice: cap out of range")
		}
		fr.regs[ci.dst] = Slice{&Array{n: c, zero: ci.zero, symCap: symCap}, 0, n, c}
	case cMapUpdate:
		m := w.get(fr, &ci.a).(*MapObj)
		if m == nil {
			panic(&targetPanic{v: Iface{w.p.rtErrorString, "assignment to entry in nil map"}, msg: "assignment to entry in nil map", rt: true, where: w.where()})
		}
		w.mapSet(m, w.get(fr, &ci.b), w.get(fr, &ci.c))
	case cLookup:
		fr.regs[ci.dst] = w.lookup(ci, w.get(fr, &ci.a), w.get(fr, &ci.b))
	case cRange:
		v := w.get(fr, &ci.a)
		switch v := v.(type) {
		case *MapObj:
			it := &mapIter{m: v}
			if v != nil {
				it.end = len(v.ents)
			}
			fr.regs[ci.dst] = it
		default:
			fr.regs[ci.dst] = &strIter{s: w.concString(v)}
		}
	case cNext:
		fr.regs[ci.dst] = w.next(ci, w.get(fr, &ci.a))
	case cSlice:
		fr.regs[ci.dst] = w.sliceOp(fr, ci)
	case cSliceToArray:
		s := w.get(fr, &ci.a).(Slice)
		if s.len < ci.n {
			w.rtPanic("cannot convert slice to array pointer")
		}
		if s.arr == nil {
			fr.regs[ci.dst] = nilCell
			break
		}
		if s.off == 0 && s.arr.n == ci.n {
			fr.regs[ci.dst] = &Cell{s.arr}
			break
		}
		w.unsupported("slice to array pointer")
	case cTypeAssert:
		fr.regs[ci.dst] = w.typeAssert(ci, w.get(fr, &ci.a).(Iface))
	case cUnsupported:
		w.unsupported(ci.name)
	default:
		panic(fmt.Sprintf("instr %d", ci.op))
	}
}

func (w *Worker) deferInstr(fr *frame, ci *cinstr) {
	f, args := w.callee(fr, ci)
	fr.defers = append(fr.defers, deferred{f, args})
}

// callee is the function and the arguments of a deferred or concurrent call.
func (w *Worker) callee(fr *frame, ci *cinstr) (*Closure, []Value) {
	args := w.argv(fr, ci.args)
	var f *Closure
	switch copc(ci.n) {
	case cStaticCall:
		f = &Closure{fn: ci.fn}
	case cCall:
		f = w.get(fr, &ci.a).(*Closure)
	case cInvoke:
		recv := w.get(fr, &ci.a).(Iface)
		m := ci.meth
		f = &Closure{native: func(w *Worker, a []Value) Value { return w.invoke(recv, m, a, nil) }}
	case cBuiltin:
		nm, ci2 := ci.name, ci
		f = &Closure{native: func(w *Worker, a []Value) Value { return w.builtin(fr, nm, ci2, a) }}
	}
	return f, args
}

type methKey struct {
	t    types.Type
	name string
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	name := m.Name()
	if !m.Exported() {
		name = m.Pkg().Path() + "." + name
	}
	k := methKey{t, name}
	if f, ok := p.methCache.Load(k); ok {
		return f.(*ssa.Function)
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = p.ssa.MethodValue(sel)
	}
	p.methCache.Store(k, f)
	return f
}

func (w *Worker) invoke(recv Iface, m *types.Func, args []Value, deferOf *frame) Value {
	if recv.t == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if isOpaque(recv.t) {
		all := append([]Value{recv.v}, args...)
		if rt, ok := recv.v.(RType); ok {
			return w.rtypeMethod(rt, m.Name(), args)
		}
		n, ok := recv.v.(*Native)
		if !ok {
			w.unsupported(fmt.Sprintf("invoke %s on opaque %T", m.Name(), recv.v))
		}
		return w.nativeInvoke(n, m.Name(), all, m.Type().(*types.Signature))
	}
	f := w.p.method(recv.t, m)
	if f == nil {
		w.unsupported("no method " + m.Name() + " on " + recv.t.String())
	}
	all := make([]Value, 0, len(args)+1)
	all = append(all, recv.v)
	all = append(all, args...)
	return w.callFn(f, all, nil, deferOf)
}

// callMethod calls a method by name on a dynamic value.
func (w *Worker) callMethod(t types.Type, v Value, name string, args ...Value) Value {
	buildMu.Lock()
	sel := w.p.ssa.MethodSets.MethodSet(t).Lookup(nil, name)
	var f *ssa.Function
	if sel != nil {
		f = w.p.ssa.MethodValue(sel)
	}
	buildMu.Unlock()
	if f == nil {
		w.unsupported("no method " + name + " on " + t.String())
	}
	return w.callFn(f, append([]Value{v}, args...), nil, nil)
}

func (w *Worker) fieldAddr(p Value, n int, t types.Type) Value {
	if c, ok := p.(*Cell); ok {
		if c == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		if s, ok := c.v.(*Struct); ok {
			return &s.f[n]
		}
	}
	switch s := w.place(p).(type) {
	case *Struct:
		return &s.f[n]
	case *Native:
		return &natField{s, t.Underlying().(*types.Struct).Field(n)}
	default:
		w.unsupported(fmt.Sprintf("field address in %T (%s)", s, t))
	}
	return nil
}

func (w *Worker) idx64(i *Expr, sgn bool) *Expr {
	if i.w == 64 {
		return i
	}
	if sgn {
		return w.x.SExt(i, 64)
	}
	return w.x.ZExt(i, 64)
}

func (w *Worker) boundsPanic(i *Expr, n int) {
	s := "?"
	if i.isConst() {
		s = fmt.Sprint(int64(i.c))
	}
	w.rtPanic(fmt.Sprintf("index out of range [%s] with length %d", s, n))
}

func (w *Worker) checkIndex(i *Expr, n int) {
	if i.isConst() {
		if i.c >= uint64(n) {
			w.boundsPanic(i, n)
		}
		return
	}
	if !w.branch(w.x.Cmp(OUlt, i, mkConst(64, uint64(n)))) {
		w.boundsPanic(i, n)
	}
}

func (w *Worker) indexAddr(base Value, idx *Expr, sgn bool) Value {
	i := w.idx64(idx, sgn)
	var s Slice
	switch b := base.(type) {
	case Slice:
		s = b
	default:
		a, ok := w.place(b).(*Array)
		if !ok {
			w.unsupported(fmt.Sprintf("indexaddr of %T", b))
		}
		s = Slice{a, 0, a.n, a.n}
	}
	w.checkIndex(i, s.len)
	if i.isConst() {
		return ElemPtr{s.arr, s.off + int(i.c)}
	}
	if s.len == 1 {
		return ElemPtr{s.arr, s.off}
	}
	return &symElem{s, i}
}

func (w *Worker) index(base Value, idx *Expr, sgn bool) Value {
	i := w.idx64(idx, sgn)
	switch b := base.(type) {
	case *Array:
		w.checkIndex(i, b.n)
		if i.isConst() {
			return b.get(int(i.c))
		}
		return w.loadSymElem(&symElem{Slice{b, 0, b.n, b.n}, i})
	case string, *SymStr:
		n := strLen(b)
		w.checkIndex(i, n)
		if i.isConst() {
			if s, ok := b.(string); ok {
				return smallConsts[8][s[i.c]]
			}
			return b.(*SymStr).b[i.c]
		}
		bs := strBytes(b)
		sl := mkByteSlice(bs)
		return w.loadSymElem(&symElem{sl, i})
	}
	w.unsupported(fmt.Sprintf("index of %T", base))
	return nil
}

func (w *Worker) sliceOp(fr *frame, ci *cinstr) Value {
	x := w.get(fr, &ci.a)
	getE := func(o *operand) *Expr {
		v := w.get(fr, o)
		if v == nil {
			return nil
		}
		e := v.(*Expr)
		if e.w != 64 {
			e = w.x.SExt(e, 64) // index types narrower than 64 bits
		}
		return e
	}
	lo, hi, mx := getE(&ci.b), getE(&ci.c), getE(&ci.args[0])
	if s := x; s != nil {
		switch str := s.(type) {
		case string, *SymStr:
			n := strLen(str)
			l, h := w.sliceBounds(lo, hi, nil, n, n, n)
			if cs, ok := str.(string); ok {
				return cs[l:h]
			}
			return mkStr(str.(*SymStr).b[l:h])
		}
	}
	var s Slice
	switch b := x.(type) {
	case Slice:
		s = b
	default:
		a, ok := w.place(b).(*Array)
		if !ok {
			w.unsupported(fmt.Sprintf("slice of %T", b))
		}
		s = Slice{a, 0, a.n, a.n}
	}
	c := s.cap
	if mx != nil {
		if mx.isConst() {
			if mx.c > uint64(c) {
				w.rtPanic("slice bounds out of range")
			}
		} else if !w.branch(w.x.Cmp(OUle, mx, mkConst(64, uint64(c)))) {
			w.rtPanic("slice bounds out of range")
		}
		c = int(w.concretize(mx))
	}
	l, h := w.sliceBounds(lo, hi, mx, s.len, c, s.cap)
	if s.arr == nil {
		return Slice{}
	}
	if s.arr.symCap && (h > s.len || mx != nil) {
		w.unsupported("reslicing up to a symbolic capacity")
	}
	return Slice{s.arr, s.off + l, h - l, c - l}
}

// makeCap: a capacity only matters to cap() and to reslicing, so a symbolic one
// is checked against the limits and otherwise left open.
func (w *Worker) makeCap(e *Expr, n int) (int, bool) {
	if e.w != 64 {
		e = w.x.SExt(e, 64)
	}
	const maxAlloc = 1 << 31
	if e.isConst() {
		return w.makeLen(e), false
	}
	if !w.branch(w.x.Cmp(OUle, e, mkConst(64, maxAlloc))) || !w.branch(w.x.Cmp(OUle, mkConst(64, uint64(n)), e)) {
		w.rtPanic("makeslice: cap out of range")
	}
	return maxAlloc, true
}

func (w *Worker) sliceBounds(lo, hi, mx *Expr, n, c, oc int) (int, int) {
	if hi == nil {
		hi = mkConst(64, uint64(n))
	}
	if lo == nil {
		lo = smallConsts[64][0]
	}
	if hi.isConst() {
		if hi.c > uint64(c) {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", int64(hi.c), c))
		}
	} else if !w.branch(w.x.Cmp(OUle, hi, mkConst(64, uint64(c)))) {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [:x] with capacity %d", c))
	}
	if lo.isConst() && hi.isConst() {
		if lo.c > hi.c {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", int64(lo.c), hi.c))
		}
	} else if !w.branch(w.x.Cmp(OUle, lo, hi)) {
		w.rtPanic("slice bounds out of range [x:y]")
	}
	h := w.concretize(hi)
	l := w.concretize(lo)
	return int(l), int(h)
}

// makeLen determines the size of an allocation.
func (w *Worker) makeLen(e *Expr) int {
	if e.w != 64 {
		e = w.x.SExt(e, 64)
	}
	const maxAlloc = 1 << 31
	if e.isConst() {
		if e.c > maxAlloc {
			w.rtPanic("makeslice: len out of range")
		}
		return int(e.c)
	}
	if !w.branch(w.x.Cmp(OUle, e, mkConst(64, maxAlloc))) {
		w.rtPanic("makeslice: len out of range")
	}
	if e.max <= uint64(w.maxSymLen) || w.branch(w.x.Cmp(OUle, e, mkConst(64, uint64(w.maxSymLen)))) {
		return int(w.concretize(e))
	}
	return int(w.pick(e, "allocation size above "+fmt.Sprint(w.maxSymLen)))
}

func (w *Worker) unop(ci *cinstr, v Value) Value {
	switch ci.tok {
	case token.NOT:
		return w.x.BNot(v.(*Expr))
	case token.SUB:
		if f, ok := v.(float64); ok {
			return -f
		}
		return w.x.Neg(v.(*Expr))
	case token.XOR:
		return w.x.Not(v.(*Expr))
	case token.ARROW:
		w.unsupported("channel receive")
	}
	panic("unop " + ci.tok.String())
}

func (w *Worker) binop(ci *cinstr, a, b Value) Value {
	if ea, ok := a.(*Expr); ok {
		if eb, ok := b.(*Expr); ok {
			return w.intBinop(ci, ea, eb)
		}
	}
	switch ci.tok {
	case token.EQL:
		return w.eqVal(a, b)
	case token.NEQ:
		return w.x.BNot(w.eqVal(a, b))
	}
	switch x := a.(type) {
	case float64:
		y := b.(float64)
		switch ci.tok {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return mkBool(x < y)
		case token.LEQ:
			return mkBool(x <= y)
		case token.GTR:
			return mkBool(x > y)
		case token.GEQ:
			return mkBool(x >= y)
		}
	case string, *SymStr:
		switch ci.tok {
		case token.ADD:
			sa, oka := a.(string)
			sb, okb := b.(string)
			if oka && okb {
				return sa + sb
			}
			return mkStr(append(append([]*Expr{}, strBytes(a)...), strBytes(b)...))
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return w.x.BNot(w.strLess(b, a))
		case token.GEQ:
			return w.x.BNot(w.strLess(a, b))
		}
	}
	w.unsupported(fmt.Sprintf("binop %s on %T", ci.tok, a))
	return nil
}

func (w *Worker) strLess(a, b Value) *Expr {
	x, y := strBytes(a), strBytes(b)
	r := mkBool(len(x) < len(y))
	for i := min(len(x), len(y)) - 1; i >= 0; i-- {
		r = w.x.BOr(w.x.Cmp(OUlt, x[i], y[i]), w.x.BAnd(w.x.Eq(x[i], y[i]), r))
	}
	return r
}

func (w *Worker) intBinop(ci *cinstr, a, b *Expr) Value {
	x := w.x
	switch ci.tok {
	case token.ADD:
		return x.Bin(OAdd, a, b)
	case token.SUB:
		return x.Bin(OSub, a, b)
	case token.MUL:
		return x.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if b.isConst() {
			if b.c == 0 {
				w.rtPanic("integer divide by zero")
			}
		} else if w.branch(x.Eq(b, mkConst(b.w, 0))) {
			w.rtPanic("integer divide by zero")
		}
		op := OUDiv
		switch {
		case ci.tok == token.QUO && ci.sgn:
			op = OSDiv
		case ci.tok == token.REM && ci.sgn:
			op = OSRem
		case ci.tok == token.REM:
			op = OURem
		}
		return x.Bin(op, a, b)
	case token.AND:
		if a.w == 0 {
			return x.BAnd(a, b)
		}
		return x.Bin(OAnd, a, b)
	case token.OR:
		if a.w == 0 {
			return x.BOr(a, b)
		}
		return x.Bin(OOr, a, b)
	case token.XOR:
		return x.Bin(OXor, a, b)
	case token.AND_NOT:
		return x.Bin(OAnd, a, x.Not(b))
	case token.SHL, token.SHR:
		return w.shift(ci, a, b)
	case token.EQL:
		return x.Eq(a, b)
	case token.NEQ:
		return x.BNot(x.Eq(a, b))
	case token.LSS:
		if ci.sgn {
			return x.Cmp(OSlt, a, b)
		}
		return x.Cmp(OUlt, a, b)
	case token.LEQ:
		if ci.sgn {
			return x.Cmp(OSle, a, b)
		}
		return x.Cmp(OUle, a, b)
	case token.GTR:
		if ci.sgn {
			return x.Cmp(OSlt, b, a)
		}
		return x.Cmp(OUlt, b, a)
	case token.GEQ:
		if ci.sgn {
			return x.Cmp(OSle, b, a)
		}
		return x.Cmp(OUle, b, a)
	}
	panic("intBinop " + ci.tok.String())
}

func (w *Worker) shift(ci *cinstr, a, b *Expr) Value {
	x := w.x
	if ci.n == 1 { // signed count
		if b.isConst() {
			if sx(b.c, b.w) < 0 {
				w.rtPanic("negative shift amount")
			}
		} else if w.branch(x.Cmp(OSlt, b, mkConst(b.w, 0))) {
			w.rtPanic("negative shift amount")
		}
	}
	op := OShl
	if ci.tok == token.SHR {
		op = OLShr
		if ci.sgn {
			op = OAShr
		}
	}
	if b.isConst() {
		c := b.c
		if c >= uint64(a.w) {
			if op == OAShr {
				c = uint64(a.w) - 1
			} else {
				return mkConst(a.w, 0)
			}
		}
		return x.Bin(op, a, mkConst(a.w, c))
	}
	if b.w <= a.w {
		return x.Bin(op, a, x.ZExt(b, a.w))
	}
	small := x.Cmp(OUlt, b, mkConst(b.w, uint64(a.w)))
	in := x.Bin(op, a, x.Extract(b, a.w-1, 0))
	var out *Expr
	if op == OAShr {
		out = x.Bin(OAShr, a, mkConst(a.w, uint64(a.w)-1))
	} else {
		out = mkConst(a.w, 0)
	}
	return x.Ite(small, in, out)
}

// eqVal builds the expression a == b.
func (w *Worker) eqVal(a, b Value) *Expr {
	switch x := a.(type) {
	case *Expr:
		return w.x.Eq(x, b.(*Expr))
	case string, *SymStr:
		sa, oka := a.(string)
		sb, okb := b.(string)
		if oka && okb {
			return mkBool(sa == sb)
		}
		if strLen(a) != strLen(b) {
			return eFalse
		}
		return w.eqBytes(strBytes(a), strBytes(b))
	case float64:
		return mkBool(x == b.(float64))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			w.unsupported(fmt.Sprintf("compare iface with %T", b))
		}
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return eFalse
		}
		return w.eqVal(x.v, y.v)
	case *Struct:
		y := b.(*Struct)
		r := eTrue
		for i := range x.f {
			r = w.x.BAnd(r, w.eqVal(x.f[i].v, y.f[i].v))
		}
		return r
	case *Array:
		y := b.(*Array)
		if x.n >= 4 {
			if e, ok := x.get(0).(*Expr); ok && e.w == 8 {
				bx, by := make([]*Expr, x.n), make([]*Expr, x.n)
				for i := range bx {
					bx[i], by[i] = x.get(i).(*Expr), y.get(i).(*Expr)
				}
				return w.eqBytes(bx, by)
			}
		}
		r := eTrue
		for i := 0; i < x.n; i++ {
			r = w.x.BAnd(r, w.eqVal(x.get(i), y.get(i)))
		}
		return r
	case Slice:
		y := b.(Slice)
		return mkBool(x.arr == nil && y.arr == nil)
	case *MapObj:
		return mkBool(x == b.(*MapObj))
	case *Closure:
		y := b.(*Closure)
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil)
		}
		w.unsupported("func comparison")
	case *ChanObj:
		return mkBool(x == b.(*ChanObj))
	case RType:
		y, ok := b.(RType)
		return mkBool(ok && types.Identical(x.t, y.t))
	case *Native:
		y, ok := b.(*Native)
		if !ok {
			return eFalse
		}
		if x == y {
			return eTrue
		}
		return mkBool(nativeEq(x, y))
	case *Cell, ElemPtr, *natField:
		return mkBool(ptrEq(a, b))
	case *symElem:
		w.unsupported("symbolic pointer comparison")
	}
	w.unsupported(fmt.Sprintf("compare %T", a))
	return nil
}

func (w *Worker) convert(from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if wt, _, ok := basicInfo(tu); ok && wt > 0 {
		switch x := v.(type) {
		case *Expr:
			if x.w == wt {
				return x
			}
			if x.w > wt {
				return w.x.Extract(x, wt-1, 0)
			}
			_, sg, _ := basicInfo(fu)
			if sg {
				return w.x.SExt(x, wt)
			}
			return w.x.ZExt(x, wt)
		case float64:
			return mkConst(wt, uint64(int64(x)))
		}
	}
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch x := v.(type) {
			case string, *SymStr:
				return v
			case *Expr:
				_, sg, _ := basicInfo(fu)
				c := w.concretize(x)
				if sg {
					return string(rune(sx(c, x.w)))
				}
				return string(rune(c))
			case Slice:
				es, ok := fu.(*types.Slice)
				if ok {
					if eb, ok := es.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
						var sb strings.Builder
						for i := 0; i < x.len; i++ {
							sb.WriteRune(rune(w.concretize(x.arr.get(x.off + i).(*Expr))))
						}
						return sb.String()
					}
				}
				return mkStr(w.sliceBytes(x))
			}
		case t.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case *Expr:
				c := w.concretize(x)
				_, sg, _ := basicInfo(fu)
				if sg {
					return float64(sx(c, x.w))
				}
				return float64(c)
			}
		case t.Kind() == types.UnsafePointer:
			return v
		}
	case *types.Slice:
		switch x := v.(type) {
		case string, *SymStr:
			eb := t.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Int32 {
				rs := []rune(w.concString(x))
				a := &Array{n: len(rs), e: make([]Value, len(rs)), zero: constFn(mkConst(32, 0))}
				for i, r := range rs {
					a.e[i] = mkConst(32, uint64(r))
				}
				return Slice{a, 0, len(rs), len(rs)}
			}
			return mkByteSlice(append([]*Expr{}, strBytes(x)...))
		case Slice:
			return x
		}
	case *types.Array:
		if s, ok := v.(Slice); ok {
			n := int(t.Len())
			if s.len < n {
				w.rtPanic("cannot convert slice to array")
			}
			a := &Array{n: n, zero: w.p.zeroFn(t.Elem())}
			for i := 0; i < n; i++ {
				a.set(i, copyVal(s.arr.get(s.off+i)))
			}
			return a
		}
	case *types.Pointer:
		return v
	}
	w.unsupported(fmt.Sprintf("conversion %s -> %s (%T)", from, to, v))
	return nil
}

func (p *Program) implements(t types.Type, it types.Type) bool {
	type key struct{ a, b types.Type }
	k := key{t, it}
	if r, ok := p.implCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	p.implCache.Store(k, r)
	return r
}

func (w *Worker) typeAssert(ci *cinstr, v Iface) Value {
	ok := false
	if v.t != nil {
		if ci.n == 1 {
			if isOpaque(v.t) {
				ok = w.opaqueImplements(v, ci.t)
			} else {
				ok = w.p.implements(v.t, ci.t)
			}
		} else {
			ok = v.t == ci.t || types.Identical(v.t, ci.t)
		}
	}
	var res Value
	if ok {
		if ci.n == 1 {
			res = v
		} else {
			res = v.v
		}
	}
	if ci.flag {
		if !ok {
			res = ci.zero()
		}
		return Tuple{res, mkBool(ok)}
	}
	if !ok {
		d := "nil"
		if v.t != nil {
			d = v.t.String()
		}
		msg := fmt.Sprintf("interface conversion: interface is %s, not %s", d, ci.t)
		panic(&targetPanic{v: Iface{w.p.rtErrorString, msg}, msg: msg, rt: true, where: w.where()})
	}
	return res
}

// ---- maps ----

type mapIter struct {
	m      *MapObj
	i, end int
}

type strIter struct {
	s string
	i int
}

func newMap() *MapObj { return &MapObj{idx: map[string]*mapEntry{}} }

func (w *Worker) mapFind(m *MapObj, key Value) *mapEntry {
	if m == nil {
		return nil
	}
	if ifc, ok := key.(Iface); ok && ifc.t != nil && !types.Comparable(ifc.t) {
		msg := "hash of unhashable type " + ifc.t.String()
		panic(&targetPanic{v: Iface{w.p.rtErrorString, msg}, msg: msg, rt: true, where: w.where()})
	}
	ck, conc := ckey(key)
	if conc {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.del || conc && e.ckey != "" {
			continue
		}
		if w.branch(w.eqVal(key, e.key)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *MapObj, key, val Value) {
	val = copyVal(val)
	if e := w.mapFind(m, key); e != nil {
		e.val = val
		return
	}
	ck, conc := ckey(key)
	e := &mapEntry{key: copyVal(key), val: val}
	if conc {
		e.ckey = ck
		m.idx[ck] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
}

func (w *Worker) mapDelete(m *MapObj, key Value) {
	e := w.mapFind(m, key)
	if e == nil {
		return
	}
	e.del = true
	if e.ckey != "" {
		delete(m.idx, e.ckey)
	} else {
		m.nsym--
	}
	m.n--
	// compact occasionally (only when no iteration can be in progress is
	// unknown, so keep tombstones)
}

func (w *Worker) lookup(ci *cinstr, x, key Value) Value {
	switch m := x.(type) {
	case *MapObj:
		e := w.mapFind(m, key)
		var v Value
		if e != nil {
			v = e.val
		} else {
			v = ci.zero()
		}
		if ci.flag {
			return Tuple{v, mkBool(e != nil)}
		}
		return v
	}
	return w.index(x, key.(*Expr), ci.sgn)
}

func (w *Worker) next(ci *cinstr, it Value) Value {
	switch it := it.(type) {
	case *mapIter:
		for it.m != nil && it.i < min(it.end, len(it.m.ents)) {
			e := it.m.ents[it.i]
			it.i++
			if !e.del {
				return Tuple{eTrue, e.key, e.val}
			}
		}
		tt := ci.t.(*types.Tuple)
		z := func(i int) Value {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return w.p.zeroFn(tt.At(i).Type())()
		}
		return Tuple{eFalse, z(1), z(2)}
	case *strIter:
		if it.i >= len(it.s) {
			return Tuple{eFalse, mkConst(64, 0), mkConst(32, 0)}
		}
		r, n := utf8.DecodeRuneInString(it.s[it.i:])
		p := it.i
		it.i += n
		return Tuple{eTrue, mkConst(64, uint64(p)), mkConst(32, uint64(r))}
	}
	panic("next")
}

// ---- builtins ----

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	if n <= 32768 {
		i := sort.SearchInts(sizeClasses, n)
		return sizeClasses[i]
	}
	return (n + 8191) &^ 8191
}

func growCap(oldCap, newLen, esize int) int {
	nc := oldCap
	dbl := nc + nc
	switch {
	case newLen > dbl:
		nc = newLen
	case oldCap < 256:
		nc = dbl
	default:
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esize == 0 {
		return nc
	}
	return roundSize(nc*esize) / esize
}

func (w *Worker) appendVals(s Slice, vals []Value, et types.Type) Slice {
	n := s.len + len(vals)
	if len(vals) == 0 {
		return s
	}
	if s.arr == nil || n > s.cap {
		c := growCap(s.cap, n, int(w.p.sizes.Sizeof(et)))
		na := &Array{n: c, zero: w.p.zeroFn(et)}
		na.e = make([]Value, 0, n)
		for i := 0; i < s.len; i++ {
			na.e = append(na.e, copyVal(s.arr.get(s.off+i)))
		}
		for _, v := range vals {
			na.e = append(na.e, copyVal(v))
		}
		return Slice{na, 0, n, c}
	}
	for i, v := range vals {
		w.store(ElemPtr{s.arr, s.off + s.len + i}, v)
	}
	return Slice{s.arr, s.off, n, s.cap}
}

func (w *Worker) sliceVals(v Value) []Value {
	switch s := v.(type) {
	case Slice:
		r := make([]Value, s.len)
		for i := range r {
			r[i] = s.arr.get(s.off + i)
		}
		return r
	case string, *SymStr:
		b := strBytes(s)
		r := make([]Value, len(b))
		for i := range b {
			r[i] = b[i]
		}
		return r
	}
	panic(fmt.Sprintf("sliceVals %T", v))
}

func (w *Worker) builtin(fr *frame, name string, ci *cinstr, args []Value) Value {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case Slice:
			return mkConst(64, uint64(v.len))
		case string, *SymStr:
			return mkConst(64, uint64(strLen(v)))
		case *MapObj:
			if v == nil {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(v.n))
		case *Array:
			return mkConst(64, uint64(v.n))
		case *ChanObj:
			if v == nil {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(min(len(v.buf), v.cap)))
		case *Cell, ElemPtr:
			return mkConst(64, uint64(ci.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			if v.arr != nil && v.arr.symCap {
				w.unsupported("cap of a slice made with a symbolic capacity")
			}
			return mkConst(64, uint64(v.cap))
		case *ChanObj:
			if v == nil {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(v.cap))
		case *Array:
			return mkConst(64, uint64(v.n))
		case *Cell, ElemPtr:
			return mkConst(64, uint64(ci.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		et := ci.t.Underlying().(*types.Slice).Elem()
		return w.appendVals(s, w.sliceVals(args[1]), et)
	case "copy":
		d := args[0].(Slice)
		src := w.sliceVals(args[1])
		n := min(d.len, len(src))
		for i := 0; i < n; i++ {
			w.store(ElemPtr{d.arr, d.off + i}, src[i])
		}
		return mkConst(64, uint64(n))
	case "delete":
		if m := args[0].(*MapObj); m != nil {
			w.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapObj:
			for _, e := range v.ents {
				e.del = true
			}
			v.ents, v.idx, v.n, v.nsym = nil, map[string]*mapEntry{}, 0, 0
		case Slice:
			for i := 0; i < v.len; i++ {
				w.store(ElemPtr{v.arr, v.off + i}, v.arr.zero())
			}
		}
		return nil
	case "panic":
		w.doPanic(args[0])
	case "recover":
		f := fr
		if f != nil && f.deferOf != nil && f.deferOf.panicking != nil {
			tp := f.deferOf.panicking
			f.deferOf.panicking = nil
			w.lastPanic = tp
			return tp.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if c, ok := args[0].(*Cell); ok && c == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			ra, ok1 := r.(*Expr)
			rb, ok2 := b.(*Expr)
			if !ok1 || !ok2 {
				w.unsupported("min/max on non-integers")
			}
			_, sg, _ := basicInfo(ci.t)
			op := OUlt
			if sg {
				op = OSlt
			}
			c := w.x.Cmp(op, rb, ra)
			if name == "max" {
				c = w.x.Cmp(op, ra, rb)
			}
			r = w.x.Ite(c, rb, ra)
		}
		return r
	case "close":
		w.chanClose(args[0].(*ChanObj))
		return nil
	}
	w.unsupported(fmt.Sprintf("builtin %s(%T)", name, args[0]))
	return nil
}

var _ = math.Pi
