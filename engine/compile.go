package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// operand of a compiled instruction
type operand struct {
	kind uint8 // 0 none, 1 register, 2 constant, 3 global, 4 free var
	idx  int32
	v    Value
	g    *ssa.Global
}

type copc uint8

const (
	cAlloc copc = iota
	cBinOp
	cUnOp
	cDeref
	cCall
	cBuiltin
	cInvoke
	cStaticCall
	cMove
	cConvert
	cDefer
	cExtract
	cField
	cFieldAddr
	cIf
	cIndex
	cIndexAddr
	cJump
	cLookup
	cMakeClosure
	cMakeInterface
	cMakeMap
	cMakeSlice
	cMakeChan
	cSend
	cSelect
	cRecv
	cGo
	cMapUpdate
	cNext
	cPanic
	cRange
	cReturn
	cRunDefers
	cSlice
	cSliceToArray
	cStore
	cTypeAssert
	cUnsupported
)

type cinstr struct {
	op    copc
	dst   int32
	a     operand
	b     operand
	c     operand
	args  []operand
	sends []operand
	zeros []func() Value
	w     uint8
	sgn   bool
	w2    uint8
	tok   token.Token
	t, t2 types.Type
	zero  func() Value
	n     int
	flag  bool
	fn    *ssa.Function
	name  string
	meth  *types.Func
	instr ssa.Instruction
	intr  intrinsic
	cf    *cfunc
}

type cphi struct {
	dst   int32
	edges []operand
}

type cblock struct {
	phis   []cphi
	ins    []cinstr
	succs  [2]*cblock
	preds  map[*cblock]int
	predIx []int // index in successor's pred list, per succ
	index  int
	// if-conversion
	conv *ifConv
	hits uint32
}

type cfunc struct {
	fn       *ssa.Function
	nregs    int
	params   []int32
	blocks   []*cblock
	recover  *cblock
	hasDefer bool
	ninstr   int
	named    string
	inRepo   bool
	locals   []*ssa.Alloc
}

type compiler struct {
	p    *Program
	cf   *cfunc
	regs map[ssa.Value]int32
	fv   map[*ssa.FreeVar]int32
}

var buildMu sync.Mutex

// cfuncOf compiles fn (nil if it has no body).
func (p *Program) cfuncOf(fn *ssa.Function) *cfunc {
	if c, ok := p.cfuncs.Load(fn); ok {
		return c.(*cfunc)
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	if c, ok := p.cfuncs.Load(fn); ok {
		return c.(*cfunc)
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		p.buildPkg(fn.Pkg)
	} else if fn.Blocks == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		p.buildPkg(fn.Origin().Pkg)
	}
	var c *cfunc
	if fn.Blocks != nil {
		c = p.compile(fn)
	}
	p.cfuncs.Store(fn, c)
	return c
}

func (p *Program) compile(fn *ssa.Function) *cfunc {
	cf := &cfunc{fn: fn, named: fn.String()}
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	for f := fn; pkg == nil && f.Parent() != nil; f = f.Parent() {
		pkg = f.Parent().Pkg
	}
	if pkg != nil {
		pos := p.fset.Position(fn.Pos())
		cf.inRepo = p.repoPkgs[pkg.Pkg.Path()] && !p.harnessFile(pos.Filename)
	}
	c := &compiler{p: p, cf: cf, regs: map[ssa.Value]int32{}, fv: map[*ssa.FreeVar]int32{}}
	for _, prm := range fn.Params {
		cf.params = append(cf.params, c.reg(prm))
	}
	for i, f := range fn.FreeVars {
		c.fv[f] = int32(i)
	}
	bm := map[*ssa.BasicBlock]*cblock{}
	for _, b := range fn.Blocks {
		cb := &cblock{index: b.Index}
		bm[b] = cb
		cf.blocks = append(cf.blocks, cb)
	}
	for _, b := range fn.Blocks {
		cb := bm[b]
		for i, s := range b.Succs {
			cb.succs[i] = bm[s]
			pi := -1
			// find the matching pred index (handle duplicated edges)
			cnt := 0
			for k := 0; k < i; k++ {
				if b.Succs[k] == s {
					cnt++
				}
			}
			for j, pr := range s.Preds {
				if pr == b {
					if cnt == 0 {
						pi = j
						break
					}
					cnt--
				}
			}
			cb.predIx = append(cb.predIx, pi)
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: c.reg(phi)}
				for _, e := range phi.Edges {
					cp.edges = append(cp.edges, c.opnd(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			cb.ins = append(cb.ins, c.instr(in))
			cf.ninstr++
		}
	}
	if fn.Recover != nil {
		cf.recover = bm[fn.Recover]
	}
	cf.nregs = len(c.regs)
	for _, cb := range cf.blocks {
		c.findIfConv(cb)
	}
	return cf
}

func (c *compiler) reg(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := int32(len(c.regs))
	c.regs[v] = r
	return r
}

func (c *compiler) opnd(v ssa.Value) operand {
	switch v := v.(type) {
	case nil:
		return operand{}
	case *ssa.Const:
		return operand{kind: 2, v: c.p.constVal(v)}
	case *ssa.Global:
		return operand{kind: 3, g: v}
	case *ssa.Function:
		return operand{kind: 2, v: &Closure{fn: v}}
	case *ssa.FreeVar:
		return operand{kind: 4, idx: c.fv[v]}
	case *ssa.Builtin:
		return operand{kind: 2, v: &Closure{name: "builtin:" + v.Name()}}
	}
	return operand{kind: 1, idx: c.reg(v)}
}

func (p *Program) constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return p.zeroFn(k.Type())()
	}
	t := k.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic("const of type param")
	}
	if w, _, ok := basicInfo(t); ok {
		if w == 0 {
			return mkBool(constant.BoolVal(k.Value))
		}
		iv := constant.ToInt(k.Value)
		if u, exact := constant.Uint64Val(iv); exact {
			return mkConst(w, u)
		}
		i, _ := constant.Int64Val(iv)
		return mkConst(w, uint64(i))
	}
	b, ok := t.(*types.Basic)
	if ok {
		switch {
		case b.Info()&types.IsString != 0:
			if k.Value.Kind() == constant.String {
				return constant.StringVal(k.Value)
			}
			i, _ := constant.Int64Val(k.Value)
			return string(rune(i))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(k.Value)
			return f
		case b.Info()&types.IsComplex != 0:
			return complex128(0)
		case b.Kind() == types.UnsafePointer:
			return nilCell
		}
	}
	panic(fmt.Sprintf("constVal %s %s", k, k.Type()))
}

func (c *compiler) instr(in ssa.Instruction) cinstr {
	ci := cinstr{instr: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		ci.dst = c.reg(v)
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		ci.op = cAlloc
		ci.zero = c.p.zeroFn(deref(in.Type()))
	case *ssa.BinOp:
		ci.op = cBinOp
		ci.tok = in.Op
		ci.a, ci.b = c.opnd(in.X), c.opnd(in.Y)
		ci.t = in.X.Type()
		ci.w, ci.sgn, ci.flag = basicInfo(in.X.Type())
		w2, s2, _ := basicInfo(in.Y.Type())
		ci.w2 = w2
		if s2 {
			ci.n = 1
		}
	case *ssa.UnOp:
		ci.a = c.opnd(in.X)
		if in.Op == token.MUL {
			ci.op = cDeref
		} else if in.Op == token.ARROW {
			ci.op = cRecv
			ci.flag = in.CommaOk
		} else {
			ci.op = cUnOp
			ci.tok = in.Op
			ci.w, ci.sgn, ci.flag = basicInfo(in.X.Type())
			ci.t = in.X.Type()
		}
	case *ssa.Call:
		c.call(&ci, &in.Call)
	case *ssa.Defer:
		c.call(&ci, &in.Call)
		ci.n = int(ci.op)
		ci.op = cDefer
		c.cf.hasDefer = true
	case *ssa.Go:
		c.call(&ci, &in.Call)
		ci.n = int(ci.op)
		ci.op = cGo
	case *ssa.ChangeInterface:
		ci.op = cMove
		ci.a = c.opnd(in.X)
	case *ssa.ChangeType:
		ci.op = cMove
		ci.a = c.opnd(in.X)
	case *ssa.Convert:
		ci.op = cConvert
		ci.a = c.opnd(in.X)
		ci.t, ci.t2 = in.X.Type(), in.Type()
	case *ssa.MultiConvert:
		ci.op = cConvert
		ci.a = c.opnd(in.X)
		ci.t, ci.t2 = in.X.Type(), in.Type()
	case *ssa.Extract:
		ci.op = cExtract
		ci.a = c.opnd(in.Tuple)
		ci.n = in.Index
	case *ssa.Field:
		ci.op = cField
		ci.a = c.opnd(in.X)
		ci.n = in.Field
		ci.t = in.X.Type()
	case *ssa.FieldAddr:
		ci.op = cFieldAddr
		ci.a = c.opnd(in.X)
		ci.n = in.Field
		ci.t = deref(in.X.Type())
	case *ssa.If:
		ci.op = cIf
		ci.a = c.opnd(in.Cond)
	case *ssa.Index:
		ci.op = cIndex
		ci.a, ci.b = c.opnd(in.X), c.opnd(in.Index)
		_, ci.sgn, _ = basicInfo(in.Index.Type())
	case *ssa.IndexAddr:
		ci.op = cIndexAddr
		ci.a, ci.b = c.opnd(in.X), c.opnd(in.Index)
		_, ci.sgn, _ = basicInfo(in.Index.Type())
	case *ssa.Jump:
		ci.op = cJump
	case *ssa.Lookup:
		ci.op = cLookup
		ci.a, ci.b = c.opnd(in.X), c.opnd(in.Index)
		ci.flag = in.CommaOk
		ci.t = in.X.Type()
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			ci.zero = c.p.zeroFn(m.Elem())
			ci.t2 = m.Key()
		} else {
			_, ci.sgn, _ = basicInfo(in.Index.Type())
		}
	case *ssa.MakeChan:
		ci.op = cMakeChan
		ci.a = c.opnd(in.Size)
		ci.zero = c.p.zeroFn(in.Type().Underlying().(*types.Chan).Elem())
	case *ssa.Send:
		ci.op = cSend
		ci.a, ci.b = c.opnd(in.Chan), c.opnd(in.X)
	case *ssa.Select:
		ci.op = cSelect
		ci.flag = !in.Blocking
		for _, st := range in.States {
			ci.args = append(ci.args, c.opnd(st.Chan))
			var o operand
			if st.Dir == types.SendOnly {
				o = c.opnd(st.Send)
			}
			ci.sends = append(ci.sends, o)
			ci.zeros = append(ci.zeros, c.p.zeroFn(st.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	case *ssa.MakeClosure:
		ci.op = cMakeClosure
		ci.fn = in.Fn.(*ssa.Function)
		for _, b := range in.Bindings {
			ci.args = append(ci.args, c.opnd(b))
		}
	case *ssa.MakeInterface:
		ci.op = cMakeInterface
		ci.a = c.opnd(in.X)
		ci.t = in.X.Type()
	case *ssa.MakeMap:
		ci.op = cMakeMap
	case *ssa.MakeSlice:
		ci.op = cMakeSlice
		ci.a, ci.b = c.opnd(in.Len), c.opnd(in.Cap)
		ci.zero = c.p.zeroFn(in.Type().Underlying().(*types.Slice).Elem())
	case *ssa.MapUpdate:
		ci.op = cMapUpdate
		ci.a, ci.b, ci.c = c.opnd(in.Map), c.opnd(in.Key), c.opnd(in.Value)
		ci.t = in.Map.Type().Underlying().(*types.Map).Key()
	case *ssa.Next:
		ci.op = cNext
		ci.a = c.opnd(in.Iter)
		ci.flag = in.IsString
		if !in.IsString {
			tt := in.Type().(*types.Tuple)
			ci.t = tt
		}
	case *ssa.Panic:
		ci.op = cPanic
		ci.a = c.opnd(in.X)
	case *ssa.Range:
		ci.op = cRange
		ci.a = c.opnd(in.X)
	case *ssa.Return:
		ci.op = cReturn
		for _, r := range in.Results {
			ci.args = append(ci.args, c.opnd(r))
		}
	case *ssa.RunDefers:
		ci.op = cRunDefers
	case *ssa.Slice:
		ci.op = cSlice
		ci.a, ci.b, ci.c = c.opnd(in.X), c.opnd(in.Low), c.opnd(in.High)
		ci.args = []operand{c.opnd(in.Max)}
		ci.t = in.X.Type()
	case *ssa.SliceToArrayPointer:
		ci.op = cSliceToArray
		ci.a = c.opnd(in.X)
		ci.n = int(deref(in.Type()).Underlying().(*types.Array).Len())
	case *ssa.Store:
		ci.op = cStore
		ci.a, ci.b = c.opnd(in.Addr), c.opnd(in.Val)
	case *ssa.TypeAssert:
		ci.op = cTypeAssert
		ci.a = c.opnd(in.X)
		ci.t = in.AssertedType
		ci.flag = in.CommaOk
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ci.n = 1
		}
		if in.CommaOk {
			ci.zero = c.p.zeroFn(in.AssertedType)
		}
	default:
		ci.op = cUnsupported
		ci.name = fmt.Sprintf("%T", in)
	}
	return ci
}

func (c *compiler) call(ci *cinstr, call *ssa.CallCommon) {
	for _, a := range call.Args {
		ci.args = append(ci.args, c.opnd(a))
	}
	if call.IsInvoke() {
		ci.op = cInvoke
		ci.a = c.opnd(call.Value)
		ci.meth = call.Method
		return
	}
	switch v := call.Value.(type) {
	case *ssa.Builtin:
		ci.op = cBuiltin
		ci.name = v.Name()
		if len(call.Args) > 0 {
			ci.t = call.Args[0].Type()
		}
		if len(call.Args) > 1 {
			ci.t2 = call.Args[1].Type()
		}
		return
	case *ssa.Function:
		ci.op = cStaticCall
		ci.fn = v
		ci.name = v.String()
		ci.intr = c.p.intrinsicFor(v)
		return
	}
	ci.op = cCall
	ci.a = c.opnd(call.Value)
}

// ---- if-conversion: small side-effect free diamonds become ITEs ----

type ifConv struct {
	tIns, fIns []cinstr // instructions of the two arms (may be empty)
	join       *cblock
	tPred      int // pred index in join for the true arm
	fPred      int
}

func pureInstr(ci *cinstr) bool {
	switch ci.op {
	case cBinOp:
		switch ci.tok {
		case token.QUO, token.REM, token.SHL, token.SHR:
			return false
		}
		return ci.flag // scalar operands only
	case cUnOp:
		return ci.flag
	case cConvert:
		_, _, ok1 := basicInfo(ci.t)
		_, _, ok2 := basicInfo(ci.t2)
		return ok1 && ok2
	}
	return false
}

func (c *compiler) findIfConv(b *cblock) {
	if len(b.ins) == 0 || b.ins[len(b.ins)-1].op != cIf {
		return
	}
	t, f := b.succs[0], b.succs[1]
	npreds := func(cb *cblock) int { return len(c.cf.fn.Blocks[cb.index].Preds) }
	arm := func(x *cblock) bool {
		if npreds(x) != 1 || len(x.phis) > 0 || len(x.ins) == 0 || x.ins[len(x.ins)-1].op != cJump || len(x.ins) > 6 {
			return false
		}
		for i := range x.ins[:len(x.ins)-1] {
			if !pureInstr(&x.ins[i]) {
				return false
			}
		}
		return true
	}
	var ic *ifConv
	switch {
	case arm(t) && t.succs[0] == f:
		ic = &ifConv{tIns: t.ins[:len(t.ins)-1], join: f, tPred: t.predIx[0], fPred: b.predIx[1]}
	case arm(f) && f.succs[0] == t:
		ic = &ifConv{fIns: f.ins[:len(f.ins)-1], join: t, tPred: b.predIx[0], fPred: f.predIx[0]}
	case arm(t) && arm(f) && t.succs[0] == f.succs[0]:
		ic = &ifConv{tIns: t.ins[:len(t.ins)-1], fIns: f.ins[:len(f.ins)-1], join: t.succs[0], tPred: t.predIx[0], fPred: f.predIx[0]}
	default:
		return
	}
	// all phis of the join must be scalar
	for _, in := range c.cf.fn.Blocks[ic.join.index].Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, _, ok := basicInfo(phi.Type()); !ok {
			return
		}
	}
	b.conv = ic
}
