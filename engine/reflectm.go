package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func mkRType(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{opRType, RType{t}}
}

func (w *Worker) rtArg(v Value) types.Type {
	i := v.(Iface)
	if i.t == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	return i.v.(RType).t
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (w *Worker) structField(st *types.Struct, i int) Value {
	sft := w.p.lookupType("reflect", "StructField")
	s := w.p.zeroFn(sft)().(*Struct)
	u := sft.Underlying().(*types.Struct)
	f := st.Field(i)
	for k := 0; k < u.NumFields(); k++ {
		switch u.Field(k).Name() {
		case "Name":
			s.f[k].v = f.Name()
		case "PkgPath":
			if !f.Exported() {
				s.f[k].v = f.Pkg().Path()
			}
		case "Type":
			s.f[k].v = mkRType(f.Type())
		case "Tag":
			s.f[k].v = st.Tag(i)
		case "Index":
			a := &Array{n: 1, zero: constFn(mkConst(64, 0))}
			a.set(0, mkConst(64, uint64(i)))
			s.f[k].v = Slice{a, 0, 1, 1}
		case "Anonymous":
			s.f[k].v = mkBool(f.Anonymous())
		}
	}
	return s
}

func (w *Worker) rtypeMethod(r RType, name string, args []Value) Value {
	t := r.t
	switch name {
	case "Kind":
		return mkConst(64, uint64(kindOf(t)))
	case "Elem":
		e := elemType(t)
		if e == nil {
			w.doPanic(Iface{types.Typ[types.String], "reflect: Elem of invalid type " + t.String()})
		}
		return mkRType(e)
	case "Key":
		return mkRType(t.Underlying().(*types.Map).Key())
	case "NumField":
		return mkConst(64, uint64(t.Underlying().(*types.Struct).NumFields()))
	case "Field":
		return w.structField(t.Underlying().(*types.Struct), int(w.concretize(args[0].(*Expr))))
	case "Implements":
		it := w.rtArg(args[0])
		return mkBool(w.p.implements(t, it))
	case "AssignableTo":
		return mkBool(types.AssignableTo(t, w.rtArg(args[0])))
	case "ConvertibleTo":
		return mkBool(types.ConvertibleTo(t, w.rtArg(args[0])))
	case "Comparable":
		return mkBool(types.Comparable(t))
	case "Size":
		return mkConst(64, uint64(w.p.sizes.Sizeof(t)))
	case "Bits":
		return mkConst(64, uint64(8*w.p.sizes.Sizeof(t)))
	case "Len":
		return mkConst(64, uint64(t.Underlying().(*types.Array).Len()))
	case "Name":
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := t.(*types.Basic); ok {
			return b.Name()
		}
		return ""
	case "String":
		return types.TypeString(t, func(p *types.Package) string { return p.Name() })
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "NumMethod":
		return mkConst(64, uint64(types.NewMethodSet(t).Len()))
	}
	w.unsupported("reflect.Type." + name)
	return nil
}

func (w *Worker) rvGet(r RV) Value {
	if r.addr != nil {
		return w.load(r.addr)
	}
	return r.v
}

func (w *Worker) reflPanic(msg string) {
	w.doPanic(Iface{types.Typ[types.String], "reflect: " + msg})
}

func (w *Worker) rvSet(r RV, v Value) {
	if r.addr == nil {
		w.reflPanic("reflect.Value.Set using unaddressable value")
	}
	w.store(r.addr, v)
}

func (w *Worker) mkRV(i Iface) RV {
	if i.t == nil {
		return RV{}
	}
	return RV{t: i.t, v: i.v}
}

// convIface stores v (of type from) into a location of type to.
func (w *Worker) assignTo(r RV, to types.Type) Value {
	v := w.rvGet(r)
	if _, ok := to.Underlying().(*types.Interface); ok {
		if _, is := r.t.Underlying().(*types.Interface); !is {
			return Iface{r.t, v}
		}
	}
	return v
}

func addReflect(m map[string]intrinsic) {
	rv := func(name string, f func(w *Worker, r RV, a []Value) Value) {
		m["(reflect.Value)."+name] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			r := a[0].(RV)
			if r.t == nil && name != "IsValid" && name != "Kind" && name != "String" {
				w.reflPanic("call of reflect.Value." + name + " on zero Value")
			}
			return f(w, r, a[1:])
		}
	}
	rv("Kind", func(w *Worker, r RV, a []Value) Value {
		if r.t == nil {
			return mkConst(64, 0)
		}
		return mkConst(64, uint64(kindOf(r.t)))
	})
	rv("IsValid", func(w *Worker, r RV, a []Value) Value { return mkBool(r.t != nil) })
	rv("Type", func(w *Worker, r RV, a []Value) Value { return mkRType(r.t) })
	rv("Elem", func(w *Worker, r RV, a []Value) Value {
		v := w.rvGet(r)
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			if c, ok := v.(*Cell); ok && c == nil {
				return RV{}
			}
			return RV{t: u.Elem(), addr: v}
		case *types.Interface:
			return w.mkRV(v.(Iface))
		}
		w.reflPanic("call of reflect.Value.Elem on " + r.t.String())
		return nil
	})
	rv("NumField", func(w *Worker, r RV, a []Value) Value {
		return mkConst(64, uint64(r.t.Underlying().(*types.Struct).NumFields()))
	})
	rv("Field", func(w *Worker, r RV, a []Value) Value {
		i := int(w.concretize(a[0].(*Expr)))
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok || i >= st.NumFields() {
			w.reflPanic("Field")
		}
		ft := st.Field(i).Type()
		if r.addr != nil {
			return RV{t: ft, addr: w.fieldAddr(r.addr, i, r.t)}
		}
		return RV{t: ft, v: r.v.(*Struct).f[i].v}
	})
	rv("Index", func(w *Worker, r RV, a []Value) Value {
		i := a[0].(*Expr)
		et := elemType(r.t)
		switch r.t.Underlying().(type) {
		case *types.Slice:
			s := w.rvGet(r).(Slice)
			return RV{t: et, addr: w.indexAddr(s, i, true)}
		case *types.Array:
			if r.addr != nil {
				return RV{t: et, addr: w.indexAddr(r.addr, i, true)}
			}
			return RV{t: et, v: w.index(r.v, i, true)}
		case *types.Basic:
			return RV{t: types.Typ[types.Uint8], v: w.index(w.rvGet(r), i, true)}
		}
		w.reflPanic("Index")
		return nil
	})
	rv("Len", func(w *Worker, r RV, a []Value) Value {
		switch v := w.rvGet(r).(type) {
		case Slice:
			return mkConst(64, uint64(v.len))
		case *Array:
			return mkConst(64, uint64(v.n))
		case *MapObj:
			if v == nil {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(v.n))
		case string, *SymStr:
			return mkConst(64, uint64(strLen(v)))
		}
		w.reflPanic("Len")
		return nil
	})
	rv("Cap", func(w *Worker, r RV, a []Value) Value { return mkConst(64, uint64(w.rvGet(r).(Slice).cap)) })
	rv("Addr", func(w *Worker, r RV, a []Value) Value {
		if r.addr == nil {
			w.reflPanic("reflect.Value.Addr of unaddressable value")
		}
		return RV{t: w.p.ptrTo(r.t), v: r.addr}
	})
	rv("CanAddr", func(w *Worker, r RV, a []Value) Value { return mkBool(r.addr != nil) })
	rv("CanSet", func(w *Worker, r RV, a []Value) Value { return mkBool(r.addr != nil) })
	rv("CanInterface", func(w *Worker, r RV, a []Value) Value { return eTrue })
	rv("Interface", func(w *Worker, r RV, a []Value) Value {
		v := w.rvGet(r)
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return v
		}
		return Iface{r.t, v}
	})
	rv("Uint", func(w *Worker, r RV, a []Value) Value {
		e, ok := w.rvGet(r).(*Expr)
		if !ok || e.w == 0 {
			w.reflPanic("Uint")
		}
		return w.x.ZExt(e, 64)
	})
	rv("Int", func(w *Worker, r RV, a []Value) Value { return w.x.SExt(w.rvGet(r).(*Expr), 64) })
	rv("Bool", func(w *Worker, r RV, a []Value) Value { return w.rvGet(r) })
	rv("String", func(w *Worker, r RV, a []Value) Value {
		if r.t == nil {
			return "<invalid Value>"
		}
		if v := w.rvGet(r); kindOf(r.t) == reflect.String {
			return v
		}
		return "<" + r.t.String() + " Value>"
	})
	rv("Bytes", func(w *Worker, r RV, a []Value) Value { return w.rvGet(r) })
	setInt := func(w *Worker, r RV, a []Value) Value {
		wd, _, ok := basicInfo(r.t)
		if !ok || wd == 0 {
			w.reflPanic("SetUint on " + r.t.String())
		}
		e := a[0].(*Expr)
		if wd < 64 {
			e = w.x.Extract(e, wd-1, 0)
		}
		w.rvSet(r, e)
		return nil
	}
	rv("SetUint", setInt)
	rv("OverflowUint", func(w *Worker, r RV, a []Value) Value {
		wd, _, ok := basicInfo(r.t)
		if !ok || wd == 0 {
			w.reflPanic("OverflowUint on " + r.t.String())
		}
		e := a[0].(*Expr)
		if wd >= 64 {
			return eFalse
		}
		return w.x.BNot(w.x.Eq(w.x.Extract(e, 63, wd), mkConst(64-wd, 0)))
	})
	rv("OverflowInt", func(w *Worker, r RV, a []Value) Value {
		wd, _, ok := basicInfo(r.t)
		if !ok || wd == 0 {
			w.reflPanic("OverflowInt on " + r.t.String())
		}
		e := a[0].(*Expr)
		if wd >= 64 {
			return eFalse
		}
		return w.x.BNot(w.x.Eq(w.x.SExt(w.x.Extract(e, wd-1, 0), 64), e))
	})
	rv("CanUint", func(w *Worker, r RV, a []Value) Value {
		k := kindOf(r.t)
		return mkBool(k >= reflect.Uint && k <= reflect.Uintptr)
	})
	rv("CanInt", func(w *Worker, r RV, a []Value) Value {
		k := kindOf(r.t)
		return mkBool(k >= reflect.Int && k <= reflect.Int64)
	})
	rv("SetInt", setInt)
	rv("SetBool", func(w *Worker, r RV, a []Value) Value { w.rvSet(r, a[0]); return nil })
	rv("SetBytes", func(w *Worker, r RV, a []Value) Value { w.rvSet(r, a[0]); return nil })
	rv("SetString", func(w *Worker, r RV, a []Value) Value { w.rvSet(r, a[0]); return nil })
	rv("Set", func(w *Worker, r RV, a []Value) Value {
		src := a[0].(RV)
		if src.t == nil {
			w.reflPanic("Set of zero Value")
		}
		if !types.AssignableTo(src.t, r.t) {
			w.reflPanic("reflect.Set: value of type " + src.t.String() + " is not assignable to type " + r.t.String())
		}
		w.rvSet(r, w.assignTo(src, r.t))
		return nil
	})
	rv("SetLen", func(w *Worker, r RV, a []Value) Value {
		s := w.rvGet(r).(Slice)
		n := int(w.concretize(a[0].(*Expr)))
		if n < 0 || n > s.cap {
			w.reflPanic("slice length out of range in SetLen")
		}
		s.len = n
		w.rvSet(r, s)
		return nil
	})
	rv("IsNil", func(w *Worker, r RV, a []Value) Value {
		switch v := w.rvGet(r).(type) {
		case *Cell:
			return mkBool(v == nil)
		case Slice:
			return mkBool(v.arr == nil)
		case *MapObj:
			return mkBool(v == nil)
		case Iface:
			return mkBool(v.t == nil)
		case *Closure:
			return mkBool(v == nil)
		case *ChanObj:
			return mkBool(v == nil)
		case ElemPtr:
			return eFalse
		}
		w.reflPanic("IsNil on " + r.t.String())
		return nil
	})
	rv("IsZero", func(w *Worker, r RV, a []Value) Value {
		return w.eqVal(w.rvGet(r), w.p.zeroFn(r.t)())
	})
	rv("SetMapIndex", func(w *Worker, r RV, a []Value) Value {
		m := w.rvGet(r).(*MapObj)
		mt := r.t.Underlying().(*types.Map)
		k, v := a[0].(RV), a[1].(RV)
		if v.t == nil {
			if m != nil {
				w.mapDelete(m, w.rvGet(k))
			}
			return nil
		}
		if m == nil {
			w.rtPanic("assignment to entry in nil map")
		}
		w.mapSet(m, w.assignTo(k, mt.Key()), w.assignTo(v, mt.Elem()))
		return nil
	})
	rv("MapIndex", func(w *Worker, r RV, a []Value) Value {
		m := w.rvGet(r).(*MapObj)
		e := w.mapFind(m, w.rvGet(a[0].(RV)))
		if e == nil {
			return RV{}
		}
		return RV{t: r.t.Underlying().(*types.Map).Elem(), v: e.val}
	})
	rv("MapKeys", func(w *Worker, r RV, a []Value) Value {
		m := w.rvGet(r).(*MapObj)
		kt := r.t.Underlying().(*types.Map).Key()
		var vals []Value
		if m != nil {
			for _, e := range m.ents {
				if !e.del {
					vals = append(vals, RV{t: kt, v: e.key})
				}
			}
		}
		arr := &Array{n: len(vals), e: vals, zero: constFn(RV{})}
		return Slice{arr, 0, len(vals), len(vals)}
	})
	rv("MapRange", func(w *Worker, r RV, a []Value) Value {
		m := w.rvGet(r).(*MapObj)
		it := &mapIter{m: m}
		if m != nil {
			it.end = len(m.ents)
		}
		mt := r.t.Underlying().(*types.Map)
		return &Cell{&Native{"mapiter", &reflIter{it: it, kt: mt.Key(), vt: mt.Elem()}}}
	})
	m["(*reflect.MapIter).Next"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		ri := asNative(a[0]).d.(*reflIter)
		for ri.it.i < ri.it.end {
			e := ri.it.m.ents[ri.it.i]
			ri.it.i++
			if !e.del {
				ri.cur = e
				return eTrue
			}
		}
		ri.cur = nil
		return eFalse
	}
	m["(*reflect.MapIter).Key"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		ri := asNative(a[0]).d.(*reflIter)
		return RV{t: ri.kt, v: ri.cur.key}
	}
	m["(*reflect.MapIter).Value"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		ri := asNative(a[0]).d.(*reflIter)
		return RV{t: ri.vt, v: ri.cur.val}
	}
	rv("Slice", func(w *Worker, r RV, a []Value) Value {
		lo, hi := int(w.concretize(a[0].(*Expr))), int(w.concretize(a[1].(*Expr)))
		s := w.rvGet(r).(Slice)
		if lo < 0 || hi < lo || hi > s.cap {
			w.reflPanic("Slice index out of bounds")
		}
		return RV{t: r.t, v: Slice{s.arr, s.off + lo, hi - lo, s.cap - lo}}
	})
	rv("Convert", func(w *Worker, r RV, a []Value) Value {
		t := w.rtArg(a[0])
		return RV{t: t, v: w.convert(r.t, t, w.rvGet(r))}
	})
	rv("NumMethod", func(w *Worker, r RV, a []Value) Value {
		return mkConst(64, uint64(types.NewMethodSet(r.t).Len()))
	})

	m["reflect.TypeOf"] = func(w *Worker, fn *ssa.Function, a []Value) Value { return mkRType(a[0].(Iface).t) }
	m["internal/reflectlite.TypeOf"] = m["reflect.TypeOf"]
	m["reflect.ValueOf"] = func(w *Worker, fn *ssa.Function, a []Value) Value { return w.mkRV(a[0].(Iface)) }
	m["reflect.New"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		t := w.rtArg(a[0])
		return RV{t: w.p.ptrTo(t), v: &Cell{w.p.zeroFn(t)()}}
	}
	m["reflect.Zero"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		t := w.rtArg(a[0])
		return RV{t: t, v: w.p.zeroFn(t)()}
	}
	m["reflect.MakeSlice"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		t := w.rtArg(a[0])
		n := w.makeLen(a[1].(*Expr))
		c := w.makeLen(a[2].(*Expr))
		if c < n {
			w.reflPanic("reflect.MakeSlice: len > cap")
		}
		return RV{t: t, v: Slice{&Array{n: c, zero: w.p.zeroFn(elemType(t))}, 0, n, c}}
	}
	mk := func(w *Worker, fn *ssa.Function, a []Value) Value { return RV{t: w.rtArg(a[0]), v: newMap()} }
	m["reflect.MakeMap"] = mk
	m["reflect.MakeMapWithSize"] = mk
	m["reflect.MapOf"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return mkRType(types.NewMap(w.rtArg(a[0]), w.rtArg(a[1])))
	}
	m["reflect.SliceOf"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return mkRType(types.NewSlice(w.rtArg(a[0])))
	}
	po := func(w *Worker, fn *ssa.Function, a []Value) Value { return mkRType(w.p.ptrTo(w.rtArg(a[0]))) }
	m["reflect.PtrTo"] = po
	m["reflect.PointerTo"] = po
	m["reflect.Indirect"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		r := a[0].(RV)
		if r.t != nil {
			if p, ok := r.t.Underlying().(*types.Pointer); ok {
				v := w.rvGet(r)
				if c, ok := v.(*Cell); ok && c == nil {
					return RV{}
				}
				return RV{t: p.Elem(), addr: v}
			}
		}
		return r
	}
	m["reflect.Append"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		r := a[0].(RV)
		var vals []Value
		et := elemType(r.t)
		for _, x := range w.sliceVals(a[1]) {
			vals = append(vals, w.assignTo(x.(RV), et))
		}
		return RV{t: r.t, v: w.appendVals(w.rvGet(r).(Slice), vals, et)}
	}
	m["reflect.Copy"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		d, s := a[0].(RV), a[1].(RV)
		var ds Slice
		if arr, ok := w.rvGet(d).(*Array); ok {
			arr = w.place(d.addr).(*Array)
			ds = Slice{arr, 0, arr.n, arr.n}
		} else {
			ds = w.rvGet(d).(Slice)
		}
		src := w.sliceVals(w.rvGet(s))
		n := min(ds.len, len(src))
		for i := 0; i < n; i++ {
			w.store(ElemPtr{ds.arr, ds.off + i}, src[i])
		}
		return mkConst(64, uint64(n))
	}
	m["reflect.DeepEqual"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.deepEq(a[0], a[1], 0)
	}
}

type reflIter struct {
	it     *mapIter
	kt, vt types.Type
	cur    *mapEntry
}

// deepEq models reflect.DeepEqual.
func (w *Worker) deepEq(a, b Value, depth int) *Expr {
	if depth > 30 {
		w.unsupported("deep DeepEqual")
	}
	switch x := a.(type) {
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return eFalse
		}
		return w.deepEq(x.v, y.v, depth+1)
	case Slice:
		y := b.(Slice)
		if (x.arr == nil) != (y.arr == nil) || x.len != y.len {
			return eFalse
		}
		r := eTrue
		for i := 0; i < x.len; i++ {
			r = w.x.BAnd(r, w.deepEq(x.arr.get(x.off+i), y.arr.get(y.off+i), depth+1))
		}
		return r
	case *Struct:
		y := b.(*Struct)
		r := eTrue
		for i := range x.f {
			r = w.x.BAnd(r, w.deepEq(x.f[i].v, y.f[i].v, depth+1))
		}
		return r
	case *Array:
		y := b.(*Array)
		r := eTrue
		for i := 0; i < x.n; i++ {
			r = w.x.BAnd(r, w.deepEq(x.get(i), y.get(i), depth+1))
		}
		return r
	case *Cell:
		y, ok := b.(*Cell)
		if !ok {
			return w.deepEq(w.place(a), w.place(b), depth+1)
		}
		if x == y {
			return eTrue
		}
		if x == nil || y == nil {
			return eFalse
		}
		return w.deepEq(x.v, y.v, depth+1)
	case ElemPtr:
		return w.deepEq(w.place(a), w.place(b), depth+1)
	case *MapObj:
		y := b.(*MapObj)
		if (x == nil) != (y == nil) {
			return eFalse
		}
		if x == nil {
			return eTrue
		}
		if x.n != y.n {
			return eFalse
		}
		r := eTrue
		for _, e := range x.ents {
			if e.del {
				continue
			}
			f := w.mapFind(y, e.key)
			if f == nil {
				return eFalse
			}
			r = w.x.BAnd(r, w.deepEq(e.val, f.val, depth+1))
		}
		return r
	case *Closure:
		y := b.(*Closure)
		return mkBool(x == nil && y == nil)
	}
	return w.eqVal(a, b)
}

var _ = fmt.Sprint

var ptrCache sync.Map

func (p *Program) ptrTo(t types.Type) types.Type {
	if q, ok := ptrCache.Load(t); ok {
		return q.(types.Type)
	}
	q, _ := ptrCache.LoadOrStore(t, types.NewPointer(t))
	return q.(types.Type)
}
