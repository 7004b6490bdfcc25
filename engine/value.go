package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Expr            bool / integer (symbolic or constant)
//	float64          floating point (concrete only)
//	string           concrete string
//	*SymStr          string with symbolic bytes (concrete length)
//	*Cell, ElemPtr   pointers ((*Cell)(nil) is the nil pointer)
//	Slice
//	*Struct, *Array  (value semantics: copied on load/store)
//	*MapObj
//	*Closure         functions (nil = nil func)
//	Iface
//	Tuple
//	*ChanObj
//	RV, RType        reflect values / types
//	*Native          opaque native object (value semantics through clone)
type Value interface{}

type SymStr struct{ b []*Expr }

type Cell struct{ v Value }

type ElemPtr struct {
	arr *Array
	idx int
}

type Array struct {
	n      int
	e      []Value // lazily extended; missing elements are zero
	zero   func() Value
	symCap bool // made with a capacity the path does not fix
}

func (a *Array) get(i int) Value {
	if i < len(a.e) {
		if v := a.e[i]; v != nil {
			return v
		}
	}
	v := a.zero()
	switch v.(type) {
	case *Struct, *Array, *Native:
		a.set(i, v) // identity matters
	}
	return v
}

func (a *Array) set(i int, v Value) {
	if i >= len(a.e) {
		if i >= a.n {
			panic("Array.set out of range")
		}
		if i < cap(a.e) {
			a.e = a.e[:i+1]
		} else {
			nc := max(2*cap(a.e), i+1, 8)
			if nc > a.n {
				nc = a.n
			}
			ne := make([]Value, i+1, nc)
			copy(ne, a.e)
			a.e = ne
		}
	}
	a.e[i] = v
}

type Slice struct {
	arr           *Array
	off, len, cap int
}

type Struct struct{ f []Cell }

type mapEntry struct {
	key, val Value
	ckey     string
	del      bool
}

type MapObj struct {
	ents []*mapEntry
	idx  map[string]*mapEntry
	nsym int
	n    int
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(w *Worker, args []Value) Value
	name   string
}

type Iface struct {
	t types.Type
	v Value
}

type Tuple []Value

type ChanObj struct {
	buf     []Value
	cap     int
	closed  bool
	waiting int // receivers
	taken   int // values received so far
	zero    func() Value
}

type RType struct{ t types.Type }

type RV struct {
	t    types.Type // nil = invalid
	v    Value      // value if addr == nil
	addr Value      // pointer to the storage if addressable
}

// Native is an opaque value modelled by the engine.
type Native struct {
	kind string
	d    interface{}
}

// cloner lets native payloads define value-copy semantics.
type cloner interface{ clone() interface{} }

func (n *Native) copy() *Native {
	if c, ok := n.d.(cloner); ok {
		return &Native{n.kind, c.clone()}
	}
	return &Native{n.kind, n.d}
}

var nilCell = (*Cell)(nil)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref of " + t.String())
}

func basicInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

// zeroOverride maps fully qualified named types to native zero values.
var zeroOverride = map[string]func() Value{}

func namedString(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	return o.Pkg().Path() + "." + o.Name()
}

// zeroFn returns a generator of zero values of type t.
func (p *Program) zeroFn(t types.Type) func() Value {
	if f, ok := p.zeroCache.Load(t); ok {
		return f.(func() Value)
	}
	f := p.mkZeroFn(t)
	p.zeroCache.Store(t, f)
	return f
}

func constFn(v Value) func() Value { return func() Value { return v } }

func (p *Program) mkZeroFn(t types.Type) func() Value {
	if ns := namedString(t); ns != "" {
		if f, ok := zeroOverride[ns]; ok {
			return f
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := basicInfo(u); ok {
			return constFn(mkConst(w, 0))
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return constFn("")
		case types.Float32, types.Float64, types.UntypedFloat:
			return constFn(float64(0))
		case types.Complex64, types.Complex128:
			return constFn(complex128(0))
		case types.UnsafePointer, types.UntypedNil:
			return constFn(nilCell)
		}
	case *types.Pointer:
		return constFn(nilCell)
	case *types.Slice:
		return constFn(Slice{})
	case *types.Map:
		return constFn((*MapObj)(nil))
	case *types.Chan:
		return constFn((*ChanObj)(nil))
	case *types.Signature:
		return constFn((*Closure)(nil))
	case *types.Interface:
		return constFn(Iface{})
	case *types.Struct:
		n := u.NumFields()
		var fs []func() Value
		return func() Value {
			if fs == nil {
				tmp := make([]func() Value, n)
				for i := range tmp {
					tmp[i] = p.zeroFn(u.Field(i).Type())
				}
				fs = tmp
			}
			s := &Struct{make([]Cell, n)}
			for i, f := range fs {
				s.f[i].v = f()
			}
			return s
		}
	case *types.Array:
		n := int(u.Len())
		ez := p.zeroFn(u.Elem())
		return func() Value { return &Array{n: n, zero: ez} }
	case *types.Tuple:
		return func() Value {
			r := make(Tuple, u.Len())
			for i := range r {
				r[i] = p.zeroFn(u.At(i).Type())()
			}
			return r
		}
	}
	panic(fmt.Sprintf("zero of %s (%T)", t, t.Underlying()))
}

// copyVal implements value semantics.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case *Struct:
		n := &Struct{make([]Cell, len(v.f))}
		for i := range v.f {
			n.f[i].v = copyVal(v.f[i].v)
		}
		return n
	case *Array:
		n := &Array{n: v.n, zero: v.zero, e: make([]Value, len(v.e))}
		for i, x := range v.e {
			if x != nil {
				n.e[i] = copyVal(x)
			}
		}
		return n
	case *Native:
		return v.copy()
	}
	return v
}

// storeInto assigns src to a location currently holding dst, preserving the
// identity of nested storage.
func storeVal(loc *Value, src Value) {
	switch s := src.(type) {
	case *Struct:
		if d, ok := (*loc).(*Struct); ok && len(d.f) == len(s.f) {
			if d == s {
				return
			}
			for i := range d.f {
				storeVal(&d.f[i].v, s.f[i].v)
			}
			return
		}
		*loc = copyVal(src)
	case *Array:
		if d, ok := (*loc).(*Array); ok && d.n == s.n {
			if d == s {
				return
			}
			for i := 0; i < d.n; i++ {
				if i >= len(d.e) && i >= len(s.e) {
					break
				}
				cur := d.get(i)
				storeVal(&cur, s.get(i))
				d.set(i, cur)
			}
			return
		}
		*loc = copyVal(src)
	case *Native:
		if d, ok := (*loc).(*Native); ok {
			c := s.copy()
			d.kind, d.d = c.kind, c.d
			return
		}
		*loc = s.copy()
	default:
		*loc = src
	}
}

func (w *Worker) load(p Value) Value {
	switch p := p.(type) {
	case *Cell:
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		switch v := p.v.(type) {
		case *Struct, *Array, *Native:
			return copyVal(v)
		default:
			return v
		}
	case ElemPtr:
		return copyVal(p.arr.get(p.idx))
	case *symElem:
		return w.loadSymElem(p)
	case *natField:
		return w.loadNatField(p)
	}
	w.unsupported(fmt.Sprintf("load through %T", p))
	return nil
}

func (w *Worker) store(p Value, v Value) {
	switch p := p.(type) {
	case *Cell:
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		storeVal(&p.v, v)
	case ElemPtr:
		switch v.(type) {
		case *Struct, *Array, *Native:
			cur := p.arr.get(p.idx)
			storeVal(&cur, v)
			p.arr.set(p.idx, cur)
		default:
			p.arr.set(p.idx, v)
		}
	case *symElem:
		if e, ok := v.(*Expr); ok && p.s.len <= 64 {
			for i := 0; i < p.s.len; i++ {
				old := p.s.arr.get(p.s.off + i).(*Expr)
				p.s.arr.set(p.s.off+i, w.x.Ite(w.x.Eq(p.idx, mkConst(p.idx.w, uint64(i))), e, old))
			}
			return
		}
		i := w.concretize(p.idx)
		w.store(ElemPtr{p.s.arr, p.s.off + int(i)}, v)
	case *natField:
		w.storeNatField(p, v)
	default:
		w.unsupported(fmt.Sprintf("store through %T", p))
	}
}

// place returns the stored (uncopied) aggregate behind a pointer.
func (w *Worker) place(p Value) Value {
	switch p := p.(type) {
	case *Cell:
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p.v
	case ElemPtr:
		return p.arr.get(p.idx)
	case *symElem:
		i := w.concretize(p.idx)
		return p.s.arr.get(p.s.off + int(i))
	case *natField:
		return w.loadNatField(p)
	}
	w.unsupported(fmt.Sprintf("place through %T", p))
	return nil
}

// symElem is a pointer to a slice/array element at a symbolic (in-bounds) index.
type symElem struct {
	s   Slice
	idx *Expr
}

func (w *Worker) loadSymElem(p *symElem) Value {
	// all elements scalar and few: ITE chain
	if p.s.len <= 300 {
		ok := true
		vals := make([]*Expr, p.s.len)
		for i := range vals {
			e, is := p.s.arr.get(p.s.off + i).(*Expr)
			if !is {
				ok = false
				break
			}
			vals[i] = e
		}
		if ok && len(vals) > 0 {
			r := vals[len(vals)-1]
			for i := len(vals) - 2; i >= 0; i-- {
				r = w.x.Ite(w.x.Eq(p.idx, mkConst(p.idx.w, uint64(i))), vals[i], r)
			}
			return r
		}
	}
	i := w.concretize(p.idx)
	return copyVal(p.s.arr.get(p.s.off + int(i)))
}

func ptrEq(a, b Value) bool {
	switch a := a.(type) {
	case *Cell:
		b, ok := b.(*Cell)
		return ok && a == b
	case ElemPtr:
		b, ok := b.(ElemPtr)
		return ok && a == b
	}
	return a == b
}

// ---- strings and byte slices ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strBytes(v Value) []*Expr {
	switch s := v.(type) {
	case string:
		r := make([]*Expr, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = smallConsts[8][s[i]]
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func mkStr(b []*Expr) Value {
	for _, e := range b {
		if !e.isConst() {
			return &SymStr{b}
		}
	}
	var sb strings.Builder
	for _, e := range b {
		sb.WriteByte(byte(e.c))
	}
	return sb.String()
}

func (w *Worker) sliceBytes(v Value) []*Expr {
	s, ok := v.(Slice)
	if !ok {
		panic(fmt.Sprintf("sliceBytes of %T", v))
	}
	r := make([]*Expr, s.len)
	for i := range r {
		r[i] = s.arr.get(s.off + i).(*Expr)
	}
	return r
}

func concreteBytes(b []*Expr) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, e := range b {
		if !e.isConst() {
			return nil, false
		}
		r[i] = byte(e.c)
	}
	return r, true
}

func constBytes(b []byte) []*Expr {
	r := make([]*Expr, len(b))
	for i, c := range b {
		r[i] = smallConsts[8][c]
	}
	return r
}

func mkByteSlice(b []*Expr) Slice {
	a := &Array{n: len(b), e: make([]Value, len(b)), zero: func() Value { return smallConsts[8][0] }}
	for i, e := range b {
		a.e[i] = e
	}
	return Slice{a, 0, len(b), len(b)}
}

func mkBytes(b []byte) Slice { return mkByteSlice(constBytes(b)) }

func (w *Worker) str(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	w.unsupported("symbolic string where concrete needed")
	return ""
}

// concString forces a concrete string by concretising its bytes.
func (w *Worker) concString(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := strBytes(v)
	r := make([]byte, len(b))
	for i, e := range b {
		r[i] = byte(w.concretize(e))
	}
	return string(r)
}

// ckey builds a canonical key for a fully concrete value ("" and false if symbolic).
func ckey(v Value) (string, bool) {
	var sb strings.Builder
	if !ckeyTo(&sb, v) {
		return "", false
	}
	return sb.String(), true
}

func ckeyTo(sb *strings.Builder, v Value) bool {
	switch v := v.(type) {
	case *Expr:
		if !v.isConst() {
			return false
		}
		fmt.Fprintf(sb, "i%d;", v.c)
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(v), v)
	case *SymStr:
		return false
	case float64:
		fmt.Fprintf(sb, "f%v;", v)
	case *Struct:
		sb.WriteByte('{')
		for i := range v.f {
			if !ckeyTo(sb, v.f[i].v) {
				return false
			}
		}
		sb.WriteByte('}')
	case *Array:
		sb.WriteByte('[')
		for i := 0; i < v.n; i++ {
			if !ckeyTo(sb, v.get(i)) {
				return false
			}
		}
		sb.WriteByte(']')
	case Iface:
		if v.t == nil {
			sb.WriteString("nil;")
			return true
		}
		fmt.Fprintf(sb, "I%s:", v.t.String())
		return ckeyTo(sb, v.v)
	case RType:
		fmt.Fprintf(sb, "T%s;", v.t.String())
	case *Cell:
		fmt.Fprintf(sb, "p%p;", v)
	case ElemPtr:
		fmt.Fprintf(sb, "p%p+%d;", v.arr, v.idx)
	default:
		fmt.Fprintf(sb, "?%p;", v)
	}
	return true
}
