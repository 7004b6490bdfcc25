package main

import (
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"io"
	"math/big"
	"reflect"
	"strings"
	"time"
)

// Opaque dynamic types for engine-modelled values.
var natPkg = types.NewPackage("verif/native", "native")

func opaqueType(name string) *types.Named {
	return types.NewNamed(types.NewTypeName(token.NoPos, natPkg, name, nil), types.NewStruct(nil, nil), nil)
}

var (
	opHash   = opaqueType("hash")
	opHMAC   = opaqueType("hmac")
	opAES    = opaqueType("aes")
	opGCM    = opaqueType("gcm")
	opRand   = opaqueType("rand")
	opErr    = opaqueType("error")
	opRType  = opaqueType("rtype")
	opGo     = opaqueType("govalue")
	opReader = opaqueType("reader")
)

func isOpaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == natPkg
}

type errData struct {
	msg  string
	wrap Iface
}

func (w *Worker) newError(msg string) Iface {
	return Iface{opErr, &Native{"err", &errData{msg: msg}}}
}

func (w *Worker) opaqueError(name string) Iface { return w.newError(name) }

var nilErr = Iface{}

func nativeEq(x, y *Native) bool {
	if x.kind != y.kind {
		return false
	}
	defer func() { recover() }()
	if a, ok := x.d.(*big.Int); ok {
		b, ok := y.d.(*big.Int)
		return ok && a == b
	}
	return x.d == y.d
}

func asNative(v Value) *Native {
	switch x := v.(type) {
	case *Native:
		return x
	case *Cell:
		if x != nil {
			if n, ok := x.v.(*Native); ok {
				return n
			}
		}
	case Iface:
		return asNative(x.v)
	}
	return nil
}

func goBox(x interface{}) *Native { return &Native{"go", x} }

// opaqueImplements decides interface assertions on opaque values.
func (w *Worker) opaqueImplements(v Iface, t types.Type) bool {
	it := t.Underlying().(*types.Interface)
	has := map[string]bool{}
	n, _ := v.v.(*Native)
	if n == nil {
		return false
	}
	switch n.kind {
	case "hash", "hmac":
		for _, m := range []string{"Write", "Sum", "Reset", "Size", "BlockSize"} {
			has[m] = true
		}
	case "err":
		has["Error"] = true
	case "rand", "reader":
		has["Read"] = true
	case "gcm":
		for _, m := range []string{"Seal", "Open", "NonceSize", "Overhead"} {
			has[m] = true
		}
	case "go":
		rt := reflect.TypeOf(n.d)
		for i := 0; i < rt.NumMethod(); i++ {
			has[rt.Method(i).Name] = true
		}
	}
	for i := 0; i < it.NumMethods(); i++ {
		if !has[it.Method(i).Name()] {
			return false
		}
	}
	return true
}

// natField is a pointer to a field of a natively represented struct.
type natField struct {
	n *Native
	f *types.Var
}

func (w *Worker) natFieldValue(p *natField) reflect.Value {
	rv := reflect.ValueOf(p.n.d)
	for rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface {
		rv = rv.Elem()
	}
	f := rv.FieldByName(p.f.Name())
	if !f.IsValid() {
		w.unsupported("native field " + p.f.Name())
	}
	return f
}

func (w *Worker) loadNatField(p *natField) Value {
	return w.fromGo(w.natFieldValue(p), p.f.Type())
}

func (w *Worker) storeNatField(p *natField, v Value) {
	f := w.natFieldValue(p)
	f.Set(w.toGo(v, f.Type()))
}

var timeType = reflect.TypeOf(time.Time{})
var bigIntPtr = reflect.TypeOf((*big.Int)(nil))
var errorRT = reflect.TypeOf((*error)(nil)).Elem()

// rtypeOf finds the go/types type of a native dynamic type (opGo if unknown).
func (w *Worker) typeOfGo(rt reflect.Type) types.Type {
	if t, ok := w.p.natTypes.Load(rt); ok {
		return t.(types.Type)
	}
	var t types.Type
	switch {
	case rt.Kind() == reflect.Ptr && rt.Elem().Name() != "" && rt.Elem().PkgPath() != "":
		if e := w.p.lookupType(rt.Elem().PkgPath(), rt.Elem().Name()); e != nil {
			t = types.NewPointer(e)
		}
	case rt.Name() != "" && rt.PkgPath() != "":
		if e := w.p.lookupType(rt.PkgPath(), rt.Name()); e != nil {
			t = e
		}
	}
	if t == nil {
		t = opGo
	}
	r, _ := w.p.natTypes.LoadOrStore(rt, t)
	return r.(types.Type)
}

// fromGo converts a native Go value to an interpreter value of type t.
func (w *Worker) fromGo(rv reflect.Value, t types.Type) Value {
	if !rv.IsValid() {
		return w.p.zeroFn(t)()
	}
	if rv.Type() == timeType {
		tm := rv.Interface().(time.Time)
		return w.mkTime(mkConst(64, uint64(tm.UnixNano())))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if wd, _, ok := basicInfo(u); ok {
			switch rv.Kind() {
			case reflect.Bool:
				return mkBool(rv.Bool())
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				return mkConst(wd, uint64(rv.Int()))
			default:
				return mkConst(wd, rv.Uint())
			}
		}
		if u.Info()&types.IsString != 0 {
			return rv.String()
		}
		if u.Info()&types.IsFloat != 0 {
			return rv.Float()
		}
	case *types.Slice:
		if rv.IsNil() {
			return Slice{}
		}
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			return mkBytes(append([]byte{}, rv.Bytes()...))
		}
		n := rv.Len()
		a := &Array{n: n, zero: w.p.zeroFn(u.Elem())}
		for i := 0; i < n; i++ {
			a.set(i, w.fromGo(rv.Index(i), u.Elem()))
		}
		return Slice{a, 0, n, n}
	case *types.Array:
		a := &Array{n: rv.Len(), zero: w.p.zeroFn(u.Elem())}
		for i := 0; i < rv.Len(); i++ {
			a.set(i, w.fromGo(rv.Index(i), u.Elem()))
		}
		return a
	case *types.Pointer:
		if rv.IsNil() {
			return nilCell
		}
		return &Cell{goBox(rv.Interface())}
	case *types.Interface:
		if rv.Kind() == reflect.Interface {
			if rv.IsNil() {
				return Iface{}
			}
			rv = rv.Elem()
		}
		x := rv.Interface()
		if e, ok := x.(error); ok && t.String() == "error" {
			return w.newError(e.Error())
		}
		dt := w.typeOfGo(rv.Type())
		if dt == opGo {
			return Iface{opGo, goBox(x)}
		}
		return Iface{dt, w.fromGo(rv, dt)}
	case *types.Struct:
		p := reflect.New(rv.Type())
		p.Elem().Set(rv)
		return goBox(p.Interface())
	case *types.Map, *types.Signature, *types.Chan:
		return w.p.zeroFn(t)()
	}
	w.unsupported(fmt.Sprintf("fromGo %s -> %s", rv.Type(), t))
	return nil
}

// toGo converts an interpreter value to a native Go value of type rt.
func (w *Worker) toGo(v Value, rt reflect.Type) reflect.Value {
	if rt == timeType {
		s := v.(*Struct)
		ext := s.f[1].v.(*Expr)
		wall := s.f[0].v.(*Expr)
		if wall.isConst() && wall.c == 0 && ext.isConst() && ext.c == 0 {
			return reflect.ValueOf(time.Time{})
		}
		return reflect.ValueOf(time.Unix(0, int64(w.concretize(ext))))
	}
	switch x := v.(type) {
	case *Expr:
		c := w.concretize(x)
		r := reflect.New(rt).Elem()
		switch rt.Kind() {
		case reflect.Bool:
			r.SetBool(c != 0)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			r.SetInt(sx(c, x.w))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			r.SetUint(c)
		default:
			w.unsupported("toGo int -> " + rt.String())
		}
		return r
	case string, *SymStr:
		r := reflect.New(rt).Elem()
		r.SetString(w.concString(x))
		return r
	case Slice:
		r := reflect.New(rt).Elem()
		if x.arr == nil {
			return r
		}
		s := reflect.MakeSlice(rt, x.len, x.len)
		for i := 0; i < x.len; i++ {
			s.Index(i).Set(w.toGo(x.arr.get(x.off+i), rt.Elem()))
		}
		return s
	case *Cell:
		if x == nil {
			return reflect.Zero(rt)
		}
		if n, ok := x.v.(*Native); ok {
			return w.natToGo(n, rt)
		}
		if rt.Kind() == reflect.Ptr {
			p := reflect.New(rt.Elem())
			p.Elem().Set(w.toGo(x.v, rt.Elem()))
			return p
		}
	case *Native:
		return w.natToGo(x, rt)
	case Iface:
		if x.t == nil {
			return reflect.Zero(rt)
		}
		if n := asNative(x.v); n != nil && n.kind == "go" {
			return w.natToGo(n, rt)
		}
		if n := asNative(x.v); n != nil && n.kind == "rand" {
			return reflect.ValueOf(&detReader{w})
		}
		if rt == ioReaderType {
			return reflect.ValueOf(&interpReader{w, x})
		}
		if rt.Kind() == reflect.Interface {
			if e, ok := x.v.(*Expr); ok {
				if ns := namedString(x.t); ns == "crypto.Hash" {
					return reflect.ValueOf(cryptoHash(w.concretize(e)))
				}
			}
			if c, ok := x.v.(*Cell); ok {
				ns := x.t.String()
				if ns == "*crypto/rsa.PSSOptions" {
					return w.pssOptions(c)
				}
			}
		}
	case *Struct:
		if rt.Kind() == reflect.Struct {
			r := reflect.New(rt).Elem()
			for i := 0; i < rt.NumField() && i < len(x.f); i++ {
				if rt.Field(i).PkgPath != "" {
					continue
				}
				fv := x.f[i].v
				if isZeroVal(fv) {
					continue
				}
				r.Field(i).Set(w.toGo(fv, rt.Field(i).Type))
			}
			return r
		}
	case *Array:
		r := reflect.New(rt).Elem()
		for i := 0; i < x.n; i++ {
			r.Index(i).Set(w.toGo(x.get(i), rt.Elem()))
		}
		return r
	case *Closure:
		if x == nil {
			return reflect.Zero(rt)
		}
	}
	w.unsupported(fmt.Sprintf("toGo %T -> %s", v, rt))
	return reflect.Value{}
}

func isZeroVal(v Value) bool {
	switch x := v.(type) {
	case *Expr:
		return x.isConst() && x.c == 0
	case string:
		return x == ""
	case Slice:
		return x.arr == nil
	case *Cell:
		return x == nil
	case *MapObj:
		return x == nil
	case *Closure:
		return x == nil
	case Iface:
		return x.t == nil
	}
	return false
}

func (w *Worker) natToGo(n *Native, rt reflect.Type) reflect.Value {
	if n.kind == "rand" {
		return reflect.ValueOf(&detReader{w})
	}
	rv := reflect.ValueOf(n.d)
	if rv.Type().AssignableTo(rt) {
		return rv
	}
	if rv.Kind() == reflect.Ptr && rv.Elem().Type().AssignableTo(rt) {
		return rv.Elem()
	}
	w.unsupported(fmt.Sprintf("natToGo %s -> %s", rv.Type(), rt))
	return rv
}

// detReader is a deterministic random source for native code.
type detReader struct{ w *Worker }

func (d *detReader) Read(p []byte) (int, error) {
	copy(p, d.w.randBytes(len(p)))
	return len(p), nil
}

var ioReaderType = reflect.TypeOf((*io.Reader)(nil)).Elem()

// interpReader lets native code read from an interpreted io.Reader. What it
// reads is made concrete.
type interpReader struct {
	w *Worker
	r Iface
}

func (r *interpReader) Read(p []byte) (int, error) {
	b := mkBytes(make([]byte, len(p)))
	t := r.w.callMethod(r.r.t, r.r.v, "Read", b).(Tuple)
	n := int(r.w.concretize(t[0].(*Expr)))
	for i := 0; i < n; i++ {
		p[i] = byte(r.w.concretize(b.arr.get(b.off + i).(*Expr)))
	}
	if e := t[1].(Iface); e.t != nil {
		return n, errors.New("read from an interpreted reader failed")
	}
	return n, nil
}

// callGo calls a native function with converted arguments.
func (w *Worker) callGo(f reflect.Value, args []Value, res *types.Tuple) Value {
	ft := f.Type()
	in := make([]reflect.Value, 0, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1)
		} else {
			pt = ft.In(i)
		}
		in = append(in, w.toGo(a, pt))
	}
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(*pathEnd); ok {
					panic(pe)
				}
				msg := fmt.Sprint(r)
				panic(&targetPanic{v: Iface{w.p.rtErrorString, msg}, msg: "panic in native code: " + msg, where: w.where()})
			}
		}()
		if ft.IsVariadic() && len(in) == ft.NumIn() {
			out = f.CallSlice(in)
		} else {
			out = f.Call(in)
		}
	}()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return w.fromGo(out[0], res.At(0).Type())
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = w.fromGo(out[i], res.At(i).Type())
	}
	return t
}

// nativeInvoke performs a method call on a natively modelled receiver;
// args[0] is the receiver.
func (w *Worker) nativeInvoke(n *Native, name string, args []Value, sig *types.Signature) Value {
	switch n.kind {
	case "hash", "hmac":
		return w.hashMethod(n, name, args)
	case "gcm":
		return w.gcmMethod(n, name, args)
	case "aes":
		if name == "BlockSize" {
			return mkConst(64, 16)
		}
	case "rand":
		if name == "Read" {
			b := args[1].(Slice)
			for i, c := range w.randBytes(b.len) {
				b.arr.set(b.off+i, smallConsts[8][c])
			}
			return Tuple{mkConst(64, uint64(b.len)), nilErr}
		}
	case "err":
		switch name {
		case "Error":
			return n.d.(*errData).msg
		case "Unwrap":
			return n.d.(*errData).wrap
		}
	case "go":
		m := reflect.ValueOf(n.d).MethodByName(name)
		if !m.IsValid() {
			w.unsupported(fmt.Sprintf("native method %T.%s", n.d, name))
		}
		r := w.callGo(m, args[1:], sig.Results())
		// methods of big.Int return their receiver
		if c, ok := r.(*Cell); ok && c != nil {
			if rn, ok := c.v.(*Native); ok && rn.d == n.d {
				return args[0]
			}
		}
		return r
	}
	w.unsupported(fmt.Sprintf("native method %s.%s", n.kind, name))
	return nil
}

func trimStar(s string) string { return strings.TrimPrefix(s, "*") }
