package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// symBig is a non-negative big.Int whose big-endian bytes are symbolic.
type symBig struct{ b []*Expr }

func asSymBig(v Value) *symBig {
	if n := asNative(v); n != nil {
		if s, ok := n.d.(*symBig); ok {
			return s
		}
	}
	return nil
}

// bigBytes returns v's big-endian bytes padded to n bytes.
func (w *Worker) bigBytes(v Value, n int) []*Expr {
	var b []*Expr
	if s := asSymBig(v); s != nil {
		b = s.b
	} else {
		x := asNative(v).d.(*big.Int)
		if x.Sign() < 0 {
			w.unsupported("negative big.Int next to a symbolic one")
		}
		b = constBytes(x.Bytes())
	}
	for len(b) < n {
		b = append([]*Expr{mkConst(8, 0)}, b...)
	}
	return b
}

func (w *Worker) setBig(dst Value, b []*Expr) Value {
	c := dst.(*Cell)
	if k, ok := concreteBytes(b); ok {
		c.v = goBox(new(big.Int).SetBytes(k))
	} else {
		c.v = &Native{"symbig", &symBig{append([]*Expr(nil), b...)}}
	}
	return dst
}

// bigCmp returns (a<b, a==b) for symbolic operands.
func (w *Worker) bigCmp(a, b Value) (lt, eq *Expr) {
	n := 0
	for _, v := range []Value{a, b} {
		if l := len(w.bigBytes(v, 0)); l > n {
			n = l
		}
	}
	x, y := w.bigBytes(a, n), w.bigBytes(b, n)
	lt, eq = eFalse, eTrue
	for i := n - 1; i >= 0; i-- {
		e := w.x.Eq(x[i], y[i])
		lt = w.x.BOr(w.x.Cmp(OUlt, x[i], y[i]), w.x.BAnd(e, lt))
	}
	return lt, w.eqBytes(x, y)
}

// symTrim branches on the number of leading zero bytes.
func (w *Worker) symTrim(b []*Expr) []*Expr {
	for len(b) > 0 && w.branch(w.x.Eq(b[0], mkConst(8, 0))) {
		b = b[1:]
	}
	return b
}

func (w *Worker) bigNeg(lt, eq *Expr) Value {
	return w.x.Ite(lt, mkConst(64, ^uint64(0)), w.x.Ite(eq, mkConst(64, 0), mkConst(64, 1)))
}

func addBigInt(m map[string]intrinsic) {
	native := func(w *Worker, fn *ssa.Function, a []Value) Value {
		n := asNative(a[0])
		if n == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return w.nativeInvoke(n, fn.Name(), a, fn.Signature)
	}
	def := func(name string, f func(w *Worker, a []Value) Value) {
		m["(*math/big.Int)."+name] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			if asNative(a[0]) == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			for _, v := range a {
				if asSymBig(v) != nil {
					return f(w, a)
				}
				if s, ok := v.(Slice); ok && s.arr != nil {
					if _, conc := concreteBytes(w.sliceBytes(s)); !conc {
						return f(w, a)
					}
				}
			}
			r := native(w, fn, a)
			if name == "Exp" && len(a) == 4 {
				// remember key shares of the session (g = 2)
				mod, _ := asNative(a[3]).d.(*big.Int)
				if mod != nil && mod.BitLen() >= 2048 && asNative(a[1]).d.(*big.Int).Cmp(big.NewInt(2)) == 0 {
					z := asNative(a[0]).d.(*big.Int)
					w.cry.addPub(z.FillBytes(make([]byte, len(mod.Bytes()))))
				}
			}
			return r
		}
	}
	def("SetBytes", func(w *Worker, a []Value) Value { return w.setBig(a[0], w.sliceBytes(a[1])) })
	def("Set", func(w *Worker, a []Value) Value {
		if s := asSymBig(a[1]); s != nil {
			return w.setBig(a[0], s.b)
		}
		a[0].(*Cell).v = goBox(new(big.Int).Set(asNative(a[1]).d.(*big.Int)))
		return a[0]
	})
	def("SetInt64", func(w *Worker, a []Value) Value {
		a[0].(*Cell).v = goBox(big.NewInt(int64(w.concretize(a[1].(*Expr)))))
		return a[0]
	})
	def("Sign", func(w *Worker, a []Value) Value {
		b := asSymBig(a[0]).b
		return w.x.Ite(w.eqBytes(b, constBytes(make([]byte, len(b)))), mkConst(64, 0), mkConst(64, 1))
	})
	def("Cmp", func(w *Worker, a []Value) Value { return w.bigNeg(w.bigCmp(a[0], a[1])) })
	def("CmpAbs", func(w *Worker, a []Value) Value { return w.bigNeg(w.bigCmp(a[0], a[1])) })
	def("Bytes", func(w *Worker, a []Value) Value {
		return mkByteSlice(append([]*Expr(nil), w.symTrim(asSymBig(a[0]).b)...))
	})
	def("BitLen", func(w *Worker, a []Value) Value {
		b := w.symTrim(asSymBig(a[0]).b)
		if len(b) == 0 {
			return mkConst(64, 0)
		}
		n := uint64(len(b)-1) * 8
		r := mkConst(64, n+1)
		for k := uint64(1); k < 8; k++ {
			r = w.x.Ite(w.x.Cmp(OUlt, b[0], mkConst(8, 1<<k)), r, mkConst(64, n+k+1))
		}
		return r
	})
	def("FillBytes", func(w *Worker, a []Value) Value {
		buf := a[1].(Slice)
		b := asSymBig(a[0]).b
		for len(b) > buf.len {
			if !w.branch(w.x.Eq(b[0], mkConst(8, 0))) {
				w.doPanic(Iface{w.p.rtErrorString, "math/big: buffer too small to fit value"})
			}
			b = b[1:]
		}
		p := append(constBytes(make([]byte, buf.len-len(b))), b...)
		for i, e := range p {
			buf.arr.set(buf.off+i, e)
		}
		return buf
	})
	def("Exp", func(w *Worker, a []Value) Value {
		if len(a) < 4 || asSymBig(a[3]) != nil || asSymBig(a[2]) != nil {
			w.unsupported("big.Int.Exp with a symbolic exponent or modulus")
		}
		mod := asNative(a[3]).d.(*big.Int)
		exp := asNative(a[2]).d.(*big.Int)
		n := len(mod.Bytes())
		base := w.bigBytes(a[1], n)
		if exp.Cmp(big.NewInt(1)) == 0 {
			if lt, _ := w.bigCmp(a[1], a[3]); w.branch(lt) {
				return w.setBig(a[0], base)
			}
			w.unsupported("reduction of a symbolic big.Int")
		}
		// values the session already knows are computed exactly
		for _, k := range w.cry.pubs {
			if len(k) == n && w.branch(w.eqBytes(base, constBytes(k))) {
				z := new(big.Int).Exp(new(big.Int).SetBytes(k), exp, mod)
				return w.setBig(a[0], constBytes(z.Bytes()))
			}
		}
		for _, k := range []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(mod, big.NewInt(1)), mod} {
			kb := k.FillBytes(make([]byte, n))
			if w.branch(w.eqBytes(base, constBytes(kb))) {
				z := new(big.Int).Exp(k, exp, mod)
				return w.setBig(a[0], constBytes(z.Bytes()))
			}
		}
		w.cry.note("modular exponentiation of an unknown symbolic value: ideal function")
		out := w.apply(fmt.Sprintf("FFDH%d", mod.BitLen()), n, [][]*Expr{base, constBytes(exp.Bytes())}, func(p [][]byte) []byte {
			return new(big.Int).Exp(new(big.Int).SetBytes(p[0]), new(big.Int).SetBytes(p[1]), mod).FillBytes(make([]byte, n))
		})
		// an ideal output has no leading zero bytes here; padding is checked
		// with exponent 1, where the result is the symbolic value itself
		w.assume(w.x.BNot(w.x.Eq(out[0], mkConst(8, 0))))
		return w.setBig(a[0], out)
	})
}
