package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Expression DAG over bit-vectors (width>=1) and booleans (width 0).
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLShr
	OAShr
	OExtract // aux = hi<<8|lo
	OZExt
	OSExt
	OConcat
	OIte
	// bool
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not"}

type Expr struct {
	op   Op
	w    uint8 // 0 = bool
	aux  uint32
	c    uint64 // const value
	a    [3]*Expr
	name string // var
	id   uint32 // unique within context; 0 for consts
	// upper bound known on value (for range pruning): max unsigned value
	max uint64
	// evaluation cache
	ev    uint64
	epoch uint32
	leaf  *Leaf // provenance of ideal-crypto leaf variables

	h  [2]uint64 // structural hash, equal across paths
	vs []uint64  // variables below this node (bit set over var numbers), nil until asked for
	vn int32     // number of a variable
}

func mix64(a uint64) uint64 {
	a ^= a >> 30
	a *= 0xbf58476d1ce4e5b9
	a ^= a >> 27
	a *= 0x94d049bb133111eb
	return a ^ a>>31
}

// shash returns the structural hash of e.
func (e *Expr) shash() [2]uint64 {
	if e.h != [2]uint64{} {
		return e.h
	}
	if e.op == OConst {
		// constants are shared between workers: do not store
		return [2]uint64{mix64(e.c ^ uint64(e.w)<<56 ^ 0x1234567), mix64(e.c*31 + uint64(e.w) + 77)}
	}
	x := uint64(e.op)<<40 | uint64(e.w)<<32 | uint64(e.aux)
	h := [2]uint64{mix64(x + 0x9e3779b97f4a7c15), mix64(x ^ 0xc2b2ae3d27d4eb4f)}
	if e.op == OVar {
		for i := 0; i < len(e.name); i++ {
			h[0] = mix64(h[0] ^ uint64(e.name[i]))
			h[1] = mix64(h[1]*3 + uint64(e.name[i]))
		}
	}
	for i, a := range e.a {
		if a != nil {
			g := a.shash()
			h[0] = mix64(h[0] ^ g[0] + uint64(i))
			h[1] = mix64(h[1]*5 + g[1] ^ uint64(i)<<32)
		}
	}
	if h == [2]uint64{} {
		h[0] = 1
	}
	e.h = h
	return h
}

// varset returns the set of variables e depends on; do not modify it.
func (e *Expr) varset() []uint64 {
	if e.op == OConst {
		return nil
	}
	if e.vs != nil {
		return e.vs
	}
	var r []uint64
	if e.op == OVar {
		r = make([]uint64, e.vn/64+1)
		r[e.vn/64] = 1 << uint(e.vn%64)
	} else {
		own := false
		for _, a := range e.a {
			if a == nil {
				continue
			}
			v := a.varset()
			if len(v) == 0 || bsSubset(v, r) {
				continue
			}
			if len(r) == 0 || !own && bsSubset(r, v) {
				r = v
				continue
			}
			if !own || len(r) < len(v) {
				n := make([]uint64, max(len(r), len(v)))
				copy(n, r)
				r, own = n, true
			}
			for i, b := range v {
				r[i] |= b
			}
		}
		if r == nil {
			r = []uint64{}
		}
	}
	e.vs = r
	return r
}

func bsSubset(a, b []uint64) bool {
	for i, x := range a {
		if i < len(b) {
			if x&^b[i] != 0 {
				return false
			}
		} else if x != 0 {
			return false
		}
	}
	return true
}

func bsMeets(a, b []uint64) bool {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

type exprKey struct {
	op      Op
	w       uint8
	aux     uint32
	a, b, c uint32
	k       uint64
}

type ExprCtx struct {
	tab    map[exprKey]*Expr
	vars   map[string]*Expr
	nextID uint32
}

func newExprCtx() *ExprCtx {
	return &ExprCtx{tab: map[exprKey]*Expr{}, vars: map[string]*Expr{}, nextID: 1}
}

func (e *Expr) isConst() bool { return e.op == OConst }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return 1<<w - 1
}

var smallConsts [65][]*Expr
var eTrue, eFalse *Expr

func init() {
	for _, w := range []uint8{1, 8, 16, 32, 64} {
		n := 256
		if w >= 16 {
			n = 1024
		}
		if w == 1 {
			n = 2
		}
		s := make([]*Expr, n)
		for i := range s {
			s[i] = &Expr{op: OConst, w: w, c: uint64(i), max: uint64(i)}
		}
		smallConsts[w] = s
	}
	eTrue = &Expr{op: OConst, w: 0, c: 1, max: 1}
	eFalse = &Expr{op: OConst, w: 0, c: 0}
}

func mkConst(w uint8, v uint64) *Expr {
	if w == 0 {
		if v != 0 {
			return eTrue
		}
		return eFalse
	}
	v &= mask(w)
	if s := smallConsts[w]; v < uint64(len(s)) {
		return s[v]
	}
	return &Expr{op: OConst, w: w, c: v, max: v}
}

func mkBool(b bool) *Expr {
	if b {
		return eTrue
	}
	return eFalse
}

func (x *ExprCtx) Var(name string, w uint8) *Expr {
	if e, ok := x.vars[name]; ok {
		if e.w != w {
			panic("var width clash " + name)
		}
		return e
	}
	e := &Expr{op: OVar, w: w, name: name, id: x.nextID, max: mask(w), vn: int32(len(x.vars))}
	x.nextID++
	x.vars[name] = e
	return e
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (x *ExprCtx) mk(op Op, w uint8, aux uint32, a, b, c *Expr) *Expr {
	k := exprKey{op: op, w: w, aux: aux}
	// consts have id 0: fold their value into key
	k.k = 1469598103934665603
	set := func(e *Expr, p *uint32) {
		if e == nil {
			return
		}
		if e.isConst() {
			*p = 0
			k.k = (k.k ^ (e.c + uint64(e.w)<<57)) * 1099511628211
		} else {
			*p = e.id
			k.k = (k.k ^ 0x9e3779b97f4a7c15) * 1099511628211
		}
	}
	set(a, &k.a)
	set(b, &k.b)
	set(c, &k.c)
	if e, ok := x.tab[k]; ok {
		if sameArg(e.a[0], a) && sameArg(e.a[1], b) && sameArg(e.a[2], c) {
			return e
		}
	}
	e := &Expr{op: op, w: w, aux: aux, a: [3]*Expr{a, b, c}, id: x.nextID, max: mask(w)}
	x.nextID++
	e.max = calcMax(e)
	x.tab[k] = e
	return e
}

func sameArg(a, b *Expr) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return a.isConst() && b.isConst() && a.c == b.c && a.w == b.w
}

func sameExpr(a, b *Expr) bool { return sameArg(a, b) }

func calcMax(e *Expr) uint64 {
	m := mask(e.w)
	switch e.op {
	case OZExt:
		return e.a[0].max
	case OAnd:
		return min(e.a[0].max, e.a[1].max)
	case OOr, OXor:
		t := e.a[0].max | e.a[1].max
		n := bits.Len64(t)
		if n >= 64 {
			return m
		}
		return min(m, 1<<n-1)
	case OAdd:
		s := e.a[0].max + e.a[1].max
		if s < e.a[0].max || s > m {
			return m
		}
		return s
	case OLShr:
		if e.a[1].isConst() {
			if e.a[1].c >= uint64(e.w) {
				return 0
			}
			return e.a[0].max >> e.a[1].c
		}
		return e.a[0].max
	case OShl:
		if e.a[1].isConst() && e.a[1].c < uint64(e.w) {
			if bits.Len64(e.a[0].max)+int(e.a[1].c) <= int(e.w) {
				return e.a[0].max << e.a[1].c
			}
		}
		return m
	case OMul:
		hi, lo := bits.Mul64(e.a[0].max, e.a[1].max)
		if hi == 0 && lo <= m {
			return lo
		}
		return m
	case OUDiv:
		if e.a[1].isConst() && e.a[1].c > 0 {
			return e.a[0].max / e.a[1].c
		}
	case OURem:
		if e.a[1].isConst() && e.a[1].c > 0 {
			return min(e.a[0].max, e.a[1].c-1)
		}
	case OIte:
		if e.w > 0 {
			return max(e.a[1].max, e.a[2].max)
		}
	case OExtract:
		lo := e.aux & 0xff
		if lo == 0 && e.a[0].max <= m {
			return e.a[0].max
		}
		return min(m, e.a[0].max>>lo)
	}
	return m
}

func foldBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		if b == 0 {
			if sx(a, w) < 0 {
				return 1
			}
			return m
		}
		if sx(b, w) == -1 {
			return (-a) & m
		}
		return uint64(sx(a, w)/sx(b, w)) & m
	case OSRem:
		if b == 0 {
			return a
		}
		if sx(b, w) == -1 {
			return 0
		}
		return uint64(sx(a, w)%sx(b, w)) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("foldBin")
}

// Bin builds a binary bit-vector operation (both operands of width w).
func (x *ExprCtx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if b.w != w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opName[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return mkConst(w, foldBin(op, w, a.c, b.c))
	}
	if a.isConst() && (op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor) {
		a, b = b, a
	}
	if b.isConst() {
		bc := b.c
		switch op {
		case OAdd, OSub, OOr, OXor, OShl, OLShr, OAShr:
			if bc == 0 {
				return a
			}
		case OMul:
			if bc == 0 {
				return b
			}
			if bc == 1 {
				return a
			}
			if bc&(bc-1) == 0 {
				return x.Bin(OShl, a, mkConst(w, uint64(bits.TrailingZeros64(bc))))
			}
		case OUDiv:
			if bc == 1 {
				return a
			}
			if bc != 0 && bc&(bc-1) == 0 {
				return x.Bin(OLShr, a, mkConst(w, uint64(bits.TrailingZeros64(bc))))
			}
		case OURem:
			if bc != 0 && bc&(bc-1) == 0 {
				return x.Bin(OAnd, a, mkConst(w, bc-1))
			}
		case OSDiv, OSRem:
			if bc != 0 && sx(bc, w) > 0 && a.max < 1<<(w-1) {
				if op == OSDiv {
					return x.Bin(OUDiv, a, b)
				}
				return x.Bin(OURem, a, b)
			}
		case OAnd:
			if bc == 0 {
				return b
			}
			if bc == mask(w) {
				return a
			}
			if bc&(bc+1) == 0 && a.max <= bc {
				return a
			}
			// low mask: turn into zext(extract)
			if bc&(bc+1) == 0 {
				n := uint8(bits.Len64(bc))
				return x.ZExt(x.Extract(a, n-1, 0), w)
			}
		}
		switch op {
		case OOr:
			if bc == mask(w) {
				return b
			}
		case OSub:
			return x.Bin(OAdd, a, mkConst(w, -bc))
		case OAdd:
			if a.op == OAdd && a.a[1].isConst() {
				return x.Bin(OAdd, a.a[0], mkConst(w, a.a[1].c+bc))
			}
		case OXor:
			if a.op == OXor && a.a[1].isConst() {
				return x.Bin(OXor, a.a[0], mkConst(w, a.a[1].c^bc))
			}
		case OShl:
			if bc >= uint64(w) {
				return mkConst(w, 0)
			}
			if a.op == OShl && a.a[1].isConst() {
				if s := bc + a.a[1].c; s < uint64(w) {
					return x.Bin(OShl, a.a[0], mkConst(w, s))
				}
				return mkConst(w, 0)
			}
		case OLShr:
			if bc >= uint64(w) {
				return mkConst(w, 0)
			}
			if a.max>>bc == 0 {
				return mkConst(w, 0)
			}
			return x.ZExt(x.Extract(a, w-1, uint8(bc)), w)
		}
	}
	if a == b {
		switch op {
		case OSub, OXor:
			return mkConst(w, 0)
		case OAnd, OOr:
			return a
		}
	}
	switch op {
	case OXor:
		// (a ^ c) ^ b, cancel
		if a.op == OXor {
			if a.a[0] == b {
				return a.a[1]
			}
			if a.a[1] == b {
				return a.a[0]
			}
		}
		if b.op == OXor {
			if b.a[0] == a {
				return b.a[1]
			}
			if b.a[1] == a {
				return b.a[0]
			}
		}
		if !a.isConst() && !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if a.op == OAdd {
			if a.a[0] == b {
				return a.a[1]
			}
			if a.a[1] == b {
				return a.a[0]
			}
		}
	case OOr, OAdd:
		// combine disjoint shifted pieces into concat
		if r := x.tryConcat(a, b, w); r != nil {
			return r
		}
		if !a.isConst() && !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OAnd, OMul:
		if !a.isConst() && !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	return x.mk(op, w, 0, a, b, nil)
}

// tryConcat recognises (hi << k) | lo with lo < 2^k, and rebuilds the value as
// zext(concat(hi', lo')).
func (x *ExprCtx) tryConcat(a, b *Expr, w uint8) *Expr {
	for i := 0; i < 2; i++ {
		if a.op == OShl && a.a[1].isConst() {
			k := a.a[1].c
			if k < 64 && b.max < 1<<k && !b.isConst() {
				h := a.a[0]
				hb := uint8(bits.Len64(h.max))
				if hb == 0 || uint64(hb)+k > uint64(w) {
					hb = w - uint8(k)
				}
				lo := x.Extract(b, uint8(k)-1, 0)
				hi := x.Extract(h, hb-1, 0)
				return x.ZExt(x.Concat(hi, lo), w)
			}
		}
		a, b = b, a
	}
	return nil
}

func (x *ExprCtx) Concat(hi, lo *Expr) *Expr {
	w := hi.w + lo.w
	if hi.isConst() && lo.isConst() {
		return mkConst(w, hi.c<<lo.w|lo.c)
	}
	if hi.isConst() && hi.c == 0 {
		return x.ZExt(lo, w)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.a[0] == lo.a[0] {
		hh, hl := hi.aux>>8, hi.aux&0xff
		lh, ll := lo.aux>>8, lo.aux&0xff
		if hl == lh+1 {
			return x.Extract(hi.a[0], uint8(hh), uint8(ll))
		}
	}
	// (concat hi (concat m l)) where hi,m adjacent extracts
	if lo.op == OConcat && hi.op == OExtract && lo.a[0].op == OExtract && hi.a[0] == lo.a[0].a[0] {
		if hi.aux&0xff == lo.a[0].aux>>8+1 {
			return x.Concat(x.Concat(hi, lo.a[0]), lo.a[1])
		}
	}
	if hi.op == OZExt {
		return x.ZExt(x.Concat(hi.a[0], lo), w)
	}
	return x.mk(OConcat, w, 0, hi, lo, nil)
}

func (x *ExprCtx) Extract(a *Expr, hi, lo uint8) *Expr {
	w := hi - lo + 1
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return mkConst(w, a.c>>lo)
	}
	if lo < 64 && a.max>>lo == 0 {
		return mkConst(w, 0)
	}
	switch a.op {
	case OExtract:
		l0 := uint8(a.aux & 0xff)
		return x.Extract(a.a[0], hi+l0, lo+l0)
	case OZExt:
		iw := a.a[0].w
		if lo >= iw {
			return mkConst(w, 0)
		}
		if hi < iw {
			return x.Extract(a.a[0], hi, lo)
		}
		return x.ZExt(x.Extract(a.a[0], iw-1, lo), w)
	case OSExt:
		if hi < a.a[0].w {
			return x.Extract(a.a[0], hi, lo)
		}
	case OConcat:
		lw := a.a[1].w
		if hi < lw {
			return x.Extract(a.a[1], hi, lo)
		}
		if lo >= lw {
			return x.Extract(a.a[0], hi-lw, lo-lw)
		}
		return x.Concat(x.Extract(a.a[0], hi-lw, 0), x.Extract(a.a[1], lw-1, lo))
	case OShl:
		if a.a[1].isConst() {
			k := uint8(a.a[1].c)
			if hi < k {
				return mkConst(w, 0)
			}
			if lo >= k {
				return x.Extract(a.a[0], hi-k, lo-k)
			}
		}
	case OAnd, OOr, OXor:
		return x.Bin(a.op, x.Extract(a.a[0], hi, lo), x.Extract(a.a[1], hi, lo))
	case ONot:
		return x.Not(x.Extract(a.a[0], hi, lo))
	case OIte:
		if a.a[1].isConst() || a.a[2].isConst() {
			return x.Ite(a.a[0], x.Extract(a.a[1], hi, lo), x.Extract(a.a[2], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return x.Bin(a.op, x.Extract(a.a[0], hi, 0), x.Extract(a.a[1], hi, 0))
		}
	}
	return x.mk(OExtract, w, uint32(hi)<<8|uint32(lo), a, nil, nil)
}

func (x *ExprCtx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrows")
	}
	if a.isConst() {
		return mkConst(w, a.c)
	}
	if a.op == OZExt {
		return x.ZExt(a.a[0], w)
	}
	return x.mk(OZExt, w, 0, a, nil, nil)
}

func (x *ExprCtx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, uint64(sx(a.c, a.w)))
	}
	if a.max < 1<<(a.w-1) {
		return x.ZExt(a, w)
	}
	return x.mk(OSExt, w, 0, a, nil, nil)
}

func (x *ExprCtx) Not(a *Expr) *Expr {
	if a.isConst() {
		return mkConst(a.w, ^a.c)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return x.mk(ONot, a.w, 0, a, nil, nil)
}

func (x *ExprCtx) Neg(a *Expr) *Expr {
	if a.isConst() {
		return mkConst(a.w, -a.c)
	}
	return x.mk(ONeg, a.w, 0, a, nil, nil)
}

func (x *ExprCtx) BNot(a *Expr) *Expr {
	if a.isConst() {
		return mkBool(a.c == 0)
	}
	switch a.op {
	case OBNot:
		return a.a[0]
	case OUlt:
		return x.Cmp(OUle, a.a[1], a.a[0])
	case OUle:
		return x.Cmp(OUlt, a.a[1], a.a[0])
	case OSlt:
		return x.Cmp(OSle, a.a[1], a.a[0])
	case OSle:
		return x.Cmp(OSlt, a.a[1], a.a[0])
	}
	return x.mk(OBNot, 0, 0, a, nil, nil)
}

func (x *ExprCtx) BAnd(a, b *Expr) *Expr {
	if a.isConst() {
		if a.c == 0 {
			return eFalse
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return eFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OBNot && a.a[0] == b || b.op == OBNot && b.a[0] == a {
		return eFalse
	}
	return x.mk(OBAnd, 0, 0, a, b, nil)
}

func (x *ExprCtx) BOr(a, b *Expr) *Expr {
	if a.isConst() {
		if a.c != 0 {
			return eTrue
		}
		return b
	}
	if b.isConst() {
		if b.c != 0 {
			return eTrue
		}
		return a
	}
	if a == b {
		return a
	}
	return x.mk(OBOr, 0, 0, a, b, nil)
}

func (x *ExprCtx) Ite(c, a, b *Expr) *Expr {
	if c.isConst() {
		if c.c != 0 {
			return a
		}
		return b
	}
	if sameExpr(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.c != 0 {
				return x.BOr(c, b)
			}
			return x.BAnd(x.BNot(c), b)
		}
		if b.isConst() {
			if b.c != 0 {
				return x.BOr(x.BNot(c), a)
			}
			return x.BAnd(c, a)
		}
	}
	return x.mk(OIte, a.w, 0, c, a, b)
}

func (x *ExprCtx) Eq(a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.c == b.c)
	}
	if a == b {
		return eTrue
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c != 0 {
				return a
			}
			return x.BNot(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c > a.max {
			return eFalse
		}
		switch a.op {
		case OZExt:
			return x.Eq(a.a[0], mkConst(a.a[0].w, b.c))
		case OConcat:
			lw := a.a[1].w
			return x.BAnd(x.Eq(a.a[0], mkConst(a.a[0].w, b.c>>lw)), x.Eq(a.a[1], mkConst(lw, b.c)))
		case OAdd:
			if a.a[1].isConst() {
				return x.Eq(a.a[0], mkConst(a.w, b.c-a.a[1].c))
			}
		case OXor:
			if a.a[1].isConst() {
				return x.Eq(a.a[0], mkConst(a.w, b.c^a.a[1].c))
			}
			if b.c == 0 {
				return x.Eq(a.a[0], a.a[1])
			}
		case OIte:
			if a.a[1].isConst() && a.a[2].isConst() {
				t, f := a.a[1].c == b.c, a.a[2].c == b.c
				switch {
				case t && f:
					return eTrue
				case t:
					return a.a[0]
				case f:
					return x.BNot(a.a[0])
				default:
					return eFalse
				}
			}
			if a.a[1].isConst() || a.a[2].isConst() {
				return x.Ite(a.a[0], x.Eq(a.a[1], b), x.Eq(a.a[2], b))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt {
			w := max(a.a[0].w, b.a[0].w)
			return x.Eq(x.ZExt(a.a[0], w), x.ZExt(b.a[0], w))
		}
		if a.op == OConcat && b.op == OConcat && a.a[1].w == b.a[1].w {
			return x.BAnd(x.Eq(a.a[0], b.a[0]), x.Eq(a.a[1], b.a[1]))
		}
		// cancel common xor operand
		if a.op == OXor && b.op == OXor {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if sameExpr(a.a[i], b.a[j]) {
						return x.Eq(a.a[1-i], b.a[1-j])
					}
				}
			}
		}
		if a.op == OXor && (a.a[0] == b || a.a[1] == b) {
			o := a.a[0]
			if o == b {
				o = a.a[1]
			}
			return x.Eq(o, mkConst(a.w, 0))
		}
		if b.op == OXor && (b.a[0] == a || b.a[1] == a) {
			o := b.a[0]
			if o == a {
				o = b.a[1]
			}
			return x.Eq(o, mkConst(a.w, 0))
		}
		if a.op == OAdd && b.op == OAdd && a.a[1].isConst() && b.a[1].isConst() && a.a[0] == b.a[0] {
			return mkBool(a.a[1].c == b.a[1].c)
		}
		if a.op == OAdd && a.a[0] == b && a.a[1].isConst() || b.op == OAdd && b.a[0] == a && b.a[1].isConst() {
			return eFalse // x+c == x with c != 0
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return x.mk(OEq, 0, 0, a, b, nil)
}

func (x *ExprCtx) Cmp(op Op, a, b *Expr) *Expr {
	if a.w != b.w {
		panic("cmp width mismatch")
	}
	if a.isConst() && b.isConst() {
		switch op {
		case OUlt:
			return mkBool(a.c < b.c)
		case OUle:
			return mkBool(a.c <= b.c)
		case OSlt:
			return mkBool(sx(a.c, a.w) < sx(b.c, b.w))
		case OSle:
			return mkBool(sx(a.c, a.w) <= sx(b.c, b.w))
		}
	}
	if a == b {
		return mkBool(op == OUle || op == OSle)
	}
	half := uint64(1) << (a.w - 1)
	if (op == OSlt || op == OSle) && a.max < half && b.max < half {
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	}
	if op == OSlt || op == OSle {
		// non-negative vs negative constant
		if a.max < half && b.isConst() && b.c >= half {
			return eFalse
		}
		if b.max < half && a.isConst() && a.c >= half {
			return eTrue
		}
	}
	switch op {
	case OUlt:
		if b.isConst() && b.c == 0 {
			return eFalse
		}
		if b.isConst() && a.max < b.c {
			return eTrue
		}
		if a.isConst() && b.max <= a.c {
			return eFalse
		}
		if b.isConst() && b.c == 1 {
			return x.Eq(a, mkConst(a.w, 0))
		}
	case OUle:
		if a.isConst() && a.c == 0 {
			return eTrue
		}
		if b.isConst() && a.max <= b.c {
			return eTrue
		}
		if a.isConst() && b.max < a.c {
			return eFalse
		}
		if b.isConst() && b.c == 0 {
			return x.Eq(a, b)
		}
	}
	if op == OUlt || op == OUle {
		if a.op == OZExt && b.isConst() && b.c <= mask(a.a[0].w) {
			return x.Cmp(op, a.a[0], mkConst(a.a[0].w, b.c))
		}
		if b.op == OZExt && a.isConst() && a.c <= mask(b.a[0].w) {
			return x.Cmp(op, mkConst(b.a[0].w, a.c), b.a[0])
		}
		if a.op == OZExt && b.op == OZExt {
			w := max(a.a[0].w, b.a[0].w)
			if w < a.w {
				return x.Cmp(op, x.ZExt(a.a[0], w), x.ZExt(b.a[0], w))
			}
		}
	}
	return x.mk(op, 0, 0, a, b, nil)
}

// ---- evaluation under a model ----

func (w *Worker) eval(e *Expr) uint64 {
	if e.op == OConst {
		return e.c
	}
	if e.epoch == w.evalEpoch {
		return e.ev
	}
	var v uint64
	switch e.op {
	case OVar:
		v = w.model[e.name]
	case OIte:
		if w.eval(e.a[0]) != 0 {
			v = w.eval(e.a[1])
		} else {
			v = w.eval(e.a[2])
		}
	case OBAnd:
		if w.eval(e.a[0]) != 0 {
			v = w.eval(e.a[1])
		}
	case OBOr:
		if w.eval(e.a[0]) != 0 {
			v = 1
		} else {
			v = w.eval(e.a[1])
		}
	case OBNot:
		v = 1 - w.eval(e.a[0])
	case OEq:
		if w.eval(e.a[0]) == w.eval(e.a[1]) {
			v = 1
		}
	case OUlt:
		if w.eval(e.a[0]) < w.eval(e.a[1]) {
			v = 1
		}
	case OUle:
		if w.eval(e.a[0]) <= w.eval(e.a[1]) {
			v = 1
		}
	case OSlt:
		if sx(w.eval(e.a[0]), e.a[0].w) < sx(w.eval(e.a[1]), e.a[0].w) {
			v = 1
		}
	case OSle:
		if sx(w.eval(e.a[0]), e.a[0].w) <= sx(w.eval(e.a[1]), e.a[0].w) {
			v = 1
		}
	case ONot:
		v = ^w.eval(e.a[0]) & mask(e.w)
	case ONeg:
		v = -w.eval(e.a[0]) & mask(e.w)
	case OExtract:
		v = w.eval(e.a[0]) >> (e.aux & 0xff) & mask(e.w)
	case OZExt:
		v = w.eval(e.a[0])
	case OSExt:
		v = uint64(sx(w.eval(e.a[0]), e.a[0].w)) & mask(e.w)
	case OConcat:
		v = w.eval(e.a[0])<<e.a[1].w | w.eval(e.a[1])
	default:
		v = foldBin(e.op, e.w, w.eval(e.a[0]), w.eval(e.a[1]))
	}
	e.ev = v
	e.epoch = w.evalEpoch
	return v
}

// ---- SMT-LIB printing ----

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (e *Expr) ref(sb *strings.Builder) {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.c != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", e.c, e.w)
	case OVar:
		sb.WriteString(e.name)
	default:
		fmt.Fprintf(sb, "e%d", e.id)
	}
}

func (e *Expr) body(sb *strings.Builder) {
	sb.WriteByte('(')
	switch e.op {
	case OExtract:
		fmt.Fprintf(sb, "(_ extract %d %d)", e.aux>>8, e.aux&0xff)
	case OZExt:
		fmt.Fprintf(sb, "(_ zero_extend %d)", e.w-e.a[0].w)
	case OSExt:
		fmt.Fprintf(sb, "(_ sign_extend %d)", e.w-e.a[0].w)
	default:
		sb.WriteString(opName[e.op])
	}
	for _, a := range e.a {
		if a != nil {
			sb.WriteByte(' ')
			a.ref(sb)
		}
	}
	sb.WriteByte(')')
}
