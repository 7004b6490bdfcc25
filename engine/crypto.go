package main

import (
	"bytes"
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rsa"
	_ "crypto/sha1"
	"crypto/sha256"
	_ "crypto/sha512"
	"encoding/asn1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Cryptographic primitives are modelled as ideal functions over byte vectors:
// applied to concrete bytes they run natively (and their provenance is
// recorded); applied to symbolic bytes they yield fresh leaves, and two
// outputs are equal exactly when their inputs are.

type Leaf struct {
	alg  string
	in   [][]*Expr
	vars []*Expr
	id   int
}

type provEntry struct {
	alg string
	in  [][]*Expr
	out []byte
}

type sealEntry struct {
	key, nonce, aad, pt, ct []*Expr
}

type sigEntry struct {
	kind   string
	pub    interface{}
	digest []*Expr
	sig    []byte
	r, s   *big.Int
	hash   uint64
	opts   string
}

type cryptoState struct {
	leaves map[string]*Leaf
	prov   map[string]*provEntry
	eqMemo map[[2]int]*Expr
	seals  []*sealEntry
	sealIx map[string]*sealEntry
	sigs   []*sigEntry
	certs  [][]byte
	pubs   [][]byte
	notes  map[string]bool
	nleaf  int
	dhPriv map[string][]*Expr // private key of each concrete X25519 public key
}

func newCryptoState() *cryptoState {
	return &cryptoState{leaves: map[string]*Leaf{}, prov: map[string]*provEntry{}, eqMemo: map[[2]int]*Expr{}, sealIx: map[string]*sealEntry{}, notes: map[string]bool{}}
}

func (c *cryptoState) note(s string) { c.notes[s] = true }

func (c *cryptoState) addCert(der []byte) {
	for _, k := range c.certs {
		if bytes.Equal(k, der) {
			return
		}
	}
	c.certs = append(c.certs, der)
}

func (w *Worker) randBytes(n int) []byte {
	r := make([]byte, n)
	var ctr [16]byte
	copy(ctr[8:], "mintrand")
	for i := 0; i < n; {
		w.rng++
		binary.BigEndian.PutUint64(ctr[:], w.rng)
		h := sha256.Sum256(ctr[:])
		i += copy(r[i:], h[:])
	}
	return r
}

func partsKey(alg string, parts [][]*Expr) string {
	var sb strings.Builder
	sb.WriteString(alg)
	var tmp [10]byte
	for _, p := range parts {
		fmt.Fprintf(&sb, "|%d:", len(p))
		for _, e := range p {
			if e.isConst() {
				sb.WriteByte('c')
				sb.WriteByte(byte(e.c))
			} else {
				sb.WriteByte('v')
				n := binary.PutUvarint(tmp[:], uint64(e.id))
				sb.Write(tmp[:n])
			}
		}
	}
	return sb.String()
}

// apply evaluates the ideal function alg.
func (w *Worker) apply(alg string, outLen int, parts [][]*Expr, native func(parts [][]byte) []byte) []*Expr {
	conc := make([][]byte, len(parts))
	all := true
	for i, p := range parts {
		b, ok := concreteBytes(p)
		if !ok {
			all = false
			break
		}
		conc[i] = b
	}
	cs := w.cry
	if all {
		out := native(conc)
		k := alg + string(out[:min(8, len(out))])
		if cs.prov[k] == nil {
			cp := make([][]*Expr, len(parts))
			for i, p := range parts {
				cp[i] = append([]*Expr(nil), p...)
			}
			cs.prov[k] = &provEntry{alg, cp, out}
		}
		return constBytes(out)
	}
	k := partsKey(alg, parts)
	l := cs.leaves[k]
	if l == nil {
		cs.nleaf++
		l = &Leaf{alg: alg, id: cs.nleaf}
		l.in = make([][]*Expr, len(parts))
		for i, p := range parts {
			l.in[i] = append([]*Expr(nil), p...)
		}
		l.vars = make([]*Expr, outLen)
		for i := range l.vars {
			v := w.newAux(fmt.Sprintf("%s_%d_%d", sanitize(alg), l.id, i), 8)
			v.leaf = l
			v.aux = uint32(i)
			l.vars[i] = v
		}
		cs.leaves[k] = l
	}
	return l.vars
}

// eqBytes builds the equality of two equally long byte vectors.
func (w *Worker) eqBytes(a, b []*Expr) *Expr {
	if len(a) != len(b) {
		return eFalse
	}
	r := eTrue
	n := len(a)
	for i := 0; i < n; {
		la, lb := a[i].leaf, b[i].leaf
		if la == nil && lb == nil {
			if a[i].isConst() && b[i].isConst() {
				if a[i].c != b[i].c {
					return eFalse
				}
			} else {
				r = w.x.BAnd(r, w.x.Eq(a[i], b[i]))
				if r == eFalse {
					return eFalse
				}
			}
			i++
			continue
		}
		j := i
		for j < n && a[j].leaf == la && b[j].leaf == lb &&
			(la == nil || a[j].aux == a[i].aux+uint32(j-i)) && (lb == nil || b[j].aux == b[i].aux+uint32(j-i)) {
			j++
		}
		if j-i < 4 {
			for k := i; k < j; k++ {
				r = w.x.BAnd(r, w.x.Eq(a[k], b[k]))
			}
			i = j
			continue
		}
		var e *Expr
		switch {
		case la != nil && lb != nil:
			switch {
			case la == lb:
				e = mkBool(a[i].aux == b[i].aux)
			case la.alg != lb.alg || a[i].aux != b[i].aux:
				e = eFalse
			default:
				e = w.eqLeaves(la, lb)
			}
		case la != nil:
			e = w.eqLeafOther(la, a[i:j], b[i:j])
		default:
			e = w.eqLeafOther(lb, b[i:j], a[i:j])
		}
		r = w.x.BAnd(r, e)
		if r == eFalse {
			return eFalse
		}
		i = j
	}
	return r
}

func (w *Worker) eqLeaves(a, b *Leaf) *Expr {
	k := [2]int{a.id, b.id}
	if a.id > b.id {
		k = [2]int{b.id, a.id}
	}
	if e, ok := w.cry.eqMemo[k]; ok {
		return e
	}
	e := w.eqParts(a.in, b.in)
	w.cry.eqMemo[k] = e
	return e
}

func (w *Worker) eqParts(a, b [][]*Expr) *Expr {
	if len(a) != len(b) {
		return eFalse
	}
	r := eTrue
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return eFalse
		}
	}
	for i := range a {
		r = w.x.BAnd(r, w.eqBytes(a[i], b[i]))
		if r == eFalse {
			return r
		}
	}
	return r
}

// eqLeafOther compares leaf bytes with bytes that are not a leaf.
func (w *Worker) eqLeafOther(l *Leaf, lb, ob []*Expr) *Expr {
	c, ok := concreteBytes(ob)
	if ok {
		off := int(lb[0].aux)
		for _, p := range w.cry.prov {
			if p.alg == l.alg && off+len(c) <= len(p.out) && bytes.Equal(p.out[off:off+len(c)], c) {
				return w.eqParts(l.in, p.in)
			}
		}
		return eFalse
	}
	// partly symbolic, attacker-chosen bytes: they cannot equal an output the
	// attacker does not hold, other than by copying it; copies are leaves.
	r := eTrue
	for i := range lb {
		r = w.x.BAnd(r, w.x.Eq(lb[i], ob[i]))
	}
	return r
}

// ---- hashes ----

func cryptoHash(v uint64) crypto.Hash { return crypto.Hash(v) }

type hashData struct {
	h   crypto.Hash
	b   []*Expr
	key []*Expr // hmac
	mac bool
}

func (h *hashData) clone() interface{} {
	c := *h
	c.b = append([]*Expr(nil), h.b...)
	return &c
}

func (w *Worker) newHash(h crypto.Hash) Iface {
	if !h.Available() {
		w.doPanic(Iface{types.Typ[types.String], "crypto: requested hash function #" + fmt.Sprint(uint(h)) + " is unavailable"})
	}
	return Iface{opHash, &Native{"hash", &hashData{h: h}}}
}

func (w *Worker) hashSum(h *hashData) []*Expr {
	if h.mac {
		bs := h.h.New().BlockSize()
		key := h.key
		if len(key) > bs {
			key = w.apply("H"+h.h.String(), h.h.Size(), [][]*Expr{key}, func(p [][]byte) []byte {
				x := h.h.New()
				x.Write(p[0])
				return x.Sum(nil)
			})
		}
		k := make([]*Expr, bs)
		copy(k, key)
		for i := len(key); i < bs; i++ {
			k[i] = smallConsts[8][0]
		}
		return w.apply("MAC"+h.h.String(), h.h.Size(), [][]*Expr{k, h.b}, func(p [][]byte) []byte {
			x := hmac.New(h.h.New, p[0])
			x.Write(p[1])
			return x.Sum(nil)
		})
	}
	return w.apply("H"+h.h.String(), h.h.Size(), [][]*Expr{h.b}, func(p [][]byte) []byte {
		x := h.h.New()
		x.Write(p[0])
		return x.Sum(nil)
	})
}

func (w *Worker) hashMethod(n *Native, name string, args []Value) Value {
	h := n.d.(*hashData)
	switch name {
	case "Write":
		b := w.sliceBytes(args[1])
		h.b = append(h.b, b...)
		return Tuple{mkConst(64, uint64(len(b))), nilErr}
	case "Sum":
		out := w.hashSum(h)
		return w.appendBytes(args[1].(Slice), out)
	case "Reset":
		h.b = nil
		return nil
	case "Size":
		return mkConst(64, uint64(h.h.Size()))
	case "BlockSize":
		return mkConst(64, uint64(h.h.New().BlockSize()))
	}
	w.unsupported("hash." + name)
	return nil
}

func (w *Worker) appendBytes(s Slice, b []*Expr) Slice {
	vals := make([]Value, len(b))
	for i, e := range b {
		vals[i] = e
	}
	if s.arr == nil && len(b) == 0 {
		return s
	}
	return w.appendVals(s, vals, types.Typ[types.Uint8])
}

// ---- AEAD ----

type gcmData struct {
	key      []*Expr
	nonceLen int
}

func (w *Worker) nativeGCM(key []byte, n int) cipher.AEAD {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	g, err := cipher.NewGCMWithNonceSize(blk, n)
	if err != nil {
		panic(err)
	}
	return g
}

func (w *Worker) gcmMethod(n *Native, name string, args []Value) Value {
	g := n.d.(*gcmData)
	switch name {
	case "NonceSize":
		return mkConst(64, uint64(g.nonceLen))
	case "Overhead":
		return mkConst(64, 16)
	case "Seal":
		nonce, pt, aad := w.sliceBytes(args[2]), w.sliceBytes(args[3]), w.sliceBytes(args[4])
		if len(nonce) != g.nonceLen {
			w.doPanic(Iface{types.Typ[types.String], "crypto/cipher: incorrect nonce length given to GCM"})
		}
		var ct []*Expr
		ck, ok1 := concreteBytes(g.key)
		cn, ok2 := concreteBytes(nonce)
		cp, ok3 := concreteBytes(pt)
		ca, ok4 := concreteBytes(aad)
		if ok1 && ok2 && ok3 && ok4 {
			ct = constBytes(w.nativeGCM(ck, g.nonceLen).Seal(nil, cn, cp, ca))
		} else {
			ct = constBytes(w.randBytes(len(pt) + 16))
		}
		e := &sealEntry{g.key, nonce, aad, pt, ct}
		w.cry.seals = append(w.cry.seals, e)
		return w.appendBytes(args[1].(Slice), ct)
	case "Open":
		nonce, ct, aad := w.sliceBytes(args[2]), w.sliceBytes(args[3]), w.sliceBytes(args[4])
		if len(nonce) != g.nonceLen {
			w.doPanic(Iface{types.Typ[types.String], "crypto/cipher: incorrect nonce length given to GCM"})
		}
		fail := Tuple{Slice{}, w.newError("cipher: message authentication failed")}
		if len(ct) < 16 {
			return fail
		}
		for _, e := range w.cry.seals {
			if len(e.ct) != len(ct) || len(e.key) != len(g.key) || len(e.nonce) != len(nonce) || len(e.aad) != len(aad) {
				continue
			}
			c := w.eqBytes(ct, e.ct)
			if c == eFalse {
				continue
			}
			c = w.x.BAnd(c, w.eqBytes(aad, e.aad))
			c = w.x.BAnd(c, w.eqBytes(nonce, e.nonce))
			c = w.x.BAnd(c, w.eqBytes(g.key, e.key))
			if w.branch(c) {
				return Tuple{w.appendBytes(args[1].(Slice), e.pt), nilErr}
			}
		}
		ck, ok1 := concreteBytes(g.key)
		cn, ok2 := concreteBytes(nonce)
		cc, ok3 := concreteBytes(ct)
		ca, ok4 := concreteBytes(aad)
		if ok1 && ok2 && ok3 && ok4 {
			pt, err := w.nativeGCM(ck, g.nonceLen).Open(nil, cn, cc, ca)
			if err != nil {
				return fail
			}
			return Tuple{w.appendBytes(args[1].(Slice), constBytes(pt)), nilErr}
		}
		return fail
	}
	w.unsupported("gcm." + name)
	return nil
}

func (w *Worker) boxGCM(key []*Expr, n int) Value {
	return Tuple{Iface{opGCM, &Native{"gcm", &gcmData{key, n}}}, nilErr}
}

// ---- signatures ----

func (w *Worker) pssOptions(c *Cell) reflect.Value {
	s := c.v.(*Struct)
	return reflect.ValueOf(&rsa.PSSOptions{SaltLength: int(sx(s.f[0].v.(*Expr).c, 64)), Hash: crypto.Hash(s.f[1].v.(*Expr).c)})
}

func (w *Worker) optsKey(v Value) (string, crypto.SignerOpts) {
	i := v.(Iface)
	if i.t == nil {
		return "nil", nil
	}
	if e, ok := i.v.(*Expr); ok {
		h := crypto.Hash(w.concretize(e))
		return fmt.Sprintf("hash%d", h), h
	}
	o := w.pssOptions(i.v.(*Cell)).Interface().(*rsa.PSSOptions)
	return fmt.Sprintf("pss%d-%d", o.SaltLength, o.Hash), o
}

var (
	sigMu    sync.Mutex
	sigCache = map[string][]byte{}
)

// stableSign makes signing deterministic, so that every execution of a path
// sees the same signature for the same key and digest (the library's signers
// are randomised whatever their random source).
func stableSign(kind string, pub interface{}, okey string, d []byte, do func(d []byte) ([]byte, error)) ([]byte, error) {
	id := fmt.Sprintf("%s|%s|%v|%x", kind, okey, pub, d)
	sigMu.Lock()
	defer sigMu.Unlock()
	if s, ok := sigCache[id]; ok {
		return s, nil
	}
	s, err := do(d)
	if err == nil {
		sigCache[id] = s
	}
	return s, err
}

func (w *Worker) sign(kind string, pub interface{}, digest []*Expr, okey string, do func(d []byte) ([]byte, error)) Value {
	d, conc := concreteBytes(digest)
	if !conc {
		d = w.randBytes(len(digest))
	}
	sig, err := stableSign(kind, pub, okey, d, do)
	if err != nil {
		return Tuple{Slice{}, w.newError(err.Error())}
	}
	e := &sigEntry{kind: kind, pub: pub, digest: append([]*Expr(nil), digest...), sig: sig, opts: okey}
	if kind == "ecdsa" {
		var rs struct{ R, S *big.Int }
		asn1.Unmarshal(sig, &rs)
		e.r, e.s = rs.R, rs.S
	}
	w.cry.sigs = append(w.cry.sigs, e)
	return Tuple{mkBytes(sig), nilErr}
}

func pubEq(a, b interface{}) bool {
	switch x := a.(type) {
	case *ecdsa.PublicKey:
		y, ok := b.(*ecdsa.PublicKey)
		return ok && x.Equal(y)
	case *rsa.PublicKey:
		y, ok := b.(*rsa.PublicKey)
		return ok && x.Equal(y)
	}
	return false
}

// verifyRSA decides an RSA signature check.
func (w *Worker) verifyRSA(pub interface{}, digest, sig []*Expr, okey string, native func(d, s []byte) error) Value {
	for _, e := range w.cry.sigs {
		if e.kind != "rsa" || e.opts != okey || !pubEq(e.pub, pub) || len(e.sig) != len(sig) || len(e.digest) != len(digest) {
			continue
		}
		c := w.x.BAnd(w.eqBytes(sig, constBytes(e.sig)), w.eqBytes(digest, e.digest))
		if w.branch(c) {
			return nilErr
		}
	}
	d, ok1 := concreteBytes(digest)
	s, ok2 := concreteBytes(sig)
	if ok1 && ok2 {
		if err := native(d, s); err == nil {
			return nilErr
		}
	}
	return w.newError("crypto/rsa: verification error")
}

func addCrypto(m map[string]intrinsic) {
	mh := func(name string, f func(w *Worker, h crypto.Hash, a []Value) Value) {
		m["(crypto.Hash)."+name] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			return f(w, crypto.Hash(w.concretize(a[0].(*Expr))), a[1:])
		}
	}
	mh("New", func(w *Worker, h crypto.Hash, a []Value) Value { return w.newHash(h) })
	mh("Size", func(w *Worker, h crypto.Hash, a []Value) Value {
		if h == 0 || h > crypto.BLAKE2b_512 {
			w.doPanic(Iface{types.Typ[types.String], "crypto: Size of unknown hash function"})
		}
		return mkConst(64, uint64(h.Size()))
	})
	mh("Available", func(w *Worker, h crypto.Hash, a []Value) Value { return mkBool(h.Available()) })
	mh("HashFunc", func(w *Worker, h crypto.Hash, a []Value) Value { return mkConst(64, uint64(h)) })
	mh("String", func(w *Worker, h crypto.Hash, a []Value) Value { return h.String() })
	for name, h := range map[string]crypto.Hash{"crypto/sha256.New": crypto.SHA256, "crypto/sha1.New": crypto.SHA1, "crypto/sha512.New": crypto.SHA512, "crypto/sha512.New384": crypto.SHA384} {
		h := h
		m[name] = func(w *Worker, fn *ssa.Function, a []Value) Value { return w.newHash(h) }
	}
	m["crypto/sha256.Sum256"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		out := w.hashSum(&hashData{h: crypto.SHA256, b: w.sliceBytes(a[0])})
		arr := &Array{n: 32, zero: constFn(mkConst(8, 0))}
		for i, e := range out {
			arr.set(i, e)
		}
		return arr
	}
	m["crypto/hmac.New"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		hi := w.callValue(a[0], nil, nil).(Iface)
		h := hi.v.(*Native).d.(*hashData)
		return Iface{opHMAC, &Native{"hmac", &hashData{h: h.h, mac: true, key: append([]*Expr(nil), w.sliceBytes(a[1])...)}}}
	}
	m["crypto/aes.NewCipher"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		k := append([]*Expr(nil), w.sliceBytes(a[0])...)
		switch len(k) {
		case 16, 24, 32:
			return Tuple{Iface{opAES, &Native{"aes", &k}}, nilErr}
		}
		return Tuple{Iface{}, w.newError(fmt.Sprintf("crypto/aes: invalid key size %d", len(k)))}
	}
	m["crypto/cipher.NewGCM"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return w.boxGCM(*i.v.(*Native).d.(*[]*Expr), 12)
	}
	m["crypto/cipher.NewGCMWithNonceSize"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return w.boxGCM(*i.v.(*Native).d.(*[]*Expr), int(w.concretize(a[1].(*Expr))))
	}
	m["crypto/rand.Read"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		b := a[0].(Slice)
		for i, c := range w.randBytes(b.len) {
			b.arr.set(b.off+i, smallConsts[8][c])
		}
		return Tuple{mkConst(64, uint64(b.len)), nilErr}
	}

	// ECDSA
	m["(*crypto/ecdsa.PrivateKey).Sign"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		nilCheck(w, a[0])
		k := asNative(a[0]).d.(*ecdsa.PrivateKey)
		return w.sign("ecdsa", &k.PublicKey, w.sliceBytes(a[2]), "", func(d []byte) ([]byte, error) {
			return ecdsa.SignASN1(&detReader{w}, k, d)
		})
	}
	m["(*crypto/ecdsa.PrivateKey).Public"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		nilCheck(w, a[0])
		k := asNative(a[0]).d.(*ecdsa.PrivateKey)
		t := w.p.ptrTo(w.p.lookupType("crypto/ecdsa", "PublicKey"))
		return Iface{t, &Cell{goBox(&k.PublicKey)}}
	}
	m["crypto/ecdsa.Verify"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		nilCheck(w, a[0])
		pub := asNative(a[0]).d.(*ecdsa.PublicKey)
		digest := w.sliceBytes(a[1])
		rn, sn := asNative(a[2]), asNative(a[3])
		if rn == nil || sn == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		r, s := rn.d.(*big.Int), sn.d.(*big.Int)
		for _, e := range w.cry.sigs {
			if e.kind != "ecdsa" || e.r == nil || e.r.Cmp(r) != 0 || e.s.Cmp(s) != 0 || !pubEq(e.pub, pub) || len(e.digest) != len(digest) {
				continue
			}
			if w.branch(w.eqBytes(digest, e.digest)) {
				return eTrue
			}
		}
		if d, ok := concreteBytes(digest); ok {
			return mkBool(ecdsa.Verify(pub, d, r, s))
		}
		return eFalse
	}
	m["encoding/asn1.Unmarshal"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		b := w.sliceBytes(a[0])
		dst := a[1].(Iface)
		cell, ok := dst.v.(*Cell)
		if !ok || cell == nil {
			w.unsupported("asn1.Unmarshal target")
		}
		st, ok := cell.v.(*Struct)
		if !ok || len(st.f) != 2 {
			w.unsupported("asn1.Unmarshal target shape")
		}
		sig, conc := concreteBytes(b)
		if !conc {
			for _, e := range w.cry.sigs {
				if len(e.sig) == len(b) && w.branch(w.eqBytes(b, constBytes(e.sig))) {
					sig, conc = e.sig, true
					break
				}
			}
			if !conc {
				w.cry.note("symbolic signature bytes equal to no honest signature are treated as invalid")
				return Tuple{Slice{}, w.newError("asn1: structure error")}
			}
		}
		var rs struct{ R, S *big.Int }
		rest, err := asn1.Unmarshal(sig, &rs)
		if err != nil {
			return Tuple{Slice{}, w.newError(err.Error())}
		}
		st.f[0].v = &Cell{goBox(rs.R)}
		st.f[1].v = &Cell{goBox(rs.S)}
		return Tuple{mkBytes(rest), nilErr}
	}
	// RSA
	m["(*crypto/rsa.PrivateKey).Sign"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		nilCheck(w, a[0])
		k := asNative(a[0]).d.(*rsa.PrivateKey)
		okey, opts := w.optsKey(a[3])
		return w.sign("rsa", &k.PublicKey, w.sliceBytes(a[2]), okey, func(d []byte) ([]byte, error) {
			return k.Sign(&detReader{w}, d, opts)
		})
	}
	m["(*crypto/rsa.PrivateKey).Public"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		nilCheck(w, a[0])
		k := asNative(a[0]).d.(*rsa.PrivateKey)
		t := w.p.ptrTo(w.p.lookupType("crypto/rsa", "PublicKey"))
		return Iface{t, &Cell{goBox(&k.PublicKey)}}
	}
	m["crypto/rsa.VerifyPSS"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		pub := asNative(a[0]).d.(*rsa.PublicKey)
		h := crypto.Hash(w.concretize(a[1].(*Expr)))
		opts := w.pssOptions(a[4].(*Cell)).Interface().(*rsa.PSSOptions)
		return w.verifyRSA(pub, w.sliceBytes(a[2]), w.sliceBytes(a[3]), fmt.Sprintf("pss%d-%d", opts.SaltLength, opts.Hash), func(d, s []byte) error {
			return rsa.VerifyPSS(pub, h, d, s, opts)
		})
	}
	m["crypto/rsa.VerifyPKCS1v15"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		pub := asNative(a[0]).d.(*rsa.PublicKey)
		h := crypto.Hash(w.concretize(a[1].(*Expr)))
		return w.verifyRSA(pub, w.sliceBytes(a[2]), w.sliceBytes(a[3]), fmt.Sprintf("hash%d", h), func(d, s []byte) error {
			return rsa.VerifyPKCS1v15(pub, h, d, s)
		})
	}

	// DH
	m["golang.org/x/crypto/curve25519.ScalarBaseMult"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		w.setArray(a[0], w.x25519Base(w.arrayBytes(a[1])))
		return nil
	}
	m["golang.org/x/crypto/curve25519.ScalarMult"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		out := w.x25519(w.arrayBytes(a[1]), w.arrayBytes(a[2]))
		w.setArray(a[0], out)
		return nil
	}
	m["golang.org/x/crypto/curve25519.X25519"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		out := w.x25519(w.sliceBytes(a[0]), w.sliceBytes(a[1]))
		zero := w.eqBytes(out, constBytes(make([]byte, 32)))
		if w.branch(zero) {
			return Tuple{Slice{}, w.newError("bad input point: low order point")}
		}
		return Tuple{mkByteSlice(append([]*Expr(nil), out...)), nilErr}
	}
	m["crypto/elliptic.Unmarshal"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		cn := asNative(a[0].(Iface).v)
		if cn == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		crv := cn.d.(elliptic.Curve)
		b := w.sliceBytes(a[1])
		data, conc := concreteBytes(b)
		if !conc {
			data = w.splitPoint(crv, b)
		}
		x, y := elliptic.Unmarshal(crv, data)
		if x == nil {
			return Tuple{nilCell, nilCell}
		}
		return Tuple{&Cell{goBox(x)}, &Cell{goBox(y)}}
	}
	m["crypto/elliptic.Marshal"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		crv := asNative(a[0].(Iface).v).d.(elliptic.Curve)
		out := elliptic.Marshal(crv, asNative(a[1]).d.(*big.Int), asNative(a[2]).d.(*big.Int))
		w.cry.addPub(out)
		return mkBytes(out)
	}
}

func (c *cryptoState) addPub(b []byte) {
	for _, k := range c.pubs {
		if bytes.Equal(k, b) {
			return
		}
	}
	c.pubs = append(c.pubs, b)
}

// splitPoint case-splits symbolic point bytes: a public key of this session,
// the attacker's own key, a point off the curve, or a malformed encoding.
func (w *Worker) splitPoint(crv elliptic.Curve, b []*Expr) []byte {
	for _, k := range w.cry.pubs {
		if len(k) == len(b) && w.branch(w.eqBytes(b, constBytes(k))) {
			return k
		}
	}
	p := crv.Params()
	att := elliptic.Marshal(crv, p.Gx, p.Gy)
	if len(att) == len(b) && w.branch(w.eqBytes(b, constBytes(att))) {
		return att
	}
	off := append([]byte(nil), att...)
	off[len(off)-1] ^= 1
	if len(off) == len(b) && w.branch(w.eqBytes(b, constBytes(off))) {
		return off
	}
	w.cry.note("symbolic EC points: session keys, the generator, one off-curve point, or malformed encodings")
	if len(b) > 0 {
		w.assume(w.x.BNot(w.x.Eq(b[0], mkConst(8, 4))))
	}
	bad := make([]byte, len(b))
	return bad
}

var x25519Base = func() []byte { b := make([]byte, 32); b[0] = 9; return b }()

func (w *Worker) x25519(priv, pub []*Expr) []*Expr {
	if eq, _ := concreteBytes(pub); eq != nil && bytes.Equal(eq, x25519Base) {
		return w.x25519Base(priv)
	}
	cp, ok := concreteBytes(priv)
	if !ok {
		return w.x25519Sym(priv, pub)
	}
	if l := fullLeaf(pub, "X25519base"); l != nil {
		return w.x25519Sym(priv, pub)
	}
	if c, ok := concreteBytes(pub); ok {
		return constBytes(x25519Native(cp, c))
	}
	for _, k := range w.cry.pubs {
		if len(k) == 32 && w.branch(w.eqBytes(pub, constBytes(k))) {
			return constBytes(x25519Native(cp, k))
		}
	}
	// small-order points give an all-zero result
	for _, k := range lowOrder {
		if w.branch(w.eqBytes(pub, constBytes(k))) {
			return constBytes(x25519Native(cp, k))
		}
	}
	w.cry.note("X25519 with unknown symbolic public key: ideal function")
	return w.apply("X25519", 32, [][]*Expr{priv, pub}, func(p [][]byte) []byte { return x25519Native(p[0], p[1]) })
}

func (w *Worker) x25519Base(priv []*Expr) []*Expr {
	c, ok := concreteBytes(priv)
	if !ok {
		w.cry.note("X25519 with symbolic private keys: ideal commutative function")
		return w.apply("X25519base", 32, [][]*Expr{priv}, nil)
	}
	out := x25519Native(c, x25519Base)
	w.cry.addPub(out)
	if w.cry.dhPriv == nil {
		w.cry.dhPriv = map[string][]*Expr{}
	}
	w.cry.dhPriv[string(out)] = append([]*Expr(nil), priv...)
	return constBytes(out)
}

// fullLeaf returns the leaf of algorithm alg that b is exactly the output of.
func fullLeaf(b []*Expr, alg string) *Leaf {
	if len(b) == 0 || b[0].leaf == nil || b[0].leaf.alg != alg || len(b[0].leaf.vars) != len(b) {
		return nil
	}
	for i, e := range b {
		if e != b[0].leaf.vars[i] {
			return nil
		}
	}
	return b[0].leaf
}

// x25519Sym: ideal Diffie-Hellman when a private key is symbolic.
func (w *Worker) x25519Sym(priv, pub []*Expr) []*Expr {
	var other []*Expr
	if l := fullLeaf(pub, "X25519base"); l != nil {
		other = l.in[0]
	} else if c, ok := concreteBytes(pub); ok {
		for _, k := range lowOrder {
			if bytes.Equal(k, c) {
				return constBytes(make([]byte, 32))
			}
		}
		other = w.cry.dhPriv[string(c)]
	}
	if other == nil {
		return w.apply("X25519", 32, [][]*Expr{priv, pub}, func(p [][]byte) []byte { return x25519Native(p[0], p[1]) })
	}
	a, b := priv, other
	if partsKey("", [][]*Expr{b}) < partsKey("", [][]*Expr{a}) {
		a, b = b, a
	}
	return w.apply("X25519dh", 32, [][]*Expr{a, b}, func(p [][]byte) []byte {
		return x25519Native(p[0], x25519Native(p[1], x25519Base))
	})
}

var lowOrder = func() [][]byte {
	var r [][]byte
	for _, h := range []string{
		"0000000000000000000000000000000000000000000000000000000000000000",
		"0100000000000000000000000000000000000000000000000000000000000000",
	} {
		b, _ := hex.DecodeString(h)
		r = append(r, b)
	}
	return r
}()

func (w *Worker) arrayBytes(p Value) []*Expr {
	a, ok := w.place(p).(*Array)
	if !ok {
		w.unsupported("array argument")
	}
	r := make([]*Expr, a.n)
	for i := range r {
		r[i] = a.get(i).(*Expr)
	}
	return r
}

func (w *Worker) setArray(p Value, b []*Expr) {
	a := w.place(p).(*Array)
	for i, e := range b {
		a.set(i, e)
	}
}

// x25519Native computes the Diffie-Hellman function (RFC 7748).
func x25519Native(k, u []byte) []byte {
	e := append([]byte(nil), k...)
	e[0] &= 248
	e[31] &= 127
	e[31] |= 64
	ub := append([]byte(nil), u...)
	ub[31] &= 127
	key := string(e) + string(ub)
	if v, ok := x25519Cache.Load(key); ok {
		return v.([]byte)
	}
	out := x25519Fast(e, ub)
	x25519Cache.Store(key, out)
	return out
}

var x25519Cache sync.Map

func x25519Fast(k, u []byte) []byte {
	priv, err := ecdh.X25519().NewPrivateKey(k)
	if err != nil {
		panic(err)
	}
	pub, err := ecdh.X25519().NewPublicKey(u)
	if err != nil {
		panic(err)
	}
	out, err := priv.ECDH(pub)
	if err != nil {
		return make([]byte, 32) // low-order point: all-zero output
	}
	return out
}
