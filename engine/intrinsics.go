package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var globalOverride = map[string]func(w *Worker) Value{
	"crypto/rand.Reader": func(w *Worker) Value { return Iface{opRand, &Native{"rand", 1}} },
	"time.Local":         func(w *Worker) Value { return nilCell },
	"time.UTC":           func(w *Worker) Value { return nilCell },
}

func init() {
	zeroOverride["math/big.Int"] = func() Value { return goBox(new(big.Int)) }
	zeroOverride["crypto/x509.Certificate"] = func() Value { return goBox(new(x509.Certificate)) }
	zeroOverride["reflect.Value"] = func() Value { return RV{} }
}

// native functions called with converted (concrete) arguments
var goFuncs = map[string]interface{}{
	"math/big.NewInt":                            big.NewInt,
	"crypto/x509.ParseCertificates":              x509.ParseCertificates,
	"crypto/x509.NewCertPool":                    x509.NewCertPool,
	"crypto/x509.ParseECPrivateKey":              x509.ParseECPrivateKey,
	"crypto/x509.ParsePKCS1PrivateKey":           x509.ParsePKCS1PrivateKey,
	"crypto/x509.ParsePKCS8PrivateKey":           x509.ParsePKCS8PrivateKey,
	"crypto/x509.CreateCertificate":              x509.CreateCertificate,
	"crypto/elliptic.P256":                       elliptic.P256,
	"crypto/elliptic.P384":                       elliptic.P384,
	"crypto/elliptic.P521":                       elliptic.P521,
	"crypto/elliptic.GenerateKey":                elliptic.GenerateKey,
	"crypto/elliptic.Marshal":                    elliptic.Marshal,
	"crypto/ecdsa.GenerateKey":                   ecdsa.GenerateKey,
	"crypto/rsa.GenerateKey":                     rsa.GenerateKey,
	"crypto/rand.Int":                            rand.Int,
	"strings.Split":                              strings.Split,
	"strings.SplitN":                             strings.SplitN,
	"strings.LastIndex":                          strings.LastIndex,
	"strings.Index":                              strings.Index,
	"strings.Contains":                           strings.Contains,
	"strings.Join":                               strings.Join,
	"strings.TrimSpace":                          strings.TrimSpace,
	"strings.ToLower":                            strings.ToLower,
	"strings.ToUpper":                            strings.ToUpper,
	"strings.TrimPrefix":                         strings.TrimPrefix,
	"strings.TrimSuffix":                         strings.TrimSuffix,
	"strings.HasSuffix":                          strings.HasSuffix,
	"strings.Fields":                             strings.Fields,
	"strings.Replace":                            strings.Replace,
	"strings.ReplaceAll":                         strings.ReplaceAll,
	"strings.Repeat":                             strings.Repeat,
	"strings.EqualFold":                          strings.EqualFold,
	"strings.IndexByte":                          strings.IndexByte,
	"strconv.Itoa":                               strconv.Itoa,
	"strconv.FormatUint":                         strconv.FormatUint,
	"strconv.FormatInt":                          strconv.FormatInt,
	"strconv.Quote":                              strconv.Quote,
	"strconv.Atoi":                               strconv.Atoi,
	"strconv.ParseInt":                           strconv.ParseInt,
	"strconv.ParseUint":                          strconv.ParseUint,
	"strconv.ParseBool":                          strconv.ParseBool,
	"(reflect.StructTag).Get":                    reflect.StructTag.Get,
	"(reflect.StructTag).Lookup":                 reflect.StructTag.Lookup,
	"(*crypto/x509.CertPool).AddCert":            (*x509.CertPool).AddCert,
	"(*crypto/x509.Certificate).Verify":          (*x509.Certificate).Verify,
	"(*crypto/x509.CertPool).AppendCertsFromPEM": (*x509.CertPool).AppendCertsFromPEM,
}

var simple map[string]intrinsic

func init() {
	simple = map[string]intrinsic{
		// --- harness runtime ---
		"vfU8":  func(w *Worker, fn *ssa.Function, a []Value) Value { return w.newInput(w.freshName(w.str(a[0])), 8) },
		"vfU16": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.newInput(w.freshName(w.str(a[0])), 16) },
		"vfU32": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.newInput(w.freshName(w.str(a[0])), 32) },
		"vfU64": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.newInput(w.freshName(w.str(a[0])), 64) },
		"vfBool": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.x.Eq(w.newInput(w.freshName(w.str(a[0])), 1), mkConst(1, 1))
		},
		"vfInt": vfInt,
		"vfLen": func(w *Worker, fn *ssa.Function, a []Value) Value {
			e := vfInt(w, fn, a).(*Expr)
			return mkConst(64, w.concretize(e))
		},
		"vfChoice": vfChoice,
		"vfFlag": func(w *Worker, fn *ssa.Function, a []Value) Value {
			e := w.x.Eq(w.newInput(w.freshName(w.str(a[0])), 1), mkConst(1, 1))
			return mkBool(w.branch(e))
		},
		"vfBytes":  vfBytes,
		"vfString": func(w *Worker, fn *ssa.Function, a []Value) Value { return mkStr(w.sliceBytes(vfBytes(w, fn, a))) },
		"vfAssume": func(w *Worker, fn *ssa.Function, a []Value) Value { w.assume(a[0].(*Expr)); return nil },
		"vfAssert": func(w *Worker, fn *ssa.Function, a []Value) Value { w.assert(a[0].(*Expr), w.str(a[1])); return nil },
		"vfReach": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.reached = append(w.reached, w.str(a[0]))
			return nil
		},
		"vfObserve": func(w *Worker, fn *ssa.Function, a []Value) Value { w.observe(w.str(a[0]), a[1].(Iface)); return nil },
		"vfParam": func(w *Worker, fn *ssa.Function, a []Value) Value {
			q, t := a[1].(*Expr), a[2].(*Expr)
			v := q
			if w.run.tier == "thorough" {
				v = t
			}
			w.run.mu.Lock()
			w.run.params[w.str(a[0])] = int(sx(v.c, 64))
			w.run.mu.Unlock()
			return v
		},
		"vfConcrete": func(w *Worker, fn *ssa.Function, a []Value) Value { return mkConst(64, w.concretize(a[0].(*Expr))) },
		"vfSymbolic": func(w *Worker, fn *ssa.Function, a []Value) Value { return eTrue },
		"vfEq":       func(w *Worker, fn *ssa.Function, a []Value) Value { return w.sliceEq(a[0].(Slice), a[1].(Slice)) },
		"vfAlwaysEq": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return mkBool(w.alwaysEq(a[0].(Slice), a[1].(Slice)))
		},
		"vfAnd": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.x.BAnd(a[0].(*Expr), a[1].(*Expr)) },
		"vfOr":  func(w *Worker, fn *ssa.Function, a []Value) Value { return w.x.BOr(a[0].(*Expr), a[1].(*Expr)) },
		"vfImplies": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.x.BOr(w.x.BNot(a[0].(*Expr)), a[1].(*Expr))
		},
		"vfIteInt": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.x.Ite(a[0].(*Expr), a[1].(*Expr), a[2].(*Expr))
		},
		"vfThreads":     vfThreads,
		"vfYield":       vfYield,
		"vfBlock":       vfBlock,
		"vfWake":        vfWake,
		"vfStop":        func(w *Worker, fn *ssa.Function, a []Value) Value { panic(&pathEnd{endOK, ""}) },
		"vfAdvance":     func(w *Worker, fn *ssa.Function, a []Value) Value { w.clock += w.concretize(a[0].(*Expr)); return nil },
		"vfTimeNow":     func(w *Worker, fn *ssa.Function, a []Value) Value { return w.mkTime(w.now()) },
		"vfAttackerDER": nil,

		// --- fmt / log / os ---
		"fmt.Errorf":  func(w *Worker, fn *ssa.Function, a []Value) Value { return w.errorf(a) },
		"fmt.Sprintf": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.sprintf(w.str(a[0]), w.sliceVals(a[1])) },
		"fmt.Sprint":  func(w *Worker, fn *ssa.Function, a []Value) Value { return "<sprint>" },
		"fmt.Printf":  func(w *Worker, fn *ssa.Function, a []Value) Value { return Tuple{mkConst(64, 0), nilErr} },
		"fmt.Println": func(w *Worker, fn *ssa.Function, a []Value) Value { return Tuple{mkConst(64, 0), nilErr} },
		"log.Printf":  func(w *Worker, fn *ssa.Function, a []Value) Value { return nil },
		"log.Println": func(w *Worker, fn *ssa.Function, a []Value) Value { return nil },
		"os.Environ":  func(w *Worker, fn *ssa.Function, a []Value) Value { return Slice{} },
		"os.Getenv":   func(w *Worker, fn *ssa.Function, a []Value) Value { return "" },

		// --- bytes / strings ---
		"bytes.Equal":       func(w *Worker, fn *ssa.Function, a []Value) Value { return w.sliceEq(a[0].(Slice), a[1].(Slice)) },
		"crypto/hmac.Equal": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.sliceEq(a[0].(Slice), a[1].(Slice)) },
		"crypto/subtle.ConstantTimeCompare": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.x.Ite(w.sliceEq(a[0].(Slice), a[1].(Slice)), mkConst(64, 1), mkConst(64, 0))
		},
		"bytes.Compare": func(w *Worker, fn *ssa.Function, a []Value) Value {
			x, y := w.sliceBytes(a[0]), w.sliceBytes(a[1])
			if cx, ok := concreteBytes(x); ok {
				if cy, ok := concreteBytes(y); ok {
					return mkConst(64, uint64(bytes.Compare(cx, cy)))
				}
			}
			sx, sy := mkStr(x), mkStr(y)
			return w.x.Ite(w.strLess(sx, sy), mkConst(64, ^uint64(0)), w.x.Ite(w.strLess(sy, sx), mkConst(64, 1), mkConst(64, 0)))
		},
		"bytes.Repeat": func(w *Worker, fn *ssa.Function, a []Value) Value {
			b := w.sliceBytes(a[0])
			n := int(sx(w.concretize(a[1].(*Expr)), 64))
			if n < 0 {
				w.doPanic(Iface{types.Typ[types.String], "bytes: negative Repeat count"})
			}
			var r []*Expr
			for i := 0; i < n; i++ {
				r = append(r, b...)
			}
			return mkByteSlice(r)
		},
		"bytes.IndexByte": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.indexByte(w.sliceBytes(a[0]), a[1].(*Expr))
		},
		"internal/bytealg.IndexByte": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.indexByte(w.sliceBytes(a[0]), a[1].(*Expr))
		},
		"internal/bytealg.IndexByteString": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.indexByte(strBytes(a[0]), a[1].(*Expr))
		},
		"internal/bytealg.Equal": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.sliceEq(a[0].(Slice), a[1].(Slice)) },
		"internal/bytealg.MakeNoZero": func(w *Worker, fn *ssa.Function, a []Value) Value {
			n := int(w.concretize(a[0].(*Expr)))
			return Slice{&Array{n: n, zero: constFn(mkConst(8, 0))}, 0, n, n}
		},
		"strings.HasPrefix": func(w *Worker, fn *ssa.Function, a []Value) Value {
			n := strLen(a[1])
			if strLen(a[0]) < n {
				return eFalse
			}
			return w.eqBytes(strBytes(a[0])[:n], strBytes(a[1]))
		},
		"strings.Clone": func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] },
		"encoding/hex.DecodeString": func(w *Worker, fn *ssa.Function, a []Value) Value {
			b, err := hex.DecodeString(w.concString(a[0]))
			if err != nil {
				return Tuple{mkBytes(b), w.newError(err.Error())}
			}
			return Tuple{mkBytes(b), nilErr}
		},
		"encoding/hex.EncodeToString": func(w *Worker, fn *ssa.Function, a []Value) Value {
			b, ok := concreteBytes(w.sliceBytes(a[0]))
			if ok {
				return hex.EncodeToString(b)
			}
			// injective encoding nibble by nibble
			var out []*Expr
			tab := constBytes([]byte("0123456789abcdef"))
			for _, e := range w.sliceBytes(a[0]) {
				for _, n := range []*Expr{w.x.Extract(e, 7, 4), w.x.Extract(e, 3, 0)} {
					r := tab[15]
					for k := 14; k >= 0; k-- {
						r = w.x.Ite(w.x.Eq(n, mkConst(4, uint64(k))), tab[k], r)
					}
					out = append(out, r)
				}
			}
			return mkStr(out)
		},
		"math/bits.Len64":           bitsFn(func(v uint64) uint64 { return uint64(bits.Len64(v)) }),
		"math/bits.Len":             bitsFn(func(v uint64) uint64 { return uint64(bits.Len64(v)) }),
		"math/bits.TrailingZeros64": bitsFn(func(v uint64) uint64 { return uint64(bits.TrailingZeros64(v)) }),

		// --- errors ---
		"errors.Is": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.eqVal(a[0], a[1])
		},
		"internal/race.Acquire": nopIntr, "internal/race.Release": nopIntr, "runtime.KeepAlive": nopIntr, "runtime.SetFinalizer": nopIntr,
		"internal/godebug.New": func(w *Worker, fn *ssa.Function, a []Value) Value { return nilCell },

		// --- sync ---
		"(*sync.Mutex).Lock":      mutexLock,
		"(*sync.Mutex).Unlock":    mutexUnlock,
		"(*sync.Mutex).TryLock":   func(w *Worker, fn *ssa.Function, a []Value) Value { return eTrue },
		"(*sync.RWMutex).Lock":    mutexLock,
		"(*sync.RWMutex).Unlock":  mutexUnlock,
		"(*sync.RWMutex).RLock":   rwRLock,
		"(*sync.RWMutex).RUnlock": rwRUnlock,
		"(*sync.Once).Do": func(w *Worker, fn *ssa.Function, a []Value) Value {
			k := lockKey(a[0])
			if w.side[k] == nil {
				w.side[k] = true
				w.callValue(a[1], nil, nil)
			}
			return nil
		},

		// --- time ---
		"time.Now":   func(w *Worker, fn *ssa.Function, a []Value) Value { return w.mkTime(w.now()) },
		"time.Since": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.x.Bin(OSub, w.now(), timeNS(a[0])) },
		"time.Until": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.x.Bin(OSub, timeNS(a[0]), w.now()) },
		"time.Unix": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.mkTime(w.x.Bin(OAdd, w.x.Bin(OMul, a[0].(*Expr), mkConst(64, 1e9)), a[1].(*Expr)))
		},
		"(time.Time).Add": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.mkTime(w.x.Bin(OAdd, timeNS(a[0]), a[1].(*Expr)))
		},
		"(time.Time).Sub":    func(w *Worker, fn *ssa.Function, a []Value) Value { return w.x.Bin(OSub, timeNS(a[0]), timeNS(a[1])) },
		"(time.Time).After":  func(w *Worker, fn *ssa.Function, a []Value) Value { return w.x.Cmp(OSlt, timeNS(a[1]), timeNS(a[0])) },
		"(time.Time).Before": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.x.Cmp(OSlt, timeNS(a[0]), timeNS(a[1])) },
		"(time.Time).Equal":  func(w *Worker, fn *ssa.Function, a []Value) Value { return w.x.Eq(timeNS(a[0]), timeNS(a[1])) },
		"(time.Time).IsZero": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.x.Eq(a[0].(*Struct).f[0].v.(*Expr), mkConst(64, 0))
		},
		"(time.Time).UnixNano": func(w *Worker, fn *ssa.Function, a []Value) Value { return timeNS(a[0]) },
		"(time.Time).Unix": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.x.Bin(OSDiv, timeNS(a[0]), mkConst(64, 1e9))
		},
		"(time.Time).AddDate": func(w *Worker, fn *ssa.Function, a []Value) Value {
			d := sx(w.concretize(a[3].(*Expr)), 64) + 30*sx(w.concretize(a[2].(*Expr)), 64) + 365*sx(w.concretize(a[1].(*Expr)), 64)
			return w.mkTime(w.x.Bin(OAdd, timeNS(a[0]), mkConst(64, uint64(d*86400*1000000000))))
		},
		"(time.Time).String":     func(w *Worker, fn *ssa.Function, a []Value) Value { return "<time>" },
		"(time.Duration).String": func(w *Worker, fn *ssa.Function, a []Value) Value { return "<duration>" },
		"(time.Duration).Seconds": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return float64(sx(w.concretize(a[0].(*Expr)), 64)) / 1e9
		},
		"(time.Duration).Nanoseconds": func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] },
		"(time.Duration).Milliseconds": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.x.Bin(OSDiv, a[0].(*Expr), mkConst(64, 1e6))
		},
		"time.Sleep": nopIntr,

		"(runtime.errorString).Error":        func(w *Worker, fn *ssa.Function, a []Value) Value { return "runtime error: " + w.concString(a[0]) },
		"(runtime.errorString).RuntimeError": nopIntr,

		"crypto/x509.ParseCertificate": parseCert,
	}
	delete(simple, "vfAttackerDER")
	addReflect(simple)
	addCrypto(simple)
	addBigInt(simple)
	addStdlib(simple)
}

func nopIntr(w *Worker, fn *ssa.Function, a []Value) Value { return w.zeroResults(fn) }

func bitsFn(f func(uint64) uint64) intrinsic {
	return func(w *Worker, fn *ssa.Function, a []Value) Value {
		return mkConst(64, f(w.concretize(a[0].(*Expr))))
	}
}

func (p *Program) initIntrinsics() {
	p.intrMap = map[string]intrinsic{}
}

var intrCache sync.Map

// intrinsicFor returns the model of fn, or nil if it is interpreted.
func (p *Program) intrinsicFor(fn *ssa.Function) intrinsic {
	if v, ok := intrCache.Load(fn); ok {
		return v.(intrinsic)
	}
	in := p.findIntrinsic(fn)
	intrCache.Store(fn, in)
	return in
}

func (p *Program) findIntrinsic(fn *ssa.Function) intrinsic {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	name := f.String()
	if f.Pkg != nil && p.repoPkgs[f.Pkg.Pkg.Path()] {
		if strings.HasPrefix(f.Name(), "vf") && f.Signature.Recv() == nil {
			if in, ok := simple[f.Name()]; ok {
				return in
			}
		}
		return nil
	}
	if in, ok := simple[name]; ok {
		return in
	}
	if g, ok := goFuncs[name]; ok {
		rv := reflect.ValueOf(g)
		return func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.callGo(rv, a, fn.Signature.Results())
		}
	}
	return nil
}

func vfInt(w *Worker, fn *ssa.Function, a []Value) Value {
	lo, hi := sx(a[1].(*Expr).c, 64), sx(a[2].(*Expr).c, 64)
	e := w.newInput(w.freshName(w.str(a[0])), 64)
	w.assume(w.x.Cmp(OSle, mkConst(64, uint64(lo)), e))
	w.assume(w.x.Cmp(OSle, e, mkConst(64, uint64(hi))))
	return e
}

func vfChoice(w *Worker, fn *ssa.Function, a []Value) Value {
	n := a[1].(*Expr).c
	e := w.newInput(w.freshName(w.str(a[0])), 64)
	w.assume(w.x.Cmp(OUlt, e, mkConst(64, n)))
	return mkConst(64, w.concretize(e))
}

func vfBytes(w *Worker, fn *ssa.Function, a []Value) Value {
	n := int(w.concretize(a[1].(*Expr)))
	base := w.freshName(w.str(a[0]))
	b := make([]*Expr, n)
	for i := range b {
		b[i] = w.newInput(fmt.Sprintf("%s_%d", base, i), 8)
	}
	return mkByteSlice(b)
}

func (w *Worker) observe(name string, v Iface) {
	x := v.v
	switch y := x.(type) {
	case *Expr, string, *SymStr:
	case Slice:
		// snapshot
		if y.arr != nil {
			if _, ok := y.arr.zero().(*Expr); !ok {
				w.unsupported("observe of non-byte slice")
			}
			x = mkByteSlice(append([]*Expr{}, w.sliceBytes(y)...))
		}
	default:
		w.unsupported(fmt.Sprintf("observe %T", v.v))
	}
	w.obs = append(w.obs, observation{name, x})
}

func (w *Worker) sliceEq(a, b Slice) *Expr {
	if a.len != b.len {
		return eFalse
	}
	return w.eqBytes(w.sliceBytes(a), w.sliceBytes(b))
}

// alwaysEq reports whether two byte strings are equal for all values the path
// allows.
func (w *Worker) alwaysEq(a, b Slice) bool {
	if a.len != b.len {
		return false
	}
	x, y := w.sliceBytes(a), w.sliceBytes(b)
	for i := range x {
		if x[i] != y[i] && x[i].op == OVar && y[i].op == OVar {
			return false
		}
	}
	c := w.eqBytes(x, y)
	if c.isConst() {
		return c.c != 0
	}
	if v, ok := w.known(c); ok {
		return v
	}
	if w.eval(c) == 0 {
		return false
	}
	r, _ := w.query(w.x.BNot(c))
	return r == Unsat
}

func (w *Worker) indexByte(b []*Expr, c *Expr) Value {
	for i, e := range b {
		if w.branch(w.x.Eq(e, c)) {
			return mkConst(64, uint64(i))
		}
	}
	return mkConst(64, ^uint64(0))
}

// ---- locks ----

func lockKey(p Value) string {
	switch x := p.(type) {
	case *Cell:
		return fmt.Sprintf("lock:%p", x)
	case ElemPtr:
		return fmt.Sprintf("lock:%p+%d", x.arr, x.idx)
	}
	return fmt.Sprintf("lock:%v", p)
}

func nilCheck(w *Worker, p Value) {
	if c, ok := p.(*Cell); ok && c == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
}

func mutexLock(w *Worker, fn *ssa.Function, a []Value) Value {
	nilCheck(w, a[0])
	k := lockKey(a[0])
	for w.sched != nil && w.side[k] != nil && w.side[k].(int) != 0 {
		vfBlock(w, nil, nil)
	}
	if n, _ := w.side[k].(int); n != 0 {
		panic(&pathEnd{endHang, "deadlock: lock already held at " + w.where()})
	}
	w.side[k] = 1
	return nil
}

func mutexUnlock(w *Worker, fn *ssa.Function, a []Value) Value {
	k := lockKey(a[0])
	if n, _ := w.side[k].(int); n != 1 {
		panic(&targetPanic{v: Iface{w.p.rtErrorString, "sync: unlock of unlocked mutex"}, msg: "fatal error: sync: unlock of unlocked mutex", where: w.where()})
	}
	w.side[k] = 0
	vfWake(w, nil, nil)
	return nil
}

func rwRLock(w *Worker, fn *ssa.Function, a []Value) Value {
	k := lockKey(a[0])
	n, _ := w.side[k].(int)
	if n == 1 {
		panic(&pathEnd{endHang, "deadlock: lock already held at " + w.where()})
	}
	w.side[k] = n - 1
	return nil
}

func rwRUnlock(w *Worker, fn *ssa.Function, a []Value) Value {
	k := lockKey(a[0])
	n, _ := w.side[k].(int)
	if n >= 0 {
		panic(&targetPanic{v: Iface{w.p.rtErrorString, "sync: RUnlock of unlocked RWMutex"}, msg: "fatal error: sync: RUnlock of unlocked RWMutex", where: w.where()})
	}
	w.side[k] = n + 1
	return nil
}

// ---- time ----

const timeBase = 1700000000000000000

func (w *Worker) now() *Expr { return mkConst(64, timeBase+w.clock) }

func (w *Worker) mkTime(ns *Expr) Value {
	s := &Struct{make([]Cell, 3)}
	s.f[0].v = mkConst(64, 1)
	s.f[1].v = ns
	s.f[2].v = nilCell
	return s
}

func timeNS(v Value) *Expr { return v.(*Struct).f[1].v.(*Expr) }

// ---- fmt ----

func (w *Worker) fmtArg(v Value) interface{} {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return nil
	}
	switch x := i.v.(type) {
	case string:
		return x
	case *Expr:
		if x.isConst() {
			if _, sg, ok := basicInfo(i.t); ok && x.w > 0 {
				if sg {
					return sx(x.c, x.w)
				}
				return x.c
			}
			return x.c != 0
		}
		return "<sym>"
	case Slice:
		if x.arr != nil {
			if _, ok := x.arr.zero().(*Expr); ok {
				if b, ok := concreteBytes(w.sliceBytes(x)); ok {
					return b
				}
			}
		}
		return "<slice>"
	case *Native:
		if e, ok := x.d.(*errData); ok {
			return e.msg
		}
	}
	return "<" + i.t.String() + ">"
}

func (w *Worker) sprintf(f string, args []Value) string {
	var ga []interface{}
	for _, a := range args {
		ga = append(ga, w.fmtArg(a))
	}
	return fmt.Sprintf(strings.ReplaceAll(f, "%w", "%v"), ga...)
}

func (w *Worker) errorf(a []Value) Value {
	args := w.sliceVals(a[1])
	f, ok := a[0].(string)
	if !ok {
		return w.newError("<sym>")
	}
	e := &errData{msg: w.sprintf(f, args)}
	if strings.Contains(f, "%w") {
		for _, x := range args {
			if i, ok := x.(Iface); ok && i.t != nil {
				e.wrap = i
			}
		}
	}
	return Iface{opErr, &Native{"err", e}}
}

var certCache sync.Map

func parseCert(w *Worker, fn *ssa.Function, a []Value) Value {
	b := w.sliceBytes(a[0])
	der, ok := concreteBytes(b)
	if !ok {
		// symbolic bytes: one of the certificates seen on this path, or garbage
		for _, k := range w.cry.certs {
			if len(k) == len(b) && w.branch(w.eqBytes(b, constBytes(k))) {
				der, ok = k, true
				break
			}
		}
		if !ok {
			w.cry.note("symbolic certificate bytes equal to no known certificate are treated as unparsable")
			return Tuple{nilCell, w.newError("x509: malformed certificate")}
		}
	} else {
		w.cry.addCert(der)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		return Tuple{nilCell, w.newError(err.Error())}
	}
	return Tuple{&Cell{goBox(c)}, nilErr}
}
