package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decision struct {
	kind byte // T,F branch; E,N concretise; P pick
	val  uint64
}

type workItem struct {
	prefix []decision
	model  map[string]uint64
}

type observation struct {
	name string
	v    Value
}

// Violation is a candidate counterexample.
type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"message"`
	Where   string            `json:"where,omitempty"`
	Kind    string            `json:"kind"`
	Inputs  map[string]uint64 `json:"inputs"`
	Obs     []string          `json:"-"`
}

type Sample struct {
	Inputs map[string]uint64
	Obs    []string
	End    string
}

// Run is the exploration of one harness.
type Run struct {
	p        *Program
	fn       *ssa.Function
	name     string
	tier     string
	deadline time.Time
	started  bool
	npop     int
	maxPaths int

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*workItem
	busy    int
	stopped bool

	paths, okPaths, infeasible       int
	unsupported, hangs, unknownPaths int
	steps                            int64
	ifConvs                          int64
	queries, nSat, nUnsat, nUnk      int
	solverTime                       time.Duration
	asserts, assertQueries           int
	picks                            map[string]int
	unsupMsgs                        map[string]int
	violations                       []*Violation
	violSeen                         map[string]int
	reached                          map[string]int
	cov                              map[*cfunc]int
	samples                          []*Sample
	sampleEvery                      int
	forks                            int
	maxDepth                         int
	incomplete                       string
	maxSteps                         int
	maxSymLen                        int
	internalErr                      string
	params                           map[string]int
	traceOn                          bool

	qcache    sync.Map // [4]uint64 -> *cachedQuery
	cacheHits int
}

// Worker executes paths.
type Worker struct {
	p   *Program
	run *Run
	x   *ExprCtx
	sol *Solver

	model     map[string]uint64
	evalEpoch uint32

	pc     []*Expr
	synced int
	groups []*pcGroup
	pcs    []*Expr

	fixedSet []uint64
	fixedNew bool
	fresh    bool // solver not yet reset for this path

	nCacheHit int

	decided map[uint32]bool
	fixed   map[uint32]bool
	fixGen  uint32
	fixMemo map[uint32]uint32

	prefix []decision
	idx    int
	trail  []decision

	vars    []*Expr
	inputs  []*Expr
	names   map[string]int
	obs     []observation
	reached []string

	globals    map[*ssa.Global]*Cell
	stdGlobals map[*ssa.Global]*Cell
	stdInit    map[string]bool

	steps, maxSteps int
	depth           int
	fr              *frame
	maxSymLen       int
	nIfConv         int
	cov             map[*cfunc]int
	lastPanic       *targetPanic
	pathUnknown     int

	cry   *cryptoState
	clock uint64
	rng   uint64
	side  map[string]interface{}
	sched *scheduler
}

func newWorker(r *Run, sol *Solver) *Worker {
	return &Worker{p: r.p, run: r, sol: sol, stdGlobals: map[*ssa.Global]*Cell{}, stdInit: map[string]bool{}}
}

func (w *Worker) startPath(it *workItem) {
	w.x = newExprCtx()
	w.sched = nil
	w.model = it.model
	w.evalEpoch++
	w.pc = w.pc[:0]
	w.synced = 0
	w.groups = nil
	w.pcs = nil
	w.fixedSet = nil
	w.fixedNew = false
	w.fresh = false
	w.decided = map[uint32]bool{}
	w.fixed = map[uint32]bool{}
	w.fixMemo = map[uint32]uint32{}
	w.fixGen = 1
	w.prefix = it.prefix
	w.idx = 0
	w.trail = append([]decision(nil), it.prefix...)
	w.vars = nil
	w.inputs = nil
	w.names = map[string]int{}
	w.obs = nil
	w.reached = nil
	w.globals = map[*ssa.Global]*Cell{}
	w.steps = 0
	w.maxSteps = w.run.maxSteps
	w.maxSymLen = w.run.maxSymLen
	w.depth = 0
	w.fr = nil
	w.nIfConv = 0
	w.cov = map[*cfunc]int{}
	w.pathUnknown = 0
	w.cry = newCryptoState()
	w.clock = 0
	w.rng = 0
	w.side = map[string]interface{}{}
}

// ---- variables ----

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// freshName makes repeated uses of a name distinct.
func (w *Worker) freshName(n string) string {
	n = sanitize(n)
	k := w.names[n]
	w.names[n]++
	return fmt.Sprintf("%s.%d", n, k)
}

func (w *Worker) newInput(name string, width uint8) *Expr {
	e := w.x.Var("i."+name, width)
	w.inputs = append(w.inputs, e)
	w.vars = append(w.vars, e)
	return e
}

func (w *Worker) newAux(name string, width uint8) *Expr {
	e := w.x.Var("x."+name, width)
	w.vars = append(w.vars, e)
	return e
}

// ---- path condition ----

func (w *Worker) addPC(c *Expr) {
	if c.isConst() {
		if c.c == 0 {
			panic(&pathEnd{endInfeasible, "constant false"})
		}
		return
	}
	w.pc = append(w.pc, c)
	w.learn(c, true)
}

func (w *Worker) learn(c *Expr, v bool) {
	if c.isConst() {
		return
	}
	if c.op == OBNot {
		w.learn(c.a[0], !v)
		return
	}
	if _, ok := w.decided[c.id]; ok {
		return
	}
	w.decided[c.id] = v
	switch c.op {
	case OVar:
		w.fixVar(c)
	case OBAnd:
		if v {
			w.learn(c.a[0], true)
			w.learn(c.a[1], true)
		}
	case OBOr:
		if !v {
			w.learn(c.a[0], false)
			w.learn(c.a[1], false)
		}
	case OEq:
		if v {
			if c.a[1].isConst() {
				w.fixExpr(c.a[0])
			} else if c.a[0].isConst() {
				w.fixExpr(c.a[1])
			}
		} else if c.a[0].w == 1 || c.a[0].w == 0 {
			if c.a[1].isConst() {
				w.fixExpr(c.a[0])
			}
		}
	case OUlt:
		if v && c.a[1].isConst() && c.a[1].c == 1 {
			w.fixExpr(c.a[0])
		}
	}
}

// fixExpr notes that e has a determined value: its invertible parts do too.
func (w *Worker) fixExpr(e *Expr) {
	switch e.op {
	case OVar:
		w.fixVar(e)
	case OConcat:
		w.fixExpr(e.a[0])
		w.fixExpr(e.a[1])
	case OZExt, OSExt, ONot, ONeg, OBNot:
		w.fixExpr(e.a[0])
	case OAdd, OSub, OXor:
		if e.a[1].isConst() {
			w.fixExpr(e.a[0])
		} else if e.a[0].isConst() {
			w.fixExpr(e.a[1])
		} else if e.id != 0 && !w.fixed[e.id] {
			w.fixed[e.id] = true
			w.fixGen++
		}
	default:
		if e.id != 0 && !w.fixed[e.id] {
			w.fixed[e.id] = true
			w.fixGen++
		}
	}
}

func (w *Worker) fixVar(e *Expr) {
	if !w.fixed[e.id] {
		w.fixed[e.id] = true
		w.fixGen++
		for len(w.fixedSet) <= int(e.vn/64) {
			w.fixedSet = append(w.fixedSet, 0)
		}
		w.fixedSet[e.vn/64] |= 1 << uint(e.vn%64)
		w.fixedNew = true
	}
}

// subst replaces the variables whose value the path determines.
func (w *Worker) subst(e *Expr, memo map[*Expr]*Expr) *Expr {
	if e.op == OConst || !bsMeets(e.varset(), w.fixedSet) {
		return e
	}
	if e.op == OVar {
		return mkConst(e.w, w.model[e.name])
	}
	if r, ok := memo[e]; ok {
		return r
	}
	var a [3]*Expr
	for i, x := range e.a {
		if x != nil {
			a[i] = w.subst(x, memo)
		}
	}
	x := w.x
	var r *Expr
	switch e.op {
	case OExtract:
		r = x.Extract(a[0], uint8(e.aux>>8), uint8(e.aux&0xff))
	case OZExt:
		r = x.ZExt(a[0], e.w)
	case OSExt:
		r = x.SExt(a[0], e.w)
	case OConcat:
		r = x.Concat(a[0], a[1])
	case OIte:
		r = x.Ite(a[0], a[1], a[2])
	case OEq:
		r = x.Eq(a[0], a[1])
	case OUlt, OUle, OSlt, OSle:
		r = x.Cmp(e.op, a[0], a[1])
	case OBAnd:
		r = x.BAnd(a[0], a[1])
	case OBOr:
		r = x.BOr(a[0], a[1])
	case OBNot:
		r = x.BNot(a[0])
	case ONot:
		r = x.Not(a[0])
	case ONeg:
		r = x.Neg(a[0])
	default:
		r = x.Bin(e.op, a[0], a[1])
	}
	memo[e] = r
	return r
}

// allFixed reports whether e's value is determined by fixed variables.
func (w *Worker) allFixed(e *Expr) bool {
	if e.op == OConst || w.fixed[e.id] {
		return true
	}
	if e.op == OVar {
		return false
	}
	if g, ok := w.fixMemo[e.id]; ok && g == w.fixGen {
		return false
	}
	for _, a := range e.a {
		if a != nil && !w.allFixed(a) {
			w.fixMemo[e.id] = w.fixGen
			return false
		}
	}
	w.fixed[e.id] = true
	return true
}

func (w *Worker) known(c *Expr) (val, ok bool) {
	neg := false
	for c.op == OBNot {
		c = c.a[0]
		neg = !neg
	}
	if v, ok := w.decided[c.id]; ok {
		return v != neg, true
	}
	if w.allFixed(c) {
		return (w.eval(c) != 0) != neg, true
	}
	return false, false
}

// pcGroup is a set of path constraints that share variables, directly or not.
type pcGroup struct {
	vars []uint64
	cons []*Expr
	h    [2]uint64
}

type cachedQuery struct {
	r SatRes
	m map[string]uint64
}

// sync sorts the path constraints into independent groups, with the variables
// the path determines replaced by their values.
func (w *Worker) sync() {
	if !w.fresh {
		w.sol.reset()
		w.fresh = true
	}
	memo := map[*Expr]*Expr{}
	if w.fixedNew {
		w.fixedNew = false
		changed := false
		for i, c := range w.pcs {
			if n := w.subst(c, memo); n != c {
				w.pcs[i] = n
				changed = true
			}
		}
		if changed {
			w.groups = w.groups[:0]
			k := 0
			for _, c := range w.pcs {
				if c.isConst() {
					if c.c == 0 {
						panic("engine: path condition contradicts its own model")
					}
					continue
				}
				w.pcs[k] = c
				k++
				w.group(c)
			}
			w.pcs = w.pcs[:k]
		}
	}
	for ; w.synced < len(w.pc); w.synced++ {
		c := w.subst(w.pc[w.synced], memo)
		if c.isConst() {
			if c.c == 0 {
				panic("engine: path condition contradicts its own model")
			}
			continue
		}
		w.pcs = append(w.pcs, c)
		w.group(c)
	}
}

func (w *Worker) group(c *Expr) {
	vs := c.varset()
	g := &pcGroup{vars: vs, cons: []*Expr{c}, h: c.shash()}
	owned := false
	out := w.groups[:0]
	for _, o := range w.groups {
		if !bsMeets(o.vars, g.vars) {
			out = append(out, o)
			continue
		}
		if !bsSubset(g.vars, o.vars) {
			if !owned {
				g.vars = append([]uint64(nil), g.vars...)
				owned = true
			}
			for len(g.vars) < len(o.vars) {
				g.vars = append(g.vars, 0)
			}
			for i, x := range o.vars {
				g.vars[i] |= x
			}
		} else {
			g.vars, owned = o.vars, false
		}
		g.cons = append(o.cons, g.cons...)
		g.h[0] += o.h[0]
		g.h[1] += o.h[1]
	}
	w.groups = append(out, g)
}

// query asks whether c is satisfiable with the path condition. Only the
// constraints that share variables with c matter: the others are satisfied by
// the current model, independently of them.
func (w *Worker) query(c *Expr) (SatRes, map[string]uint64) {
	w.sync()
	c = w.subst(c, map[*Expr]*Expr{})
	if c.isConst() {
		if c.c == 0 {
			return Unsat, nil
		}
		return Sat, w.model
	}
	vs := c.varset()
	ch := c.shash()
	key := [4]uint64{ch[0], ch[1], 0, 0}
	var cons []*Expr
	for _, g := range w.groups {
		if bsMeets(g.vars, vs) {
			cons = append(cons, g.cons...)
			key[2] += g.h[0]
			key[3] += g.h[1]
		}
	}
	var r SatRes
	var m map[string]uint64
	if q, ok := w.run.qcache.Load(key); ok {
		w.nCacheHit++
		r, m = q.(*cachedQuery).r, q.(*cachedQuery).m
	} else {
		r, m = w.sol.checkWith(cons, c)
		if w.sol.dead {
			w.sol.close()
			w.sol.start()
			w.fresh = false
			return Unknown, nil
		}
		if r != Unknown {
			w.run.qcache.Store(key, &cachedQuery{r, m})
		}
	}
	if r == Sat {
		nm := make(map[string]uint64, len(w.model)+len(m))
		for k, v := range w.model {
			nm[k] = v
		}
		for k, v := range m {
			nm[k] = v
		}
		m = nm
	}
	return r, m
}

func (w *Worker) fork(d decision, m map[string]uint64) {
	p := make([]decision, len(w.trail)+1)
	copy(p, w.trail)
	p[len(w.trail)] = d
	w.run.push(&workItem{p, m})
}

func (w *Worker) nondet(want string, got byte) {
	panic(fmt.Sprintf("engine nondeterminism: want %s got %c at decision %d (%s)", want, got, w.idx, w.where()))
}

func (w *Worker) branch(c *Expr) bool {
	if c.isConst() {
		return c.c != 0
	}
	if v, ok := w.known(c); ok {
		return v
	}
	if w.idx < len(w.prefix) {
		d := w.prefix[w.idx]
		w.idx++
		switch d.kind {
		case 'T':
			w.addPC(c)
			return true
		case 'F':
			w.addPC(w.x.BNot(c))
			return false
		case 't':
			w.learn(c, true)
			return true
		case 'f':
			w.learn(c, false)
			return false
		}
		w.nondet("TF", d.kind)
	}
	v := w.eval(c) != 0
	oc := c
	if v {
		oc = w.x.BNot(c)
	}
	r, m := w.query(oc)
	other := decision{kind: 'T'}
	self := decision{kind: 'F'}
	if v {
		other, self = self, other
	}
	switch r {
	case Sat:
		w.fork(other, m)
	case Unknown:
		w.pathUnknown++
	case Unsat:
		// implied by the path condition: remember it, but do not make the
		// path condition longer
		if v {
			self.kind = 't'
		} else {
			self.kind = 'f'
		}
	}
	w.trail = append(w.trail, self)
	w.idx = len(w.trail)
	w.prefix = w.trail
	switch {
	case r == Unsat:
		w.learn(c, v)
	case v:
		w.addPC(c)
	default:
		w.addPC(w.x.BNot(c))
	}
	return v
}

// concretize enumerates the feasible values of e, one per path.
func (w *Worker) concretize(e *Expr) uint64 {
	for {
		if e.isConst() {
			return e.c
		}
		if w.allFixed(e) {
			return w.eval(e)
		}
		if w.idx < len(w.prefix) {
			d := w.prefix[w.idx]
			w.idx++
			eq := w.x.Eq(e, mkConst(e.w, d.val))
			switch d.kind {
			case 'E':
				w.addPC(eq)
				return d.val
			case 'N':
				w.addPC(w.x.BNot(eq))
				continue
			}
			w.nondet("EN", d.kind)
		}
		v := w.eval(e)
		eq := w.x.Eq(e, mkConst(e.w, v))
		r, m := w.query(w.x.BNot(eq))
		switch r {
		case Sat:
			w.fork(decision{'N', v}, m)
		case Unknown:
			w.pathUnknown++
		}
		w.trail = append(w.trail, decision{'E', v})
		w.idx = len(w.trail)
		w.prefix = w.trail
		w.addPC(eq)
		return v
	}
}

// pick fixes e to one feasible value without exploring the others (a stated bound).
func (w *Worker) pick(e *Expr, why string) uint64 {
	if e.isConst() {
		return e.c
	}
	if w.allFixed(e) {
		return w.eval(e)
	}
	if w.idx < len(w.prefix) {
		d := w.prefix[w.idx]
		w.idx++
		if d.kind != 'P' {
			w.nondet("P", d.kind)
		}
		w.addPC(w.x.Eq(e, mkConst(e.w, d.val)))
		return d.val
	}
	v := w.eval(e)
	w.trail = append(w.trail, decision{'P', v})
	w.idx = len(w.trail)
	w.prefix = w.trail
	w.addPC(w.x.Eq(e, mkConst(e.w, v)))
	w.run.mu.Lock()
	w.run.picks[why]++
	w.run.mu.Unlock()
	return v
}

func (w *Worker) assume(c *Expr) {
	if c.isConst() {
		if c.c == 0 {
			panic(&pathEnd{endInfeasible, "assume false"})
		}
		return
	}
	if v, ok := w.known(c); ok {
		if !v {
			panic(&pathEnd{endInfeasible, "assume false"})
		}
		return
	}
	if w.eval(c) == 0 {
		r, m := w.query(c)
		switch r {
		case Unsat:
			panic(&pathEnd{endInfeasible, "assume unsat"})
		case Unknown:
			panic(&pathEnd{endUnknown, "assume unknown"})
		}
		w.setModel(m)
	}
	w.addPC(c)
}

func (w *Worker) setModel(m map[string]uint64) {
	w.model = m
	w.evalEpoch++
}

func (w *Worker) assert(c *Expr, msg string) {
	w.run.mu.Lock()
	w.run.asserts++
	w.run.mu.Unlock()
	if c.isConst() {
		if c.c == 0 {
			if w.idx < len(w.prefix) {
				panic(&pathEnd{endViolation, ""})
			}
			w.violation("assert", msg, w.where())
			panic(&pathEnd{endViolation, msg})
		}
		return
	}
	if v, ok := w.known(c); ok && v {
		return
	}
	if w.idx < len(w.prefix) {
		w.addPC(c) // checked by the path this one was forked from
		return
	}
	if w.eval(c) == 0 {
		w.violation("assert", msg, w.where())
	} else {
		w.run.mu.Lock()
		w.run.assertQueries++
		w.run.mu.Unlock()
		r, m := w.query(w.x.BNot(c))
		switch r {
		case Sat:
			old := w.model
			w.setModel(m)
			w.violation("assert", msg, w.where())
			w.setModel(old)
		case Unknown:
			w.pathUnknown++
		}
		w.addPC(c)
		return
	}
	// continue with the states that satisfy the assertion
	r, m := w.query(c)
	if r != Sat {
		panic(&pathEnd{endViolation, msg})
	}
	w.setModel(m)
	w.addPC(c)
}

func (w *Worker) inputModel() map[string]uint64 {
	in := map[string]uint64{}
	for _, e := range w.inputs {
		in[strings.TrimPrefix(e.name, "i.")] = w.model[e.name] & mask(e.w)
	}
	return in
}

func (w *Worker) violation(kind, msg, where string) {
	v := &Violation{Harness: w.run.name, Msg: msg, Kind: kind, Where: where, Inputs: w.inputModel()}
	w.run.addViolation(v)
}

func (r *Run) addViolation(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := v.Kind + "|" + v.Msg + "|" + v.Where
	r.violSeen[k]++
	if r.violSeen[k] > 4 || len(r.violations) > 60 {
		return
	}
	r.violations = append(r.violations, v)
}

// renderObs evaluates observations under the current model.
func (w *Worker) renderObs() []string {
	var out []string
	for _, o := range w.obs {
		out = append(out, o.name+"="+w.renderVal(o.v))
	}
	return out
}

func (w *Worker) renderVal(v Value) string {
	switch x := v.(type) {
	case *Expr:
		if x.w == 0 {
			if w.eval(x) != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprint(w.eval(x))
	case string:
		return fmt.Sprintf("%x", x)
	case *SymStr:
		var b []byte
		for _, e := range x.b {
			b = append(b, byte(w.eval(e)))
		}
		return fmt.Sprintf("%x", b)
	case Slice:
		if x.arr == nil {
			return ""
		}
		var b []byte
		for i := 0; i < x.len; i++ {
			b = append(b, byte(w.eval(x.arr.get(x.off+i).(*Expr))))
		}
		return fmt.Sprintf("%x", b)
	}
	return "?"
}

// runPath executes one path.
func (w *Worker) runPath(it *workItem) (end *pathEnd) {
	w.startPath(it)
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case *pathEnd:
				end = e
			case *targetPanic:
				end = &pathEnd{endPanic, e.msg + " at " + e.where}
			default:
				end = &pathEnd{endUnsupported, fmt.Sprintf("engine: %v at %s", r, w.where())}
				w.run.mu.Lock()
				if w.run.internalErr == "" {
					w.run.internalErr = fmt.Sprintf("%v\n%s\n%s", r, w.where(), trimStack(debug.Stack()))
				}
				w.run.mu.Unlock()
			}
		}
	}()
	defer w.killThreads()
	w.initRepo()
	w.callFn(w.run.fn, nil, nil, nil)
	return &pathEnd{endOK, ""}
}

func (w *Worker) initRepo() {
	for _, path := range []string{modPath + "/syntax", modPath} {
		pk := w.p.pkgs[path]
		buildMu.Lock()
		w.p.buildPkg(pk)
		buildMu.Unlock()
		w.runInit(pk)
	}
}

func (r *Run) push(it *workItem) {
	r.mu.Lock()
	r.queue = append(r.queue, it)
	r.forks++
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) pop() *workItem {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stopped {
			return nil
		}
		if time.Now().After(r.deadline) {
			if len(r.queue) > 0 && r.incomplete == "" {
				r.incomplete = fmt.Sprintf("time budget reached with %d unexplored path prefixes", len(r.queue))
			}
			r.stopped = true
			r.cond.Broadcast()
			return nil
		}
		if r.paths >= r.maxPaths {
			if len(r.queue) > 0 && r.incomplete == "" {
				r.incomplete = fmt.Sprintf("path budget reached with %d unexplored path prefixes", len(r.queue))
			}
			r.stopped = true
			r.cond.Broadcast()
			return nil
		}
		if len(r.queue) > 0 {
			// depth first, with every fourth path taken from the least
			// explored end so that an unfinished exploration is spread out
			k := len(r.queue) - 1
			if r.npop++; r.npop%4 == 0 {
				k = r.npop / 4 % len(r.queue)
			}
			it := r.queue[k]
			copy(r.queue[k:], r.queue[k+1:])
			r.queue = r.queue[:len(r.queue)-1]
			r.busy++
			r.paths++
			return it
		}
		if r.busy == 0 {
			r.stopped = true
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func newRun(p *Program, fn *ssa.Function, tier string) *Run {
	r := &Run{p: p, fn: fn, name: fn.Name(), tier: tier, maxPaths: 2000000, picks: map[string]int{}, unsupMsgs: map[string]int{},
		violSeen: map[string]int{}, reached: map[string]int{}, cov: map[*cfunc]int{}, maxSteps: 40000000, maxSymLen: 80, sampleEvery: 1, params: map[string]int{}}
	r.cond = sync.NewCond(&r.mu)
	return r
}

// resumable: there are paths left to explore.
func (r *Run) resumable() bool {
	return len(r.queue) > 0 && r.paths < r.maxPaths && r.internalErr == "" && len(r.violations) < 20
}

func (r *Run) explore(sols []*Solver) {
	if !r.started {
		r.started = true
		r.queue = []*workItem{{nil, map[string]uint64{}}}
	}
	r.stopped, r.incomplete = false, ""
	var wg sync.WaitGroup
	for _, s := range sols {
		wg.Add(1)
		go func(s *Solver) {
			defer wg.Done()
			w := newWorker(r, s)
			s0, u0, k0, t0 := s.nSat, s.nUnsat, s.nUnknown, s.time
			for {
				it := r.pop()
				if it == nil {
					break
				}
				end := w.runPath(it)
				r.finish(w, end)
			}
			r.mu.Lock()
			r.nSat += s.nSat - s0
			r.nUnsat += s.nUnsat - u0
			r.nUnk += s.nUnknown - k0
			r.solverTime += s.time - t0
			r.queries = r.nSat + r.nUnsat + r.nUnk
			r.mu.Unlock()
		}(s)
	}
	// wake waiting workers at the deadline
	stop := make(chan struct{})
	go func() {
		select {
		case <-stop:
		case <-time.After(time.Until(r.deadline) + 50*time.Millisecond):
			r.cond.Broadcast()
		}
	}()
	wg.Wait()
	close(stop)
}

func (r *Run) finish(w *Worker, end *pathEnd) {
	var obs []string
	var inputs map[string]uint64
	switch end.kind {
	case endOK:
		func() {
			defer func() {
				if e := recover(); e != nil {
					obs = []string{fmt.Sprint("render:", e)}
				}
			}()
			obs = w.renderObs()
		}()
		inputs = w.inputModel()
	case endPanic:
		w.violation("panic", "uncaught panic: "+firstLine(end.msg), "")
	case endHang:
		w.violation("hang", "does not terminate: "+firstLine(end.msg), "")
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.busy--
	r.steps += int64(w.steps)
	r.ifConvs += int64(w.nIfConv)
	if len(w.trail) > r.maxDepth {
		r.maxDepth = len(w.trail)
	}
	for c, n := range w.cov {
		r.cov[c] += n
	}
	for _, m := range w.reached {
		r.reached[m]++
	}
	if w.pathUnknown > 0 {
		r.unknownPaths++
	}
	switch end.kind {
	case endOK:
		r.okPaths++
		s := &Sample{Inputs: inputs, Obs: obs, End: "ok"}
		if len(r.samples) < 400 {
			r.samples = append(r.samples, s)
		} else {
			h := sha256.Sum256([]byte(fmt.Sprint(w.trail)))
			k := binary.BigEndian.Uint64(h[:]) % uint64(r.okPaths)
			if k < 400 {
				r.samples[k] = s
			}
		}
	case endInfeasible:
		r.infeasible++
	case endUnsupported:
		r.unsupported++
		r.unsupMsgs[firstLine(end.msg)]++
	case endUnknown:
		r.unknownPaths++
	case endHang:
		r.hangs++
	}
	r.cond.Broadcast()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// trimStack keeps the engine frames of a Go stack dump.
func trimStack(b []byte) string {
	l := strings.Split(string(b), "\n")
	if len(l) > 36 {
		l = l[6:36]
	}
	return strings.Join(l, "\n")
}
