package main

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// item is a path still to be explored: the decisions that lead to it and an
// assignment that satisfies its path condition so far.
type item struct {
	prefix []uint64
	model  []uint64
}

const decImplied = 1 << 63

// SymIn is one symbolic input of a path with a value.
type SymIn struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

// PathRec is the outcome of one explored path.
type PathRec struct {
	Inputs  []SymIn `json:"inputs"`
	Outcome string  `json:"outcome"` // ok, assume, assert, panic, depth, steps, unsupported
	Msg     string  `json:"msg,omitempty"`
	Obs     string  `json:"obs,omitempty"`
	NoObs   bool    `json:"-"`
}

// Explorer runs one harness over all paths.
type Explorer struct {
	p        *Program
	entry    *ssa.Function
	solver   string
	tier     string
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []item
	busy     int
	stop     bool
	deadline time.Time
	timedOut bool
	maxRec   int

	paths     int64
	ends      map[string]int64
	recs      []PathRec
	cands     []PathRec
	covers    map[string]int64
	asserts   int64
	assertQ   int64
	params    map[string]int
	steps     int64
	forks     int64
	maskDec   int64
	queries   int64
	sat       int64
	unsat     int64
	unknown   int64
	solveTime time.Duration
	maxSolve  time.Duration
	vars      int
	fatal     string
	unsup     map[string]int64
	xcheck    bool
	xchecked  int64
	halt      atomic.Bool // a violation is reproduced: running paths end too
	try       func(PathRec) bool
	tries     int
	trying    sync.WaitGroup
	confMu    sync.Mutex
	confW     map[string]wideRes
	conf      map[string]string
	confUse   int64
	solMism   int64
}

// W is a worker.
type W struct {
	p       *Program
	ex      *Explorer
	ts      *Terms
	sol     *Solver
	globals []*Value

	inInit   bool
	journal  []jent
	restore  []func()
	initMaps []*MapObj

	slabs   [][]Value
	slab    []Value
	slabI   int
	sp      int
	spStack []int
	depth   int
	steps   int
	panicFr *frame

	cur       *coro
	coros     []*coro
	coroPanic any
	killing   bool
	killAck   chan struct{}
	longestCaps []int
	locks     map[*Value]*lockState
	race      *raceState

	maxDepth, maxSteps int

	pc      []*Term
	known   map[*Term]bool
	dom     []mask
	cons    [][]*Term // constraints on one variable
	ent     []bool
	uf      []int          // variables known to be equal: representative
	val     map[int]*Term  // representatives with a single value
	merged  bool
	eqs     [][2]int       // equalities of variables in the path condition
	nes     [][2]int
	cmemo   map[*Term]*Term
	model   []uint64
	prefix  []uint64
	pos     int
	dec     []uint64
	ins     []SymIn
	inVar   []*Term // term of the input value
	names   map[string]int
	obs     []Value
	cov     map[string]bool
	mapOrder    bool
	mapOrderMax int
	forkCap     int
	asserts int64
	assertQ int64
	forks   int64
	maskDec int64
	inDetail bool
	began    time.Time
	probeAt  time.Duration
}

// probeAfter is how long a path runs before its inputs are tried on the real code.
const probeAfter = 12 * time.Second

// tick ends the path when the harness is decided or out of time, and has the
// inputs of a path that takes long run on the real code meanwhile.
func (w *W) tick() {
	ex := w.ex
	if ex.try == nil || w.inInit {
		return
	}
	if ex.halt.Load() {
		panic(stopPath{"halted"})
	}
	now := time.Now()
	if now.After(ex.deadline) {
		ex.mu.Lock()
		ex.timedOut = true
		ex.mu.Unlock()
		panic(abort{"path not finished within the time limit", false})
	}
	if d := now.Sub(w.began); d > w.probeAt {
		w.probeAt = 4 * d
		ex.probe(PathRec{Inputs: w.inputs(w.model), Outcome: "slow", Msg: "a path took long"})
	}
}

// probe runs the inputs on the real code; a violation ends the exploration.
func (ex *Explorer) probe(rec PathRec) {
	if ex.try == nil {
		return
	}
	ex.mu.Lock()
	ex.tries++
	ok := ex.tries <= 40
	ex.mu.Unlock()
	if !ok {
		return
	}
	ex.trying.Add(1)
	go func() {
		defer ex.trying.Done()
		if ex.halt.Load() || !ex.try(rec) {
			return
		}
		ex.mu.Lock()
		if rec.Outcome == "slow" {
			ex.cands = append(ex.cands, rec)
		}
		ex.stop = true
		ex.mu.Unlock()
		ex.halt.Store(true)
		ex.cond.Broadcast()
	}()
}

func newWorker(p *Program, ex *Explorer) (*W, error) {
	w := &W{p: p, ex: ex, ts: NewTerms(), killAck: make(chan struct{}), maxDepth: 3000, maxSteps: 30_000_000}
	w.slabs = [][]Value{make([]Value, 1<<14)}
	w.slab = w.slabs[0]
	s, err := NewSolver(ex.solver, w.ts)
	if err != nil {
		return nil, err
	}
	w.sol = s
	return w, nil
}

// initProgram runs the package initialisers.
func (w *W) initProgram(pkg *ssa.Package) {
	w.inInit = true
	w.maxSteps = 1 << 60
	w.maxDepth = 1 << 30
	p := w.p
	p.mu.Lock()
	for _, pk := range p.ssa.AllPackages() {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				if _, ok := p.globals[g]; !ok {
					p.globals[g] = len(p.globList)
					p.globList = append(p.globList, g)
				}
			}
		}
	}
	gl := p.globList
	p.mu.Unlock()
	w.globals = make([]*Value, len(gl))
	for i, g := range gl {
		c := new(Value)
		*c = zero(deref(g.Type()))
		w.globals[i] = c
	}
	w.beginPath(item{})
	w.inInit = true
	w.call(p.fun(pkg.Func("init")), nil, nil)
	for _, m := range w.initMaps {
		m.base = true
	}
	w.initMaps = nil
	w.inInit = false
}

func (w *W) beginPath(it item) {
	w.ts.reset()
	w.sol.beginPath()
	w.pc = w.pc[:0]
	w.known = map[*Term]bool{}
	w.dom = w.dom[:0]
	w.cons = w.cons[:0]
	w.ent = w.ent[:0]
	w.uf = w.uf[:0]
	w.val = map[int]*Term{}
	w.merged = false
	w.eqs, w.nes = w.eqs[:0], w.nes[:0]
	w.cmemo = nil
	w.model = append([]uint64(nil), it.model...)
	w.prefix = it.prefix
	w.pos = 0
	w.dec = append(w.dec[:0:0], it.prefix...)
	w.ins = w.ins[:0:0]
	w.inVar = w.inVar[:0]
	w.names = map[string]int{}
	w.obs = nil
	w.cov = map[string]bool{}
	w.mapOrder = false
	w.mapOrderMax = 3
	w.forkCap = 300
	w.depth, w.steps = 0, 0
	w.panicFr = nil
	w.slabI, w.sp = 0, 0
	w.slab = w.slabs[0]
	w.spStack = w.spStack[:0]
	w.inDetail = false
	w.race = nil
	w.began, w.probeAt = time.Now(), probeAfter
}

func (w *W) endPath() {
	for i := len(w.journal) - 1; i >= 0; i-- {
		*w.journal[i].p = w.journal[i].old
	}
	clear(w.journal)
	w.journal = w.journal[:0]
	for i := len(w.restore) - 1; i >= 0; i-- {
		w.restore[i]()
	}
	w.restore = w.restore[:0]
}

// newVar makes a symbolic variable whose values are those with dom(v).
func (w *W) newVar(width uint8, def uint64) *Term {
	t := w.ts.NewVar("", width)
	n := len(w.ts.vars) - 1
	if width <= 8 {
		m := mask{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		if width < 8 {
			m = mask{}
			c := 1 << width
			if width == 0 {
				c = 2
			}
			for i := 0; i < c; i++ {
				m[i>>6] |= 1 << (uint(i) & 63)
			}
		}
		w.dom = append(w.dom, m)
	} else {
		w.dom = append(w.dom, mask{})
	}
	w.ent = append(w.ent, false)
	w.uf = append(w.uf, n)
	w.cons = append(w.cons, nil)
	if len(w.model) <= n {
		w.model = append(w.model, def)
	}
	return t
}

func (w *W) env(i int) uint64 { return w.model[i] }

func (w *W) ev(t *Term) uint64 { return eval(t, w.env) }

// quick decides a condition from single-variable knowledge.
func (w *W) quick(t *Term) (known, val bool) {
	if v, ok := w.known[t]; ok {
		return true, v
	}
	if !w.ts.small(t) {
		if a, b, neg := pair(t); a >= 0 {
			if w.apart(a, b) >= 0 {
				w.maskDec++
				return true, neg
			}
		}
		return false, false
	}
	m := w.ts.maskOf(t)
	d := &w.dom[t.sup]
	x := d.and(m)
	if x.empty() {
		w.maskDec++
		return true, false
	}
	if x == *d {
		w.maskDec++
		return true, true
	}
	return false, false
}

// maybe is false only if the condition cannot hold.
func (w *W) maybe(t *Term) bool {
	t = w.canon(t)
	if t.op == OConst {
		return t.val != 0
	}
	k, v := w.quick(t)
	return !k || v
}

func (w *W) addPC(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OAnd {
		w.addPC(t.a)
		w.addPC(t.b)
		return
	}
	if v, ok := w.known[t]; ok && v {
		return
	}
	w.pc = append(w.pc, t)
	w.known[t] = true
	w.known[w.ts.Not(t)] = false
	if t.sup >= 0 {
		w.cons[t.sup] = append(w.cons[t.sup], t)
		if w.ts.small(t) {
			w.dom[t.sup] = w.dom[t.sup].and(w.ts.maskOf(t))
			w.single(t.sup)
		}
		return
	}
	w.entangle(t, map[*Term]bool{})
	w.learn(t)
}

func (w *W) entangle(t *Term, seen map[*Term]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		w.ent[int(t.val)] = true
		return
	}
	w.entangle(t.a, seen)
	w.entangle(t.b, seen)
	w.entangle(t.c, seen)
}

// feasible decides PC and t; it returns a model.
func (w *W) feasible(t *Term) (bool, []uint64) {
	if t.op == OConst {
		return t.val != 0, w.model
	}
	if k, v := w.quick(t); k {
		if !v {
			if w.ex.xcheck {
				w.xcheck(t)
			}
			return false, nil
		}
		return true, w.model
	}
	if w.ts.small(t) && !w.ent[t.sup] {
		x := w.dom[t.sup].and(w.ts.maskOf(t))
		for i := 0; i < 256; i++ {
			if x.has(i) {
				m := append([]uint64(nil), w.model...)
				m[t.sup] = uint64(i)
				return true, m
			}
		}
	}
	if w.ev(t) != 0 {
		return true, w.model
	}
	if t.sup >= 0 && !w.ent[t.sup] && !w.ts.small(t) {
		return w.wide(t)
	}
	if m := w.guess(t); m != nil {
		return true, m
	}
	w.sol.until = w.ex.deadline
	sat, known, m := w.sol.Check(w.pc, t)
	if !known {
		panic(abort{"solver gave no verdict", false})
	}
	return sat, m
}

func (w *W) xcheck(t *Term) {
	w.ex.mu.Lock()
	w.ex.xchecked++
	w.ex.mu.Unlock()
	if w.ts.small(t) && w.confirm1(t.sup, t, "unsat") {
		return
	}
	if w.explain(t, false) || w.explain(t, true) {
		return
	}
	sat, known, _ := w.sol.Check(w.pc, t)
	if known && sat {
		panic(abort{"mask decision contradicted by the solver", true})
	}
}

// confirm1 has the solver decide the constraints on one variable and t; equal
// queries are sent once. For "unsat" it is sound to leave out what relates the
// variable to others; false means that this did not suffice.
func (w *W) confirm1(v int, t *Term, want string) bool {
	ts := w.ts
	var sb strings.Builder
	vw := ts.vars[v].w
	if vw == 0 {
		sb.WriteString("(declare-const x Bool)\n")
	} else {
		fmt.Fprintf(&sb, "(declare-const x (_ BitVec %d))\n", vw)
	}
	ts.one = "x"
	for _, c := range w.cons[v] {
		sb.WriteString("(assert ")
		ts.smt(&sb, c)
		sb.WriteString(")\n")
	}
	if t != nil {
		sb.WriteString("(assert ")
		ts.smt(&sb, t)
		sb.WriteString(")\n")
	}
	ts.one = ""
	txt := sb.String()
	ex := w.ex
	ex.confMu.Lock()
	ex.confUse++
	got, ok := ex.conf[txt]
	ex.confMu.Unlock()
	if !ok {
		got = w.sol.raw(txt)
		ex.confMu.Lock()
		ex.conf[txt] = got
		ex.confMu.Unlock()
	}
	if want == "sat" && got == "unsat" {
		panic(abort{"value-set decision contradicted by the solver: " + txt, true})
	}
	return got == want
}

func (w *W) enqueue(d uint64, model []uint64) {
	p := make([]uint64, len(w.dec)+1)
	copy(p, w.dec)
	p[len(w.dec)] = d
	w.forks++
	w.ex.push(item{p, model})
}

// branch decides a condition, forking if both sides are possible.
func (w *W) branch(t *Term) bool {
	if t.op == OConst {
		return t.val != 0
	}
	if c := w.canon(t); c != t {
		if c.op == OConst {
			if w.ex.xcheck && w.pos >= len(w.prefix) {
				if c.val != 0 {
					w.xcheck(w.ts.Not(t))
				} else {
					w.xcheck(t)
				}
			}
			return c.val != 0
		}
		t = c
	}
	if k, v := w.quick(t); k {
		if w.ex.xcheck && w.pos >= len(w.prefix) {
			if v {
				w.xcheck(w.ts.Not(t))
			} else {
				w.xcheck(t)
			}
		}
		return v
	}
	if w.inInit {
		panic(abort{"symbolic branch during init", true})
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		v := d&1 != 0
		if d&decImplied == 0 {
			if v {
				w.addPC(t)
			} else {
				w.addPC(w.ts.Not(t))
			}
		} else {
			w.known[t] = v
			w.known[w.ts.Not(t)] = !v
		}
		return v
	}
	w.tick()
	v := w.ev(t) != 0
	this, other := t, w.ts.Not(t)
	if !v {
		this, other = other, this
	}
	ok, m := w.feasible(other)
	w.pos++
	if ok {
		w.enqueue(b2u(!v), m)
		w.dec = append(w.dec, b2u(v))
		w.prefix = w.dec
		w.addPC(this)
	} else {
		w.dec = append(w.dec, b2u(v)|decImplied)
		w.prefix = w.dec
		w.known[t] = v
		w.known[w.ts.Not(t)] = !v
	}
	return v
}

// choose picks one of several exclusive and exhaustive conditions.
func (w *W) choose(conds []*Term) int {
	var idx []int
	if w.merged {
		conds = append([]*Term(nil), conds...)
		for i := range conds {
			conds[i] = w.canon(conds[i])
		}
	}
	for i, c := range conds {
		if c == w.ts.T {
			return i
		}
		if w.maybe(c) {
			if k, v := w.quick(c); k && v {
				return i
			}
			idx = append(idx, i)
		}
	}
	if len(idx) == 1 {
		w.addPC(conds[idx[0]])
		return idx[0]
	}
	if w.pos < len(w.prefix) {
		d := int(w.prefix[w.pos])
		w.pos++
		w.addPC(conds[d])
		return d
	}
	pick := -1
	for _, i := range idx {
		if w.ev(conds[i]) != 0 {
			pick = i
			break
		}
	}
	if pick < 0 {
		panic(abort{"choose: no condition holds in the model", true})
	}
	for _, i := range idx {
		if i == pick {
			continue
		}
		if ok, m := w.feasible(conds[i]); ok {
			w.enqueue(uint64(i), m)
		}
	}
	w.pos++
	w.dec = append(w.dec, uint64(pick))
	w.prefix = w.dec
	w.addPC(conds[pick])
	return pick
}

// free picks any of n alternatives (a schedule choice).
func (w *W) free(n int) int {
	if w.pos < len(w.prefix) {
		d := int(w.prefix[w.pos])
		w.pos++
		return d
	}
	for i := 1; i < n; i++ {
		w.enqueue(uint64(i), w.model)
	}
	w.pos++
	w.dec = append(w.dec, 0)
	w.prefix = w.dec
	return 0
}

// concretize forks over all possible values of t.
func (w *W) concretize(t *Term) uint64 {
	t = w.canon(t)
	if t.op == OConst {
		return t.val
	}
	eqc := func(v uint64) *Term { return w.ts.Eq(t, w.ts.Const(t.w, v)) }
	if w.pos < len(w.prefix) {
		v := w.prefix[w.pos]
		w.pos++
		w.addPC(eqc(v))
		return v
	}
	w.tick()
	v0 := w.ev(t)
	type alt struct {
		v uint64
		m []uint64
	}
	var alts []alt
	if w.ts.small(t) && !w.ent[t.sup] {
		seen := map[uint64]bool{v0: true}
		d := w.dom[t.sup]
		for i := 0; i < 256; i++ {
			if !d.has(i) {
				continue
			}
			val := eval(t, func(int) uint64 { return uint64(i) })
			if !seen[val] {
				seen[val] = true
				m := append([]uint64(nil), w.model...)
				m[t.sup] = uint64(i)
				alts = append(alts, alt{val, m})
			}
		}
		// the solver confirms that there is no further value
		none := w.ts.Not(eqc(v0))
		for _, a := range alts {
			none = w.ts.And(none, w.ts.Not(eqc(a.v)))
		}
		if none.op != OConst && !w.confirm1(t.sup, none, "unsat") {
			panic(abort{"value set contradicted by the solver", true})
		}
	} else {
		ex := w.ts.Not(eqc(v0))
		for {
			ok, m := w.feasible(ex)
			if !ok {
				break
			}
			val := eval(t, func(i int) uint64 { return m[i] })
			alts = append(alts, alt{val, m})
			if len(alts) > w.forkCap {
				panic(abort{fmt.Sprintf("unsupported: more than %d values of a symbolic index", w.forkCap), false})
			}
			ex = w.ts.And(ex, w.ts.Not(eqc(val)))
		}
	}
	for _, a := range alts {
		w.enqueue(a.v, a.m)
	}
	w.pos++
	w.dec = append(w.dec, v0)
	w.prefix = w.dec
	w.addPC(eqc(v0))
	return v0
}

// concString makes a string concrete by forking over its bytes.
func (w *W) concString(v Value) string {
	if s, ok := concStr(v); ok {
		return s
	}
	bs := strBytes(v)
	out := make([]byte, len(bs))
	for i, b := range bs {
		if b.t != nil {
			out[i] = byte(w.concretize(b.t))
		} else {
			out[i] = b.c
		}
	}
	return string(out)
}

func (w *W) assume(v Value) {
	if !w.branch(w.boolTerm(v)) {
		panic(stopPath{"assume"})
	}
}

func (w *W) assert(v Value, msg string) {
	w.asserts++
	t := w.boolTerm(v)
	if t.op == OConst {
		if t.val == 0 {
			w.candidate("assert", msg, w.model)
			panic(stopPath{"assert"})
		}
		return
	}
	if w.pos < len(w.prefix) { // decided on the path this one branched off
		w.addPC(t)
		return
	}
	w.assertQ++
	nt := w.ts.Not(t)
	sat, known, m := w.sol.Check(w.pc, nt)
	if !known {
		panic(abort{"solver gave no verdict", false})
	}
	if sat {
		w.candidate("assert", msg, m)
		ok, m2 := w.feasible(t)
		if !ok {
			panic(stopPath{"assert"})
		}
		if w.ev(t) == 0 {
			w.model = m2
		}
	}
	w.addPC(t)
}

func (w *W) inputs(model []uint64) []SymIn {
	ins := make([]SymIn, len(w.ins))
	for i := range w.ins {
		t := w.inVar[i]
		v := eval(t, func(j int) uint64 {
			if j < len(model) {
				return model[j]
			}
			return w.model[j]
		})
		ins[i] = SymIn{w.ins[i].Name, int64(v)}
		if t.w > 8 {
			ins[i].Val = sx(v, t.w)
		}
	}
	return ins
}

func (w *W) candidate(kind, msg string, model []uint64) {
	rec := PathRec{Inputs: w.inputs(model), Outcome: kind, Msg: msg}
	w.ex.mu.Lock()
	w.ex.cands = append(w.ex.cands, rec)
	if len(w.ex.cands) >= 200 {
		w.ex.stop = true
		w.ex.cond.Broadcast()
	}
	w.ex.mu.Unlock()
	if kind == "assert" || kind == "panic" || kind == "race" {
		w.ex.probe(rec)
	}
}

func (w *W) obsString() string {
	var sb strings.Builder
	for _, o := range w.obs {
		for _, b := range strBytes(o) {
			if b.t != nil {
				sb.WriteByte(byte(w.ev(b.t)))
			} else {
				sb.WriteByte(b.c)
			}
		}
		sb.WriteByte(0)
	}
	return sb.String()
}

// runPath explores one path.
func (w *W) runPath(it item) (err error) {
	w.beginPath(it)
	end := "ok"
	msg := ""
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case stopPath:
				end = x.why
			case *targetPanic:
				end = "panic"
				msg = x.msg
			case abort:
				if x.fatal {
					err = fmt.Errorf("%s", x.msg)
				}
				end = "unsupported"
				msg = x.msg
			default:
				end = "unsupported"
				msg = fmt.Sprintf("engine: %v", r)
				if debugEngine {
					msg += "\n" + string(debug.Stack())
				}
			}
		}()
		w.call(w.p.fun(w.ex.entry), nil, nil)
	}()
	w.endCoros()
	w.locks = nil
	rec := PathRec{Outcome: end, Msg: msg}
	switch end {
	case "panic", "depth", "steps":
		w.candidate(end, msg, w.model)
	}
	if end == "ok" && err == nil {
		// the solver confirms that the path condition has a model
		func() {
			defer func() {
				if r := recover(); r != nil {
					rec.Outcome, end = "unsupported", "unsupported"
					rec.Msg = fmt.Sprint(r)
				}
			}()
			any := false
			for i, e := range w.ent {
				any = any || e
				if !e && len(w.cons[i]) > 0 {
					w.confirm1(i, nil, "sat")
				}
			}
			if any {
				w.sol.later(w.pc, w.ent)
				if w.sol.batchN >= batchMax && !w.sol.flush() {
					err = fmt.Errorf("a path condition has no model")
				}
			}
		}()
	}
	if end == "ok" || end == "unsupported" {
		rec.Inputs = w.inputs(w.model)
		if end == "ok" {
			rec.Obs = w.obsString()
		}
	}
	w.endPath()
	ex := w.ex
	ex.mu.Lock()
	ex.paths++
	ex.ends[end]++
	ex.steps += int64(w.steps)
	if len(w.ts.vars) > ex.vars {
		ex.vars = len(w.ts.vars)
	}
	if end == "ok" || end == "unsupported" {
		if len(ex.recs) < ex.maxRec || end == "unsupported" {
			ex.recs = append(ex.recs, rec)
		}
	}
	if end == "unsupported" {
		ex.unsup[msg]++
	}
	if end == "ok" {
		for c := range w.cov {
			ex.covers[c]++
		}
	}
	ex.mu.Unlock()
	return err
}

func (ex *Explorer) push(it item) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

// pop returns the next item; ok=false when everything is done.
func (ex *Explorer) pop() (item, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop || ex.fatal != "" {
			return item{}, false
		}
		if time.Now().After(ex.deadline) {
			if len(ex.queue) > 0 || ex.busy > 0 {
				ex.timedOut = true
			}
			return item{}, false
		}
		if n := len(ex.queue); n > 0 {
			it := ex.queue[n-1]
			ex.queue[n-1] = item{}
			ex.queue = ex.queue[:n-1]
			ex.busy++
			return it, true
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return item{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.busy--
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

// run explores all paths with the given workers.
func (ex *Explorer) run(ws []*W) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.ends = map[string]int64{}
	ex.covers = map[string]int64{}
	ex.params = map[string]int{}
	ex.unsup = map[string]int64{}
	ex.conf = map[string]string{}
	ex.queue = []item{{}}
	var wg sync.WaitGroup
	for _, w := range ws {
		w.ex = ex
		w.maxDepth, w.maxSteps = 3000, 30_000_000
		q0 := [4]int64{w.sol.Queries, w.sol.Sat, w.sol.Unsat, w.sol.Unknown}
		t0 := w.sol.Time
		w.asserts, w.assertQ, w.forks, w.maskDec = 0, 0, 0, 0
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			for {
				it, ok := ex.pop()
				if !ok {
					break
				}
				if err := w.runPath(it); err != nil {
					ex.mu.Lock()
					ex.fatal = err.Error()
					ex.mu.Unlock()
				}
				ex.done()
			}
			func() {
				defer func() { recover() }()
				if !w.sol.flush() {
					ex.mu.Lock()
					ex.fatal = "a path condition has no model"
					ex.mu.Unlock()
				}
			}()
			ex.mu.Lock()
			ex.queries += w.sol.Queries - q0[0]
			ex.sat += w.sol.Sat - q0[1]
			ex.unsat += w.sol.Unsat - q0[2]
			ex.unknown += w.sol.Unknown - q0[3]
			ex.solveTime += w.sol.Time - t0
			if w.sol.MaxTime > ex.maxSolve {
				ex.maxSolve = w.sol.MaxTime
			}
			ex.asserts += w.asserts
			ex.assertQ += w.assertQ
			ex.forks += w.forks
			ex.maskDec += w.maskDec
			ex.mu.Unlock()
		}(w)
	}
	wg.Wait()
	ex.trying.Wait()
}

func (ex *Explorer) summary() string {
	var ks []string
	for k, v := range ex.ends {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return fmt.Sprintf("paths=%d (%s) queries=%d unsat=%d solver=%.1fs steps=%d forks=%d candidates=%d", ex.paths, strings.Join(ks, " "), ex.queries, ex.unsat, ex.solveTime.Seconds(), ex.steps, ex.forks, len(ex.cands))
}

func jsonStr(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
