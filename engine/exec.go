package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// abort ends the current path for a reason that is not a behaviour of the
// executed program. fatal means the whole run is broken.
type abort struct {
	msg   string
	fatal bool
}

// stopPath ends a path normally (failed assumption, finished after a reported
// violation, or a limit).
type stopPath struct{ why string }

// targetPanic is a panic of the executed program.
type targetPanic struct {
	v   Value
	msg string
}

func unsupported(f string, a ...any) { panic(abort{"unsupported: " + fmt.Sprintf(f, a...), false}) }

type Func struct {
	prog     *Program
	fn       *ssa.Function
	name     string
	intr     func(w *W, f *Func, args []Value) Value
	nregs    int
	nparams  int
	blocks   []block
	hasDefer bool
	recover  int
	compiled atomic.Bool
	mu       sync.Mutex
	inRepo   bool
	resTypes []types.Type
	used     atomic.Bool
}

type instr func(fr *frame)

type block struct {
	ins  []instr
	phis []phiSet // indexed by predecessor position
	term func(fr *frame) int
	pred []int
	cost int
}

type phiSet struct {
	dst []int
	src []opnd
}

type deferred struct {
	fn   func()
	next *deferred
}

type frame struct {
	w         *W
	fn        *Func
	regs      []Value
	env       []Value
	defers    []func()
	panicking *targetPanic
	ret       Value
	callerFr  *frame
	deferOf   *frame // frame whose deferred call this is
}

const (
	kReg = iota
	kConst
	kGlobal
)

type opnd struct {
	kind int
	i    int
	v    Value
}

func (o *opnd) get(fr *frame) Value {
	switch o.kind {
	case kReg:
		return fr.regs[o.i]
	case kConst:
		return o.v
	}
	return Value{R: fr.w.globals[o.i]}
}

// Program is the loaded program shared by all workers.
type Program struct {
	ssa      *ssa.Program
	types    typeTable
	sizes    types.Sizes
	mu       sync.Mutex
	funcs    map[*ssa.Function]*Func
	globals  map[*ssa.Global]int
	globList []*ssa.Global
	errorStr types.Type // *errors.errorString
	methMu   sync.Mutex
	implMu   sync.RWMutex
	impl     map[implKey]bool
	repoPfx  string
}

type implKey struct {
	t  *TypeInfo
	it *types.Interface
}

func (p *Program) implements(t *TypeInfo, it *types.Interface) bool {
	k := implKey{t, it}
	p.implMu.RLock()
	r, ok := p.impl[k]
	p.implMu.RUnlock()
	if ok {
		return r
	}
	r = types.Implements(t.T, it)
	p.implMu.Lock()
	p.impl[k] = r
	p.implMu.Unlock()
	return r
}

func (p *Program) global(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	i, ok := p.globals[g]
	if !ok {
		i = len(p.globList)
		p.globals[g] = i
		p.globList = append(p.globList, g)
	}
	return i
}

func (p *Program) fun(f *ssa.Function) *Func {
	p.mu.Lock()
	defer p.mu.Unlock()
	fn := p.funcs[f]
	if fn == nil {
		fn = &Func{prog: p, fn: f, name: f.String()}
		base := f
		if o := f.Origin(); o != nil {
			base = o
		}
		fn.intr = lookupIntrinsic(base.String(), base)
		pk := f.Package()
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Package()
		}
		if pk == nil && f.Object() != nil && f.Object().Pkg() != nil {
			fn.inRepo = strings.HasPrefix(f.Object().Pkg().Path(), p.repoPfx)
		}
		if pk != nil {
			fn.inRepo = strings.HasPrefix(pk.Pkg.Path(), p.repoPfx)
		}
		sig := f.Signature
		for i := 0; i < sig.Results().Len(); i++ {
			fn.resTypes = append(fn.resTypes, sig.Results().At(i).Type())
		}
		p.funcs[f] = fn
	}
	return fn
}

func (p *Program) method(t *TypeInfo, pkg *types.Package, name string) *Func {
	key := name
	if pkg != nil && !token.IsExported(name) {
		key = pkg.Path() + "." + name
	}
	t.mu.RLock()
	f, ok := t.ms[key]
	t.mu.RUnlock()
	if ok {
		return f
	}
	p.methMu.Lock()
	sel := types.NewMethodSet(t.T).Lookup(pkg, name)
	if sel == nil {
		p.methMu.Unlock()
		return nil
	}
	sf := p.ssa.MethodValue(sel)
	p.methMu.Unlock()
	if sf == nil {
		return nil
	}
	f = p.fun(sf)
	t.mu.Lock()
	t.ms[key] = f
	t.mu.Unlock()
	return f
}

type jent struct {
	p   *Value
	old Value
}

func (w *W) store(p *Value, v Value) {
	if p == nil {
		w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if b, ok := v.R.(*Agg); ok {
		if a, ok := p.R.(*Agg); ok {
			if a == b {
				return
			}
			for i := range b.f {
				w.store(&a.f[i], b.f[i])
			}
			return
		}
		v = copyVal(v)
	}
	if !w.inInit {
		if w.race != nil {
			w.raceWrite(p)
		}
		w.journal = append(w.journal, jent{p, *p})
	}
	*p = v
}

func ptrOf(w *W, v Value) *Value {
	if p, ok := v.R.(*Value); ok {
		return p
	}
	if v.R == nil {
		w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	unsupported("pointer %T", v.R)
	return nil
}

type symPtr struct {
	cells []Value
	idx   Value
	typ   types.Type
}

func (w *W) load(v Value) Value {
	switch p := v.R.(type) {
	case *Value:
		if w.race != nil {
			w.raceRead(p)
		}
		return copyVal(*p)
	case nil:
		w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	case *symPtr:
		if w.race != nil {
			w.raceCells(p.cells)
		}
		return w.selectVal(p.cells, p.idx, p.typ)
	}
	unsupported("load through %T", v.R)
	return Value{}
}

// selectVal reads cells[idx] for a symbolic in-range index.
func (w *W) selectVal(cells []Value, idx Value, et types.Type) Value {
	t, ok := idx.R.(*Term)
	if !ok {
		return copyVal(cells[int(int64(idx.N))])
	}
	k, isInt := intKindOf(et)
	if isBool(et) {
		isInt = true
	}
	if !isInt {
		return copyVal(cells[int(int64(w.concretize(t)))])
	}
	// which indices are possible?
	lo := 0
	n := len(cells)
	type grp struct {
		v    Value
		cond *Term
	}
	var gs []grp
	find := func(v Value) int {
		for i := range gs {
			if gs[i].v == v {
				return i
			}
		}
		return -1
	}
	b := t
	for b.op == OZext {
		b = b.a
	}
	if b.op == OVar && b.w > 0 && b.w <= 8 {
		d := &w.dom[w.rep(int(b.val))]
		var ms []mask
		big := 0
		var cnts []int
		for i := lo; i < n && i < 256; i++ {
			if !d.has(i) {
				continue
			}
			j := find(cells[i])
			if j < 0 {
				if len(gs) > 48 {
					return copyVal(cells[int(int64(w.concretize(t)))])
				}
				j = len(gs)
				gs = append(gs, grp{v: cells[i]})
				ms = append(ms, mask{})
				cnts = append(cnts, 0)
			}
			ms[j][i>>6] |= 1 << (uint(i) & 63)
			cnts[j]++
		}
		if len(gs) == 0 {
			return copyVal(cells[int(int64(w.concretize(t)))])
		}
		for j := range gs {
			if cnts[j] > cnts[big] {
				big = j
			}
		}
		r := gs[big].v
		for j := len(gs) - 1; j >= 0; j-- {
			if j == big {
				continue
			}
			c := w.maskTerm(b, &ms[j], 256)
			if isBool(et) {
				r = boolTermV(w.ts.Ite(c, w.boolTerm(gs[j].v), w.boolTerm(r)))
			} else {
				r = termV(w.ts.Ite(c, w.intTerm(gs[j].v, k), w.intTerm(r, k)), k)
			}
		}
		return r
	}
	cnt := 0
	for i := lo; i < n; i++ {
		c := w.ts.Eq(t, w.ts.Const(t.w, uint64(i)))
		if c == w.ts.F || !w.maybe(c) {
			continue
		}
		cnt++
		j := find(cells[i])
		if j < 0 {
			if len(gs) > 48 {
				return copyVal(cells[int(int64(w.concretize(t)))])
			}
			gs = append(gs, grp{cells[i], c})
		} else {
			gs[j].cond = w.ts.Or(gs[j].cond, c)
		}
	}
	if len(gs) == 0 {
		return copyVal(cells[int(int64(w.concretize(t)))])
	}
	r := gs[len(gs)-1].v
	for i := len(gs) - 2; i >= 0; i-- {
		if isBool(et) {
			r = boolTermV(w.ts.Ite(gs[i].cond, w.boolTerm(gs[i].v), w.boolTerm(r)))
		} else {
			r = termV(w.ts.Ite(gs[i].cond, w.intTerm(gs[i].v, k), w.intTerm(r, k)), k)
		}
	}
	return r
}

// compile translates the SSA of f.
func (f *Func) compile() {
	if f.compiled.Load() {
		return
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.compiled.Load() {
		return
	}
	c := &compiler{p: f.prog, f: f, regs: map[ssa.Value]int{}}
	fn := f.fn
	for _, p := range fn.Params {
		c.regs[p] = f.nregs
		f.nregs++
	}
	f.nparams = f.nregs
	for _, p := range fn.FreeVars {
		c.regs[p] = f.nregs
		f.nregs++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = f.nregs
				f.nregs++
			}
			switch in.(type) {
			case *ssa.Defer:
				f.hasDefer = true
			}
		}
	}
	f.recover = -1
	if fn.Recover != nil {
		f.recover = fn.Recover.Index
	}
	f.blocks = make([]block, len(fn.Blocks))
	for i, b := range fn.Blocks {
		c.block(&f.blocks[i], b)
	}
	f.compiled.Store(true)
}

type compiler struct {
	p    *Program
	f    *Func
	regs map[ssa.Value]int
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{kind: kConst, v: c.constVal(x)}
	case *ssa.Global:
		return opnd{kind: kGlobal, i: c.p.global(x)}
	case *ssa.Function:
		return opnd{kind: kConst, v: Value{R: &FuncVal{fn: c.p.fun(x), name: x.String()}}}
	case *ssa.Builtin:
		return opnd{kind: kConst}
	}
	i, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s %T in %s", v.Name(), v, c.f.name))
	}
	return opnd{kind: kReg, i: i}
}

func (c *compiler) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func (c *compiler) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return zero(t)
	}
	u := t.Underlying()
	b, ok := u.(*types.Basic)
	if !ok {
		return Value{R: &Opaque{"bad const " + x.String()}}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return boolV(constant.BoolVal(x.Value))
	case b.Info()&types.IsString != 0:
		if x.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(x.Value)
			return strV(string(rune(n)))
		}
		return strV(constant.StringVal(x.Value))
	case b.Info()&types.IsInteger != 0:
		k, _ := intKindOf(t)
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: k.norm(uint64(i))}
		}
		n, _ := constant.Uint64Val(v)
		return Value{N: k.norm(n)}
	case b.Info()&types.IsFloat != 0:
		fl, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if b.Kind() == types.Float32 {
			fl = float64(float32(fl))
		}
		return Value{N: math.Float64bits(fl)}
	}
	return Value{R: &Opaque{"bad const " + x.String()}}
}

func (c *compiler) block(bl *block, b *ssa.BasicBlock) {
	bl.phis = make([]phiSet, len(b.Preds))
	for _, p := range b.Preds {
		bl.pred = append(bl.pred, p.Index)
	}
	bl.cost = len(b.Instrs)
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				bl.phis[i].dst = append(bl.phis[i].dst, c.regs[x])
				bl.phis[i].src = append(bl.phis[i].src, c.op(e))
			}
		case *ssa.If:
			cond := c.op(x.Cond)
			a, bb := b.Succs[0].Index, b.Succs[1].Index
			bl.term = func(fr *frame) int {
				v := cond.get(fr)
				if t, ok := v.R.(*Term); ok {
					if fr.w.branch(t) {
						return a
					}
					return bb
				}
				if v.N != 0 {
					return a
				}
				return bb
			}
		case *ssa.Jump:
			a := b.Succs[0].Index
			bl.term = func(fr *frame) int { return a }
		case *ssa.Return:
			os := c.ops(x.Results)
			bl.term = func(fr *frame) int {
				switch len(os) {
				case 0:
				case 1:
					fr.ret = os[0].get(fr)
				default:
					vs := make([]Value, len(os))
					for i := range os {
						vs[i] = os[i].get(fr)
					}
					fr.ret = Value{R: vs}
				}
				return -1
			}
		case *ssa.Panic:
			o := c.op(x.X)
			bl.term = func(fr *frame) int {
				v := o.get(fr)
				panic(&targetPanic{v: v, msg: fr.w.panicMsg(v)})
			}
		default:
			if i := c.instr(in); i != nil {
				bl.ins = append(bl.ins, i)
			}
		}
	}
}

func (w *W) panicMsg(v Value) string {
	i, ok := v.R.(*Iface)
	if !ok {
		return "panic(nil)"
	}
	if s, ok := concStr(i.V); ok && isString(i.T.T) {
		return "panic: " + s
	}
	return "panic: value of type " + i.T.T.String()
}

func (w *W) rtPanic(msg string) {
	// an error value
	st := zero(w.p.errorStr.(*types.Pointer).Elem())
	st.R.(*Agg).f[0] = strV(msg)
	cell := new(Value)
	*cell = st
	panic(&targetPanic{v: Value{R: &Iface{w.p.types.get(w.p.errorStr), Value{R: cell}}}, msg: "panic: " + msg})
}

// call runs f.
func (w *W) call(f *Func, args []Value, env []Value) Value {
	if f.intr != nil {
		return f.intr(w, f, args)
	}
	if !f.compiled.Load() {
		if len(f.fn.Blocks) == 0 {
			unsupported("no body: %s", f.name)
		}
		f.compile()
	}
	if f.inRepo && !f.used.Load() {
		f.used.Store(true)
	}
	w.depth++
	if w.depth > w.maxDepth {
		panic(stopPath{"depth"})
	}
	regs := w.alloc(f.nregs)
	copy(regs, args)
	if len(env) > 0 {
		copy(regs[f.nparams:], env)
	}
	fr := frame{w: w, fn: f, regs: regs}
	if f.hasDefer {
		w.runDeferFrame(&fr)
	} else {
		w.run(&fr, 0)
	}
	w.release(regs)
	w.depth--
	return fr.ret
}

// Register slab.
func (w *W) alloc(n int) []Value {
	if w.sp+n > len(w.slab) {
		if w.slabI+1 < len(w.slabs) && n <= len(w.slabs[w.slabI+1]) {
			w.slabI++
		} else {
			sz := 1 << 14
			if n > sz {
				sz = n
			}
			w.slabs = append(w.slabs[:w.slabI+1], make([]Value, sz))
			w.slabI++
		}
		w.spStack = append(w.spStack, w.sp)
		w.slab = w.slabs[w.slabI]
		w.sp = 0
	}
	r := w.slab[w.sp : w.sp+n : w.sp+n]
	w.sp += n
	return r
}

func (w *W) release(r []Value) {
	clear(r)
	w.sp -= len(r)
	if w.sp == 0 && w.slabI > 0 {
		w.slabI--
		w.slab = w.slabs[w.slabI]
		w.sp = w.spStack[len(w.spStack)-1]
		w.spStack = w.spStack[:len(w.spStack)-1]
	}
}

type slabMark struct{ sp, slabI, nst, depth int }

func (w *W) mark() slabMark { return slabMark{w.sp, w.slabI, len(w.spStack), w.depth} }
func (w *W) reset(m slabMark) {
	w.sp, w.slabI, w.depth = m.sp, m.slabI, m.depth
	w.spStack = w.spStack[:m.nst]
	w.slab = w.slabs[w.slabI]
	clear(w.slab[w.sp:])
}

func (w *W) run(fr *frame, b int) {
	f := fr.fn
	prev := -1
	for {
		bl := &f.blocks[b]
		w.steps += bl.cost
		if w.steps > w.maxSteps {
			panic(stopPath{"steps"})
		}
		if prev >= 0 && len(bl.pred) > 0 {
			pi := 0
			for bl.pred[pi] != prev {
				pi++
			}
			ph := &bl.phis[pi]
			switch len(ph.dst) {
			case 0:
			case 1:
				fr.regs[ph.dst[0]] = ph.src[0].get(fr)
			default:
				var tmp [16]Value
				t := tmp[:0]
				for i := range ph.src {
					t = append(t, ph.src[i].get(fr))
				}
				for i, d := range ph.dst {
					fr.regs[d] = t[i]
				}
			}
		}
		for _, in := range bl.ins {
			in(fr)
		}
		nb := bl.term(fr)
		if nb < 0 {
			return
		}
		prev, b = b, nb
	}
}

// runDeferFrame runs a frame that has deferred calls.
func (w *W) runDeferFrame(fr *frame) {
	m := w.mark()
	if w.protect(fr, func() { w.run(fr, 0) }) {
		return
	}
	// panicking: run the deferred calls
	w.runDefers(fr, m)
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	w.reset(m)
	if fr.fn.recover >= 0 {
		w.run(fr, fr.fn.recover)
	} else {
		switch n := len(fr.fn.resTypes); n {
		case 0:
		case 1:
			fr.ret = zero(fr.fn.resTypes[0])
		default:
			vs := make([]Value, n)
			for i := range vs {
				vs[i] = zero(fr.fn.resTypes[i])
			}
			fr.ret = Value{R: vs}
		}
	}
}

func (w *W) protect(fr *frame, f func()) (ok bool) {
	defer func() {
		if ok {
			return
		}
		r := recover()
		if p, is := r.(*targetPanic); is {
			fr.panicking = p
			return
		}
		panic(r)
	}()
	f()
	return true
}

func (w *W) runDefers(fr *frame, m slabMark) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if fr.panicking != nil {
			// keep the registers of this frame
			w.resetKeep(m)
		}
		save := w.panicFr
		w.panicFr = fr
		ok := w.protect(fr, d)
		w.panicFr = save
		_ = ok
	}
}

func (w *W) resetKeep(m slabMark) {
	w.sp, w.slabI, w.depth = m.sp, m.slabI, m.depth
	w.spStack = w.spStack[:m.nst]
	w.slab = w.slabs[w.slabI]
}

// prepCall evaluates callee and arguments; the returned function performs the call.
type callPrep func(fr *frame) (f *Func, args []Value, env []Value, native func(w *W, args []Value) Value)

func (c *compiler) callInstr(cc *ssa.CallCommon, pos token.Pos) func(fr *frame) Value {
	p := c.p
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		args := c.ops(cc.Args)
		m := cc.Method
		name, pkg := m.Name(), m.Pkg()
		return func(fr *frame) Value {
			w := fr.w
			rv := recv.get(fr)
			i, ok := rv.R.(*Iface)
			if !ok {
				w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			f := p.method(i.T, pkg, name)
			if f == nil {
				unsupported("method %s of %s", name, i.T.T)
			}
			a := w.alloc(len(args) + 1)
			a[0] = i.V
			for j := range args {
				a[j+1] = args[j].get(fr)
			}
			r := w.call(f, a, nil)
			w.release(a)
			return r
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b, cc)
	}
	args := c.ops(cc.Args)
	if sf := cc.StaticCallee(); sf != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			fv := c.op(mc)
			return func(fr *frame) Value {
				w := fr.w
				f := fv.get(fr).R.(*FuncVal)
				a := w.alloc(len(args))
				for j := range args {
					a[j] = args[j].get(fr)
				}
				r := w.call(f.fn, a, f.env)
				w.release(a)
				return r
			}
		}
		f := p.fun(sf)
		return func(fr *frame) Value {
			w := fr.w
			a := w.alloc(len(args))
			for j := range args {
				a[j] = args[j].get(fr)
			}
			r := w.call(f, a, nil)
			w.release(a)
			return r
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) Value {
		w := fr.w
		f, ok := fv.get(fr).R.(*FuncVal)
		if !ok {
			w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		a := w.alloc(len(args))
		for j := range args {
			a[j] = args[j].get(fr)
		}
		r := w.callFV(f, a)
		w.release(a)
		return r
	}
}

func (w *W) callFV(f *FuncVal, a []Value) Value {
	if f.native != nil {
		return f.native(w, a)
	}
	return w.call(f.fn, a, f.env)
}

// deferInstr evaluates now and returns the thunk.
func (c *compiler) deferInstr(cc *ssa.CallCommon) func(fr *frame) func() {
	p := c.p
	args := c.ops(cc.Args)
	eval := func(fr *frame, extra int) []Value {
		a := make([]Value, len(args)+extra)
		for j := range args {
			a[j+extra] = args[j].get(fr)
		}
		return a
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(fr *frame) func() {
			w := fr.w
			i, ok := recv.get(fr).R.(*Iface)
			if !ok {
				w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			f := p.method(i.T, m.Pkg(), m.Name())
			a := eval(fr, 1)
			a[0] = i.V
			return func() { w.call(f, a, nil) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		call := c.builtin(b, cc)
		return func(fr *frame) func() { return func() { call(fr) } }
	}
	fv := c.op(cc.Value)
	return func(fr *frame) func() {
		w := fr.w
		f, ok := fv.get(fr).R.(*FuncVal)
		a := eval(fr, 0)
		return func() {
			if !ok {
				w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			w.callFV(f, a)
		}
	}
}

func (c *compiler) instr(in ssa.Instruction) instr {
	p := c.p
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if isAgg(t) {
			return func(fr *frame) {
				cell := new(Value)
				*cell = zero(t)
				fr.regs[dst] = Value{R: cell}
			}
		}
		z := zero(t)
		return func(fr *frame) {
			cell := new(Value)
			*cell = z
			fr.regs[dst] = Value{R: cell}
		}
	case *ssa.UnOp:
		return c.unop(x, dst)
	case *ssa.BinOp:
		return c.binop(x, dst)
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(fr *frame) {
			fr.w.store(ptrOf(fr.w, a.get(fr)), v.get(fr))
		}
	case *ssa.Call:
		f := c.callInstr(&x.Call, x.Pos())
		return func(fr *frame) { fr.regs[dst] = f(fr) }
	case *ssa.Defer:
		d := c.deferInstr(&x.Call)
		return func(fr *frame) { fr.defers = append(fr.defers, d(fr)) }
	case *ssa.RunDefers:
		return func(fr *frame) {
			w := fr.w
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				save := w.panicFr
				w.panicFr = nil
				d()
				w.panicFr = save
			}
		}
	case *ssa.Go:
		d := c.deferInstr(&x.Call)
		return func(fr *frame) { fr.w.spawn(d(fr)) }
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(fr *frame) { fr.w.send(fr.w.chanOf(ch.get(fr)), v.get(fr)) }
	case *ssa.Select:
		return c.selectInstr(x, dst)
	case *ssa.MakeChan:
		n := c.op(x.Size)
		et := x.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			if fr.w.inInit {
				unsupported("channel made in an initialiser")
			}
			fr.regs[dst] = Value{R: &Chan{cap: int(fr.w.concInt(n.get(fr), types.Typ[types.Int])), et: et}}
		}
	case *ssa.FieldAddr:
		a := c.op(x.X)
		i := x.Field
		return func(fr *frame) {
			p := ptrOf(fr.w, a.get(fr))
			if p == nil {
				fr.w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			ag, ok := p.R.(*Agg)
			if !ok {
				unsupported("field of %T in %s", p.R, fr.fn.name)
			}
			fr.regs[dst] = Value{R: &ag.f[i]}
		}
	case *ssa.Field:
		a := c.op(x.X)
		i := x.Field
		return func(fr *frame) { fr.regs[dst] = a.get(fr).R.(*Agg).f[i] }
	case *ssa.IndexAddr:
		return c.indexAddr(x, dst)
	case *ssa.Index:
		a, ix := c.op(x.X), c.op(x.Index)
		xt := x.X.Type()
		it := x.Index.Type()
		if isString(xt) {
			return func(fr *frame) { fr.regs[dst] = fr.w.strIndex(a.get(fr), ix.get(fr), it) }
		}
		et := x.Type()
		return func(fr *frame) {
			f := a.get(fr).R.(*Agg).f
			iv := fr.w.checkIndex(ix.get(fr), it, len(f))
			fr.regs[dst] = fr.w.selectVal(f, iv, et)
		}
	case *ssa.Lookup:
		a, ix := c.op(x.X), c.op(x.Index)
		if isString(x.X.Type()) {
			it := x.Index.Type()
			return func(fr *frame) { fr.regs[dst] = fr.w.strIndex(a.get(fr), ix.get(fr), it) }
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		ok := x.CommaOk
		return func(fr *frame) {
			m, _ := a.get(fr).R.(*MapObj)
			e := fr.w.mapFind(m, ix.get(fr))
			var v Value
			if e != nil {
				v = e.v
			} else {
				v = zero(vt)
			}
			if ok {
				v = Value{R: []Value{v, boolV(e != nil)}}
			}
			fr.regs[dst] = v
		}
	case *ssa.MapUpdate:
		a, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *frame) {
			m, _ := a.get(fr).R.(*MapObj)
			fr.w.mapSet(m, k.get(fr), v.get(fr))
		}
	case *ssa.MakeMap:
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.regs[dst] = Value{R: fr.w.newMap(kt)} }
	case *ssa.MakeSlice:
		l, cp := c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		lt, ct := x.Len.Type(), x.Cap.Type()
		agg := isAgg(et) || isString(et)
		return func(fr *frame) {
			w := fr.w
			n := w.concInt(l.get(fr), lt)
			m := w.concInt(cp.get(fr), ct)
			if n < 0 || n > 1<<26 {
				w.rtPanic("runtime error: makeslice: len out of range")
			}
			if m < n || m > 1<<26 {
				w.rtPanic("runtime error: makeslice: cap out of range")
			}
			a := make([]Value, m)
			if agg {
				for i := range a {
					a[i] = zero(et)
				}
			}
			w.steps += int(m) / 8
			fr.regs[dst] = mkSlice(a[:n])
		}
	case *ssa.MakeClosure:
		f := p.fun(x.Fn.(*ssa.Function))
		bs := c.ops(x.Bindings)
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = Value{R: &FuncVal{fn: f, env: env, name: f.name}}
		}
	case *ssa.MakeInterface:
		a := c.op(x.X)
		ti := p.types.get(x.X.Type())
		return func(fr *frame) { fr.regs[dst] = Value{R: &Iface{ti, a.get(fr)}} }
	case *ssa.ChangeInterface:
		a := c.op(x.X)
		return func(fr *frame) { fr.regs[dst] = a.get(fr) }
	case *ssa.ChangeType:
		a := c.op(x.X)
		return func(fr *frame) { fr.regs[dst] = a.get(fr) }
	case *ssa.Convert:
		return c.convert(x, dst)
	case *ssa.MultiConvert:
		return func(fr *frame) { unsupported("multiconvert") }
	case *ssa.SliceToArrayPointer:
		a := c.op(x.X)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			v := a.get(fr)
			s := sliceOf(v)
			if len(s) < n {
				fr.w.rtPanic(fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			if v.R == nil {
				fr.regs[dst] = Value{}
				return
			}
			fr.regs[dst] = Value{R: &Value{R: &Agg{f: s[:n:n]}}}
		}
	case *ssa.Extract:
		a := c.op(x.Tuple)
		i := x.Index
		return func(fr *frame) { fr.regs[dst] = a.get(fr).R.([]Value)[i] }
	case *ssa.Slice:
		return c.slice(x, dst)
	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)
	case *ssa.Range:
		a := c.op(x.X)
		str := isString(x.X.Type())
		return func(fr *frame) {
			v := a.get(fr)
			if str {
				fr.regs[dst] = Value{R: &strIter{s: v}}
			} else {
				m, _ := v.R.(*MapObj)
				it := &mapIter{m: m, inRepo: fr.fn.inRepo}
				fr.regs[dst] = Value{R: it}
			}
		}
	case *ssa.Next:
		a := c.op(x.Iter)
		if x.IsString {
			return func(fr *frame) { fr.regs[dst] = fr.w.strNext(a.get(fr).R.(*strIter)) }
		}
		tup := x.Type().(*types.Tuple)
		kt, vt := tup.At(1).Type(), tup.At(2).Type()
		return func(fr *frame) {
			e := fr.w.mapNext(a.get(fr).R.(*mapIter))
			if e == nil {
				vs := []Value{{}, {}, {}}
				if kt != types.Typ[types.Invalid] {
					vs[1] = zero(kt)
				}
				if vt != types.Typ[types.Invalid] {
					vs[2] = zero(vt)
				}
				fr.regs[dst] = Value{R: vs}
				return
			}
			fr.regs[dst] = Value{R: []Value{{N: 1}, e.k, e.v}}
		}
	}
	name := fmt.Sprintf("%T", in)
	return func(fr *frame) { unsupported("instruction %s", name) }
}

type strIter struct {
	s   Value
	pos int
}

type mapIter struct {
	m      *MapObj
	pos    int
	inRepo bool
	order  []*mapEntry
	seen   int
}

func (w *W) strNext(it *strIter) Value {
	if it.pos >= strLen(it.s) {
		return Value{R: []Value{{}, {}, {}}}
	}
	p := it.pos
	r, n := w.decodeRune(it.s, p)
	it.pos += n
	return Value{R: []Value{{N: 1}, intV(p), r}}
}

// decodeRune decodes the rune at p; it may fork.
func (w *W) decodeRune(s Value, p int) (Value, int) {
	switch x := s.R.(type) {
	case string:
		r, n := utf8.DecodeRuneInString(x[p:])
		return Value{N: uint64(int64(r))}, n
	case *SymStr:
		return w.decodeRuneSB(x.b, p)
	}
	return Value{N: utf8.RuneError}, 0
}

func (w *W) decodeRuneSB(bs []SB, p int) (Value, int) {
	if p >= len(bs) {
		return Value{N: utf8.RuneError}, 0
	}
	b := bs[p]
	if b.t != nil {
		if w.branch(w.ts.Bin(OUlt, b.t, w.ts.Const(8, 0x80))) {
			return termV(w.ts.Zext(b.t, 32), intKind{32, true}), 1
		}
		b = SB{c: byte(w.concretize(b.t))}
	} else if b.c < 0x80 {
		return Value{N: uint64(b.c)}, 1
	}
	buf := []byte{b.c}
	for i := 1; i < 4 && p+i < len(bs); i++ {
		if utf8.FullRune(buf) {
			break
		}
		c := bs[p+i]
		if c.t != nil {
			// only the continuation byte matters
			if !w.branch(w.ts.Eq(w.ts.Bin(OBAnd, c.t, w.ts.Const(8, 0xC0)), w.ts.Const(8, 0x80))) {
				buf = append(buf, 'a')
				break
			}
			c = SB{c: byte(w.concretize(c.t))}
		}
		buf = append(buf, c.c)
	}
	r, n := utf8.DecodeRune(buf)
	return Value{N: uint64(int64(r))}, n
}

func (w *W) mapNext(it *mapIter) *mapEntry {
	m := it.m
	if m == nil {
		return nil
	}
	if w.race != nil {
		w.raceMap(m, false)
	}
	if w.mapOrder && it.inRepo && !w.inInit {
		// any remaining entry may come next
		if it.order == nil {
			it.order = make([]*mapEntry, 0, len(m.entries))
			for _, e := range m.entries {
				if !e.deleted {
					it.order = append(it.order, e)
				}
			}
			it.seen = len(m.entries)
		}
		for len(it.order) > 0 {
			n := len(it.order)
			i := 0
			if n > 1 && n <= w.mapOrderMax {
				i = w.free(n)
			}
			e := it.order[i]
			it.order = append(append([]*mapEntry{}, it.order[:i]...), it.order[i+1:]...)
			if !e.deleted {
				return e
			}
		}
		// entries added during the iteration
		for it.seen < len(m.entries) {
			e := m.entries[it.seen]
			it.seen++
			if !e.deleted {
				return e
			}
		}
		return nil
	}
	for it.pos < len(m.entries) {
		e := m.entries[it.pos]
		it.pos++
		if !e.deleted {
			return e
		}
	}
	return nil
}

func (w *W) newMap(kt types.Type) *MapObj {
	m := newMap(kt)
	if w.inInit {
		w.initMaps = append(w.initMaps, m)
	}
	return m
}

func (w *W) concInt(v Value, t types.Type) int64 {
	if x, ok := v.R.(*Term); ok {
		k, _ := intKindOf(t)
		return int64(k.norm(w.concretize(x)))
	}
	return int64(v.N)
}

func idxErr(w *W, i int64, n int) {
	w.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
}

// checkIndex checks 0 <= i < n (forking if symbolic) and returns a 64-bit index value.
func (w *W) checkIndex(v Value, t types.Type, n int) Value {
	if x, ok := v.R.(*Term); ok {
		k, _ := intKindOf(t)
		var x64 *Term
		if k.signed {
			x64 = w.ts.Sext(x, 64)
		} else {
			x64 = w.ts.Zext(x, 64)
		}
		if !w.branch(w.ts.Bin(OUlt, x64, w.ts.Const(64, uint64(n)))) {
			w.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
		}
		if x64.op == OConst {
			return Value{N: x64.val}
		}
		return Value{R: x64}
	}
	if uint64(v.N) >= uint64(n) {
		idxErr(w, int64(v.N), n)
	}
	return v
}

func (w *W) strIndex(s, ix Value, it types.Type) Value {
	n := strLen(s)
	iv := w.checkIndex(ix, it, n)
	if iv.R == nil {
		i := int(iv.N)
		switch x := s.R.(type) {
		case string:
			return Value{N: uint64(x[i])}
		case *SymStr:
			return byteV(x.b[i])
		}
	}
	bs := strBytes(s)
	cells := make([]Value, len(bs))
	for i := range bs {
		cells[i] = byteV(bs[i])
	}
	return w.selectVal(cells, iv, types.Typ[types.Uint8])
}

func (c *compiler) indexAddr(x *ssa.IndexAddr, dst int) instr {
	a, ix := c.op(x.X), c.op(x.Index)
	it := x.Index.Type()
	onlyLoads := true
	if refs := x.Referrers(); refs != nil {
		for _, r := range *refs {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				continue
			}
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			onlyLoads = false
		}
	}
	et := x.Type().Underlying().(*types.Pointer).Elem()
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	return func(fr *frame) {
		w := fr.w
		var cells []Value
		av := a.get(fr)
		if isPtr {
			cells = ptrOf(w, av).R.(*Agg).f
		} else {
			cells = sliceOf(av)
		}
		iv := ix.get(fr)
		if iv.R == nil {
			if iv.N >= uint64(len(cells)) {
				idxErr(w, int64(iv.N), len(cells))
			}
			fr.regs[dst] = Value{R: &cells[iv.N]}
			return
		}
		iv = w.checkIndex(iv, it, len(cells))
		if t, ok := iv.R.(*Term); ok {
			if onlyLoads {
				fr.regs[dst] = Value{R: &symPtr{cells, iv, et}}
				return
			}
			iv = Value{N: w.concretize(t)}
		}
		fr.regs[dst] = Value{R: &cells[iv.N]}
	}
}

func (c *compiler) slice(x *ssa.Slice, dst int) instr {
	a := c.op(x.X)
	var lo, hi, mx *opnd
	var lt, ht, mt types.Type
	if x.Low != nil {
		o := c.op(x.Low)
		lo, lt = &o, x.Low.Type()
	}
	if x.High != nil {
		o := c.op(x.High)
		hi, ht = &o, x.High.Type()
	}
	if x.Max != nil {
		o := c.op(x.Max)
		mx, mt = &o, x.Max.Type()
	}
	str := isString(x.X.Type())
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	return func(fr *frame) {
		w := fr.w
		v := a.get(fr)
		var l, h, m int64
		h, m = -1, -1
		if lo != nil {
			l = w.concInt(lo.get(fr), lt)
		}
		if hi != nil {
			h = w.concInt(hi.get(fr), ht)
		}
		if mx != nil {
			m = w.concInt(mx.get(fr), mt)
		}
		if str {
			n := int64(strLen(v))
			if hi == nil {
				h = n
			}
			if h < 0 || h > n || l < 0 || l > h {
				w.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.regs[dst] = subStr(v, int(l), int(h))
			return
		}
		var cells []Value
		if isPtr {
			cells = ptrOf(w, v).R.(*Agg).f
		} else {
			if v.R == nil {
				if l > 0 || h > 0 || m > 0 || (lo != nil && l < 0) || (hi != nil && h < 0) {
					w.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity 0", l, h))
				}
				fr.regs[dst] = Value{}
				return
			}
			cells = sliceOf(v)
		}
		if hi == nil {
			h = int64(len(cells))
		}
		if mx == nil {
			m = int64(cap(cells))
		}
		if m < 0 || m > int64(cap(cells)) || h < 0 || h > m || l < 0 || l > h {
			w.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(cells)))
		}
		fr.regs[dst] = mkSlice(cells[l:h:m])
	}
}

func subStr(v Value, l, h int) Value {
	switch s := v.R.(type) {
	case string:
		return strV(s[l:h])
	case *SymStr:
		return mkStr(s.b[l:h:h])
	}
	return strV("")
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int) instr {
	p := c.p
	a := c.op(x.X)
	at := x.AssertedType
	ok := x.CommaOk
	it, isI := at.Underlying().(*types.Interface)
	var ti *TypeInfo
	if !isI {
		ti = p.types.get(at)
	}
	return func(fr *frame) {
		v := a.get(fr)
		i, has := v.R.(*Iface)
		match := false
		if has {
			if isI {
				match = p.implements(i.T, it)
			} else {
				match = i.T == ti
			}
		}
		var r Value
		if match {
			if isI {
				r = v
			} else {
				r = i.V
			}
		} else {
			if !ok {
				d := "nil"
				if has {
					d = i.T.T.String()
				}
				fr.w.rtPanic("interface conversion: interface is " + d + ", not " + at.String())
			}
			r = zero(at)
		}
		if ok {
			r = Value{R: []Value{r, boolV(match)}}
		}
		fr.regs[dst] = r
	}
}

func (c *compiler) unop(x *ssa.UnOp, dst int) instr {
	a := c.op(x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			gi := c.p.global(g)
			return func(fr *frame) {
				p := fr.w.globals[gi]
				if fr.w.race != nil {
					fr.w.raceRead(p)
				}
				fr.regs[dst] = copyVal(*p)
			}
		}
		return func(fr *frame) {
			v := a.get(fr)
			if p, ok := v.R.(*Value); ok {
				if _, ag := p.R.(*Agg); !ag {
					if fr.w.race != nil {
						fr.w.raceRead(p)
					}
					fr.regs[dst] = *p
					return
				}
			}
			fr.regs[dst] = fr.w.load(v)
		}
	case token.NOT:
		return func(fr *frame) {
			v := a.get(fr)
			if t, ok := v.R.(*Term); ok {
				fr.regs[dst] = boolTermV(fr.w.ts.Not(t))
				return
			}
			fr.regs[dst] = Value{N: 1 - v.N}
		}
	case token.SUB:
		if isFloat(x.Type()) {
			return func(fr *frame) {
				fr.regs[dst] = Value{N: math.Float64bits(-math.Float64frombits(a.get(fr).N))}
			}
		}
		k, _ := intKindOf(x.Type())
		return func(fr *frame) {
			v := a.get(fr)
			if t, ok := v.R.(*Term); ok {
				fr.regs[dst] = termV(fr.w.ts.Bin(OSub, fr.w.ts.Const(k.w, 0), t), k)
				return
			}
			fr.regs[dst] = Value{N: k.norm(-v.N)}
		}
	case token.XOR:
		k, _ := intKindOf(x.Type())
		return func(fr *frame) {
			v := a.get(fr)
			if t, ok := v.R.(*Term); ok {
				fr.regs[dst] = termV(fr.w.ts.Bin(OBXor, t, fr.w.ts.Const(k.w, wmask(k.w))), k)
				return
			}
			fr.regs[dst] = Value{N: k.norm(^v.N)}
		}
	}
	if x.Op == token.ARROW {
		return func(fr *frame) {
			w := fr.w
			v, ok := w.recv(w.chanOf(a.get(fr)))
			if x.CommaOk {
				fr.regs[dst] = tuple(v, boolV(ok))
			} else {
				fr.regs[dst] = v
			}
		}
	}
	op := x.Op.String()
	return func(fr *frame) { unsupported("unop %s", op) }
}

func floatBin(op token.Token, x, y float64) (Value, bool) {
	switch op {
	case token.ADD:
		return Value{N: math.Float64bits(x + y)}, true
	case token.SUB:
		return Value{N: math.Float64bits(x - y)}, true
	case token.MUL:
		return Value{N: math.Float64bits(x * y)}, true
	case token.QUO:
		return Value{N: math.Float64bits(x / y)}, true
	case token.LSS:
		return boolV(x < y), true
	case token.LEQ:
		return boolV(x <= y), true
	case token.GTR:
		return boolV(x > y), true
	case token.GEQ:
		return boolV(x >= y), true
	case token.EQL:
		return boolV(x == y), true
	case token.NEQ:
		return boolV(x != y), true
	}
	return Value{}, false
}

func (c *compiler) binop(x *ssa.BinOp, dst int) instr {
	a, b := c.op(x.X), c.op(x.Y)
	op := x.Op
	xt := x.X.Type()
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		// comparisons with nil or between mixed interface/concrete types
		yt := x.Y.Type()
		_, xi := xt.Underlying().(*types.Interface)
		_, yi := yt.Underlying().(*types.Interface)
		ct := xt
		var wrapX, wrapY *TypeInfo
		if xi && !yi {
			if b, ok := yt.(*types.Basic); !ok || b.Kind() != types.UntypedNil {
				wrapY = c.p.types.get(yt)
			}
		} else if yi && !xi {
			ct = yt
			if b, ok := xt.(*types.Basic); !ok || b.Kind() != types.UntypedNil {
				wrapX = c.p.types.get(xt)
			}
		}
		k, isInt := intKindOf(ct)
		return func(fr *frame) {
			va, vb := a.get(fr), b.get(fr)
			if isInt && va.R == nil && vb.R == nil {
				fr.regs[dst] = boolV((va.N == vb.N) != neg)
				return
			}
			_ = k
			if wrapX != nil {
				va = Value{R: &Iface{wrapX, va}}
			}
			if wrapY != nil {
				vb = Value{R: &Iface{wrapY, vb}}
			}
			r := fr.w.valEq(ct, va, vb)
			if neg {
				if t, ok := r.R.(*Term); ok {
					r = boolTermV(fr.w.ts.Not(t))
				} else {
					r.N = 1 - r.N
				}
			}
			fr.regs[dst] = r
		}
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return func(fr *frame) {
				va, vb := a.get(fr), b.get(fr)
				if s, ok := va.R.(string); ok {
					if t, ok := vb.R.(string); ok {
						fr.regs[dst] = strV(s + t)
						return
					}
				}
				x, y := strBytes(va), strBytes(vb)
				z := make([]SB, 0, len(x)+len(y))
				fr.regs[dst] = mkStr(append(append(z, x...), y...))
			}
		default:
			return func(fr *frame) {
				va, vb := a.get(fr), b.get(fr)
				if s, ok := va.R.(string); ok {
					if t, ok := vb.R.(string); ok {
						var r bool
						switch op {
						case token.LSS:
							r = s < t
						case token.LEQ:
							r = s <= t
						case token.GTR:
							r = s > t
						case token.GEQ:
							r = s >= t
						}
						fr.regs[dst] = boolV(r)
						return
					}
				}
				x, y := strBytes(va), strBytes(vb)
				switch op {
				case token.LSS:
					fr.regs[dst] = boolTermV(fr.w.strLess(x, y, false))
				case token.LEQ:
					fr.regs[dst] = boolTermV(fr.w.strLess(x, y, true))
				case token.GTR:
					fr.regs[dst] = boolTermV(fr.w.strLess(y, x, false))
				case token.GEQ:
					fr.regs[dst] = boolTermV(fr.w.strLess(y, x, true))
				}
			}
		}
	}
	if isFloat(xt) {
		f32 := xt.Underlying().(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			va, vb := a.get(fr), b.get(fr)
			if va.R != nil || vb.R != nil {
				unsupported("symbolic float")
			}
			r, _ := floatBin(op, math.Float64frombits(va.N), math.Float64frombits(vb.N))
			if f32 && (op == token.ADD || op == token.SUB || op == token.MUL || op == token.QUO) {
				r.N = math.Float64bits(float64(float32(math.Float64frombits(r.N))))
			}
			fr.regs[dst] = r
		}
	}
	if isBool(xt) {
		return func(fr *frame) {
			va, vb := fr.w.boolTerm(a.get(fr)), fr.w.boolTerm(b.get(fr))
			switch op {
			case token.AND, token.LAND:
				fr.regs[dst] = boolTermV(fr.w.ts.And(va, vb))
			case token.OR, token.LOR:
				fr.regs[dst] = boolTermV(fr.w.ts.Or(va, vb))
			default:
				unsupported("bool op %s", op)
			}
		}
	}
	k, ok := intKindOf(xt)
	if !ok {
		return func(fr *frame) { unsupported("binop %s on %s", op, xt) }
	}
	if op == token.SHL || op == token.SHR {
		yk, _ := intKindOf(x.Y.Type())
		return func(fr *frame) { fr.regs[dst] = fr.w.shift(op, a.get(fr), b.get(fr), k, yk) }
	}
	return func(fr *frame) {
		va, vb := a.get(fr), b.get(fr)
		if va.R == nil && vb.R == nil {
			x, y := va.N, vb.N
			var r uint64
			switch op {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.AND:
				r = x & y
			case token.OR:
				r = x | y
			case token.XOR:
				r = x ^ y
			case token.AND_NOT:
				r = x &^ y
			case token.LSS:
				if k.signed {
					fr.regs[dst] = boolV(int64(x) < int64(y))
				} else {
					fr.regs[dst] = boolV(x < y)
				}
				return
			case token.LEQ:
				if k.signed {
					fr.regs[dst] = boolV(int64(x) <= int64(y))
				} else {
					fr.regs[dst] = boolV(x <= y)
				}
				return
			case token.GTR:
				if k.signed {
					fr.regs[dst] = boolV(int64(x) > int64(y))
				} else {
					fr.regs[dst] = boolV(x > y)
				}
				return
			case token.GEQ:
				if k.signed {
					fr.regs[dst] = boolV(int64(x) >= int64(y))
				} else {
					fr.regs[dst] = boolV(x >= y)
				}
				return
			case token.QUO, token.REM:
				if y == 0 {
					fr.w.rtPanic("runtime error: integer divide by zero")
				}
				if k.signed {
					if int64(y) == -1 {
						if op == token.QUO {
							r = -x
						} else {
							r = 0
						}
					} else if op == token.QUO {
						r = uint64(int64(x) / int64(y))
					} else {
						r = uint64(int64(x) % int64(y))
					}
				} else if op == token.QUO {
					r = x / y
				} else {
					r = x % y
				}
			}
			fr.regs[dst] = Value{N: k.norm(r)}
			return
		}
		w := fr.w
		ts := w.ts
		x, y := w.intTerm(va, k), w.intTerm(vb, k)
		lt, le := OUlt, OUle
		if k.signed {
			lt, le = OSlt, OSle
		}
		switch op {
		case token.ADD:
			fr.regs[dst] = termV(ts.Bin(OAdd, x, y), k)
		case token.SUB:
			fr.regs[dst] = termV(ts.Bin(OSub, x, y), k)
		case token.MUL:
			fr.regs[dst] = termV(ts.Bin(OMul, x, y), k)
		case token.AND:
			fr.regs[dst] = termV(ts.Bin(OBAnd, x, y), k)
		case token.OR:
			fr.regs[dst] = termV(ts.Bin(OBOr, x, y), k)
		case token.XOR:
			fr.regs[dst] = termV(ts.Bin(OBXor, x, y), k)
		case token.AND_NOT:
			fr.regs[dst] = termV(ts.Bin(OBAnd, x, ts.Bin(OBXor, y, ts.Const(k.w, wmask(k.w)))), k)
		case token.LSS:
			fr.regs[dst] = boolTermV(ts.Bin(lt, x, y))
		case token.LEQ:
			fr.regs[dst] = boolTermV(ts.Bin(le, x, y))
		case token.GTR:
			fr.regs[dst] = boolTermV(ts.Bin(lt, y, x))
		case token.GEQ:
			fr.regs[dst] = boolTermV(ts.Bin(le, y, x))
		case token.QUO, token.REM:
			if w.branch(ts.Eq(y, ts.Const(k.w, 0))) {
				w.rtPanic("runtime error: integer divide by zero")
			}
			o := OUdiv
			switch {
			case op == token.QUO && k.signed:
				o = OSdiv
			case op == token.REM && k.signed:
				o = OSrem
			case op == token.REM:
				o = OUrem
			}
			fr.regs[dst] = termV(ts.Bin(o, x, y), k)
		default:
			unsupported("int op %s", op)
		}
	}
}

func (w *W) shift(op token.Token, a, b Value, k, yk intKind) Value {
	ts := w.ts
	if b.R == nil && yk.signed && int64(b.N) < 0 {
		w.rtPanic("runtime error: negative shift amount")
	}
	if a.R == nil && b.R == nil {
		n := b.N
		if op == token.SHL {
			if n >= 64 {
				return Value{}
			}
			return Value{N: k.norm(a.N << n)}
		}
		if k.signed {
			if n > 63 {
				n = 63
			}
			return Value{N: k.norm(uint64(int64(a.N) >> n))}
		}
		if n >= 64 {
			return Value{}
		}
		return Value{N: k.norm(a.N >> n)}
	}
	x := w.intTerm(a, k)
	y := w.intTerm(b, yk)
	if yk.signed && b.R != nil {
		if w.branch(ts.Bin(OSlt, y, ts.Const(yk.w, 0))) {
			w.rtPanic("runtime error: negative shift amount")
		}
	}
	big := ts.Not(ts.Bin(OUlt, y, ts.Const(yk.w, uint64(k.w))))
	var yy *Term
	if yk.w >= k.w {
		yy = ts.Trunc(y, k.w)
	} else {
		yy = ts.Zext(y, k.w)
	}
	if yk.w < 7 {
		big = ts.F
	}
	var r *Term
	switch {
	case op == token.SHL:
		r = ts.Ite(big, ts.Const(k.w, 0), ts.Bin(OShl, x, yy))
	case k.signed:
		r = ts.Ite(big, ts.Bin(OAshr, x, ts.Const(k.w, uint64(k.w-1))), ts.Bin(OAshr, x, yy))
	default:
		r = ts.Ite(big, ts.Const(k.w, 0), ts.Bin(OLshr, x, yy))
	}
	return termV(r, k)
}

func (w *W) convInt(v Value, from, to intKind) Value {
	if t, ok := v.R.(*Term); ok {
		ts := w.ts
		switch {
		case to.w < from.w:
			return termV(ts.Trunc(t, to.w), to)
		case to.w == from.w:
			return termV(t, to)
		case from.signed:
			return termV(ts.Sext(t, to.w), to)
		}
		return termV(ts.Zext(t, to.w), to)
	}
	return Value{N: to.norm(v.N)}
}

func (c *compiler) convert(x *ssa.Convert, dst int) instr {
	a := c.op(x.X)
	from, to := x.X.Type(), x.Type()
	fk, fi := intKindOf(from)
	tk, ti := intKindOf(to)
	fu, tu := from.Underlying(), to.Underlying()
	switch {
	case fi && ti:
		return func(fr *frame) { fr.regs[dst] = fr.w.convInt(a.get(fr), fk, tk) }
	case fi && isFloat(to):
		return func(fr *frame) {
			v := a.get(fr)
			if t, ok := v.R.(*Term); ok {
				v = Value{N: fk.norm(fr.w.concretize(t))}
			}
			if fk.signed {
				fr.regs[dst] = Value{N: math.Float64bits(float64(int64(v.N)))}
			} else {
				fr.regs[dst] = Value{N: math.Float64bits(float64(v.N))}
			}
		}
	case isFloat(from) && ti:
		return func(fr *frame) {
			f := math.Float64frombits(a.get(fr).N)
			if tk.signed {
				fr.regs[dst] = Value{N: tk.norm(uint64(int64(f)))}
			} else {
				fr.regs[dst] = Value{N: tk.norm(uint64(f))}
			}
		}
	case isFloat(from) && isFloat(to):
		f32 := tu.(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			f := math.Float64frombits(a.get(fr).N)
			if f32 {
				f = float64(float32(f))
			}
			fr.regs[dst] = Value{N: math.Float64bits(f)}
		}
	case fi && isString(to):
		return func(fr *frame) {
			v := a.get(fr)
			if t, ok := v.R.(*Term); ok {
				w := fr.w
				if w.branch(w.ts.Bin(OUlt, t, w.ts.Const(t.w, 0x80))) {
					var b *Term
					if t.w >= 8 {
						b = w.ts.Trunc(t, 8)
					} else {
						b = w.ts.Zext(t, 8)
					}
					fr.regs[dst] = mkStr([]SB{toSB(Value{R: b})})
					return
				}
				v = Value{N: fk.norm(w.concretize(t))}
			}
			n := int64(v.N)
			if n < 0 || n > utf8.MaxRune {
				n = utf8.RuneError
			}
			fr.regs[dst] = strV(string(rune(n)))
		}
	case isString(from):
		sl, ok := tu.(*types.Slice)
		if isString(to) {
			return func(fr *frame) { fr.regs[dst] = a.get(fr) }
		}
		if ok {
			ek, _ := intKindOf(sl.Elem())
			if ek.w == 8 {
				return func(fr *frame) { fr.regs[dst] = bytesVal(strBytes(a.get(fr))) }
			}
			return func(fr *frame) {
				s := a.get(fr)
				n := strLen(s)
				rs := []Value{}
				for p := 0; p < n; {
					r, k := fr.w.decodeRune(s, p)
					rs = append(rs, r)
					p += k
				}
				fr.regs[dst] = mkSlice(rs)
			}
		}
	case isString(to):
		if sl, ok := fu.(*types.Slice); ok {
			ek, _ := intKindOf(sl.Elem())
			if ek.w == 8 {
				return func(fr *frame) { fr.regs[dst] = mkStr(sliceBytes(a.get(fr))) }
			}
			return func(fr *frame) {
				var out []SB
				for _, r := range sliceOf(a.get(fr)) {
					if t, ok := r.R.(*Term); ok {
						w := fr.w
						if w.branch(w.ts.Bin(OUlt, t, w.ts.Const(t.w, 0x80))) {
							out = append(out, toSB(Value{R: w.ts.Trunc(t, 8)}))
							continue
						}
						r = Value{N: ek.norm(w.concretize(t))}
					}
					for _, b := range []byte(string(rune(int32(r.N)))) {
						out = append(out, SB{c: b})
					}
				}
				fr.regs[dst] = mkStr(out)
			}
		}
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Struct, *types.Map, *types.Signature, *types.Array, *types.Interface:
		return func(fr *frame) { fr.regs[dst] = a.get(fr) }
	case *types.Basic:
		if tu.(*types.Basic).Kind() == types.UnsafePointer || isBool(to) {
			return func(fr *frame) { fr.regs[dst] = a.get(fr) }
		}
	}
	return func(fr *frame) { unsupported("convert %s to %s", from, to) }
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(fr *frame) Value {
	args := c.ops(cc.Args)
	name := b.Name()
	switch name {
	case "len", "cap":
		t := cc.Args[0].Type()
		return func(fr *frame) Value {
			v := args[0].get(fr)
			switch u := t.Underlying().(type) {
			case *types.Basic:
				return intV(strLen(v))
			case *types.Slice:
				if name == "cap" {
					return intV(cap(sliceOf(v)))
				}
				return intV(len(sliceOf(v)))
			case *types.Map:
				if v.R == nil {
					return Value{}
				}
				if fr.w.race != nil {
					fr.w.raceMap(v.R.(*MapObj), false)
				}
				return intV(v.R.(*MapObj).live)
			case *types.Array:
				return intV(int(u.Len()))
			case *types.Pointer:
				return intV(int(u.Elem().Underlying().(*types.Array).Len()))
			case *types.Chan:
				ch, _ := v.R.(*Chan)
				if ch == nil {
					return Value{}
				}
				if name == "cap" {
					return intV(ch.cap)
				}
				return intV(min(len(ch.q), ch.cap))
			}
			unsupported("len of %s", t)
			return Value{}
		}
	case "close":
		a := c.op(cc.Args[0])
		return func(fr *frame) Value {
			ch, _ := a.get(fr).R.(*Chan)
			if ch == nil {
				fr.w.rtPanic("close of nil channel")
			}
			if ch.closed {
				fr.w.rtPanic("close of closed channel")
			}
			fr.w.relSync(ch)
			ch.closed = true
			return Value{}
		}
	case "append":
		st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return func(fr *frame) Value { unsupported("append"); return Value{} }
		}
		es := c.p.sizes.Sizeof(st.Elem())
		et := st.Elem()
		return func(fr *frame) Value {
			w := fr.w
			dst := args[0].get(fr)
			if len(args) < 2 {
				return dst
			}
			src := args[1].get(fr)
			var add []Value
			switch s := src.R.(type) {
			case nil:
			case *Slc:
				add = s.a
			case string, *SymStr:
				add = sliceOf(bytesVal(strBytes(src)))
			default:
				unsupported("append %T", src.R)
			}
			if len(add) == 0 {
				return dst
			}
			return w.appendVals(dst, add, et, es)
		}
	case "copy":
		return func(fr *frame) Value {
			d := sliceOf(args[0].get(fr))
			sv := args[1].get(fr)
			var s []Value
			switch x := sv.R.(type) {
			case nil:
			case *Slc:
				s = x.a
			default:
				s = sliceOf(bytesVal(strBytes(sv)))
			}
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			if n == 0 {
				return Value{}
			}
			tmp := make([]Value, n)
			if fr.w.race != nil {
				fr.w.raceCells(s[:n])
			}
			for i := range tmp {
				tmp[i] = copyVal(s[i])
			}
			for i := range tmp {
				fr.w.store(&d[i], tmp[i])
			}
			fr.w.steps += n
			return intV(n)
		}
	case "delete":
		return func(fr *frame) Value {
			m, _ := args[0].get(fr).R.(*MapObj)
			if m != nil {
				fr.w.mapDelete(m, args[1].get(fr))
			}
			return Value{}
		}
	case "clear":
		t := cc.Args[0].Type()
		return func(fr *frame) Value {
			v := args[0].get(fr)
			if v.R == nil {
				return Value{}
			}
			if m, ok := v.R.(*MapObj); ok {
				fr.w.touch(m)
				if fr.w.race != nil {
					fr.w.raceMap(m, true)
				}
				m.idx = map[string]int{}
				for _, e := range m.entries {
					e.deleted = true
				}
				m.entries = nil
				m.nsym, m.live = 0, 0
				return Value{}
			}
			z := t.Underlying().(*types.Slice).Elem()
			a := sliceOf(v)
			for i := range a {
				fr.w.store(&a[i], zero(z))
			}
			return Value{}
		}
	case "min", "max":
		t := cc.Args[0].Type()
		k, isInt := intKindOf(t)
		return func(fr *frame) Value {
			r := args[0].get(fr)
			for _, o := range args[1:] {
				v := o.get(fr)
				w := fr.w
				if isInt {
					x, y := w.intTerm(r, k), w.intTerm(v, k)
					lt := OUlt
					if k.signed {
						lt = OSlt
					}
					c := w.ts.Bin(lt, y, x)
					if name == "max" {
						c = w.ts.Bin(lt, x, y)
					}
					r = termV(w.ts.Ite(c, y, x), k)
				} else if isFloat(t) {
					x, y := math.Float64frombits(r.N), math.Float64frombits(v.N)
					if name == "min" {
						r.N = math.Float64bits(min(x, y))
					} else {
						r.N = math.Float64bits(max(x, y))
					}
				} else {
					less := w.strLess(strBytes(v), strBytes(r), false)
					if name == "max" {
						less = w.strLess(strBytes(r), strBytes(v), false)
					}
					if w.branch(less) {
						r = v
					}
				}
			}
			return r
		}
	case "panic":
		return func(fr *frame) Value {
			v := args[0].get(fr)
			panic(&targetPanic{v: v, msg: fr.w.panicMsg(v)})
		}
	case "recover":
		return func(fr *frame) Value {
			w := fr.w
			pf := w.panicFr
			if pf == nil || pf.panicking == nil {
				return Value{}
			}
			v := pf.panicking.v
			pf.panicking = nil
			return v
		}
	case "print", "println":
		return func(fr *frame) Value { return Value{} }
	case "ssa:wrapnilchk":
		return func(fr *frame) Value {
			v := args[0].get(fr)
			if v.R == nil {
				fr.w.rtPanic("value method called using nil pointer")
			}
			return v
		}
	case "ssa:deferstack":
		return func(fr *frame) Value { return Value{R: &Opaque{fr}} }
	case "String": // unsafe.String
		return func(fr *frame) Value {
			p, n := args[0].get(fr), int(args[1].get(fr).N)
			if n == 0 {
				return strV("")
			}
			switch d := p.R.(type) {
			case *dataPtr:
				if d.s != nil {
					b := make([]SB, n)
					for i := range b {
						b[i] = toSB(d.s[i])
					}
					return mkStr(b)
				}
				return subStr(d.v, 0, n)
			}
			unsupported("unsafe.String")
			return Value{}
		}
	case "SliceData":
		return func(fr *frame) Value {
			v := args[0].get(fr)
			a := sliceOf(v)
			if v.R == nil {
				return Value{}
			}
			return Value{R: &dataPtr{s: a[:cap(a)]}}
		}
	case "StringData":
		return func(fr *frame) Value { return Value{R: &dataPtr{v: args[0].get(fr)}} }
	case "Slice": // unsafe.Slice
		return func(fr *frame) Value {
			p, n := args[0].get(fr), int(args[1].get(fr).N)
			d, ok := p.R.(*dataPtr)
			if !ok {
				if n == 0 {
					return Value{}
				}
				unsupported("unsafe.Slice")
			}
			if d.s != nil {
				return mkSlice(d.s[:n:n])
			}
			return bytesVal(strBytes(subStr(d.v, 0, n)))
		}
	}
	return func(fr *frame) Value { unsupported("builtin %s", name); return Value{} }
}

func (w *W) appendVals(dst Value, add []Value, et types.Type, es int64) Value {
	d := sliceOf(dst)
	n := len(d) + len(add)
	w.steps += len(add)
	if w.race != nil {
		w.raceCells(add)
		if n > cap(d) {
			w.raceCells(d)
		}
	}
	if n <= cap(d) {
		r := d[:n]
		if len(add) == 1 {
			w.store(&r[n-1], add[0])
			return mkSlice(r)
		}
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			w.store(&r[len(d)+i], tmp[i])
		}
		return mkSlice(r)
	}
	nc := growCap(n, cap(d), es)
	w.steps += n
	r := make([]Value, nc)
	for i := range d {
		r[i] = copyVal(d[i])
	}
	for i := range add {
		r[len(d)+i] = copyVal(add[i])
	}
	if isAgg(et) || isString(et) {
		for i := n; i < nc; i++ {
			r[i] = zero(et)
		}
	}
	return mkSlice(r[:n])
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap is the runtime's growslice policy.
func growCap(newLen, oldCap int, es int64) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return newLen
	}
	b := int64(nc) * es
	if b <= 32768 {
		for _, s := range sizeClasses {
			if s >= b {
				return int(s / es)
			}
		}
	}
	b = (b + 8191) &^ 8191
	return int(b / es)
}
