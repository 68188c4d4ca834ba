package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Goroutines run as coroutines: one at a time, switching only where one blocks
// or ends. One schedule is explored; it is stated as a bound.

type coro struct {
	w       *W
	baton   chan struct{}
	ready   func() bool
	started bool
	done    bool
	// state of the executor that belongs to the goroutine
	slabs   [][]Value
	slab    []Value
	slabI   int
	sp      int
	spStack []int
	depth   int
	panicFr *frame
	tid     int // which of two uses side by side this belongs to
}

type killed struct{}

func (w *W) saveCoro(c *coro) {
	c.slabs, c.slab, c.slabI, c.sp, c.spStack, c.depth, c.panicFr = w.slabs, w.slab, w.slabI, w.sp, w.spStack, w.depth, w.panicFr
}

func (w *W) loadCoro(c *coro) {
	w.slabs, w.slab, w.slabI, w.sp, w.spStack, w.depth, w.panicFr = c.slabs, c.slab, c.slabI, c.sp, c.spStack, c.depth, c.panicFr
	w.cur = c
}

func (w *W) mainCoro() {
	if w.cur == nil {
		w.cur = &coro{w: w, baton: make(chan struct{}), started: true}
		w.coros = []*coro{w.cur}
	}
}

// spawn makes a goroutine; it runs when the current one blocks.
func (w *W) spawn(f func()) {
	w.mainCoro()
	if len(w.coros) > 64 {
		unsupported("more than 64 goroutines")
	}
	c := &coro{w: w, baton: make(chan struct{}), slabs: [][]Value{make([]Value, 1<<12)}}
	c.slab = c.slabs[0]
	c.tid = w.cur.tid
	w.coros = append(w.coros, c)
	go func() {
		<-c.baton
		defer func() {
			r := recover()
			c.done = true
			if _, is := r.(killed); is {
				w.killAck <- struct{}{}
				return
			}
			if r != nil {
				w.coroPanic = r
				w.switchTo(w.coros[0], nil)
				return
			}
			if n := w.nextCoro(c); n != nil {
				w.switchTo(n, nil)
				return
			}
			w.coroPanic = deadlock{}
			w.switchTo(w.coros[0], nil)
		}()
		if w.killing {
			panic(killed{})
		}
		f()
	}()
}

type deadlock struct{}

// nextCoro is a goroutine that can go on.
func (w *W) nextCoro(cur *coro) *coro {
	at := 0
	for i, c := range w.coros {
		if c == cur {
			at = i
		}
	}
	for k := 1; k <= len(w.coros); k++ {
		c := w.coros[(at+k)%len(w.coros)]
		if !c.done && (c.ready == nil || c.ready()) {
			return c
		}
	}
	return nil
}

// switchTo goes on with n; from, if not nil, waits for its turn.
func (w *W) switchTo(n *coro, from *coro) {
	if from != nil {
		w.saveCoro(from)
	}
	w.loadCoro(n)
	n.started = true
	n.baton <- struct{}{}
	if from != nil {
		<-from.baton
		if w.killing {
			panic(killed{})
		}
		if r := w.coroPanic; r != nil && from == w.coros[0] {
			w.coroPanic = nil
			if _, is := r.(deadlock); is {
				w.rtPanic("all goroutines are asleep - deadlock!")
			}
			panic(r)
		}
	}
}

// block waits until ok.
func (w *W) block(ok func() bool) {
	if ok() {
		return
	}
	w.mainCoro()
	me := w.cur
	me.ready = ok
	n := w.nextCoro(me)
	if n == nil {
		if me != w.coros[0] {
			w.coroPanic = deadlock{}
			w.switchTo(w.coros[0], me)
		}
		w.rtPanic("all goroutines are asleep - deadlock!")
	}
	if n != me {
		w.switchTo(n, me)
	}
	me.ready = nil
}

// yield lets the others go on.
func (w *W) yield() {
	if w.cur == nil || len(w.coros) < 2 {
		return
	}
	me := w.cur
	me.ready = nil
	if n := w.nextCoro(me); n != nil && n != me {
		w.switchTo(n, me)
	}
}

// endCoros ends the goroutines that are left when the path is finished.
func (w *W) endCoros() {
	if w.cur == nil {
		return
	}
	w.killing = true
	for _, c := range w.coros[1:] {
		if !c.done {
			c.baton <- struct{}{}
			<-w.killAck
		}
	}
	w.killing, w.cur, w.coros, w.coroPanic = false, nil, nil, nil
}

// Chan is a non-nil channel.
type Chan struct {
	q       []*chanItem
	cap     int
	closed  bool
	waiting int // receivers
	et      types.Type
}

type chanItem struct {
	v     Value
	taken bool
}

func (w *W) chanOf(v Value) *Chan {
	c, _ := v.R.(*Chan)
	if c == nil {
		w.block(func() bool { return false })
	}
	return c
}

func (w *W) send(c *Chan, v Value) {
	if c.closed {
		w.rtPanic("send on closed channel")
	}
	w.relSync(c)
	it := &chanItem{v: copyVal(v)}
	c.q = append(c.q, it)
	w.block(func() bool {
		if it.taken || c.closed {
			return true
		}
		for i := 0; i < len(c.q) && i < c.cap; i++ {
			if c.q[i] == it {
				return true
			}
		}
		return false
	})
}

func (w *W) recv(c *Chan) (Value, bool) {
	c.waiting++
	w.block(func() bool { return len(c.q) > 0 || c.closed })
	c.waiting--
	w.acqSync(c)
	if len(c.q) == 0 {
		return zero(c.et), false
	}
	it := c.q[0]
	c.q = c.q[1:]
	it.taken = true
	return it.v, true
}

func (c *compiler) selectInstr(x *ssa.Select, dst int) instr {
	type arm struct {
		send   bool
		ch, v  opnd
		hasVal bool
		et     types.Type
	}
	var arms []arm
	for _, s := range x.States {
		a := arm{send: s.Dir == types.SendOnly, ch: c.op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if a.send {
			a.v = c.op(s.Send)
		}
		arms = append(arms, a)
	}
	return func(fr *frame) {
		w := fr.w
		chs := make([]*Chan, len(arms))
		for i, a := range arms {
			chs[i], _ = a.ch.get(fr).R.(*Chan)
		}
		pick := -1
		ready := func() bool {
			for i, a := range arms {
				ch := chs[i]
				if ch == nil {
					continue
				}
				if a.send && (ch.closed || len(ch.q) < ch.cap || ch.cap == 0 && ch.waiting > len(ch.q)) || !a.send && (len(ch.q) > 0 || ch.closed) {
					pick = i
					return true
				}
			}
			return false
		}
		if !ready() && x.Blocking {
			for i, a := range arms {
				if !a.send && chs[i] != nil {
					chs[i].waiting++
				}
			}
			w.block(ready)
			for i, a := range arms {
				if !a.send && chs[i] != nil {
					chs[i].waiting--
				}
			}
		}
		out := []Value{intV(pick), boolV(false)}
		for i, a := range arms {
			if a.send {
				if i == pick {
					w.send(chs[i], a.v.get(fr))
				}
				continue
			}
			v := zero(a.et)
			if i == pick {
				var ok bool
				v, ok = w.recv(chs[i])
				out[1] = boolV(ok)
			}
			out = append(out, v)
		}
		fr.regs[dst] = Value{R: out}
	}
}

// ---- sync ----

type lockState struct {
	locked  bool
	readers int
}

func (w *W) lock(v Value) *lockState {
	p := ptrOf(w, v)
	if w.locks == nil {
		w.locks = map[*Value]*lockState{}
	}
	s := w.locks[p]
	if s == nil {
		s = &lockState{}
		w.locks[p] = s
	}
	return s
}

func init() {
	extra := map[string]intrinsic{
		"(*sync.Mutex).Lock":     lockIntr,
		"(*sync.Mutex).Unlock":   unlockIntr,
		"(*sync.Mutex).TryLock":  tryLockIntr,
		"(*sync.RWMutex).Lock":   lockIntr,
		"(*sync.RWMutex).Unlock": unlockIntr,
		"(*sync.RWMutex).RLock": func(w *W, f *Func, a []Value) Value {
			s := w.lock(a[0])
			w.syncPoint()
			w.block(func() bool { return !s.locked })
			w.acqSync(s)
			s.readers++
			return Value{}
		},
		"(*sync.RWMutex).RUnlock": func(w *W, f *Func, a []Value) Value {
			s := w.lock(a[0])
			if s.readers == 0 {
				w.rtPanic("sync: RUnlock of unlocked RWMutex")
			}
			s.readers--
			w.relSync(s)
			return Value{}
		},
		"(*sync.RWMutex).TryLock": tryLockIntr,
		"(*sync.WaitGroup).Add": func(w *W, f *Func, a []Value) Value {
			s := w.lock(a[0])
			s.readers += int(w.concInt(a[1], types.Typ[types.Int]))
			if s.readers < 0 {
				w.rtPanic("sync: negative WaitGroup counter")
			}
			return Value{}
		},
		"(*sync.WaitGroup).Done": func(w *W, f *Func, a []Value) Value {
			s := w.lock(a[0])
			w.relSync(s)
			s.readers--
			if s.readers < 0 {
				w.rtPanic("sync: negative WaitGroup counter")
			}
			return Value{}
		},
		"(*sync.WaitGroup).Go": func(w *W, f *Func, a []Value) Value {
			s := w.lock(a[0])
			s.readers++
			fv := a[1].R.(*FuncVal)
			w.spawn(func() {
				w.callFV(fv, nil)
				s.readers--
			})
			return Value{}
		},
		"(*sync.WaitGroup).Wait": func(w *W, f *Func, a []Value) Value {
			s := w.lock(a[0])
			w.block(func() bool { return s.readers == 0 })
			w.acqSync(s)
			return Value{}
		},
		"runtime.Gosched":    func(w *W, f *Func, a []Value) Value { w.yield(); return Value{} },
		"time.Sleep":         func(w *W, f *Func, a []Value) Value { w.yield(); return Value{} },
		"runtime.NumCPU":     func(w *W, f *Func, a []Value) Value { return intV(4) },
		"runtime.GOMAXPROCS": func(w *W, f *Func, a []Value) Value { return intV(4) },
		"fmt.Sscanf":         scanIntr("f"),
		"fmt.Sscan":          scanIntr(""),
		"fmt.Sscanln":        scanIntr("ln"),
		"runtime.KeepAlive":  ret0,

		// a pool keeps one value in front of a stack, as for one processor
		"(*sync.Pool).Put": func(w *W, f *Func, a []Value) Value {
			if a[1].R == nil {
				return Value{}
			}
			cell := &ptrOf(w, a[0]).R.(*Agg).f[1]
			old := sliceOf(*cell)
			if len(old) == 0 {
				old = []Value{{}}
			}
			l := append([]Value(nil), old...)
			if l[0].R == nil {
				l[0] = a[1]
			} else {
				l = append(l, a[1])
			}
			w.store(cell, mkSlice(l))
			return Value{}
		},
		"(*sync.Pool).Get": func(w *W, f *Func, a []Value) Value {
			st := ptrOf(w, a[0]).R.(*Agg)
			cell := &st.f[1]
			if l := append([]Value(nil), sliceOf(*cell)...); len(l) > 0 && (l[0].R != nil || len(l) > 1) {
				v := l[0]
				l[0] = Value{}
				if v.R == nil {
					v = l[len(l)-1]
					l = l[:len(l)-1]
				}
				w.store(cell, mkSlice(l))
				return v
			}
			nf, ok := st.f[len(st.f)-1].R.(*FuncVal)
			if !ok {
				return Value{}
			}
			return w.callFV(nf, nil)
		},

		"(*sync.Map).Load": func(w *W, f *Func, a []Value) Value {
			v, ok := w.syncMapGet(a[0], a[1])
			return tuple(v, boolV(ok))
		},
		"(*sync.Map).Store": func(w *W, f *Func, a []Value) Value { w.syncMapSet(a[0], a[1], a[2]); return Value{} },
		"(*sync.Map).LoadOrStore": func(w *W, f *Func, a []Value) Value {
			v, ok := w.syncMapGet(a[0], a[1])
			if !ok {
				w.syncMapSet(a[0], a[1], a[2])
				v = a[2]
			}
			return tuple(v, boolV(ok))
		},
		"(*sync.Map).Delete": func(w *W, f *Func, a []Value) Value { w.syncMapDel(a[0], a[1]); return Value{} },
		"(*sync.Map).LoadAndDelete": func(w *W, f *Func, a []Value) Value {
			v, ok := w.syncMapGet(a[0], a[1])
			w.syncMapDel(a[0], a[1])
			return tuple(v, boolV(ok))
		},
		"(*sync.Map).Clear": func(w *W, f *Func, a []Value) Value {
			w.store(w.syncMapCell(a[0]), Value{})
			return Value{}
		},
		"(*sync.Map).Range": func(w *W, f *Func, a []Value) Value {
			fv := a[1].R.(*FuncVal)
			w.acqSync(any(ptrOf(w, a[0])))
			for _, e := range sliceOf(*w.syncMapCell(a[0])) {
				kv := e.R.([]Value)
				if !w.branch(w.boolTerm(w.callFV(fv, []Value{kv[0], kv[1]}))) {
					break
				}
			}
			return Value{}
		},
	}
	for k, v := range extra {
		if strings.HasPrefix(k, "(*sync.Pool)") || strings.HasPrefix(k, "(*sync.Map)") && k != "(*sync.Map).Range" {
			v = synced(v)
		}
		moreIntrinsics[k] = v
	}
}

// scan runs a fmt.Sscan function natively on concrete text.
func scanIntr(kind string) intrinsic {
	return func(w *W, f *Func, a []Value) Value {
		s := w.concString(a[0])
		rest := a[1:]
		format := ""
		if kind == "f" {
			format = w.concString(a[1])
			rest = a[2:]
		}
		var ptrs []any
		var back []func()
		for _, x := range sliceOf(rest[0]) {
			i, ok := x.R.(*Iface)
			if !ok {
				unsupported("scan into nil")
			}
			pt, ok := i.T.T.Underlying().(*types.Pointer)
			if !ok {
				unsupported("scan into %s", i.T.T)
			}
			b, ok := pt.Elem().Underlying().(*types.Basic)
			cell := ptrOf(w, i.V)
			switch {
			case ok && b.Kind() == types.Int:
				v := int(w.concInt(*cell, pt.Elem()))
				ptrs = append(ptrs, &v)
				back = append(back, func() { w.store(cell, intV(v)) })
			case ok && b.Kind() == types.String:
				v := w.concString(*cell)
				ptrs = append(ptrs, &v)
				back = append(back, func() { w.store(cell, strV(v)) })
			case ok && b.Kind() == types.Float64:
				v := math.Float64frombits(cell.N)
				ptrs = append(ptrs, &v)
				back = append(back, func() { w.store(cell, Value{N: math.Float64bits(v)}) })
			default:
				unsupported("scan into %s", i.T.T)
			}
		}
		var n int
		var err error
		switch kind {
		case "f":
			n, err = fmt.Sscanf(s, format, ptrs...)
		case "ln":
			n, err = fmt.Sscanln(s, ptrs...)
		default:
			n, err = fmt.Sscan(s, ptrs...)
		}
		for _, b := range back {
			b()
		}
		e := Value{}
		if err != nil {
			e = w.newErr(strV(err.Error()))
		}
		return tuple(intV(n), e)
	}
}

var moreIntrinsics = map[string]intrinsic{}

// A sync.Map is kept as a list of pairs in one of its fields.
func (w *W) syncMapCell(m Value) *Value {
	p := ptrOf(w, m)
	for {
		a, ok := p.R.(*Agg)
		if !ok {
			return p
		}
		p = &a.f[len(a.f)-1]
	}
}

var anyType = types.NewInterfaceType(nil, nil)

func (w *W) syncMapGet(m, k Value) (Value, bool) {
	for _, e := range sliceOf(*w.syncMapCell(m)) {
		kv := e.R.([]Value)
		if w.branch(w.boolTerm(w.valEq(anyType, kv[0], k))) {
			return kv[1], true
		}
	}
	return Value{}, false
}

func (w *W) syncMapSet(m, k, v Value) {
	w.syncMapDel(m, k)
	c := w.syncMapCell(m)
	w.store(c, mkSlice(append(append([]Value(nil), sliceOf(*c)...), Value{R: []Value{k, v}})))
}

func (w *W) syncMapDel(m, k Value) {
	c := w.syncMapCell(m)
	var l []Value
	for _, e := range sliceOf(*c) {
		if !w.branch(w.boolTerm(w.valEq(anyType, e.R.([]Value)[0], k))) {
			l = append(l, e)
		}
	}
	w.store(c, mkSlice(l))
}

func lockIntr(w *W, f *Func, a []Value) Value {
	s := w.lock(a[0])
	w.syncPoint()
	w.block(func() bool { return !s.locked && s.readers == 0 })
	w.acqSync(s)
	s.locked = true
	return Value{}
}

func unlockIntr(w *W, f *Func, a []Value) Value {
	s := w.lock(a[0])
	if !s.locked {
		w.rtPanic("sync: unlock of unlocked mutex")
	}
	s.locked = false
	w.relSync(s)
	return Value{}
}

func tryLockIntr(w *W, f *Func, a []Value) Value {
	s := w.lock(a[0])
	w.syncPoint()
	if s.locked || s.readers > 0 {
		return boolV(false)
	}
	w.acqSync(s)
	s.locked = true
	return boolV(true)
}

// deepEqual is reflect.DeepEqual (without cycles).
func (w *W) deepEqual(t types.Type, a, b Value, depth int) bool {
	if depth > 200 {
		unsupported("reflect.DeepEqual of a deep value")
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, ok1 := a.R.(*Iface)
		y, ok2 := b.R.(*Iface)
		if !ok1 || !ok2 {
			return ok1 == ok2
		}
		return x.T == y.T && w.deepEqual(x.T.T, x.V, y.V, depth+1)
	case *types.Pointer:
		if a.R == nil || b.R == nil {
			return a.R == nil && b.R == nil
		}
		p, q := ptrOf(w, a), ptrOf(w, b)
		return p == q || w.deepEqual(u.Elem(), *p, *q, depth+1)
	case *types.Slice:
		x, y := sliceOf(a), sliceOf(b)
		if (a.R == nil) != (b.R == nil) || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !w.deepEqual(u.Elem(), x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Array:
		x, y := a.R.(*Agg).f, b.R.(*Agg).f
		for i := range x {
			if !w.deepEqual(u.Elem(), x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Struct:
		x, y := a.R.(*Agg).f, b.R.(*Agg).f
		for i := range x {
			if !w.deepEqual(u.Field(i).Type(), x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Map:
		m, ok1 := a.R.(*MapObj)
		n, ok2 := b.R.(*MapObj)
		if !ok1 || !ok2 {
			return ok1 == ok2
		}
		if m.live != n.live {
			return false
		}
		for _, e := range m.entries {
			if e.deleted {
				continue
			}
			found := false
			for _, o := range n.entries {
				if !o.deleted && w.branch(w.boolTerm(w.valEq(u.Key(), e.k, o.k))) {
					found = w.deepEqual(u.Elem(), e.v, o.v, depth+1)
					break
				}
			}
			if !found {
				return false
			}
		}
		return true
	case *types.Signature:
		return a.R == nil && b.R == nil
	}
	return w.branch(w.boolTerm(w.valEq(t, a, b)))
}

func init() {
	moreIntrinsics["reflect.DeepEqual"] = func(w *W, f *Func, a []Value) Value {
		return boolV(w.deepEqual(anyType, a[0], a[1], 0))
	}
}
