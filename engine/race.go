package main

// Two uses of the program side by side (sym.Together). One runs as a goroutine,
// the other on the path's own; what each reads and writes is recorded, with two
// clocks for what synchronisation orders. If no access of one conflicts with one
// of the other, every interleaving of the two has the same effect as the one
// that was executed. Where they synchronise, the point at which the other goes
// on is a choice of the path (at most maxSwitch of them).

type shadow struct{ r, w [2]uint32 }

type raceState struct {
	clock, seen [2]uint32
	cells       map[any]*shadow
	rel         map[any]*[2]uint32
	switches    int
	off         int
}

const maxSwitch = 2

func (w *W) tid() int {
	if w.cur == nil {
		return 0
	}
	return w.cur.tid
}

func (w *W) shadowOf(k any) *shadow {
	s := w.race.cells[k]
	if s == nil {
		s = &shadow{}
		w.race.cells[k] = s
	}
	return s
}

func (w *W) conflict(what string) {
	w.candidate("race", "data race: "+what, w.model)
	panic(stopPath{"race"})
}

func (w *W) raceRead(p *Value) {
	r := w.race
	if r.off > 0 {
		return
	}
	if a, ok := p.R.(*Agg); ok {
		for i := range a.f {
			w.raceRead(&a.f[i])
		}
		return
	}
	w.readKey(p, "a value is read that the other writes")
}

func (w *W) readKey(k any, what string) {
	r, t := w.race, w.tid()
	s := w.shadowOf(k)
	if s.w[1-t] > r.seen[t] {
		w.conflict(what)
	}
	s.r[t] = r.clock[t]
}

func (w *W) raceWrite(p *Value) {
	if w.race.off > 0 {
		return
	}
	w.writeKey(p, "a value is written that the other uses")
}

func (w *W) writeKey(k any, what string) {
	r, t := w.race, w.tid()
	s := w.shadowOf(k)
	if s.w[1-t] > r.seen[t] || s.r[1-t] > r.seen[t] {
		w.conflict(what)
	}
	s.w[t] = r.clock[t]
}

func (w *W) raceCells(cells []Value) {
	for i := range cells {
		w.raceRead(&cells[i])
	}
}

func (w *W) raceMap(m *MapObj, write bool) {
	if m == nil || w.race.off > 0 {
		return
	}
	if write {
		w.writeKey(m, "a map is written that the other uses")
	} else {
		w.readKey(m, "a map is read that the other writes")
	}
}

func (w *W) acqSync(k any) {
	if r := w.race; r != nil {
		t := w.tid()
		if s := r.rel[k]; s != nil && s[1-t] > r.seen[t] {
			r.seen[t] = s[1-t]
		}
	}
}

func (w *W) relSync(k any) {
	if r := w.race; r != nil {
		t := w.tid()
		s := r.rel[k]
		if s == nil {
			s = &[2]uint32{}
			r.rel[k] = s
		}
		s[t] = r.clock[t]
		if r.seen[t] > s[1-t] {
			s[1-t] = r.seen[t]
		}
		r.clock[t]++
	}
}

// syncPoint is where the other may go on instead.
func (w *W) syncPoint() {
	r := w.race
	if r == nil || r.switches >= maxSwitch || w.cur == nil {
		return
	}
	n := w.nextCoro(w.cur)
	if n == nil || n == w.cur || n.tid == w.cur.tid {
		return
	}
	if w.free(2) == 1 {
		r.switches++
		w.yield()
	}
}

// synced runs an operation that is atomic and orders what is before and after.
func synced(in intrinsic) intrinsic {
	return func(w *W, f *Func, a []Value) Value {
		if w.race == nil {
			return in(w, f, a)
		}
		w.syncPoint()
		k := any(ptrOf(w, a[0]))
		w.acqSync(k)
		w.race.off++
		v := in(w, f, a)
		w.race.off--
		w.relSync(k)
		return v
	}
}

// reads is an operation on the slices among its arguments.
func reads(in intrinsic) intrinsic {
	return func(w *W, f *Func, a []Value) Value {
		if w.race != nil {
			for _, x := range a {
				if s, ok := x.R.(*Slc); ok {
					w.raceCells(s.a)
				}
			}
		}
		return in(w, f, a)
	}
}

func together(w *W, f *Func, a []Value) Value {
	if w.race != nil {
		unsupported("Together within Together")
	}
	fa, ok1 := a[0].R.(*FuncVal)
	fb, ok2 := a[1].R.(*FuncVal)
	if !ok1 || !ok2 {
		unsupported("Together of nil")
	}
	w.mainCoro()
	w.race = &raceState{clock: [2]uint32{1, 1}, cells: map[any]*shadow{}, rel: map[any]*[2]uint32{}}
	w.cur.tid = 0
	w.spawn(func() { w.callFV(fb, nil) })
	b := w.coros[len(w.coros)-1]
	b.tid = 1
	w.callFV(fa, nil)
	w.block(func() bool { return b.done })
	w.race = nil
	return Value{}
}
