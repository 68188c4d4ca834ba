package main

import (
	"fmt"
	"sort"
	"strings"
)

// Equal variables: equalities between variables in the path condition are
// substituted before a condition is decided, as are variables with one value.
// What follows by substitution is confirmed by the solver from the equalities
// used (explain).

// pair recognises an equality of two byte variables or its negation.
func pair(t *Term) (a, b int, neg bool) {
	if t.op == ONot {
		t, neg = t.a, true
	}
	if t.op == OEq && t.a.op == OVar && t.b.op == OVar && t.a.w == 8 {
		return int(t.a.val), int(t.b.val), neg
	}
	return -1, -1, false
}

func (w *W) rep(v int) int {
	for w.uf[v] != v {
		v = w.uf[v]
	}
	return v
}

// apart returns the disequality that keeps two variables apart.
func (w *W) apart(a, b int) int {
	a, b = w.rep(a), w.rep(b)
	for i, n := range w.nes {
		x, y := w.rep(n[0]), w.rep(n[1])
		if x == a && y == b || x == b && y == a {
			return i
		}
	}
	return -1
}

func (w *W) single(v int) {
	r := w.rep(v)
	if r != v {
		w.dom[r] = w.dom[r].and(&w.dom[v])
	}
	vw := w.ts.vars[r].w
	if vw == 0 || vw > 8 || w.val[r] != nil {
		return
	}
	n, k := 0, 0
	for i := 0; i < 256 && n < 2; i++ {
		if w.dom[r].has(i) {
			n++
			k = i
		}
	}
	if n == 1 {
		w.val[r] = w.ts.Const(vw, uint64(k))
		w.merged = true
		w.cmemo = nil
		// the disequalities now are constraints on one variable
		for i := 0; i < len(w.nes); i++ {
			x, y := w.rep(w.nes[i][0]), w.rep(w.nes[i][1])
			if y == r {
				x, y = y, x
			}
			if x == r && w.val[y] == nil {
				w.addPC(w.ts.Not(w.ts.Eq(w.ts.vars[y].t, w.val[r])))
			}
		}
	}
}

// learn takes note of an equality or disequality of variables.
func (w *W) learn(t *Term) {
	a, b, neg := pair(t)
	if a < 0 {
		return
	}
	if neg {
		w.nes = append(w.nes, [2]int{a, b})
		return
	}
	w.eqs = append(w.eqs, [2]int{a, b})
	x, y := w.rep(a), w.rep(b)
	if x == y {
		return
	}
	if y < x {
		x, y = y, x
	}
	w.uf[y] = x
	w.merged = true
	w.cmemo = nil
	w.dom[x] = w.dom[x].and(&w.dom[y])
	w.cons[x] = append(w.cons[x], w.cons[y]...)
	w.single(x)
}

// canon substitutes representatives and values for variables.
func (w *W) canon(t *Term) *Term {
	if !w.merged || t.sup == -1 {
		return t
	}
	if t.op == OVar {
		r := w.rep(int(t.val))
		if c := w.val[r]; c != nil {
			return c
		}
		return w.ts.vars[r].t
	}
	if w.cmemo == nil {
		w.cmemo = map[*Term]*Term{}
	}
	if c, ok := w.cmemo[t]; ok {
		return c
	}
	ts := w.ts
	var a, b, c *Term
	if t.a != nil {
		a = w.canon(t.a)
	}
	if t.b != nil {
		b = w.canon(t.b)
	}
	if t.c != nil {
		c = w.canon(t.c)
	}
	r := t
	if a != t.a || b != t.b || c != t.c {
		switch t.op {
		case ONot:
			r = ts.Not(a)
		case OAnd:
			r = ts.And(a, b)
		case OOr:
			r = ts.Or(a, b)
		case OEq:
			r = ts.Eq(a, b)
		case OIte:
			r = ts.Ite(a, b, c)
		case OZext:
			r = ts.Zext(a, t.w)
		case OSext:
			r = ts.Sext(a, t.w)
		case OTrunc:
			r = ts.Trunc(a, t.w)
		default:
			r = ts.Bin(t.op, a, b)
		}
	}
	w.cmemo[t] = r
	return r
}

func support(t *Term, seen map[*Term]bool, vs map[int]bool) {
	if t == nil || t.sup == -1 || seen[t] {
		return
	}
	if t.sup >= 0 {
		vs[t.sup] = true
		return
	}
	seen[t] = true
	support(t.a, seen, vs)
	support(t.b, seen, vs)
	support(t.c, seen, vs)
}

// chain finds equalities that lead from a to b.
func (w *W) chain(a, b int) [][2]int {
	if a == b {
		return nil
	}
	from := map[int]int{a: -1}
	q := []int{a}
	for len(q) > 0 {
		v := q[0]
		q = q[1:]
		for i, e := range w.eqs {
			o := -1
			if e[0] == v {
				o = e[1]
			} else if e[1] == v {
				o = e[0]
			}
			if o < 0 {
				continue
			}
			if _, ok := from[o]; ok {
				continue
			}
			from[o] = i
			if o == b {
				var out [][2]int
				for o != a {
					e := w.eqs[from[o]]
					out = append(out, e)
					if e[0] == o {
						o = e[1]
					} else {
						o = e[0]
					}
				}
				return out
			}
			q = append(q, o)
		}
	}
	return nil
}

// explain has the solver refute t from the equalities (and, if all is set, the
// constraints on single variables) behind the substitution.
func (w *W) explain(t *Term, all bool) bool {
	ts := w.ts
	vs := map[int]bool{}
	support(t, map[*Term]bool{}, vs)
	var lst []int
	for v := range vs {
		lst = append(lst, v)
	}
	sort.Ints(lst)
	var fs []*Term
	seen := map[*Term]bool{}
	add := func(f *Term) {
		if f != nil && !seen[f] {
			seen[f] = true
			fs = append(fs, f)
		}
	}
	link := func(a, b int) {
		for _, e := range w.chain(a, b) {
			add(ts.Eq(ts.vars[e[0]].t, ts.vars[e[1]].t))
		}
	}
	add(t)
	a, b, neg := pair(t)
	switch {
	case a >= 0 && neg && !all:
		link(a, b)
	case a >= 0 && !neg && !all && w.apart(a, b) >= 0:
		n := w.nes[w.apart(a, b)]
		x, y := n[0], n[1]
		if w.rep(x) != w.rep(a) {
			x, y = y, x
		}
		link(a, x)
		add(ts.Not(ts.Eq(ts.vars[x].t, ts.vars[y].t)))
		link(b, y)
	default:
		for _, v := range lst {
			r := w.rep(v)
			link(v, r)
			if all || w.val[r] != nil {
				for _, c := range w.cons[r] {
					add(c)
					link(c.sup, r)
				}
			}
		}
	}
	ts.ren = map[int]string{}
	var body strings.Builder
	for _, f := range fs {
		body.WriteString("(assert ")
		ts.smt(&body, f)
		body.WriteString(")\n")
	}
	type dv struct {
		n string
		w uint8
	}
	var ds []dv
	for v, n := range ts.ren {
		ds = append(ds, dv{n, ts.vars[v].w})
	}
	ts.ren = nil
	sort.Slice(ds, func(i, j int) bool { return ds[i].n < ds[j].n })
	var sb strings.Builder
	for _, d := range ds {
		if d.w == 0 {
			fmt.Fprintf(&sb, "(declare-const %s Bool)\n", d.n)
		} else {
			fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %d))\n", d.n, d.w)
		}
	}
	return w.cached(sb.String()+body.String()) == "unsat"
}

// cached decides a closed query; equal queries are sent once.
func (w *W) cached(txt string) string {
	ex := w.ex
	ex.confMu.Lock()
	ex.confUse++
	got, ok := ex.conf[txt]
	ex.confMu.Unlock()
	if !ok {
		got = w.sol.raw(txt)
		ex.confMu.Lock()
		ex.conf[txt] = got
		ex.confMu.Unlock()
	}
	return got
}

// guess looks for a model of the path condition and t near the current one;
// it is only used if it satisfies all of them.
func (w *W) guess(t *Term) []uint64 {
	m := append([]uint64(nil), w.model...)
	env := func(i int) uint64 { return m[i] }
	var lits []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.op == OAnd {
			flat(t.a)
			flat(t.b)
			return
		}
		lits = append(lits, t)
	}
	flat(t)
	n := len(w.nes)
	defer func() { w.nes = w.nes[:n] }()
	for _, l := range lits {
		if a, b, neg := pair(l); a >= 0 && neg {
			w.nes = append(w.nes, [2]int{a, b})
		}
	}
	for _, l := range lits {
		if eval(l, env) != 0 {
			continue
		}
		a, b, neg := pair(l)
		switch {
		case a >= 0 && !neg:
			a, b = w.rep(a), w.rep(b)
			if !w.move(m, w.dom[a].and(&w.dom[b]), a, b) {
				return nil
			}
		case a >= 0:
			a, b = w.rep(a), w.rep(b)
			if !w.move(m, w.dom[a], a, a) && !w.move(m, w.dom[b], b, b) {
				return nil
			}
		case w.ts.small(l) && w.ts.vars[l.sup].w == 8:
			a = w.rep(l.sup)
			if !w.move(m, w.dom[a].and(w.ts.maskOf(l)), a, a) {
				return nil
			}
		default:
			return nil
		}
	}
	if eval(t, env) == 0 {
		return nil
	}
	for _, c := range w.pc {
		if eval(c, env) == 0 {
			return nil
		}
	}
	return m
}

// move gives the variables equal to a and b a value of d that no variable they
// are apart from has.
func (w *W) move(m []uint64, d mask, a, b int) bool {
	for _, n := range w.nes {
		x, y := w.rep(n[0]), w.rep(n[1])
		if x == a || x == b {
			d[m[y]>>6] &^= 1 << (m[y] & 63)
		}
		if y == a || y == b {
			d[m[x]>>6] &^= 1 << (m[x] & 63)
		}
	}
	for i := 0; i < 256; i++ {
		if d.has(i) {
			for v := range w.uf {
				if r := w.rep(v); r == a || r == b {
					m[v] = uint64(i)
				}
			}
			return true
		}
	}
	return false
}

type wideRes struct {
	sat bool
	val uint64
}

// wide decides a condition on one variable of more than 8 bits that no
// constraint relates to others; equal queries are sent once.
func (w *W) wide(t *Term) (bool, []uint64) {
	ts := w.ts
	v := t.sup
	var sb strings.Builder
	fmt.Fprintf(&sb, "(declare-const x (_ BitVec %d))\n", ts.vars[v].w)
	ts.one = "x"
	for _, c := range append(append([]*Term(nil), w.cons[v]...), t) {
		sb.WriteString("(assert ")
		ts.smt(&sb, c)
		sb.WriteString(")\n")
	}
	ts.one = ""
	txt := sb.String()
	ex := w.ex
	ex.confMu.Lock()
	ex.confUse++
	r, ok := ex.confW[txt]
	ex.confMu.Unlock()
	if !ok {
		r.sat, r.val = w.sol.rawVal(txt)
		ex.confMu.Lock()
		if ex.confW == nil {
			ex.confW = map[string]wideRes{}
		}
		ex.confW[txt] = r
		ex.confMu.Unlock()
	}
	if !r.sat {
		return false, nil
	}
	m := append([]uint64(nil), w.model...)
	m[v] = r.val
	return true, m
}
