package main

import (
	"fmt"
	"strings"
)

// Terms: hash-consed expressions over bit-vectors (width 1..64) and booleans
// (width 0). One table per worker, so no locking.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OUdiv
	OSdiv
	OUrem
	OSrem
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OTrunc
)

var opSMT = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub",
	OMul: "bvmul", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

type Term struct {
	op      Op
	w       uint8 // 0 = bool
	a, b, c *Term
	val     uint64 // OConst: value, OVar: variable number
	id      int
	// support: -1 none, -2 several, else the single variable number
	sup  int
	mask *mask // for terms over one variable of <= 8 bits and bool sort
	size int
}

type mask [4]uint64

func (m *mask) empty() bool { return m[0]|m[1]|m[2]|m[3] == 0 }
func (m *mask) has(i int) bool {
	return m[i>>6]>>(uint(i)&63)&1 == 1
}
func (m *mask) and(o *mask) mask {
	return mask{m[0] & o[0], m[1] & o[1], m[2] & o[2], m[3] & o[3]}
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int
	val     uint64
}

type SymVar struct {
	name string
	w    uint8
	t    *Term
}

type Terms struct {
	one string // name of the only variable when printing single-variable terms
	pre string // prefix of variable names when printing
	ren map[int]string // names of the variables when printing
	tab    map[tkey]*Term
	nextID int
	vars   []*SymVar
	T, F   *Term
}

func NewTerms() *Terms {
	ts := &Terms{tab: make(map[tkey]*Term)}
	ts.reset()
	return ts
}

func (ts *Terms) reset() {
	ts.tab = make(map[tkey]*Term)
	ts.nextID = 1
	ts.vars = ts.vars[:0]
	ts.T = ts.mk(OConst, 0, nil, nil, nil, 1)
	ts.F = ts.mk(OConst, 0, nil, nil, nil, 0)
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

func (ts *Terms) mk(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(c), val}
	if t, ok := ts.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, id: ts.nextID, sup: -1, size: 1}
	ts.nextID++
	if op == OVar {
		t.sup = int(val)
	} else {
		for _, x := range [3]*Term{a, b, c} {
			if x == nil {
				continue
			}
			t.size += x.size
			if x.sup == -1 {
				continue
			}
			if t.sup == -1 {
				t.sup = x.sup
			} else if t.sup != x.sup {
				t.sup = -2
			}
		}
	}
	ts.tab[k] = t
	return t
}

func wmask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (ts *Terms) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return ts.T
		}
		return ts.F
	}
	return ts.mk(OConst, w, nil, nil, nil, v&wmask(w))
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.T
	}
	return ts.F
}

func (ts *Terms) NewVar(name string, w uint8) *Term {
	n := len(ts.vars)
	v := &SymVar{name: name, w: w}
	ts.vars = append(ts.vars, v)
	v.t = ts.mk(OVar, w, nil, nil, nil, uint64(n))
	return v.t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (ts *Terms) Not(a *Term) *Term {
	if a.op == OConst {
		return ts.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return ts.mk(ONot, 0, a, nil, nil, 0)
}

func (ts *Terms) And(a, b *Term) *Term {
	if a == ts.F || b == ts.F {
		return ts.F
	}
	if a == ts.T || a == b {
		return b
	}
	if b == ts.T {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return ts.F
	}
	return ts.mk(OAnd, 0, a, b, nil, 0)
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a == ts.T || b == ts.T {
		return ts.T
	}
	if a == ts.F || a == b {
		return b
	}
	if b == ts.F {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return ts.T
	}
	return ts.mk(OOr, 0, a, b, nil, 0)
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return ts.Or(ts.And(c, a), ts.And(ts.Not(c), b))
	}
	return ts.mk(OIte, a.w, c, a, b, 0)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b == ts.T {
			return a
		}
		if b == ts.F {
			return ts.Not(a)
		}
	}
	if b.op == OConst {
		switch a.op {
		case OZext:
			if b.val > wmask(a.a.w) {
				return ts.F
			}
			return ts.Eq(a.a, ts.Const(a.a.w, b.val))
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return ts.Or(ts.And(a.a, ts.Eq(a.b, b)), ts.And(ts.Not(a.a), ts.Eq(a.c, b)))
			}
		case OAdd:
			if a.b.op == OConst {
				return ts.Eq(a.a, ts.Const(a.w, b.val-a.b.val))
			}
		}
	} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return ts.Eq(a.a, b.a)
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OEq, 0, a, b, nil, 0)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := wmask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sx(x, w) < sx(y, w))
	case OSle:
		return b2u(sx(x, w) <= sx(y, w))
	}
	panic("evalBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %v width %d %d", op, a.w, b.w))
	}
	rw := a.w
	cmp := op == OUlt || op == OUle || op == OSlt || op == OSle
	if cmp {
		rw = 0
	}
	if a.op == OConst && b.op == OConst {
		return ts.Const(rw, evalBin(op, a.w, a.val, b.val))
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return ts.Bin(OAdd, a.a, ts.Const(a.w, a.b.val+b.val))
			}
		}
	case OSub:
		if b.op == OConst {
			return ts.Bin(OAdd, a, ts.Const(a.w, -b.val))
		}
		if a == b {
			return ts.Const(a.w, 0)
		}
	case OUlt, OSlt:
		if a == b {
			return ts.F
		}
	case OUle, OSle:
		if a == b {
			return ts.T
		}
	case OBAnd:
		if b.op == OConst && b.val == 0 {
			return b
		}
	}
	if cmp && b.op == OConst && a.op == OZext && (op == OUlt || op == OUle || sx(b.val, b.w) >= 0) {
		// zext(x) < c
		m := wmask(a.a.w)
		uop := OUlt
		if op == OUle || op == OSle {
			uop = OUle
		}
		if b.val > m {
			return ts.T
		}
		return ts.Bin(uop, a.a, ts.Const(a.a.w, b.val))
	}
	if cmp && a.op == OConst && b.op == OZext && (op == OUlt || op == OUle || sx(a.val, a.w) >= 0) {
		m := wmask(b.a.w)
		uop := OUlt
		if op == OUle || op == OSle {
			uop = OUle
		}
		if a.val > m {
			return ts.F
		}
		return ts.Bin(uop, ts.Const(b.a.w, a.val), b.a)
	}
	return ts.mk(op, rw, a, b, nil, 0)
}

func (ts *Terms) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return ts.Const(w, a.val)
	}
	if a.op == OZext {
		return ts.Zext(a.a, w)
	}
	return ts.mk(OZext, w, a, nil, nil, 0)
}

func (ts *Terms) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return ts.Const(w, uint64(sx(a.val, a.w)))
	}
	if a.op == OZext {
		return ts.Zext(a.a, w)
	}
	return ts.mk(OSext, w, a, nil, nil, 0)
}

func (ts *Terms) Trunc(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return ts.Const(w, a.val)
	}
	if a.op == OZext || a.op == OSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return ts.Trunc(a.a, w)
		}
		if a.op == OZext {
			return ts.Zext(a.a, w)
		}
		return ts.Sext(a.a, w)
	}
	return ts.mk(OTrunc, w, a, nil, nil, 0)
}

// eval evaluates a term under an assignment of the variables.
func eval(t *Term, env func(int) uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return env(int(t.val))
	case ONot:
		return 1 - eval(t.a, env)
	case OAnd:
		if eval(t.a, env) == 0 {
			return 0
		}
		return eval(t.b, env)
	case OOr:
		if eval(t.a, env) == 1 {
			return 1
		}
		return eval(t.b, env)
	case OEq:
		return b2u(eval(t.a, env) == eval(t.b, env))
	case OIte:
		if eval(t.a, env) != 0 {
			return eval(t.b, env)
		}
		return eval(t.c, env)
	case OZext:
		return eval(t.a, env)
	case OSext:
		return uint64(sx(eval(t.a, env), t.a.w)) & wmask(t.w)
	case OTrunc:
		return eval(t.a, env) & wmask(t.w)
	}
	return evalBin(t.op, t.a.w, eval(t.a, env), eval(t.b, env))
}

// maskOf returns the set of values of the single <=8-bit variable for which the
// boolean term holds.
func (ts *Terms) maskOf(t *Term) *mask {
	if t.mask != nil {
		return t.mask
	}
	var m mask
	w := ts.vars[t.sup].w
	n := 1 << w
	if w == 0 {
		n = 2
	}
	switch {
	case t.op == OAnd && t.a.sup == t.b.sup:
		m = ts.maskOf(t.a).and(ts.maskOf(t.b))
	case t.op == OOr && t.a.sup == t.b.sup:
		x, y := ts.maskOf(t.a), ts.maskOf(t.b)
		for i := range m {
			m[i] = x[i] | y[i]
		}
	default:
		var cur uint64
		env := func(int) uint64 { return cur }
		for i := 0; i < n; i++ {
			cur = uint64(i)
			if eval(t, env) != 0 {
				m[i>>6] |= 1 << (uint(i) & 63)
			}
		}
	}
	t.mask = &m
	return t.mask
}

func (ts *Terms) small(t *Term) bool {
	return t.sup >= 0 && ts.vars[t.sup].w <= 8
}

// smt prints a term in SMT-LIB syntax.
func (ts *Terms) smt(sb *strings.Builder, t *Term) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", t.val, t.w)
	case OVar:
		if ts.one != "" {
			sb.WriteString(ts.one)
			return
		}
		if ts.ren != nil {
			n, ok := ts.ren[int(t.val)]
			if !ok {
				n = fmt.Sprintf("x%d", len(ts.ren))
				ts.ren[int(t.val)] = n
			}
			sb.WriteString(n)
			return
		}
		sb.WriteString(ts.pre)
		fmt.Fprintf(sb, "v%d", t.val)
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.w-t.a.w)
		ts.smt(sb, t.a)
		sb.WriteByte(')')
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.w-t.a.w)
		ts.smt(sb, t.a)
		sb.WriteByte(')')
	case OTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) ", t.w-1)
		ts.smt(sb, t.a)
		sb.WriteByte(')')
	default:
		sb.WriteByte('(')
		sb.WriteString(opSMT[t.op])
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				ts.smt(sb, x)
			}
		}
		sb.WriteByte(')')
	}
}

// smtShared prints a term using let-bindings for shared subterms.
func (ts *Terms) smtShared(t *Term) string {
	var sb strings.Builder
	if t.size < 400 {
		ts.smt(&sb, t)
		return sb.String()
	}
	count := map[*Term]int{}
	var order []*Term
	var walk func(*Term)
	walk = func(x *Term) {
		if x == nil {
			return
		}
		count[x]++
		if count[x] > 1 {
			return
		}
		walk(x.a)
		walk(x.b)
		walk(x.c)
		order = append(order, x)
	}
	walk(t)
	bound := map[*Term]bool{}
	var pr func(x *Term)
	pr = func(x *Term) {
		if bound[x] {
			fmt.Fprintf(&sb, "t%d", x.id)
			return
		}
		switch x.op {
		case OConst, OVar:
			ts.smt(&sb, x)
			return
		case OZext:
			fmt.Fprintf(&sb, "((_ zero_extend %d)", x.w-x.a.w)
		case OSext:
			fmt.Fprintf(&sb, "((_ sign_extend %d)", x.w-x.a.w)
		case OTrunc:
			fmt.Fprintf(&sb, "((_ extract %d 0)", x.w-1)
		default:
			sb.WriteByte('(')
			sb.WriteString(opSMT[x.op])
		}
		for _, y := range [3]*Term{x.a, x.b, x.c} {
			if y != nil {
				sb.WriteByte(' ')
				pr(y)
			}
		}
		sb.WriteByte(')')
	}
	n := 0
	for _, x := range order {
		if x != t && count[x] > 1 && x.op != OConst && x.op != OVar {
			fmt.Fprintf(&sb, "(let ((t%d ", x.id)
			pr(x)
			sb.WriteString(")) ")
			bound[x] = true
			n++
		}
	}
	pr(t)
	sb.WriteString(strings.Repeat(")", n))
	return sb.String()
}
