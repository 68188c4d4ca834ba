package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one Go value of the executed program. Scalars sit in N (ints sign-
// or zero-extended to 64 bits according to their type, floats as bits); a
// symbolic scalar has a *Term in R.
type Value struct {
	N uint64
	R any
}

// SB is one byte of a string that may be symbolic.
type SB struct {
	c byte
	t *Term
}

// SymStr is a string of known length with at least one symbolic byte.
type SymStr struct{ b []SB }

// Agg is the contents of a struct or array variable or value.
type Agg struct{ f []Value }

// Slc is a non-nil slice.
type Slc struct{ a []Value }

// Iface is a non-nil interface value.
type Iface struct {
	T *TypeInfo
	V Value
}

// FuncVal is a non-nil function value.
type FuncVal struct {
	fn     *Func
	env    []Value
	native func(w *W, args []Value) Value
	name   string
}

// Opaque wraps a native object (for example a compiled regular expression).
type Opaque struct{ v any }

// dataPtr is what unsafe.SliceData / StringData give.
type dataPtr struct {
	s []Value
	v Value // string
}

type mapEntry struct {
	k, v    Value
	deleted bool
}

// MapObj is a map. Iteration is in insertion order unless the explorer makes
// the order symbolic.
type MapObj struct {
	idx     map[string]int // concrete keys
	entries []*mapEntry
	nsym    int // entries with symbolic keys
	live    int
	base    bool
	kt      types.Type
}

// TypeInfo is a canonical dynamic type.
type TypeInfo struct {
	T  types.Type
	id int
	mu sync.RWMutex
	ms map[string]*Func
}

type typeTable struct {
	mu sync.Mutex
	m  typeutil.Map
	n  int
}

func (tt *typeTable) get(t types.Type) *TypeInfo {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	t = types.Unalias(t)
	if x := tt.m.At(t); x != nil {
		return x.(*TypeInfo)
	}
	tt.n++
	ti := &TypeInfo{T: t, id: tt.n, ms: map[string]*Func{}}
	tt.m.Set(t, ti)
	return ti
}

type intKind struct {
	w      uint8
	signed bool
}

func intKindOf(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok := t.Underlying().(*types.Interface); ok {
			_ = tp
		}
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	}
	return intKind{}, false
}

func (k intKind) norm(n uint64) uint64 {
	if k.w == 64 {
		return n
	}
	if k.signed {
		return uint64(sx(n, k.w))
	}
	return n & wmask(k.w)
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

var emptyStr any = ""

func strV(s string) Value {
	if s == "" {
		return Value{R: emptyStr}
	}
	return Value{R: s}
}

func boolV(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func intV(i int) Value { return Value{N: uint64(int64(i))} }

func termV(t *Term, k intKind) Value {
	if t.op == OConst {
		return Value{N: k.norm(t.val)}
	}
	return Value{R: t}
}

func boolTermV(t *Term) Value {
	if t.op == OConst {
		return Value{N: t.val}
	}
	return Value{R: t}
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Value{R: emptyStr}
		}
		return Value{}
	case *types.Struct:
		a := &Agg{f: make([]Value, u.NumFields())}
		for i := range a.f {
			a.f[i] = zero(u.Field(i).Type())
		}
		return Value{R: a}
	case *types.Array:
		a := &Agg{f: make([]Value, int(u.Len()))}
		if u.Len() > 0 {
			e := u.Elem()
			if isAgg(e) || isString(e) {
				for i := range a.f {
					a.f[i] = zero(e)
				}
			}
		}
		return Value{R: a}
	case *types.Tuple:
		vs := make([]Value, u.Len())
		for i := range vs {
			vs[i] = zero(u.At(i).Type())
		}
		return Value{R: vs}
	}
	return Value{}
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	if a, ok := v.R.(*Agg); ok {
		n := &Agg{f: make([]Value, len(a.f))}
		for i := range a.f {
			if _, ok := a.f[i].R.(*Agg); ok {
				n.f[i] = copyVal(a.f[i])
			} else {
				n.f[i] = a.f[i]
			}
		}
		return Value{R: n}
	}
	return v
}

func strBytes(v Value) []SB {
	switch s := v.R.(type) {
	case nil:
		return nil
	case string:
		b := make([]SB, len(s))
		for i := 0; i < len(s); i++ {
			b[i].c = s[i]
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v.R))
}

func strLen(v Value) int {
	switch s := v.R.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.R))
}

func mkStr(b []SB) Value {
	for i := range b {
		if b[i].t != nil {
			return Value{R: &SymStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = b[i].c
	}
	return strV(string(bs))
}

func concStr(v Value) (string, bool) {
	switch s := v.R.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func byteV(b SB) Value {
	if b.t != nil {
		return Value{R: b.t}
	}
	return Value{N: uint64(b.c)}
}

func toSB(v Value) SB {
	if t, ok := v.R.(*Term); ok {
		if t.op == OConst {
			return SB{c: byte(t.val)}
		}
		return SB{t: t}
	}
	return SB{c: byte(v.N)}
}

func sliceOf(v Value) []Value {
	if v.R == nil {
		return nil
	}
	return v.R.(*Slc).a
}

func mkSlice(a []Value) Value { return Value{R: &Slc{a}} }

func bytesVal(b []SB) Value {
	a := make([]Value, len(b))
	for i := range b {
		a[i] = byteV(b[i])
	}
	return mkSlice(a)
}

func sliceBytes(v Value) []SB {
	a := sliceOf(v)
	b := make([]SB, len(a))
	for i := range a {
		b[i] = toSB(a[i])
	}
	return b
}

func (w *W) sbTerm(b SB) *Term {
	if b.t != nil {
		return b.t
	}
	return w.ts.Const(8, uint64(b.c))
}

func (w *W) bytesEq(x, y []SB) *Term {
	if len(x) != len(y) {
		return w.ts.F
	}
	r := w.ts.T
	for i := range x {
		if x[i].t == nil && y[i].t == nil {
			if x[i].c != y[i].c {
				return w.ts.F
			}
			continue
		}
		r = w.ts.And(r, w.ts.Eq(w.sbTerm(x[i]), w.sbTerm(y[i])))
		if r == w.ts.F {
			return r
		}
	}
	return r
}

// strLess is x < y (or <= if orEq).
func (w *W) strLess(x, y []SB, orEq bool) *Term {
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	var r *Term
	if len(x) < len(y) || (len(x) == len(y) && orEq) {
		r = w.ts.T
	} else {
		r = w.ts.F
	}
	for i := n - 1; i >= 0; i-- {
		a, b := w.sbTerm(x[i]), w.sbTerm(y[i])
		r = w.ts.Or(w.ts.Bin(OUlt, a, b), w.ts.And(w.ts.Eq(a, b), r))
	}
	return r
}

// valEq is equality of two values of type t as a boolean value.
func (w *W) valEq(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if x, ok := a.R.(string); ok {
				if y, ok := b.R.(string); ok {
					return boolV(x == y)
				}
			}
			return boolTermV(w.bytesEq(strBytes(a), strBytes(b)))
		}
		if u.Info()&types.IsFloat != 0 {
			return boolV(math.Float64frombits(a.N) == math.Float64frombits(b.N))
		}
		ta, oka := a.R.(*Term)
		tb, okb := b.R.(*Term)
		if !oka && !okb {
			if u.Kind() == types.UnsafePointer {
				return boolV(a.R == b.R)
			}
			return boolV(a.N == b.N)
		}
		var wd uint8
		if u.Info()&types.IsBoolean == 0 {
			k, _ := intKindOf(t)
			wd = k.w
		}
		if !oka {
			ta = w.ts.Const(wd, a.N)
		}
		if !okb {
			tb = w.ts.Const(wd, b.N)
		}
		return boolTermV(w.ts.Eq(ta, tb))
	case *types.Struct:
		x, y := a.R.(*Agg), b.R.(*Agg)
		r := w.ts.T
		for i := range x.f {
			if u.Field(i).Name() == "_" {
				continue
			}
			e := w.valEq(u.Field(i).Type(), x.f[i], y.f[i])
			r = w.ts.And(r, w.boolTerm(e))
			if r == w.ts.F {
				break
			}
		}
		return boolTermV(r)
	case *types.Array:
		x, y := a.R.(*Agg), b.R.(*Agg)
		r := w.ts.T
		for i := range x.f {
			r = w.ts.And(r, w.boolTerm(w.valEq(u.Elem(), x.f[i], y.f[i])))
		}
		return boolTermV(r)
	case *types.Interface:
		if a.R == nil || b.R == nil {
			return boolV(a.R == nil && b.R == nil)
		}
		x, y := a.R.(*Iface), b.R.(*Iface)
		if x.T != y.T {
			return boolV(false)
		}
		if !types.Comparable(x.T.T) {
			w.rtPanic("runtime error: comparing uncomparable type " + x.T.T.String())
		}
		return w.valEq(x.T.T, x.V, y.V)
	case *types.Slice:
		return boolV(a.R == nil && b.R == nil)
	case *types.Map, *types.Chan:
		if a.R == nil || b.R == nil {
			return boolV(a.R == nil && b.R == nil)
		}
		return boolV(a.R == b.R)
	case *types.Signature:
		return boolV(a.R == nil && b.R == nil)
	case *types.Pointer:
		return boolV(a.R == b.R)
	}
	panic(abort{"valEq " + t.String(), false})
}

func (w *W) boolTerm(v Value) *Term {
	if t, ok := v.R.(*Term); ok {
		return t
	}
	return w.ts.Bool(v.N != 0)
}

func (w *W) intTerm(v Value, k intKind) *Term {
	if t, ok := v.R.(*Term); ok {
		return t
	}
	return w.ts.Const(k.w, v.N)
}

// keyString encodes a concrete key; ok=false if it has symbolic parts.
func keyString(sb *strings.Builder, t types.Type, v Value) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concStr(v)
			if !ok {
				return false
			}
			fmt.Fprintf(sb, "%d:", len(s))
			sb.WriteString(s)
			return true
		}
		if _, ok := v.R.(*Term); ok {
			return false
		}
		var b [9]byte
		n := v.N
		for i := 0; i < 8; i++ {
			b[i] = byte(n >> (8 * i))
		}
		b[8] = ';'
		sb.Write(b[:])
		return true
	case *types.Struct:
		x := v.R.(*Agg)
		for i := range x.f {
			if !keyString(sb, u.Field(i).Type(), x.f[i]) {
				return false
			}
		}
		return true
	case *types.Array:
		x := v.R.(*Agg)
		for i := range x.f {
			if !keyString(sb, u.Elem(), x.f[i]) {
				return false
			}
		}
		return true
	case *types.Interface:
		if v.R == nil {
			sb.WriteString("nil;")
			return true
		}
		x := v.R.(*Iface)
		fmt.Fprintf(sb, "%d|", x.T.id)
		return keyString(sb, x.T.T, x.V)
	case *types.Pointer, *types.Chan:
		fmt.Fprintf(sb, "%p;", v.R)
		return true
	}
	panic(abort{"map key type " + t.String(), false})
}

func newMap(kt types.Type) *MapObj {
	return &MapObj{idx: map[string]int{}, kt: kt}
}

// touch saves a map that existed before the path so that it can be restored.
func (w *W) touch(m *MapObj) {
	if !m.base || w.inInit {
		return
	}
	cp := *m
	cp.idx = make(map[string]int, len(m.idx))
	for k, v := range m.idx {
		cp.idx[k] = v
	}
	cp.entries = make([]*mapEntry, len(m.entries))
	for i, e := range m.entries {
		c := *e
		cp.entries[i] = &c
	}
	w.restore = append(w.restore, func() { *m = cp })
	m.base = false
}

// mapFind returns the entry for key k or nil; it may fork.
func (w *W) mapFind(m *MapObj, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	if w.race != nil {
		w.raceMap(m, false)
	}
	if i, ok := k.R.(*Iface); ok && !types.Comparable(i.T.T) {
		w.rtPanic("runtime error: hash of unhashable type " + i.T.T.String())
	}
	var sb strings.Builder
	conc := keyString(&sb, m.kt, k)
	if conc {
		if i, ok := m.idx[sb.String()]; ok {
			return m.entries[i]
		}
		if m.nsym == 0 {
			return nil
		}
	}
	var cands []*mapEntry
	var conds []*Term
	none := w.ts.T
	for _, e := range m.entries {
		if e.deleted {
			continue
		}
		eq := w.boolTerm(w.valEq(m.kt, e.k, k))
		if eq == w.ts.F {
			continue
		}
		cands = append(cands, e)
		conds = append(conds, eq)
		none = w.ts.And(none, w.ts.Not(eq))
		if eq == w.ts.T {
			break
		}
	}
	if len(cands) == 0 {
		return nil
	}
	conds = append(conds, none)
	i := w.choose(conds)
	if i == len(cands) {
		return nil
	}
	return cands[i]
}

func (w *W) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	e := w.mapFind(m, k)
	w.touch(m)
	if w.race != nil {
		w.raceMap(m, true)
	}
	if e != nil {
		// the entries may have been replaced by touch's saved copy; e is still live
		e.v = copyVal(v)
		return
	}
	k = copyVal(k)
	var sb strings.Builder
	if keyString(&sb, m.kt, k) {
		m.idx[sb.String()] = len(m.entries)
	} else {
		m.nsym++
	}
	m.entries = append(m.entries, &mapEntry{k: k, v: copyVal(v)})
	m.live++
}

func (w *W) mapDelete(m *MapObj, k Value) {
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	w.touch(m)
	if w.race != nil {
		w.raceMap(m, true)
	}
	e.deleted = true
	m.live--
	var sb strings.Builder
	if keyString(&sb, m.kt, e.k) {
		delete(m.idx, sb.String())
	} else {
		m.nsym--
	}
}

func funcKey(f *ssa.Function) string { return f.String() }
