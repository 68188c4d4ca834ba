package main

import (
	"go/types"
	"reflect"
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type syncMap = sync.Map

// Re is a compiled regular expression: the native one and its program for
// matching text with symbolic bytes.
type Re struct {
	re      *regexp.Regexp
	prog    *syntax.Prog
	masks   []*mask // ASCII set per rune instruction
	ncap    int
	longest bool
}

var reCache sync.Map

func newRe(expr string) (*Re, error) { return compileRe(expr, false) }

func compileRe(expr string, posix bool) (*Re, error) {
	type reKey struct {
		expr  string
		posix bool
	}
	key := reKey{expr, posix}
	if r, ok := reCache.Load(key); ok {
		return r.(*Re), nil
	}
	comp, flags := regexp.Compile, syntax.Perl
	if posix {
		comp, flags = regexp.CompilePOSIX, syntax.POSIX
	}
	re, err := comp(expr)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(expr, flags)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	r := &Re{re: re, prog: prog, ncap: 2 * (re.NumSubexp() + 1), longest: posix}
	r.masks = make([]*mask, len(prog.Inst))
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			m := &mask{}
			for c := 0; c < 128; c++ {
				ok := false
				switch in.Op {
				case syntax.InstRuneAny:
					ok = true
				case syntax.InstRuneAnyNotNL:
					ok = c != '\n'
				default:
					ok = in.MatchRune(rune(c))
				}
				if ok {
					m[c>>6] |= 1 << (uint(c) & 63)
				}
			}
			r.masks[i] = m
		}
	}
	reCache.Store(key, r)
	return r, nil
}

func (w *W) reOf(v Value) *Re {
	p := ptrOf(w, v)
	o, ok := p.R.(*Opaque)
	if !ok {
		unsupported("regexp value %T", p.R)
	}
	return o.v.(*Re)
}

func reVal(r *Re) Value {
	c := new(Value)
	c.R = &Opaque{r}
	return Value{R: c}
}

// exec is a leftmost-first match of s starting the search at pos.
func (w *W) exec(r *Re, s []SB, pos int) []int {
	for st := pos; st <= len(s); {
		visited := make([]bool, len(r.prog.Inst)*(len(s)+1))
		caps := make([]int, r.ncap)
		for i := range caps {
			caps[i] = -1
		}
		if w.step(r, s, r.prog.Start, st, caps, visited) {
			caps[0] = st
			return caps
		}
		if r.longest && w.longestCaps != nil {
			caps, w.longestCaps = w.longestCaps, nil
			caps[0] = st
			return caps
		}
		if st == len(s) {
			break
		}
		if r.prog.StartCond()&syntax.EmptyBeginText != 0 {
			break
		}
		_, n := w.decodeRuneSB(s, st)
		st += n
	}
	return nil
}

func (w *W) step(r *Re, s []SB, pc, p int, caps []int, visited []bool) bool {
	for {
		k := pc*(len(s)+1) + p
		if visited[k] {
			return false
		}
		visited[k] = true
		w.steps += 4
		in := &r.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			if w.step(r, s, int(in.Out), p, caps, visited) {
				return true
			}
			pc = int(in.Arg)
		case syntax.InstCapture:
			i := int(in.Arg)
			if i >= len(caps) {
				pc = int(in.Out)
				continue
			}
			old := caps[i]
			caps[i] = p
			if w.step(r, s, int(in.Out), p, caps, visited) {
				return true
			}
			caps[i] = old
			return false
		case syntax.InstEmptyWidth:
			if !w.emptyOK(s, p, syntax.EmptyOp(in.Arg)) {
				return false
			}
			pc = int(in.Out)
		case syntax.InstNop:
			pc = int(in.Out)
		case syntax.InstMatch:
			caps[1] = p
			if r.longest {
				if w.longestCaps == nil || w.longestCaps[1] < p {
					w.longestCaps = append([]int(nil), caps...)
				}
				return false
			}
			return true
		case syntax.InstFail:
			return false
		default:
			if p >= len(s) {
				return false
			}
			b := s[p]
			if b.t != nil {
				if w.branch(w.ts.Bin(OUlt, b.t, w.ts.Const(8, 0x80))) {
					if !w.branch(w.maskTerm(b.t, r.masks[pc], 128)) {
						return false
					}
					p++
					pc = int(in.Out)
					continue
				}
			}
			rv, n := w.decodeRuneSB(s, p)
			if rv.R != nil {
				unsupported("rune")
			}
			ok := false
			switch in.Op {
			case syntax.InstRuneAny:
				ok = true
			case syntax.InstRuneAnyNotNL:
				ok = rune(rv.N) != '\n'
			default:
				ok = in.MatchRune(rune(rv.N))
			}
			if !ok {
				return false
			}
			p += n
			pc = int(in.Out)
		}
	}
}

var wordMask = func() *mask {
	m := &mask{}
	for c := 0; c < 128; c++ {
		if syntax.IsWordChar(rune(c)) {
			m[c>>6] |= 1 << (uint(c) & 63)
		}
	}
	return m
}()

func (w *W) isWord(s []SB, p int) bool {
	if p < 0 || p >= len(s) {
		return false
	}
	if s[p].t == nil {
		return syntax.IsWordChar(rune(s[p].c))
	}
	return w.branch(w.maskTerm(s[p].t, wordMask, 128))
}

func (w *W) isNL(s []SB, p int) bool {
	return w.branch(w.bytesEq(s[p:p+1], []SB{{c: '\n'}}))
}

func (w *W) emptyOK(s []SB, p int, op syntax.EmptyOp) bool {
	if op&syntax.EmptyBeginText != 0 && p != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && p != len(s) {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && p != 0 && !w.isNL(s, p-1) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && p != len(s) && !w.isNL(s, p) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := w.isWord(s, p-1) != w.isWord(s, p)
		if op&syntax.EmptyWordBoundary != 0 && !b {
			return false
		}
		if op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}

// all delivers successive matches (the semantics of regexp's allMatches).
func (w *W) all(r *Re, s []SB, n int) [][]int {
	if n < 0 {
		n = len(s) + 1
	}
	var out [][]int
	for pos, i, prev := 0, 0, -1; i < n && pos <= len(s); {
		m := w.exec(r, s, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prev {
				accept = false
			}
			if pos < len(s) {
				_, k := w.decodeRuneSB(s, pos)
				pos += k
			} else {
				pos = len(s) + 1
			}
		} else {
			pos = m[1]
		}
		prev = m[1]
		if accept {
			out = append(out, m)
			i++
		}
	}
	return out
}

func intsV(a []int) Value {
	if a == nil {
		return Value{}
	}
	v := make([]Value, len(a))
	for i := range a {
		v[i] = intV(a[i])
	}
	return mkSlice(v)
}

func symBytes(b []SB) bool {
	for i := range b {
		if b[i].t != nil {
			return true
		}
	}
	return false
}

func (w *W) reFind(method string, r *Re, args []Value) (Value, bool) {
	n := strings.TrimPrefix(method, "Find")
	all := strings.HasPrefix(n, "All")
	n = strings.TrimPrefix(n, "All")
	str := strings.HasPrefix(n, "String")
	n = strings.TrimPrefix(n, "String")
	sub := strings.HasPrefix(n, "Submatch")
	n = strings.TrimPrefix(n, "Submatch")
	idx := n == "Index"
	if n != "" && !idx {
		return Value{}, false
	}
	var s []SB
	if str {
		s = strBytes(args[0])
	} else {
		s = sliceBytes(args[0])
	}
	get := func(a, b int) Value {
		if a < 0 {
			if str {
				return strV("")
			}
			return Value{}
		}
		if str {
			return subStr(args[0], a, b)
		}
		return mkSlice(sliceOf(args[0])[a:b:b])
	}
	one := func(m []int) Value {
		if idx {
			if sub {
				return intsV(m)
			}
			return intsV(m[:2])
		}
		if !sub {
			return get(m[0], m[1])
		}
		vs := make([]Value, len(m)/2)
		for i := range vs {
			vs[i] = get(m[2*i], m[2*i+1])
		}
		return mkSlice(vs)
	}
	if all {
		cnt := int(w.concInt(args[1], types.Typ[types.Int]))
		ms := w.all(r, s, cnt)
		if ms == nil {
			return Value{}, true
		}
		vs := make([]Value, len(ms))
		for i := range ms {
			vs[i] = one(ms[i])
		}
		return mkSlice(vs), true
	}
	m := w.exec(r, s, 0)
	if m == nil {
		if str && !idx && !sub {
			return strV(""), true
		}
		return Value{}, true
	}
	return one(m), true
}

func regexIntrinsic(name string, f *ssa.Function) intrinsic {
	switch name {
	case "regexp.Compile", "regexp.MustCompile", "regexp.CompilePOSIX", "regexp.MustCompilePOSIX":
		return func(w *W, f *Func, a []Value) Value {
			s := w.concString(a[0])
			r, err := compileRe(s, strings.HasSuffix(name, "POSIX"))
			if strings.HasPrefix(name, "regexp.Must") {
				if err != nil {
					w.rtPanic("regexp: Compile(" + s + "): " + err.Error())
				}
				return reVal(r)
			}
			if err != nil {
				return tuple(Value{}, w.newErr(strV(err.Error())))
			}
			return tuple(reVal(r), Value{})
		}
	case "regexp.QuoteMeta":
		return func(w *W, f *Func, a []Value) Value {
			var out []SB
			var m mask
			for _, c := range []byte("\\.+*?()|[]{}^$") {
				m[c>>6] |= 1 << (c & 63)
			}
			for _, b := range strBytes(a[0]) {
				if b.t != nil {
					if w.branch(w.maskTerm(b.t, &m, 128)) {
						out = append(out, SB{c: '\\'})
					}
				} else if m.has(int(b.c)) {
					out = append(out, SB{c: '\\'})
				}
				out = append(out, b)
			}
			return mkStr(out)
		}
	case "regexp.MatchString":
		return func(w *W, f *Func, a []Value) Value {
			s := w.concString(a[0])
			r, err := newRe(s)
			if err != nil {
				return tuple(Value{}, w.newErr(strV(err.Error())))
			}
			return tuple(boolV(w.exec(r, strBytes(a[1]), 0) != nil), Value{})
		}
	}
	const pfx = "(*regexp.Regexp)."
	if !strings.HasPrefix(name, pfx) {
		return nil
	}
	m := strings.TrimPrefix(name, pfx)
	mt, ok := reflect.TypeOf((*regexp.Regexp)(nil)).MethodByName(m)
	if !ok {
		return func(w *W, f *Func, a []Value) Value { unsupported("%s", name); return Value{} }
	}
	return func(w *W, f *Func, a []Value) Value {
		r := w.reOf(a[0])
		if m == "Longest" {
			if !r.longest {
				c := *r
				c.longest = true
				c.re = regexp.MustCompile(r.re.String())
				c.re.Longest()
				w.store(ptrOf(w, a[0]), Value{R: &Opaque{&c}})
			}
			return Value{}
		}
		args := append([]Value(nil), a[1:]...)
		sy := false
		for _, x := range args {
			switch y := x.R.(type) {
			case *SymStr, *Term:
				sy = true
			case *Slc:
				for _, e := range y.a {
					if _, ok := e.R.(*Term); ok {
						sy = true
					}
				}
			}
		}
		if strings.HasPrefix(m, "Find") && (sy || !strings.Contains(m, "String")) {
			if v, ok := w.reFind(m, r, args); ok {
				return v
			}
		}
		if m == "ReplaceAllStringFunc" {
			v, ok := w.reFind("FindAllStringIndex", r, []Value{args[0], intV(-1)})
			if !ok {
				unsupported("%s", name)
			}
			s := strBytes(args[0])
			var out []SB
			last := 0
			for _, l := range sliceOf(v) {
				x := sliceOf(l)
				from, to := int(x[0].N), int(x[1].N)
				out = append(append(out, s[last:from]...), strBytes(w.callFV(args[1].R.(*FuncVal), []Value{mkStr(s[from:to])}))...)
				last = to
			}
			return mkStr(append(out, s[last:]...))
		}
		if m == "MatchString" && sy {
			return boolV(w.exec(r, strBytes(args[0]), 0) != nil)
		}
		if m == "Match" {
			return boolV(w.exec(r, sliceBytes(args[0]), 0) != nil)
		}
		// everything else: make the arguments concrete and run natively
		in := []reflect.Value{reflect.ValueOf(r.re)}
		for i, x := range args {
			if _, ok := x.R.(*SymStr); ok {
				x = strV(w.concString(x))
			}
			v, ok := toNative(x, mt.Type.In(i+1))
			if !ok {
				unsupported("%s with these arguments", name)
			}
			in = append(in, v)
		}
		out := mt.Func.Call(in)
		if len(out) != 1 {
			unsupported("%s results", name)
		}
		return fromNative(out[0])
	}
}
