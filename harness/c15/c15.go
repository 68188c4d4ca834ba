// Package c15: regex grammars mean what their operators say.
package c15

import (
	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
	"strconv"
)

// re is a regular expression over symbols: s symbol, ? optional, * repeated,
// | alternatives, ( group.
type re struct {
	op byte
	s  string
	c  []*re
}

func (r *re) String() string {
	switch r.op {
	case 's':
		return r.s
	case '|':
		t := r.c[0].String()
		for _, c := range r.c[1:] {
			t += sep + "|" + sep + c.String()
		}
		return t
	case '(':
		return "(" + sep + seq(r.c) + sep + ")"
	}
	return r.c[0].String() + string(r.op)
}

// sep is put where white space is optional.
var sep = ""

func seq(l []*re) string {
	t := ""
	for i, r := range l {
		if i > 0 {
			t += " "
		}
		t += r.String()
	}
	return t
}

// str is a string of symbols; set a set of them.
type str []string
type set []str

func (s set) has(x str) bool {
next:
	for _, y := range s {
		if len(x) != len(y) {
			continue
		}
		for i := range x {
			if x[i] != y[i] {
				continue next
			}
		}
		return true
	}
	return false
}

func (s set) add(x str) set {
	if s.has(x) {
		return s
	}
	return append(s, x)
}

func (s set) sub(t set) bool {
	for _, x := range s {
		if !t.has(x) {
			return false
		}
	}
	return true
}

func union(a, b set) set {
	for _, x := range b {
		a = a.add(x)
	}
	return a
}

func concat(a, b set, n int) set {
	var out set
	for _, x := range a {
		for _, y := range b {
			if len(x)+len(y) <= n {
				z := make(str, 0, len(x)+len(y))
				out = out.add(append(append(z, x...), y...))
			}
		}
	}
	return out
}

// lang is the set of strings of at most n symbols of a sequence.
func lang(l []*re, n int) set {
	s := set{nil}
	for _, r := range l {
		s = concat(s, r.lang(n), n)
	}
	return s
}

func (r *re) lang(n int) set {
	switch r.op {
	case 's':
		if n < 1 {
			return nil
		}
		return set{{r.s}}
	case '?':
		return union(set{nil}, r.c[0].lang(n))
	case '*':
		s := set{nil}
		one := r.c[0].lang(n)
		for {
			k := len(s)
			s = union(s, concat(s, one, n))
			if len(s) == k {
				return s
			}
		}
	case '|':
		var s set
		for _, c := range r.c {
			s = union(s, c.lang(n))
		}
		return s
	}
	return lang(r.c, n)
}

// rule is a non-terminal with its productions.
type rule struct {
	nt string
	ps [][]*re
}

// derived is the set of strings of at most n listed or undefined symbols that
// the symbol's productions give, expanding helper symbols only.
func derived(g *grammar.Grammar, listed []string, n int) map[string]set {
	var c ref.G
	for _, nt := range g.NonTerminals() {
		ps := g.Productions(nt)
		for i := 0; i < ps.Productions(); i++ {
			p := ps.Production(i)
			r := ref.Rule{L: nt.String()}
			for j := 0; j < p.Symbols(); j++ {
				r.R = append(r.R, p.Symbol(j).String())
			}
			c = append(c, r)
		}
	}
	nts := c.NTs()
	sets := make([]set, len(nts))
	for changed := true; changed; {
		changed = false
		for _, r := range c {
			s := set{nil}
			for _, x := range r.R {
				k := ref.Index(nts, x)
				if k < 0 || ref.Index(listed, x) >= 0 {
					s = concat(s, set{{x}}, n)
				} else {
					s = concat(s, sets[k], n)
				}
			}
			k := ref.Index(nts, r.L)
			was := len(sets[k])
			sets[k] = union(sets[k], s)
			changed = changed || len(sets[k]) > was
		}
	}
	out := map[string]set{}
	for i, nt := range nts {
		out[nt] = sets[i]
	}
	return out
}

func text(rs []rule) string {
	t := ""
	for _, r := range rs {
		for i, p := range r.ps {
			t += "\n  "
			if i == 0 {
				t += r.nt
			}
			t += " -> " + seq(p)
		}
	}
	return t
}

// build makes the grammar and compares its language with that of the rules.
func build(rs []rule, n int) (*grammar.Grammar, tree.Reducer) {
	txt := text(rs)
	sym.Detail(func() string { return "grammar text:" + txt })
	g, r, err := regexgram.New(txt)
	sym.Assert(err == nil && g != nil && r != nil, "the text is accepted")
	sym.Detail(func() string { return "grammar:\n" + g.String() })
	var listed []string
	for _, r := range rs {
		if ref.Index(listed, r.nt) < 0 {
			listed = append(listed, r.nt)
		}
	}
	nts := g.NonTerminals()
	sym.Assert(len(nts) >= len(listed), "every listed symbol is a non-terminal")
	for i, nt := range listed {
		sym.Assert(nts[i].String() == nt, "the non-terminals are listed in order")
	}
	d := derived(g, listed, n)
	for _, nt := range listed {
		var want set
		for _, r := range rs {
			if r.nt == nt {
				for _, p := range r.ps {
					want = union(want, lang(p, n))
				}
			}
		}
		sym.Assert(want.sub(d[nt]), "every string of the expression is derived")
		sym.Assert(d[nt].sub(want), "only strings of the expression are derived")
	}
	return g, r
}

// letter is any symbol name of one byte.
func letter() string {
	return sym.Str("symbol", 1, "abS_"[:sym.Param("symbols", 2, 4)])
}

func s(x string) *re { return &re{op: 's', s: x} }

// elem is any element whose groups nest at most d deep; or says if it may be
// alternatives.
func elem(d int, or bool, name func() string) *re {
	n := 3
	if d > 0 {
		n = 6
		if or {
			n = 7
		}
	}
	group := func() *re {
		g := &re{op: '('}
		for k := sym.Fork(sym.Int("group.len", 0, 2)); k > 0; k-- {
			g.c = append(g.c, elem(d-1, true, name))
		}
		return g
	}
	switch sym.Fork(sym.Choice("element", n)) {
	case 0:
		return s(name())
	case 1:
		return &re{op: '?', c: []*re{s(name())}}
	case 2:
		return &re{op: '*', c: []*re{s(name())}}
	case 3:
		return group()
	case 4:
		return &re{op: '?', c: []*re{group()}}
	case 5:
		return &re{op: '*', c: []*re{group()}}
	}
	return &re{op: '|', c: []*re{elem(d-1, false, name), elem(d-1, false, name)}}
}

func names(l ...string) func() string {
	i := 0
	return func() string { i++; return l[(i-1)%len(l)] }
}

// HElems: two elements one after the other, groups not nested.
func HElems() {
	nm := names("a", "b", "c", "d", "e", "f")
	build([]rule{{"S", [][]*re{{elem(1, true, nm), elem(1, true, nm)}}}}, 3)
}

// HNest: groups in groups.
func HNest() {
	nm := names("a", "b", "c", "d", "e", "f")
	g := &re{op: '(', c: []*re{elem(1, true, nm)}}
	if sym.Bool("more") {
		g.c = append(g.c, s("z"))
	}
	e := g
	switch sym.Fork(sym.Choice("outer", 4)) {
	case 1:
		e = &re{op: '?', c: []*re{g}}
	case 2:
		e = &re{op: '*', c: []*re{g}}
	case 3:
		e = &re{op: '|', c: []*re{g, s("y")}}
	}
	build([]rule{{"S", [][]*re{{s("x"), e}}}}, sym.Param("nest_n", 3, 4))
}

// HSame: the same and similar elements several times, in one or in two
// non-terminals, over names that look alike.
func HSame() {
	ns := []string{"a", "b", "a_b"}
	nm := func() string { return ns[sym.Fork(sym.Choice("name", len(ns)))] }
	group := func() *re {
		g := &re{op: '(', c: []*re{s(nm())}}
		if sym.Bool("two") {
			g.c = append(g.c, s(nm()))
		}
		return &re{op: '*', c: []*re{g}}
	}
	x, y := group(), group()
	if sym.Bool("apart") {
		build([]rule{{"S", [][]*re{{x, s("U")}}}, {"U", [][]*re{{y}}}}, 2)
	} else {
		build([]rule{{"S", [][]*re{{x}, {y}}}}, 2)
	}
}

// HAlike: alternatives and groups whose names are alike.
func HAlike() {
	l := []*re{
		{op: '|', c: []*re{s("a_b"), s("c")}},
		{op: '|', c: []*re{s("a"), s("b_c")}},
		{op: '|', c: []*re{s("a"), s("b"), s("c")}},
		{op: '(', c: []*re{s("a"), {op: '|', c: []*re{s("b"), s("c")}}}},
		{op: '(', c: []*re{{op: '|', c: []*re{s("a"), s("b")}}, s("c")}},
		{op: '(', c: []*re{s("a"), {op: '(', c: []*re{s("b"), s("c")}}}},
		{op: '(', c: []*re{s("a_"), s("b")}},
		{op: '(', c: []*re{s("a"), s("_b")}},
		{op: '(', c: []*re{s("a__b")}},
		{op: '?', c: []*re{s("a")}},
		{op: '*', c: []*re{s("a")}},
		s("a_b_c"),
		s("ab"),
		{op: '|', c: []*re{s("a"), s("b")}},
		{op: '|', c: []*re{s("b"), s("a")}},
		{op: '(', c: []*re{s("a"), s("b")}},
		{op: '(', c: []*re{{op: '?', c: []*re{s("a")}}, s("b")}},
		{op: '(', c: []*re{s("a"), {op: '*', c: []*re{s("b")}}}},
		{op: '?', c: []*re{{op: '(', c: []*re{s("a"), s("b")}}}},
	}
	rep := func(n string) *re {
		return &re{op: '*', c: []*re{{op: '(', c: []*re{l[sym.Fork(sym.Choice(n, len(l)))]}}}}
	}
	x, y := rep("x"), rep("y")
	build([]rule{{"S", [][]*re{{x, s("U")}}}, {"U", [][]*re{{y}}}}, 3)
}

// HProds: several productions, continued or named again, with any symbols.
func HProds() {
	one := func() []*re {
		var l []*re
		for k := sym.Fork(sym.Int("len", 0, 2)); k > 0; k-- {
			l = append(l, elem(0, false, letter))
		}
		return l
	}
	rs := []rule{{"S", [][]*re{one()}}}
	if sym.Bool("continued") {
		rs[0].ps = append(rs[0].ps, one())
	} else {
		rs = append(rs, rule{sym.Str("nt", 1, "Sb"), [][]*re{one()}})
	}
	build(rs, 3)
}

// HSpace: white space and comments do not matter.
func HSpace() {
	sep = []string{"", " ", "\t "}[sym.Fork(sym.Choice("sep", 3))]
	rs := []rule{{"S", [][]*re{{s("a"), {op: '|', c: []*re{{op: '?', c: []*re{s("b")}}, {op: '*', c: []*re{{op: '(', c: []*re{s("a"), s("U")}}}}}}}}},
		{"U", [][]*re{{s("c")}}}}
	txt := text(rs)
	sep = ""
	pre := []string{"", "\n", "\n // comment -> (\n", " "}
	post := []string{"", "\n", "\n//x\n", "  ", "\r\n \n"}
	t := pre[sym.Fork(sym.Choice("pre", len(pre)))] + txt[1:] + post[sym.Fork(sym.Choice("post", len(post)))]
	between := []string{"\n  // between", "\n\t// -> (", "\n\n  //", "\n//a\n \t//b", "\n\n \n", "\r\n//"}
	if sym.Bool("comment") {
		mid := ""
		for i := 1; i < len(t)-5; i++ {
			if t[i] == '\n' && t[i+3] == 'U' {
				mid = t[:i] + between[sym.Fork(sym.Choice("between", len(between)))] + t[i:]
			}
		}
		sym.Assume(mid != "")
		t = mid
	}
	sym.Detail(func() string { return "text: " + t })
	g, _, err := regexgram.New(t)
	sym.Assert(err == nil, "the text is accepted")
	want, _, err := regexgram.New(text(rs))
	sym.Assert(err == nil, "the plain text is accepted")
	sym.Assert(g.String() == want.String(), "white space and comments do not matter")
}

// whole checks a reduced tree: each node of a listed kind has as children a
// string of its expression, all others are the lexemes of the input in order.
func whole(n *ref.Node, rs []rule, lxs []parlex.Lexeme) []parlex.Lexeme {
	var ps [][]*re
	known := false
	for _, r := range rs {
		if r.nt == n.Kind {
			ps = append(ps, r.ps...)
			known = true
		}
	}
	if !known {
		sym.Assert(len(lxs) > 0 && len(n.C) == 0, "all nodes without definition are lexemes of the input")
		l, c := lxs[0].Pos()
		sym.Assert(n.Kind == lxs[0].Kind().String() && n.Value == lxs[0].Value() && n.Line == l && n.Col == c, "the lexemes are in input order")
		return lxs[1:]
	}
	var kinds str
	for _, c := range n.C {
		kinds = append(kinds, c.Kind)
	}
	ok := false
	for _, p := range ps {
		ok = ok || lang(p, len(kinds)).has(kinds)
	}
	sym.Assert(ok, "the children of a node are a string of its expression")
	for _, c := range n.C {
		lxs = whole(c, rs, lxs)
	}
	return lxs
}

func parse(rs []rule, g *grammar.Grammar, r tree.Reducer, kinds []string) {
	lxs := ref.Lexemes(kinds)
	sym.Detail(func() string { return "input: " + ref.Join(kinds) })
	p := packrat.New(g).Parse(lxs)
	if p == nil {
		sym.Cover("rejected")
		return
	}
	red := r.Reduce(p)
	sym.Assert(red != nil, "the tree is reduced")
	v := ref.View(red)
	sym.Detail(func() string { return "reduced: " + v.String() })
	sym.Assert(v.Kind == rs[0].nt, "the root is the start symbol")
	rest := whole(v, rs, lxs)
	sym.Assert(len(rest) == 0, "all lexemes are in the tree")
	sym.Assert(ref.Links(red, true) == "", "the parents are right")
	if len(kinds) > 1 {
		sym.Cover("reduced")
	}
}

func input(n int, alph string) []string {
	k := sym.Fork(sym.Int("input.len", 0, n))
	kinds := make([]string, k)
	for i := range kinds {
		kinds[i] = sym.Str("input", 1, alph)
	}
	return kinds
}

// HReduce: the reducer, for one expression over terminals.
func HReduce() {
	nm := names("a", "b", "c")
	rs := []rule{{"S", [][]*re{{elem(1, true, nm)}}}}
	g, r := build(rs, 0)
	parse(rs, g, r, input(sym.Param("reduce_in", 2, 3), "ab"))
}

// HReduceMenu: the reducer, for grammars with several non-terminals and nested
// repetitions.
func HReduceMenu() {
	a, b, c := s("a"), s("b"), s("c")
	rep := func(x ...*re) *re {
		if len(x) == 1 && x[0].op == 's' {
			return &re{op: '*', c: x}
		}
		return &re{op: '*', c: []*re{{op: '(', c: x}}}
	}
	opt := func(x *re) *re { return &re{op: '?', c: []*re{x}} }
	menu := [][]rule{
		{{"S", [][]*re{{s("V"), rep(b, s("V"))}}}, {"V", [][]*re{{a}, {c}}}},
		{{"S", [][]*re{{rep(rep(a), b)}}}},
		{{"S", [][]*re{{rep(a), rep(b), rep(a)}}}},
		{{"S", [][]*re{{rep(s("V"))}}}, {"V", [][]*re{{a, rep(b)}}}},
		{{"S", [][]*re{{rep(a, rep(b, rep(a)))}}}},
		{{"S", [][]*re{{opt(s("V")), rep(a)}}}, {"V", [][]*re{{rep(b), c}}}},
		{{"S", [][]*re{{rep(rep(a, opt(b)))}}}},
		{{"S", [][]*re{{rep(&re{op: '|', c: []*re{a, rep(b)}})}}}},
		{{"S", [][]*re{{rep(a), s("V")}}}, {"V", [][]*re{{b, rep(a)}, {c}}}},
		{{"S", [][]*re{{opt(s("V")), rep(a, rep(b))}}}, {"V", [][]*re{{c, rep(b)}}}},
		{{"S", [][]*re{{s("V"), s("V")}, {c, rep(s("V"), s("V"))}}}, {"V", [][]*re{{a, rep(a)}, {b}, {rep(b)}}}},
	}
	i := sym.Fork(sym.Choice("grammar", len(menu)))
	rs := menu[i]
	g, r := build(rs, 2)
	parse(rs, g, r, input(sym.Param("menu_in", 3, 5), "abc"))
}

// HText: any short text after a rule's arrow: an error or a grammar, and never
// a panic.
func HText() {
	t := sym.StrUpTo("text", 0, sym.Param("text_len", 3, 4), "")
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] < 128)
	}
	sym.Detail(func() string { return "text: S -> " + t })
	g, r, err := regexgram.New("S -> " + t)
	if err != nil {
		sym.Assert(g == nil && r == nil, "nothing with an error")
		sym.Cover("error")
		return
	}
	sym.Assert(g != nil && r != nil, "a grammar and a reducer without error")
	nts := g.NonTerminals()
	sym.Assert(len(nts) > 0 && nts[0].String() == "S", "the start symbol is the first")
	sym.Cover("grammar")
}

// HMalformed: tokens in any order.
func HMalformed() {
	toks := []string{"a", "(", ")", "?", "*", "|", "->", "\n"}
	t := ""
	for k := sym.Fork(sym.Int("tokens", 0, sym.Param("tokens", 3, 4))); k > 0; k-- {
		t += toks[sym.Fork(sym.Choice("token", len(toks)))] + " "
	}
	sym.Detail(func() string { return "text: S -> " + t })
	_, _, err := regexgram.New("S -> " + t)
	ok := valid(t)
	sym.Assert((err == nil) == ok, "exactly well-formed text is accepted")
	if ok {
		sym.Cover("well-formed")
	} else {
		sym.Cover("malformed")
	}
}

// valid decides if what follows an arrow is well-formed.
func valid(t string) bool {
	i := 0
	next := func() byte {
		for i < len(t) && t[i] == ' ' {
			i++
		}
		if i == len(t) {
			return 0
		}
		return t[i]
	}
	var symbols func() bool
	// atom: symbol or group, optional or repeated
	atom := func() bool {
		switch next() {
		case 'a':
			i++
		case '(':
			i++
			if !symbols() || next() != ')' {
				return false
			}
			i++
		default:
			return false
		}
		if c := next(); c == '?' || c == '*' {
			i++
		}
		return true
	}
	symbols = func() bool {
		for {
			c := next()
			if c != 'a' && c != '(' {
				return true
			}
			if !atom() {
				return false
			}
			for next() == '|' {
				i++
				if !atom() {
					return false
				}
			}
		}
	}
	for {
		if !symbols() {
			return false
		}
		if next() == 0 {
			return true
		}
		if t[i] != '\n' {
			return false
		}
		// newlines at the end; else a rule
		for next() == '\n' {
			i++
		}
		if next() == 0 {
			return true
		}
		if t[i] == 'a' {
			i++
		}
		if next() != '-' {
			return false
		}
		i += 2
	}
}

// HDeep: groups in groups in groups, each optional, repeated, an alternative
// or as it is.
func HDeep() {
	nm := names("a", "b", "c", "d", "e", "f", "g")
	e := s(nm())
	for d := sym.Param("levels", 4, 5); d > 0; d-- {
		g := &re{op: '(', c: []*re{s(nm()), e}}
		switch sym.Fork(sym.Choice("level", 4)) {
		case 0:
			e = g
		case 1:
			e = &re{op: '?', c: []*re{g}}
		case 2:
			e = &re{op: '*', c: []*re{g}}
		case 3:
			e = &re{op: '|', c: []*re{g, s("z")}}
			if d > 1 {
				e = &re{op: '(', c: []*re{e}}
			}
		}
	}
	build([]rule{{"S", [][]*re{{e}}}}, sym.Param("deep_n", 3, 4))
}

// HWide: many non-terminals with many elements; any element is of any form.
func HWide() {
	var rs []rule
	n := sym.Param("wide", 6, 9)
	at := sym.Fork(sym.Int("at", 0, 3*n-1))
	nm := names("a", "longer_name", "b", "x1", "c", "d", "e")
	k := 0
	for i := 0; i < n; i++ {
		var p []*re
		for j := 0; j < 3; j++ {
			var e *re
			switch {
			case k == at:
				e = elem(1, true, nm)
			case k%4 == 1:
				e = &re{op: '*', c: []*re{{op: '(', c: []*re{s(nm()), s(nm())}}}}
			case k%4 == 2:
				e = &re{op: '?', c: []*re{s(nm())}}
			case k%4 == 3:
				e = &re{op: '|', c: []*re{s(nm()), s(nm()), s(nm())}}
			default:
				e = s(nm())
			}
			k++
			p = append(p, e)
		}
		rs = append(rs, rule{"N" + string(rune('A'+i)), [][]*re{p}})
	}
	build(rs, 2)
}

// HReduceLong: the reducer, for long inputs.
func HReduceLong() {
	lit := func(l ...string) []*re {
		var out []*re
		for _, x := range l {
			out = append(out, s(x))
		}
		return out
	}
	rep := func(x ...*re) *re { return &re{op: '*', c: []*re{{op: '(', c: x}}} }
	rs := []rule{
		{"Value", [][]*re{lit("List"), lit("num"), {s("str"), {op: '?', c: lit("suffix")}}}},
		{"List", [][]*re{{s("open"), {op: '?', c: []*re{{op: '(', c: []*re{s("Value"), rep(s("comma"), s("Value"), &re{op: '*', c: lit("blank")})}}}}, s("close")}}},
	}
	g, r := build(rs, 0)
	it := gen.Long{In: "open num comma str suffix blank blank comma open num comma num blank comma num comma open close comma num close comma num close", Also: "blank close"}
	_, in := it.Changed()
	parse(rs, g, r, in)
}

// ends is where matches of r that begin at the given places end; there are no
// non-terminals in r.
func (r *re) ends(in []string, from map[int]bool) map[int]bool {
	out := map[int]bool{}
	switch r.op {
	case 's':
		for i := range in {
			if from[i] && in[i] == r.s {
				out[i+1] = true
			}
		}
		return out
	case '(':
		for _, c := range r.c {
			from = c.ends(in, from)
		}
		return from
	case '|':
		for _, c := range r.c {
			for i := range c.ends(in, from) {
				out[i] = true
			}
		}
		return out
	}
	for i := range from {
		out[i] = true
	}
	for n := 0; n < len(out); {
		n = len(out)
		for i := range r.c[0].ends(in, out) {
			out[i] = true
		}
		if r.op == '?' {
			break
		}
	}
	return out
}

// HLarge: long names, which differ at one place, and groups and alternatives of
// many elements, repeated.
func HLarge() {
	n := sym.Param("elements", 14, 30)
	long := func(i, at int) string {
		s := ""
		for j := 0; j < 40; j++ {
			if j == at {
				s += string(rune('p' + i))
			} else {
				s += "n"
			}
		}
		return s
	}
	at := []int{0, 11, 25, 39}[sym.Fork(sym.Choice("differ_at", 4))]
	var all []*re
	for i := 0; i < n; i++ {
		all = append(all, s("e"+strconv.Itoa(i)))
	}
	group, alt := &re{op: '(', c: all}, &re{op: '|', c: all}
	var rs []rule
	switch sym.Fork(sym.Choice("form", 3)) {
	case 0:
		x, y := s(long(0, at)), s(long(1, at))
		rs = []rule{{"S", [][]*re{{{op: '*', c: []*re{x}}, {op: '*', c: []*re{y}}, {op: '*', c: []*re{{op: '(', c: []*re{x, y}}}}}}}}
	case 1:
		rs = []rule{{"S", [][]*re{{{op: '*', c: []*re{group}}}}}}
	default:
		rs = []rule{{"S", [][]*re{{{op: '*', c: []*re{{op: '(', c: []*re{alt}}}}}}}}
	}
	g, r := build(rs, 0)
	var in []string
	switch {
	case len(rs[0].ps[0]) == 3:
		in = []string{long(0, at), long(0, at), long(1, at), long(0, at), long(1, at)}
	default:
		for i := 0; i < 2*n; i++ {
			in = append(in, "e"+strconv.Itoa(i%n))
		}
	}
	judge := func(in []string) {
		p := packrat.New(g).Parse(ref.Lexemes(in))
		ends := map[int]bool{0: true}
		for _, e := range rs[0].ps[0] {
			ends = e.ends(in, ends)
		}
		sym.Assert((p != nil) == ends[len(in)], "the input is accepted if it matches")
		if p == nil {
			return
		}
		v := ref.View(r.Reduce(p))
		sym.Assert(v.Kind == "S" && len(v.C) == len(in), "the reduced tree has the input's lexemes")
		for i, c := range v.C {
			sym.Assert(c.Kind == in[i] && len(c.C) == 0, "the children are the lexemes in order")
		}
	}
	judge(in)
	k := sym.Fork(sym.Int("left_out", 0, len(in)-1))
	judge(append(append([]string{}, in[:k]...), in[k+1:]...))
}
