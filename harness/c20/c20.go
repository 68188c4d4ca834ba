// Package c20: lexers, parsers and reducers keep no state between uses.
package c20

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// lx is a lexeme as it was when it was handed out.
type lx struct {
	id         parlex.Lexeme
	kind, val  string
	line, col  int
	err        bool
	msg        string
	withErrMsg bool
}

func snap(l []parlex.Lexeme) []lx {
	var out []lx
	for _, x := range l {
		y := lx{id: x, kind: x.Kind().String(), val: x.Value()}
		y.line, y.col = x.Pos()
		_, y.err = x.(parlex.LexError)
		out = append(out, y)
	}
	return out
}

func same(a, b []lx) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].kind != b[i].kind || a[i].line != b[i].line || a[i].col != b[i].col || a[i].err != b[i].err || a[i].val != b[i].val {
			return false
		}
	}
	return true
}

func unchanged(now []parlex.Lexeme, was []lx) bool {
	n := snap(now)
	if !same(n, was) {
		return false
	}
	for i := range n {
		if n[i].id != was[i].id {
			return false
		}
	}
	return true
}

func toks(l []lx) []ref.Tok {
	var out []ref.Tok
	for _, x := range l {
		out = append(out, ref.Tok{Kind: x.kind, Val: x.val, Err: x.err})
	}
	return out
}

// lexers gives one lexer several inputs; each result is compared with that of
// a new one, and with what it should be.
func lexers(mk func() parlex.Lexer, want func(in string) []ref.Tok, ins []string) {
	var alone [][]lx
	for _, in := range ins {
		alone = append(alone, snap(mk().Lex(in)))
	}
	l := mk()
	var outs [][]parlex.Lexeme
	for i, in := range ins {
		out := l.Lex(in)
		s := snap(out)
		sym.Assert(same(s, alone[i]), "each input gives what it gives alone")
		sym.Assert(ref.SameToks(toks(s), want(in)), "each input gives what it should")
		outs = append(outs, out)
	}
	for i := range outs {
		sym.Assert(same(snap(outs[i]), alone[i]), "lexemes are not changed by later calls")
	}
}

// inputs are some inputs; all are short but any.
func inputs(n, max int, set string) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, sym.StrUpTo("in"+strconv.Itoa(i), 0, max, set))
	}
	sym.Detail(func() string { return "inputs: " + strings.Join(l, " / ") })
	return l
}

// HSimple: one simple lexer on several inputs.
func HSimple() {
	k := sym.Fork(sym.Choice("rules", len(gen.SimpleMenu)))
	it := gen.SimpleMenu[k]
	prio := sym.Bool("by_priority")
	mk := func() parlex.Lexer {
		l, err := simplelexer.New(ref.Def(it.Rules))
		sym.Assert(err == nil, "the definition is accepted")
		if prio {
			l.ByPriority()
		}
		return l
	}
	sym.Detail(func() string { return "rules:\n" + ref.Def(it.Rules) })
	set := it.Set
	if len(set) > 100 {
		set = "test x?\n"
	}
	lexers(mk, func(in string) []ref.Tok { return ref.Lex([]ref.SubLex{{Rules: it.Rules}}, prio, "Error", in) }, inputs(2, sym.Param("simple_len", 2, 3), set))
}

// HStack: one stack lexer on several inputs; the first may end anywhere.
func HStack() {
	it := gen.StackMenu[sym.Fork(sym.Choice("definition", len(gen.StackMenu)))]
	mk := func() parlex.Lexer {
		l, err := stacklexer.New(it.Definition())
		sym.Assert(err == nil, "the definition is accepted")
		return l
	}
	sym.Detail(func() string { return "definition:\n" + it.Definition() })
	lexers(mk, func(in string) []ref.Tok { return ref.Lex(it.Subs, false, "Error", in) }, inputs(2, sym.Param("stack_len", 2, 3), it.Set))
}

// HAdd: rules added between inputs.
func HAdd() {
	it := gen.SimpleMenu[sym.Fork(sym.Choice("rules", len(gen.SimpleMenu)))]
	set := it.Set
	if len(set) > 100 {
		set = "tes x?"
	}
	in := inputs(3, sym.Param("add_len", 1, 2), set)
	n := sym.Fork(sym.Choice("at first", 2)) + 1
	l, err := simplelexer.New(ref.Def(it.Rules[:n]))
	sym.Assert(err == nil, "the definition is accepted")
	lex := func(k int, in string) []parlex.Lexeme {
		out := l.Lex(in)
		want := ref.Lex([]ref.SubLex{{Rules: it.Rules[:k]}}, false, "Error", in)
		sym.Assert(ref.SameToks(ref.Toks(out), want), "the lexer has exactly the rules added so far")
		return out
	}
	add := func(r ref.LexRule) {
		sym.Assert(l.Add(stringsymbol.Symbol(r.Kind), regexp.MustCompile(r.Pat), r.Discard) == nil, "the rule is accepted")
	}
	a := lex(n, in[0])
	sa := snap(a)
	add(it.Rules[n])
	b := lex(n+1, in[1])
	sb := snap(b)
	if n+1 < len(it.Rules) {
		n++
		add(it.Rules[n])
	}
	lex(n+1, in[2])
	sym.Assert(unchanged(a, sa) && unchanged(b, sb), "lexemes are not changed by later rules and calls")
	// a rule for a kind that is there is rejected and changes nothing
	err = l.Add(stringsymbol.Symbol(it.Rules[0].Kind), regexp.MustCompile("."), false)
	sym.Assert(err != nil, "a second rule for a kind is an error")
	lex(n+1, in[0])
}

// HErrorKind: the kind of errors may itself be the kind of a rule, also of one
// added later.
func HErrorKind() {
	l, err := simplelexer.New("a /a/")
	sym.Assert(err == nil, "the definition is accepted")
	if sym.Bool("other name") {
		l.Error = "b"
	}
	rs := []ref.LexRule{gen.R("a", "a")}
	in := inputs(2, 2, "abc")
	prio := sym.Bool("by_priority")
	if prio {
		l.ByPriority()
	}
	lex := func(in string) {
		sym.Assert(ref.SameToks(ref.Toks(l.Lex(in)), ref.Lex([]ref.SubLex{{Rules: rs}}, prio, l.Error, in)), "the lexer has exactly the rules added so far")
	}
	lex(in[0])
	ks := []string{"b", "Error"}
	if sym.Bool("Error first") {
		ks = []string{"Error", "b"}
	}
	pats := []string{"b", "bb?|cc"}
	if sym.Bool("long first") {
		pats = []string{"bb?|cc", "b"}
	}
	n := sym.Fork(sym.Int("added", 1, 2))
	for i := 0; i < n; i++ {
		sym.Assert(l.Add(stringsymbol.Symbol(ks[i]), regexp.MustCompile(pats[i]), false) == nil, "the rule is accepted")
		rs = append(rs, gen.R(ks[i], pats[i]))
		lex(in[1])
	}
	lex(in[0])
}

func tree1(p parlex.ParseNode) *ref.Node {
	if p == nil {
		return nil
	}
	return ref.View(p)
}

func sameTree(a, b *ref.Node) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.SameAt(b)
}

// parsers gives one parser several inputs.
func parsers(mk func() parlex.Parser, g ref.G, ins [][]string) {
	sym.Detail(func() string {
		s := "grammar:\n" + g.String()
		for _, in := range ins {
			s += "\nkinds: " + strings.Join(in, " ")
		}
		return s
	})
	c := g.Compile()
	var alone []*ref.Node
	for _, in := range ins {
		alone = append(alone, tree1(mk().Parse(ref.Lexemes(in))))
	}
	p := mk()
	var outs []parlex.ParseNode
	var given [][]parlex.Lexeme
	var was [][]lx
	for i, in := range ins {
		l := ref.Lexemes(in)
		given, was = append(given, l), append(was, snap(l))
		n := p.Parse(l)
		sym.Assert(sameTree(tree1(n), alone[i]), "each input gives what it gives alone")
		if n != nil {
			_, bad := c.Derivation(ref.View(n), l)
			sym.Assert(bad == "", "each tree is a derivation of its input")
			sym.Cover("a tree")
		} else {
			sym.Cover("no tree")
		}
		outs = append(outs, n)
	}
	for i := range ins {
		sym.Assert(sameTree(tree1(outs[i]), alone[i]), "trees are not changed by later calls")
		sym.Assert(outs[i] == nil || ref.Links(outs[i], true) == "", "parents are not changed by later calls")
		sym.Assert(unchanged(given[i], was[i]), "the lexemes are not changed")
	}
}

func kinds(n int, set string) []string { return gen.Kinds(0, n, set) }

// HPackrat: one packrat parser on several inputs.
func HPackrat() {
	k := sym.Fork(sym.Choice("grammar", len(gen.Menu)))
	it := gen.Menu[k]
	g := ref.Parse(it.Text)
	gr := g.Build()
	n := sym.Param("packrat_len", 3, 4)
	if len(it.Set) > 3 {
		n--
	}
	ins := [][]string{kinds(n, it.Set), kinds(n, it.Set)}
	parsers(func() parlex.Parser { return packrat.New(gr) }, g, ins)
	sym.Assert(sameGrammar(gr, g), "the grammar is not changed")
}

// HUnknown: kinds the grammar does not know come first; any bytes.
func HUnknown() {
	g := ref.Parse("S -> a S\n-> b\n-> T\nT -> c S\n->")
	gr := g.Build()
	any := func(n int) []string {
		l := make([]string, n)
		for i := range l {
			l[i] = sym.Str("kind", 1, "")
		}
		return l
	}
	ins := [][]string{any(2), any(2)}
	td := sym.Bool("topdown")
	parsers(func() parlex.Parser {
		if td {
			p, err := topdown.New(gr)
			sym.Assert(err == nil, "the parser is made")
			return p
		}
		return packrat.New(gr)
	}, g, ins)
	sym.Assert(sameGrammar(gr, g), "the grammar is not changed")
}

// HJoined: inputs whose kinds or values look the same when joined.
func HJoined() {
	g := ref.Parse("S -> a bc\n-> ab c S\n-> a b\n-> c")
	gr := g.Build()
	in := func() []parlex.Lexeme {
		var l []parlex.Lexeme
		for n := sym.Fork(sym.Int("lexemes", 1, 2)); n > 0; n-- {
			k := []string{"a", "b", "c", "ab", "bc"}[sym.Fork(sym.Choice("kind", 5))]
			l = append(l, lexeme.New(stringsymbol.Symbol(k)).Set(sym.Str("value", 1, "")).At(sym.Int("line", 0, 1000), sym.Int("column", 0, 1000)))
		}
		return l
	}
	a, b := in(), in()
	td := sym.Bool("topdown")
	mk := func() parlex.Parser {
		if td {
			p, err := topdown.New(gr)
			sym.Assert(err == nil, "the parser is made")
			return p
		}
		return packrat.New(gr)
	}
	wa, wb := tree1(mk().Parse(a)), tree1(mk().Parse(b))
	p := mk()
	x := p.Parse(a)
	sym.Assert(sameTree(tree1(x), wa), "each input gives what it gives alone")
	sym.Assert(sameTree(tree1(p.Parse(b)), wb), "each input gives what it gives alone")
	sym.Assert(sameTree(tree1(x), wa), "trees are not changed by later calls")
	if wa != nil && wb != nil {
		sym.Cover("two trees")
	}
}

func sameGrammar(gr *grammar.Grammar, g ref.G) bool {
	nts := g.NTs()
	got := gr.NonTerminals()
	if len(got) != len(nts) {
		return false
	}
	for i, nt := range nts {
		if got[i].String() != nt {
			return false
		}
		ps := gr.Productions(got[i])
		k := 0
		for _, r := range g {
			if r.L != nt {
				continue
			}
			if k >= ps.Productions() || ps.Production(k).Symbols() != len(r.R) {
				return false
			}
			for j, s := range r.R {
				if ps.Production(k).Symbol(j).String() != s {
					return false
				}
			}
			k++
		}
		if k != ps.Productions() {
			return false
		}
	}
	return true
}

var tdMenu = []gen.Item{
	{"S -> a S b\n-> c\n->", "abc", 3, 4},
	{"V -> [ L ]\n-> n\nL -> V M\n->\nM -> , V M\n->", "[],n", 3, 3},
	{"S -> A B\n-> A\nA -> x x\n-> x\nB -> y\n-> x y", "xy", 4, 4},
}

// HTopdown: one top-down parser on several inputs.
func HTopdown() {
	it := tdMenu[sym.Fork(sym.Choice("grammar", len(tdMenu)))]
	g := ref.Parse(it.Text)
	gr := g.Build()
	n := sym.Param("topdown_len", 3, 4)
	ins := [][]string{kinds(it.Quick, it.Set), kinds(n, it.Set)}
	parsers(func() parlex.Parser {
		p, err := topdown.New(gr)
		sym.Assert(err == nil, "the parser is made")
		return p
	}, g, ins)
	sym.Assert(sameGrammar(gr, g), "the grammar is not changed")
}

// HShared: two parsers of one grammar and two grammars do not mix.
func HShared() {
	g1 := ref.Parse("S -> a S\n-> b")
	g2 := ref.Parse("S -> b S\n-> S a\n-> a\nT -> b")
	b1, b2 := g1.Build(), g2.Build()
	p1, q1, p2 := packrat.New(b1), packrat.New(b1), packrat.New(b2)
	k1, k2 := kinds(sym.Param("shared_len", 3, 4), "abST"), kinds(2, "abT")
	first := tree1(packrat.New(b1).Parse(ref.Lexemes(k1)))
	second := tree1(packrat.New(b2).Parse(ref.Lexemes(k2)))
	x := p1.Parse(ref.Lexemes(k1))
	y := p2.Parse(ref.Lexemes(k2))
	z := q1.Parse(ref.Lexemes(k1))
	sym.Assert(sameTree(tree1(x), first) && sameTree(tree1(z), first) && sameTree(tree1(y), second), "each parser gives what it gives alone")
	sym.Assert(sameGrammar(b1, g1) && sameGrammar(b2, g2), "the grammars are not changed")
}

// HReducer: one reducer on several trees.
func HReducer() {
	r := tree.Merge(tree.Reducer{
		"a": tree.PromoteChildrenOf(0),
		"b": tree.RemoveChild(-1).PromoteChildValue(0),
	}, tree.Reducer{"a": tree.PromoteSingleChild, "c": tree.RemoveAll("a")})
	mk := func() *tree.PN {
		t := &gen.T{Kind: func() string { return sym.Str("kind", 1, "abc") }}
		if sym.Bool("deep") {
			return t.Node(t.Node(t.Leaf(), t.Leaf()))
		}
		return t.Node(t.Leaf())
	}
	ns := []*tree.PN{mk(), mk()}
	var befores, outs []*ref.Node
	var res []parlex.ParseNode
	for _, n := range ns {
		before := ref.View(n)
		out := r.Reduce(n)
		want := ref.View(n)
		want.Reduce([]string{"a", "b", "c"}, [][]ref.Step{
			{{Op: "PromoteChildrenOf", I: []int{0}}, {Op: "PromoteSingleChild"}},
			{{Op: "RemoveChild", I: []int{-1}}, {Op: "PromoteChildValue", I: []int{0}}},
			{{Op: "RemoveAll", S: []string{"a"}}}})
		sym.Assert(sameTree(tree1(out), want), "each tree is reduced as if alone")
		befores, outs, res = append(befores, before), append(outs, want), append(res, out)
	}
	again := r.Reduce(ns[0])
	sym.Assert(sameTree(tree1(again), outs[0]), "the same tree gives the same result again")
	for i, n := range ns {
		sym.Assert(ref.View(n).SameAt(befores[i]) && ref.View(res[i]).SameAt(outs[i]), "trees are not changed by later calls")
	}
}

// HTexts: the readers of grammar, tree and reducer texts work alike every time.
func HTexts() {
	grams := []string{"S -> a*", "S -> (a b)* a?\nT -> a|b", "S -> (a", "S -> a S*", "", "S -> (a|b)*"}
	rds := []string{"a RemoveChild(0)", "a PromoteChild(", "b RemoveAll(\"x\")", "", "a Nil b If(ChildIs(0,\"x\"),RemoveChild(0),Nil)"}
	i, j := sym.Fork(sym.Choice("first", len(grams))), sym.Fork(sym.Choice("second", len(grams)))
	gram := func(k int) string {
		g, r, err := regexgram.New(grams[k])
		if err != nil {
			return "error"
		}
		s := g.String()
		for _, nt := range g.NonTerminals() {
			if _, ok := r[nt.String()]; ok {
				s += "\nrule " + nt.String()
			}
		}
		return s
	}
	a, b := gram(i), gram(j)
	sym.Assert(gram(i) == a && gram(j) == b, "a grammar text means the same every time")
	m, n := sym.Fork(sym.Choice("first reducer", len(rds))), sym.Fork(sym.Choice("second reducer", len(rds)))
	red := func(k int) (bool, *ref.Node) {
		t := &gen.T{Kind: gen.Fixed}
		x, y := t.Leaf(), t.Leaf()
		t.Kind = func() string { return "a" }
		p := t.Node(x, y)
		t.Kind = func() string { return "b" }
		q := t.Node(p)
		r, err := reducer.Parse(rds[k])
		if err != nil {
			return false, nil
		}
		return true, ref.View(r.Reduce(q))
	}
	ok1, t1 := red(m)
	ok2, t2 := red(n)
	ok3, t3 := red(m)
	ok4, t4 := red(n)
	sym.Assert(ok1 == ok3 && ok2 == ok4 && sameTree(t1, t3) && sameTree(t2, t4), "a reducer text means the same every time")
	sym.Assert(ok1 == (m != 1) && ok2 == (n != 1), "exactly the malformed text is an error")
}

// HRunner: a runner of real parts on several inputs.
func HRunner() {
	l, err := simplelexer.New("a /a/\n b /b/\n s / / -")
	sym.Assert(err == nil, "the lexer is made")
	g, err := grammar.New("L -> L b\n-> a")
	sym.Assert(err == nil, "the grammar is made")
	mk := func() *parlex.Runner {
		return parlex.New(l, packrat.New(g), tree.Reducer{"L": tree.PromoteChildValue(-1)})
	}
	ins := inputs(2, sym.Param("runner_len", 3, 4), "ab ?")
	ins = append(ins, ins[0])
	r := mk()
	var outs []parlex.ParseNode
	var was []*ref.Node
	for _, in := range ins {
		n, err := r.Run(in)
		m, werr := mk().Run(in)
		sym.Assert(sameTree(tree1(n), tree1(m)), "each input gives what it gives alone")
		sym.Assert((err == nil) == (werr == nil), "each input fails as it fails alone")
		if err != nil {
			sym.Assert(err.Error() == werr.Error(), "each input fails as it fails alone")
			sym.Cover("failed")
		}
		outs, was = append(outs, n), append(was, tree1(n))
	}
	for i := range outs {
		sym.Assert(sameTree(tree1(outs[i]), was[i]), "trees are not changed by later calls")
	}
}

// HLongUse: one lexer or parser is used many times, with long and short inputs
// in turn, and then with any short one.
func HLongUse() {
	var texts []string
	for i := 0; i < sym.Param("uses", 7, 12); i++ {
		texts = append(texts, strings.Repeat("ab (b", (i*5)%7)+strings.Repeat(")", i%3))
	}
	last := sym.StrUpTo("last", 0, sym.Param("last_len", 2, 3), "ab()?")
	texts = append(texts, last, texts[1])
	switch sym.Fork(sym.Choice("what", 4)) {
	case 0:
		rs := []ref.LexRule{gen.R("a", "a+"), gen.R("b", "b"), gen.R("(", `\(`), gen.R("-s", " ")}
		lexers(func() parlex.Lexer {
			l, err := simplelexer.New(ref.Def(rs))
			sym.Assert(err == nil, "the definition is accepted")
			return l
		}, func(in string) []ref.Tok { return ref.Lex([]ref.SubLex{{Rules: rs}}, false, "Error", in) }, texts)
	case 1:
		subs := []ref.SubLex{{Name: "main", Rules: []ref.LexRule{gen.R("a", "a"), gen.R("-s", " "), gen.P("(", `\(`, "in"), gen.R("b", "b")}},
			{Name: "in", Rules: []ref.LexRule{gen.Q(")", `\)`, 1), gen.R("bb", "b+"), gen.P("n", `\(`, "in")}}}
		def := gen.StackDef(subs)
		lexers(func() parlex.Lexer {
			l, err := stacklexer.New(def)
			sym.Assert(err == nil, "the definition is accepted")
			return l
		}, func(in string) []ref.Tok { return ref.Lex(subs, false, "Error", in) }, texts)
	default:
		g := ref.Parse("S -> E E E\n-> E E\n-> E\nE -> a E\n-> b E\n-> ( E )\n-> ( E E\n->")
		td := sym.Bool("topdown")
		gr := g.Build()
		var ins [][]string
		for _, t := range texts {
			ins = append(ins, strings.Split(strings.ReplaceAll(t, " ", ""), ""))
			if len(ins[len(ins)-1]) > 9 {
				ins[len(ins)-1] = ins[len(ins)-1][:9]
			}
		}
		parsers(func() parlex.Parser {
			if td {
				p, err := topdown.New(gr)
				sym.Assert(err == nil, "the parser is made")
				return p
			}
			return packrat.New(gr)
		}, g, ins)
	}
}
