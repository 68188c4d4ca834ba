// Package c25: uses at the same time do not disturb each other.
package c25

import (
	"strconv"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/examples/parlexmath"
	"github.com/adamcolton/parlex/examples/scalc"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// result is what a use gives: texts and a tree.
type result struct {
	s []string
	n *ref.Node
}

func (a result) same(b result) bool {
	if len(a.s) != len(b.s) || (a.n == nil) != (b.n == nil) {
		return false
	}
	for i := range a.s {
		if a.s[i] != b.s[i] {
			return false
		}
	}
	return a.n == nil || a.n.SameAt(b.n)
}

func lexemes(l []parlex.Lexeme) (r result) {
	for _, x := range l {
		p, q := x.Pos()
		e := "lexeme"
		if _, is := x.(parlex.LexError); is {
			e = "error"
		}
		r.s = append(r.s, x.Kind().String(), x.Value(), strconv.Itoa(p), strconv.Itoa(q), e)
	}
	return r
}

func node(n parlex.ParseNode) (r result) {
	if n == nil {
		return r
	}
	if p, ok := n.(*tree.PN); ok && p == nil {
		return r
	}
	r.n = ref.View(n)
	return r
}

func text(s ...string) result { return result{s: s} }

func yes(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

// both has two uses of what share gives go on at the same time, and compares
// each with the use of another one, alone.
func both(share func() any, a, b func(any) func() result) {
	x := share()
	var fa, fb func() result
	sym.Together(func() { fa = a(x) }, func() { fb = b(x) })
	ra, rb := fa(), fb()
	sym.Assert(ra.same(a(share())()), "the first gives what it gives alone")
	sym.Assert(rb.same(b(share())()), "the second gives what it gives alone")
	sym.Assert(a(x)().same(ra) && b(x)().same(rb), "both give the same again afterwards")
}

// HSimple: one simple lexer.
func HSimple() {
	it := gen.SimpleMenu[sym.Fork(sym.Choice("rules", len(gen.SimpleMenu)))]
	set := it.Set
	if len(set) > 100 {
		set = "test x?\n"
	}
	n := sym.Param("simple_len", 2, 3)
	prio, ends := sym.Bool("by_priority"), sym.Bool("ends")
	use := func(k int) func(any) func() result {
		in := sym.StrUpTo("in"+strconv.Itoa(k), 0, n-k, set)
		return func(l any) func() result {
			out := l.(*simplelexer.Lexer).Lex(in)
			return func() result { return lexemes(out) }
		}
	}
	share := func() any {
		l, err := simplelexer.New(ref.Def(it.Rules))
		sym.Assert(err == nil, "the definition is accepted")
		if prio {
			l.ByPriority()
		}
		if ends {
			l.InsertStart("START", "s").InsertEnd("END", "e")
			l.Error = "Oops"
		}
		return l
	}
	a := use(0)
	b := func(l any) func() result { return func() result { return text(l.(*simplelexer.Lexer).String()) } }
	if !sym.Bool("print") {
		b = use(1)
	}
	both(share, a, b)
}

// HStack: one stack lexer.
func HStack() {
	it := gen.StackMenu[sym.Fork(sym.Choice("definition", len(gen.StackMenu)))]
	n := sym.Param("stack_len", 2, 3)
	prio, ends := sym.Bool("by_priority"), sym.Bool("ends")
	use := func(k int) func(any) func() result {
		in := sym.StrUpTo("in"+strconv.Itoa(k), 0, n-k, it.Set)
		return func(l any) func() result {
			out := l.(*stacklexer.StackLexer).Lex(in)
			return func() result { return lexemes(out) }
		}
	}
	both(func() any {
		l, err := stacklexer.New(it.Definition())
		sym.Assert(err == nil, "the definition is accepted")
		if prio {
			l.ByPriority()
		}
		if ends {
			l.InsertStart("START", "s").InsertEnd("END", "e")
			l.Error = "Oops"
		}
		return l
	}, use(0), use(1))
}

// shared is a grammar and the parsers of it.
type shared struct {
	g  *grammar.Grammar
	p  *packrat.Packrat
	t  *topdown.Topdown
	a  *analyze.Analytics
	in []parlex.Lexeme
}

// HParsers: one grammar, its parsers, its analysis and its lexemes.
func HParsers() {
	k := sym.Fork(sym.Choice("grammar", len(gen.Menu)))
	it := gen.Menu[k]
	g := ref.Parse(it.Text)
	n := sym.Param("input_len", 2, 3)
	if len(it.Set) > 3 {
		n--
	}
	kinds := gen.Kinds(0, n, it.Set+"S")
	left := g.Compile().LeftRec()
	share := func() any {
		s := &shared{g: g.Build(), in: ref.Lexemes(kinds)}
		s.p = packrat.New(s.g)
		if !left {
			t, err := topdown.New(s.g)
			sym.Assert(err == nil, "the parser is made")
			s.t = t
		}
		s.a = analyze.Analyze(s.g)
		return s
	}
	use := func(name string, n int) func(any) func() result {
		switch sym.Fork(sym.Choice(name, n)) {
		case 0:
			return func(x any) func() result {
				s := x.(*shared)
				t := s.p.Parse(s.in)
				return func() result { return node(t) }
			}
		case 1:
			l := ref.Lexemes(gen.Kinds(0, 2, it.Set))
			return func(x any) func() result {
				t := x.(*shared).p.Parse(l)
				return func() result { return node(t) }
			}
		case 2:
			sym.Assume(!left)
			return func(x any) func() result {
				s := x.(*shared)
				t := s.t.Parse(s.in)
				return func() result { return node(t) }
			}
		case 3:
			return func(x any) func() result {
				s := x.(*shared)
				r := text(s.g.String(), yes(parlex.IsLeftRecursive(s.g)), parlex.LexemeList(s.in), parlex.LexemeString(s.in...), strconv.Itoa(len(parlex.LexErrors(s.in))))
				for _, l := range s.in {
					r.s = append(r.s, l.(*lexeme.Lexeme).String(), lexeme.Copy(l).String())
				}
				return func() result { return r }
			}
		case 4:
			at := sym.Byte("symbol", it.Set+"SAT?")
			return func(x any) func() result {
				s := x.(*shared)
				b := stringsymbol.Symbol(string([]byte{at}))
				var l []string
				for _, nt := range s.a.NonTerminals() {
					l = append(l, yes(s.a.HasFirst(nt, b)), yes(s.a.HasNilInFirst(nt)))
				}
				l = append(l, yes(s.a.NonTerminal(b)), yes(s.a.Contains(b)), yes(s.g.Productions(b) == nil))
				return func() result { return text(l...) }
			}
		}
		return func(x any) func() result {
			s := x.(*shared)
			a := analyze.Analyze(s.g)
			var l []string
			for _, nt := range s.g.NonTerminals() {
				l = append(l, nt.String(), yes(a.HasNilInFirst(nt)), yes(a.HasFirst(nt, nt)))
				for i := s.g.Productions(nt).Iter(); i.Next(); {
					for j := i.Iter(); j.Next(); {
						l = append(l, j.String())
					}
				}
			}
			return func() result { return text(l...) }
		}
	}
	both(share, use("first", 6), use("second", 6))
}

// HTrees: one tree and one reducer.
func HTrees() {
	deep := sym.Bool("deep")
	kinds := 0
	t := &gen.T{Kind: func() string {
		kinds++
		if kinds > 3 {
			return "b"
		}
		return sym.Str("kind", 1, "abc")
	}, Val: func() string { return "v" + strconv.Itoa(kinds) }}
	var n *tree.PN
	if deep {
		n = t.Node(t.Node(t.Leaf(), t.Leaf()), t.Leaf())
	} else {
		n = t.Node(t.Leaf())
	}
	var r tree.Reducer
	switch sym.Fork(sym.Choice("reducer", 4)) {
	case 0:
		r = tree.Merge(tree.Reducer{
			"a": tree.PromoteChildrenOf(0),
			"b": tree.RemoveChildren(1, -1, 0, 9).PromoteChildValue(0),
		}, tree.Reducer{"a": tree.PromoteSingleChild, "c": tree.RemoveAll("x", "c", "a").If(tree.ChildIs(-1, "b"), tree.ReplaceWithChild(0), tree.PromoteGrandChildren)})
	case 1:
		r = tree.Reducer{"a": tree.RemoveChild(0).PromoteChild(-1), "b": tree.PromoteChild(0), "c": tree.If(tree.ChildIs(0, "a"), tree.RemoveChildren(-1, 0), nil)}
	case 2:
		var err error
		r, err = reducer.Parse("a RemoveChildren(-1,0).PromoteSingleChild()\nb If(ChildIs(0,\"a\"),PromoteChild(0),RemoveAll(\"c\",\"a\"))\nc PromoteChildrenOf(-1).RemoveChild(1)")
		sym.Assert(err == nil, "the reducer is read")
	default:
		var err error
		_, r, err = regexgram.New("a -> b* a* c?\nb -> (a|b)*\nc -> c*")
		sym.Assert(err == nil, "the grammar is read")
		t.Kind = func() string { return []string{"a*", "b", "a", "c*"}[sym.Fork(sym.Choice("kind", 4))] }
		n.Child(0).(*tree.PN).Lexeme = ref.Lexemes([]string{t.Kind()})[0]
	}
	use := func(name string) func(any) func() result {
		switch sym.Fork(sym.Choice(name, 4)) {
		case 0:
			return func(x any) func() result {
				o := r.Reduce(x.(*tree.PN))
				return func() result { return node(o) }
			}
		case 1:
			return func(x any) func() result {
				o := x.(*tree.PN).String()
				return func() result { return text(o) }
			}
		case 2:
			return func(x any) func() result {
				o := tree.Clone(x.(*tree.PN))
				return func() result { return node(o) }
			}
		}
		return func(x any) func() result {
			p := x.(*tree.PN)
			m := tree.Merge(r, r)
			l := []string{yes(r.Can(p)), yes(m.Can(p)), strconv.Itoa(p.Size()), yes(p.ChildIs(0, "a")), yes(p.ChildAt(-1, "b")), parlex.LexemeString(p, p.Child(0))}
			return func() result { return text(l...) }
		}
	}
	both(func() any { return n }, use("first"), use("second"))
}

// HSets: reading one symbol set and its productions.
func HSets() {
	w := []string{sym.Str("symbol", 1, ""), sym.Str("symbol", 1, "")}
	share := func() any {
		s := setsymbol.New()
		return s.Productions(s.Production(s.Str(w[0]), s.Str("x")), s.Production(s.Str(w[1])), s.Production())
	}
	use := func(name string) func(any) func() result {
		q := sym.Str("asked", 1, "")
		how := sym.Fork(sym.Choice(name, 2))
		return func(x any) func() result {
			ps := x.(*setsymbol.Productions)
			var l []string
			if how == 0 {
				l = append(l, ps.String())
			}
			for i := ps.Iter(); i.Next(); {
				for j := i.Iter(); j.Next(); {
					l = append(l, j.String(), strconv.Itoa(j.Symbol.(*setsymbol.Symbol).Idx()), yes(j.String() == q))
				}
			}
			o := setsymbol.New()
			c := o.CastProductions(ps)
			l = append(l, c.String(), strconv.Itoa(o.Size()), yes(o.Has(q)))
			return func() result { return text(l...) }
		}
	}
	both(share, use("first"), use("second"))
}

// HTexts: the functions that read texts.
func HTexts() {
	use := func(name string) func(any) func() result {
		c := sym.Str(name+" byte", 1, "ab*?)\"{}|/>- \n")
		switch sym.Fork(sym.Choice(name, 6)) {
		case 0:
			return func(any) func() result {
				g, err := grammar.New("S -> a" + c + "\n-> b S\nT -> c")
				if err != nil {
					return func() result { return text(err.Error()) }
				}
				return func() result { return text(g.String()) }
			}
		case 1:
			return func(any) func() result {
				g, r, err := regexgram.New("S -> (a b)* " + c + " a?\nT -> S|b")
				if err != nil {
					return func() result { return text("error") }
				}
				return func() result { return text(g.String(), strconv.Itoa(len(r))) }
			}
		case 2:
			return func(any) func() result {
				r, err := reducer.Parse("a RemoveChild(0).PromoteSingleChild()\nb If(ChildIs(0,\"" + c + "\"),Nil,RemoveAll(\"x\"))")
				return func() result { return text(strconv.Itoa(len(r)), yes(err == nil)) }
			}
		case 3:
			return func(any) func() result {
				n, err := tree.New("a {\n b: \"x\\n\"\n c" + c + "\n}")
				if err != nil {
					return func() result { return text("error") }
				}
				return func() result { return node(n) }
			}
		case 4:
			return func(any) func() result {
				l, err := simplelexer.New("a /x" + c + "/\nb\nsp /\\s+/ -")
				if err != nil {
					return func() result { return text(err.Error()) }
				}
				return func() result { return lexemes(l.Lex("xb a" + c)) }
			}
		}
		return func(any) func() result {
			l, err := stacklexer.New("== M ==\n a /x" + c + "/ N\n b\n== N ==\n c /c/ ^\n O\n== O ==\n d /d/ -")
			if err != nil {
				return func() result { return text(err.Error()) }
			}
			return func() result { return lexemes(l.Lex("xbcd" + c)) }
		}
	}
	both(func() any { return nil }, use("first"), use("second"))
}

// HRunner: one runner of real parts.
func HRunner() {
	share := func() any {
		l, err := simplelexer.New("a /a/\n b /b/\n s / / -")
		sym.Assert(err == nil, "the lexer is made")
		g, err := grammar.New("L -> L b\n-> a")
		sym.Assert(err == nil, "the grammar is made")
		return parlex.New(l, packrat.New(g), tree.Reducer{"L": tree.PromoteChildValue(-1)})
	}
	use := func(name string) func(any) func() result {
		in := sym.StrUpTo(name, 0, sym.Param("runner_len", 3, 4), "ab ?")
		return func(x any) func() result {
			n, err := x.(*parlex.Runner).Run(in)
			if err != nil {
				return func() result { return text(err.Error()) }
			}
			return func() result { return node(n) }
		}
	}
	both(share, use("first"), use("second"))
}

// HExamples: the examples' functions.
func HExamples() {
	use := func(name string) func(any) func() result {
		switch sym.Fork(sym.Choice(name, 3)) {
		case 0:
			in := `{"k":[` + sym.StrUpTo(name+" json", 1, 2, "[]{}1,") + `],"l":{"m":1}}`
			return func(any) func() result {
				s, err := parlexjson.Format(in)
				return func() result { return text(s, yes(err == nil)) }
			}
		case 1:
			in := "1+" + sym.StrUpTo(name+" infix", 1, 2, "2*-()")
			return func(any) func() result {
				f, err := parlexmath.Eval(in)
				return func() result { return text(strconv.FormatFloat(f, 'g', -1, 64), yes(err == nil)) }
			}
		}
		in := "1 2.5 " + []string{"+", "-", "sum", "* 3", "swap"}[sym.Fork(sym.Choice(name+" postfix", 5))]
		return func(any) func() result {
			var l []string
			for _, v := range scalc.Eval(in) {
				l = append(l, v.String())
			}
			return func() result { return text(l...) }
		}
	}
	both(func() any { return nil }, use("first"), use("second"))
}
