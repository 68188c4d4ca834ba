// Package c19: running a pipeline reports the first failure and otherwise the
// reduced tree.
package c19

import (
	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/tree"
	rdtext "github.com/adamcolton/parlex/tree/reducer"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// bad is an error lexeme.
type bad struct{ parlex.Lexeme }

func (b *bad) Error() string { return "bad " + b.Value() }

// calls is what the components were asked, in order.
type calls []string

type lexer struct {
	log *calls
	out []parlex.Lexeme
}

func (l *lexer) Lex(s string) []parlex.Lexeme {
	*l.log = append(*l.log, "lex "+s)
	return l.out
}

type parser struct {
	log *calls
	in  []parlex.Lexeme
	out parlex.ParseNode
}

func (p *parser) Parse(l []parlex.Lexeme) parlex.ParseNode {
	*p.log = append(*p.log, "parse")
	p.in = l
	return p.out
}

type reducer struct {
	log  *calls
	name string
	in   parlex.ParseNode
	out  parlex.ParseNode
}

func (r *reducer) Reduce(n parlex.ParseNode) parlex.ParseNode {
	*r.log = append(*r.log, "reduce "+r.name)
	r.in = n
	return r.out
}
func (r *reducer) Can(n parlex.ParseNode) bool { return false }

func (c calls) is(w []string) bool {
	if len(c) != len(w) {
		return false
	}
	for i := range w {
		if c[i] != w[i] {
			return false
		}
	}
	return true
}

func leaf(s string) *tree.PN { return &tree.PN{Lexeme: lexeme.String(s)} }

// world is some behaviour of all components.
type world struct {
	log  calls
	l    *lexer
	p    *parser
	rs   []parlex.Reducer
	errs []parlex.LexError
}

func behave(lexemes, reducers int) *world {
	w := &world{}
	w.l = &lexer{log: &w.log}
	if !sym.Bool("no lexemes") {
		w.l.out = []parlex.Lexeme{}
		for n := sym.Fork(sym.Int("lexemes", 0, lexemes)); n > 0; n-- {
			lx := lexeme.String("k").Set(sym.Str("value", 1, "")).At(n, 1)
			if sym.Bool("error") {
				b := &bad{lx}
				w.errs = append(w.errs, b)
				w.l.out = append(w.l.out, b)
			} else {
				w.l.out = append(w.l.out, lx)
			}
		}
	}
	w.p = &parser{log: &w.log}
	if !sym.Bool("no tree") {
		w.p.out = leaf("p")
	}
	if reducers > 0 {
		for n := sym.Fork(sym.Int("reducers", 0, reducers)); n > 0; n-- {
			if sym.Bool("nil reducer") {
				w.rs = append(w.rs, nil)
				continue
			}
			r := &reducer{log: &w.log, name: string(rune('0' + n))}
			if !sym.Bool("no result") {
				r.out = leaf("r")
			}
			w.rs = append(w.rs, r)
		}
	}
	return w
}

// judge checks what a run with the components gave and how they were asked.
func (w *world) judge(in string, n parlex.ParseNode, err error) {
	want := []string{"lex " + in}
	defer func() {
		sym.Assert(w.log.is(want), "exactly the parts that are needed are run, in order")
		w.log = nil
	}()
	sym.Assert((n == nil) == (err != nil), "there is a tree exactly without error")
	if w.l.out == nil {
		sym.Assert(err == parlex.ErrCouldNotLex, "no lexemes could not be lexed")
		sym.Cover("could not lex")
		return
	}
	if len(w.errs) > 0 {
		sym.Assert(err == error(w.errs[0]), "the first error lexeme is the error")
		sym.Cover("error lexeme")
		return
	}
	want = append(want, "parse")
	sym.Assert(len(w.p.in) == len(w.l.out), "the lexemes are parsed")
	for i := range w.p.in {
		sym.Assert(w.p.in[i] == w.l.out[i], "the lexemes are parsed in order")
	}
	if w.p.out == nil {
		sym.Assert(err == parlex.ErrCouldNotParse, "no tree could not be parsed")
		sym.Cover("could not parse")
		return
	}
	cur := w.p.out
	for _, r := range w.rs {
		if r == nil {
			continue
		}
		r := r.(*reducer)
		want = append(want, "reduce "+r.name)
		sym.Assert(r.in == cur, "a reducer gets the tree of the one before")
		cur = r.out
		if cur == nil {
			sym.Assert(err == parlex.ErrCouldNotReduce, "no reduced tree could not be reduced")
			sym.Cover("could not reduce")
			return
		}
	}
	sym.Assert(err == nil && n == cur, "the tree is that of the last reducer")
	sym.Cover("a tree")
}

// HRun: any behaviour of the components.
func HRun() {
	w := behave(sym.Param("lexemes", 4, 5), sym.Param("reducers", 3, 4))
	in := sym.StrUpTo("input", 0, 2, "")
	n, err := parlex.Run(in, w.l, w.p, w.rs...)
	w.judge(in, n, err)
}

// HRunner: a stored runner on several inputs.
func HRunner() {
	w := behave(2, 2)
	r := parlex.New(w.l, w.p, w.rs...)
	for i := 0; i < 2; i++ {
		in := sym.StrUpTo("input", 0, 1, "")
		n, err := r.Run(in)
		w.judge(in, n, err)
	}
	// the components behave differently now
	v := behave(1, 0)
	w.l.out, w.p.out, w.errs = v.l.out, v.p.out, v.errs
	n, err := r.Run("x")
	w.judge("x", n, err)
}

// HTwo: two runners do not mix.
func HTwo() {
	v, w := behave(1, 1), behave(1, 1)
	a := parlex.New(v.l, v.p, v.rs...)
	b := parlex.New(w.l, w.p, w.rs...)
	n, err := a.Run("a")
	v.judge("a", n, err)
	n, err = b.Run("b")
	w.judge("b", n, err)
	n, err = a.Run("c")
	v.judge("c", n, err)
}

// HLexErrors: error lexemes are collected completely and in order.
func HLexErrors() {
	w := behave(sym.Param("all_lexemes", 6, 8), 0)
	errs := parlex.LexErrors(w.l.out)
	sym.Assert(len(errs) == len(w.errs), "every error lexeme is collected and nothing else")
	for i := range errs {
		sym.Assert(errs[i] == w.errs[i], "error lexemes are collected in order")
	}
	if len(errs) > 1 {
		sym.Cover("several errors")
	}
}

// HReal: the repository's own components.
func HReal() {
	var lx parlex.Lexer
	var err error
	if sym.Bool("stack lexer") {
		lx, err = stacklexer.New("== main ==\n a /a/\n b /b/\n s / / -")
	} else {
		lx, err = simplelexer.New("a /a/\n b /b/\n s / / -")
	}
	sym.Assert(err == nil, "the lexer is made")
	g, err := grammar.New("L -> a M\nM -> b M\n->")
	sym.Assert(err == nil, "the grammar is made")
	var p parlex.Parser
	if sym.Bool("packrat") {
		p = packrat.New(g)
	} else {
		p, err = topdown.New(g)
		sym.Assert(err == nil, "the parser is made")
	}
	r := parlex.New(lx, p, tree.Reducer{"M": tree.PromoteChildrenOf(-1)}, nil, tree.Reducer{"L": tree.PromoteChildrenOf(-1)})
	in := sym.StrUpTo("input", 0, sym.Param("input", 5, 6), "")
	for i := 0; i < len(in); i++ {
		sym.Assume(in[i] < 128)
	}
	sym.Detail(func() string { return "input: " + in })
	n, err := r.Run(in)
	// what it should be
	kinds := ""
	lexErr := -1
	end := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case 'a', 'b':
			kinds += string([]byte{in[i]})
		case ' ':
		default:
			if lexErr < 0 {
				lexErr = i
				for end = i; end < len(in) && in[end] != 'a' && in[end] != 'b' && in[end] != ' '; end++ {
				}
			}
		}
	}
	if lexErr >= 0 {
		sym.Cover("error lexeme")
		le, ok := err.(parlex.LexError)
		sym.Assert(ok && le != nil && n == nil, "a lex error is the error")
		sym.Assert(le.Value() == in[lexErr:end], "the first lex error is the error")
		return
	}
	ok := len(kinds) > 0 && kinds[0] == 'a'
	for i := 1; ok && i < len(kinds); i++ {
		ok = kinds[i] == 'b'
	}
	if !ok {
		sym.Cover("could not parse")
		sym.Assert(err == parlex.ErrCouldNotParse && n == nil, "what is not in the language could not be parsed")
		return
	}
	sym.Cover("a tree")
	sym.Assert(err == nil && n != nil, "there is a tree")
	sym.Assert(n.Kind().String() == "L" && n.Children() == len(kinds), "the tree is reduced")
	for i := 0; i < len(kinds); i++ {
		c := n.Child(i)
		sym.Assert(c.Kind().String() == kinds[i:i+1] && c.Value() == kinds[i:i+1] && c.Children() == 0, "the tree has the lexemes in order")
	}
	sym.Assert(ref.Links(n, true) == "", "the parents are right")
}

// HMust: the helpers that take constructors give what they get.
func HMust() {
	l := &lexer{}
	p := &parser{}
	g := grammar.Empty()
	sym.Assert(parlex.MustLexer(l, nil) == parlex.Lexer(l) && parlex.MustParser(p, nil) == parlex.Parser(p) && parlex.MustGrammar(g, nil) == parlex.Grammar(g), "without error the value is returned")
	sl := stacklexer.Must("== M ==\n  a")
	sym.Assert(len(sl.Lex("aa")) == 2, "without error the lexer is returned")
	rd := rdtext.Must("a RemoveChild(0)")
	sym.Assert(len(rd) == 1, "without error the reducer is returned")
	rg, _ := regexgram.Must("S -> a*")
	sym.Assert(len(rg.NonTerminals()) == 2, "without error the grammar is returned")
	k := sym.Fork(sym.Choice("which", 6))
	panicked := func() (r bool) {
		defer func() { r = recover() != nil }()
		switch k {
		case 0:
			parlex.MustLexer(l, parlex.ErrCouldNotLex)
		case 1:
			parlex.MustParser(p, parlex.ErrBadGrammar)
		case 2:
			parlex.MustGrammar(g, parlex.ErrBadGrammar)
		case 3:
			stacklexer.Must("== M ==\n  M")
		case 4:
			rdtext.Must("a RemoveChild(")
		case 5:
			regexgram.Must("S -> (a")
		}
		return
	}()
	sym.Assert(panicked, "an error is a panic")
}

// HBig: many lexemes and many reducers; any one of them is bad.
func HBig() {
	w := &world{}
	w.l = &lexer{log: &w.log, out: []parlex.Lexeme{}}
	w.p = &parser{log: &w.log, out: leaf("p")}
	n := sym.Param("many", 90, 150)
	b, c := sym.Int("bad", 0, 2*n), sym.Int("also", 0, 2*n)
	for i := 0; i < n; i++ {
		var lx parlex.Lexeme = lexeme.String("k").Set("v").At(i, 1)
		if i == b || i == c || i > b && c == 2*n {
			e := &bad{lx}
			w.errs = append(w.errs, e)
			lx = e
		}
		w.l.out = append(w.l.out, lx)
	}
	k := 1
	if sym.Bool("no lexemes") {
		w.l.out, w.errs = nil, nil
	} else if sym.Bool("no tree") {
		w.p.out = nil
	} else if len(w.errs) == 0 {
		k = sym.Param("reducers", 12, 20)
	}
	none := sym.Int("no result", 0, 2*k)
	for i := 0; i < k; i++ {
		r := &reducer{log: &w.log, name: string(rune('0' + i))}
		if i != none {
			r.out = leaf("r")
		}
		w.rs = append(w.rs, r)
	}
	r := parlex.New(w.l, w.p, w.rs...)
	for i := 0; i < 3; i++ {
		x, err := r.Run("in")
		w.judge("in", x, err)
	}
	errs := parlex.LexErrors(w.l.out)
	sym.Assert(len(errs) == len(w.errs), "every error lexeme is collected and nothing else")
}
