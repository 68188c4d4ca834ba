// Package c09: positions are where the text starts in the input.
package c09

import (
	"fmt"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

func check(lxs []parlex.Lexeme, want []ref.Tok, base int, in string) {
	sym.Detail(func() string { return fmt.Sprintf("input: %q", in) })
	if !ref.SameToks(ref.Toks(lxs), want) {
		return // C06, C07
	}
	for i, lx := range lxs {
		l, c := lx.Pos()
		wl, wc := ref.Pos(in, want[i].From)
		sym.Observe(fmt.Sprint(l, ":", c))
		sym.Detail(func() string {
			return fmt.Sprintf("lexeme %d %q is at %d:%d, reported %d:%d", i, want[i].Val, wl+base, wc, l, c)
		})
		sym.Assert(l == wl+base, "the line is that of the start of the lexeme")
		sym.Assert(c == wc, "the column is that of the start of the lexeme")
		if wl > 0 {
			sym.Cover("later line")
		}
		if want[i].Err {
			sym.Cover("error")
		}
	}
}

// HSimple: the simple lexer.
func HSimple() {
	its := []int{0, 1, 5, 9}
	it := gen.SimpleMenu[its[sym.Fork(sym.Choice("rules", len(its)))]]
	set := it.Set
	if set == gen.Ascii {
		set = "t\n ?"
	}
	in := sym.StrUpTo("in", 0, sym.Param("input_len", 5, 7), set)
	sym.Detail(func() string { return "rules:\n" + ref.Def(it.Rules) })
	l, err := simplelexer.New(ref.Def(it.Rules))
	sym.Assert(err == nil, "the definition is accepted")
	check(l.Lex(in), ref.Lex([]ref.SubLex{{Rules: it.Rules}}, false, "Error", in), 0, in)
}

// HStack: the stack lexer.
func HStack() {
	its := []int{0, 4, 5, 6}
	it := gen.StackMenu[its[sym.Fork(sym.Choice("definition", len(its)))]]
	in := sym.StrUpTo("in", 0, sym.Param("input_len", 4, 6), it.Set)
	sym.Detail(func() string { return "definition:\n" + it.Definition() })
	l, err := stacklexer.New(it.Definition())
	sym.Assert(err == nil, "the definition is accepted")
	check(l.Lex(in), ref.Lex(it.Subs, false, "Error", in), 1, in)
}

// HLines: inputs of many lines.
func HLines() {
	rs := []ref.LexRule{gen.R("w", `a\n?`), gen.R("-d", `b\n*`)}
	in := sym.Str("in", sym.Param("input_len", 6, 8), "a\n?b")
	def := ref.Def(rs)
	if sym.Bool("stack") {
		l, err := stacklexer.New("== M ==\n" + def)
		sym.Assert(err == nil, "the definition is accepted")
		check(l.Lex(in), ref.Lex([]ref.SubLex{{Name: "M", Rules: rs}}, false, "Error", in), 1, in)
		return
	}
	l, err := simplelexer.New(def)
	sym.Assert(err == nil, "the definition is accepted")
	check(l.Lex(in), ref.Lex([]ref.SubLex{{Rules: rs}}, false, "Error", in), 0, in)
}

// HChars: characters of several bytes, bytes that are no character, tabs and
// carriage returns count as the bytes they are.
func HChars() {
	chars := []string{"a", "\n", "é", "€", "\xff", "\r", "\t", "?"}
	rs := []ref.LexRule{gen.R("w", `[aé]+`), gen.R("-d", `[\r€]\n*`)}
	in := ""
	for n := sym.Fork(sym.Int("chars", 1, sym.Param("chars", 4, 5))); n > 0; n-- {
		in += chars[sym.Fork(sym.Choice("char", len(chars)))]
	}
	def := ref.Def(rs)
	if sym.Bool("stack") {
		l, err := stacklexer.New("== M ==\n" + def)
		sym.Assert(err == nil, "the definition is accepted")
		check(l.Lex(in), ref.Lex([]ref.SubLex{{Name: "M", Rules: rs}}, false, "Error", in), 1, in)
		return
	}
	l, err := simplelexer.New(def)
	sym.Assert(err == nil, "the definition is accepted")
	check(l.Lex(in), ref.Lex([]ref.SubLex{{Rules: rs}}, false, "Error", in), 0, in)
}

// HLong: a long input of many lines, with any text at some place.
func HLong() {
	rs := gen.Keywords(8)
	in := gen.LongText(sym.Param("words", 60, 120), 2, "k1 ?\n-")
	def := ref.Def(rs)
	if sym.Bool("stack") {
		l, err := stacklexer.New("== M ==\n" + def)
		sym.Assert(err == nil, "the definition is accepted")
		check(l.Lex(in), ref.Lex([]ref.SubLex{{Name: "M", Rules: rs}}, false, "Error", in), 1, in)
		return
	}
	l, err := simplelexer.New(def)
	sym.Assert(err == nil, "the definition is accepted")
	check(l.Lex(in), ref.Lex([]ref.SubLex{{Rules: rs}}, false, "Error", in), 0, in)
}

// HPushed: positions behind long lexemes of several lines in other sub-lexers.
func HPushed() {
	subs := []ref.SubLex{
		{Name: "M", Rules: []ref.LexRule{gen.P("o", `<\n*`, "N"), gen.R("w", `[a-c]+`), gen.R("-s", `[ \n]+`)}},
		{Name: "N", Rules: []ref.LexRule{gen.Q("c", `\n*>`, 1), gen.R("t", `(?:x\n?)+`), gen.P("o", "<", "N"), gen.R("-d", `#[^\n]*\n`)}},
	}
	in := "a\n\n <\n\n\nx\nxx\nx" + sym.Str("in", sym.Param("input_len", 4, 5), "<>x\n#a") + "x#aa\n\nx<\n?\n?>\n\n>a\n>b"
	sym.Detail(func() string { return "definition:\n" + gen.StackDef(subs) })
	l, err := stacklexer.New(gen.StackDef(subs))
	sym.Assert(err == nil, "the definition is accepted")
	check(l.Lex(in), ref.Lex(subs, false, "Error", in), 1, in)
}

// HHuge: positions behind very long lines and very many of them.
func HHuge() {
	rs := gen.Keywords(3)
	in := gen.HugeText(1, "k1 ?\n-")
	def := ref.Def(rs)
	if sym.Bool("stack") {
		l, err := stacklexer.New("== M ==\n" + def)
		sym.Assert(err == nil, "the definition is accepted")
		check(l.Lex(in), ref.Lex([]ref.SubLex{{Name: "M", Rules: rs}}, false, "Error", in), 1, in)
		return
	}
	l, err := simplelexer.New(def)
	sym.Assert(err == nil, "the definition is accepted")
	check(l.Lex(in), ref.Lex([]ref.SubLex{{Rules: rs}}, false, "Error", in), 0, in)
}
