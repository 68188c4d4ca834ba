// Package c06: the simple lexer splits any input losslessly by its rules.
package c06

import (
	"regexp"

	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

func check(l *simplelexer.Lexer, rs []ref.LexRule, prio bool, ins int, in string) {
	sym.Detail(func() string { return "rules:\n" + ref.Def(rs) + "input: " + in })
	errKind := "Error"
	if prio {
		l.ByPriority()
	}
	if ins == 3 {
		// changed after it was made, and there and back again
		errKind = "Wrong"
		l.Error = errKind
		if prio {
			l.ByLength()
			l.ByPriority()
		} else {
			l.ByPriority()
			l.ByLength()
		}
	}
	want := ref.Lex([]ref.SubLex{{Rules: rs}}, prio, errKind, in)
	if ins&1 != 0 {
		l.InsertStart("START", "s")
		want = append([]ref.Tok{{Kind: "START", Val: "s"}}, want...)
	}
	if ins&2 != 0 {
		l.InsertEnd("END", "")
		want = append(want, ref.Tok{Kind: "END"})
	}
	got := ref.Toks(l.Lex(in))
	sym.Observe(ref.TokString(got))
	sym.Detail(func() string { return "got:  " + ref.TokString(got) + "\nwant: " + ref.TokString(want) })
	sym.Assert(ref.SameToks(got, want), "the lexemes are those of the longest (or first) matches")
	for _, t := range want {
		if t.Err {
			sym.Cover("error")
		}
	}
	if prio {
		sym.Cover("by priority")
	}
	if len(want) > 2 {
		sym.Cover("several lexemes")
	}
}

// HMenu: fixed rule sets, every input.
func HMenu() {
	i := sym.Fork(sym.Choice("rules", len(gen.SimpleMenu)))
	it := gen.SimpleMenu[i]
	prio := sym.Bool("by_priority")
	in := sym.StrUpTo("in", 0, sym.Param("input_len_of_rules_"+string(rune('A'+i)), it.Quick, it.Thor), it.Set)
	l, err := simplelexer.New(ref.Def(it.Rules))
	sym.Assert(err == nil, "the definition is accepted")
	check(l, it.Rules, prio, 0, in)
}

// HFree: freely combined rules.
func HFree() {
	rs := gen.FreeRules(sym.Param("rules", 2, 3))
	prio := sym.Bool("by_priority")
	in := sym.Str("in", sym.Param("input_len", 4, 4), "abc?")
	l, err := simplelexer.New(ref.Def(rs))
	sym.Assert(err == nil, "the definition is accepted")
	check(l, rs, prio, 0, in)
}

// HAdd: rules given by Add, in an order that differs from the names, inserted
// lexemes.
func HAdd() {
	it := gen.SimpleMenu[sym.Fork(sym.Choice("rules", len(gen.SimpleMenu)))]
	prio := sym.Bool("by_priority")
	ins := sym.Fork(sym.Choice("insert", 4))
	in := sym.StrUpTo("in", 0, sym.Param("input_len", 3, 4), it.Set)
	n := sym.Fork(sym.Int("by_add", 1, 2))
	l, err := simplelexer.New(ref.Def(it.Rules[:len(it.Rules)-n]))
	sym.Assert(err == nil, "the definition is accepted")
	for _, r := range it.Rules[len(it.Rules)-n:] {
		err := l.Add(stringsymbol.Symbol(r.Kind), regexp.MustCompile(r.Pat), r.Discard)
		sym.Assert(err == nil, "the rule is accepted")
	}
	check(l, it.Rules, prio, ins, in)
}

// HPrinted: the printed lexer reads back as one that does the same.
func HPrinted() {
	it := gen.SimpleMenu[sym.Fork(sym.Choice("rules", len(gen.SimpleMenu)))]
	prio := sym.Bool("by_priority")
	in := sym.StrUpTo("in", 0, sym.Param("input_len", 3, 4), it.Set)
	l, err := simplelexer.New(ref.Def(it.Rules))
	sym.Assert(err == nil, "the definition is accepted")
	if sym.Bool("used") {
		l.Lex("?a") // an error before must not show
	}
	l2, err := simplelexer.New(l.String())
	sym.Assert(err == nil, "the printed definition is accepted")
	check(l2, it.Rules, prio, 0, in)
}

// HBytes: inputs of several kinds of bytes, with rules for characters of several bytes.
func HBytes() {
	rs := [][]ref.LexRule{
		{gen.R("e", "é+"), gen.R("-a", "[a-z]")},
		{gen.R("n", "[^a]"), gen.R("a", "aé?")},
		{gen.R("w", `\w+`), gen.R("dot", "a.")},
	}[sym.Fork(sym.Choice("rules", 3))]
	in := sym.StrUpTo("in", 0, sym.Param("bytes", 5, 6), "a\xc3\xa9\xff?")
	l, err := simplelexer.New(ref.Def(rs))
	sym.Assert(err == nil, "the definition is accepted")
	check(l, rs, sym.Bool("by_priority"), 0, in)
}

// HLong: many rules and a long input, with any text at some place.
func HLong() {
	rs := gen.Keywords(sym.Param("rules", 70, 140))
	l, err := simplelexer.New(ref.Def(rs))
	sym.Assert(err == nil, "the definition is accepted")
	check(l, rs, sym.Bool("by_priority"), 0, gen.LongText(sym.Param("words", 20, 40), 3, "k1 ?\n-"))
}

// HHuge: very long lexemes, lines, errors and inputs, with any text behind them.
func HHuge() {
	rs := gen.Keywords(3)
	l, err := simplelexer.New(ref.Def(rs))
	sym.Assert(err == nil, "the definition is accepted")
	check(l, rs, sym.Bool("by_priority"), 0, gen.HugeText(2, "k1 ?\n-"))
}
