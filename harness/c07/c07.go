// Package c07: the stack lexer follows push, pop and priority rules.
package c07

import (
	"strconv"

	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

func check(def string, subs []ref.SubLex, prio bool, ins int, in string) {
	sym.Detail(func() string { return "definition:\n" + def + "\ninput: " + in })
	l, err := stacklexer.New(def)
	sym.Assert(err == nil, "the definition is accepted")
	if prio {
		l.ByPriority()
	}
	errKind := "Error"
	if ins == 3 {
		// changed after it was made, and there and back again
		errKind = "Wrong"
		l.Error = errKind
		if prio {
			l.ByLength().ByPriority()
		} else {
			l.ByPriority().ByLength()
		}
	}
	want := ref.Lex(subs, prio, errKind, in)
	if ins&1 != 0 {
		l.InsertStart("START", "s")
		want = append([]ref.Tok{{Kind: "START", Val: "s"}}, want...)
	}
	if ins&2 != 0 {
		l.InsertEnd("END", "")
		want = append(want, ref.Tok{Kind: "END"})
	}
	got := ref.Toks(l.Lex(in))
	sym.Observe(ref.TokString(got))
	sym.Detail(func() string { return "got:  " + ref.TokString(got) + "\nwant: " + ref.TokString(want) })
	sym.Assert(ref.SameToks(got, want), "the lexemes are those of the definition")
	for _, t := range want {
		if t.Err {
			sym.Cover("error")
		}
	}
	if len(want) > 2 {
		sym.Cover("several lexemes")
	}
}

// HMenu: fixed definitions, every input.
func HMenu() {
	i := sym.Fork(sym.Choice("definition", len(gen.StackMenu)))
	it := gen.StackMenu[i]
	prio := sym.Bool("by_priority")
	in := sym.StrUpTo("in", 0, sym.Param("input_len_of_definition_"+string(rune('A'+i)), it.Quick, it.Thor), it.Set)
	check(it.Definition(), it.Subs, prio, 0, in)
}

// HAscii: any ASCII input.
func HAscii() {
	it := gen.StackMenu[sym.Fork(sym.Choice("definition", len(gen.StackMenu)))]
	in := sym.StrUpTo("in", 0, sym.Param("input_len", 3, 4), gen.Ascii)
	check(it.Definition(), it.Subs, sym.Bool("by_priority"), sym.Fork(sym.Choice("insert", 4)), in)
}

var acts = []string{"", "^", "^^", "N", "M"}

// HFree: two sub-lexers with freely combined rules and actions.
func HFree() {
	mk := func(name, pat string) ref.LexRule {
		r := ref.LexRule{Kind: name, Pat: pat}
		switch a := acts[sym.Fork(sym.Choice("act_"+name, len(acts)))]; a {
		case "", "N", "M":
			r.Push = a
		default:
			r.Pop = len(a)
		}
		return r
	}
	pats := []string{"a", "ab", "a+", "b|a", "b*a", "ab?"}
	p := func(name string, n int) string { return pats[sym.Fork(sym.Choice("pat_"+name, n))] }
	subs := []ref.SubLex{
		{Name: "M", Rules: []ref.LexRule{mk("k", p("k", sym.Param("pats", 4, 6))), mk("l", "b")}},
		{Name: "N", Rules: []ref.LexRule{mk("l", p("l", sym.Param("pats", 4, 6))), mk("m", "bb|c")}},
	}
	n := sym.Param("input_len", 3, 4)
	check(gen.StackDef(subs), subs, false, 0, sym.Str("in", n, "abc"))
}

// HBytes: inputs of several kinds of bytes, with rules for characters of several bytes.
func HBytes() {
	subs := []ref.SubLex{
		{Name: "M", Rules: []ref.LexRule{gen.P("o", "é", "N"), gen.R("-a", "[a-z]")}},
		{Name: "N", Rules: []ref.LexRule{gen.Q("n", "[^aé]", 1), gen.R("a", "aé?")}},
	}
	in := sym.StrUpTo("in", 0, sym.Param("bytes", 5, 6), "a\xc3\xa9\xff?")
	check(gen.StackDef(subs), subs, false, 0, in)
}

// HLong: many rules and a long input, with any text at some place.
func HLong() {
	subs := []ref.SubLex{{Name: "M", Rules: gen.Keywords(sym.Param("rules", 70, 140))}}
	check(gen.StackDef(subs), subs, sym.Bool("by_priority"), 0, gen.LongText(sym.Param("words", 20, 40), 3, "k1 ?\n-"))
}

// HNested: many levels, left one by one, several at once or without a match.
func HNested() {
	subs := []ref.SubLex{
		{Name: "M", Rules: []ref.LexRule{gen.P("o", `\(`, "N"), gen.R("m", "a"), gen.Q("z", "z", 1)}},
		{Name: "N", Rules: []ref.LexRule{gen.P("o", `\(`, "N"), gen.P("q", `\[`, "L"), gen.Q("c", `\)`, 1), gen.Q("d", ";", 3), gen.R("n", "a"), gen.Q("e", "!", 12)}},
		{Name: "L", Rules: []ref.LexRule{gen.P("o", `\(`, "N"), gen.P("q", `\[`, "L"), gen.Q("r", `\]`, 1), gen.Q("d", ";", 2), gen.R("l", "aa?")}},
	}
	n := sym.Param("levels", 12, 20)
	in := ""
	for i := 0; i < n; i++ {
		in += []string{"(", "[", "(", "(a", "[aa"}[i%5]
	}
	in += sym.Str("in", sym.Param("input_len", 3, 4), "([;)]!a?")
	for i := 0; i < n; i++ {
		in += []string{")", "]", "a)", ")"}[i%4]
	}
	check(gen.StackDef(subs), subs, false, 0, in+"aza")
}

// HMany: many sub-lexers, each with its own rules for the same kinds.
func HMany() {
	n := sym.Param("sublexers", 10, 16)
	var subs []ref.SubLex
	name := func(i int) string { return "Sub" + strconv.Itoa(i%n) }
	for i := 0; i < n; i++ {
		subs = append(subs, ref.SubLex{Name: name(i), Rules: []ref.LexRule{
			gen.P("next", "n", name(i+1)), gen.P("far", "f", name(i+4)), gen.R("own", string(rune('a'+i%5))+"+"), gen.Q("back", "k", 1+i%3), gen.R("-skip", " "),
		}})
	}
	in := "nnfa nkb" + sym.Str("in", sym.Param("input_len", 4, 5), "nfkac") + "ffcnnkkd f" + "abcde"
	check(gen.StackDef(subs), subs, false, 0, in)
}

// HHuge: very long lexemes, lines, errors and inputs, with any text behind them.
func HHuge() {
	subs := []ref.SubLex{{Name: "M", Rules: gen.Keywords(3)}}
	check(gen.StackDef(subs), subs, sym.Bool("by_priority"), 0, gen.HugeText(2, "k1 ?\n-"))
}

// HTower: very many levels.
func HTower() {
	subs := []ref.SubLex{
		{Name: "M", Rules: []ref.LexRule{gen.P("o", `\(`, "N"), gen.R("m", "a")}},
		{Name: "N", Rules: []ref.LexRule{gen.P("o", `\(`, "M"), gen.Q("c", `\)`, 1), gen.Q("d", ";", 40), gen.R("n", "aa")}},
	}
	n := sym.Param("levels", 150, 300)
	in := ""
	for i := 0; i < n; i++ {
		in += "("
	}
	in += sym.Str("in", 2, "();a?")
	for i := 0; i < n; i++ {
		in += "aa)"
	}
	check(gen.StackDef(subs), subs, false, 0, in)
}
