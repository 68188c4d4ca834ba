// Package c23: simple lexer definitions mean their rules.
package c23

import (
	"regexp"
	"strconv"

	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

func pick(name string, l ...string) string { return l[sym.Fork(sym.Choice(name, len(l)))] }

// means checks that a lexer has the given rules.
func means(l *simplelexer.Lexer, rs []ref.LexRule, in string) {
	prio := sym.Bool("by_priority")
	if prio {
		l.ByPriority()
	} else {
		l.ByLength()
	}
	got, want := ref.Toks(l.Lex(in)), ref.Lex([]ref.SubLex{{Rules: rs}}, prio, "Error", in)
	sym.Observe(ref.TokString(got))
	sym.Detail(func() string {
		return "input: " + in + "\ngot:  " + ref.TokString(got) + "\nwant: " + ref.TokString(want)
	})
	sym.Assert(ref.SameToks(got, want), "the lexer has the rules of its definition")
}

// HLayout: the layout of a definition and its division into several texts do
// not matter.
func HLayout() {
	ind := pick("indent", "  ", "", "\t")
	sep := pick("space", " ", "\t ", "")
	end := pick("line_end", "\n", "\n\n", "  \n", "\n \t\n")
	last := pick("last_end", "", "\n", " ")
	top := pick("top", "", "\n", " \n")
	rs := []ref.LexRule{gen.R("w", `[ab]+`), gen.R("-s", ` +`), gen.R("d", `\/a`), gen.R("if", "if"), gen.R("-x", "x"), gen.R("+", `\+`), gen.R("b", "b")}
	a := top + ind + "w" + sep + `/[ab]+/` + end + ind + "s" + sep + "/ +/" + sep + "-" + end + ind + "d" + sep + `/\/a/` + end
	b := ind + "if" + end + ind + "x" + " " + sep + "-" + end + ind + "+" + sep + `/\+/` + end + ind + "b" + last
	defs := []string{a + b}
	if sym.Bool("split") {
		defs = []string{a, b}
	}
	sym.Detail(func() string { return "definition:\n" + a + "....\n" + b })
	l, err := simplelexer.New(defs...)
	sym.Assert(err == nil, "the definition is accepted")
	means(l, rs, sym.ForkStr(sym.Str("in", 1, "b/+i"))+sym.Str("in", 1, "afx"))
}

// HKinds: kinds are any characters but white space and slashes.
func HKinds() {
	k := sym.Str("kind", sym.Fork(sym.Int("kind_len", 1, sym.Param("kind_len", 2, 3))), gen.Ascii)
	for i := 0; i < len(k); i++ {
		sym.Assume(k[i] != '/' && k[i] != ' ' && !(k[i] >= 9 && k[i] <= 13))
	}
	sym.Detail(func() string { return "kind: " + k })
	d := pick("discard", "", " -")
	sp := pick("space", " ", "")
	l, err := simplelexer.New("  " + k + sp + "/a+/" + d + "\n  qqqq /b/\n")
	sym.Assert(err == nil, "the definition is accepted")
	got := ref.Toks(l.Lex("abaab"))
	var want []ref.Tok
	for _, t := range []ref.Tok{{Kind: k, Val: "a"}, {Kind: "qqqq", Val: "b"}, {Kind: k, Val: "aa"}, {Kind: "qqqq", Val: "b"}} {
		if t.Kind == "qqqq" || d == "" {
			want = append(want, t)
		}
	}
	sym.Assert(ref.SameToks(got, want), "the word is the kind")
	l2, err := simplelexer.New(l.String())
	sym.Assert(err == nil, "the printed definition is accepted")
	sym.Assert(ref.SameToks(ref.Toks(l2.Lex("abaab")), want), "the printed definition has the same kinds")
}

// HReject: a definition is rejected exactly if it has two rules for a kind or
// an invalid pattern.
func HReject() {
	kinds := []string{"a", "b", "ab", "A"}
	pats := []string{"", " /x+/", " /(/", " /x/ -", " /b)/", " /[a]?/"}
	valid := []bool{true, true, false, true, false, true}
	var used []string
	var defs []string
	var rs []ref.LexRule
	ok := true
	def := ""
	n := sym.Fork(sym.Int("rules", 1, 3))
	cut := sym.Fork(sym.Int("cut", 0, 2))
	for i := 0; i < n; i++ {
		k := kinds[sym.Fork(sym.Choice("kind", len(kinds)))]
		j := sym.Fork(sym.Choice("pattern", sym.Param("patterns", 4, len(pats))))
		if ref.Index(used, k) >= 0 || !valid[j] {
			ok = false
		}
		used = append(used, k)
		def += "  " + k + pats[j] + "\n"
		pat := k
		if j == 1 {
			pat = "x+"
		} else if j == 3 {
			pat = "x"
		} else if j == 5 {
			pat = "[a]?"
		}
		rs = append(rs, ref.LexRule{Kind: k, Pat: pat, Discard: j == 3})
		if i == cut {
			defs = append(defs, def)
			def = ""
		}
	}
	defs = append(defs, def)
	sym.Detail(func() string {
		s := ""
		for _, d := range defs {
			s += "definition:\n" + d
		}
		return s
	})
	l, err := simplelexer.New(defs...)
	sym.Assert((err == nil) == ok, "two rules for a kind or an invalid pattern, and only that, is an error")
	sym.Assert((l != nil) == ok, "a lexer or an error")
	if !ok {
		sym.Cover("rejected")
		return
	}
	sym.Cover("accepted")
	in := sym.Str("in", 2, "abxA")
	// a rule for a kind there is is refused and changes nothing
	e := l.Add(stringsymbol.Symbol(used[0]), regexp.MustCompile("."), sym.Bool("discard"))
	sym.Assert(e != nil, "adding another rule for a kind is an error")
	e = l.Add(stringsymbol.Symbol("new"), regexp.MustCompile("A"), false)
	sym.Assert(e == nil, "adding a rule for a new kind is not")
	means(l, append(rs, gen.R("new", "A")), in)
}

// HPrint: printing gives a definition of the same lexer, whatever the patterns
// are.
func HPrint() {
	parts := []string{"a", "/", "\n", `\/`, `\\`, "[/a]", " ", "(/|a)*", `\n`, "-", "\t"}
	pat := ""
	for n := sym.Fork(sym.Int("parts", 0, sym.Param("parts", 2, 3))); n > 0; n-- {
		pat += parts[sym.Fork(sym.Choice("part", len(parts)))]
	}
	rs := []ref.LexRule{gen.R("b", "b"), {Kind: "kind", Pat: pat, Discard: sym.Bool("discard")}, gen.R("a", "a+")}
	sym.Detail(func() string { return "pattern: " + pat })
	l, err := simplelexer.New()
	sym.Assert(err == nil, "no rules are fine")
	for _, r := range rs {
		e := l.Add(stringsymbol.Symbol(r.Kind), regexp.MustCompile(r.Pat), r.Discard)
		sym.Assert(e == nil, "the rule is accepted")
	}
	txt := l.String()
	sym.Detail(func() string { return "printed:\n" + txt })
	l2, err := simplelexer.New(txt)
	sym.Assert(err == nil, "the printed definition is accepted")
	sym.Assert(l2.String() == txt, "it prints the same")
	in := sym.Str("in", sym.Param("input_len", 2, 3), "a/\n\\ -k")
	means(l2, rs, in)
}

// HBig: a definition of many rules, in one text or in several, with any kind
// put in once more.
func HBig() {
	n := sym.Param("many", 70, 140)
	var rs []ref.LexRule
	var lines []string
	for i := 0; i < n; i++ {
		c := string(rune('a' + i%26))
		k := "kind" + strconv.Itoa(i)
		r := ref.LexRule{Kind: k, Pat: c + c}
		line := "  " + k + " /" + c + c + "/"
		switch i % 4 {
		case 1:
			r.Discard = true
			line += " -"
		case 2:
			r.Pat = k
			line = k
		case 3:
			r.Pat = c + "+[0-9]?"
			line = "\t" + k + "/" + r.Pat + "/"
		}
		rs, lines = append(rs, r), append(lines, line)
	}
	i := n * sym.Fork(sym.Int("at", 0, 10)) / 10
	k := "kind" + sym.Str("kind", 2, "0123456789x")
	dup := false
	for _, r := range rs {
		dup = dup || r.Kind == k
	}
	extra := ref.LexRule{Kind: k, Pat: "z?x"}
	rs = append(append(append([]ref.LexRule{}, rs[:i]...), extra), rs[i:]...)
	lines = append(append(append([]string{}, lines[:i]...), k+" /z?x/"), lines[i:]...)
	var defs []string
	def := ""
	parts := sym.Bool("parts")
	for i, l := range lines {
		def += l + "\n"
		if parts && i%5 == 2 {
			defs, def = append(defs, def), ""
		}
	}
	defs = append(defs, def)
	l, err := simplelexer.New(defs...)
	sym.Assert((err != nil) == dup, "two rules for a kind are an error")
	if dup {
		sym.Cover("rejected")
		return
	}
	sym.Cover("accepted")
	l2, err := simplelexer.New(l.String())
	sym.Assert(err == nil, "the printed definition is accepted")
	sym.Assert(l2.String() == l.String(), "it prints the same")
	means(l2, rs, "aazxkind10dd5xyyaakind2kind")
}

// HLong: very long kinds and patterns, the kinds different only at the end,
// with any character there, in one text or in very many.
func HLong() {
	n := sym.Param("long", 150, 400)
	word, pat := "", ""
	for i := 0; i < n; i++ {
		word += string(rune('a' + i*i%26))
		pat += []string{"a", "b?", `\/`, "[c-e]", "f*"}[i%5]
	}
	match := ""
	for i := 0; i < n; i++ {
		match += []string{"a", "b", "/", "d", "ff"}[i%5]
	}
	k := word + sym.Str("kind", 1, "xyz0")
	rs := []ref.LexRule{
		{Kind: word + "x", Pat: pat + "x"},
		{Kind: k, Pat: pat + "y", Discard: sym.Bool("discard")},
		{Kind: word, Pat: word},
		{Kind: "short", Pat: "a"},
	}
	defs := []string{rs[0].Kind + " /" + rs[0].Pat + "/\n", k + "/" + rs[1].Pat + "/", word, "short /a/"}
	if rs[1].Discard {
		defs[1] += "-"
	}
	if sym.Bool("apart") {
		for i := 0; i < 30; i++ {
			defs = append([]string{"q" + strconv.Itoa(i)}, defs...)
			rs = append([]ref.LexRule{{Kind: "q" + strconv.Itoa(i), Pat: "q" + strconv.Itoa(i)}}, rs...)
		}
	} else {
		s := ""
		for _, d := range defs {
			s += d + "\n"
		}
		defs = []string{s}
	}
	l, err := simplelexer.New(defs...)
	dup := k == word+"x"
	sym.Assert((err != nil) == dup, "two rules for a kind are an error")
	if dup {
		sym.Cover("rejected")
		return
	}
	sym.Cover("accepted")
	in := match + "y" + word + match + "xq7" + "a"
	means(l, rs, in)
	l2, err := simplelexer.New(l.String())
	sym.Assert(err == nil, "the printed definition is accepted")
	sym.Assert(l2.String() == l.String(), "it prints the same")
	means(l2, rs, in)
}
