// Package c08: stack lexer definitions mean the same on every construction.
package c08

import (
	"strconv"

	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// sub is a sub-lexer as written: a rule, or inheritance if only Kind is set.
type sub struct {
	name  string
	lines []ref.LexRule
}

func text(subs []sub) string {
	s := ""
	for _, l := range subs {
		s += "== " + l.name + " ==\n"
		for _, r := range l.lines {
			if r.Pat == "" {
				s += "  " + r.Kind + "\n"
			} else {
				s += "  " + r.Line() + "\n"
			}
		}
	}
	return s
}

// flat is what a sub-lexer means; ok is false if it inherits cyclically.
func flat(subs []sub, i int, busy []bool) (rs []ref.LexRule, ok bool) {
	if busy[i] {
		return nil, false
	}
	busy[i] = true
	defer func() { busy[i] = false }()
	add := func(r ref.LexRule) {
		for _, x := range rs {
			if x.Kind == r.Kind {
				return
			}
		}
		rs = append(rs, r)
	}
	for _, r := range subs[i].lines {
		from := -1
		for j := range subs {
			if subs[j].name == r.Kind {
				from = j
			}
		}
		if from < 0 {
			add(r)
			continue
		}
		in, ok := flat(subs, from, busy)
		if !ok {
			return nil, false
		}
		for _, x := range in {
			add(x)
		}
	}
	return rs, true
}

func check(subs []sub, in string) {
	def := text(subs)
	sym.Detail(func() string { return "definition:\n" + def + "input: " + in })
	ok := true
	var want []ref.SubLex
	for i := range subs {
		rs, k := flat(subs, i, make([]bool, len(subs)))
		ok = ok && k
		want = append(want, ref.SubLex{Name: subs[i].name, Rules: rs})
	}
	l, err := stacklexer.New(def)
	sym.Assert((err == nil) == ok, "cyclic inheritance, and only that, is an error")
	if !ok {
		sym.Assert(l == nil, "no lexer is returned with an error")
		return
	}
	prio := sym.Bool("by_priority")
	if prio {
		l.ByPriority()
	}
	toks := ref.Lex(want, prio, "Error", in)
	got := ref.Toks(l.Lex(in))
	sym.Detail(func() string { return "got:  " + ref.TokString(got) + "\nwant: " + ref.TokString(toks) })
	sym.Assert(ref.SameToks(got, toks), "rules take the order of the lines")
	sym.Cover("lexed")
}

// HInherit: three sub-lexers whose lines are rules or inherit, whatever the
// order in which they are visited.
func HInherit() {
	sym.MapOrder(3)
	opts := []ref.LexRule{
		{Kind: "A"}, {Kind: "B"}, gen.R("k", "a"), gen.R("l", "a|b"), gen.R("k", "ab?"), {Kind: "M"}, gen.R("m", "ab"),
	}
	line := func(name string, n int) ref.LexRule { return opts[sym.Fork(sym.Choice(name, n))] }
	subs := []sub{
		{"M", []ref.LexRule{line("m1", 4), line("m2", sym.Param("opts_m2", 4, 5)), gen.P("j", "c", "B")}},
		{"A", []ref.LexRule{line("a1", sym.Param("opts_a1", 4, 7)), opts[3+sym.Fork(sym.Choice("a2", sym.Param("opts_a2", 2, 4)))]}},
		{"B", []ref.LexRule{opts[4], opts[sym.Fork(sym.Int("b2", 2, 5))]}},
	}
	check(subs, sym.Str("in", 1, "ac")+sym.Str("in", 1, "ab")+"?")
}

// HOrder: an inherited sub-lexer's own order counts, not that of its kinds in
// other sub-lexers.
func HOrder() {
	sym.MapOrder(3)
	ks := []string{"k", "l", "m"}
	perm := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	p := perm[sym.Fork(sym.Choice("perm", len(perm)))]
	q := perm[sym.Fork(sym.Choice("perm2", len(perm)))]
	var a []ref.LexRule
	b := []ref.LexRule{gen.P("j", ">", "N")}
	for i := range p {
		a = append(a, gen.R(ks[p[i]], "a"))
		b = append(b, gen.R(ks[q[i]], "b|a"))
	}
	subs := []sub{
		{"M", append(b[:1+sym.Fork(sym.Choice("own", 3))], ref.LexRule{Kind: "A"})},
		{"A", a},
		{"N", []ref.LexRule{gen.R("m", "c"), {Kind: "A"}, gen.Q("x", "<", 1), gen.R("o", "b|a")}},
	}
	check(subs, sym.Str("in", 1, "a>b")+"ab")
}

var bad = []string{
	"",
	"\n  word /a/\n",
	"== M ==\n  M\n",
	"== M ==\n  A\n== A ==\n  M\n",
	"== M ==\n  a\n  A\n== A ==\n  b\n  B\n== B ==\n  c\n  A\n",
	"== M ==\n  a\n== A ==\n  B\n== B ==\n  A\n",
	"== M ==\n  + \n",
	"== M ==\n  a /(/\n",
	"== M ==\n  a\n== A ==\n  b /[/\n",
	"== M ==\n  a B\n",
	"== M ==\n  a A\n== A ==\n  b C -\n",
	"== M ==\n  A\n== A ==\n  b M\n  c X\n",
	"== M ==\n  a /(a)b/ (2)\n",
	"== M ==\n  a\n  c /b/ (0|1)\n",
}

// HBad: definitions that must be rejected.
func HBad() {
	sym.MapOrder(3)
	def := bad[sym.Fork(sym.Choice("definition", len(bad)))]
	sym.Detail(func() string { return "definition:\n" + def })
	l, err := stacklexer.New(def)
	sym.Assert(err != nil, "a bad definition is an error")
	sym.Assert(l == nil, "no lexer is returned with an error")
}

// HGood: definitions that must be accepted, and that agree with what they
// mean.
func HGood() {
	it := gen.StackMenu[sym.Fork(sym.Choice("definition", len(gen.StackMenu)))]
	sym.MapOrder(3)
	def := it.Definition()
	sym.Detail(func() string { return "definition:\n" + def })
	l, err := stacklexer.New(def)
	sym.Assert(err == nil, "a good definition is accepted")
	in := sym.Str("in", 2, it.Set)
	prio := sym.Bool("by_priority")
	if prio {
		l.ByPriority()
	}
	got := ref.Toks(l.Lex(in))
	want := ref.Lex(it.Subs, prio, "Error", in)
	sym.Detail(func() string { return "got:  " + ref.TokString(got) + "\nwant: " + ref.TokString(want) })
	sym.Assert(ref.SameToks(got, want), "the definition means its rules")
}

// HGroups: group lists.
func HGroups() {
	n := sym.Fork(sym.Int("n", 1, sym.Param("segments", 2, 3)))
	list, want := "", ""
	vals := []string{"xyz", "x", "", "z"}
	for i := 0; i < n; i++ {
		if i > 0 {
			list += "|"
		}
		switch sym.Fork(sym.Choice("segment", 6)) {
		case 0:
			s := sym.StrUpTo("literal", 0, sym.Param("literal_len", 2, 3), ":|-x 1^/'")
			list += `"` + s + `"`
			want += s
		case 1:
			list += " " + `"\t"` + " "
			want += "\t"
		case 2:
			list += `"\)"`
			want += ")"
		default:
			g := sym.Fork(sym.Choice("group", 4))
			list += string(rune('0' + g))
			want += vals[g]
		}
	}
	sym.Detail(func() string { return "group list: (" + list + ")" })
	l, err := stacklexer.New("== M ==\n  k /(x)(w)?y(z)/ (" + list + ") -\n  j /(x)(w)?y(z)/ (" + list + ")\n  w\n")
	sym.Assert(err == nil, "the definition is accepted")
	got := l.ByPriority().Lex("xyzxyz")
	sym.Assert(len(got) == 0, "discarded")
	l, err = stacklexer.New("== M ==\n  k /(x)(w)?y(z)/ (" + list + ")\n  w /[w-z]/\n")
	sym.Assert(err == nil, "the definition is accepted")
	got = l.Lex("wxyzx")
	sym.Assert(len(got) == 3, "three lexemes")
	sym.Observe(got[1].Value())
	sym.Assert(got[1].Value() == want, "the value is built from groups and literals")
	sym.Assert(got[0].Value() == "w" && got[2].Value() == "x", "other values are the text")
}

// HAnyText: whatever the text, construction and lexing do not panic, and a
// lexer comes without an error.
func HAnyText() {
	def := "== M ==\n" + sym.ForkStr(sym.StrUpTo("text", 0, sym.Param("text_len", 5, 6), "a/^(1)-\nM"))
	sym.Detail(func() string { return "definition:\n" + def })
	l, err := stacklexer.New(def)
	sym.Assert((err == nil) == (l != nil), "a lexer or an error")
	if err == nil {
		l.Lex("aMa1")
	}
}

// HLayout: the layout of a definition and its division into several texts do
// not matter.
func HLayout() {
	pick := func(name string, l ...string) string { return l[sym.Fork(sym.Choice(name, len(l)))] }
	head := pick("header", "== @ ==\n", "==@\n", "  ==  @==  \n", "== @ ==  \n\n")
	ind := pick("indent", "  ", "", "\t")
	sep := pick("space", " ", "\t ", "")
	end := pick("line_end", "\n", "\n\n", "  \n")
	last := pick("last_end", "", "\n")
	subs := []ref.SubLex{
		{Name: "M", Rules: []ref.LexRule{gen.P("o", "<", "N"), {Kind: "k", Pat: "(a)b", Groups: []string{"1", "-"}, Discard: false}, gen.R("-s", " +"), gen.R("w", "[a-z]")}},
		{Name: "N", Rules: []ref.LexRule{gen.Q("c", ">", 2), gen.P("-o", "(<)", "N"), gen.R("k", `\/a`), gen.R("x", "x")}},
	}
	h := func(i int) string {
		if i == 0 {
			return replace(head, "M")
		}
		return replace(head, "N")
	}
	m := h(0) + ind + "o" + sep + "/</" + sep + "N" + end +
		ind + "k" + sep + "/(a)b/" + sep + `(1|"-")` + end +
		ind + "s" + sep + "/ +/" + sep + "-" + end +
		ind + "w" + sep + "/[a-z]/" + end
	n := h(1) + ind + "c" + sep + "/>/" + sep + "^^" + end +
		ind + "o" + sep + "/(<)/" + sep + "N" + pick("dash", "-", " -") + end +
		ind + "k" + sep + `/\/a/` + end +
		ind + "x" + last
	defs := []string{m + n}
	if sym.Bool("split") {
		defs = []string{m, n}
	}
	sym.Detail(func() string { return "definition:\n" + m + "....\n" + n })
	l, err := stacklexer.New(defs...)
	sym.Assert(err == nil, "the definition is accepted")
	in := sym.Str("in", 1, "<a ") + sym.Str("in", 1, "<>xb") + sym.Str("in", 1, "/x>") + "ax"
	got, want := ref.Toks(l.Lex(in)), ref.Lex(subs, false, "Error", in)
	sym.Detail(func() string {
		return "input: " + in + "\ngot:  " + ref.TokString(got) + "\nwant: " + ref.TokString(want)
	})
	sym.Assert(ref.SameToks(got, want), "the definition means its rules")
}

// HSmall: the smallest lexers, a rule or none each, at the very end of the text.
func HSmall() {
	pick := func(name string, l ...string) string { return l[sym.Fork(sym.Choice(name, len(l)))] }
	r := pick("rule", "", "x", "x^", "x /y/", "M", "x-")
	end := pick("end", "", "\n", " ")
	first := sym.Bool("only")
	subs := []ref.SubLex{{Name: "M"}}
	txt := ""
	if !first {
		subs = []ref.SubLex{{Name: "M", Rules: []ref.LexRule{gen.P("o", "<", "N")}}, {Name: "N"}}
		txt = "== M ==\no /</ N\n"
	}
	name := subs[len(subs)-1].Name
	s := &subs[len(subs)-1]
	switch r {
	case "x":
		s.Rules = []ref.LexRule{gen.R("x", "x")}
	case "x^":
		s.Rules = []ref.LexRule{gen.R("x^", "x^")}
	case "x /y/":
		s.Rules = []ref.LexRule{gen.R("x", "y")}
	case "x-":
		s.Rules = []ref.LexRule{gen.R("x-", "x-")}
	case "M":
		if first {
			r = ""
		} else {
			s.Rules = subs[0].Rules
		}
	}
	txt += "== " + name + "\n" + r + end
	sym.Detail(func() string { return "definition:\n" + txt })
	l, err := stacklexer.New(txt)
	sym.Assert(err == nil, "the definition is accepted")
	in := sym.Str("in", 1, "<xy") + sym.Str("in", 1, "<xy-") + "x"
	got, want := ref.Toks(l.Lex(in)), ref.Lex(subs, false, "Error", in)
	sym.Detail(func() string {
		return "input: " + in + "\ngot:  " + ref.TokString(got) + "\nwant: " + ref.TokString(want)
	})
	sym.Assert(ref.SameToks(got, want), "the definition means its rules")
}

func replace(s, name string) string {
	t := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '@' {
			t += name
		} else {
			t += s[i : i+1]
		}
	}
	return t
}

// HLong: inheritance through many levels of sub-lexers with many rules.
func HLong() {
	n := sym.Param("levels", 8, 12)
	down := sym.Bool("downwards") // the inherited sub-lexer is defined later
	at := sym.Fork(sym.Int("cycle_at", 0, n))
	first := sym.Bool("inherit_first")
	var subs []sub
	name := func(i int) string { return "L" + string(rune('a'+i)) }
	for i := 0; i < n; i++ {
		s := sub{name: name(i)}
		c := string(rune('a' + i))
		own := []ref.LexRule{gen.R("k"+c, c+c), gen.R("all", "["+c+"-z]"), gen.R("kz", "z"+c+"?")}
		j := i + 1
		if !down {
			j = i - 1
		}
		var from []ref.LexRule
		if j >= 0 && j < n {
			from = append(from, ref.LexRule{Kind: name(j)})
		} else if at < n {
			from = append(from, ref.LexRule{Kind: name(at)}) // a cycle
		}
		if first {
			s.lines = append(from, own...)
		} else {
			s.lines = append(own, from...)
		}
		subs = append(subs, s)
	}
	start := sub{name: "M", lines: []ref.LexRule{{Kind: name(n / 2)}, gen.P("go", "!", name(0)), gen.P("end", ";", name(n-1))}}
	subs = append([]sub{start}, subs...)
	check(subs, "aabbz"+sym.Str("in", 2, "!;cz")+"aabczaddzz")
}

// HOverride: of several rules for a kind, own and inherited, the first one
// written counts in all it does.
func HOverride() {
	sym.MapOrder(2)
	rules := []ref.LexRule{gen.R("k", "(a)b?"), gen.P("k", "(a)b?", "N"), gen.Q("k", "(a)b?", 1), gen.R("-k", "(a)b?"), gen.V("k", "(a)b?", "1", "+"), gen.P("k", "(a)b?", "B"), gen.R("k", "b")}
	rule := func(name string) ref.LexRule { return rules[sym.Fork(sym.Choice(name, len(rules)))] }
	own, a, b := rule("own"), rule("a"), rules[sym.Fork(sym.Choice("b", sym.Param("rules_of_b", 2, len(rules))))]
	m := []ref.LexRule{own, {Kind: "A"}}
	switch sym.Fork(sym.Choice("order", 3)) {
	case 1:
		m = []ref.LexRule{{Kind: "A"}, own}
	case 2:
		m = []ref.LexRule{{Kind: "B"}, {Kind: "A"}, own}
	}
	subs := []sub{
		{"M", append([]ref.LexRule{gen.P("go", ">", "N")}, m...)},
		{"A", []ref.LexRule{a, gen.R("l", "b")}},
		{"B", []ref.LexRule{{Kind: "C"}, b, {Kind: "A"}}},
		{"C", []ref.LexRule{gen.R("c", "c")}},
		{"N", []ref.LexRule{gen.R("n", "b"), {Kind: "M"}}},
	}
	check(subs, sym.Str("in", 1, ">ac")+sym.Str("in", 1, "abc")+"abb")
}

// HManyGroups: group lists of patterns with many groups, some of which take no
// part in the match.
func HManyGroups() {
	n := sym.Param("groups", 25, 60)
	pat, in := "", ""
	for i := 0; i < n; i++ {
		c := string(rune('a' + i%26))
		if i%7 == 3 {
			pat += "(" + c + "!)?"
		} else {
			pat += "(" + c + ")"
			in += c
		}
	}
	pick := func(name string) int { return sym.Fork(sym.Int(name, 1, n)) }
	i, j := pick("group"), []int{1, 9, 10, 11, n}[sym.Fork(sym.Choice("other", 5))]
	val := func(i int) string {
		if (i-1)%7 == 3 {
			return ""
		}
		return string(rune('a' + (i-1)%26))
	}
	l, err := stacklexer.New("== M ==\n  k /" + pat + "/ (" + strconv.Itoa(i) + `|"-"|` + strconv.Itoa(j) + ")\n")
	sym.Assert(err == nil, "the definition is accepted")
	got := l.Lex(in)
	sym.Assert(len(got) == 1 && got[0].Value() == val(i)+"-"+val(j), "the value is that of the groups")
}

// HManySubs: very many sub-lexers, each of which is the next one's.
func HManySubs() {
	n := sym.Param("sublexers", 70, 150)
	name := func(i int) string { return "Sub" + strconv.Itoa(i%n) }
	var subs []sub
	far := n - 1 - sym.Fork(sym.Choice("far", 3))
	for i := 0; i < n; i++ {
		s := sub{name: name(i), lines: []ref.LexRule{gen.R("own"+strconv.Itoa(i), string(rune('a'+i%26))), gen.P("next", "!", name(i+1)), gen.P("far", ";", name(far)), gen.Q("back", ",", 2)}}
		if i%10 == 9 && i+1 < n {
			s.lines = append(s.lines, ref.LexRule{Kind: name(i + 1)})
		}
		subs = append(subs, s)
	}
	in := ""
	for i := 0; i < 40; i++ {
		in += "!" + string(rune('a'+i%26))
	}
	check(subs, in+sym.Str("in", 1, "!;,a?")+"st!uv,,a;;rst")
}
