package gen

import (
	"github.com/adamcolton/parlex/zzverif/ref"
)

// StackItem is a fixed stack lexer: the text with inheritance and what it
// means without.
type StackItem struct {
	Text        string
	Subs        []ref.SubLex
	Set         string
	Quick, Thor int
}

// P makes a pushing rule.
func P(kind, pat, push string) ref.LexRule { r := R(kind, pat); r.Push = push; return r }

// Q makes a popping rule.
func Q(kind, pat string, pop int) ref.LexRule { r := R(kind, pat); r.Pop = pop; return r }

// V makes a rule with a group list.
func V(kind, pat string, groups ...string) ref.LexRule {
	r := R(kind, pat)
	r.Groups = groups
	return r
}

// StackDef writes the definition of sub-lexers.
func StackDef(subs []ref.SubLex) string {
	s := ""
	for _, l := range subs {
		s += "== " + l.Name + " ==\n" + ref.Def(l.Rules)
	}
	return s
}

func sub(name string, rs ...ref.LexRule) ref.SubLex { return ref.SubLex{Name: name, Rules: rs} }

// StackMenu: stack lexers.
var StackMenu = []StackItem{
	// 0: one level, as in the readme
	{`
== Main ==
  start /</ Inner
  outer /a+/
  Shared
== Inner ==
  stop />/ ^
  inner /a+/
  Shared
== Shared ==
  word  /\w+/
  space /\s+/ -
`, []ref.SubLex{
		sub("Main", P("start", "<", "Inner"), R("outer", "a+"), R("word", `\w+`), R("-space", `\s+`)),
		sub("Inner", Q("stop", ">", 1), R("inner", "a+"), R("word", `\w+`), R("-space", `\s+`)),
	}, "<>ab ?\n", 4, 6},
	// 1: nesting and multiple pops
	{"", []ref.SubLex{
		sub("M", P("o", `\(`, "N"), Q("m", `m`, 1), R("x", "x")),
		sub("N", P("o", `\(`, "N"), P("d", `\[`, "D"), Q("c", `\)`, 1), R("n", "x")),
		sub("D", Q("all", "!", 9), Q("two", `\]`, 2), Q("one", `\)`, 1), R("z", "xx?")),
	}, "()[]!xm", 5, 6},
	// 2: leaving without a match
	{"", []ref.SubLex{
		sub("M", P("a", "a", "N"), R("e", "c+"), R("f", "b")),
		sub("N", R("b", "b+"), P("p", "c", "O")),
		sub("O", R("g", "bb"), P("a", "a", "N")),
	}, "abc?", 6, 8},
	// 3: matches found from different places, patterns that match nothing
	{"", []ref.SubLex{
		sub("M", R("A", "aa"), R("B", "b+|a+"), R("C", "c*"), P("D", "d", "N")),
		sub("N", R("A", "a*"), Q("E", "d?", 1), R("B", "b|ba")),
	}, "abcd?", 5, 7},
	// 4: groups
	{"", []ref.SubLex{
		sub("M", V("k", `(\w)[-:](\w)`, "1", ":", "2"), V("g", `<(a)?(b)?>`, "2", "|", "1"), R("w", `\w`), V("-z", ` ( )`, "1"), P("p", "!", "N")),
		sub("N", V("s", `"([^"]*)"`, "1"), Q("q", `\n`, 2), V("all", "b(a*)", "0", "1")),
	}, "a-<>b \"!\n", 4, 6},
	// 5: a string mode
	{"", []ref.SubLex{
		sub("M", P("-q", `"`, "S"), R("w", `[a-z]+`), R("-s", ` +`)),
		sub("S", Q("-e", `"`, 1), R("t", `[^"\\]+`), R("x", `\\.`)),
	}, "\"a\\ \n", 5, 7},
	// 6: lines
	{"", []ref.SubLex{
		sub("M", P("b", `\{\n?`, "B"), R("w", `[a-z]+\n?`)),
		sub("B", Q("e", `\n?\}`, 1), R("l", `\n`), R("-c", `#[^\n]*\n`)),
	}, "{}\na#?", 5, 6},
}

// Definition is the text of an item.
func (it StackItem) Definition() string {
	if it.Text != "" {
		return it.Text
	}
	return StackDef(it.Subs)
}
