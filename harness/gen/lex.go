package gen

import (
	"strconv"

	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// Ascii is every byte below 128.
var Ascii = func() string {
	b := make([]byte, 128)
	for i := range b {
		b[i] = byte(i)
	}
	return string(b)
}()

// R makes a rule; a kind with a leading - is discarded.
func R(kind, pat string) ref.LexRule {
	d := false
	if kind[0] == '-' {
		kind, d = kind[1:], true
	}
	return ref.LexRule{Kind: kind, Pat: pat, Discard: d}
}

// LexItem is a fixed rule set with the alphabet and length of its inputs.
type LexItem struct {
	Rules       []ref.LexRule
	Set         string
	Quick, Thor int
}

// SimpleMenu: rule sets for the simple lexer.
var SimpleMenu = []LexItem{
	// 0: words, as in the readme
	{[]ref.LexRule{R("test", "test"), R("word", `\w+`), R("-space", `\s+`)}, Ascii, 4, 5},
	// 1: a little language
	{[]ref.LexRule{R("if", "if"), R("num", `\d+(\.\d+)?`), R("id", `[a-z]\w*`), R("op", `[+*=]=?`), R("-sp", ` +`), R("nl", `\n`)}, "if1.a= \n?", 4, 6},
	// 2: patterns that can match nothing
	{[]ref.LexRule{R("a", "a*"), R("b", "b?"), R("ab", "ab"), R("c", "(c|)")}, "abcd", 5, 7},
	// 3: alternation prefers the first branch, not the longest
	{[]ref.LexRule{R("x", "a|ab"), R("y", "bc?"), R("z", "c+")}, "abcd", 5, 7},
	// 4: matches that start later than others
	{[]ref.LexRule{R("A", "aa"), R("B", "b+|a+"), R("C", "ca?")}, "abc?", 6, 8},
	// 5: text, comments, lines
	{[]ref.LexRule{R("str", `"[^"]*"`), R("-cmt", `#[^\n]*`), R("nl", `\n`), R("w", `[^\s"#]+`)}, "\"#\na ", 6, 8},
	// 6: at the end of the input
	{[]ref.LexRule{R("e", "x+$"), R("f", "xx"), R("g", "y")}, "xy?", 6, 9},
	// 7: ties
	{[]ref.LexRule{R("p", "ab"), R("q", "a(b|c)"), R("-r", "a"), R("s", "(?:ab)+")}, "abc", 6, 8},
	// 8: lazy and counted
	{[]ref.LexRule{R("l", "a+?b?"), R("m", "(ab){2}"), R("-n", "b{2,3}?"), R("o", "a.b")}, "abc", 6, 8},
	// 9: several lines in one lexeme
	{[]ref.LexRule{R("b", `\{[^}]*\}`), R("n", `\n+`), R("-w", `[ \t]+`)}, "{}\n a", 6, 8},
}

// Pats are patterns for free combination.
var Pats = []string{"a", "b", "ab", "a+", "a*", "b|a", "ab?", "aa", "[^a]", "(ab)+", "a|ab", "b*a", "c?", "bc|c"}

// FreeRules combines patterns freely.
func FreeRules(n int) []ref.LexRule {
	rs := make([]ref.LexRule, n)
	for i := range rs {
		k := "k" + strconv.Itoa(i)
		rs[i] = ref.LexRule{Kind: k, Pat: Pats[sym.Fork(sym.Choice(k, len(Pats)))]}
		if i == n-1 {
			rs[i].Discard = sym.Bool("discard") // the last may be discarded
		}
	}
	return rs
}
