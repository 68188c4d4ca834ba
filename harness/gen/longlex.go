package gen

import (
	"strconv"
	"strings"

	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// Keywords is a set of n rules: keywords, some of them the beginning of others,
// then words, numbers and what separates them.
func Keywords(n int) []ref.LexRule {
	var rs []ref.LexRule
	for i := 0; i < n; i++ {
		k := "kw" + strconv.Itoa(i)
		rs = append(rs, ref.LexRule{Kind: k, Pat: k})
	}
	return append(rs, R("word", `[a-z]\w*`), R("num", `\d+`), R("-space", ` +`), R("nl", `\n`), R("kw", "kw1."), R("op", "[-+*]"))
}

// LongText has lines, errors and n words of Keywords; one place of it is any
// text of the given length.
func LongText(n, free int, set string) string {
	s := ""
	p := sym.Fork(sym.Choice("place", 4))
	for i := 0; i < n; i++ {
		if i == n*(p+1)/4-1 {
			s += sym.Str("in", free, set)
		}
		s += "kw" + strconv.Itoa(i) + []string{" ", "\n", "?\n", "+", " ??"}[i%5]
	}
	return s + strings.Repeat("!", n) + "x"
}

// HugeText has very many of something, then any text of the given length, then
// a little more.
func HugeText(free int, set string) string {
	n := sym.Param("very_many", 1100, 1100)
	s := []string{
		strings.Repeat("kw1 ", 70) + "x" + strings.Repeat("y", 200),
		strings.Repeat("\n", 260) + "kw1 ",
		"kw1" + strings.Repeat("?", 300),
		strings.Repeat("+", n),
		strings.Repeat("a", n) + "+" + strings.Repeat(" ", 300) + "x ",
		strings.Repeat("?+", 300),
	}[sym.Fork(sym.Choice("many", 6))]
	return s + sym.Str("in", free, set) + "kw1 ?\nkw2"
}
