// Package c10: grammar text and grammar agree in both directions.
package c10

import (
	"strconv"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

func space(b byte) bool { return b == ' ' || b >= 9 && b <= 13 }

func trim(s string) string {
	for len(s) > 0 && space(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && space(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

// read is the meaning of a grammar text.
func read(text string) (g ref.G, ok bool) {
	cur := ""
	for len(text) > 0 {
		line := text
		text = ""
		for i := 0; i < len(line); i++ {
			if line[i] == '\n' {
				line, text = line[:i], line[i+1:]
				break
			}
		}
		line = trim(line)
		if line == "" {
			continue
		}
		var arrows []int
		for i := 0; i+1 < len(line); i++ {
			if line[i] == '-' && line[i+1] == '>' {
				arrows = append(arrows, i)
				i++
			}
		}
		if len(arrows) > 1 {
			return nil, false
		}
		if len(arrows) == 1 {
			if nt := trim(line[:arrows[0]]); nt != "" {
				cur = nt
			}
			line = line[arrows[0]+2:]
		}
		if cur == "" {
			cur = "START"
		}
		r := ref.Rule{L: cur}
		for i := 0; i < len(line); {
			for i < len(line) && space(line[i]) {
				i++
			}
			j := i
			for j < len(line) && !space(line[j]) {
				j++
			}
			if j > i {
				r.R = append(r.R, line[i:j])
			}
			i = j
		}
		g = append(g, r)
	}
	return g, true
}

// same says if a grammar has exactly these rules.
func same(got parlex.Grammar, want ref.G) bool {
	nts := want.NTs()
	gnts := got.NonTerminals()
	if len(gnts) != len(nts) {
		return false
	}
	for i, nt := range nts {
		if gnts[i].String() != nt {
			return false
		}
		var rs []ref.Rule
		for _, r := range want {
			if r.L == nt {
				rs = append(rs, r)
			}
		}
		for _, s := range []parlex.Symbol{stringsymbol.Symbol(nt), gnts[i]} {
			ps := got.Productions(s)
			if ps == nil || ps.Productions() != len(rs) {
				return false
			}
			for j, r := range rs {
				p := ps.Production(j)
				if p.Symbols() != len(r.R) {
					return false
				}
				for k, x := range r.R {
					if p.Symbol(k).String() != x {
						return false
					}
				}
			}
		}
	}
	return true
}

// undefined: symbols without definition are not non-terminals, also after
// asking for them.
func undefined(got parlex.Grammar, want ref.G) bool {
	nts := want.NTs()
	ask := []string{"never seen"}
	for _, r := range want {
		ask = append(ask, r.R...)
	}
	for _, s := range ask {
		if ref.Index(nts, s) < 0 && got.Productions(stringsymbol.Symbol(s)) != nil {
			return false
		}
	}
	return true
}

func check(text string) {
	if !accepted(text) {
		sym.Cover("error")
	}
}

// accepted checks a text and says if it is one of a grammar.
func accepted(text string) bool {
	sym.Detail(func() string { return "text: " + text })
	want, ok := read(text)
	g, err := grammar.New(text)
	if !ok {
		sym.Assert(err != nil, "more than one arrow in a line is an error")
		sym.Assert(g == nil, "no grammar with an error")
		return false
	}
	sym.Assert(err == nil, "grammar text is accepted")
	sym.Observe(want.String())
	round(g, want)
	return true
}

func round(g *grammar.Grammar, want ref.G) {
	sym.Assert(same(g, want), "the grammar has the productions of the text in order")
	sym.Assert(undefined(g, want), "a symbol without definition is not a non-terminal")
	sym.Assert(same(g, want), "asking for productions changes nothing")
	str := g.String()
	sym.Assert(g.String() == str, "printing twice gives the same")
	h, err := grammar.New(str)
	sym.Assert(err == nil, "the printed grammar is accepted")
	sym.Assert(same(h, want), "the printed grammar reads back as the same")
	sym.Assert(h.String() == str, "the printed grammar prints the same again")
	b := want.Build()
	sym.Assert(same(b, want), "the grammar built by adding is the same")
	sym.Assert(undefined(b, want), "built: a symbol without definition is not a non-terminal")
	sym.Assert(b.String() == str, "the grammar built by adding prints the same")
	// what is handed out can be changed
	nts := g.NonTerminals()
	for i := range nts {
		nts[i] = stringsymbol.Symbol("changed")
	}
	sym.Assert(same(g, want), "the list of non-terminals is a copy")
	if len(want) > 1 {
		sym.Cover("several productions")
	}
}

// noTab excludes white space other than blanks between two symbols of a line
// and all that is not ASCII.
func noTab(text string) {
	for i := 0; i < len(text); i++ {
		b := text[i]
		sym.Assume(b < 128)
		if b != ' ' && b != '\n' && space(b) {
			sym.Assume(i == 0 || text[i-1] == ' ' || text[i-1] == '\n' || i+1 == len(text) || text[i+1] == ' ' || text[i+1] == '\n')
		}
	}
}

// HText: any short text.
func HText() {
	text := sym.StrUpTo("text", 0, sym.Param("text_len", 5, 6), "")
	noTab(text)
	check(text)
	if len(text) > 3 && text[1] == '-' && text[2] == '>' && text[0] == text[3] {
		sym.Cover("arrow")
	}
}

// HArrow: any text after, between and before arrows.
func HArrow() {
	n := sym.Param("gap", 1, 2)
	text := sym.StrUpTo("a", 0, 1, "") + "->" + sym.StrUpTo("b", 1, n+1, "") + "->" + sym.StrUpTo("c", 0, n, "")
	noTab(text)
	check(text)
}

// HLines: lines of every form; the symbols are arbitrary bytes.
func HLines() {
	n := sym.Param("lines", 3, 4)
	text := ""
	for i := 0; i < n; i++ {
		a := letter("l")
		switch sym.Choice("form", 6) {
		case 0:
			text += a + " -> " + letter("r") + "  " + second("r") + "\n"
		case 1:
			text += "\t -> " + a + " \t" + "\n"
		case 2:
			text += "  " + a + " " + letter("r") + "\n"
		case 3:
			text += a + "->\n"
		case 4:
			text += "->\n"
		case 5:
			text += " \t\n"
		}
	}
	accepted(text)
}

func letter(name string) string {
	s := sym.Str(name, 1, "")
	b := s[0]
	sym.Assume(b > 32 && b < 127 && b != '-' && b != '>')
	return s
}

// HRules: any rules over arbitrary symbols, built and printed.
func HRules() {
	var g ref.G
	n := sym.Fork(sym.Int("rules", 0, sym.Param("rules", 3, 4)))
	for i := 0; i < n; i++ {
		r := ref.Rule{L: letter("l")}
		hi := 2
		if i > 0 {
			hi = sym.Param("later_len", 1, 2)
		}
		k := sym.Fork(sym.Int("len", 0, hi))
		for j := 0; j < k; j++ {
			r.R = append(r.R, letter("r"))
		}
		g = append(g, r)
	}
	sym.Detail(func() string { return "grammar:\n" + g.String() })
	round(g.Build(), g)
}

// HNames: names of several bytes and of any width.
func HNames() {
	names := []string{"A", "A'", "Expr", "START", "a-", ">", "->"[1:], "é", "日本", "%d", "Ex"}
	pick := func(n string) string { return names[sym.Fork(sym.Choice(n, len(names)))] }
	g := ref.G{{pick("l"), []string{pick("r"), "x"}}, {pick("m"), nil}, {"A", []string{"b"}}}
	sym.Detail(func() string { return "grammar:\n" + g.String() })
	round(g.Build(), g)
}

// HPrinted: printing has one line per production and all arrows in one column.
func HPrinted() {
	g := ref.G{{"S", gen.Rhs("s", 0, 2, "SAx")}, {"Long", gen.Rhs("l", 0, 1, "SAx")}, {"S", gen.Rhs("s2", 0, 1, "SAx")}}
	str := g.Build().String()
	col, lines, cur := -1, 1, 0
	for i := 0; i < len(str); i++ {
		if str[i] == '\n' {
			lines++
			cur = i + 1
		}
		if str[i] == '-' {
			if col < 0 {
				col = i - cur
			}
			sym.Assert(col == i-cur, "arrows are aligned")
		}
	}
	sym.Assert(lines == 3, "one line per production")
}

// second is the second symbol of a production: fixed in the quick tier.
func second(name string) string {
	if sym.Param("second_free", 0, 1) == 1 {
		return letter(name)
	}
	return "A"
}

// HBig: many rules with long right sides and long names, two of which are
// anything.
func HBig() {
	var g ref.G
	n := sym.Param("many", 36, 60)
	name := func(i int) string {
		s := "N" + strconv.Itoa(i%(n-5)) // some come again
		for j := 0; j < i%7; j++ {
			s += "long"
		}
		return s
	}
	for i := 0; i < n; i++ {
		r := ref.Rule{L: name(i)}
		for j := 0; j < i%13; j++ {
			r.R = append(r.R, name(i*7+j*5))
		}
		g = append(g, r)
	}
	i := sym.Fork(sym.Int("rule", 0, n-1))
	g[i].L = letter("l")
	if k := len(g[i].R); k > 0 {
		g[i].R = append([]string{}, g[i].R...)
		g[i].R[k-1] = letter("r")
	}
	sym.Detail(func() string { return "grammar:\n" + g.String() })
	round(g.Build(), g)
	accepted(g.String())
}

// HHuge: hundreds of symbols, many productions of one of them, one of which is
// there once more.
func HHuge() {
	n := sym.Param("many", 140, 300)
	var g ref.G
	for i := 0; i < n; i++ {
		r := ref.Rule{L: "N"}
		if i%9 == 0 {
			r.L = "M" + strconv.Itoa(i)
		}
		for j := 0; j < i%6; j++ {
			r.R = append(r.R, "s"+strconv.Itoa(i*2+j))
		}
		for j := 0; i == 7 && j < n; j++ {
			r.R = append(r.R, "s"+strconv.Itoa(j))
		}
		if i == n-1 {
			r.R = []string{"a", "b", "N", "N", letter("r"), "M9"}
		}
		g = append(g, r)
	}
	i := n * sym.Fork(sym.Int("again", 0, 11)) / 12
	d := ref.Rule{L: g[i].L, R: append([]string{}, g[i].R...)}
	if sym.Bool("at the end") {
		g = append(g, d)
	} else {
		g = append(append(append(ref.G{}, g[:i]...), d), g[i:]...)
	}
	round(g.Build(), g)
	accepted(g.String())
}
