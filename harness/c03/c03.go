// Package c03: packrat prefers the production that is listed first.
package c03

import (
	"github.com/adamcolton/parlex"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// check parses and checks the priority of every node; it returns the
// derivation.
func check(g ref.G, kinds []string) *ref.Der {
	return checkOn(g, g.Build(), kinds, ref.Lexemes)
}

func checkOn(g ref.G, gr parlex.Grammar, kinds []string, lexemes func([]string) []parlex.Lexeme) *ref.Der {
	sym.Detail(func() string { return "grammar:\n" + g.String() + "\nkinds: " + strings.Join(kinds, " ") })
	c := g.Compile()
	sym.Assume(!c.Cyclic())
	lxs := lexemes(kinds)
	pn := packrat.New(gr).Parse(lxs)
	if pn == nil {
		sym.Cover("rejected")
		return nil
	}
	n := ref.View(pn)
	sym.Observe(n.String())
	sym.Detail(func() string { return "tree: " + n.String() })
	d, bad := c.Derivation(n, lxs)
	if bad != "" {
		return nil // C02
	}
	t := c.Derive(c.Kinds(kinds))
	first(c, t, d)
	sym.Cover("tree")
	return d
}

func first(c *ref.C, t *ref.Table, d *ref.Der) {
	if d.Rule < 0 {
		return
	}
	for _, r := range c.Rules[d.Sym] {
		if r == d.Rule {
			break
		}
		if t.Seq(c.R[r], d.From, d.To) {
			sym.Assert(same(c.R[r], c.R[d.Rule]), "a node uses the first production that derives its part of the input")
		}
	}
	for _, ch := range d.C {
		first(c, t, ch)
	}
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// HMenu: fixed grammars, every input up to their length.
func HMenu() {
	g, k := gen.Pick("grammar", gen.Menu)
	check(g, k)
}

// ops is an operator grammar: binary productions before the others.
var ops = []gen.Item{
	{"E -> E + E\n-> n", "+n", 9, 11},
	{"E -> E o E\n-> n\no -> +\n-> -", "+-n", 7, 9},
	{"E -> E - E\n-> E * E\n-> n", "-*n", 7, 9},
	{"E -> E - E\n-> E * E\n-> - E\n-> n", "-*n", 6, 8},
	{"E -> E - E\n-> E * E\n-> ( E )\n-> n", "-*()n", 5, 7},
	{"X -> E ;\nE -> E E\n-> n", ";n", 6, 9},
	{"E -> E - E\n-> T\nT -> T * T\n-> n\n-> m", "-*nm", 5, 7},
}

// HGroup: operator grammars group to the left.
func HGroup() {
	g, k := gen.Pick("grammar", ops)
	d := check(g, k)
	if d != nil {
		left(g, d)
	}
}

func left(g ref.G, d *ref.Der) {
	if d.Rule >= 0 {
		r := g[d.Rule].R
		if len(r) >= 2 && r[0] == g[d.Rule].L && r[len(r)-1] == g[d.Rule].L {
			sym.Assert(d.C[len(d.C)-1].Rule != d.Rule, "a binary production groups to the left")
			if d.C[0].Rule == d.Rule {
				sym.Cover("grouped")
			}
		}
	}
	for _, c := range d.C {
		left(g, c)
	}
}

// HOneNT: every grammar with one non-terminal.
func HOneNT() {
	l := sym.Param("rhs_len", 3, 3)
	g := ref.G{
		{"S", gen.Rhs("s1", 0, l, "Sx")},
		{"S", gen.Rhs("s2", 0, l, "Sx")},
		{"S", gen.Rhs("s3", 0, sym.Param("rhs3_len", 2, 3), "Sx")},
	}
	check(g, gen.Kinds(0, sym.Param("input_len", 4, 6), "x"))
}

// HTwoNT: every grammar S -> a | b ; A -> c | d.
func HTwoNT() {
	l := sym.Param("rhs_len", 2, 2)
	g := ref.G{
		{"S", gen.Rhs("s1", 1, l, "SAx")},
		{"S", gen.Rhs("s2", 1, l, "SAy")},
		{"A", gen.Rhs("a1", 0, l, "SAxy")},
	}
	check(g, gen.Kinds(1, sym.Param("input_len", 3, 4), "xy"))
}

// HThree: S and A with two productions each over one terminal.
func HThree() {
	g := ref.G{
		{"S", gen.Rhs("s1", 1, 2, "SAx")},
		{"S", gen.Rhs("s2", 1, 2, "SAx")},
		{"A", gen.Rhs("a1", 0, 2, "SAx")},
		{"A", gen.Rhs("a2", 1, 2, "SAx")},
	}
	n := sym.Param("input_len", 3, 4)
	check(g, gen.Kinds(n, n, "x"))
}

// HPlain: grammar and lexemes are implementations of the interfaces alone.
func HPlain() {
	g, k := gen.Pick("grammar", gen.Menu)
	if len(k) > sym.Param("plain_len", 3, 5) {
		return
	}
	checkOn(g, g.Plain(), k, ref.Tokens)
}

// HLong: larger grammars with long inputs that are changed at one place.
func HLong() {
	g, k := gen.PickLong(append(append([]gen.Long{}, gen.LongLeft...), gen.LongMenu...))
	check(g, k)
}

// HAlts: many alternatives, two of which match; the earlier one is taken.
func HAlts() {
	const n = 40
	at := []int{0, 5, 15, 16, 31, 32, n - 1}
	i, j := at[sym.Fork(sym.Choice("i", len(at)))], at[sym.Fork(sym.Choice("j", len(at)))]
	var g ref.G
	for k := 0; k < n; k++ {
		g = append(g, ref.Rule{L: "S", R: []string{"P" + strconv.Itoa(k)}})
	}
	for k := 0; k < n; k++ {
		r := ref.Rule{L: "P" + strconv.Itoa(k), R: []string{"t" + strconv.Itoa(k)}}
		if k == i || k == j {
			r.R = []string{"x", "y"}
		}
		g = append(g, r)
	}
	in := []string{"x", "y"}
	switch sym.Fork(sym.Choice("input", 3)) {
	case 0:
		g = append(ref.G{{"S", []string{"S", "S"}}}, g...)
		in = append(in, in...)
	case 1:
		in = in[1:]
	}
	check(g, in)
}
