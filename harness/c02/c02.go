// Package c02: packrat trees are derivations of exactly the input.
package c02

import (
	"github.com/adamcolton/parlex"
	"strings"

	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

func check(g ref.G, kinds []string) {
	checkOn(g, g.Build(), kinds, ref.Lexemes)
}

func checkOn(g ref.G, gr parlex.Grammar, kinds []string, lexemes func([]string) []parlex.Lexeme) {
	sym.Detail(func() string { return "grammar:\n" + g.String() + "\nkinds: " + strings.Join(kinds, " ") })
	lxs := lexemes(kinds)
	pn := packrat.New(gr).Parse(lxs)
	if pn == nil {
		sym.Cover("rejected")
		return
	}
	n := ref.View(pn)
	sym.Observe(n.String())
	d, bad := g.Compile().Derivation(n, ref.Lexemes(kinds))
	sym.Assert(bad == "", "the tree is a derivation of the input: "+bad)
	inner(d, n)
	bad = ref.Links(pn, true)
	sym.Assert(bad == "", "parents: "+bad)
	sym.Assert(n.Distinct(), "no node occurs twice")
	sym.Cover("tree")
}

// inner checks that interior nodes are where their first child is and have no
// value of their own.
func inner(d *ref.Der, n *ref.Node) {
	if d.Rule < 0 {
		return
	}
	sym.Assert(n.Value == "", "an interior node has no value")
	if len(n.C) > 0 {
		sym.Assert(n.Line == n.C[0].Line && n.Col == n.C[0].Col, "an interior node is where its first child is")
	}
	for i := range n.C {
		inner(d.C[i], n.C[i])
	}
}

// HMenu: fixed grammars, every input up to their length.
func HMenu() {
	g, k := gen.Pick("grammar", gen.Menu)
	check(g, k)
}

// HForeign: kinds are arbitrary bytes: unknown, terminals or names of
// non-terminals.
func HForeign() {
	it := gen.Menu[sym.Fork(sym.Choice("grammar", len(gen.Menu)))]
	g := ref.Parse(it.Text)
	check(g, gen.Kinds(1, sym.Param("foreign_len", 2, 3), ""))
}

// HOneNT: every grammar with one non-terminal.
func HOneNT() {
	l := sym.Param("rhs_len", 3, 3)
	g := ref.G{
		{"S", gen.Rhs("s1", 0, l, "Sx")},
		{"S", gen.Rhs("s2", 0, l, "Sx")},
		{"S", gen.Rhs("s3", 0, sym.Param("rhs3_len", 2, 3), "Sx")},
	}
	check(g, gen.Kinds(0, sym.Param("input_len", 4, 5), "x"))
}

// HTwoNT: every grammar S -> a | b ; A -> c with right sides of up to 2
// symbols, every input; symbols and kinds are arbitrary bytes.
func HTwoNT() {
	l := sym.Param("rhs_len", 2, 2)
	g := ref.G{
		{"S", gen.RhsAny("s1", 0, l)},
		{"S", gen.RhsAny("s2", 0, sym.Param("s2_len", 1, 2))},
		{"A", gen.RhsAny("a1", 0, l)},
	}
	check(g, gen.Kinds(0, sym.Param("input_len", 2, 2), ""))
}

// HTwoNTB: one terminal, two productions each.
func HTwoNTB() {
	l := sym.Param("rhs_len", 2, 2)
	g := ref.G{
		{"S", gen.Rhs("s1", 1, l, "SAx")},
		{"S", gen.Rhs("s2", 1, l, "SAx")},
		{"A", gen.Rhs("a1", 0, l, "SAx")},
		{"A", gen.Rhs("a2", 1, sym.Param("rhs4_len", 1, 2), "SAx")},
	}
	n := sym.Param("input_len", 3, 4)
	check(g, gen.Kinds(n, n, "x"))
}

// HPlain: grammar and lexemes are implementations of the interfaces alone.
func HPlain() {
	g, k := gen.Pick("grammar", gen.Menu)
	if len(k) > sym.Param("plain_len", 3, 5) {
		return
	}
	checkOn(g, g.Plain(), k, ref.Tokens)
}

// HLong: larger grammars with long inputs that are changed at one place.
func HLong() {
	g, k := gen.PickLong(append(append([]gen.Long{}, gen.LongLeft...), gen.LongMenu...))
	check(g, k)
}

// HHuge: inputs of hundreds of lexemes, and ambiguous ones that take many steps.
func HHuge() {
	g, k := gen.PickHuge(append(append([]gen.Huge{}, gen.HugeLeft...), gen.HugeMenu...))
	check(g, k)
}
