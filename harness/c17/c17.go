// Package c17: grammar analysis gives exact first sets.
package c17

import (
	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// closure makes a relation on 0..n-1 transitive.
func closure(r [][]bool) {
	for k := range r {
		for i := range r {
			if r[i][k] {
				for j := range r {
					r[i][j] = r[i][j] || r[k][j]
				}
			}
		}
	}
}

func relation(n int) [][]bool {
	r := make([][]bool, n)
	for i := range r {
		r[i] = make([]bool, n)
		r[i][i] = true
	}
	return r
}

// gram is a grammar that prints itself.
type gram interface {
	parlex.Grammar
	String() string
}

func check(g ref.G) {
	checkOn(g, g.Build())
}

func checkOn(g ref.G, gr gram) {
	sym.Detail(func() string { return "grammar:\n" + g.String() })
	c := g.Compile()
	n := len(c.Syms)
	// vanish: derive the empty string
	d := c.Derive(nil)
	vanish := func(s int) bool { return s < c.N && d.Sym(s, 0, 0) }
	begins, leftmost := relation(n), relation(n)
	empty := make([]bool, n)
	for i, l := range c.L {
		for _, s := range c.R[i] {
			begins[l][s] = true
			if !vanish(s) {
				break
			}
		}
		if len(c.R[i]) > 0 {
			leftmost[l][c.R[i][0]] = true
		} else {
			empty[l] = true
		}
	}
	closure(begins)
	closure(leftmost)

	before := gr.String()
	a := analyze.Analyze(gr)
	sym.Assert(a != nil, "there is an analysis")
	set := setsymbol.New()
	name := func(s string) parlex.Symbol {
		if sym.Param("kinds_of_symbols", 0, 1) == 1 {
			return set.Str(s)
		}
		return stringsymbol.Symbol(s)
	}
	for i, s := range c.Syms {
		x := name(s)
		sym.Assert(a.Contains(x), "every symbol of the grammar is contained")
		sym.Assert(a.NonTerminal(x) == (i < c.N), "exactly symbols with productions are non-terminals")
		nilFirst := false
		for j := range c.Syms {
			nilFirst = nilFirst || leftmost[i][j] && empty[j]
		}
		sym.Assert(a.HasNilInFirst(x) == nilFirst, "nil in first exactly if an empty production is reached leftmost")
		for j := c.N; j < n; j++ {
			got := a.HasFirst(x, name(c.Syms[j]))
			sym.Assert(!got || begins[i][j], "only terminals that can come first are firsts")
			sym.Assert(got || !begins[i][j], "every terminal that can come first is a first")
			if i < c.N && got {
				sym.Cover("a first")
			}
			if !got {
				sym.Cover("not a first")
			}
		}
	}
	// a symbol that is not there
	u := sym.Str("unknown", 4, "") // no name is that long
	un := name(u)
	sym.Assert(!a.Contains(un) && !a.NonTerminal(un) && !a.HasNilInFirst(un), "an unknown symbol is not contained")
	sym.Assert(!a.HasFirst(un, name(g[0].L)) && !a.HasFirst(name(g[0].L), un) && !a.HasFirst(un, un), "an unknown symbol has no firsts")
	// the analysis is still the grammar
	sym.Assert(gr.String() == before, "the grammar is not changed")
	var ag parlex.Grammar = a
	nts := ag.NonTerminals()
	sym.Assert(len(nts) == c.N, "the analysis has the non-terminals of the grammar")
	for i, nt := range nts {
		sym.Assert(nt.String() == c.Syms[i] && ag.Productions(nt).Productions() == len(c.Rules[i]), "the analysis has the productions of the grammar")
	}
	b := analyze.Analyze(a)
	sym.Assert(b != nil, "an analysis can be analysed")
	x := name(c.Syms[c.N-1])
	sym.Assert(b.Contains(x) && b.NonTerminal(x) && b.HasNilInFirst(x) == a.HasNilInFirst(x), "analysing an analysis tells the same")
	for j := c.N; j < n; j++ {
		sym.Assert(b.HasFirst(x, name(c.Syms[j])) == a.HasFirst(x, name(c.Syms[j])), "analysing an analysis tells the same")
	}
}

// HOne: a non-terminal with three productions of any symbols.
func HOne() {
	check(ref.G{
		{"S", gen.RhsAny("s1", 0, 2)},
		{"S", gen.RhsAny("s2", 0, sym.Param("one_len", 2, 3))},
		{"S", gen.RhsAny("s3", 0, 1)},
	})
}

// HTwoNT: two non-terminals with two productions each.
func HTwoNT() {
	check(ref.G{
		{"S", gen.RhsAny("s1", 0, 2)},
		{"S", gen.RhsAny("s2", 0, sym.Param("s2_len", 1, 2))},
		{"A", gen.RhsAny("a1", 0, 2)},
		{"A", gen.RhsAny("a2", 0, 1)},
	})
}

// HThreeNT: three non-terminals.
func HThreeNT() {
	check(ref.G{
		{"S", gen.Rhs("s1", 1, 2, "SABx")},
		{"A", gen.Rhs("a1", 0, 2, "SABy")},
		{"B", gen.Rhs("b1", 0, sym.Param("b1_len", 1, 2), "SABz")},
		{"B", gen.Rhs("b2", 0, 1, "Sw")},
		{"A", gen.Rhs("a2", 0, sym.Param("a2_len", 1, 2), "Bx")},
	})
}

// HLong: long productions among symbols that vanish or not.
func HLong() {
	check(ref.G{
		{"S", gen.Rhs("s1", 1, sym.Param("long_len", 4, 5), "MNOx")},
		{"M", gen.Rhs("m1", 0, 1, "NOx")},
		{"N", nil},
		{"N", []string{"n"}},
		{"O", []string{"y", "S"}},
		{"O", gen.Rhs("o2", 0, 2, "MN")},
		{"M", []string{"z"}},
	})
}

// HChain: firsts come through chains in any order.
func HChain() {
	check(ref.G{
		{"D", gen.Rhs("d1", 1, 1, "ABCx")},
		{"A", gen.Rhs("a1", 1, 2, "BCD")},
		{"B", gen.Rhs("b1", 0, 1, "ACD")},
		{"B", []string{"b"}},
		{"C", gen.Rhs("c1", 0, 2, "BD")},
		{"C", []string{"c"}},
	})
}

// HMenu: the grammars of the other checks.
func HMenu() {
	check(ref.Parse(gen.Menu[sym.Fork(sym.Choice("grammar", len(gen.Menu)))].Text))
}

// HPlain: the grammar is an implementation of the interfaces alone.
func HPlain() {
	g := ref.G{
		{"S", gen.Rhs("s1", 1, 2, "SABx")},
		{"A", gen.Rhs("a1", 0, 2, "SABy")},
		{"B", gen.Rhs("b1", 0, sym.Param("plain_len", 1, 2), "SAz")},
		{"S", []string{"w"}},
	}
	checkOn(g, g.Plain())
}

// HNet: a long row of non-terminals with one link from anywhere to anywhere,
// behind symbols that vanish or not.
func HNet() {
	check(gen.Net(sym.Param("net", 12, 20)))
}

// HVanish: many symbols that vanish through each other, defined in either order.
func HVanish() {
	check(gen.Vanish(sym.Param("vanishing", 9, 14)))
}

// HHuge: very many non-terminals.
func HHuge() {
	check(gen.NetSome(sym.Param("many", 40, 70)))
}
