// Package c04: left recursion is reported exactly when it exists.
package c04

import (
	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

func check(g ref.G) {
	checkOn(g, g.Build())
}

func checkOn(g ref.G, gr parlex.Grammar) {
	sym.Detail(func() string { return "grammar:\n" + g.String() })
	want := g.Compile().LeftRec()
	got := parlex.IsLeftRecursive(gr)
	if got {
		sym.Observe("left recursive")
	}
	sym.Assert(got == want, "left recursion is reported exactly if it exists")
	td, err := topdown.New(gr)
	sym.Assert((err != nil) == want, "topdown.New fails exactly for left recursive grammars")
	sym.Assert((td != nil) != want, "topdown.New returns a parser exactly without error")
	if want {
		sym.Cover("left recursive")
	} else {
		sym.Cover("not left recursive")
	}
}

// HOneNT: one non-terminal, or none; symbols are arbitrary bytes.
func HOneNT() {
	var g ref.G
	for n := sym.Fork(sym.Int("productions", 0, 3)); n > 0; n-- {
		g = append(g, ref.Rule{"S", gen.RhsAny("s", 0, sym.Param("one_len", 2, 3))})
	}
	check(g)
}

// HTwoNT: two non-terminals with two productions each; symbols are arbitrary
// bytes.
func HTwoNT() {
	check(ref.G{
		{"S", gen.RhsAny("s1", 0, 2)},
		{"S", gen.RhsAny("s2", 0, sym.Param("s2_len", 1, 2))},
		{"A", gen.RhsAny("a1", 0, 2)},
		{"A", gen.RhsAny("a2", 0, 1)},
	})
}

// HThreeNT: three non-terminals, one of them with two productions; symbols are
// arbitrary bytes.
func HThreeNT() {
	check(ref.G{
		{"S", gen.RhsAny("s1", 1, 2)},
		{"A", gen.RhsAny("a1", 0, 2)},
		{"B", gen.RhsAny("b1", 0, 2)},
		{"A", gen.RhsAny("a2", 0, sym.Param("a2_len", 0, 1))},
	})
}

// HThreeLast: the symbol with two productions comes last.
func HThreeLast() {
	check(ref.G{
		{"S", gen.Rhs("s1", 1, 2, "SABx")},
		{"A", gen.Rhs("a1", 0, 2, "SABx")},
		{"B", gen.Rhs("b1", 0, sym.Param("b1_len", 1, 2), "SAB")},
		{"B", gen.Rhs("b2", 0, 1, "SAx")},
	})
}

// HLong: one long production among symbols that vanish or not.
func HLong() {
	n := sym.Param("long_len", 4, 5)
	check(ref.G{
		{"S", gen.Rhs("s1", 1, n, "SMNOx")},
		{"M", gen.Rhs("m1", 0, 1, "NOx")},
		{"N", nil},
		{"N", []string{"x"}},
		{"O", []string{"y", "S"}},
		{"O", gen.Rhs("o2", 0, 2, "MN")},
	})
}

// HChain: a chain of five non-terminals with free links.
func HChain() {
	check(ref.G{
		{"S", gen.Rhs("s1", 1, 1, "ABCx")},
		{"A", gen.Rhs("a1", 1, 2, "BCx")},
		{"B", gen.Rhs("b1", 0, 1, "SACx")},
		{"B", gen.Rhs("b2", 0, 1, "Dx")},
		{"C", gen.Rhs("c1", 0, 2, "BD")},
		{"D", gen.Rhs("d1", 0, sym.Param("d1_len", 1, 2), "SABC")},
	})
}

// HPlain: the grammar is an implementation of the interfaces alone.
func HPlain() {
	g := ref.G{
		{"S", gen.Rhs("s1", 1, 2, "SABx")},
		{"A", gen.Rhs("a1", 0, 2, "SABx")},
		{"B", gen.Rhs("b1", 0, sym.Param("plain_len", 1, 2), "SABx")},
		{"S", []string{"x"}},
	}
	checkOn(g, g.Plain())
}

// HNet: a long row of non-terminals with one link from anywhere to anywhere,
// behind symbols that vanish or not.
func HNet() {
	check(gen.Net(sym.Param("net", 12, 20)))
}

// HVanish: many symbols that vanish through each other, defined in either order.
func HVanish() {
	check(gen.Vanish(sym.Param("vanishing", 9, 14)))
}

// HHuge: very many non-terminals.
func HHuge() {
	check(gen.NetSome(sym.Param("many", 120, 250)))
}
