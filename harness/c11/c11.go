// Package c11: removing left recursion keeps the language and removes the
// recursion.
package c11

import (
	"strconv"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// rules reads a grammar back.
func rules(g parlex.Grammar) ref.G {
	var out ref.G
	for _, nt := range g.NonTerminals() {
		ps := g.Productions(nt)
		sym.Assert(ps != nil, "every non-terminal has productions")
		if ps.Productions() == 0 {
			// it derives nothing; written as a rule that does not end
			out = append(out, ref.Rule{L: nt.String(), R: []string{"nothing", nt.String()}})
		}
		for i := 0; i < ps.Productions(); i++ {
			p := ps.Production(i)
			r := ref.Rule{L: nt.String()}
			for j := 0; j < p.Symbols(); j++ {
				r.R = append(r.R, p.Symbol(j).String())
			}
			out = append(out, r)
		}
	}
	return out
}

// gram is a grammar that prints itself.
type gram interface {
	parlex.Grammar
	String() string
}

func check(g ref.G, n int) {
	checkOn(g, g.Build(), n)
}

func checkOn(g ref.G, gr gram, n int) {
	c := g.Compile()
	for _, b := range c.Nullable() {
		sym.Assume(!b)
	}
	sym.Assume(!c.Cyclic())
	sym.Detail(func() string { return "grammar:\n" + g.String() })
	in := gr
	before := in.String()
	out := grammar.RemoveLeftRecursion(in)
	sym.Assert(in.String() == before, "the given grammar is not changed")
	r := rules(out)
	sym.Detail(func() string { return "result:\n" + r.String() })
	sym.Observe(r.String())
	d := r.Compile()
	if c.LeftRec() {
		sym.Cover("left recursive")
	}
	sym.Assert(!d.LeftRec(), "the result is not left recursive")
	sym.Assert(!parlex.IsLeftRecursive(out), "the result is not reported as left recursive")
	sym.Assert(d.Syms[0] == c.Syms[0], "the start symbol is the same")
	var ts []string
	for i := c.N; i < len(c.Syms); i++ {
		ts = append(ts, c.Syms[i])
	}
	// any sequence of terminals, and of names that must not be terminals
	ts = append(ts, c.Syms[0])
	if !c.Productive() {
		ts = append(ts, c.Syms[1:c.N]...)
	}
	if d.N > c.N {
		ts = append(ts, d.Syms[d.N-1])
	}
	k := sym.Fork(sym.Int("input.len", 0, n))
	kinds := make([]string, k)
	for i := range kinds {
		kinds[i] = ts[sym.Fork(sym.Int("input", 0, len(ts)-1))]
	}
	sym.Detail(func() string { return "input: " + ref.Join(kinds) })
	a := c.Derive(c.Kinds(kinds)).Sym(0, 0, k)
	b := d.Derive(d.Kinds(kinds)).Sym(0, 0, k)
	sym.Assert(a == b, "the languages are the same")
	if a {
		sym.Cover("derived")
	} else {
		sym.Cover("not derived")
	}
}

// HOne: one non-terminal.
func HOne() {
	check(ref.G{
		{"S", gen.RhsAny("s1", 1, 3)},
		{"S", gen.RhsAny("s2", 1, sym.Param("one_s2", 1, 2))},
		{"S", []string{"x"}},
	}, sym.Param("one_in", 3, 4))
}

// HTwo: two non-terminals, symbols free.
func HTwo() {
	n := sym.Param("two_len", 1, 2)
	check(ref.G{
		{"S", gen.Rhs("s1", 1, 2, "STx")},
		{"S", gen.Rhs("s2", 1, n, "Ty")},
		{"T", gen.Rhs("t1", 1, 2, "STx")},
		{"T", gen.Rhs("t2", 1, n, "Sz")},
	}, sym.Param("two_in", 3, 4))
}

// HNothing: symbols that derive nothing, the start symbol among them.
func HNothing() {
	g := ref.G{
		{"S", gen.Rhs("s1", 1, sym.Param("nothing_s1", 1, 2), "STUx")},
		{"T", gen.Rhs("t1", 2, 2, "STU")},
		{"U", gen.Rhs("u1", 2, 2, "TUx")},
	}
	if sym.Bool("more") {
		g = append(g, ref.Rule{L: []string{"S", "T", "U"}[sym.Fork(sym.Choice("of", 3))], R: []string{"y"}})
	}
	if !g.Compile().Productive() {
		sym.Cover("a symbol that derives nothing")
	}
	check(g, sym.Param("nothing_in", 2, 3))
}

// HThree: three non-terminals with indirect recursion in either direction.
func HThree() {
	check(ref.G{
		{"S", gen.Rhs("s1", 1, sym.Param("three_s1", 1, 2), "TUx")},
		{"T", gen.Rhs("t1", 2, 2, "SUx")},
		{"T", []string{"y"}},
		{"U", gen.Rhs("u1", 2, 2, "STx")},
		{"U", gen.Rhs("u2", 1, 1, "TUz")},
	}, sym.Param("three_in", 2, 3))
}

// HNames: the new names are taken already.
func HNames() {
	names := []string{"S", "S'", "S''", "T", "T'"}
	pick := func(n string) string { return names[sym.Fork(sym.Choice(n, len(names)))] }
	check(ref.G{
		{"S", []string{"S", pick("a")}},
		{"S", []string{"x"}},
		{pick("l"), []string{pick("b"), "y"}},
		{"T", []string{pick("c"), "y"}},
		{"T", []string{"z"}},
	}, sym.Param("names_in", 2, 3))
}

// HMenu: grammars users write.
func HMenu() {
	g := menu[sym.Fork(sym.Choice("grammar", len(menu)))]
	check(ref.Parse(g), sym.Param("menu_in", 4, 5))
}

var menu = []string{
	"E -> E op E\n -> ( E )\n -> int",
	"E -> E + T\n -> T\nT -> T * F\n -> F\nF -> ( E )\n -> n",
	"S -> S a\n -> b\nT -> S c",
	"S -> T a\n -> b\nT -> U c\n -> T d\nU -> S e\n -> U f\n -> g",
	"A -> B x\n -> a\nB -> C y\n -> b\nC -> A z\n -> c",
	"L -> L , V\n -> V\nV -> [ L ]\n -> v",
	"S -> S S a\n -> S S\n -> x",
	"S -> T\nT -> T T\n -> U T\n -> x\nU -> T S\n -> u",
}

// HPlain: the grammar is an implementation of the interfaces alone.
func HPlain() {
	g := ref.Parse(menu[sym.Fork(sym.Choice("grammar", len(menu)))])
	checkOn(g, g.Plain(), sym.Param("plain_in", 3, 4))
}

// HNet: a row of non-terminals with one link from anywhere to anywhere.
func HNet() {
	n := sym.Param("net", 6, 8)
	g := gen.Net(n)
	check(g, sym.Param("net_in", 1, 2))
}

// HWide: non-terminals with many productions, which others begin with.
func HWide() {
	n := sym.Param("wide", 9, 14)
	var g ref.G
	for i := 0; i < n; i++ {
		t := "t" + strconv.Itoa(i)
		g = append(g, ref.Rule{L: "A", R: []string{t}})
		if i%3 == 2 {
			g = append(g, ref.Rule{L: "A", R: []string{"A", t}})
		}
	}
	g[sym.Fork(sym.Choice("at", 3))*(len(g)-1)/2].R = []string{"B", "u"}
	b := ref.G{
		{"B", gen.Rhs("b1", 1, sym.Param("wide_b1", 1, 2), "ABv")},
		{"B", []string{"A"}},
		{"B", []string{"C", "w"}},
		{"C", []string{"B", "A"}},
		{"C", []string{"A", "v"}},
	}
	if sym.Bool("B first") {
		g = append(b, g...)
	} else {
		g = append(g, b...)
	}
	check(g, sym.Param("wide_in", 2, 2))
}

// HPrimes: symbols that are named as the new ones would be.
func HPrimes() {
	var g ref.G
	n := sym.Fork(sym.Int("primes", 0, 4))
	used := "E"
	for i := 0; i < n; i++ {
		used += "'"
		if sym.Bool("defined") {
			g = append(g, ref.Rule{L: used, R: []string{"p" + strconv.Itoa(i)}})
			if sym.Bool("recursive") {
				g = append(g, ref.Rule{L: used, R: []string{used, "q"}})
			}
		}
		g = append(g, ref.Rule{L: "T", R: []string{used, "t"}})
	}
	g = append(g, ref.Rule{L: "T", R: []string{"t"}})
	e := ref.G{{"E", []string{"E", "x"}}, {"E", []string{"T"}}}
	if sym.Bool("E first") {
		g = append(e, g...)
	} else {
		g = append(g, e...)
	}
	check(g, 2)
}
