// Package c05: top-down parsing is ordered choice.
package c05

import (
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

type op struct {
	c   *ref.C
	in  []int
	lxs []parlex.Lexeme
	was map[[2]int]found
}

type found struct {
	n   *ref.Node
	end int
}

// match is ordered choice by definition; it returns the end or -1.
func (o *op) match(s, pos int, all bool) (*ref.Node, int) {
	if s >= o.c.N {
		if pos < len(o.in) && o.in[pos] == s {
			lx := o.lxs[pos]
			l, c := lx.Pos()
			return &ref.Node{Kind: lx.Kind().String(), Value: lx.Value(), Line: l, Col: c}, pos + 1
		}
		return nil, -1
	}
	if f, ok := o.was[[2]int{s, pos}]; ok && !all {
		return f.n, f.end
	}
	n, end := o.choose(s, pos, all)
	if !all {
		o.was[[2]int{s, pos}] = found{n, end}
	}
	return n, end
}

func (o *op) choose(s, pos int, all bool) (*ref.Node, int) {
	for _, r := range o.c.Rules[s] {
		n := &ref.Node{Kind: o.c.Syms[s]}
		p := pos
		for _, x := range o.c.R[r] {
			var ch *ref.Node
			ch, p = o.match(x, p, false)
			if p < 0 {
				break
			}
			n.C = append(n.C, ch)
		}
		if p >= 0 && (!all || p == len(o.in)) {
			return n, p
		}
	}
	return nil, -1
}

// leaves compares value and position of the leaves as well.
func same(c *ref.C, a, b *ref.Node) bool {
	if a.Kind != b.Kind || len(a.C) != len(b.C) || a.Value != b.Value {
		return false
	}
	if ref.Index(c.Syms[:c.N], a.Kind) < 0 && (a.Line != b.Line || a.Col != b.Col) {
		return false
	}
	for i := range a.C {
		if !same(c, a.C[i], b.C[i]) {
			return false
		}
	}
	return true
}

func check(g ref.G, kinds []string) {
	checkOn(g, g.Build(), kinds, ref.Lexemes)
}

func checkOn(g ref.G, gr parlex.Grammar, kinds []string, lexemes func([]string) []parlex.Lexeme) {
	sym.Detail(func() string { return "grammar:\n" + g.String() + "\nkinds: " + strings.Join(kinds, " ") })
	c := g.Compile()
	if c.LeftRec() {
		return // C04
	}
	td, err := topdown.New(gr)
	if err != nil {
		return // C04
	}
	pn := td.Parse(lexemes(kinds))
	o := &op{c, c.Kinds(kinds), ref.Lexemes(kinds), map[[2]int]found{}}
	want, _ := o.match(0, 0, true)
	sym.Assert((pn != nil) == (want != nil), "a tree is returned exactly if ordered choice accepts")
	if pn == nil {
		sym.Cover("rejected")
		return
	}
	n := ref.View(pn)
	sym.Observe(n.String())
	sym.Assert(same(c, n, want), "the tree is the one of ordered choice over the input")
	bad := ref.Links(pn, true)
	sym.Assert(bad == "", "parents: "+bad)
	sym.Assert(n.Distinct(), "no node occurs twice")
	sym.Cover("tree")
}

var menu = []gen.Item{
	// 0: commits to the first match
	{"S -> A b\n-> A\nA -> a\n-> a b", "ab", 5, 8},
	// 1: start tries all
	{"S -> a\n-> a a\n-> a S\n->", "ab", 5, 8},
	// 2: right recursive expressions
	{"E -> T + E\n-> T\nT -> F * T\n-> F\nF -> ( E )\n-> n", "+*()n", 5, 7},
	// 3: vanishing siblings at one position
	{"S -> N N x N N\n-> N N\nN -> M\nM ->", "xy", 4, 6},
	// 4: vanishing alternatives first and last
	{"S -> O L x\n-> L\nO ->\n-> o\nL -> o L\n->", "ox", 5, 7},
	// 5: list
	{"L -> [ M ]\nM -> V , M\n-> V\n->\nV -> n\n-> L", "[],n", 5, 7},
	// 6: the same symbol reached by several ways at one position
	{"S -> A x\n-> B y\n-> A y\n-> C\nA -> C C\nB -> C\nC -> z\n->", "xyz", 5, 7},
	// 7: start symbol used inside
	{"S -> a S b\n-> a S\n-> c\n-> c c", "abc", 5, 7},
	// 8: dangling else
	{"S -> i S e S\n-> i S\n-> a", "iea", 6, 8},
	// 9: duplicates
	{"S -> x\n-> x\n-> A x\nA -> x\n-> x", "xy", 4, 6},
	// 10: terminal named like nothing else, start vanishing
	{"S -> A B C\nA -> a\n->\nB -> b\n->\nC -> c C\n->", "abc", 5, 7},
}

// HMenu: fixed grammars, every input.
func HMenu() {
	g, k := gen.Pick("grammar", menu)
	check(g, k)
}

// HForeign: kinds that are unknown or names of non-terminals.
func HForeign() {
	it := menu[sym.Fork(sym.Choice("grammar", len(menu)))]
	g := ref.Parse(it.Text)
	check(g, gen.Kinds(1, sym.Param("foreign_len", 2, 3), ""))
}

// HTwoNT: S with two, A with two productions.
func HTwoNT() {
	g := ref.G{
		{"S", gen.Rhs("s1", 0, 2, "SAx")},
		{"S", gen.Rhs("s2", 0, 2, "SAx")},
		{"A", gen.Rhs("a1", 0, 2, "Axy")},
		{"A", gen.Rhs("a2", 0, sym.Param("a2_len", 1, 2), "xy")},
	}
	check(g, gen.Kinds(0, sym.Param("input_len", 2, 3), "xy"))
}

// HThreeNT: S, A and B.
func HThreeNT() {
	g := ref.G{
		{"S", gen.Rhs("s1", 1, 3, "ABx")},
		{"S", gen.Rhs("s2", 1, 2, "ABx")},
		{"A", gen.Rhs("a1", 0, 1, "Bx")},
		{"A", gen.Rhs("a2", 0, sym.Param("a2_len", 0, 1), "Bx")},
		{"B", gen.Rhs("b1", 0, 2, "xS")},
		{"B", nil},
	}
	n := sym.Param("input_len", 3, 4)
	check(g, gen.Kinds(n-1, n, "x"))
}

// HPlain: grammar and lexemes are implementations of the interfaces alone.
func HPlain() {
	g, k := gen.Pick("grammar", menu)
	if len(k) > sym.Param("plain_len", 3, 5) {
		return
	}
	checkOn(g, g.Plain(), k, ref.Tokens)
}

// HLong: larger grammars with long inputs that are changed at one place.
func HLong() {
	g, k := gen.PickLong(gen.LongMenu)
	check(g, k)
}

// HHuge: inputs of hundreds of lexemes.
func HHuge() {
	g, k := gen.PickHuge(gen.HugeMenu)
	check(g, k)
}
