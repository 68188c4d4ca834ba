// Package gen makes symbolic grammars and inputs.
package gen

import (
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// Rhs is any sequence of lo..hi symbols named by single letters of set.
func Rhs(name string, lo, hi int, set string) []string {
	n := sym.Fork(sym.Int(name+".len", lo, hi))
	r := make([]string, n)
	for i := range r {
		r[i] = sym.Str(name, 1, set)
	}
	return r
}

// Kinds is any sequence of lo..hi kinds named by single letters of set.
func Kinds(lo, hi int, set string) []string {
	n := sym.Fork(sym.Int("n", lo, hi))
	r := make([]string, n)
	for i := range r {
		r[i] = sym.Str("kind", 1, set)
	}
	return r
}

// Item is a fixed grammar with the alphabet and length of its inputs.
type Item struct {
	Text        string
	Set         string
	Quick, Thor int
}

// Pick takes one of the items and returns its grammar and any input.
func Pick(name string, items []Item) (ref.G, []string) {
	i := sym.Fork(sym.Choice(name, len(items)))
	it := items[i]
	g := ref.Parse(it.Text)
	return g, Kinds(0, sym.Param("input_len_of_grammar_"+string(rune('A'+i)), it.Quick, it.Thor), it.Set)
}

// Menu: grammars of the shapes users write and of the shapes that are hard.
var Menu = []Item{
	// 0: ambiguous, nullable
	{"S -> S S\n-> x\n->", "x", 5, 7},
	// 1: operators
	{"E -> E + E\n-> E * E\n-> ( E )\n-> n", "+*()n", 5, 7},
	// 2: all vanishing
	{"S -> A B C\nA -> a\n->\nB -> b\n->\nC -> c\n->", "abc", 5, 7},
	// 3: indirect left recursion
	{"S -> A x\n-> y\nA -> S z\n-> S\n-> z", "xyz", 5, 8},
	// 4: cyclic
	{"S -> A\n-> x\nA -> B\n-> y\nB -> S\n-> S x\n->", "xy", 6, 8},
	// 5: hidden left recursion
	{"S -> N S x\n-> x\nN -> n\n->", "xn", 7, 10},
	// 6: palindromes
	{"S -> x S x\n-> y S y\n-> x\n-> y\n->", "xy", 7, 10},
	// 7: dangling else
	{"S -> i S e S\n-> i S\n-> a", "iea", 6, 8},
	// 8: layered expression
	{"E -> E + T\n-> T\nT -> T * F\n-> F\nF -> ( E )\n-> n", "+*()n", 5, 7},
	// 9: right recursive list with separators
	{"L -> [ M ]\nM -> V , M\n-> V\n->\nV -> n\n-> L", "[],n", 5, 7},
	// 10: nothing can be derived
	{"S -> S x\n-> A\nA -> A\n-> x S", "x", 5, 7},
	// 11: same production twice, same string twice
	{"S -> x\n-> x\n-> A\n-> B\nA -> x\nB -> x\n-> x x", "xy", 3, 4},
	// 12: long right sides with vanishing parts
	{"S -> A x A y A\n-> A A A\nA -> a\n->", "axy", 5, 7},
	// 13: interleaved recursion through three symbols
	{"S -> A b\n-> b\nA -> B a\n-> a\nB -> S c\n-> c\n->", "abc", 5, 7},
	// 14: vanishing only through other symbols
	{"S -> A B x\n-> B A\nA -> B B\nB -> C\nC ->\n-> y S", "xy", 4, 6},
	// 15: left and right recursion mixed
	{"S -> S x\n-> y S\n-> z\n-> S w S", "xyzw", 4, 6},
}

// RhsAny is any sequence of lo..hi one-byte symbols, whatever the bytes; they
// are not told apart before the code does.
func RhsAny(name string, lo, hi int) []string {
	n := sym.Fork(sym.Int(name+".len", lo, hi))
	r := make([]string, n)
	for i := range r {
		r[i] = sym.Str(name, 1, "")
	}
	return r
}
