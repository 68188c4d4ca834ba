// Package ref holds reference semantics written independently of the code
// under test: plain definitions, evaluated by fixpoints over small tables.
package ref

import (
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

// Rule is one production of a grammar.
type Rule struct {
	L string
	R []string
}

// G is a grammar: rules in order. The first rule's left side is the start.
type G []Rule

// Build makes the repository's grammar from rules, one Add per rule.
func (g G) Build() *grammar.Grammar {
	gr := grammar.Empty()
	for _, r := range g {
		p := make(stringsymbol.Production, len(r.R))
		for i, s := range r.R {
			p[i] = stringsymbol.Symbol(s)
		}
		gr.Add(stringsymbol.Symbol(r.L), p)
	}
	return gr
}

// String prints the rules.
func (g G) String() string {
	var ls []string
	for _, r := range g {
		ls = append(ls, r.L+" -> "+strings.Join(r.R, " "))
	}
	return strings.Join(ls, "\n")
}

// Parse reads rules from text of the form "A -> b c", one per line; it is
// only used on fixed texts of the harnesses.
func Parse(text string) G {
	var g G
	cur := ""
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		k := strings.Index(l, "->")
		if nt := strings.TrimSpace(l[:k]); nt != "" {
			cur = nt
		}
		g = append(g, Rule{cur, strings.Fields(l[k+2:])})
	}
	return g
}

// NTs lists the non-terminals in order of first definition.
func (g G) NTs() []string {
	var out []string
	for _, r := range g {
		if Index(out, r.L) < 0 {
			out = append(out, r.L)
		}
	}
	return out
}

// Index finds s in l.
func Index(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// C is a grammar with numbered symbols: non-terminals are 0..N-1, terminals
// follow.
type C struct {
	Syms  []string
	N     int
	L     []int
	R     [][]int
	Rules [][]int // per non-terminal, indices of its rules in order
}

// Compile numbers the symbols of a grammar.
func (g G) Compile() *C {
	c := &C{Syms: g.NTs()}
	c.N = len(c.Syms)
	c.Rules = make([][]int, c.N)
	for i, r := range g {
		l := Index(c.Syms, r.L)
		c.L = append(c.L, l)
		c.Rules[l] = append(c.Rules[l], i)
		rs := make([]int, len(r.R))
		for j, s := range r.R {
			k := Index(c.Syms, s)
			if k < 0 {
				k = len(c.Syms)
				c.Syms = append(c.Syms, s)
			}
			rs[j] = k
		}
		c.R = append(c.R, rs)
	}
	return c
}

// Table says which non-terminal derives which part of an input.
type Table struct {
	c  *C
	n  int
	d  []bool // nt*(n+1)*(n+1) + i*(n+1) + j
	in []int
}

// Kinds numbers the kinds of an input; a kind that is not a terminal of the
// grammar gets -1.
func (c *C) Kinds(kinds []string) []int {
	in := make([]int, len(kinds))
	for i, k := range kinds {
		in[i] = -1
		for j := c.N; j < len(c.Syms); j++ {
			if k == c.Syms[j] {
				in[i] = j
				break
			}
		}
	}
	return in
}

// Derive computes the table by iteration to the least fixpoint.
func (c *C) Derive(in []int) *Table {
	n := len(in)
	t := &Table{c: c, n: n, in: in, d: make([]bool, c.N*(n+1)*(n+1))}
	for changed := true; changed; {
		changed = false
		for r, l := range c.L {
			for i := 0; i <= n; i++ {
				ends := t.ends(c.R[r], i)
				for j := i; j <= n; j++ {
					if ends[j] && !t.d[(l*(n+1)+i)*(n+1)+j] {
						t.d[(l*(n+1)+i)*(n+1)+j] = true
						changed = true
					}
				}
			}
		}
	}
	return t
}

// Sym says if a symbol derives in[i:j].
func (t *Table) Sym(s, i, j int) bool {
	if s < t.c.N {
		return t.d[(s*(t.n+1)+i)*(t.n+1)+j]
	}
	return j == i+1 && t.in[i] == s
}

// ends says where a sequence of symbols started at i can end.
func (t *Table) ends(seq []int, i int) []bool {
	cur := make([]bool, t.n+1)
	cur[i] = true
	for _, s := range seq {
		nxt := make([]bool, t.n+1)
		any := false
		for k := i; k <= t.n; k++ {
			if !cur[k] {
				continue
			}
			if s >= t.c.N {
				if k < t.n && t.in[k] == s {
					nxt[k+1] = true
					any = true
				}
				continue
			}
			for j := k; j <= t.n; j++ {
				if t.d[(s*(t.n+1)+k)*(t.n+1)+j] {
					nxt[j] = true
					any = true
				}
			}
		}
		cur = nxt
		if !any {
			break
		}
	}
	return cur
}

// Seq says if a sequence of symbols derives in[i:j].
func (t *Table) Seq(seq []int, i, j int) bool { return t.ends(seq, i)[j] }

// Lexemes makes lexemes with the given kinds; values and positions are
// distinct so that mix-ups show.
func Lexemes(kinds []string) []parlex.Lexeme {
	out := make([]parlex.Lexeme, len(kinds))
	for i, k := range kinds {
		out[i] = lexeme.New(stringsymbol.Symbol(k)).Set("v"+string(rune('0'+i))).At(i+1, 2*i+3)
	}
	return out
}

// Plain is a grammar kept as a user of the interfaces would keep it: string
// symbols, productions looked up by name, nothing for what has none.
type Plain struct {
	nts   []string
	prods map[string]stringsymbol.Productions
}

// Plain makes a grammar of the interfaces alone.
func (g G) Plain() *Plain {
	p := &Plain{nts: g.NTs(), prods: map[string]stringsymbol.Productions{}}
	for _, r := range g {
		pr := make(stringsymbol.Production, len(r.R))
		for i, s := range r.R {
			pr[i] = stringsymbol.Symbol(s)
		}
		p.prods[r.L] = append(p.prods[r.L], pr)
	}
	return p
}

// Productions of a symbol of any kind.
func (p *Plain) Productions(s parlex.Symbol) parlex.Productions {
	if ps, ok := p.prods[s.String()]; ok {
		return ps
	}
	return nil
}

// NonTerminals in order.
func (p *Plain) NonTerminals() []parlex.Symbol {
	out := make([]parlex.Symbol, len(p.nts))
	for i, s := range p.nts {
		out[i] = stringsymbol.Symbol(s)
	}
	return out
}

// String prints the grammar.
func (p *Plain) String() string {
	s := ""
	for _, nt := range p.nts {
		for _, pr := range p.prods[nt] {
			s += nt + " -> " + pr.String() + "\n"
		}
	}
	return s
}

// token is a lexeme of another kind than the repository's.
type token struct {
	kind      parlex.Symbol
	value     string
	line, col int
}

func (t token) Kind() parlex.Symbol { return t.kind }
func (t token) Value() string       { return t.value }
func (t token) Pos() (int, int)     { return t.line, t.col }

// Tokens is Lexemes with implementations of the interface alone; the kinds
// are symbols of a set in which they have other numbers than anywhere else.
func Tokens(kinds []string) []parlex.Lexeme {
	set := setsymbol.New()
	for i := len(kinds) - 1; i >= 0; i-- {
		set.Str(kinds[i])
	}
	out := make([]parlex.Lexeme, len(kinds))
	for i, k := range kinds {
		out[i] = token{set.Str(k), "v" + string(rune('0'+i)), i + 1, 2*i + 3}
	}
	return out
}
