package gen

import (
	"strconv"
	"strings"

	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// Long is a grammar of some size with a long input of it.
type Long struct {
	Text string
	In   string // kinds separated by blanks
	Also string // kinds to put in
}

// ladder is a chain of n non-terminals, each of which has an own terminal in
// front or is the next.
func ladder(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		s += "N" + k + " -> t" + k + " N" + strconv.Itoa((i+3)%n) + "\n"
		if i+1 < n {
			s += " -> N" + strconv.Itoa(i+1) + "\n"
		} else {
			s += " -> end\n"
		}
	}
	return s
}

// row is n symbols.
func row(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += " x" + strconv.Itoa(i)
	}
	return s[1:]
}

// words is a symbol with n productions.
func words(n int) string {
	s := "S -> W S\n ->\nW -> "
	for i := 0; i < n; i++ {
		if i > 0 {
			s += " -> "
		}
		s += "w" + strconv.Itoa(i)
		if i%3 == 2 {
			s += " w" + strconv.Itoa(i-1)
		}
		s += "\n"
	}
	return s
}

// LongMenu: none of them is left recursive.
var LongMenu = []Long{
	{"E -> T + E\n-> T\nT -> F * T\n-> F\nF -> ( E )\n-> n", "n + ( n * ( n + ( ( n ) * n ) ) + n ) * n + n * n", "n )"},
	{"L -> [ M ]\nM -> V , M\n-> V\n->\nV -> n\n-> L", "[ n , n , [ n , n , [ ] , n , [ n ] ] , n , n , n , n , n ]", ", ]"},
	{"S -> ( S ) S\n->", strings.Repeat("( ", 12) + strings.Repeat(") ", 12), "( )"},
	{ladder(13), "t0 t3 t6 t9 t12 t2 t5 t8 t11 end", "t1 t7 N3 t10"},
	{words(14), "w0 w1 w2 w1 w13 w12 w11 w10 w9 w8 w7 w5 w4 w11 w10 w10", "w5 w10 w"},
	{"S -> a b c A e f g A i j k A A m\nA -> a\n-> b A\n->", "a b c b b a e f g i j k b a b b m", "a b"},
	{"Stmt -> if Cond then Stmt else Stmt\n-> if Cond then Stmt\n-> id := Expr\n-> begin Stmts end\nStmts -> Stmt ; Stmts\n-> Stmt\nCond -> Expr = Expr\n-> Expr\nExpr -> id Args\n-> id\n-> int\nArgs -> ( Expr )",
		"if id = int then begin id := int ; if id ( int ) then id := id else id := id ( id ) ; id := int end else id := int", "; else ( end"},
}

// LongLeft: left recursive and ambiguous ones besides.
var LongLeft = []Long{
	{"E -> E + E\n-> E * E\n-> ( E )\n-> n", "n + n * n + ( n * n + n ) * n", "+ n"},
	{"E -> E + T\n-> T\nT -> T * F\n-> F\nF -> ( E )\n-> n", "n + n * ( n + ( n * n ) * n * n ) + n + n * n", "+ ) n"},
	{"L -> L , V\n-> V\nV -> [ L ]\n-> v", "v , v , [ v , v , [ v ] , v , v ] , v , v , v", ", v"},
	{"S -> N N N N N N S N\n-> a\n-> a S\nN ->\n-> b", "a b a", "b"},
	{"S -> A B C D E F\n-> a\nA ->\nB ->\nC ->\nD ->\nE -> e\n->\nF -> S\n-> S f", "e a f", "e f"},
	{"S -> S S\n-> x\n-> ( S )\n->", "x x ( x x ) x", "x ("},
	{"Expr -> Expr Op Expr\n-> Op2 Expr\n-> Ident\n-> Expr ' Expr '\nOp -> and\n-> or\n-> Op2\nOp2 -> minus\nIdent -> ident\n-> Ident . ident", "minus ident . ident . ident and ident minus minus ident or ident", "ident minus"},
}

// Changed is the input of an item with one kind left out, put in or replaced,
// or as it is.
func (it Long) Changed() (ref.G, []string) {
	g := ref.Parse(it.Text)
	in := strings.Fields(it.In)
	also := strings.Fields(it.Also)
	p := sym.Fork(sym.Int("at", 0, len(in)))
	out := append([]string{}, in[:p]...)
	switch sym.Fork(sym.Choice("change", 3)) {
	case 0: // put in, or replaced
		if i := sym.Fork(sym.Int("kind", 0, len(also))); i < len(also) {
			out = append(out, also[i])
		} else {
			out = append(out, sym.Str("any_kind", 1, "")) // any other one, too
		}
		if p < len(in) && sym.Bool("replaced") {
			p++
		}
	case 1: // left out
		if p < len(in) {
			p++
		}
	case 2: // cut off here
		return g, out
	}
	return g, append(out, in[p:]...)
}

// PickLong takes an item.
func PickLong(items []Long) (ref.G, []string) {
	return items[sym.Fork(sym.Choice("grammar", len(items)))].Changed()
}

// Net is a grammar of n non-terminals N0.. in a row with one link of free
// target and a few symbols that vanish: Ni -> ti Ni+1 | V Ni+2.
func Net(n int) ref.G {
	return NetAt(n, sym.Fork(sym.Int("from", 0, n-1)), sym.Fork(sym.Int("to", 0, n-1)))
}

// NetSome is Net with one of a few links, for many non-terminals.
func NetSome(n int) ref.G {
	from := sym.Fork(sym.Choice("from", 4)) * (n - 1) / 3
	to := from + sym.Fork(sym.Int("to", -3, 3))*n/7
	return NetAt(n, from, max(0, min(to, n-1)))
}

// NetAt is Net with a given link.
func NetAt(n, from, to int) ref.G {
	name := func(i int) string { return "N" + strconv.Itoa(i) }
	var g ref.G
	lead := sym.Fork(sym.Int("lead", 0, 2))
	for i := 0; i < n; i++ {
		if i+1 < n {
			g = append(g, ref.Rule{L: name(i), R: []string{name(i + 1), "t" + strconv.Itoa(i)}})
		}
		if i == from {
			r := []string{}
			for k := 0; k < lead; k++ {
				r = append(r, []string{"V", "W"}[k])
			}
			g = append(g, ref.Rule{L: name(i), R: append(r, name(to))})
		}
		g = append(g, ref.Rule{L: name(i), R: []string{"u" + strconv.Itoa(i%3)}})
	}
	g = append(g, ref.Rule{L: "W", R: []string{"V", "V"}})
	g = append(g, ref.Rule{L: "V", R: []string{"v"}})
	if sym.Bool("vanish") {
		g = append(g, ref.Rule{L: "V"})
	}
	return g
}

// Vanish is a chain of n symbols that vanish, or do not from one link on, at
// the beginning of a production of S that contains S further on.
func Vanish(n int) ref.G {
	var g ref.G
	cut := sym.Fork(sym.Int("cut", 0, n))
	if sym.Bool("many more") {
		if n *= 8; cut > 0 {
			cut = n - n/8 + cut
		}
	}
	s := ref.Rule{L: "S"}
	for k := sym.Fork(sym.Int("lead", 1, 6)); k > 0; k-- {
		s.R = append(s.R, "V"+strconv.Itoa(k%2))
	}
	s.R = append(s.R, "S", "x")
	for i := 0; i < n; i++ {
		r := ref.Rule{L: "V" + strconv.Itoa(i)}
		switch {
		case i == cut:
			r.R = []string{"c"}
		case i+1 < n:
			r.R = []string{"V" + strconv.Itoa(i+1)}
		}
		g = append(g, r)
	}
	if sym.Bool("up") {
		for i := 0; i < n/2; i++ {
			g[i], g[n-1-i] = g[n-1-i], g[i]
		}
	}
	y := ref.Rule{L: "S", R: []string{"y"}}
	if sym.Bool("S first") {
		return append(ref.G{s, y}, g...)
	}
	return append(g, s, y)
}

// Huge is a very long input of a grammar, made of n repetitions, with one kind
// put in or left out at one of a few places.
type Huge struct {
	Text              string
	Before, In, After string // kinds separated by blanks
	Also              string // what to put in
	Quick, Thor       int
}

// HugeMenu: none of them is left recursive.
var HugeMenu = []Huge{
	{"S -> a S\n-> b T\nT -> S\n->", "", "a b ", "", "a b c", 70, 90},
	{"E -> T + E\n-> T\nT -> F * T\n-> F\nF -> ( E )\n-> n", "", "n + n * ( n ) + ", "n", "n +", 16, 60},
	{"L -> [ M ]\nM -> V , M\n-> V\n->\nV -> n\n-> L", "[", " n , [ ] ,", " n ]", ", n", 20, 80},
	{words(130), "w0 w129 w128 w127 w", "129 w128 w127 w", "100", "w99 w w5", 2, 4},                                                                  // many productions
	{ladder(130), "", "t0 t3 t6 t9 t12 t30 t33 t36 t39 t60 t90 t93 t120 t123 t126 t129 t2 t5 t50 t53 t128 t1 t4 t127 ", "end", "t1 t7 N3 t10", 1, 3}, // many symbols
	{"S -> " + row(40) + "\n-> T T\nT -> " + row(39), "", row(40) + " ", "", "x7 x39 x0", 1, 1},                                                      // long productions
	{"S -> a S\n-> b", "", strings.Repeat("a ", 130), "b", "b a", 2, 3},
	{"S -> B S\n->\nB -> x B y\n-> O\nO -> x O y O\n-> z", "", "x x z y z y ", "", "x z", 9, 30},
}

// HugeLeft: left recursive and ambiguous ones besides.
var HugeLeft = []Huge{
	{"L -> L , V\n-> V\nV -> [ L ]\n-> v", "v", " , v , [ v ]", "", ", v", 30, 120},
	{"S -> S a\n-> b", "b", strings.Repeat(" a", 130), "", "b a", 2, 4},
	{"S -> S S\n-> x", "", "x ", "", "x y", 14, 24},
	{"E -> E + E\n-> E * E\n-> n", "n", " + n * n", "", "n +", 7, 10},
}

// PickHuge takes an item.
func PickHuge(items []Huge) (ref.G, []string) {
	it := items[sym.Fork(sym.Choice("grammar", len(items)))]
	g := ref.Parse(it.Text)
	in := strings.Fields(it.Before + strings.Repeat(it.In, sym.Param("times_of_"+it.Text[:1]+strconv.Itoa(len(it.Text)), it.Quick, it.Thor)) + it.After)
	also := strings.Fields(it.Also)
	p := len(in) * sym.Fork(sym.Choice("at", 4)) / 3
	out := append([]string{}, in[:p]...)
	if i := sym.Fork(sym.Int("kind", 0, len(also)+1)); i < len(also) {
		out = append(out, also[i])
	} else if i == len(also) && p < len(in) {
		p++
	}
	return g, append(out, in[p:]...)
}
