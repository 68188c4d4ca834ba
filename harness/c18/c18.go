// Package c18: symbol sets number strings one to one.
package c18

import (
	"math"
	"strconv"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// own is a symbol type of its own.
type own struct{ s string }

func (o own) String() string { return o.s }

// model is a set as it should be: strings in order of insertion.
type model []string

func (m *model) add(s string) int {
	if i := ref.Index(*m, s); i >= 0 {
		return i
	}
	*m = append(*m, s)
	return len(*m) - 1
}

func is(x *setsymbol.Symbol, i int, s string) {
	sym.Assert(x != nil, "there is a symbol")
	sym.Assert(x.Idx() == i, "the index is that of the string")
	sym.Assert(x.String() == s, "the string is that of the index")
}

func all(set *setsymbol.Set, m model) {
	sym.Assert(set.Size() == len(m), "the size is the number of strings")
	for i, s := range m {
		is(set.ByIdx(i), i, s)
		sym.Assert(set.Has(s), "a string that was put in is there")
		sym.Assert(set.Idx(stringsymbol.Symbol(s)) == i, "the index of a string does not change")
	}
}

func name() string { return sym.StrUpTo("name", 0, sym.Param("name_len", 1, 2), "") }

// HHistory: any sequence of insertions and queries, with any strings and kinds
// of symbols.
func HHistory() {
	set, other := setsymbol.New(), setsymbol.New()
	other.Str("zz")
	var m model
	var got []*setsymbol.Symbol
	var at []int
	for n := sym.Param("operations", 4, 5); n > 0; n-- {
		s := name()
		var x *setsymbol.Symbol
		switch sym.Fork(sym.Choice("operation", 5)) {
		case 0:
			x = set.Str(s)
		case 1:
			x = set.Symbol(stringsymbol.Symbol(s))
		case 2:
			x = set.Symbol(other.Str(s))
		case 3:
			h := set.HasSymbol(stringsymbol.Symbol(s))
			i := ref.Index(m, s)
			sym.Assert((h != nil) == (i >= 0), "exactly what was put in is there")
			sym.Assert(set.Has(s) == (i >= 0), "exactly strings that were put in are there")
			sym.Assert(set.Idx(other.Str(s)) == i, "the index is -1 exactly if the string is not there")
			if h != nil {
				sym.Cover("found")
				is(h, i, s)
			} else {
				sym.Cover("not found")
			}
			sym.Assert(set.Size() == len(m), "asking adds nothing")
			continue
		case 4:
			x = set.Symbol(own{s})
		}
		i := m.add(s)
		is(x, i, s)
		got, at = append(got, x), append(at, i)
		sym.Assert(set.Size() == len(m), "the size is the number of strings")
	}
	all(set, m)
	for k, x := range got {
		is(x, at[k], m[at[k]])
		sym.Assert(set.Symbol(x).Idx() == at[k] && set.Idx(x) == at[k] && set.HasSymbol(x).Idx() == at[k], "a symbol of the set stands for itself")
	}
	sym.Assert(set.Size() == len(m), "nothing was added")
}

// HByIdx: any index.
func HByIdx() {
	set := setsymbol.New()
	var m model
	for n := sym.Fork(sym.Int("strings", 0, 3)); n > 0; n-- {
		s := name()
		set.Str(s)
		m.add(s)
	}
	i := sym.Int("index", math.MinInt64, math.MaxInt64)
	x := set.ByIdx(i)
	if i >= 0 && i < len(m) {
		is(x, i, m[i])
		sym.Cover("in range")
	} else {
		sym.Assert(x == nil, "there is no symbol for an index out of range")
		sym.Cover("out of range")
	}
	all(set, m)
}

// empty is 1 if symbols may be the empty string.
var empty = 0

func strs(n string, lo, hi int) []string {
	var l []string
	for k := sym.Fork(sym.Int(n+".len", lo, hi)); k > 0; k-- {
		l = append(l, sym.StrUpTo(n, 1-empty, 1, ""))
	}
	return l
}

func prod(l []string) stringsymbol.Production {
	p := stringsymbol.Production{}
	for _, s := range l {
		p = append(p, stringsymbol.Symbol(s))
	}
	return p
}

// isProd checks a production in all ways there are to read it.
func isProd(p parlex.Production, want []string) {
	sym.Assert(p != nil, "there is a production")
	sym.Assert(p.Symbols() == len(want), "the number of symbols is right")
	for i, s := range want {
		x := p.Symbol(i)
		sym.Assert(x != nil && x.String() == s, "the symbols are the same in the same order")
	}
	sym.Assert(p.Symbol(len(want)) == nil, "there is no symbol after the last")
	it := p.Iter()
	for i, s := range want {
		sym.Assert(it.Next(), "the iterator gives all symbols")
		sym.Assert(it.Idx == i && it.String() == s, "the iterator gives the symbols in order")
	}
	sym.Assert(!it.Next() && !it.Next(), "the iterator ends after the last symbol")
	if str, ok := p.(parlex.Stringer); ok {
		w := ""
		for i, s := range want {
			if i > 0 {
				w += " "
			}
			w += s
		}
		sym.Assert(str.String() == w, "a production prints its symbols in order")
	}
}

func isProds(p parlex.Productions, want [][]string) {
	sym.Assert(p != nil, "there are productions")
	sym.Assert(p.Productions() == len(want), "the number of productions is right")
	for i, w := range want {
		isProd(p.Production(i), w)
	}
	sym.Assert(p.Production(len(want)) == nil, "there is no production after the last")
	it := p.Iter()
	for i, w := range want {
		sym.Assert(it.Next(), "the iterator gives all productions")
		sym.Assert(it.Idx == i, "the iterator counts")
		isProd(it.Production, w)
	}
	sym.Assert(!it.Next() && !it.Next(), "the iterator ends after the last production")
}

// own1 checks that a production is one of the set.
func own1(set *setsymbol.Set, p parlex.Production) {
	for i := 0; i < p.Symbols(); i++ {
		x, ok := p.Symbol(i).(*setsymbol.Symbol)
		sym.Assert(ok && set.ByIdx(x.Idx()) != nil && set.ByIdx(x.Idx()).String() == x.String(), "the symbols are those of the set")
	}
}

// HCasts: a production through both representations and two sets.
func HCasts() {
	a, b := setsymbol.New(), setsymbol.New()
	for _, s := range strs("before", 0, 2) {
		a.Str(s)
	}
	b.Str("zz")
	n := sym.Param("symbols", 4, 5)
	if sym.Bool("empty") {
		empty, n = 1, 3
	}
	w := strs("symbol", 0, n)
	p := prod(w)
	isProd(p, w)
	pa := a.CastProduction(p)
	isProd(pa, w)
	if sym.Bool("same size") {
		for i := 0; b.Size() < a.Size(); i++ {
			b.Str("zz" + strconv.Itoa(i))
		}
	}
	pb := b.CastProduction(pa)
	isProd(pb, w)
	own1(a, pa)
	own1(b, pb)
	isProd(stringsymbol.CastProduction(pb), w)
	isProd(a.CastProduction(pb), w)
	isProd(a.CastProduction(pa), w)
	isProd(stringsymbol.CastProduction(p), w)
	var l []parlex.Symbol
	for i, s := range w {
		if i%2 == 0 {
			l = append(l, stringsymbol.Symbol(s))
		} else {
			l = append(l, pb.Symbol(i))
		}
	}
	q := a.Production(l...)
	isProd(q, w)
	if len(w) > 0 {
		sym.Assert(q.Symbol(0).(*setsymbol.Symbol).Idx() == a.Idx(stringsymbol.Symbol(w[0])), "the symbols are those of the set")
	}
	q.AddSymbols(stringsymbol.Symbol("e"), b.Str("zz"))
	isProd(q, append(append([]string{}, w...), "e", "zz"))
	isProd(p, w)
	isProd(pa, w)
	isProd(pb, w)
}

// HCastsAll: productions through both representations and two sets.
func HCastsAll() {
	a, b := setsymbol.New(), setsymbol.New()
	b.Str("zz")
	var w [][]string
	ps := stringsymbol.Productions{}
	for n := sym.Fork(sym.Int("productions", 0, sym.Param("productions", 3, 3))); n > 0; n-- {
		l := strs("symbol", 0, 2)
		w = append(w, l)
		ps = append(ps, prod(l))
	}
	isProds(ps, w)
	pa := a.CastProductions(ps)
	isProds(pa, w)
	if sym.Bool("same size") {
		for i := 0; b.Size() < a.Size(); i++ {
			b.Str("zz" + strconv.Itoa(i))
		}
	}
	pb := b.CastProductions(pa)
	isProds(pb, w)
	for i := range w {
		own1(a, pa.Production(i))
		own1(b, pb.Production(i))
	}
	isProds(stringsymbol.CastProductions(pb), w)
	isProds(a.CastProductions(pb), w)
	isProds(a.CastProductions(pa), w)
	isProds(stringsymbol.CastProductions(ps), w)
	var l []parlex.Production
	for i := range w {
		if i%2 == 0 {
			l = append(l, ps[i])
		} else {
			l = append(l, pb.Production(i))
		}
	}
	q := a.Productions(l...)
	isProds(q, w)
	q.AddProductions(b.Production(b.Str("zz")), stringsymbol.Production{})
	isProds(q, append(append([][]string{}, w...), []string{"zz"}, nil))
	isProds(pa, w)
	isProds(pb, w)
}

// HNothing: what is nil or empty.
func HNothing() {
	set := setsymbol.New()
	sym.Assert(set.Symbol(nil) == nil, "no symbol is no symbol")
	sym.Assert(set.CastProduction(nil) == nil && set.CastProductions(nil) == nil, "nothing is cast to nothing")
	sym.Assert(stringsymbol.CastProduction(nil) == nil && stringsymbol.CastProductions(nil) == nil, "nothing is cast to nothing")
	var p stringsymbol.Production
	var ps stringsymbol.Productions
	sym.Assert(p.Symbols() == 0 && ps.Productions() == 0 && !p.Iter().Next() && !ps.Iter().Next(), "nothing has nothing in it")
	var q *setsymbol.Production
	var qs *setsymbol.Productions
	sym.Assert(q.Symbols() == 0 && qs.Productions() == 0 && !q.Iter().Next() && !qs.Iter().Next(), "nothing has nothing in it")
	sym.Assert(!(&parlex.ProductionIterator{}).Next() && !(&parlex.ProductionsIterator{}).Next(), "an iterator over nothing ends at once")
	sym.Assert(set.Size() == 0, "nothing was added")
	isProd(set.Production(), nil)
	isProds(set.Productions(), nil)
	c := sym.Str("symbol", 2, "")
	sym.Assert(stringsymbol.CastSymbol(set.Str(c)) == stringsymbol.Symbol(c), "a cast symbol has the same string")
	sym.Assert(stringsymbol.CastSymbol(own{c}) == stringsymbol.Symbol(c), "a cast symbol has the same string")
	sym.Assert(stringsymbol.CastSymbol(stringsymbol.Symbol(c)) == stringsymbol.Symbol(c), "a cast symbol has the same string")
}

// HDerived: any history of making, extending and collecting productions; what
// is extended does not change anything else.
func HDerived() {
	set := setsymbol.New()
	var ps []*setsymbol.Production
	var pw [][]string
	var cs []*setsymbol.Productions
	var cw [][][]string
	next := 0
	fresh := func() string { next++; return string(rune('a' + next)) }
	cp := func(l []string) []string { return append([]string{}, l...) }
	first := []string{"s"}
	ps = append(ps, set.Production(set.Str("s")))
	if sym.Bool("grown") {
		ps[0].AddSymbols(set.Str("t"), set.Str("u"))
		first = append(first, "t", "u")
	}
	pw = append(pw, first)
	cs = append(cs, set.Productions(ps[0]))
	cw = append(cw, [][]string{cp(first)})
	for n := sym.Param("steps", 5, 6); n > 0; n-- {
		switch sym.Fork(sym.Choice("operation", 5)) {
		case 0: // extend a production
			k := sym.Fork(sym.Choice("production", len(ps)))
			x := fresh()
			ps[k].AddSymbols(stringsymbol.Symbol(x))
			pw[k] = append(cp(pw[k]), x)
		case 1: // take a production out of a collection
			k := sym.Fork(sym.Choice("collection", len(cs)))
			j := len(cw[k]) - 1
			ps = append(ps, cs[k].Production(j).(*setsymbol.Production))
			pw = append(pw, cp(cw[k][j]))
		case 2: // put a production into a collection
			k := sym.Fork(sym.Choice("collection", len(cs)))
			j := len(ps) - 1
			cs[k].AddProductions(ps[j])
			cw[k] = append(cw[k], cp(pw[j]))
		case 3: // make a collection of what another has
			k := len(cs) - 1
			var l []parlex.Production
			var w [][]string
			for it := cs[k].Iter(); it.Next(); {
				l = append(l, it.Production)
				w = append(w, cp(cw[k][it.Idx]))
			}
			cs = append(cs, set.Productions(l...))
			cw = append(cw, w)
		case 4: // and of a cast one
			k := len(cs) - 1
			other := setsymbol.New()
			var w [][]string
			for _, x := range cw[k] {
				w = append(w, cp(x))
			}
			cs = append(cs, set.CastProductions(other.CastProductions(cs[k])))
			cw = append(cw, w)
		}
	}
	for k, p := range ps {
		isProd(p, pw[k])
	}
	for k, c := range cs {
		isProds(c, cw[k])
	}
}

// HLoad: loading a grammar or lexemes puts in exactly their symbols.
func HLoad() {
	set := setsymbol.New()
	var m model
	for _, s := range strs("before", 0, 1) {
		set.Str(s)
		m.add(s)
	}
	g := ref.G{
		{"S", gen.RhsAny("s1", 0, 2)},
		{"A", gen.RhsAny("a1", 0, 1)},
	}
	set.LoadGrammar(g.Build())
	for _, r := range g {
		m.add(r.L)
		for _, s := range r.R {
			m.add(s)
		}
	}
	all(set, m)
	var lx []parlex.Lexeme
	var kinds, vals []string
	for n := sym.Fork(sym.Int("lexemes", 0, 2)); n > 0; n-- {
		kinds, vals = append(kinds, sym.Str("kind", 1, "")), append(vals, sym.Str("value", 1, ""))
		lx = append(lx, lexeme.New(stringsymbol.Symbol(kinds[len(kinds)-1])).Set(vals[len(vals)-1]).At(n, n+5))
	}
	out := set.LoadLexemes(lx)
	sym.Assert(len(out) == len(lx), "there are as many lexemes")
	for i, o := range out {
		k, ok := o.Kind().(*setsymbol.Symbol)
		sym.Assert(ok, "the kind is a symbol of the set")
		is(k, m.add(kinds[i]), kinds[i])
		l, c := o.Pos()
		wl, wc := lx[i].Pos()
		sym.Assert(o.Value() == vals[i] && l == wl && c == wc, "value and position are kept")
		sym.Assert(lx[i].Kind() == parlex.Symbol(stringsymbol.Symbol(kinds[i])), "the lexemes are not changed")
	}
	all(set, m)
}

// HBig: a set of many strings, with any string put in at any time.
func HBig() {
	set := setsymbol.New()
	var m model
	n := sym.Param("many", 300, 700)
	at := sym.Fork(sym.Int("at", 0, 8)) * n / 8
	word := func(i int) string { return "w" + strconv.Itoa(i*7%n) }
	var any []string
	for i := 0; i <= n; i++ {
		if i == at {
			s := "w" + sym.StrUpTo("name", 0, 2, "0129x")
			any = append(any, s)
			is(set.Str(s), m.add(s), s)
		}
		if i < n {
			is(set.Str(word(i)), m.add(word(i)), word(i))
		}
	}
	all(set, m)
	for _, s := range any {
		is(set.HasSymbol(own{s}), ref.Index(m, s), s)
	}
	i := sym.Int("index", math.MinInt64, math.MaxInt64)
	x := set.ByIdx(i)
	sym.Assert((x == nil) == (i < 0 || i >= len(m)), "there is no symbol for an index out of range")
	if x != nil {
		sym.Assert(x.Idx() == i, "the index is that of the string")
	}
	// long productions
	var w []string
	for i := 0; i < 40; i++ {
		w = append(w, word(i))
	}
	w = append(w, any...)
	p := set.CastProduction(prod(w))
	isProd(p, w)
	isProd(stringsymbol.CastProduction(p), w)
	var ps stringsymbol.Productions
	var pw [][]string
	for i := range w {
		ps = append(ps, prod(w[i/2:i]))
		pw = append(pw, w[i/2:i])
	}
	isProds(set.CastProductions(ps), pw)
	sym.Assert(set.Size() == len(m), "nothing was added")
}

// HHuge: very long strings, productions and collections.
func HHuge() {
	n := sym.Param("huge", 200, 500)
	set, other := setsymbol.New(), setsymbol.New()
	other.Str("zz")
	long := ""
	for i := 0; i < n; i++ {
		long += string(rune('a' + i*i%26))
	}
	var m model
	a, b := long+sym.Str("name", 1, ""), long+sym.Str("name", 1, "")
	is(set.Str(a), m.add(a), a)
	is(set.Symbol(own{b}), m.add(b), b)
	all(set, m)
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, []string{"x", a, "y" + strconv.Itoa(i%40), b}[i%4])
	}
	switch sym.Fork(sym.Choice("what", 2)) {
	case 0:
		p := set.CastProduction(prod(w))
		isProd(p, w)
		isProd(stringsymbol.CastProduction(p), w)
		isProd(other.CastProduction(p), w)
		var l []parlex.Symbol
		for _, s := range w {
			l = append(l, own{s})
		}
		isProd(set.Production(l...), w)
		q := set.Production()
		q.AddSymbols(l...)
		isProd(q, w)
		isProd(prod(w), w)
	case 1:
		var ps stringsymbol.Productions
		var pw [][]string
		for i := range w {
			ps = append(ps, prod(w[i:min(i+2, n)]))
			pw = append(pw, w[i:min(i+2, n)])
		}
		isProds(ps, pw)
		p := set.CastProductions(ps)
		isProds(p, pw)
		isProds(stringsymbol.CastProductions(p), pw)
		isProds(other.CastProductions(p), pw)
		var l []parlex.Production
		for _, x := range ps {
			l = append(l, x)
		}
		isProds(set.Productions(l...), pw)
		q := set.Productions()
		q.AddProductions(l...)
		isProds(q, pw)
	}
}
