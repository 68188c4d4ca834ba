# Planted changes: S = [{id, property, needs, breaks, edits: [(file, old, new)], demo: Go}]
S = []
def s(id, property, needs, breaks, edits, demo):
    S.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
PR='parser/packrat/packrat.go'; TD='parser/topdown/topdown.go'; LX='lexer/simplelexer/lexer.go'; LC='lexer/simplelexer/construct.go'
SL='lexer/stacklexer/lex.go'; SC='lexer/stacklexer/construct.go'; GR='grammar/grammar.go'; RM='grammar/left_recursion.go'
NR='tree/node_reductions.go'; TR='tree/reducer.go'; CR='tree/chain_reductions.go'; PT='tree/parsetree.go'
RG='grammar/regexgram/regexgram.go'; RD='tree/reducer/reducer.go'; AN='analyze/analysis.go'; SS='symbol/setsymbol/set.go'
PX='parlex.go'; JS='examples/parlexjson/json.go'; MA='examples/parlexmath/math.go'; CA='examples/scalc/scalc.go'
LEX='''
func lexemes(kinds ...string) []parlex.Lexeme {
	var out []parlex.Lexeme
	for i, k := range kinds {
		out = append(out, lexeme.String(k).Set("v"+fmt.Sprint(i)).At(1, i+1))
	}
	return out
}
'''
TOK='''
func toks(ls []parlex.Lexeme) string {
	s := ""
	for _, l := range ls {
		line, col := l.Pos()
		s += fmt.Sprintf("%s:%q@%d:%d ", l.Kind(), l.Value(), line, col)
	}
	return strings.TrimSpace(s)
}
'''
s('packrat-partial-skip','C01','a grammar in which a symbol in the middle of its own production has a match that is found late',
  'packrat rejects inputs that the grammar derives: a waiting partial of the same symbol is not told about matches found later',
  [(PR,"""		for _, tp := range op.partials[td.treeMarker] {
			op.push(tp, td.treeKey)
		}
""","""		for _, tp := range op.partials[td.treeMarker] {
			if tp.treeMarker == td.treeMarker && len(tp.children) > 0 {
				continue
			}
			op.push(tp, td.treeKey)
		}
""")],LEX+'''
func main() {
	g, err := grammar.New("S -> N S S b\\n-> a\\n-> S a\\nN -> ")
	must(err)
	p := packrat.New(g)
	for _, in := range [][]string{{"a", "a", "b"}, {"a", "a", "a", "b"}, {"a", "a", "b", "a"}} {
		want(fmt.Sprint(in), p.Parse(lexemes(in...)) != nil)
	}
	g, err = grammar.New("S -> S S\\n-> a\\n-> ")
	must(err)
	want("aa", packrat.New(g).Parse(lexemes("a", "a")) != nil)
	g, err = grammar.New("S -> E S x\\n-> S y\\n-> z\\nE ->")
	must(err)
	p = packrat.New(g)
	want("z y x", p.Parse(lexemes("z", "y", "x")) != nil)
	want("z x y x", p.Parse(lexemes("z", "x", "y", "x")) != nil)
}
''')
s('packrat-circular-shallow','C02','a grammar with a cycle of unit productions of length three, and an input matched by it',
  'the check against cyclic derivations looks only two levels deep: building the tree does not terminate',
  [(PR,"""		if ck == root.treeKey || op.createsCircularDep(op.memo[ck], root) {
			return true
		}
""","""		if ck == root.treeKey {
			return true
		}
		for _, gck := range op.memo[ck].children {
			if gck == root.treeKey {
				return true
			}
		}
""")],LEX+'''
func main() {
	g, err := grammar.New("S -> A\\n-> a\\nA -> B\\n-> a\\nB -> C\\n-> a\\nC -> S\\n-> a")
	must(err)
	t := packrat.New(g).Parse(lexemes("a"))
	want("a is derived", t != nil)
	n := 0
	for x := t; x.Children() > 0; x = x.Child(0) {
		n++
		want("the tree is finite", n < 100)
	}
}
''')
s('packrat-position','C02','a non-terminal with several children that start at different positions',
  'an interior node reports the position of its last child',
  [(PR,"""		lx.L, lx.C = pn.C[0].Pos()""","""		lx.L, lx.C = pn.C[len(pn.C)-1].Pos()""")],LEX+'''
func main() {
	g, err := grammar.New("S -> a b c")
	must(err)
	t := packrat.New(g).Parse(lexemes("a", "b", "c"))
	l, c := t.Pos()
	want("the node starts where its first lexeme does", l == 1 && c == 1)
}
''')
s('leftrec-unit-chain','C04','left recursion that goes through a symbol whose only production is a single symbol',
  'a symbol with a single unit production is marked as checked before its production is, so left recursion through it is not seen',
  [('leftrecursion.go',"""	op.stack[s.String()] = true

	for i := prods""","""	op.stack[s.String()] = true
	if prods.Productions() == 1 && prods.Production(0).Symbols() == 1 {
		op.checked[s.String()] = true
	}

	for i := prods""")],'''
func main() {
	for _, s := range []string{"A -> B\\nB -> A x\\n-> y", "S -> a A\\nA -> B\\nB -> C b\\n-> b\\nC -> A", "E -> T\\nT -> E"} {
		g, err := grammar.New(s)
		must(err)
		want(s, parlex.IsLeftRecursive(g))
		p, err := topdown.New(g)
		want("top down is refused: "+s, err == topdown.ErrLeftRecursion && p == nil)
	}
	g, err := grammar.New("A -> B\\nB -> C x\\nC -> y A\\n->")
	must(err)
	want("not left recursive", !parlex.IsLeftRecursive(g))
}
''')
s('topdown-one-nt','C04','a grammar with a single non-terminal that is left recursive',
  'the top-down parser is made for it and recurses without end',
  [(TD,"""	if parlex.IsLeftRecursive(grmr) {""","""	if len(grmr.NonTerminals()) > 1 && parlex.IsLeftRecursive(grmr) {""")],'''
func main() {
	g, err := grammar.New("E -> E op E\\n-> n")
	must(err)
	_, err = topdown.New(g)
	want("left recursion is refused", err == topdown.ErrLeftRecursion)
}
''')
s('topdown-longest','C05','a symbol with an earlier production that matches less and a later one that matches at least two lexemes more',
  'the top-down parser takes the later, longer production instead of the first that matches',
  [(TD,"""		accepts := op.acceptProd(key, i.Production)
		if accepts != nil && (!all || accepts.end == len(op.lxs)) {
			return accepts
		}
	}

	return nil
""","""		accepts := op.acceptProd(key, i.Production)
		if accepts == nil {
			continue
		}
		if all && accepts.end == len(op.lxs) {
			return accepts
		}
		if !all && (best == nil || accepts.end > best.end+1) {
			best = accepts
		}
	}

	return best
"""),(TD,"""	for i := productions.Iter(); i.Next(); {
		acc""","""	var best *acceptResp
	for i := productions.Iter(); i.Next(); {
		acc""")],LEX+'''
func main() {
	g, err := grammar.New("S -> A B\\nA -> x\\n-> x x x\\nB -> x B\\n->")
	must(err)
	p, err := topdown.New(g)
	must(err)
	t := p.Parse(lexemes("x", "x", "x", "x"))
	want("a tree", t != nil)
	want("A takes its first production", t.Child(0).Children() == 1)
}
''')
s('simplelexer-stale-next','C06','a rule whose pending match begins inside a longer match of another rule and ends behind it',
  'the pending match is not looked for again, so that a match of the rule which begins behind the longer one is not found',
  [(LX,"""loc != nil && loc[0] <= op.cur {""","""loc != nil && loc[1] <= op.cur {""")],TOK+'''
func main() {
	l, err := simplelexer.New("ab /ab/\\nbc /bc*/\\nc /cd/")
	must(err)
	got := toks(l.Lex("abccbc"))
	want(got, got == `ab:"ab"@0:1 Error:"cc"@0:3 bc:"bc"@0:5`)
	l, err = simplelexer.New("w /x+/\\nv /xy+x?/\\ny /y/")
	must(err)
	got = toks(l.Lex("xxyyxy"))
	want(got, got == `w:"xx"@0:1 y:"y"@0:3 y:"y"@0:4 v:"xy"@0:5`)
}
''')
s('simplelexer-error-run','C06','an error followed by discarded text',
  'the error lexeme takes the discarded text after it into its value',
  [(LX,"""			op.checkError()
			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {
				op.lxs""","""			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {
				op.checkError()
				op.lxs""")],TOK+'''
func main() {
	l, err := simplelexer.New("a /a/\\nspace /\\\\s+/ -")
	must(err)
	got := toks(l.Lex("?? a"))
	want(got, got == `Error:"??"@0:1 a:"a"@0:4`)
	got = toks(l.Lex("? ?"))
	want(got, got == `Error:"?"@0:1 Error:"?"@0:3`)
}
''')
s('stacklexer-pop-levels','C07','a rule that pops two levels, and then another pop',
  'popping several levels goes to the right sub-lexer but leaves the levels in between on the stack',
  [(SL,"""	op.stack = op.stack[:ln]
""","""	op.stack = op.stack[:len(op.stack)-1]
""")],TOK+'''
func main() {
	l := stacklexer.Must(`
== M ==
  o /</ N
  m /x/
== N ==
  o /</ O
  c />/ ^
  n /x/
== O ==
  o /</ P
  c />/ ^
  q /x/
== P ==
  c />/ ^^
  p /x/
`)
	got := toks(l.Lex("<<<x>x>x"))
	want(got, got == `o:"<"@1:1 o:"<"@1:2 o:"<"@1:3 p:"x"@1:4 c:">"@1:5 n:"x"@1:6 c:">"@1:7 m:"x"@1:8`)
}
''')
s('stacklexer-push-self','C07','a rule that pushes the sub-lexer it is in, and pops that count on it',
  'pushing the current sub-lexer again is ignored, so that the matching pop leaves one level too many',
  [(SL,"""		} else if r != nil && r.push != "" {""","""		} else if r != nil && r.push != "" && r.push != op.name {""")],TOK+'''
func main() {
	l := stacklexer.Must(`
== M ==
  open /\\(/ P
  a /a/
== P ==
  open /\\(/ P
  close /\\)/ ^
  p /a/
`)
	got := toks(l.Lex("((a)a)a"))
	want(got, got == `open:"("@1:1 open:"("@1:2 p:"a"@1:3 close:")"@1:4 p:"a"@1:5 close:")"@1:6 a:"a"@1:7`)
}
''')
s('stacklexer-inherit-override','C08','a sub-lexer that defines a kind which it also inherits, the inheritance coming after',
  'the inherited rule replaces the sub-lexer\'s own rule',
  [(SC,"""	if sl.rules[r.kind] != nil {
		return
	}
""","""	if old := sl.rules[r.kind]; old != nil {
		r.priority = old.priority
		*old = r
		return
	}
""")],TOK+'''
func main() {
	l := stacklexer.Must(`
== M ==
  w /[a-z]/
  B
== B ==
  w /[0-9]/
  s /!/
`)
	got := toks(l.Lex("a!"))
	want(got, got == `w:"a"@1:1 s:"!"@1:2`)
}
''')
s('stacklexer-short-last','C08','a last sub-lexer whose whole definition is a single character',
  'the definition of the last sub-lexer is dropped if it is one character long',
  [(SC,"""		if cur.idx != -1 {
			subLexerDefs[cur.name] = definition[cur.idx:]
		}
	}
""","""		if cur.idx != -1 && cur.idx < len(definition)-1 {
			subLexerDefs[cur.name] = definition[cur.idx:]
		}
	}
""")],TOK+'''
func main() {
	l := stacklexer.Must("== M ==\\no /</ N\\n== N ==\\nx")
	got := toks(l.Lex("<x<x"))
	want(got, got == `o:"<"@1:1 x:"x"@1:2 o:"<"@1:3 x:"x"@1:4`)
}
''')
s('grammar-three-arrows','C10','a line with two arrows, such as two rules that were joined by mistake',
  'a line with exactly two arrows is skipped instead of being an error',
  [(GR,'''	} else if l > 2 {''','''	} else if l > 3 {''')],LEX+'''
func main() {
	for _, s := range []string{"S -> a -> b", "S -> a\\n-> b -> c", "S -> a\\nT -> -> b"} {
		_, err := grammar.New(s)
		want(s, err != nil)
	}
	g, err := grammar.New("S -> a\\n-> b")
	must(err)
	want("b", packrat.New(g).Parse(lexemes("b")) != nil)
}
''')
s('remove-leftrec-tail','C11','a directly left recursive production with a single symbol after the recursion, and an input that repeats it',
  'the repetition of a one-symbol tail is lost: the new grammar derives at most one of them',
  [(RM,"""			if prod.Symbols() > 0 {
				prod.AddSymbols(newSym)
				op.directAdd(newSym, prod)
			}
""","""			if prod.Symbols() > 1 {
				prod.AddSymbols(newSym)
				op.directAdd(newSym, prod)
			} else if prod.Symbols() == 1 {
				op.directAdd(newSym, prod)
			}
""")],LEX+'''
func main() {
	g, err := grammar.New("S -> S a\\n-> b")
	must(err)
	r := grammar.RemoveLeftRecursion(g)
	want("not left recursive", !parlex.IsLeftRecursive(r))
	for n := 0; n < 4; n++ {
		in := []string{"b"}
		for i := 0; i < n; i++ {
			in = append(in, "a")
		}
		want(fmt.Sprint(in), packrat.New(r).Parse(lexemes(in...)) != nil)
	}
}
''')
s('tree-index-clamp','C12','a negative child index beyond the first child',
  'an index that is out of bounds below stands for the first child instead of for none',
  [(NR,"""		cIdx = l + cIdx
	}
	return cIdx, l, cIdx >= 0 && cIdx < l""","""		cIdx = l + cIdx
		if cIdx < 0 {
			cIdx = 0
		}
	}
	return cIdx, l, cIdx < l""")],'''
func main() {
	n, err := tree.New("a {\\n b\\n c\\n}")
	must(err)
	n.RemoveChild(-3)
	want("nothing is removed", n.Children() == 2)
	want("no such child", n.Child(-3) == nil)
}
''')
s('tree-promote-alias','C12','promoting a child that has several children and siblings after it, in a node with room for more children',
  'siblings after the promoted children are overwritten through a shared array',
  [(NR,"""	if cIdx+1 < l {
		tail = append(tail, p.C[cIdx+1:]...)
	}
	p.C = append(p.C[0:cIdx], tail...)""","""	rest := p.C[cIdx+1 : l]
	p.C = append(append(p.C[:cIdx], tail...), rest...)""")],'''
func main() {
	n, err := tree.New("r {\\n a {\\n b\\n c\\n }\\n d\\n e\\n f\\n}")
	must(err)
	n.C = append(make([]*tree.PN, 0, 16), n.C...)
	n.PromoteChild(0)
	s := ""
	for _, c := range n.C {
		s += c.Kind().String()
	}
	want(s, s == "bcdef")
}
''')
s('merge-in-place','C13','a reducer that is used after it was merged with another',
  'Merge writes the merged rules into the first reducer',
  [(TR,"""	merged := Reducer{}
	for symbol, r2fn := range r2 {
		if r1fn, found := r1[symbol]; !found {
			merged[symbol] = r2fn
		} else {
			merged[symbol] = Chain(r1fn, r2fn)
		}
	}
	for symbol, r1fn := range r1 {
		if _, found := merged[symbol]; !found {
			merged[symbol] = r1fn
		}
	}
	return merged""","""	if len(r1) == 0 {
		return r2
	}
	merged := r1
	for symbol, r2fn := range r2 {
		merged[symbol] = Chain(r1[symbol], r2fn)
	}
	return merged""")],'''
func main() {
	a := tree.Reducer{"r": tree.RemoveChild(0)}
	b := tree.Reducer{"r": tree.RemoveChild(0)}
	_ = tree.Merge(a, b)
	n, err := tree.New("r {\\n b\\n c\\n d\\n}")
	must(err)
	want("the first reducer is as before", a.Reduce(n).Children() == 2)
	want("merged", tree.Merge(a, b).Reduce(n).Children() == 1)
	want("merged again", tree.Merge(a, b).Reduce(n).Children() == 1)
}
''')
s('reduce-shares-leaf','C13','a tree with a leaf for which there is no rule, reduced',
  'leaves without a rule are not copied: they are in both trees and their parent in the given tree changes',
  [(TR,"""	cp := &PN{
		Lexeme: lexeme.Copy(node),""","""	if pn, ok := node.(*PN); ok && len(pn.C) == 0 && r[pn.Kind().String()] == nil {
		return pn
	}
	cp := &PN{
		Lexeme: lexeme.Copy(node),""")],'''
func main() {
	n, err := tree.New("r {\\n b\\n c\\n}")
	must(err)
	r := tree.Reducer{}.Reduce(n)
	want("the same shape", r.Children() == 2)
	want("parents in the given tree", n.C[0].P == n && n.C[1].P == n)
	want("parents in the result", r.Child(0).Parent() == r)
}
''')
s('conditional-after-chain','C13','a conditional in a chain behind a reduction that changes what the condition asks about',
  'the condition is asked before the reductions in front of it have run',
  [(CR,"""	return Chain(r, If(condition, then, otherwise))""","""	return If(condition, Chain(r, then), Chain(r, otherwise))""")],'''
func main() {
	r := tree.Reducer{"r": tree.RemoveChild(0).If(tree.ChildIs(0, "b"), tree.RemoveChild(0), nil)}
	n, err := tree.New("r {\\n a\\n b\\n c\\n}")
	must(err)
	t := r.Reduce(n)
	want("b is the first child when it is asked", t.Children() == 1 && t.Child(0).Kind().String() == "c")
}
''')
s('clone-shares-lexeme','C14','a clone of which a leaf\'s lexeme is changed',
  'the leaves of a clone share their lexeme with the original',
  [(PT,"""		C:      make([]*PN, node.Children()),
	}
	for i""","""		C:      make([]*PN, node.Children()),
	}
	if src, ok := node.(*PN); ok && len(src.C) == 0 {
		pn.Lexeme = src.Lexeme
	}
	for i""")],'''
func main() {
	n, err := tree.New("r {\\n a: \\"x\\"\\n}")
	must(err)
	c := tree.Clone(n)
	if l, ok := c.C[0].Lexeme.(*lexeme.Lexeme); ok {
		l.Set("y")
	}
	want("the original keeps its value", n.C[0].Value() == "x")
}
''')
s('regexgram-repeat-shared','C15','the same repetition in two non-terminals, the second of which is in a tree that is reduced',
  'only the first non-terminal gets the rule that removes the helper nodes',
  [(RG,"""	op.bludgeons[op.nonterm] = append(op.bludgeons[op.nonterm], symName)
	if rs, ok := op.done[symName]; ok {
		return rs
	}
""","""	if rs, ok := op.done[symName]; ok {
		return rs
	}
	op.bludgeons[op.nonterm] = append(op.bludgeons[op.nonterm], symName)
""")],LEX+'''
func main() {
	g, r, err := regexgram.New("S -> a* V\\nV -> b a*")
	must(err)
	t := r.Reduce(packrat.New(g).Parse(lexemes("a", "b", "a", "a")))
	want("S has a and V", t.Children() == 2)
	v := t.Child(1)
	want("V has b, a and a", v.Children() == 3 && v.Child(2).Kind().String() == "a")
}
''')
s('reducer-text-then','C16','a conditional whose first branch is a chain of several reductions',
  'only the first reduction of the branch is applied',
  [(RD,"""			t := evalReduction(n.C[1].C...)""","""			t := evalReduction(n.C[1].C[0])""")],'''
func main() {
	r, err := reducer.Parse(`r If(ChildIs(0,"a"), RemoveChild(0).RemoveChild(-1), Nil)`)
	must(err)
	n, err := tree.New("r {\\n a\\n b\\n c\\n}")
	must(err)
	want("both are removed", r.Reduce(n).Children() == 1)
}
''')
s('reducer-text-strings','C16','RemoveAll with three or more names',
  'a text with more than two names is rejected',
  [(RD,"""  VarStrArg    -> lp (string comma)* string rp""","""  VarStrArg    -> lp (string comma)? string rp""")],'''
func main() {
	r, err := reducer.Parse(`r RemoveAll("a", "b", "c")`)
	must(err)
	n, err := tree.New("r {\\n a\\n b\\n c\\n d\\n}")
	must(err)
	want("three are removed", r.Reduce(n).Children() == 1)
}
''')
s('analysis-unknown','C17','a question about a symbol that is not in the grammar',
  'a symbol that does not occur in the grammar is reported as its own first',
  [(AN,"""	f := a.set.HasSymbol(first)
	if f == nil {
		return false
	}""","""	f := a.set.HasSymbol(first)
	if f == nil {
		return symbol.String() == first.String()
	}""")],'''
func main() {
	g, err := grammar.New("S -> a S\\n-> b")
	must(err)
	a := analyze.Analyze(g)
	x := stringsymbol.Symbol("x")
	want("x is not in the grammar", !a.HasFirst(x, x))
	want("a is a first", a.HasFirst(stringsymbol.Symbol("S"), stringsymbol.Symbol("a")))
}
''')
s('set-foreign-symbol','C18','a symbol of another set that happens to have as many symbols',
  'the index of a symbol of another set of the same size is taken for an index of this one',
  [(SS,"""	if cast, ok := symbol.(*Symbol); ok && cast.set == s {
		return cast.val
	}""","""	if cast, ok := symbol.(*Symbol); ok && (cast.set == s || len(cast.set.symb2str) == len(s.symb2str)) {
		return cast.val
	}""")],'''
func main() {
	a, b := setsymbol.New(), setsymbol.New()
	a.Str("x")
	a.Str("y")
	b.Str("y")
	b.Str("z")
	want("y has the index it has in a", a.Idx(b.Str("y")) == 1)
	want("z is not in a", a.Idx(b.Str("z")) == -1)
}
''')
s('run-all-errors','C19','an input of which nothing but errors is lexed',
  'an input without any proper lexeme is parsed instead of being reported as a lex error',
  [(PX,"""	if len(errs) > 0 {
		return nil, errs[0]""","""	if len(errs) > 0 && len(errs) < len(lexemes) {
		return nil, errs[0]""")],'''
func main() {
	l, err := simplelexer.New("a /a/")
	must(err)
	g, err := grammar.New("S -> a")
	must(err)
	_, err = parlex.Run("???", l, packrat.New(g))
	_, ok := err.(parlex.LexError)
	want("a lex error", ok)
}
''')
s('packrat-last-tree','C20','two inputs of the same kinds and values at different positions, one after the other',
  'the second gets the tree of the first, with its positions',
  [(PR,"""type Packrat struct {
	parlex.Grammar
""","""type Packrat struct {
	parlex.Grammar
	last  string
	lastN *tree.PN
"""),(PR,"""	return accepted.toPN(op)
}
""","""	pn := accepted.toPN(op)
	p.last, p.lastN = key, pn
	return pn
}
"""),(PR,"""	nts := p.Grammar.NonTerminals()
	if len(nts) == 0 {""","""	key := parlex.LexemeString(lexemes...)
	if p.lastN != nil && key == p.last {
		return tree.Clone(p.lastN)
	}
	nts := p.Grammar.NonTerminals()
	if len(nts) == 0 {""")],'''
func main() {
	g, err := grammar.New("S -> a")
	must(err)
	p := packrat.New(g)
	p.Parse([]parlex.Lexeme{lexeme.String("a").Set("x").At(1, 1)})
	t := p.Parse([]parlex.Lexeme{lexeme.String("a").Set("x").At(7, 3)})
	l, c := t.Child(0).Pos()
	want("the position of the second input", l == 7 && c == 3)
}
''')
s('simplelexer-duplicate','C23','two rules for a kind of which one discards',
  'the second rule replaces the first instead of being an error',
  [(LC,"""		if l.rules[r.kind] != nil {""","""		if l.rules[r.kind] != nil && l.rules[r.kind].discard == r.discard {""")],'''
func main() {
	_, err := simplelexer.New("a /a/\\na /b/ -")
	want("an error", err != nil)
	l, err := simplelexer.New("a /a/")
	must(err)
	want("an error from Add", l.Add(stringsymbol.Symbol("a"), regexp.MustCompile("b"), true) != nil)
}
''')
TOGETHER='''
func together(f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; n < 50; n++ {
				f(i)
			}
		}(i)
	}
	wg.Wait()
}
'''
s('removechildren-sorts','C25','two reductions at the same time with one RemoveChildren whose indices are not in order',
  'RemoveChildren sorts the indices it is given in place, and a reduction shares them between all its uses',
  [(NR,"""package tree
""","""package tree

import "sort"
"""),(NR,"""	ln := len(p.C)
	drop := make([]bool, ln)
""","""	ln := len(p.C)
	sort.Ints(cIdxs)
	drop := make([]bool, ln)
""")],TOGETHER+'''
func main() {
	for i := 0; i < 20; i++ {
		n, err := tree.New("a {\\n b\\n c\\n d\\n}")
		must(err)
		r := tree.Reducer{"a": tree.RemoveChildren(2, 1, 0, -1)}
		together(func(int) { want("no children", r.RawReduce(n).Children() == 0) })
	}
}
''')
s('tree-print-buffer','C25','two trees printed at the same time, after one that was larger',
  'printing reuses one slice of segments for all trees',
  [(PT,"""	segs := make([]string, 0, p.sliceReq())
	return strings.Join(p.string("", segs), "")
""","""	if need := p.sliceReq(); cap(segs) < need {
		segs = make([]string, 0, need)
	}
	segs = p.string("", segs[:0])
	return strings.Join(segs, "")
"""),(PT,"""// sliceReq computes""","""var segs []string

// sliceReq computes""")],TOGETHER+'''
func main() {
	ts := []*tree.PN{}
	for _, s := range []string{"a {\\n\\tb\\n\\tc\\n}\\n", "d {\\n\\te: \\"x\\"\\n}\\n", "f\\n", "g {\\n\\th {\\n\\t\\ti\\n\\t}\\n}\\n"} {
		n, err := tree.New(s)
		must(err)
		ts = append(ts, n)
	}
	var strs []string
	for _, t := range ts {
		strs = append(strs, t.String())
	}
	together(func(i int) { want("the text of the tree", ts[i].String() == strs[i]) })
}
''')
s('topdown-shared-symbols','C25','two inputs parsed at the same time, one of them with a kind that the grammar does not have',
  'the symbols of the grammar are loaded once per parser, and each parse adds the kinds of its lexemes to them',
  [(TD,"""	parlex.Grammar
}

// ErrLeft""","""	parlex.Grammar
	set *setsymbol.Set
}

// ErrLeft"""),(TD,"""	return &Topdown{
		Grammar: grmr,
	}, nil
""","""	set := setsymbol.New()
	set.LoadGrammar(grmr)
	return &Topdown{
		Grammar: grmr,
		set:     set,
	}, nil
"""),(TD,"""	set := setsymbol.New()
	set.LoadGrammar(t.Grammar)
	op := &tdOp{""","""	set := t.set
	op := &tdOp{""")],TOGETHER+'''
func main() {
	for n := 0; n < 20; n++ {
		g, err := grammar.New("S -> a S\\n-> a")
		must(err)
		p, err := topdown.New(g)
		must(err)
		together(func(i int) {
			in := []parlex.Lexeme{lexeme.String("a").Set("x")}
			if i%2 == 1 {
				in = append(in, lexeme.String(fmt.Sprint("other", i)))
			}
			want("accepted if it is a", (p.Parse(in) != nil) == (i%2 == 0))
		})
	}
}
''')
