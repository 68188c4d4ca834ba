// Package c13: reducing works bottom-up on a copy.
package c13

import (
	"math"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// post lists the nodes with a rule, children before parents.
func post(n *ref.Node, kinds []string, out []string) []string {
	for _, c := range n.C {
		out = post(c, kinds, out)
	}
	if ref.Index(kinds, n.Kind) >= 0 {
		out = append(out, n.Value)
	}
	return out
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// reduced checks a result against what it should be and the given tree
// against what it was.
func reduced(got parlex.ParseNode, want *ref.Node, given parlex.ParseNode, before *ref.Node) {
	sym.Assert(got != nil, "there is a result")
	g := ref.View(got)
	sym.Assert(g.SameAt(want), "the result is the reduced tree")
	sym.Assert(ref.Links(got, true) == "", "the parents in the result are right")
	sym.Assert(g.Distinct(), "no node of the result occurs twice")
	after := ref.View(given)
	sym.Assert(after.SameAt(before), "the given tree is unchanged")
	sym.Assert(sameNodes(after, before), "the given tree has the same nodes")
	sym.Assert(ref.Links(given, false) == "", "the parents in the given tree are unchanged")
	sym.Assert(apart(g, after), "the result shares no node with the given tree")
}

func sameNodes(a, b *ref.Node) bool {
	if a.From != b.From || len(a.C) != len(b.C) {
		return false
	}
	for i := range a.C {
		if !sameNodes(a.C[i], b.C[i]) {
			return false
		}
	}
	return true
}

func nodes(n *ref.Node, out []parlex.ParseNode) []parlex.ParseNode {
	out = append(out, n.From)
	for _, c := range n.C {
		out = nodes(c, out)
	}
	return out
}

func apart(a, b *ref.Node) bool {
	for _, x := range nodes(a, nil) {
		for _, y := range nodes(b, nil) {
			if x == y {
				return false
			}
		}
	}
	return true
}

// HOnce: the rule of each node is applied once, children before parents, to a
// node whose children are done; kinds are any bytes.
func HOnce() {
	t := &gen.T{Kind: gen.AnyKind}
	n := t.Any(sym.Param("once_children", 2, 3), 2)
	before := ref.View(n)
	sym.Detail(func() string { return "tree: " + before.String() })
	kinds := []string{sym.Str("rule", 1, ""), sym.Str("rule", 1, "")}
	sym.Assume(kinds[0] != kinds[1])
	var log []string
	r := tree.Reducer{}
	for _, k := range kinds {
		k := k
		r.Add(k, func(p *tree.PN) {
			sym.Assert(p.Kind().String() == k, "the rule is applied to its kind")
			v := p.Value()
			log = append(log, v)
			for _, c := range p.C {
				l, col := c.Pos()
				if ref.Index(kinds, c.Kind().String()) >= 0 {
					sym.Assert(l == 77, "children are reduced before")
				}
				_ = col
			}
			if lx, ok := p.Lexeme.(*lexeme.Lexeme); ok {
				lx.At(77, 1) // it is a copy
			} else {
				p.Lexeme = lexeme.New(p.Kind()).Set(v).At(77, 1)
			}
		})
	}
	got := r.Reduce(n)
	sym.Assert(sameList(log, post(before, kinds, nil)), "each node's rule is applied exactly once, children first")
	want := ref.View(n)
	var mark func(w *ref.Node)
	mark = func(w *ref.Node) {
		if ref.Index(kinds, w.Kind) >= 0 {
			w.Line, w.Col = 77, 1
		}
		for _, c := range w.C {
			mark(c)
		}
	}
	mark(want)
	reduced(got, want, n, before)
	sym.Assert(r.Can(n) == (ref.Index(kinds, n.Kind().String()) >= 0), "Can tells if there is a rule")
	if len(log) > 2 {
		sym.Cover("three rules applied")
	}
}

// HCopy: what has no rule is copied as it is, whatever its value and position.
func HCopy() {
	t := &gen.T{Kind: gen.AnyKind, Val: gen.AnyVal}
	n := t.Node(t.Leaf(), t.Leaf())
	before := ref.View(n)
	r := tree.Reducer{sym.Str("rule", 1, ""): func(p *tree.PN) {}}
	reduced(r.Reduce(n), before, n, before)
	reduced(r.Reduce(n.C[0]), before.C[0], n.C[0], before.C[0])
}

func some() ref.Step {
	idx := func() int { return sym.Int("index", math.MinInt64, math.MaxInt64) }
	switch sym.Choice("edit", 6) {
	case 0:
		return ref.Step{Op: "RemoveChild", I: []int{idx()}}
	case 1:
		return ref.Step{Op: "PromoteChild", I: []int{idx()}}
	case 2:
		return ref.Step{Op: "PromoteChildrenOf", I: []int{idx()}}
	case 3:
		return ref.Step{Op: "ReplaceWithChild", I: []int{idx()}}
	case 4:
		return ref.Step{Op: "PromoteGrandChildren"}
	}
	return ref.Step{Op: "PromoteChildValue", I: []int{idx()}}
}

// Reduction makes the reduction of a step.
func reduction(s ref.Step) tree.Reduction {
	switch s.Op {
	case "RemoveChild":
		return tree.RemoveChild(s.I[0])
	case "PromoteChild":
		return tree.PromoteChild(s.I[0])
	case "PromoteChildValue":
		return tree.PromoteChildValue(s.I[0])
	case "PromoteChildrenOf":
		return tree.PromoteChildrenOf(s.I[0])
	case "PromoteGrandChildren":
		return tree.PromoteGrandChildren
	}
	return tree.ReplaceWithChild(s.I[0])
}

// HEdits: rules that edit at several levels.
func HEdits() {
	t := &gen.T{Kind: func() string { return sym.Str("kind", 1, "abc"[:sym.Param("kinds", 2, 3)]) }}
	low := t.Node(t.Leaf(), t.Leaf())
	t.Kind = func() string { return sym.Str("kind", 1, "ab") }
	n := t.Node(t.Node(low), t.Leaf())
	before := ref.View(n)
	sym.Detail(func() string { return "tree: " + before.String() })
	e, f := some(), some()
	sym.Detail(func() string { return "edits: a " + e.Op + ", b " + f.Op })
	want := ref.View(n)
	want.Reduce([]string{"a", "b"}, [][]ref.Step{{e}, {f}})
	got := tree.Reducer{"a": reduction(e), "b": reduction(f)}.Reduce(n)
	reduced(got, want, n, before)
}

// HMerge: a merged reducer applies the first's rule and then the second's.
func HMerge() {
	sym.MapOrder(3)
	t := &gen.T{Kind: gen.AnyKind}
	n := t.Node(t.Leaf(), t.Leaf())
	before := ref.View(n)
	sym.Detail(func() string { return "tree: " + before.String() })
	mk := func(tag string, ks []string) tree.Reducer {
		r := tree.Reducer{}
		for _, k := range ks {
			r[k] = func(p *tree.PN) {
				p.Lexeme = lexeme.New(p.Kind()).Set(p.Value() + tag).At(p.Pos())
			}
		}
		return r
	}
	k1 := []string{sym.Str("first", 1, ""), sym.Str("first", 1, "")}
	var k2 []string
	switch sym.Fork(sym.Choice("how many", 4)) {
	case 0: // none
	case 1:
		k2 = append(k2, sym.Str("second", 1, ""))
	case 2:
		k2 = append(k2, sym.Str("second", 1, ""), sym.Str("second", 1, ""))
	case 3:
		k1, k2 = nil, append(k2, sym.Str("second", 1, ""))
	}
	r1, r2 := mk("1", k1), mk("2", k2)
	n1, n2 := len(r1), len(r2)
	r := tree.Merge(r1, r2)
	sym.Assert(len(r1) == n1 && len(r2) == n2, "the merged reducers are unchanged")
	want := ref.View(n)
	var mark func(w *ref.Node)
	mark = func(w *ref.Node) {
		in1, in2 := ref.Index(k1, w.Kind) >= 0, ref.Index(k2, w.Kind) >= 0
		if in1 {
			w.Value += "1"
		}
		if in2 {
			w.Value += "2"
		}
		if in1 && in2 {
			sym.Cover("both")
		}
		for _, c := range w.C {
			mark(c)
		}
	}
	mark(want)
	reduced(r.Reduce(n), want, n, before)
	r.Add("++", func(*tree.PN) {})
	sym.Assert(len(r1) == n1 && len(r2) == n2, "adding to the merged reducer does not change its parts")
	// the parts still work alone
	w1 := ref.View(n)
	var mark1 func(w *ref.Node)
	mark1 = func(w *ref.Node) {
		if ref.Index(k1, w.Kind) >= 0 {
			w.Value += "1"
		}
		for _, c := range w.C {
			mark1(c)
		}
	}
	mark1(w1)
	reduced(r1.Reduce(n), w1, n, before)
}

// HNil: nil reductions, in rules, chains, merges and conditionals.
func HNil() {
	tag := func(s string) tree.Reduction {
		if sym.Bool("nil") {
			return nil
		}
		return func(p *tree.PN) {
			p.Lexeme = lexeme.New(p.Kind()).Set(p.Value() + s).At(p.Pos())
		}
	}
	suffix := func(r tree.Reduction, s string) string {
		if r == nil {
			return ""
		}
		return s
	}
	n := (&gen.T{Kind: gen.Fixed}).Leaf()
	before := ref.View(n)
	want := ref.View(n)
	a, b := tag("1"), tag("2")
	var r tree.Reduction
	ran := 0
	cond := tree.Condition(func(p *tree.PN) bool {
		ran++
		return true
	})
	which := sym.Fork(sym.Choice("which", 6))
	switch which {
	case 0:
		r = tree.Chain(a, b)
		want.Value += suffix(a, "1") + suffix(b, "2")
		sym.Assert((r == nil) == (a == nil && b == nil), "a chain of nothing is nothing")
	case 1:
		r = tree.If(cond, a, b)
		want.Value += suffix(a, "1")
	case 2:
		r = tree.If(nil, a, b)
		want.Value += suffix(b, "2")
	case 3:
		r = tree.If(func(p *tree.PN) bool { return false }, a, b)
		want.Value += suffix(b, "2")
	case 4:
		c := tag("3")
		r = c.If(cond, a, b)
		want.Value += suffix(c, "3") + suffix(a, "1")
	case 5:
		sym.Assert(tree.Reducer{"k": a}.Can(n), "Can tells if there is a rule")
		rd := tree.Merge(tree.Reducer{"k": a}, tree.Reducer{"k": b})
		want.Value += suffix(a, "1") + suffix(b, "2")
		reduced(rd.Reduce(n), want, n, before)
		return
	}
	reduced(tree.Reducer{"k": r}.Reduce(n), want, n, before)
	if which == 1 || which == 4 {
		sym.Assert(ran == 1, "the condition is asked once")
	}
}

// HIf: conditional edits between other edits.
func HIf() {
	t := &gen.T{Kind: func() string { return sym.Str("kind", 1, "") }}
	n := t.Node(t.Leaf(), t.Leaf())
	i := sym.Int("index", math.MinInt64, math.MaxInt64)
	k := sym.Str("is", 1, "")
	before := ref.View(n)
	sym.Detail(func() string { return "tree: " + before.String() })
	st := []ref.Step{
		{Op: "PromoteChildValue", I: []int{0}},
		{Op: "If", I: []int{i}, S: []string{k}, Then: []ref.Step{{Op: "RemoveChild", I: []int{0}}}, Els: []ref.Step{{Op: "PromoteChild", I: []int{-1}}}},
	}
	r := tree.PromoteChildValue(0).If(tree.ChildIs(i, k), tree.RemoveChild(0), tree.PromoteChild(-1))
	want := ref.View(n)
	want.ApplyAll(st)
	got := tree.Clone(n)
	r(got)
	sym.Assert(ref.View(got).SameAt(want), "the parts run in order")
	if len(want.C) == 0 && want.Kind == before.Kind {
		sym.Cover("then")
	} else {
		sym.Cover("else")
	}
}

// other is a node type of its own.
type other struct {
	parlex.Lexeme
	p *other
	c []*other
}

func (o *other) Parent() parlex.ParseNode {
	if o.p == nil {
		return nil
	}
	return o.p
}
func (o *other) Children() int { return len(o.c) }
func (o *other) Child(i int) parlex.ParseNode {
	if i < 0 || i >= len(o.c) {
		return nil
	}
	return o.c[i]
}

// HOther: trees of any type of node, also parts of a tree.
func HOther() {
	mk := func(v string) *other {
		return &other{Lexeme: lexeme.New(stringsymbol.Symbol(sym.Str("kind", 1, "abc"))).Set(v).At(len(v), 3)}
	}
	add := func(p *other, cs ...*other) *other {
		for _, c := range cs {
			c.p = p
		}
		p.c = cs
		return p
	}
	part := add(mk("xx"), mk("yyy"), add(mk("zzzz"), mk("uuuuu")))
	whole := add(mk("r"), mk("s"), part)
	given := whole
	if sym.Bool("part") {
		given = part
	}
	before := ref.View(given)
	want := ref.View(given)
	want.Reduce([]string{"a", "b"}, [][]ref.Step{{{Op: "PromoteChildrenOf", I: []int{-1}}}, {{Op: "PromoteSingleChild"}}})
	r := tree.Reducer{"a": tree.PromoteChildrenOf(-1), "b": tree.PromoteSingleChild}
	got := r.Reduce(given)
	reduced(got, want, given, before)
	sym.Assert(r.Reduce(nil) == nil, "nothing reduces to nothing")
	sym.Assert(ref.View(r.RawReduce(given)).SameAt(want), "RawReduce gives the same")
	cl := tree.Clone(given)
	sym.Assert(ref.View(cl).SameAt(before), "Clone gives the same")
}

// HBig: a tall and a wide tree; each rule is applied once at each level, and
// the rest is copied. Any one node is of another kind.
func HBig() {
	var kinds []string
	t := &gen.T{}
	size := 0
	t.Kind = func() string {
		size++
		if len(kinds) > 0 {
			return kinds[size-1]
		}
		return "a"
	}
	shape := sym.Fork(sym.Choice("shape", 2))
	mk := func() *tree.PN {
		size = 0
		if shape == 0 {
			return t.Tall(sym.Param("tall", 9, 14))
		}
		return t.Wide(sym.Param("wide", 16, 24))
	}
	mk()
	for i := 0; i < size; i++ {
		kinds = append(kinds, []string{"a", "b", "c"}[(i/2)%3])
	}
	kinds[sym.Fork(sym.Int("which", 0, size-1))] = sym.Str("kind", 1, "abcd")
	n := mk()
	before := ref.View(n)
	sym.Detail(func() string { return "tree: " + before.String() })
	e := []ref.Step{{Op: "PromoteChildrenOf", I: []int{1}}}
	f := []ref.Step{{Op: "RemoveChild", I: []int{-1}}, {Op: "PromoteChildValue", I: []int{0}}}
	want := ref.View(n)
	want.Reduce([]string{"a", "b"}, [][]ref.Step{e, f})
	r := tree.Reducer{"a": tree.PromoteChildrenOf(1), "b": tree.RemoveChild(-1).PromoteChildValue(0)}
	reduced(r.Reduce(n), want, n, before)
}

// HHuge: a node with very many children, one of which is of another kind.
func HHuge() {
	w := sym.Param("children", 140, 300)
	at := []int{0, 1, w / 2, w - 2, w - 1}[sym.Fork(sym.Choice("at", 5))]
	kind := sym.Str("kind", 1, "abcd")
	var cs []*tree.PN
	t := &gen.T{Kind: func() string { return "b" }}
	for i := 0; i < w; i++ {
		c := t.Node(t.Leaf(), t.Leaf())
		if i == at {
			k := &gen.T{Kind: func() string { return kind }}
			c = k.Node(t.Leaf(), k.Leaf())
		}
		cs = append(cs, c)
	}
	z := &gen.T{Kind: func() string { return "z" }}
	n := z.Node(z.Node(cs...), t.Leaf())
	before := ref.View(n)
	e := []ref.Step{{Op: "PromoteChildrenOf", I: []int{1}}}
	f := []ref.Step{{Op: "RemoveChild", I: []int{-1}}, {Op: "PromoteChildValue", I: []int{0}}}
	want := ref.View(n)
	want.Reduce([]string{"a", "b"}, [][]ref.Step{e, f})
	r := tree.Reducer{"a": tree.PromoteChildrenOf(1), "b": tree.RemoveChild(-1).PromoteChildValue(0)}
	reduced(r.Reduce(n), want, n, before)
}
