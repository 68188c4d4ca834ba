// Package c12: tree edits do what their index says and nothing else.
package c12

import (
	"math"

	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// one any edit with any arguments.
func one(kinds string) ref.Step {
	idx := func() int { return sym.Int("index", math.MinInt64, math.MaxInt64) }
	switch sym.Choice("edit", 9) {
	case 0:
		return ref.Step{Op: "RemoveChild", I: []int{idx()}}
	case 1:
		s := ref.Step{Op: "RemoveChildren"}
		for n := sym.Fork(sym.Int("indices", 0, sym.Param("indices", 2, 3))); n > 0; n-- {
			s.I = append(s.I, idx())
		}
		return s
	case 2:
		s := ref.Step{Op: "RemoveAll"}
		for n := sym.Fork(sym.Int("kinds", 0, 2)); n > 0; n-- {
			s.S = append(s.S, sym.Str("remove", 1, kinds))
		}
		return s
	case 3:
		return ref.Step{Op: "PromoteSingleChild"}
	case 4:
		return ref.Step{Op: "PromoteChild", I: []int{idx()}}
	case 5:
		return ref.Step{Op: "PromoteChildValue", I: []int{idx()}}
	case 6:
		return ref.Step{Op: "PromoteChildrenOf", I: []int{idx()}}
	case 7:
		return ref.Step{Op: "PromoteGrandChildren"}
	}
	return ref.Step{Op: "ReplaceWithChild", I: []int{idx()}}
}

// method calls the node's method; done says if it reports that it did
// something.
func method(p *tree.PN, s ref.Step) (done, reports bool) {
	switch s.Op {
	case "RemoveChild":
		return p.RemoveChild(s.I[0]), true
	case "RemoveChildren":
		p.RemoveChildren(s.I...)
	case "RemoveAll":
		p.RemoveAll(s.S...)
	case "PromoteSingleChild":
		return p.PromoteSingleChild(), true
	case "PromoteChild":
		return p.PromoteChild(s.I[0]), true
	case "PromoteChildValue":
		p.PromoteChildValue(s.I[0])
	case "PromoteChildrenOf":
		return p.PromoteChildrenOf(s.I[0]), true
	case "PromoteGrandChildren":
		p.PromoteGrandChildren()
	case "ReplaceWithChild":
		return p.ReplaceWithChild(s.I[0]), true
	}
	return false, false
}

// reduction makes the reduction of the same name.
func reduction(s ref.Step) tree.Reduction {
	switch s.Op {
	case "RemoveChild":
		return tree.RemoveChild(s.I[0])
	case "RemoveChildren":
		return tree.RemoveChildren(s.I...)
	case "RemoveAll":
		return tree.RemoveAll(s.S...)
	case "PromoteSingleChild":
		return tree.PromoteSingleChild
	case "PromoteChild":
		return tree.PromoteChild(s.I[0])
	case "PromoteChildValue":
		return tree.PromoteChildValue(s.I[0])
	case "PromoteChildrenOf":
		return tree.PromoteChildrenOf(s.I[0])
	case "PromoteGrandChildren":
		return tree.PromoteGrandChildren
	}
	return tree.ReplaceWithChild(s.I[0])
}

// tied makes the chained reduction.
func tied(r tree.Reduction, s ref.Step) tree.Reduction {
	switch s.Op {
	case "RemoveChild":
		return r.RemoveChild(s.I[0])
	case "RemoveChildren":
		return r.RemoveChildren(s.I...)
	case "RemoveAll":
		return r.RemoveAll(s.S...)
	case "PromoteSingleChild":
		return r.PromoteSingleChild()
	case "PromoteChild":
		return r.PromoteChild(s.I[0])
	case "PromoteChildValue":
		return r.PromoteChildValue(s.I[0])
	case "PromoteChildrenOf":
		return r.PromoteChildrenOf(s.I[0])
	case "PromoteGrandChildren":
		return r.PromoteGrandChildren()
	}
	return r.ReplaceWithChild(s.I[0])
}

// scene is an edited node, possibly below a parent with other children.
type scene struct {
	root, node *tree.PN
	want, at   *ref.Node
}

func place(t *gen.T, node *tree.PN) *scene {
	s := &scene{root: node, node: node}
	if sym.Bool("below") {
		s.root = t.Node(t.Leaf(), node, t.Node(t.Leaf()))
	}
	s.want = ref.View(s.root)
	s.at = s.want
	if s.root != node {
		s.at = s.want.C[1]
	}
	sym.Detail(func() string { return "tree: " + ref.View(node).String() })
	return s
}

func (s *scene) check(msg string) {
	got := ref.View(s.root)
	sym.Assert(got.SameAt(s.want), msg+": the tree is as it should be")
	sym.Assert(ref.Links(s.root, true) == "", msg+": the parents are right")
	sym.Assert(got.Distinct(), msg+": no node occurs twice")
	if s.root != s.node {
		sym.Assert(s.root.C[1] == s.node, msg+": the edited node stays where it is")
	}
	sym.Assert(s.root.Size() == s.want.Size(), msg+": the size is the number of nodes")
}

func step(s *scene, e ref.Step, form int) {
	sym.Detail(func() string { return "edit: " + e.Op })
	wantDone := s.at.Apply(e)
	switch form {
	case 0:
		done, reports := method(s.node, e)
		if reports {
			sym.Assert(done == wantDone, e.Op+" reports if it did something")
		}
	case 1:
		reduction(e)(s.node)
	case 2:
		tied(nil, e)(s.node)
	}
	if wantDone {
		sym.Cover("done")
	}
	s.check(e.Op)
}

// HEdit: any edit of a node with children and grandchildren; indices are any
// integers.
func HEdit() {
	t := &gen.T{Kind: gen.Fixed}
	w := sym.Param("children", 3, 4)
	s := place(t, t.Any(w, sym.Param("grandchildren", 2, 2)))
	step(s, one("k"), sym.Fork(sym.Choice("form", 3)))
}

// HKinds: removing by kind; the kinds are any bytes.
func HKinds() {
	t := &gen.T{Kind: gen.AnyKind}
	k := sym.Fork(sym.Int("children", 0, sym.Param("kind_children", 3, 4)))
	var cs []*tree.PN
	for i := 0; i < k; i++ {
		cs = append(cs, t.Leaf())
	}
	s := place(&gen.T{N: 10, Kind: gen.Fixed}, t.Node(cs...))
	e := ref.Step{Op: "RemoveAll"}
	for n := sym.Fork(sym.Int("kinds", 0, 2)); n > 0; n-- {
		e.S = append(e.S, sym.Str("remove", 1, ""))
	}
	step(s, e, sym.Fork(sym.Choice("form", 3)))
}

// HSeq: edits one after another on the same node.
func HSeq() {
	t := &gen.T{Kind: gen.Fixed}
	s := place(t, t.Any(sym.Param("seq_children", 2, 3), sym.Param("seq_grandchildren", 1, 2)))
	for i := 0; i < 2; i++ {
		step(s, one("k"), 0)
	}
}

// HTied: a chain of two edits does one after the other.
func HTied() {
	t := &gen.T{Kind: gen.Fixed}
	s := place(t, t.Any(2, 1))
	a, b := one("k"), one("k")
	s.at.Apply(a)
	s.at.Apply(b)
	var r tree.Reduction
	if sym.Bool("function") {
		r = tree.Chain(reduction(a), reduction(b))
	} else {
		r = tied(tied(nil, a), b)
	}
	r(s.node)
	s.check("chain")
}

// HDeep: edits at several levels, so that children lists were edited before.
func HDeep() {
	t := &gen.T{Kind: gen.Fixed}
	c := t.Any(2, 1)
	node := t.Node(t.Leaf(), c, t.Leaf())
	s := place(t, node)
	low := s.at.C[1]
	e := one("k")
	low.Apply(e)
	method(c, e)
	s.check("inner " + e.Op)
	step(s, one("k"), 0)
}

// HVals: values and positions are anything; no edit depends on them.
func HVals() {
	t := &gen.T{Kind: gen.AnyKind, Val: gen.AnyVal}
	node := t.Any(sym.Param("val_children", 2, 2), sym.Param("val_grandchildren", 1, 2))
	s := place(t, node)
	step(s, one(""), 0)
}

// HAsk: the questions about children.
func HAsk() {
	t := &gen.T{Kind: gen.AnyKind, Val: func() string { return sym.Str("value", 1, "") }}
	k := sym.Fork(sym.Int("children", 0, sym.Param("ask_children", 3, 4)))
	var cs []*tree.PN
	for i := 0; i < k; i++ {
		cs = append(cs, t.Leaf())
	}
	n := t.Node(cs...)
	i := sym.Int("index", math.MinInt64, math.MaxInt64)
	kind := sym.Str("ask", 1, "")
	at := ref.At(i, k)
	c := n.Child(i)
	got, l, ok := n.GetIdx(i)
	sym.Assert(l == k && ok == (at >= 0), "GetIdx tells the number of children and if the index is in range")
	sym.Assert(n.Children() == k, "Children is the number of children")
	if at < 0 {
		sym.Assert(c == nil, "no child out of range")
		sym.Assert(!n.ChildIs(i, kind), "ChildIs is false out of range")
		sym.Assert(!n.ChildAt(i, kind), "ChildAt is false out of range")
		sym.Cover("out of range")
		return
	}
	sym.Assert(got == at, "GetIdx converts the index")
	sym.Assert(c == cs[at], "Child is the addressed child")
	is := cs[at].Kind().String() == kind
	sym.Assert(n.ChildIs(i, kind) == is, "ChildIs compares the kind")
	sym.Assert(tree.ChildIs(i, kind)(n) == is, "the condition ChildIs compares the kind")
	sym.Assert(n.ChildAt(i, "other", kind) == is, "ChildAt compares the kind")
	sym.Assert(!n.ChildAt(i), "ChildAt without kinds is false")
	if is {
		sym.Cover("kind")
	}
}

// HBig: any edit, with any indices, of a node with many children, some of
// which have children; a second edit follows.
func HBig() {
	t := &gen.T{Kind: gen.Fixed}
	s := place(t, t.Wide(sym.Fork(sym.Int("width", sym.Param("wide_from", 17, 15), 18))))
	step(s, one("k"), 0)
	if sym.Param("wide_again", 0, 1) == 1 {
		step(s, one("k"), 0)
	}
}

// HMany: many indices at once.
func HMany() {
	t := &gen.T{Kind: gen.Fixed}
	s := place(t, t.Wide(12))
	e := ref.Step{Op: "RemoveChildren", I: []int{1, -1, 3, 3, 99}}
	i := sym.Fork(sym.Int("at", 0, len(e.I)))
	e.I = append(append(append([]int{}, e.I[:i]...), sym.Int("index", math.MinInt64, math.MaxInt64)), e.I[i:]...)
	step(s, e, 0)
}

// HHuge: any edit of a node with very many children.
func HHuge() {
	t := &gen.T{}
	n := 0
	t.Kind = func() string { n++; return string(rune('k' + n%2)) }
	w := sym.Param("children", 140, 300)
	s := place(t, t.Wide(w))
	e := one("kl")
	for i := range e.I {
		ok := false
		for _, k := range []int{0, 1, 63, 64, 127, 128, w - 1, w, -1, -w, -w - 1} {
			ok = ok || e.I[i] == k
		}
		sym.Assume(ok)
	}
	step(s, e, 0)
}
