package ref

// Step is one reduction as it is written in a reducer.
type Step struct {
	Op        string
	I         []int
	S         []string
	Cond      bool // for If: ChildIs(I[0], S[0])
	Then, Els []Step
}

// At converts an index that counts from the end if negative; -1 if out of
// range.
func At(i, n int) int {
	if i < 0 {
		if i < -n {
			return -1
		}
		return n + i
	}
	if i >= n {
		return -1
	}
	return i
}

func (n *Node) splice(i int, c []*Node) {
	var out []*Node
	out = append(out, n.C[:i]...)
	out = append(out, c...)
	out = append(out, n.C[i+1:]...)
	n.C = out
}

// Apply does what a step says to a node; it returns if there was something to
// do.
func (n *Node) Apply(s Step) bool {
	switch s.Op {
	case "RemoveChild":
		i := At(s.I[0], len(n.C))
		if i < 0 {
			return false
		}
		n.splice(i, nil)
	case "RemoveChildren":
		var out []*Node
		for k, c := range n.C {
			drop := false
			for _, i := range s.I {
				drop = drop || At(i, len(n.C)) == k
			}
			if !drop {
				out = append(out, c)
			}
		}
		n.C = out
	case "RemoveAll":
		var out []*Node
		for _, c := range n.C {
			if Index(s.S, c.Kind) < 0 {
				out = append(out, c)
			}
		}
		n.C = out
	case "PromoteSingleChild":
		if len(n.C) != 1 {
			return false
		}
		return n.Apply(Step{Op: "PromoteChild", I: []int{0}})
	case "PromoteChild":
		i := At(s.I[0], len(n.C))
		if i < 0 {
			return false
		}
		c := n.C[i]
		n.Kind, n.Value, n.Line, n.Col = c.Kind, c.Value, c.Line, c.Col
		n.splice(i, c.C)
	case "PromoteChildValue":
		i := At(s.I[0], len(n.C))
		if i < 0 {
			return false
		}
		c := n.C[i]
		n.Value, n.Line, n.Col = c.Value, c.Line, c.Col
		n.splice(i, nil)
	case "PromoteChildrenOf":
		i := At(s.I[0], len(n.C))
		if i < 0 {
			return false
		}
		n.splice(i, n.C[i].C)
	case "PromoteGrandChildren":
		var out []*Node
		for _, c := range n.C {
			out = append(out, c.C...)
		}
		n.C = out
	case "ReplaceWithChild":
		i := At(s.I[0], len(n.C))
		if i < 0 {
			return false
		}
		from := n.From
		*n = *n.C[i]
		n.From = from
	case "If":
		i := At(s.I[0], len(n.C))
		if i >= 0 && n.C[i].Kind == s.S[0] {
			n.ApplyAll(s.Then)
		} else {
			n.ApplyAll(s.Els)
		}
	case "Nil":
	default:
		panic("no such step: " + s.Op)
	}
	return true
}

// ApplyAll applies steps in order.
func (n *Node) ApplyAll(ss []Step) {
	for _, s := range ss {
		n.Apply(s)
	}
}

// Reduce applies the rules for the kinds of the nodes bottom-up.
func (n *Node) Reduce(kinds []string, rules [][]Step) {
	for _, c := range n.C {
		c.Reduce(kinds, rules)
	}
	for i, k := range kinds {
		if k == n.Kind {
			n.ApplyAll(rules[i])
			return
		}
	}
}

// Size counts nodes.
func (n *Node) Size() int {
	s := 1
	for _, c := range n.C {
		s += c.Size()
	}
	return s
}
