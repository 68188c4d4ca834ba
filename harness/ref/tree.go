package ref

import "github.com/adamcolton/parlex"

// Node is a tree as seen through the parlex.ParseNode interface.
type Node struct {
	Kind, Value string
	Line, Col   int
	C           []*Node
	From        parlex.ParseNode
}

// View copies a tree.
func View(p parlex.ParseNode) *Node {
	l, c := p.Pos()
	n := &Node{Kind: p.Kind().String(), Value: p.Value(), Line: l, Col: c, From: p}
	for i := 0; i < p.Children(); i++ {
		n.C = append(n.C, View(p.Child(i)))
	}
	return n
}

// Links says what is wrong with the parents of a tree; "" if nothing.
func Links(p parlex.ParseNode, root bool) string {
	if root && p.Parent() != nil {
		return "the root has a parent"
	}
	for i := 0; i < p.Children(); i++ {
		c := p.Child(i)
		if c.Parent() != p {
			return "a node's parent is not the node that lists it"
		}
		if s := Links(c, false); s != "" {
			return s
		}
	}
	return ""
}

// Distinct says if no node occurs twice.
func (n *Node) Distinct() bool {
	seen := map[parlex.ParseNode]bool{}
	ok := true
	var walk func(n *Node)
	walk = func(n *Node) {
		ok = ok && !seen[n.From]
		seen[n.From] = true
		for _, c := range n.C {
			walk(c)
		}
	}
	walk(n)
	return ok
}

// Same compares kind, value and children.
func (n *Node) Same(m *Node) bool {
	if n.Kind != m.Kind || n.Value != m.Value || len(n.C) != len(m.C) {
		return false
	}
	for i := range n.C {
		if !n.C[i].Same(m.C[i]) {
			return false
		}
	}
	return true
}

// SameAt also compares positions.
func (n *Node) SameAt(m *Node) bool {
	if n.Kind != m.Kind || n.Value != m.Value || n.Line != m.Line || n.Col != m.Col || len(n.C) != len(m.C) {
		return false
	}
	for i := range n.C {
		if !n.C[i].SameAt(m.C[i]) {
			return false
		}
	}
	return true
}

// String prints a tree.
func (n *Node) String() string {
	s := n.Kind
	if n.Value != "" {
		s += ":" + n.Value
	}
	if len(n.C) > 0 {
		s += "{"
		for i, c := range n.C {
			if i > 0 {
				s += " "
			}
			s += c.String()
		}
		s += "}"
	}
	return s
}

// Der is a derivation tree laid over an input: rule is the index of the rule
// used (-1 for a terminal) and From, To the part of the input it covers.
type Der struct {
	Sym, Rule, From, To int
	C                   []*Der
}

// Derivation reads a tree as a derivation of the input; it returns what is
// wrong otherwise.
func (c *C) Derivation(n *Node, lxs []parlex.Lexeme) (*Der, string) {
	pos := 0
	bad := ""
	var walk func(n *Node) *Der
	walk = func(n *Node) *Der {
		s := Index(c.Syms, n.Kind)
		d := &Der{Sym: s, Rule: -1, From: pos}
		if s < 0 {
			bad = "a node is not a symbol of the grammar"
			return d
		}
		if s >= c.N {
			if len(n.C) > 0 {
				bad = "a terminal has children"
				return d
			}
			if pos >= len(lxs) {
				bad = "more leaves than lexemes"
				return d
			}
			lx := lxs[pos]
			if l, cl := lx.Pos(); n.Value != lx.Value() || n.Kind != lx.Kind().String() || n.Line != l || n.Col != cl {
				bad = "a leaf is not the lexeme of the input"
			}
			pos++
			d.To = pos
			return d
		}
		for _, ch := range n.C {
			cd := walk(ch)
			if bad != "" {
				return d
			}
			d.C = append(d.C, cd)
		}
		d.To = pos
		for _, r := range c.Rules[s] {
			if len(c.R[r]) != len(d.C) {
				continue
			}
			same := true
			for i, x := range c.R[r] {
				if d.C[i].Sym != x {
					same = false
				}
			}
			if same {
				d.Rule = r
				return d
			}
		}
		bad = "children are not a production"
		return d
	}
	d := walk(n)
	if bad != "" {
		return nil, bad
	}
	if d.Sym != 0 {
		return nil, "the root is not the start symbol"
	}
	if pos != len(lxs) {
		return nil, "fewer leaves than lexemes"
	}
	return d, ""
}

// Nullable computes which non-terminals derive the empty string.
func (c *C) Nullable() []bool {
	nl := make([]bool, len(c.Syms))
	for ch := true; ch; {
		ch = false
		for r, l := range c.L {
			all := true
			for _, s := range c.R[r] {
				all = all && nl[s]
			}
			if all && !nl[l] {
				nl[l] = true
				ch = true
			}
		}
	}
	return nl
}

// Closure is the transitive closure of a relation.
func Closure(m [][]bool) {
	for k := range m {
		for i := range m {
			if m[i][k] {
				for j := range m {
					if m[k][j] {
						m[i][j] = true
					}
				}
			}
		}
	}
}

func (c *C) matrix() [][]bool {
	m := make([][]bool, len(c.Syms))
	for i := range m {
		m[i] = make([]bool, len(c.Syms))
	}
	return m
}

// Cyclic says if some non-terminal derives itself in one or more steps.
func (c *C) Cyclic() bool {
	nl := c.Nullable()
	m := c.matrix()
	for r, l := range c.L {
		for i, s := range c.R[r] {
			rest := true
			for j, t := range c.R[r] {
				rest = rest && (i == j || nl[t])
			}
			if rest {
				m[l][s] = true
			}
		}
	}
	Closure(m)
	for i := 0; i < c.N; i++ {
		if m[i][i] {
			return true
		}
	}
	return false
}

// LeftRec says if some non-terminal derives a form that begins with itself.
func (c *C) LeftRec() bool {
	nl := c.Nullable()
	next := make([][]int, len(c.Syms))
	for r, l := range c.L {
		for _, s := range c.R[r] {
			if s < c.N {
				next[l] = append(next[l], s)
			}
			if !nl[s] {
				break
			}
		}
	}
	for i := 0; i < c.N; i++ {
		seen := make([]bool, c.N)
		todo := []int{i}
		for len(todo) > 0 {
			k := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			for _, s := range next[k] {
				if !seen[s] {
					seen[s] = true
					todo = append(todo, s)
				}
			}
		}
		if seen[i] {
			return true
		}
	}
	return false
}

// Productive says if every non-terminal derives some terminal string.
func (c *C) Productive() bool {
	p := make([]bool, c.N)
	for changed := true; changed; {
		changed = false
		for r, l := range c.L {
			if p[l] {
				continue
			}
			all := true
			for _, s := range c.R[r] {
				all = all && (s >= c.N || p[s])
			}
			if all {
				p[l], changed = true, true
			}
		}
	}
	for _, b := range p {
		if !b {
			return false
		}
	}
	return true
}

// Join joins with blanks.
func Join(l []string) string {
	s := ""
	for i, x := range l {
		if i > 0 {
			s += " "
		}
		s += x
	}
	return s
}
