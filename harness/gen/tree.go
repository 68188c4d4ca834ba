package gen

import (
	"math"

	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// T makes trees; every node has its own value and position unless Val is set:
// then values come from it and positions are any integers.
type T struct {
	N    int
	Kind func() string
	Val  func() string
}

// Leaf is a node without children.
func (t *T) Leaf() *tree.PN {
	k := t.Kind()
	t.N++
	if t.Val != nil {
		line, col := sym.Int("line", math.MinInt64, math.MaxInt64), sym.Int("column", math.MinInt64, math.MaxInt64)
		return &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol(k)).Set(t.Val()).At(line, col)}
	}
	return &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol(k)).Set("v"+string(rune('0'+t.N))).At(t.N, 2*t.N+1)}
}

// Node is a node with the given children.
func (t *T) Node(c ...*tree.PN) *tree.PN {
	n := t.Leaf()
	for _, x := range c {
		x.P = n
		n.C = append(n.C, x)
	}
	return n
}

// Any is a node with up to w children, each with up to v children.
func (t *T) Any(w, v int) *tree.PN {
	k := sym.Fork(sym.Int("children", 0, w))
	var cs []*tree.PN
	for i := 0; i < k; i++ {
		var gs []*tree.PN
		if v > 0 {
			for j := sym.Fork(sym.Int("grandchildren", 0, v)); j > 0; j-- {
				gs = append(gs, t.Leaf())
			}
		}
		cs = append(cs, t.Node(gs...))
	}
	return t.Node(cs...)
}

// AnyKind is any one-byte name.
func AnyKind() string { return sym.Str("kind", 1, "") }

// Fixed is a kind that is the same for all nodes.
func Fixed() string { return "k" }

// AnyVal is any value of at most one byte.
func AnyVal() string { return sym.StrUpTo("value", 0, 1, "") }

// Wide is a node with n children; each third one has children itself.
func (t *T) Wide(n int) *tree.PN {
	var cs []*tree.PN
	for i := 0; i < n; i++ {
		var gs []*tree.PN
		if i%3 == 1 {
			k := i % 5
			if i == 10 {
				k = 12
			}
			for ; k > 0; k-- {
				gs = append(gs, t.Leaf())
			}
		}
		cs = append(cs, t.Node(gs...))
	}
	return t.Node(cs...)
}

// Tall is a chain of n nodes, each with a leaf before and after the next.
func (t *T) Tall(n int) *tree.PN {
	if n == 0 {
		return t.Leaf()
	}
	return t.Node(t.Leaf(), t.Tall(n-1), t.Leaf())
}
