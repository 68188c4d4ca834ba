// Package c14: a printed tree reads back as the same tree.
package c14

import (
	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

func leaf(kind, value string) *tree.PN {
	return &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol(kind)).Set(value)}
}

func node(kind, value string, c ...*tree.PN) *tree.PN {
	n := leaf(kind, value)
	for _, x := range c {
		x.P = n
		n.C = append(n.C, x)
	}
	return n
}

func round(n *tree.PN) {
	want := ref.View(n)
	str := n.String()
	sym.Observe(str)
	sym.Detail(func() string { return "printed: " + str })
	got, err := tree.New(str)
	sym.Assert(err == nil && got != nil, "the printed tree is read")
	sym.Assert(ref.View(got).Same(want), "the printed tree reads back as the same")
	sym.Assert(ref.Links(got, true) == "", "the parents are right")
	sym.Assert(got.String() == str, "the tree read back prints the same")
	sym.Assert(ref.View(n).Same(want), "printing changes nothing")
}

// HValue: any bytes as value, of a leaf or of a node with children.
func HValue() {
	v := sym.StrUpTo("value", 0, sym.Param("value_len", 2, 3), "")
	if sym.Bool("inner") {
		round(node("a", v, leaf("b", "x"), leaf("c", "")))
	} else {
		round(node("a", "", leaf("b", v), leaf("c", "")))
	}
}

// HEscape: values full of what is special in the printed form.
func HEscape() {
	set := "\\\"n{}\n\t:x"
	v := sym.StrUpTo("value", 3, sym.Param("escape_len", 4, 5), set)
	round(node("a", "", leaf("b", v)))
}

// HKind: any kind without white space, quotes, colons and braces.
func HKind() {
	k := sym.StrUpTo("kind", 1, sym.Param("kind_len", 2, 3), "")
	for i := 0; i < len(k); i++ {
		b := k[i]
		sym.Assume(b > 32 && b < 127 && b != '"' && b != ':' && b != '{' && b != '}')
	}
	switch sym.Choice("form", 3) {
	case 0:
		round(leaf(k, ""))
	case 1:
		round(node(k, "v", leaf("b", "x")))
	case 2:
		round(node("a", "", leaf(k, "x"), leaf(k, "")))
	}
}

// HShape: any shape of three levels.
func HShape() {
	n := 0
	var mk func(d int) *tree.PN
	mk = func(d int) *tree.PN {
		n++
		v := ""
		if n%2 == 0 {
			v = "v" + string(rune('0'+n))
		}
		var cs []*tree.PN
		if d > 0 {
			for k := sym.Fork(sym.Int("children", 0, sym.Param("width", 2, 3))); k > 0; k-- {
				cs = append(cs, mk(d-1))
			}
		}
		return node("k"+string(rune('0'+d)), v, cs...)
	}
	t := mk(sym.Param("depth", 3, 3))
	round(t)
	if t.Size() > 6 {
		sym.Cover("seven nodes")
	}
}

func blank(b byte) bool { return b == ' ' || b == '\t' || b == '\f' || b == '\r' }

// read is the meaning of a tree text; nil if there is none.
func read(text string) *ref.Node {
	top := &ref.Node{}
	open := []*ref.Node{top}
	for more := true; more; {
		line := text
		more = false
		for i := 0; i < len(text); i++ {
			if text[i] == '\n' {
				line, text, more = text[:i], text[i+1:], true
				break
			}
		}
		i := 0
		ws := func() {
			for i < len(line) && blank(line[i]) {
				i++
			}
		}
		ws()
		if i < len(line) && line[i] == '}' {
			i++
			if len(open) < 2 {
				return nil
			}
			open = open[:len(open)-1]
			ws()
		}
		if i == len(line) {
			continue
		}
		st := i
		for i < len(line) && !blank(line[i]) && line[i] != '}' && line[i] != '{' && line[i] != ':' && line[i] != '"' {
			i++
		}
		if i == st {
			return nil
		}
		n := &ref.Node{Kind: line[st:i]}
		ws()
		if i < len(line) && line[i] == ':' {
			i++
			ws()
			if i == len(line) || line[i] != '"' {
				return nil
			}
			i++
			for {
				if i == len(line) {
					return nil
				}
				b := line[i]
				i++
				if b == '"' {
					break
				}
				if b == '\\' {
					if i == len(line) {
						return nil
					}
					b = line[i]
					i++
					switch b {
					case 'n':
						b = '\n'
					case '\\', '"':
					default:
						sym.Assume(false) // other escapes only as printed
					}
				}
				n.Value += string([]byte{b})
			}
			ws()
		}
		p := open[len(open)-1]
		p.C = append(p.C, n)
		if i < len(line) && line[i] == '{' {
			i++
			open = append(open, n)
		}
		if i != len(line) {
			return nil
		}
	}
	if len(open) != 1 || len(top.C) != 1 {
		return nil
	}
	return top.C[0]
}

func text(s string) {
	sym.Detail(func() string { return "text: " + s })
	want := read(s)
	got, err := tree.New(s)
	if want == nil {
		sym.Assert(err != nil, "text that is not one complete tree is an error")
		sym.Assert(got == nil, "no tree with an error")
		sym.Cover("error")
		return
	}
	sym.Assert(err == nil && got != nil, "tree text is read")
	sym.Observe(want.String())
	sym.Assert(ref.View(got).Same(want), "the tree is the one the text tells")
	sym.Assert(ref.Links(got, true) == "", "the parents are right")
	sym.Cover("tree")
}

// HText: any short text.
func HText() {
	s := sym.StrUpTo("text", 0, sym.Param("text_len", 4, 5), "")
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 128 && s[i] != '\v')
	}
	text(s)
}

// HTextTree: text over the characters that matter.
func HTextTree() {
	s := sym.StrUpTo("text", 4, sym.Param("tree_len", 6, 7), "a:\"{}\n ")
	text(s)
}

// HLines: lines of every form in any order.
func HLines() {
	lines := []string{"a {", "}", "b: \"v\"", "} c {", "", "d : \"x\" {", "a b", "} e"}
	s := ""
	for i := 0; i < sym.Param("lines", 4, 6); i++ {
		if i > 0 {
			s += "\n"
		}
		s += lines[sym.Fork(sym.Choice("line", len(lines)))]
	}
	text(s)
}

// HClone: a clone is equal, apart and has the right parents.
func HClone() {
	n := 0
	var mk func(d int) *tree.PN
	mk = func(d int) *tree.PN {
		n++
		p := leaf(sym.Str("kind", 1, ""), sym.Str("value", 1, ""))
		p.Lexeme = lexeme.Copy(p).At(sym.Int("line", -5, 1000), sym.Int("col", -5, 1000))
		if d > 0 {
			for k := sym.Fork(sym.Int("children", 0, 2)); k > 0; k-- {
				c := mk(d - 1)
				c.P = p
				p.C = append(p.C, c)
			}
		}
		return p
	}
	root := mk(2)
	given := root
	if len(root.C) > 1 && sym.Bool("part") {
		given = root.C[1]
	}
	want := ref.View(given)
	got := tree.Clone(given)
	g := ref.View(got)
	sym.Assert(g.SameAt(want), "the clone is equal")
	sym.Assert(ref.Links(got, true) == "", "the parents of the clone are right")
	sym.Assert(g.Distinct(), "no node occurs twice")
	sym.Assert(ref.View(given).SameAt(want), "the cloned tree is unchanged")
	sym.Assert(ref.Links(root, true) == "", "the parents of the cloned tree are unchanged")
	for _, a := range nodes(g, nil) {
		for _, b := range nodes(want, nil) {
			sym.Assert(a != b, "the clone shares no node")
		}
	}
	// changing the clone does not change the original
	for _, c := range got.C {
		c.RemoveChild(0)
		c.Lexeme.(*lexeme.Lexeme).Set("changed")
	}
	got.Lexeme.(*lexeme.Lexeme).Set("changed")
	got.RemoveChild(-1)
	sym.Assert(ref.View(given).SameAt(want), "changing the clone changes nothing else")
}

// HCloneBig: a clone of a tree with many children and many levels.
func HCloneBig() {
	n := sym.Param("many", 70, 300)
	root := leaf("r", "")
	deep := root
	for i := 0; i < n; i++ {
		c := leaf("k"+string(rune('a'+i%26)), "v")
		if i%5 == 0 {
			d := leaf("d", "w")
			d.P = c
			c.C = append(c.C, d)
		}
		c.P = root
		root.C = append(root.C, c)
		d := leaf("l", "")
		d.P = deep
		deep.C = append(deep.C, d)
		deep = d
	}
	root.C[sym.Fork(sym.Int("which", 0, n))].Lexeme.(*lexeme.Lexeme).Set(sym.Str("value", 1, ""))
	want := ref.View(root)
	got := tree.Clone(root)
	g := ref.View(got)
	sym.Assert(g.SameAt(want), "the clone is equal")
	sym.Assert(ref.Links(got, true) == "", "the parents of the clone are right")
	sym.Assert(g.Distinct(), "no node occurs twice")
	seen := map[parlex.ParseNode]bool{}
	for _, a := range nodes(want, nil) {
		seen[a] = true
	}
	for _, a := range nodes(g, nil) {
		sym.Assert(!seen[a], "the clone shares no node")
	}
	sym.Assert(ref.Links(root, true) == "", "the parents of the cloned tree are unchanged")
}

func nodes(n *ref.Node, out []parlex.ParseNode) []parlex.ParseNode {
	out = append(out, n.From)
	for _, c := range n.C {
		out = nodes(c, out)
	}
	return out
}

// HBig: a tall and wide tree with long values; one value has any byte at any
// place.
func HBig() {
	n, which := 0, sym.Fork(sym.Int("which", 0, sym.Param("which", 40, 60)))
	val := func(i int) string {
		v := ""
		if i%3 != 0 {
			for j := 0; j < i; j++ {
				v += string(rune('a' + (i+j)%26))
			}
		}
		if i == which {
			at := len(v) / 2
			v = v[:at] + sym.Str("value", 1, "") + v[at:]
		}
		return v
	}
	var mk func(d int) *tree.PN
	mk = func(d int) *tree.PN {
		n++
		v, k := val(n), "kind"
		for i := 0; i < n%12; i++ {
			k += "x"
		}
		var cs []*tree.PN
		if d > 0 {
			cs = append(cs, mk(d-1))
			if d == 4 {
				for i := 0; i < sym.Param("wide", 17, 33); i++ {
					cs = append(cs, mk(0))
				}
			}
			if d%3 == 2 {
				cs = append(cs, mk(1))
			}
		}
		return node(k, v, cs...)
	}
	round(mk(sym.Param("tall", 12, 20)))
}

// HDeepText: a deep text with any byte put in at any place.
func HDeepText() {
	s := "a {\n b: \"v\" {\n  c {\n   d {\n    e: \"x\" {\n     f {\n      g\n     }\n    }\n   }\n  }\n  h\n }\n}\n"
	i := sym.Fork(sym.Int("at", 0, len(s)))
	j := i
	if i < len(s) && sym.Bool("replaced") {
		j++
	}
	x := sym.StrUpTo("text", 0, 1, "")
	for i := 0; i < len(x); i++ {
		sym.Assume(x[i] < 128 && x[i] != '\v')
	}
	text(s[:i] + x + s[j:])
}

// HHuge: a very deep tree, a very wide one, a very long value and a very long
// kind, with any byte in a value at the far end.
func HHuge() {
	n := sym.Param("huge", 300, 1000)
	long := ""
	for i := 0; i < n; i++ {
		long += string(rune('a' + i*i%26))
		if i%50 == 49 {
			long += "\\\"\n{"
		}
	}
	v := sym.Str("value", 1, "")
	var t *tree.PN
	switch sym.Fork(sym.Choice("what", 4)) {
	case 0:
		t = node("last", v, leaf("x", ""), leaf("y", "w"))
		for i := 0; i < n; i++ {
			t = node("k", "", t)
			if i%10 == 0 {
				t = node("k", "v", leaf("x", ""), t, leaf("y", ""))
			}
		}
	case 1:
		t = node("k", "")
		for i := 0; i < n; i++ {
			c := leaf("c", long[i:i+1])
			c.P = t
			t.C = append(t.C, c)
		}
		t.C[n-1].Lexeme = lexeme.Copy(t.C[n-1]).Set(v)
	case 2:
		// what follows the byte has no quotes for a short match to end at
		t = node("k", "", leaf("c", long+v), leaf("d", ""))
	case 3:
		kind := ""
		for i := 0; i < n; i++ {
			kind += string(rune('a' + i*i%26))
		}
		t = node("k", "", leaf(kind+"1", v), leaf(kind+"2", ""))
	}
	sym.Assert(t.Size() == size(ref.View(t)), "the size is the number of nodes")
	round(t)
}

func size(n *ref.Node) int {
	k := 1
	for _, c := range n.C {
		k += size(c)
	}
	return k
}
