// Package c16: reducer text behaves like the composed reductions it names.
package c16

import (
	"strconv"

	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// num is a number as it is written and its value; the digits are symbolic.
func num() (string, int) {
	d := sym.Byte("digit", "0123456789")
	s, v := string([]byte{d}), int(d-'0')
	if sym.Bool("two digits") {
		e := sym.Byte("digit", "0123456789")
		s, v = s+string([]byte{e}), 10*v+int(e-'0')
	}
	if sym.Bool("minus") {
		s, v = "-"+s, -v
	}
	return s, v
}

// one is a number of one digit.
func one() (string, int) {
	d := sym.Byte("digit", "0123456789")
	s, v := string([]byte{d}), int(d-'0')
	if sym.Bool("minus") {
		s, v = "-"+s, -v
	}
	return s, v
}

// small is a number of few digits if there are several.
func small(num func() (string, int)) (string, int) {
	if anyStr {
		return one()
	}
	return num()
}

// few is one of a few numbers.
func few() (string, int) {
	s := []string{"1", "-1", "0", "-2", "2"}
	i := sym.Fork(sym.Choice("number", sym.Param("few", 2, 5)))
	return s[i], []int{1, -1, 0, -2, 2}[i]
}

// str is a string as it is written and its value: any byte that needs no
// escape.
func str() (string, string) {
	b := sym.Byte("string", "")
	sym.Assume(b != '"' && b != '\\' && b < 128)
	v := string([]byte{b})
	return `"` + v + `"`, v
}

var sp = ""
var anyStr = true

// fixed are kinds in turn.
func fixed(ks ...string) func() string {
	anyStr = false
	i := 0
	return func() string { i++; return ks[(i-1)%len(ks)] }
}

func args(l []string) string {
	t := "("
	for i, x := range l {
		if i > 0 {
			t += "," + sp
		}
		t += x
	}
	return t + sp + ")"
}

var plain = []string{"PromoteSingleChild", "PromoteGrandChildren", "Nil", "RemoveChild", "PromoteChild", "PromoteChildValue", "PromoteChildrenOf", "ReplaceWithChild", "RemoveChildren", "RemoveAll"}

// step is the k-th reduction with any arguments: its text and what it means.
func step(k int, num func() (string, int)) (string, ref.Step) {
	op := plain[k]
	s := ref.Step{Op: op}
	switch {
	case k < 2:
		return op + args(nil), s
	case k == 2:
		return op, s
	case k < 8:
		t, v := num()
		s.I = []int{v}
		return op + args([]string{t}), s
	case k == 8:
		var l []string
		for n := sym.Fork(sym.Int("numbers", 1, 2)); n > 0; n-- {
			t, v := small(num)
			l, s.I = append(l, t), append(s.I, v)
		}
		return op + args(l), s
	}
	var l []string
	for n := sym.Fork(sym.Int("strings", 1, 2)); n > 0; n-- {
		t, v := str()
		if !anyStr {
			v = []string{"a", "b"}[n-1]
			t = `"` + v + `"`
		}
		l, s.S = append(l, t), append(s.S, v)
	}
	return op + args(l), s
}

func anyStep(num func() (string, int)) (string, ref.Step) {
	return step(sym.Fork(sym.Choice("reduction", len(plain))), num)
}

// run parses the text and reduces the tree with it.
func run(txt string, n *tree.PN, kinds []string, rules [][]ref.Step) *ref.Node {
	before := ref.View(n)
	sym.Detail(func() string { return "reducer text: " + txt + "\ntree: " + before.String() })
	r, err := reducer.Parse(txt)
	sym.Assert(err == nil && r != nil, "the text is accepted")
	sym.Assert(len(r) == len(kinds), "there is one rule for each kind")
	want := ref.View(n)
	want.Reduce(kinds, rules)
	got := r.Reduce(n)
	sym.Assert(got != nil, "there is a result")
	sym.Assert(ref.View(got).SameAt(want), "the reducer does what the text says")
	sym.Assert(ref.Links(got, true) == "", "the parents in the result are right")
	sym.Assert(ref.View(n).SameAt(before), "the given tree is unchanged")
	return want
}

// top is a tree whose root alone has kind "k".
func top(t *gen.T, kids ...*tree.PN) *tree.PN {
	n := t.Node(kids...)
	t.Kind = func() string { return "k" }
	l := t.Leaf()
	n.Lexeme = l.Lexeme
	return n
}

// other is any kind of a child but the ones with a rule.
func other() string {
	b := sym.Byte("kind", "")
	sym.Assume(b != 'k' && b < 128)
	return string([]byte{b})
}

// HStep: a rule of one reduction with any arguments.
func HStep() {
	t := &gen.T{Kind: other}
	kids := []*tree.PN{}
	for i := sym.Fork(sym.Int("children", 0, sym.Param("children", 2, 4))); i > 0; i-- {
		kids = append(kids, t.Leaf())
	}
	if len(kids) > 1 {
		kids[1] = t.Node(t.Leaf(), t.Leaf())
	}
	n := top(t, kids...)
	x, s := anyStep(num)
	run("k "+x, n, []string{"k"}, [][]ref.Step{{s}})
}

// HChain: a rule of two or three reductions.
func HChain() {
	t := &gen.T{Kind: fixed("a", "b", "c")}
	n := top(t, t.Leaf(), t.Node(t.Leaf(), t.Leaf()), t.Leaf())
	x, s := anyStep(few)
	y, u := anyStep(few)
	txt := "k " + x + "." + y
	st := []ref.Step{s, u}
	if sym.Param("third", 0, 1) == 1 {
		z, v := step(3, few)
		txt += "." + z
		st = append(st, v)
	}
	run(txt, n, []string{"k"}, [][]ref.Step{st})
}

// HLong: four reductions.
func HLong() {
	t := &gen.T{Kind: fixed("a", "b", "c")}
	n := top(t, t.Leaf(), t.Node(t.Leaf(), t.Leaf()), t.Leaf(), t.Leaf())
	txt := "k "
	var st []ref.Step
	for i := 0; i < 4; i++ {
		k := 3
		if sym.Bool("other") {
			k = 6
		}
		x, s := step(k, few)
		if i > 0 {
			txt += "."
		}
		txt += x
		st = append(st, s)
	}
	run(txt, n, []string{"k"}, [][]ref.Step{st})
}

// branch is what a conditional does in one case.
func branch(d int) (string, []ref.Step) {
	switch k := sym.Fork(sym.Choice("branch", 3+min(d, 1))); k {
	case 0:
		return "Nil", nil
	case 1:
		x, s := step(3, few)
		return x, []ref.Step{s}
	case 2:
		x, s := step(4, few)
		y, u := step(5, few)
		return x + "." + y, []ref.Step{s, u}
	}
	x, s := cond(d - 1)
	return x, []ref.Step{s}
}

func cond(d int) (string, ref.Step) {
	c, i := few()
	k, kv := str()
	t, ts := branch(d)
	e, es := branch(d)
	return "If(ChildIs(" + c + ", " + k + "), " + t + ", " + e + ")", ref.Step{Op: "If", I: []int{i}, S: []string{kv}, Then: ts, Els: es}
}

// HIf: a conditional, alone or among others.
func HIf() {
	t := &gen.T{Kind: other}
	n := top(t, t.Leaf(), t.Node(t.Leaf()))
	x, s := cond(0)
	st := []ref.Step{s}
	switch sym.Fork(sym.Choice("where", 3)) {
	case 1:
		x = "RemoveChild(0)." + x
		st = []ref.Step{{Op: "RemoveChild", I: []int{0}}, s}
	case 2:
		x += ".RemoveChild(-1)"
		st = append(st, ref.Step{Op: "RemoveChild", I: []int{-1}})
	}
	run("k "+x, n, []string{"k"}, [][]ref.Step{st})
}

// HNested: conditionals in conditionals.
func HNested() {
	t := &gen.T{Kind: other}
	n := top(t, t.Leaf(), t.Leaf())
	c := func() (string, ref.Step) {
		i := sym.Fork(sym.Int("index", -1, 0))
		k, kv := str()
		is := []string{"-1", "0", "1"}[i+1]
		return "If(ChildIs(" + is + "," + k + ")", ref.Step{Op: "If", I: []int{i}, S: []string{kv}}
	}
	a, sa := c()
	b, sb := c()
	sb.Then = []ref.Step{{Op: "RemoveChild", I: []int{0}}}
	sb.Els = []ref.Step{{Op: "PromoteChildValue", I: []int{-1}}}
	b += ",RemoveChild(0),PromoteChildValue(-1))"
	rc := []ref.Step{{Op: "PromoteChild", I: []int{0}}}
	switch sym.Fork(sym.Choice("place", 3)) {
	case 0:
		sa.Then, sa.Els = []ref.Step{sb}, rc
		a += "," + b + ",PromoteChild(0))"
	case 1:
		sa.Then, sa.Els = rc, []ref.Step{sb}
		a += ",PromoteChild(0)," + b + ")"
	case 2:
		sa.Then, sa.Els = append(rc, sb), nil
		a += ",PromoteChild(0)." + b + ",Nil)"
	}
	run("k "+a, n, []string{"k"}, [][]ref.Step{{sa}})
}

// HRules: rules for several kinds, each any word of one byte.
func HRules() {
	word := func() string {
		b := sym.Byte("rule", "")
		sym.Assume(b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z')
		return string([]byte{b})
	}
	kinds := []string{word(), word()}
	sym.Assume(kinds[0] != kinds[1])
	t := &gen.T{Kind: func() string {
		b := sym.Byte("kind", "")
		sym.Assume(b < 128)
		return string([]byte{b})
	}}
	n := t.Node(t.Leaf(), t.Leaf())
	set := []int{3, 4, 2, 6}
	x, s := step(set[sym.Fork(sym.Choice("first", sym.Param("rules", 2, 4)))], func() (string, int) { return "0", 0 })
	y, u := step(set[sym.Fork(sym.Choice("second", 3))], func() (string, int) { return "-1", -1 })
	run(kinds[0]+" "+x+"\n"+kinds[1]+" "+y, n, kinds, [][]ref.Step{{s}, {u}})
}

// HMany: any number of arguments.
func HMany() {
	kinds := []string{"a", "b", "c", "d", "e", "f"}
	at := 0
	t := &gen.T{Kind: func() string { at++; return kinds[(at-1)%6] }}
	var cs []*tree.PN
	k := sym.Fork(sym.Int("arguments", 1, sym.Param("arguments", 5, 7)+2))
	many := k - sym.Param("arguments", 5, 7)
	kids := 6
	if many > 0 {
		k, kids = []int{11, 40}[many-1], 50
	}
	for i := 0; i < kids; i++ {
		cs = append(cs, t.Leaf())
	}
	n := top(t, cs...)
	var l []string
	if sym.Bool("strings") {
		s := ref.Step{Op: "RemoveAll"}
		for i := 0; i < k; i++ {
			x := "x" + strconv.Itoa(i)
			if j := k - i; many <= 0 {
				x = []string{"f", "b", "x", "a", "e", "bc", "d"}[j-1]
			} else if j < 4 {
				x = kinds[2*j-1]
			}
			l, s.S = append(l, `"`+x+`"`), append(s.S, x)
		}
		run("k RemoveAll"+args(l), n, []string{"k"}, [][]ref.Step{{s}})
		return
	}
	s := ref.Step{Op: "RemoveChildren"}
	for i := 0; i < k; i++ {
		x := i * 7 % 50
		if many <= 0 {
			x = []int{-1, 2, 10, 0, -3, 3, -12}[k-i-1]
		} else if i%2 == 1 {
			x = -x
		}
		l, s.I = append(l, strconv.Itoa(x)), append(s.I, x)
	}
	run("k RemoveChildren"+args(l), n, []string{"k"}, [][]ref.Step{{s}})
}

// HNames: kinds that look like the names of reductions or numbers.
func HNames() {
	names := []string{"If_", "Iff", "Nils", "Ni", "ChildI", "PromoteChildrenO", "RemoveAlll", "x9", "_", "RemoveChildrens", "nil", "é"[:0] + "a1b2", "Rule", "rule", "number", "Reduction"}
	k := names[sym.Fork(sym.Choice("name", len(names)))]
	t := &gen.T{Kind: func() string { return k }}
	n := t.Node(t.Leaf(), t.Leaf())
	run(k+" RemoveChild(0)", n, []string{k}, [][]ref.Step{{{Op: "RemoveChild", I: []int{0}}}})
}

// HSpace: white space and comments do not matter.
func HSpace() {
	seps := []string{" ", "\n", "\t", " // RemoveChild(0)\n", "\r\n"}
	gap := seps[sym.Fork(sym.Choice("gap", len(seps)))]
	sp = seps[sym.Fork(sym.Choice("in", len(seps)))]
	t := &gen.T{Kind: func() string { return sym.Str("kind", 1, "ab") }}
	n := t.Node(t.Leaf(), t.Node(t.Leaf(), t.Leaf()))
	txt := "a" + gap + "RemoveChildren" + sp + args([]string{"0", "-1"}) + sp + "." + sp + "PromoteSingleChild" + sp + args(nil) + gap + "b" + gap + "If(" + sp + `ChildIs(1,"b")` + sp + "," + sp + "PromoteChild(0)," + sp + "Nil)" + gap
	if sym.Bool("before") {
		txt = gap + txt
	}
	sp = ""
	txt += []string{"", "//", "// no line after this"}[sym.Fork(sym.Choice("end", 3))]
	run(txt, n, []string{"a", "b"}, [][]ref.Step{
		{{Op: "RemoveChildren", I: []int{0, -1}}, {Op: "PromoteSingleChild"}},
		{{Op: "If", I: []int{1}, S: []string{"b"}, Then: []ref.Step{{Op: "PromoteChild", I: []int{0}}}}}})
}

// HQuote: strings with any byte or escape are what they are in Go.
func HQuote() {
	esc := []string{`\"`, `\\`, `\n`, `\t`, `\x41`, `\u00e9`, `é`, `//`, `,`, `)`, ` `, ``}
	val := []string{"\"", "\\", "\n", "\t", "A", "é", "é", "//", ",", ")", " ", ""}
	i := sym.Fork(sym.Choice("escape", len(esc)))
	j := sym.Fork(sym.Choice("escape", len(esc)))
	kinds := []string{val[i] + val[j], esc[i] + esc[j], val[j], "x"}
	t := &gen.T{}
	at := 0
	t.Kind = func() string { at++; return kinds[(at-1)%len(kinds)] }
	n := top(t, t.Leaf(), t.Leaf(), t.Leaf(), t.Leaf())
	q := `"` + esc[i] + esc[j] + `"`
	v := val[i] + val[j]
	if sym.Bool("if") {
		run("k If(ChildIs(0,"+q+"),RemoveChild(-1),Nil)", n, []string{"k"}, [][]ref.Step{{{Op: "If", I: []int{0}, S: []string{v}, Then: []ref.Step{{Op: "RemoveChild", I: []int{-1}}}}}})
	} else {
		run("k RemoveAll(\"y\","+q+")", n, []string{"k"}, [][]ref.Step{{{Op: "RemoveAll", S: []string{"y", v}}}})
	}
}

// tokens and the texts they are recognised by.

var toks = []string{"k", "If", "ChildIs", "RemoveChild", "RemoveChildren", "RemoveAll", "PromoteSingleChild", "Nil", "1", `"s"`, "(", ")", ",", "."}

// parser is a recogniser of reducer texts.
type parser struct {
	t []string
}

func (p *parser) is(x string) bool { return len(p.t) > 0 && p.t[0] == x }
func (p *parser) eat(xs ...string) bool {
	for _, x := range xs {
		if !p.is(x) {
			return false
		}
		p.t = p.t[1:]
	}
	return true
}

func (p *parser) chain() bool {
	for {
		if !p.reduction() {
			return false
		}
		if !p.is(".") {
			return true
		}
		p.t = p.t[1:]
	}
}

func (p *parser) list(x string) bool {
	if !p.eat("(", x) {
		return false
	}
	for p.is(",") {
		if !p.eat(",", x) {
			return false
		}
	}
	return p.eat(")")
}

func (p *parser) reduction() bool {
	if len(p.t) == 0 {
		return false
	}
	x := p.t[0]
	p.t = p.t[1:]
	switch x {
	case "Nil":
		return true
	case "PromoteSingleChild", "PromoteGrandChildren":
		return p.eat("(", ")")
	case "RemoveChild", "PromoteChild", "PromoteChildValue", "PromoteChildrenOf", "ReplaceWithChild":
		return p.eat("(", "1", ")")
	case "RemoveChildren":
		return p.list("1")
	case "RemoveAll":
		return p.list(`"s"`)
	case "If":
		return p.eat("(", "ChildIs", "(", "1", ",", `"s"`, ")", ",") && p.chain() && p.eat(",") && p.chain() && p.eat(")")
	}
	return false
}

func valid(t []string) bool {
	p := &parser{t}
	for len(p.t) > 0 {
		if !p.eat("k") || !p.chain() {
			return false
		}
	}
	return true
}

func text(t []string) string {
	s := ""
	for _, x := range t {
		s += x + " "
	}
	return s
}

func judged(t []string) {
	txt := text(t)
	sym.Detail(func() string { return "reducer text: " + txt })
	r, err := reducer.Parse(txt)
	if valid(t) {
		sym.Cover("well-formed")
		sym.Assert(err == nil && r != nil, "a well-formed text is accepted")
	} else {
		sym.Cover("malformed")
		sym.Assert(err != nil, "a malformed text is an error")
	}
}

// HMutated: a well-formed text in which one token is left out, put in or
// replaced.
func HMutated() {
	base := [][]string{
		{"k", "RemoveChild", "(", "1", ")", ".", "Nil"},
		{"k", "If", "(", "ChildIs", "(", "1", ",", `"s"`, ")", ",", "Nil", ",", "Nil", ")"},
		{"k", "RemoveChildren", "(", "1", ",", "1", ")"},
		{"k", "RemoveAll", "(", `"s"`, ",", `"s"`, ")"},
		{"k", "PromoteSingleChild", "(", ")", "k", "Nil"},
	}
	b := base[sym.Fork(sym.Choice("text", len(base)))]
	i := sym.Fork(sym.Choice("at", len(b)))
	var t []string
	t = append(t, b[:i]...)
	switch sym.Fork(sym.Choice("how", 3)) {
	case 0:
		t = append(t, b[i+1:]...)
	case 1:
		t = append(t, toks[sym.Fork(sym.Choice("token", len(toks)))])
		t = append(t, b[i+1:]...)
	case 2:
		t = append(t, toks[sym.Fork(sym.Choice("token", len(toks)))])
		t = append(t, b[i:]...)
	}
	judged(t)
}

// HTokens: any few tokens.
func HTokens() {
	var t []string
	for n := sym.Fork(sym.Int("tokens", 0, sym.Param("tokens", 2, 3))); n > 0; n-- {
		t = append(t, toks[sym.Fork(sym.Choice("token", len(toks)))])
	}
	judged(t)
}

// HBytes: any bytes where a number stands.
func HBytes() {
	b := sym.Str("bytes", sym.Fork(sym.Int("length", 0, sym.Param("bytes", 2, 3))), "")
	t := &gen.T{Kind: gen.Fixed}
	n := t.Node(t.Node(t.Leaf()), t.Leaf())
	n.Lexeme = t.Node().Lexeme
	sym.Detail(func() string { return "text: k RemoveChild(" + b + ")" })
	r, err := reducer.Parse("k RemoveChild(" + b + ")")
	// white space around one number
	i := 0
	space := func(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' }
	for i < len(b) && space(b[i]) {
		i++
	}
	j := i
	if j < len(b) && b[j] == '-' {
		j++
	}
	v, digits := 0, 0
	for j < len(b) && b[j] >= '0' && b[j] <= '9' {
		v = 10*v + int(b[j]-'0')
		j++
		digits++
	}
	neg := i < len(b) && b[i] == '-'
	for j < len(b) && space(b[j]) {
		j++
	}
	if digits > 0 && j == len(b) {
		sym.Cover("a number")
		sym.Assert(err == nil, "a number is accepted")
		if neg {
			v = -v
		}
		want := ref.View(n)
		want.Reduce([]string{"k"}, [][]ref.Step{{{Op: "RemoveChild", I: []int{v}}}})
		sym.Assert(ref.View(r.Reduce(n)).SameAt(want), "the number is the index")
	} else {
		sym.Assert(err != nil, "anything else is an error")
	}
}

// HDeepIf: conditionals in conditionals in conditionals, each in any of the
// two branches of the one around it.
func HDeepIf() {
	t := &gen.T{Kind: other}
	n := top(t, t.Leaf(), t.Leaf(), t.Leaf())
	x, s := "RemoveChild(1)", ref.Step{Op: "RemoveChild", I: []int{1}}
	for d := sym.Param("nested", 4, 6); d > 0; d-- {
		c := ref.Step{Op: "If", I: []int{d%4 - 2}, S: []string{sym.Str("is", 1, "abc")}}
		h := "If(ChildIs(" + strconv.Itoa(c.I[0]) + `,"` + c.S[0] + `"), `
		o := ref.Step{Op: "PromoteChildValue", I: []int{d % 3}}
		y := "PromoteChildValue(" + strconv.Itoa(o.I[0]) + ")"
		if sym.Bool("then") {
			c.Then, c.Els = []ref.Step{s}, []ref.Step{o}
			x = h + x + ", " + y + ")"
		} else {
			c.Then, c.Els = []ref.Step{o}, []ref.Step{s}
			x = h + y + ", " + x + ")"
		}
		s = c
	}
	run("k "+x, n, []string{"k"}, [][]ref.Step{{s}})
}

// HBig: many rules with long chains; one of the rules has one more reduction
// with any number anywhere in its chain.
func HBig() {
	kinds := []string{"k", "Expr", "Op", "a_long_name_of_a_kind", "x1", "Stmt", "b", "List", "Nothing", "z"}
	ops := []int{5, 3, 7, 6, 4, 5, 0, 1}
	which := sym.Fork(sym.Int("rule", 0, len(kinds)-1))
	at := 3 * sym.Fork(sym.Int("at", 0, 1))
	var rules [][]ref.Step
	txt := ""
	for i, k := range kinds {
		var st []ref.Step
		txt += k
		sep := " "
		for j := 0; j < 6; j++ {
			if i == which && j == at {
				x, v := one()
				txt += sep + "RemoveChild(" + x + ")"
				st = append(st, ref.Step{Op: "RemoveChild", I: []int{v}})
				sep = "."
			}
			num := (i+j)%5 - 2
			x, s := step(ops[(i*3+j)%len(ops)], func() (string, int) { return strconv.Itoa(num), num })
			txt += sep + x
			st = append(st, s)
			sep = "."
		}
		txt += "\n"
		rules = append(rules, st)
	}
	c := 0
	t := &gen.T{Kind: func() string { c++; return kinds[c*3%10] }}
	var kids []*tree.PN
	for i := 0; i < 6; i++ {
		kids = append(kids, t.Node(t.Leaf(), t.Node(t.Leaf(), t.Leaf()), t.Leaf()))
	}
	n := t.Node(kids...)
	n.Lexeme = (&gen.T{Kind: func() string { return kinds[which] }}).Leaf().Lexeme
	run(txt, n, kinds, rules)
}

// HNumbers: numbers of several digits with any sign and any leading zeros.
func HNumbers() {
	d := sym.Fork(sym.Int("digits", 1, sym.Param("digits", 3, 5)))
	s, v := "", 0
	for i := 0; i < d; i++ {
		b := sym.Byte("digit", "0123456789")
		s, v = s+string([]byte{b}), 10*v+int(b-'0')
	}
	if sym.Bool("minus") {
		s, v = "-"+s, -v
	}
	t := &gen.T{Kind: gen.Fixed}
	n := top(&gen.T{Kind: func() string { return "c" }}, t.Wide(12).C...)
	for _, c := range n.C {
		c.P = n
		c.Lexeme = (&gen.T{N: 5, Kind: func() string { return "c" }}).Leaf().Lexeme
	}
	run("k PromoteChildrenOf("+s+")", n, []string{"k"}, [][]ref.Step{{{Op: "PromoteChildrenOf", I: []int{v}}}})
}

// HHuge: very many rules, a very long chain, branches of many reductions and
// numbers beyond a hundred on a node with hundreds of children; the last
// number is any one.
func HHuge() {
	n := sym.Param("huge", 300, 600)
	t := &gen.T{Kind: func() string { return "c" }}
	var kids []*tree.PN
	for i := 0; i < n; i++ {
		if i%40 == 7 || i%40 == 30 {
			kids = append(kids, t.Node(t.Leaf(), t.Leaf()))
		} else {
			kids = append(kids, t.Leaf())
		}
	}
	root := top(t, kids...)
	kinds := []string{"k"}
	var rules [][]ref.Step
	var st []ref.Step
	txt := "k "
	last, v := "", 0
	for i := 0; i < 3; i++ {
		b := []byte("2731")[i]
		if i == 1 {
			b = sym.Byte("digit", "05789")
		}
		last, v = last+string([]byte{b}), 10*v+int(b-'0')
	}
	chain := func(m int, tail string) string {
		x := ""
		for i := 0; i < m; i++ {
			num := (i*53 + 150) % n
			if i%2 == 1 {
				num = -num
			}
			y, s := step([]int{3, 6, 5, 3}[i%4], func() (string, int) { return strconv.Itoa(num), num })
			x += y + "."
			st = append(st, s)
		}
		st = append(st, ref.Step{Op: tail, I: []int{v}})
		return x + tail + "(" + last + ")"
	}
	switch sym.Fork(sym.Choice("what", 4)) {
	case 0:
		txt += chain(sym.Param("chain", 40, 80), "RemoveChild")
	case 1:
		x := chain(sym.Param("branch", 20, 40), "PromoteChildValue")
		a := st
		st = nil
		y := chain(sym.Param("branch", 20, 40)+1, "ReplaceWithChild")
		b := st
		i := 150
		if sym.Bool("otherwise") {
			i = n + 10
		}
		txt += "If(ChildIs(" + strconv.Itoa(i) + ", \"c\"), " + x + ", " + y + ")"
		st = []ref.Step{{Op: "If", I: []int{i}, S: []string{"c"}, Then: a, Els: b}}
	case 2:
		txt += "RemoveChildren(-250, 131, 140, " + last + ")"
		st = []ref.Step{{Op: "RemoveChildren", I: []int{-250, 131, 140, v}}}
	case 3:
		txt += "PromoteChildrenOf(" + last + ")"
		st = []ref.Step{{Op: "PromoteChildrenOf", I: []int{v}}}
	}
	rules = append(rules, st)
	for i := 0; i < sym.Param("rules", 50, 100); i++ {
		k := "kind" + strconv.Itoa(i)
		txt += "\n" + k + " RemoveChild(0)"
		kinds, rules = append(kinds, k), append(rules, []ref.Step{{Op: "RemoveChild", I: []int{0}}})
	}
	l := root.C[n-1]
	l.Lexeme = (&gen.T{Kind: func() string { return kinds[len(kinds)-1] }}).Leaf().Lexeme
	l.C = nil
	x := t.Leaf()
	x.P = l
	l.C = append(l.C, x)
	run(txt, root, kinds, rules)
}
