// Package c22: the calculators compute ordinary arithmetic.
package c22

import (
	"math"
	"strconv"

	"github.com/adamcolton/parlex/examples/parlexmath"
	"github.com/adamcolton/parlex/examples/scalc"
	"github.com/adamcolton/parlex/zzverif/sym"
)

func digit(c byte) bool { return c >= '0' && c <= '9' }

// calc evaluates infix expressions by recursive descent over characters.
type calc struct {
	s   string
	i   int
	bad bool
}

func (c *calc) peek() byte {
	for c.i < len(c.s) && (c.s[c.i] == ' ' || c.s[c.i] == '\n' || c.s[c.i] == '\t' || c.s[c.i] == '\r' || c.s[c.i] == '\f') {
		c.i++
	}
	if c.i >= len(c.s) {
		return 0
	}
	return c.s[c.i]
}

func (c *calc) number() float64 {
	c.peek()
	j := c.i
	for j < len(c.s) && digit(c.s[j]) {
		j++
	}
	if j+1 < len(c.s) && c.s[j] == '.' && digit(c.s[j+1]) {
		j++
		for j < len(c.s) && digit(c.s[j]) {
			j++
		}
	}
	if j == c.i {
		c.bad = true
		return 0
	}
	v, err := strconv.ParseFloat(c.s[c.i:j], 64)
	sym.Assert(err == nil, "a number is a number")
	c.i = j
	return v
}

func (c *calc) factor() float64 {
	switch c.peek() {
	case '-':
		c.i++
		return -c.number()
	case '+':
		c.i++
		return c.number()
	case '(':
		c.i++
		v := c.sum()
		if c.bad || c.peek() != ')' {
			c.bad = true
			return 0
		}
		c.i++
		return v
	}
	return c.number()
}

func (c *calc) product() float64 {
	v := c.factor()
	for !c.bad {
		switch c.peek() {
		case '*':
			c.i++
			v *= c.factor()
		case '/':
			c.i++
			v /= c.factor()
		default:
			return v
		}
	}
	return v
}

func (c *calc) sum() float64 {
	v := c.product()
	for !c.bad {
		switch c.peek() {
		case '+':
			c.i++
			v += c.product()
		case '-':
			c.i++
			v -= c.product()
		default:
			return v
		}
	}
	return v
}

func eq(a, b float64) bool { return a == b || a != a && b != b }

func infix(s string) bool {
	sym.Detail(func() string { return "expression: " + s })
	c := &calc{s: s}
	want := c.sum()
	c.peek()
	if c.i < len(c.s) {
		c.bad = true
	}
	got, err := parlexmath.Eval(s)
	sym.Assert((err == nil) == !c.bad, "exactly expressions have a value")
	if err != nil {
		return false
	}
	sym.Detail(func() string { return "value " + strconv.FormatFloat(got, 'g', -1, 64) })
	sym.Assert(eq(got, want), "the value is that of ordinary arithmetic")
	return true
}

func both(ok bool) {
	if ok {
		sym.Cover("accepted")
	} else {
		sym.Cover("rejected")
	}
}

// HText: any short text of the characters expressions are made of.
func HText() {
	both(infix(sym.StrUpTo("text", 0, sym.Param("text", 6, 7), "2+*-/()")))
}

// HAny: any ASCII text.
func HAny() {
	s := sym.StrUpTo("text", 0, sym.Param("any", 3, 3), "")
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 128)
	}
	both(infix(s))
}

// HNumbers: digits, dots and spaces.
func HNumbers() {
	both(infix(sym.StrUpTo("text", 0, sym.Param("numbers", 4, 5), "05. ") + "-1"))
}

var nums = []string{"7", "2", "11", "0.5", "3", "5", "13"}

func ops(n int) []string {
	l := make([]string, n)
	for i := range l {
		l[i] = sym.ForkStr(sym.Str("op", 1, "+-*/"))
	}
	return l
}

// HChain: operators one after the other, some numbers signed.
func HChain() {
	n := sym.Param("chain", 4, 5)
	o := ops(n)
	signed := sym.Fork(sym.Choice("signed", n+2))
	s := ""
	for i := 0; i <= n; i++ {
		if i == signed {
			s += "-"
		}
		s += nums[i]
		if i < n {
			s += o[i]
		}
	}
	sym.Assert(infix(s), "the expression is accepted")
}

// HParens: parentheses around any part.
func HParens() {
	n := sym.Param("parens", 3, 4)
	o := ops(n)
	from := sym.Fork(sym.Choice("from", n+1))
	to := sym.Fork(sym.Choice("to", n+1))
	sym.Assume(from <= to)
	twice := sym.Bool("twice")
	s := ""
	for i := 0; i <= n; i++ {
		if i == from {
			s += "("
			if twice {
				s += "("
			}
		}
		if i == n && i != from {
			s += "-"
		}
		s += nums[i]
		if i == to {
			s += ")"
			if twice {
				s += ")"
			}
		}
		if i < n {
			s += o[i]
		}
	}
	sym.Assert(infix(s), "the expression is accepted")
}

// HTwoParens: two parentheses beside or inside each other.
func HTwoParens() {
	o := ops(3)
	f := []func() string{
		func() string { return "(7" + o[0] + "2)" + o[1] + "(3" + o[2] + "5)" },
		func() string { return "7" + o[0] + "(2" + o[1] + "(3" + o[2] + "5))" },
		func() string { return "((7" + o[0] + "2)" + o[1] + "3)" + o[2] + "5" },
		func() string { return "(7" + o[0] + "(2" + o[1] + "3))" + o[2] + "-5" },
	}
	sym.Assert(infix(f[sym.Fork(sym.Choice("shape", len(f)))]()), "the expression is accepted")
}

// HMutated: an expression with one token left out, put in or replaced.
func HMutated() {
	base := []string{"7", "*", "(", "-", "2", "+", "11", ")", "-", "3", "/", "5"}
	toks := []string{"+", "*", "(", ")", "4", ".", "x"}
	i := sym.Fork(sym.Choice("at", len(base)))
	s := ""
	t := func() string { return toks[sym.Fork(sym.Choice("token", len(toks)))] }
	how := sym.Fork(sym.Choice("how", 3))
	for j, b := range base {
		if i == j {
			switch how {
			case 0:
				continue
			case 1:
				b = t()
			case 2:
				b = t() + " " + b
			}
		}
		s += b + " "
	}
	both(infix(s))
}

// stack calculator

type val struct {
	v float64
	p int
}

// item is a token of a postfix expression.
type item struct {
	t  string
	in int // operands
}

var postNums = []string{"7", "2.5", "-3.25", "+0.50", "11", "4.0", "-1.125"}
var uops = []string{"--", "abs"}
var bops = []string{"+", "-", "*", "/", "^", "%", ">", "<", "=", "cmpr"}

func apply(st []val, t string) []val {
	n := len(st)
	top := func(p int, v float64) []val { return append(st[:n-2:n-2], val{v, p}) }
	b := func(x bool) float64 {
		if x {
			return 1
		}
		return 0
	}
	switch t {
	case "--":
		return append(st[:n-1:n-1], val{-st[n-1].v, st[n-1].p})
	case "abs":
		return append(st[:n-1:n-1], val{math.Abs(st[n-1].v), st[n-1].p})
	}
	x, y := st[n-2], st[n-1]
	p := max(x.p, y.p)
	switch t {
	case "+":
		return top(p, x.v+y.v)
	case "-":
		return top(p, x.v-y.v)
	case "*":
		return top(p, x.v*y.v)
	case "/":
		return top(p, x.v/y.v)
	case "^":
		return top(p, math.Pow(x.v, y.v))
	case "%":
		return top(p, math.Mod(x.v, y.v))
	case ">":
		return top(p, b(x.v > y.v))
	case "<":
		return top(p, b(x.v < y.v))
	case "=":
		return top(p, b(x.v == y.v))
	}
	return top(p, b(x.v > y.v)-b(x.v < y.v))
}

func num(t string) val {
	v, err := strconv.ParseFloat(t, 64)
	sym.Assert(err == nil, "a number is a number")
	p := 0
	for i := range t {
		if t[i] == '.' {
			p = len(t) - i - 1
		}
	}
	return val{v, p}
}

func postfix(s string, want []val) {
	got := scalc.Eval(s)
	sym.Detail(func() string {
		d := "expression: " + s + "\ngot:"
		for _, g := range got {
			d += " " + g.String()
		}
		return d
	})
	sym.Assert(len(got) == len(want), "the final stack has as many values")
	for i, w := range want {
		sym.Assert(eq(got[i].V, w.v), "the values on the final stack are right")
		sym.Assert(got[i].P == w.p, "the precision is the highest of the operands")
		sym.Assert(got[i].String() == strconv.FormatFloat(got[i].V, 'f', w.p, 64), "a value is printed with as many decimals as it has")
	}
}

// run makes any sequence of n tokens that does not underflow.
func run(n int, us, bs []string) { postfix(tokens(n, us, bs)) }

func tokens(n int, us, bs []string) (string, []val) {
	var st []val
	s := ""
	k := 0
	for i := 0; i < n; i++ {
		c := 1
		if len(st) > 0 {
			c = 2
		}
		if len(st) > 1 {
			c = 3
		}
		t := ""
		switch sym.Fork(sym.Choice("token", c)) {
		case 0:
			t = postNums[k%len(postNums)]
			k++
			st = append(st, num(t))
		case 1:
			t = us[sym.Fork(sym.Choice("unary", len(us)))]
			st = apply(st, t)
		case 2:
			t = bs[sym.Fork(sym.Choice("binary", len(bs)))]
			st = apply(st, t)
		}
		s += t + " "
	}
	return s, st
}

// HOps: every operator.
func HOps() {
	run(sym.Param("ops", 5, 6), uops, bops)
}

// HPost: longer sequences of fewer operators.
func HPost() {
	run(sym.Param("post", 8, 9), uops[:1], []string{"-", "/"}[:sym.Param("post_ops", 1, 2)])
}

// HDigits: numbers with any digits, any sign and precision.
func HDigits() {
	t := []string{"", "+", "-"}[sym.Fork(sym.Choice("sign", 3))] + sym.ForkStr(sym.Str("digit", 1, "059"))
	if sym.Bool("more") {
		t += sym.ForkStr(sym.Str("digit", 1, "07"))
	}
	d := sym.Fork(sym.Int("decimals", 0, 3))
	if d > 0 {
		t += "."
		for ; d > 0; d-- {
			t += sym.ForkStr(sym.Str("digit", 1, "03"))
		}
	}
	st := []val{num(t)}
	s := t
	switch sym.Fork(sym.Choice("with", 4)) {
	case 3:
		s = "1.5 " + s + " +"
		st = apply(append([]val{num("1.5")}, st...), "+")
	case 1:
		s += " 1.5 -"
		st = apply(append(st, num("1.5")), "-")
	case 2:
		s = "2 " + s + " *"
		st = apply(append([]val{num("2")}, st...), "*")
	}
	postfix(s, st)
}

// HStackOps: an operator on the whole stack at the end.
func HStackOps() {
	s, st := tokens(sym.Fork(sym.Int("tokens", 1, sym.Param("stack_ops", 4, 5))), uops[:1], bops[1:2])
	op := stackOps[sym.Fork(sym.Choice("operator", 7))]
	w := overall(st, op)
	want := []val{w}
	s += op
	switch sym.Fork(sym.Choice("where", 4)) {
	case 1:
		s = "(" + s + ")"
	case 2:
		s = "1 (" + s + ")"
		want = []val{{1, 0}, w}
	case 3:
		s = "(" + s + ") 2.0"
		want = []val{w, {2, 1}}
	}
	postfix(s, want)
}

// HLongStack: an operator on a long stack of which one value is any other.
func HLongStack() {
	n := []int{9, 12, sym.Param("long_stack", 40, 100)}[sym.Fork(sym.Choice("values", 3))]
	at := sym.Fork(sym.Int("at", 0, n-1))
	s := ""
	var st []val
	for i := 0; i < n; i++ {
		t := []string{"1", "2.5", "3", "-4"}[i%4]
		if i == at {
			t = []string{"99.125", "-70.25"}[sym.Fork(sym.Choice("value", 2))]
		}
		s += t + " "
		st = append(st, num(t))
	}
	op := stackOps[sym.Fork(sym.Choice("operator", 7))]
	postfix(s+op, []val{overall(st, op)})
}

var stackOps = []string{"len", "sum", "avg", "min", "max", "first", "last"}

// overall is what an operator on the whole stack gives.
func overall(st []val, op string) val {
	w := st[0]
	switch op {
	case "len":
		w = val{float64(len(st)), 0}
	case "first":
		w = st[len(st)-1]
	case "sum", "avg":
		w.v = 0
		for _, x := range st {
			w.v += x.v
			w.p = max(w.p, x.p)
		}
		if op == "avg" {
			w.v /= float64(len(st))
		}
	case "min":
		for _, x := range st {
			if x.v < w.v {
				w = x
			}
		}
	case "max":
		for _, x := range st {
			if x.v > w.v {
				w = x
			}
		}
	}
	return w
}

// HManip: the top of the stack is changed at the end.
func HManip() {
	s, st := tokens(sym.Fork(sym.Int("tokens", 1, sym.Param("manip", 4, 5))), uops[:1], bops[1:2])
	op := []string{"swap", "drop", "clear"}[sym.Fork(sym.Choice("operator", 3))]
	n := len(st)
	switch op {
	case "swap":
		if n > 1 {
			st = append(st[:n-2:n-2], st[n-1], st[n-2])
		}
	case "drop":
		st = st[:n-1]
	case "clear":
		st = nil
	}
	postfix(s+op, st)
}

// HTernary: one of two values is taken.
func HTernary() {
	c := []string{"0", "1", "-1", "0.5", "2 1 >", "1 2 >", "1 --"}[sym.Fork(sym.Choice("condition", 7))]
	a := []string{"7", "7 --", "2.5 3 *"}[sym.Fork(sym.Choice("first", 3))]
	b := []string{"9.25", "4 5 -", "6 abs"}[sym.Fork(sym.Choice("second", 3))]
	eval := func(t string) val {
		switch t {
		case "7":
			return val{7, 0}
		case "7 --":
			return val{-7, 0}
		case "2.5 3 *":
			return val{7.5, 1}
		case "9.25":
			return val{9.25, 2}
		case "4 5 -":
			return val{-1, 0}
		}
		return val{6, 0}
	}
	w := eval(a)
	if c == "1" || c == "0.5" || c == "2 1 >" {
		w = eval(b)
	}
	postfix(a+" "+b+" "+c+" ?", []val{w})
}

// HBig: a long expression with many parentheses in which one operator is any
// other, and one more number stands anywhere.
func HBig() {
	base := []string{"7", "*", "(", "-2", "+", "11", ")", "-", "3", "/", "(", "(", "5", "-", "1.5", ")", "*", "2", "+", "(", "8", "/", "(", "3", "-", "1", ")", ")", ")", "-", "4", "-", "10", "/", "4", "/", "2"}
	i := sym.Fork(sym.Choice("at", len(base)+1))
	put := sym.ForkStr(sym.Str("put", 1, "+-*/("))
	s := ""
	for j, b := range base {
		if i == j {
			if sym.Bool("before") {
				s += put + " "
			} else {
				b = put
			}
		}
		s += b + " "
	}
	both(infix(s))
}

// HLongPost: a long postfix expression in which one operator is any other.
func HLongPost() {
	var st []val
	s := ""
	i := sym.Fork(sym.Int("at", 0, sym.Param("long_post", 14, 24)))
	k := 0
	push := func() {
		t := postNums[k%len(postNums)]
		k++
		s += t + " "
		st = append(st, num(t))
	}
	push()
	for j := 0; j < sym.Param("long_post", 14, 24); j++ {
		push()
		if j%3 == 0 {
			s += uops[j%2] + " "
			st = apply(st, uops[j%2])
		}
		if j%4 == 1 {
			continue
		}
		op := bops[j%3]
		if i == j {
			op = bops[sym.Fork(sym.Choice("binary", len(bops)))]
		}
		s += op + " "
		st = apply(st, op)
	}
	postfix(s, st)
}

// HLongNumbers: numbers of many digits with any digit in one place.
func HLongNumbers() {
	t := sym.ForkStr(sym.Str("digit", 1, "19"))
	a := "12345678901234567890"[:sym.Fork(sym.Choice("whole", sym.Param("whole", 17, 20)))] + t
	b := "25062512345678901234"[:sym.Fork(sym.Choice("decimals", sym.Param("decimals", 17, 20)))]
	if b != "" {
		a += "." + b
	}
	switch sym.Fork(sym.Choice("form", 4)) {
	case 0:
		sym.Assert(infix("3+"+a+"*2-("+a+"/5)"), "the expression is accepted")
	case 1:
		sym.Assert(infix("-"+a+" - "+a), "the expression is accepted")
	case 2:
		postfix("-"+a+" 2 *", apply([]val{num("-" + a), num("2")}, "*"))
	case 3:
		postfix("1.5 "+a+" /", apply([]val{num("1.5"), num(a)}, "/"))
	}
}

// HVeryLong: an expression of very many numbers, and one with very many
// parentheses, with any operator in one place.
func HVeryLong() {
	n := sym.Param("very_long", 60, 150)
	op := sym.ForkStr(sym.Str("op", 1, "+-*/"))
	s := "1"
	switch sym.Fork(sym.Choice("form", 3)) {
	case 0:
		for i := 0; i < n; i++ {
			o := []string{"-", "+", "*", "-", "/"}[i%5]
			if i == n-3 {
				o = op
			}
			s += o + nums[i%len(nums)]
		}
	case 1:
		s = ""
		for i := 0; i < n; i++ {
			s += "("
		}
		s += "7" + op + "2"
		for i := 0; i < n; i++ {
			s += []string{")", "-1)"}[i%2]
		}
	case 2:
		for i := 0; i < n/3; i++ {
			s += []string{"-", "/", "-"}[i%3] + "(" + nums[i%len(nums)]
		}
		s += op + "3"
		for i := 0; i < n/3; i++ {
			s += ")"
		}
	}
	sym.Assert(infix(s), "the expression is accepted")
}
