// Package c24: printed lexemes and lex errors name kind, value and position.
package c24

import (
	"math"
	"strconv"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

// other is a lexeme of another implementation.
type other struct {
	k, v string
	l, c int
}

func (o *other) Kind() parlex.Symbol { return stringsymbol.Symbol(o.k) }
func (o *other) Value() string       { return o.v }
func (o *other) Pos() (int, int)     { return o.l, o.c }

var numbers = []int{-1, 0, 1, 2, 10, -2, 123, math.MaxInt64, math.MinInt64}

func number(name string, n int) int { return numbers[sym.Fork(sym.Choice(name, n))] }

func lex(form int, k, v string, l, c int) parlex.Lexeme {
	switch form {
	case 0:
		return lexeme.New(stringsymbol.Symbol(k)).Set(v).At(l, c)
	case 1:
		return lexeme.String(k).Set(v).At(l, c)
	case 2:
		return lexeme.Copy(&other{k, v, l, c})
	case 3:
		set := setsymbol.New()
		set.Str("a")
		return lexeme.New(set.Str(k)).Set(v).At(l, c)
	}
	return &other{k, v, l, c}
}

// short is the short form of one lexeme.
func short(k, v string) string {
	if v == "" {
		return k
	}
	return k + ": " + v
}

// HShort: the short form of up to three lexemes.
func HShort() {
	n := sym.Fork(sym.Int("lexemes", 0, 3))
	var ls []parlex.Lexeme
	var want []string
	for i := 0; i < n; i++ {
		k := sym.StrUpTo("kind", 0, sym.Param("kind_len", 1, 2), "")
		v := sym.StrUpTo("value", 0, sym.Param("value_len", 1, 2), "")
		ls = append(ls, lex(i*2, k, v, number("line", 3), 1))
		want = append(want, short(k, v))
	}
	got := parlex.LexemeString(ls...)
	sym.Observe(got)
	w := ""
	switch n {
	case 0:
		sym.Cover("none")
	case 1:
		w = want[0]
		sym.Cover("one")
	default:
		w = "["
		for i, s := range want {
			if i > 0 {
				w += ", "
			}
			w += s
		}
		w += "]"
		sym.Cover("several")
	}
	sym.Detail(func() string { return "got: " + got + "\nwant: " + w })
	sym.Assert(got == w, "the short form has kind and value of every lexeme")
	if n == 0 {
		sym.Assert(parlex.LexemeString() == "" && parlex.LexemeList(nil) == "" && parlex.LexemeList([]parlex.Lexeme{}) == "", "nothing is printed for no lexemes")
	}
}

// listed is the line of one lexeme in the list.
func listed(k, v string, l, c int) string {
	s := k + ": " + strconv.Quote(v)
	if l > 0 || c > 0 {
		s += " (" + strconv.Itoa(l) + ", " + strconv.Itoa(c) + ")"
	}
	return s
}

var values = []string{"", "x", "\"\n", "\u00e9", "\xff", "\u200b \u65e5", "%d"}

// HList: one line per lexeme.
func HList() {
	n := sym.Fork(sym.Int("lexemes", 1, 2))
	var ls []parlex.Lexeme
	w := ""
	for i := 0; i < n; i++ {
		k := sym.Str("kind", 1, "")
		var v string
		if i == 0 {
			v = sym.StrUpTo("value", 0, sym.Param("value_len", 1, 2), gen.Ascii)
		} else {
			v = values[sym.Fork(sym.Choice("second_value", len(values)))]
		}
		l, c := number("line", 5), number("column", 3+2*(1-i))
		ls = append(ls, lex(i*4, k, v, l, c))
		if i > 0 {
			w += "\n"
		}
		w += listed(k, v, l, c)
		if l > 0 || c > 0 {
			sym.Cover("with a position")
		} else {
			sym.Cover("without a position")
		}
	}
	got := parlex.LexemeList(ls)
	sym.Observe(got)
	sym.Detail(func() string { return "got:  " + got + "\nwant: " + w })
	sym.Assert(got == w, "the list has a line with kind, quoted value and position of every lexeme")
}

// HListLong: the lexemes are listed in order and completely.
func HListLong() {
	n := sym.Fork(sym.Int("lexemes", 3, sym.Param("lexemes", 6, 12)))
	free := n
	if n == 3 && sym.Bool("many more") {
		n = 300
	}
	var ls []parlex.Lexeme
	w := ""
	for i := 0; i < n; i++ {
		k, v := "k"+strconv.Itoa(i), "v"
		if i < free {
			v = sym.Str("value", 1, "a\n")
		}
		ls = append(ls, lex(i%5, k, v, i-1, i/2))
		if i > 0 {
			w += "\n"
		}
		w += listed(k, v, i-1, i/2)
	}
	got := parlex.LexemeList(ls)
	sym.Observe(got)
	sym.Assert(got == w, "the list has a line with kind, quoted value and position of every lexeme")
}

// HNumbers: any position is printed as it is.
func HNumbers() {
	l, c := number("line", len(numbers)), number("column", len(numbers))
	form := sym.Fork(sym.Choice("form", 5))
	x := lex(form, "k", "v", l, c)
	sym.Assert(parlex.LexemeList([]parlex.Lexeme{x}) == listed("k", "v", l, c), "the position is printed as it is")
	y := lexeme.Copy(x)
	gl, gc := y.Pos()
	sym.Assert(gl == l && gc == c && y.Kind().String() == "k" && y.Value() == "v", "a copy has kind, value and position")
	w := "Lexeme{k:\"v\""
	if l != -1 {
		w += " (" + strconv.Itoa(l) + ", " + strconv.Itoa(c) + ")"
		sym.Cover("with a position")
	} else {
		sym.Cover("without a position")
	}
	w += "}"
	sym.Detail(func() string { return "got:  " + y.String() + "\nwant: " + w })
	sym.Assert(y.String() == w, "a lexeme prints kind, value and position")
}

// HBuild: a lexeme is what it was built as.
func HBuild() {
	k := sym.StrUpTo("kind", 0, 2, "")
	v := sym.StrUpTo("value", 0, 2, gen.Ascii)
	l, c := sym.Int("line", math.MinInt64, math.MaxInt64), sym.Int("column", math.MinInt64, math.MaxInt64)
	x := lexeme.New(stringsymbol.Symbol(k))
	if sym.Bool("from_string") {
		x = lexeme.String(k)
	}
	gl, _ := x.Pos()
	sym.Assert(x.Kind().String() == k && x.Value() == "" && gl == -1, "a new lexeme has its kind, no value and no position")
	sym.Assert(x.String() == "Lexeme{"+k+"}", "a new lexeme prints its kind")
	sym.Assert(x.Set(v) == x && x.Value() == v && x.Kind().String() == k, "Set sets the value")
	gl, _ = x.Pos()
	sym.Assert(gl == -1, "Set keeps the position")
	if v != "" {
		w := "Lexeme{" + k + ":" + strconv.Quote(v) + "}"
		sym.Detail(func() string { return "got:  " + x.String() + "\nwant: " + w })
		sym.Assert(x.String() == w, "a lexeme prints kind and quoted value")
	}
	y := lexeme.Copy(x)
	sym.Assert(x.At(l, c) == x && x.Value() == v && x.Kind().String() == k, "At keeps kind and value")
	gl, gc := x.Pos()
	sym.Assert(gl == l && gc == c, "At sets line and column")
	gl, _ = y.Pos()
	sym.Assert(gl == -1 && y.Value() == v && y.Kind().String() == k, "a copy does not follow the original")
	y.Set("other").At(7, 8)
	gl, gc = x.Pos()
	sym.Assert(x.Value() == v && gl == l && gc == c, "the original does not follow a copy")
}

// lexers: one of each package, with and without a name for error lexemes.
func lexer(i int, name string) parlex.Lexer {
	if i == 0 {
		l, err := simplelexer.New("word /a+/\nnl /\\n/ -")
		sym.Assert(err == nil, "the definition is accepted")
		if name != "" {
			l.Error = name
		}
		return l
	}
	l, err := stacklexer.New("== top ==\nword /a+/\nnl /\\n/ -")
	sym.Assert(err == nil, "the definition is accepted")
	if name != "" {
		l.Error = name
	}
	return l
}

// HErrors: the errors of both lexers on any input.
func HErrors() {
	i := sym.Fork(sym.Choice("lexer", 2))
	name := []string{"", "Lex Error", "bad"}[sym.Fork(sym.Choice("name", 3))]
	in := sym.Str("in", sym.Fork(sym.Int("in.len", 0, sym.Param("input_len", 4, 6))), "a.-\n")
	lxs := lexer(i, name).Lex(in)
	errs := parlex.LexErrors(lxs)
	// the runs of what is neither a nor newline
	n := 0
	for p := 0; p < len(in); {
		if in[p] == 'a' || in[p] == '\n' {
			p++
			continue
		}
		e := p
		for e < len(in) && in[e] != 'a' && in[e] != '\n' {
			e++
		}
		sym.Assert(n < len(errs), "every run is reported")
		l, c := ref.Pos(in, p)
		w := "Lex Error " + strconv.Itoa(l+i) + ":" + strconv.Itoa(c) + ") " + in[p:e]
		got := errs[n].Error()
		sym.Detail(func() string { return "input: " + in + "\ngot:  " + got + "\nwant: " + w })
		if name != "" {
			sym.Assert(errs[n].Kind().String() == name, "an error has the kind that was set for errors")
		}
		sym.Assert(errs[n].Value() == in[p:e], "an error has the text that was not matched")
		sym.Assert(got == w, "an error says where it is and what was not matched")
		sym.Observe(got)
		if p > 0 {
			sym.Cover("an error inside")
		}
		n++
		p = e
	}
	sym.Assert(n == len(errs), "nothing else is reported")
	if n == 0 {
		sym.Cover("no error")
	}
}

// HLong: very long kinds and values in all forms, and very many lexemes in the
// short form.
func HLong() {
	n := sym.Param("long", 200, 500)
	long := ""
	for i := 0; i < n; i++ {
		long += string(rune('a' + i*i%26))
	}
	k, v := long+sym.Str("kind", 1, "xy"), long+sym.Str("value", 1, "a\n\"")+"z"
	line := numbers[sym.Fork(sym.Choice("line", 4))]
	one := lexeme.New(stringsymbol.Symbol(k)).Set(v).At(line, 3)
	pos := ""
	if line != -1 {
		pos = " (" + strconv.Itoa(line) + ", 3)"
	}
	sym.Assert(parlex.LexemeString(one) == short(k, v), "the short form has kind and value")
	sym.Assert(parlex.LexemeList([]parlex.Lexeme{one}) == listed(k, v, line, 3), "the list has kind, quoted value and position")
	sym.Assert(one.String() == "Lexeme{"+k+":"+strconv.Quote(v)+pos+"}", "a printed lexeme has kind, quoted value and position")
	c := lexeme.Copy(one)
	sym.Assert(c.Value() == v && c.Kind().String() == k, "a copy has kind and value")
	var ls []parlex.Lexeme
	w := "["
	for i := 0; i < n; i++ {
		ls = append(ls, lex(i%5, "k"+strconv.Itoa(i), "v", i, i))
		w += "k" + strconv.Itoa(i) + ": v, "
	}
	sym.Assert(parlex.LexemeString(append(ls, one)...) == w+short(k, v)+"]", "the short form has kind and value of every lexeme")
}
