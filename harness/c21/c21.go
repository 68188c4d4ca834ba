// Package c21: JSON formatting keeps the document.
package c21

import (
	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/zzverif/sym"
)

func digit(c byte) bool { return c >= '0' && c <= '9' }
func space(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f' }

func word(s, w string) bool { return len(s) >= len(w) && s[:len(w)] == w }

// tokens splits a text into tokens; ok is false if it has something else.
func tokens(s string) (out []string, ok bool) {
	for i := 0; i < len(s); {
		j := i + 1
		switch c := s[i]; {
		case space(c):
			i++
			continue
		case c == '[' || c == ']' || c == '{' || c == '}' || c == ',' || c == ':':
		case c == '"':
			for {
				if j >= len(s) {
					return nil, false
				}
				if s[j] == '"' {
					j++
					break
				}
				if s[j] == '\\' {
					j++
					if j >= len(s) || s[j] == '\n' {
						return nil, false
					}
				}
				j++
			}
		case digit(c) || c == '.':
			j = i
			for j < len(s) && digit(s[j]) {
				j++
			}
			if j+1 < len(s) && s[j] == '.' && digit(s[j+1]) {
				j++
				for j < len(s) && digit(s[j]) {
					j++
				}
			}
			if j == i {
				return nil, false
			}
		case word(s[i:], "true") || word(s[i:], "null"):
			j = i + 4
		case word(s[i:], "false"):
			j = i + 5
		default:
			return nil, false
		}
		out = append(out, s[i:j])
		i = j
	}
	return out, true
}

// value reads a value and returns the rest, or nil and false.
func value(t []string) ([]string, bool) {
	if len(t) == 0 {
		return nil, false
	}
	x := t[0]
	t = t[1:]
	switch x[0] {
	case ']', '}', ',', ':':
		return nil, false
	case '[':
		return list(t, "]", value)
	case '{':
		return list(t, "}", func(t []string) ([]string, bool) {
			if len(t) < 2 || t[0][0] != '"' || t[1] != ":" {
				return nil, false
			}
			return value(t[2:])
		})
	}
	return t, true
}

func list(t []string, end string, elem func([]string) ([]string, bool)) ([]string, bool) {
	if len(t) > 0 && t[0] == end {
		return t[1:], true
	}
	for {
		var ok bool
		if t, ok = elem(t); !ok {
			return nil, false
		}
		if len(t) == 0 {
			return nil, false
		}
		if t[0] == end {
			return t[1:], true
		}
		if t[0] != "," {
			return nil, false
		}
		t = t[1:]
	}
}

// lay writes the value t begins with as it should be laid out.
func lay(t []string, pad string) (string, []string) {
	x := t[0]
	t = t[1:]
	in := pad + "  "
	switch x {
	case "[":
		s, broken := "[", false
		for t[0] != "]" {
			if t[0] == "," {
				s += ","
				t = t[1:]
			}
			if t[0] == "[" || t[0] == "{" {
				s += "\n" + in
				broken = true
			}
			var v string
			v, t = lay(t, in)
			s += v
		}
		if broken {
			s += "\n" + pad
		}
		return s + "]", t[1:]
	case "{":
		var keys []string
		var at [][]string
		for r := t; r[0] != "}"; {
			if r[0] == "," {
				r = r[1:]
			}
			keys, at = append(keys, r[0]), append(at, r[2:])
			_, r = lay(r[2:], "")
		}
		if len(keys) == 0 {
			return "{}", t[1:]
		}
		if len(keys) == 1 {
			v, r := lay(at[0], pad)
			return "{" + keys[0] + ": " + v + "}", r[1:]
		}
		s := "{\n"
		for i, k := range keys {
			v, r := lay(at[i], in)
			if i > 0 {
				s += ",\n"
			}
			s += in + k + ": " + v
			t = r
		}
		return s + "\n" + pad + "}", t[1:]
	}
	return x, t
}

func check(in string) bool {
	sym.Detail(func() string { return "input: " + in })
	ts, ok := tokens(in)
	if ok {
		rest, v := value(ts)
		ok = v && len(rest) == 0
	}
	out, err := parlexjson.Format(in)
	sym.Observe(out)
	sym.Assert((err == nil) == ok, "formatting succeeds exactly for a JSON value")
	if err != nil {
		sym.Assert(out == "", "there is no output with an error")
		return false
	}
	sym.Detail(func() string { return "output: " + out })
	us, ok := tokens(out)
	sym.Assert(ok && len(us) == len(ts), "the output has as many tokens")
	for i := range us {
		sym.Assert(us[i] == ts[i], "the output has the same tokens in the same order")
	}
	want, _ := lay(ts, "")
	sym.Assert(out == want, "the output is laid out by the structure alone")
	again, err := parlexjson.Format(out)
	sym.Assert(err == nil && again == out, "formatting the output changes nothing")
	return true
}

func both(in string) {
	if check(in) {
		sym.Cover("accepted")
	} else {
		sym.Cover("rejected")
	}
}

func join(ts []string) string {
	s := ""
	for _, t := range ts {
		s += " " + t
	}
	return s
}

// HText: any short text of the characters JSON is made of.
func HText() {
	both(sym.StrUpTo("text", 0, sym.Param("text", 5, 6), `[]{}:,"1 `))
}

// HNumbers: any short text of digits and dots in an array.
func HNumbers() {
	both("[" + sym.StrUpTo("text", 0, sym.Param("numbers", 4, 5), "07. ,") + "]")
}

// HString: any text between quotes.
func HString() {
	s := sym.StrUpTo("text", 0, sym.Param("string", 3, 4), "")
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 128)
	}
	q := `"` + s + `"`
	switch sym.Fork(sym.Choice("where", 3)) {
	case 1:
		q = "{" + q + ":" + q + "}"
	case 2:
		q = "[" + q + "," + q + "]"
	}
	both(q)
}

// HAny: any ASCII text.
func HAny() {
	s := sym.StrUpTo("text", 0, sym.Param("any", 3, 4), "")
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 128)
	}
	both(s)
}

// HWords: the words and what is near to them.
func HWords() {
	ws := []string{"true", "false", "null", "nul", "tru", "True", "nulll", "1"}
	w := func() string { return ws[sym.Fork(sym.Choice("word", len(ws)))] }
	seps := []string{"", " ", ",", ":", "\n"}
	both("[" + w() + seps[sym.Fork(sym.Choice("separator", len(seps)))] + w() + "]")
}

// doc is some document; d is how deep it may be.
func doc(d, w int) string {
	n := 3
	if d > 0 {
		n = 5
	}
	switch sym.Fork(sym.Choice("value", n)) {
	case 0:
		return `"s"`
	case 1:
		return "12"
	case 2:
		return "null"
	case 3:
		s := "["
		for i := sym.Fork(sym.Int("elements", 0, w)); i > 0; i-- {
			s += doc(d-1, w)
			if i > 1 {
				s += ","
			}
		}
		return s + "]"
	}
	s := "{"
	for i := sym.Fork(sym.Int("pairs", 0, w)); i > 0; i-- {
		s += `"k":` + doc(d-1, w)
		if i > 1 {
			s += ","
		}
	}
	return s + "}"
}

// HDoc: documents with values in values.
func HDoc() {
	check(doc(2, 2))
}

// HDeep: narrow but deep documents.
func HDeep() {
	check(doc(sym.Param("deep", 5, 7), 1))
}

// HWide: flat documents with many elements.
func HWide() {
	s := ""
	for i := sym.Fork(sym.Int("elements", 0, sym.Param("wide", 5, 7))); i > 0; i-- {
		v := []string{"[]", "{}", "1"}[sym.Fork(sym.Choice("value", 3))]
		s += v
		if i > 1 {
			s += ","
		}
	}
	if sym.Bool("inner") {
		s = "1,[" + s + "],2"
	}
	check("[" + s + "]")
}

// HMany: arrays and objects of very many members, of which one is any other.
func HMany() {
	n := sym.Param("many", 24, 70)
	at := sym.Fork(sym.Int("at", 0, n+2))
	if at > n-1 {
		n, at = 6*n, 3*n*(at-n)
	}
	obj := sym.Bool("object")
	s := ""
	for i := 0; i < n; i++ {
		v := []string{"1", "[[2],3]", "null", `{"a":1,"b":[]}`}[i%4]
		if i == at {
			v = []string{"[]", "{}", "[{},1]", `{"x":[[]],"y":2}`}[sym.Fork(sym.Choice("value", 4))]
		}
		if i > 0 {
			s += ","
		}
		if obj {
			s += `"k":`
		}
		s += v
	}
	if obj {
		s = "{" + s + "}"
	} else {
		s = "[" + s + "]"
	}
	check(s)
}

// HMutated: a document in which one token is left out, put in, replaced or
// swapped with the next.
func HMutated() {
	base := []string{"[", "1", ",", "{", `"a"`, ":", "[", "]", ",", `"b"`, ":", "null", "}", ",", "[", "true", ",", "{", "}", "]", "]"}
	toks := []string{"[", "]", "{", "}", ",", ":", `"s"`, "1", "null"}
	i := sym.Fork(sym.Choice("at", len(base)))
	var t []string
	t = append(t, base[:i]...)
	switch sym.Fork(sym.Choice("how", 4)) {
	case 0:
		t = append(t, base[i+1:]...)
	case 1:
		t = append(t, toks[sym.Fork(sym.Choice("token", len(toks)))])
		t = append(t, base[i+1:]...)
	case 2:
		t = append(t, toks[sym.Fork(sym.Choice("token", len(toks)))])
		t = append(t, base[i:]...)
	case 3:
		sym.Assume(i+1 < len(base))
		t = append(t, base[i+1], base[i])
		t = append(t, base[i+2:]...)
	}
	both(join(t))
}

// HSpace: white space anywhere and of any kind.
func HSpace() {
	ts := []string{"{", `"a"`, ":", "[", "1", ",", "2.5", "]", ",", `"b"`, ":", "{", "}", "}"}
	i := sym.Fork(sym.Choice("at", len(ts)+1))
	s := ""
	for j, t := range ts {
		if i == j {
			s += sym.Str("space", 2, " \n\t\r")
		}
		s += t
	}
	if i == len(ts) {
		s += sym.Str("space", 2, " \n\t\r")
	}
	check(s)
}

// HBig: a deep and wide document in which one value is any other, and one
// string has any characters.
func HBig() {
	n := 0
	at := sym.Fork(sym.Int("at", 0, 2*sym.Param("values", 15, 25)))
	var val func(d int) string
	val = func(d int) string {
		n++
		if n == at {
			return []string{"[]", "{}", "1", `{"a":[2]}`, "[[1]]"}[sym.Fork(sym.Choice("value", 5))]
		}
		if d == 0 {
			v := []string{"null", "12.5", `"s"`, "[]", "{}", `"` + "long string, with: [many] {characters}" + `"`}[n%6]
			return v
		}
		if d%2 == 0 {
			s := `{"key": ` + val(d-1)
			if d%4 == 0 {
				for i := 0; i < 5; i++ {
					s += ",\n" + `"k":` + val(0)
				}
			}
			return s + "}"
		}
		s := "[" + val(d-1)
		for i := 0; i < d; i++ {
			s += "," + val(0)
		}
		return s + "]"
	}
	s := val(sym.Param("big_depth", 7, 10))
	c := sym.Str("text", 1, "a\" :,]}[{\\")
	both(`[` + s + `,"` + c + `"]`)
}
