package ref

import (
	"regexp"
	"strings"

	"github.com/adamcolton/parlex"
)

// LexRule is one rule of a lexer.
type LexRule struct {
	Kind, Pat string
	Discard   bool
	Push      string
	Pop       int
	Groups    []string // numbers name groups, anything else is literal
}

// Line writes the rule the way definitions do.
func (r LexRule) Line() string {
	s := r.Kind
	if r.Pat != r.Kind {
		s += " /" + r.Pat + "/"
	}
	if r.Groups != nil {
		var gs []string
		for _, g := range r.Groups {
			if len(g) == 1 && g[0] >= '0' && g[0] <= '9' {
				gs = append(gs, g)
			} else {
				gs = append(gs, `"`+g+`"`)
			}
		}
		s += " (" + strings.Join(gs, "|") + ")"
	}
	if r.Push != "" {
		s += " " + r.Push
	}
	if r.Pop > 0 {
		s += " " + strings.Repeat("^", r.Pop)
	}
	if r.Discard {
		s += " -"
	}
	return s
}

// Def writes a definition.
func Def(rs []LexRule) string {
	var ls []string
	for _, r := range rs {
		ls = append(ls, "  "+r.Line())
	}
	return strings.Join(ls, "\n") + "\n"
}

// Tok is one expected lexeme.
type Tok struct {
	Kind, Val string
	Err       bool
	From      int // offset in the input, -1 if it does not stem from it
}

// SubLex is a set of rules with a name.
type SubLex struct {
	Name  string
	Rules []LexRule
}

var reAt = map[string]*regexp.Regexp{}

func at(pat string) *regexp.Regexp {
	re := reAt[pat]
	if re == nil {
		re = regexp.MustCompile("^(?:" + pat + ")")
		reAt[pat] = re
	}
	return re
}

// pick finds the rule that matches at the start of s.
func pick(rs []LexRule, byPriority bool, s string) (int, []int) {
	best := -1
	var loc []int
	for i, r := range rs {
		m := at(r.Pat).FindStringSubmatchIndex(s)
		if m == nil || m[1] == 0 {
			continue
		}
		if best < 0 || (!byPriority && m[1] > loc[1]) {
			best, loc = i, m
		}
	}
	return best, loc
}

// Lex is the meaning of a lexer: a stack of sub-lexers that starts with the
// first; a simple lexer has just one.
func Lex(ls []SubLex, byPriority bool, errKind, in string) []Tok {
	var out []Tok
	stack := []int{0}
	errFrom := -1
	flush := func(to int) {
		if errFrom >= 0 {
			out = append(out, Tok{errKind, in[errFrom:to], true, errFrom})
			errFrom = -1
		}
	}
	for p := 0; p < len(in); {
		cur := ls[stack[len(stack)-1]]
		i, loc := pick(cur.Rules, byPriority, in[p:])
		if i < 0 {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				continue
			}
			if errFrom < 0 {
				errFrom = p
			}
			p++
			continue
		}
		flush(p)
		r := cur.Rules[i]
		if !r.Discard {
			v := in[p : p+loc[1]]
			if r.Groups != nil {
				v = ""
				for _, g := range r.Groups {
					if len(g) == 1 && g[0] >= '0' && g[0] <= '9' {
						k := int(g[0] - '0')
						if loc[2*k] >= 0 {
							v += in[p+loc[2*k] : p+loc[2*k+1]]
						}
					} else {
						v += g
					}
				}
			}
			out = append(out, Tok{r.Kind, v, false, p})
		}
		p += loc[1]
		for k := 0; k < r.Pop && len(stack) > 1; k++ {
			stack = stack[:len(stack)-1]
		}
		if r.Push != "" {
			for j, l := range ls {
				if l.Name == r.Push {
					stack = append(stack, j)
				}
			}
		}
	}
	flush(len(in))
	return out
}

// Toks reads lexemes.
func Toks(lxs []parlex.Lexeme) []Tok {
	var out []Tok
	for _, l := range lxs {
		_, e := l.(parlex.LexError)
		out = append(out, Tok{l.Kind().String(), l.Value(), e, -1})
	}
	return out
}

// SameToks compares kind, value and whether it is an error.
func SameToks(a, b []Tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Kind != b[i].Kind || a[i].Err != b[i].Err || a[i].Val != b[i].Val {
			return false
		}
	}
	return true
}

// TokString prints tokens.
func TokString(ts []Tok) string {
	s := ""
	for _, t := range ts {
		if t.Err {
			s += "!"
		}
		s += t.Kind + ":" + t.Val + ";"
	}
	return s
}

// Pos is the line (from 0) and column (from 1) of an offset.
func Pos(in string, off int) (int, int) {
	line, col := 0, 1
	for i := 0; i < off; i++ {
		col++
		if in[i] == '\n' {
			line++
			col = 1
		}
	}
	return line, col
}
