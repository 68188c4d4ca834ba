package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 (or, with -solver cvc5, cvc5) process in incremental mode.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	ts       *Terms
	declard  int // variables declared in the current path scope
	sent     int // path constraints asserted in the current path scope
	scope    bool
	nPaths   int
	bin      string
	batchCmd string

	// path conditions waiting to be confirmed in one query
	batch  strings.Builder
	batchN int

	Queries, Sat, Unsat, Unknown int64
	Time                         time.Duration
	MaxTime                      time.Duration
	until                        time.Time // no query runs on for long after this
}

func NewSolver(bin string, ts *Terms) (*Solver, error) {
	s := &Solver{ts: ts, bin: bin}
	return s, s.start()
}

func (s *Solver) start() error {
	args := []string{"-in", "-smt2"}
	s.batchCmd = "(check-sat-using (then simplify propagate-values solve-eqs elim-uncnstr bit-blast sat))"
	if strings.Contains(filepath.Base(s.bin), "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang", "smt2", "-q"}
		s.batchCmd = "(check-sat)"
	}
	s.cmd = exec.Command(s.bin, args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.scope = false
	fmt.Fprint(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	fmt.Fprint(s.in, "(exit)\n")
	s.in.Flush()
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

// beginPath drops everything asserted for the previous path.
func (s *Solver) beginPath() {
	if s.scope {
		s.nPaths++
		if s.nPaths%5000 == 0 {
			s.Close()
			if err := s.start(); err != nil {
				panic(abort{"cannot restart solver: " + err.Error(), true})
			}
		} else {
			fmt.Fprint(s.in, "(pop)\n")
		}
	}
	s.scope = false
	s.declard, s.sent = 0, 0
}

func (s *Solver) sync(pc []*Term) {
	if !s.scope {
		fmt.Fprint(s.in, "(push)\n")
		s.scope = true
	}
	for ; s.declard < len(s.ts.vars); s.declard++ {
		v := s.ts.vars[s.declard]
		if v.w == 0 {
			fmt.Fprintf(s.in, "(declare-const v%d Bool)\n", s.declard)
		} else {
			fmt.Fprintf(s.in, "(declare-const v%d (_ BitVec %d))\n", s.declard, v.w)
		}
	}
	for ; s.sent < len(pc); s.sent++ {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ts.smtShared(pc[s.sent]))
	}
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.Unknown++
		s.Close()
		if err := s.start(); err != nil {
			panic(abort{"cannot restart solver: " + err.Error(), true})
		}
		s.declard, s.sent = 0, 0
		panic(abort{"solver gave no verdict within its limit", false})
	}
	return strings.TrimSpace(l)
}

const batchMax = 64

// later adds the path condition (over its own copy of the variables) to the
// next batch: the conjunction of independent path conditions is satisfiable
// exactly if each is.
func (s *Solver) later(pc []*Term, ent []bool) {
	pre := fmt.Sprintf("p%d", s.batchN)
	s.ts.pre = pre
	defer func() { s.ts.pre = "" }()
	for i, v := range s.ts.vars {
		if !ent[i] {
			continue
		}
		if v.w == 0 {
			fmt.Fprintf(&s.batch, "(declare-const %sv%d Bool)\n", pre, i)
		} else {
			fmt.Fprintf(&s.batch, "(declare-const %sv%d (_ BitVec %d))\n", pre, i, v.w)
		}
	}
	for _, t := range pc {
		if t.sup >= 0 && !ent[t.sup] {
			continue
		}
		fmt.Fprintf(&s.batch, "(assert %s)\n", s.ts.smtShared(t))
	}
	s.batchN++
}

// flush decides the batch; false means that some path condition has no model.
func (s *Solver) flush() bool {
	if s.batchN == 0 {
		return true
	}
	s.beginPath()
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	wd := time.AfterFunc(120*time.Second, func() {
		if c := s.cmd; c != nil {
			c.Process.Kill()
		}
	})
	defer wd.Stop()
	txt := s.batch.String()
	s.batch.Reset()
	s.batchN = 0
	return s.raw(txt) != "unsat"
}

// raw decides a closed query outside of any path.
func (s *Solver) raw(txt string) string {
	s.beginPath()
	s.Queries++
	fmt.Fprintf(s.in, "(push)\n%s%s\n(pop)\n", txt, s.batchCmd)
	s.in.Flush()
	l := s.line()
	switch l {
	case "sat":
		s.Sat++
	case "unsat":
		s.Unsat++
	case "unknown", "timeout":
		s.Unknown++
	default:
		panic(abort{"solver said: " + l, true})
	}
	return l
}

// rawVal decides a closed query about x and returns a value of x.
func (s *Solver) rawVal(txt string) (bool, uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.beginPath()
	s.Queries++
	fmt.Fprintf(s.in, "(push)\n%s(check-sat)\n", txt)
	s.in.Flush()
	l := s.line()
	var v uint64
	switch l {
	case "sat":
		s.Sat++
		fmt.Fprint(s.in, "(get-value (x))\n")
		s.in.Flush()
		a := s.line()
		if i := strings.Index(a, "#x"); i >= 0 {
			v, _ = strconv.ParseUint(strings.TrimRight(a[i+2:], ")"), 16, 64)
		} else if i := strings.Index(a, "#b"); i >= 0 {
			v, _ = strconv.ParseUint(strings.TrimRight(a[i+2:], ")"), 2, 64)
		} else {
			panic(abort{"bad model: " + a, true})
		}
	case "unsat":
		s.Unsat++
	case "unknown", "timeout":
		s.Unknown++
		fmt.Fprint(s.in, "(pop)\n")
		panic(abort{"solver gave no verdict", false})
	default:
		panic(abort{"solver said: " + l, true})
	}
	fmt.Fprint(s.in, "(pop)\n")
	return l == "sat", v
}

// Check decides satisfiability of pc and extra; on sat it returns a model.
func (s *Solver) Check(pc []*Term, extra *Term) (sat bool, known bool, model []uint64) {
	return s.check(pc, extra, true)
}

func (s *Solver) check(pc []*Term, extra *Term, want bool) (sat bool, known bool, model []uint64) {
	t0 := time.Now()
	lim := 120 * time.Second
	if !s.until.IsZero() {
		if l := s.until.Sub(t0) + 10*time.Second; l < lim {
			lim = l
		}
	}
	wd := time.AfterFunc(lim, func() {
		if c := s.cmd; c != nil {
			c.Process.Kill()
		}
	})
	defer wd.Stop()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	s.Queries++
	s.sync(pc)
	if extra != nil {
		fmt.Fprintf(s.in, "(push)\n(assert %s)\n(check-sat)\n", s.ts.smtShared(extra))
	} else {
		fmt.Fprint(s.in, "(check-sat)\n")
	}
	s.in.Flush()
	switch l := s.line(); l {
	case "sat":
		s.Sat++
		model = make([]uint64, len(s.ts.vars))
		if len(model) > 0 && want {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for i := range s.ts.vars {
				fmt.Fprintf(&sb, " v%d", i)
			}
			sb.WriteString("))\n")
			s.in.WriteString(sb.String())
			s.in.Flush()
			s.readModel(model)
		}
		sat, known = true, true
	case "unsat":
		s.Unsat++
		known = true
	case "unknown", "timeout":
		s.Unknown++
	default:
		panic(abort{"solver said: " + l, true})
	}
	if extra != nil {
		fmt.Fprint(s.in, "(pop)\n")
	}
	return
}

func (s *Solver) readModel(model []uint64) {
	depth := 0
	var sb strings.Builder
	for {
		l := s.line()
		if strings.HasPrefix(l, "(error") {
			panic(abort{"solver said: " + l, true})
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(sb.String()))
	for i := 0; i+1 < len(toks); i += 2 {
		n, err := strconv.Atoi(toks[i][1:])
		if err != nil {
			panic(abort{"bad model: " + sb.String(), true})
		}
		v := toks[i+1]
		switch {
		case v == "true":
			model[n] = 1
		case v == "false":
			model[n] = 0
		case strings.HasPrefix(v, "#x"):
			model[n], _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			model[n], _ = strconv.ParseUint(v[2:], 2, 64)
		default:
			panic(abort{"bad model: " + sb.String(), true})
		}
	}
}
