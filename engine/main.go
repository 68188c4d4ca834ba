package main

import (
	"runtime/pprof"
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type options struct {
	prop, tier, repo, harness, out, evidence, solver, only, known string
	workers                                                       int
	budget                                                        time.Duration
	xcheck                                                        bool
}

var profStop = func() {}

func main() {
	var o options
	flag.StringVar(&o.prop, "prop", "", "property id")
	flag.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&o.repo, "repo", "/repo", "")
	flag.StringVar(&o.harness, "harness", "/verif/harness", "")
	flag.StringVar(&o.out, "out", "/verif/out", "")
	flag.StringVar(&o.evidence, "evidence", "", "evidence file")
	flag.StringVar(&o.solver, "solver", "z3", "")
	flag.StringVar(&o.only, "only", "", "run only this harness")
	flag.StringVar(&o.known, "known", "", "known findings file")
	flag.IntVar(&o.workers, "j", runtime.NumCPU(), "")
	flag.DurationVar(&o.budget, "budget", 0, "time for all harnesses of the property")
	flag.BoolVar(&o.xcheck, "xcheck", true, "confirm every mask decision with the solver")
	flag.BoolVar(&debugEngine, "debug", false, "")
	var replay string
	flag.StringVar(&replay, "replay", "", "run a recorded counterexample natively")
	prof := ""
	flag.StringVar(&prof, "prof", "", "write a CPU profile")
	flag.Parse()
	if prof != "" {
		f, err := os.Create(prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			profStop = func() { pprof.StopCPUProfile(); f.Close() }
		}
	}
	if replay != "" {
		os.Exit(runReplay(&o, replay))
	}
	if o.budget == 0 {
		o.budget = 420 * time.Second
		if o.tier == "thorough" {
			o.budget = 60 * time.Minute
		}
	}
	rc := run(&o)
	profStop()
	os.Exit(rc)
}

type harnessResult struct {
	name  string
	ex    *Explorer
	viol  []violation
	known []violation
	// candidates that did not reproduce
	spurious   []PathRec
	nativeRuns int
	mismatch   int
	mismatchEx string
	nonTerm    int
	elapsed    time.Duration
}

type violation struct {
	harness, kind, msg, detail string
	inputs                     []SymIn
	replay                     string
}

func run(o *options) int {
	t0 := time.Now()
	debug.SetGCPercent(400)
	dir := filepath.Join(o.harness, strings.ToLower(o.prop))
	hs, err := harnesses(dir)
	if err != nil || len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness:", err)
		return 2
	}
	if o.only != "" {
		var f []string
		for _, h := range hs {
			for _, x := range strings.Split(o.only, ",") {
				if h == x {
					f = append(f, h)
				}
			}
		}
		hs = f
	}
	set, err := newSetup(o.repo, o.harness)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.MkdirAll(o.out, 0o755)
	var nat native
	var natErr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		natErr = nat.build(o, set, hs)
	}()
	defer nat.clean()
	prog, pkg, err := set.load(strings.ToLower(o.prop))
	if err != nil {
		wg.Wait()
		fmt.Fprintln(os.Stderr, "cannot load the tree:", err)
		return 2
	}
	loadT := time.Since(t0)
	ex0 := &Explorer{p: prog, solver: o.solver, tier: o.tier}
	ex0.cond = sync.NewCond(&ex0.mu)
	ws := make([]*W, o.workers)
	errs := make([]error, o.workers)
	var iw sync.WaitGroup
	for i := range ws {
		w, err := newWorker(prog, ex0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ws[i] = w
		iw.Add(1)
		if i == 0 {
			// compile everything once without contention
			errs[0] = initWorker(w, pkg)
			iw.Done()
			continue
		}
		go func(i int) {
			defer iw.Done()
			errs[i] = initWorker(w, pkg)
		}(i)
	}
	iw.Wait()
	defer func() {
		for _, w := range ws {
			w.sol.Close()
		}
	}()
	for _, e := range errs {
		if e != nil {
			fmt.Fprintln(os.Stderr, "initialisation:", e)
			return 2
		}
	}
	wg.Wait()
	if natErr != nil {
		fmt.Fprintln(os.Stderr, "native build:", natErr)
		return 2
	}
	fmt.Printf("%s: loaded current tree in %.1fs, ready after %.1fs\n", o.prop, loadT.Seconds(), time.Since(t0).Seconds())
	var res []*harnessResult
	end := t0.Add(o.budget)
	for i, h := range hs {
		left := time.Until(end)
		share := left / time.Duration(len(hs)-i)
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		// a harness may use more than its share early on, never more than 60%
		lim := share
		if l2 := left * 6 / 10; l2 > lim {
			lim = l2
		}
		th := time.Now()
		ex := &Explorer{p: prog, entry: pkg.Func(h), solver: o.solver, tier: o.tier, deadline: th.Add(lim), maxRec: 200000, xcheck: o.xcheck}
		ex.try = func(rec PathRec) bool {
			rep := 200
			if rec.Outcome == "slow" {
				rep = 1
			}
			out := nat.run(o, h, []PathRec{rec}, rep, false)
			return len(out) == 1 && out[0].bad()
		}
		ex.run(ws)
		r := &harnessResult{name: h, ex: ex}
		res = append(res, r)
		r.decide(o, &nat)
		r.elapsed = time.Since(th)
		fmt.Printf("  %-28s %.1fs %s native=%d mismatch=%d violations=%d\n", h, r.elapsed.Seconds(), ex.summary(), r.nativeRuns, r.mismatch, len(r.viol))
		if r.mismatchEx != "" {
			fmt.Println("    mismatch:", r.mismatchEx)
		}
		if ex.timedOut {
			fmt.Println("    time limit: the bound was not exhausted")
		}
		if ex.fatal != "" {
			fmt.Fprintln(os.Stderr, "engine:", ex.fatal)
		}
		for m, n := range ex.unsup {
			fmt.Printf("    reduced coverage on %d paths: %s\n", n, m)
		}
		for i, s := range r.spurious {
			if i < 3 {
				fmt.Printf("    candidate not reproduced: %s %s %s\n", s.Outcome, s.Msg, jsonStr(s.Inputs))
			}
		}
		if len(r.viol) > 0 {
			break
		}
	}
	return finish(o, prog, hs, res, t0)
}

func initWorker(w *W, pkg interface{ Func(string) *ssaFunction }) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(*targetPanic); ok {
				err = fmt.Errorf("init: %s", tp.msg)
				return
			}
			if debugEngine {
				panic(r)
			}
			err = fmt.Errorf("%v", r)
		}
	}()
	w.initProgram(pkg.(*ssaPackage))
	return nil
}

// decide replays candidates and path models on the real code.
func (r *harnessResult) decide(o *options, nat *native) {
	ex := r.ex
	if len(ex.cands) > 0 {
		sort.SliceStable(ex.cands, func(i, j int) bool { return len(ex.cands[i].Inputs) < len(ex.cands[j].Inputs) })
		seen := map[string]bool{}
		n := 0
		for _, c := range ex.cands {
			if seen[c.Outcome+c.Msg] && n > 12 {
				continue
			}
			n++
			rep := 1
			if c.Outcome != "depth" && c.Outcome != "steps" {
				rep = 200
			}
			out := nat.run(o, r.name, []PathRec{c}, rep, false)
			r.nativeRuns++
			if len(out) == 1 && out[0].bad() {
				seen[c.Outcome+c.Msg] = true
				r.viol = append(r.viol, violation{r.name, out[0].Outcome, out[0].Msg, out[0].Detail, c.Inputs, ""})
				if len(r.viol) >= 5 {
					break
				}
			} else {
				r.spurious = append(r.spurious, c)
			}
		}
	}
	if len(ex.recs) > 0 && len(r.viol) == 0 {
		out := nat.run(o, r.name, ex.recs, 1, true)
		r.nativeRuns += len(out)
		for i, n := range out {
			rec := &ex.recs[i]
			if n.bad() {
				r.viol = append(r.viol, violation{r.name, n.Outcome, n.Msg, n.Detail, rec.Inputs, ""})
				if rec.Outcome == "ok" {
					r.mismatch++
				}
				if len(r.viol) >= 5 {
					break
				}
				continue
			}
			if rec.Outcome == "ok" && (n.Outcome != "ok" || n.Obs != rec.Obs) {
				r.mismatch++
				if r.mismatchEx == "" {
					r.mismatchEx = fmt.Sprintf("%s engine %q native %s %q", jsonStr(rec.Inputs), rec.Obs, n.Outcome, n.Obs)
				}
			}
		}
	}
}

type native struct {
	bin  string
	dir  string
	race bool // built with the race detector
}

type natOut struct {
	Outcome string `json:"outcome"`
	Msg     string `json:"msg"`
	Obs     string `json:"-"`
	ObsB    []byte `json:"obs"`
	Detail  string `json:"detail"`
}

func (n natOut) bad() bool {
	return n.Outcome == "assert" || n.Outcome == "panic" || n.Outcome == "crash" || n.Outcome == "timeout"
}

func (n *native) clean() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

func (n *native) build(o *options, set *setup, hs []string) error {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return err
	}
	n.dir = d
	p := strings.ToLower(o.prop)
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t%q\n\t%q\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", modPath+"/zzverif/sym", modPath+"/zzverif/"+p)
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", h, p, h)
	}
	sb.WriteString("\t})\n}\n")
	mf := filepath.Join(d, "main.go")
	if err := os.WriteFile(mf, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	rep := map[string]string{}
	for k, v := range set.overlay {
		rep[k] = v
	}
	rep[filepath.Join(set.repo, "zzverif", "zzmain", "main.go")] = mf
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(d, "overlay.json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return err
	}
	n.bin = filepath.Join(d, "native")
	args := []string{"build"}
	if n.race = usesTogether(filepath.Join(o.harness, p)); n.race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "-overlay="+of, "-modfile="+set.modfile, "-mod=readonly", "-o", n.bin, "./zzverif/zzmain")...)
	cmd.Dir = set.repo
	cmd.Env = set.env()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

// run executes the harness natively on the given inputs.
func (n *native) run(o *options, h string, recs []PathRec, repeat int, stopEarly bool) []natOut {
	var outs []natOut
	crashes := 0
	for len(outs) < len(recs) {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, r := range recs[len(outs):] {
			enc.Encode(r.Inputs)
		}
		lim := "ulimit -v 16000000; "
		if n.race {
			lim = "" // the race detector reserves address space
		}
		cmd := exec.Command("sh", "-c", lim+"exec \"$0\" \"$@\"", n.bin, h, o.tier, fmt.Sprint(repeat))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMEMLIMIT=8GiB")
		cmd.Stdin = &in
		var so, se bytes.Buffer
		cmd.Stdout = &so
		cmd.Stderr = &limitWriter{w: &se, n: 1 << 20}
		cmd.Run()
		sc := bufio.NewScanner(&so)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		got := 0
		stop := false
		for sc.Scan() {
			var x natOut
			if json.Unmarshal(sc.Bytes(), &x) != nil {
				break
			}
			x.Obs = string(x.ObsB)
			outs = append(outs, x)
			got++
			if x.bad() && stopEarly {
				crashes++
				if crashes > 5 {
					stop = true
					break
				}
			}
		}
		if stop {
			break
		}
		if len(outs) < len(recs) {
			if len(outs) > 0 && outs[len(outs)-1].Outcome == "timeout" && got > 0 {
				crashes++
			} else {
				msg := se.String()
				if i := strings.Index(msg, "WARNING: DATA RACE"); i >= 0 {
					msg = raceText(msg[i:])
				}
				if i := strings.IndexByte(msg, '\n'); i > 0 {
					msg = msg[:i]
				}
				if len(msg) > 300 {
					msg = msg[:300]
				}
				outs = append(outs, natOut{Outcome: "crash", Msg: msg})
				crashes++
			}
			if crashes > 5 {
				break
			}
		}
	}
	return outs
}

func usesTogether(dir string) bool {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil && bytes.Contains(b, []byte("sym.Together(")) {
			return true
		}
	}
	return false
}

// raceText is what the race detector says on one line.
func raceText(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		x = strings.TrimSpace(x)
		if strings.HasPrefix(x, "github.com/") || strings.Contains(x, " at 0x") {
			if i := strings.Index(x, " at 0x"); i >= 0 {
				x = x[:i]
			}
			l = append(l, x)
		}
		if len(l) > 5 {
			break
		}
	}
	return "data race: " + strings.Join(l, " ")
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(b []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(b)
	}
	return len(b), nil
}

// runReplay runs a recorded counterexample on the real code.
func runReplay(o *options, file string) int {
	var r struct {
		Property, Harness, Tier string
		Inputs                  []SymIn
	}
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o.prop = r.Property
	if r.Tier != "" {
		o.tier = r.Tier
	}
	set, err := newSetup(o.repo, o.harness)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var nat native
	defer nat.clean()
	if err := nat.build(o, set, []string{r.Harness}); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, x := range nat.run(o, r.Harness, []PathRec{{Inputs: r.Inputs}}, 200, false) {
		fmt.Println(x.Outcome, x.Msg)
		if x.Detail != "" {
			fmt.Println(x.Detail)
		}
		if x.bad() {
			return 1
		}
	}
	return 0
}
