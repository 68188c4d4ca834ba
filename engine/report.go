package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ssaPackage = ssa.Package
type ssaFunction = ssa.Function

type knownFinding struct {
	prop, harness, match, text string
}

// readKnown reads lines "finding: property=C01 harness=H match=TEXT :: description".
func readKnown(file, prop string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		head, text, _ := strings.Cut(l, " :: ")
		k := knownFinding{prop: prop, text: text}
		if i := strings.Index(head, " harness="); i >= 0 {
			k.harness = strings.Fields(head[i+9:])[0]
		}
		if i := strings.Index(head, " match="); i >= 0 {
			k.match = head[i+7:]
		}
		out = append(out, k)
	}
	return out
}

func finish(o *options, p *Program, hs []string, res []*harnessResult, t0 time.Time) int {
	var viol []violation
	known := readKnown(o.known, o.prop)
	printed := map[string]bool{}
	for _, r := range res {
		for _, v := range r.viol {
			isKnown := false
			for _, k := range known {
				if k.harness == v.harness && k.match != "" && strings.Contains(jsonStr(v.inputs)+" "+v.msg+" "+v.detail, k.match) {
					isKnown = true
					if !printed[k.text] {
						printed[k.text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.text)
					}
				}
			}
			if !isKnown {
				viol = append(viol, v)
			}
		}
	}
	broken := ""
	var covMissing []string
	for _, r := range res {
		if r.ex.fatal != "" {
			broken = r.ex.fatal
		}
		for _, c := range coverNames(p, r.name) {
			if r.ex.covers[c] == 0 {
				covMissing = append(covMissing, r.name+"/"+c)
			}
		}
	}
	rd := filepath.Join(o.out, "replays")
	os.MkdirAll(rd, 0o755)
	for i := range viol {
		v := &viol[i]
		v.replay = filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", o.prop, v.harness, i))
		b, _ := json.MarshalIndent(map[string]any{"property": o.prop, "harness": v.harness, "tier": o.tier, "kind": v.kind, "message": v.msg,
			"detail": v.detail, "inputs": v.inputs, "replay_cmd": "cd /verif && ./replay " + v.replay}, "", " ")
		os.WriteFile(v.replay, b, 0o644)
	}
	if o.evidence != "" {
		writeEvidence(o, p, hs, res, viol, covMissing, t0)
	}
	for i, v := range viol {
		if i == 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, v.replay)
		}
		fmt.Printf("  %s: %s %s\n", v.harness, v.kind, v.msg)
		fmt.Printf("    inputs %s\n", jsonStr(v.inputs))
		if v.detail != "" {
			fmt.Printf("    %s\n", strings.ReplaceAll(v.detail, "\n", "\n    "))
		}
	}
	if len(viol) > 0 {
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "engine failure:", broken)
		return 2
	}
	if len(covMissing) > 0 {
		fmt.Println("not reached within the bounds (coverage reduced):", strings.Join(covMissing, ", "))
	}
	fmt.Printf("%s: held on everything explored (%.1fs)\n", o.prop, time.Since(t0).Seconds())
	return 0
}

// coverNames finds the constant arguments of sym.Cover in a harness.
func coverNames(p *Program, h string) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sf := c.Common().StaticCallee()
				if sf == nil {
					continue
				}
				if sf.String() == symPkg+".Cover" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						out = append(out, strings.Trim(k.Value.ExactString(), "\""))
					}
				} else if sf.Pkg != nil && strings.Contains(sf.Pkg.Pkg.Path(), "/zzverif/c") {
					walk(sf)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	for f := range p.funcs {
		if f.Name() == h && f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/zzverif/") {
			walk(f)
		}
	}
	return out
}

func writeEvidence(o *options, p *Program, hs []string, res []*harnessResult, viol []violation, covMissing []string, t0 time.Time) {
	var fns []string
	for _, f := range p.funcs {
		if f.used.Load() && f.inRepo && f.fn.Pkg != nil && !strings.Contains(f.fn.Pkg.Pkg.Path(), "/zzverif/") {
			fns = append(fns, strings.ReplaceAll(f.name, modPath, "parlex"))
		}
	}
	sort.Strings(fns)
	var paths, queries, sat, unsat, unknown, asserts, assertQ, native, mism, spurious, unsup, mask, steps int64
	var solve, maxSolve time.Duration
	complete := true
	det := map[string]any{}
	var bounds []string
	for _, r := range res {
		ex := r.ex
		paths += ex.paths
		queries += ex.queries
		sat += ex.sat
		unsat += ex.unsat
		unknown += ex.unknown
		asserts += ex.asserts
		assertQ += ex.assertQ
		mask += ex.maskDec
		steps += ex.steps
		native += int64(r.nativeRuns)
		mism += int64(r.mismatch)
		spurious += int64(len(r.spurious))
		unsup += ex.ends["unsupported"]
		solve += ex.solveTime
		if ex.maxSolve > maxSolve {
			maxSolve = ex.maxSolve
		}
		if ex.timedOut || ex.fatal != "" || ex.ends["unsupported"] > 0 || ex.ends["depth"] > 0 || ex.ends["steps"] > 0 {
			complete = false
		}
		var ps []string
		for k, v := range ex.params {
			ps = append(ps, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(ps)
		bounds = append(bounds, r.name+": "+strings.Join(ps, " "))
		det[r.name] = map[string]any{"bounds": ex.params, "paths": ex.paths, "path_ends": ex.ends, "queries": ex.queries, "unsat": ex.unsat,
			"solver_seconds": ex.solveTime.Seconds(), "assertions_checked": ex.asserts, "assertions_needing_solver": ex.assertQ, "covered": ex.covers,
			"symbolic_variables_max": ex.vars, "bound_exhausted": !ex.timedOut, "reduced_coverage": ex.unsup, "native_replays": r.nativeRuns,
			"encoding_mismatches": r.mismatch, "candidates_not_reproduced": len(r.spurious), "seconds": r.elapsed.Seconds(), "mask_decisions": ex.maskDec,
			"mask_decisions_confirmed_by_solver": ex.xchecked, "value_sets_confirmed_by_solver": ex.confUse, "distinct_value_set_queries": len(ex.conf)}
	}
	ver, _ := exec.Command(o.solver, "--version").Output()
	ev := map[string]any{
		"property": o.prop, "tier": o.tier, "technique": "symbolic execution of the Go SSA of the current tree, SMT (z3) decides",
		"result":  map[bool]string{true: "holds within bounds", false: "violated"}[len(viol) == 0],
		"elapsed_seconds": time.Since(t0).Seconds(),
		"functions_encoded": fns, "functions_encoded_count": len(fns),
		"bounds": bounds, "bounds_exhausted": complete, "harnesses": det,
		"paths": paths, "queries_discharged": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unknown,
		"solver": strings.TrimSpace(string(ver)), "solver_seconds": solve.Seconds(), "solver_max_seconds": maxSolve.Seconds(),
		"assertions_checked": asserts, "assertions_needing_solver": assertQ, "instructions_executed": steps,
		"mask_decisions": mask, "native_replays": native, "encoding_mismatches": mism, "candidates_not_reproduced": spurious,
		"paths_outside_the_encoding": unsup, "not_reached": covMissing, "seed": os.Getenv("VERIF_SEED"),
	}
	for _, k := range []string{"property", "tier", "seed", "elapsed_seconds"} {
		delete(ev, k)
	}
	var samples []any
	var forks int64
	for _, r := range res {
		forks += r.ex.forks
		for i, rec := range r.ex.recs {
			if i == len(r.ex.recs)/2 || i == len(r.ex.recs)-1 {
				samples = append(samples, map[string]any{"harness": r.name, "path_model": rec.Inputs, "outcome": rec.Outcome})
			}
		}
	}
	ev["states"] = paths
	ev["transitions"] = forks
	ev["traces_validated_against_impl"] = native
	ev["samples"] = samples
	ev["exhaustive"] = complete
	ev["explanation"] = "states = symbolic end states (paths of the harness through the real code, each standing for all inputs that satisfy its path condition); transitions = symbolic branches on which both sides were feasible; every path model is also run on the natively compiled code and the outcome and observations compared"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	top := map[string]any{"property": o.prop, "tier": o.tier, "seed": seed, "level": "model_checking", "coverage": ev,
		"wall_s": time.Since(t0).Seconds(), "violations": len(viol), "assumptions": assumptions}
	b, _ := json.MarshalIndent(top, "", " ")
	os.MkdirAll(filepath.Dir(o.evidence), 0o755)
	os.WriteFile(o.evidence, append(b, '\n'), 0o644)
}

var assumptions = []string{
	"claims are bounded: they hold for every value of the symbolic inputs within the bounds listed under coverage.harnesses, nothing outside them",
	"the Go SSA built by golang.org/x/tools/go/ssa means what the compiler implements; the executor in /verif/engine encodes it (each explored path is replayed natively and compared)",
	"regexp is modelled (leftmost-first backtracking on regexp/syntax programs; native regexp when the text is concrete); fmt, sync, sort.Slice and bytealg primitives are modelled by intrinsics; all other library code is executed from its source",
	"z3's verdicts; decisions about a single variable of at most 8 bits are made by its exact value set (each such decision is re-confirmed by z3, equal queries once)",
}
