// gosym: bounded symbolic execution of Go code over SMT.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(10 << 30)
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "list":
		for _, h := range scanHarnesses(root(), "") {
			fmt.Println(h.prop, h.name, h.pkgDir, h.tiers)
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: gosym check PROPERTY [-tier quick|thorough] [-only HARNESS] [-v] | gosym replay FILE | gosym list")
	os.Exit(2)
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	exe, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(exe))
	}
	return "/verif"
}

func repoDir() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func setup(prop string, tier int, only string, verbose bool) (*Engine, func(), error) {
	r := root()
	e := &Engine{verif: r, repo: repoDir(), tier: tier, mods: map[string]*Module{}, verbose: verbose, workers: runtime.NumCPU()}
	if e.workers > 8 {
		e.workers = 8
	}
	base := filepath.Join(r, ".work")
	os.MkdirAll(base, 0o755)
	w, err := os.MkdirTemp(base, prop+"-")
	if err != nil {
		w, err = os.MkdirTemp("", "gosym-")
		if err != nil {
			return nil, nil, err
		}
	}
	e.work = w
	clean := func() { os.RemoveAll(w) }
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sig
		clean()
		os.Exit(2)
	}()
	for _, h := range scanHarnesses(r, prop) {
		if only != "" && !strings.Contains(h.name, only) {
			continue
		}
		if h.tiers == "thorough" && tier == 0 || h.tiers == "quick" && tier == 1 {
			continue
		}
		e.hs = append(e.hs, h)
	}
	mods := map[string][]*Harness{}
	for _, h := range e.hs {
		mods[h.module] = append(mods[h.module], h)
	}
	for rel, hs := range mods {
		m, err := loadModule(r, e.repo, rel, w, hs)
		if err != nil {
			clean()
			return nil, nil, err
		}
		e.mods[rel] = m
	}
	return e, clean, nil
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tierS := fs.String("tier", "", "")
	only := fs.String("only", "", "")
	verbose := fs.Bool("v", false, "")
	limit := fs.Int("limit", 0, "seconds")
	workers := fs.Int("workers", 0, "")
	if len(args) == 0 {
		usage()
	}
	prop := args[0]
	fs.Parse(args[1:])
	tier := 0
	if *tierS == "thorough" || *tierS == "" && os.Getenv("VERIF_TIER") == "thorough" {
		tier = 1
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	e, clean, err := setup(prop, tier, *only, *verbose)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	defer clean()
	e.seed = seed
	if *workers > 0 {
		e.workers = *workers
	}
	lim := 400
	if tier == 1 {
		lim = 3000
	}
	if *limit > 0 {
		lim = *limit
	}
	e.deadline = time.Now().Add(time.Duration(lim) * time.Second)
	known := loadKnown(filepath.Join(e.verif, "KNOWN_FINDINGS"))
	e.known = func(v *Violation) bool { return known.match(v) != nil }
	// build the replay programs while exploring
	for _, m := range e.mods {
		go e.runner(m)
	}
	e.run()
	code := 0
	for _, m := range e.mods {
		if _, err := e.runner(m); err != nil {
			fmt.Fprintln(os.Stderr, "gosym:", err)
			code = 2
		}
		for _, d := range m.dropped {
			fmt.Println("NOTE harness file does not fit the current code and was left out:", d)
		}
	}
	nviol := 0
	for _, v := range e.violations {
		if k := known.match(v); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Prop, k.text)
			continue
		}
		nviol++
		dir := filepath.Join(e.verif, "replays", prop)
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, v.Harness+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": v.Prop, "harness": v.Harness, "label": v.Label, "kind": v.Kind, "inputs": v.Inputs, "detail": v.Detail, "tier": tier, "how": "bin/gosym replay " + f}, "", " ")
		os.WriteFile(f, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, f)
		fmt.Printf("  %s: %s\n  inputs: %s\n", v.Harness, v.Detail, inputStr(v.Inputs))
	}
	for _, h := range e.hs {
		s := &h.stat
		if h.fn == nil {
			fmt.Printf("%-34s not run\n", h.name)
			continue
		}
		fmt.Printf("%-34s paths %d (complete %d, discarded %d, inconclusive %d, unfinished %d) assertions %d (%d by simplification, %d undecided) open branches %d validated %d mismatch %d spurious %d %.1fs\n",
			h.name, s.Paths, s.Complete, s.Discarded, s.Inconclusive, s.TimedOut, s.Asserts, s.Folded, s.AssertUnknown, s.Unknown, s.Validated, s.Mismatch, s.Spurious, s.End.Sub(s.Start).Seconds())
		for n, c := range s.Notes {
			fmt.Printf("    %d x %s\n", c, n)
		}
		if *verbose {
			fmt.Println("    covers", s.Covers)
		}
	}
	fmt.Printf("solver: %d queries (%d sat, %d unsat, %d unknown), %d cache hits, %.1fs; longest %.1fs\n", e.stats.Queries, e.stats.Sat, e.stats.Unsat, e.stats.Unknown, e.stats.CacheHits, float64(e.stats.Nanos)/1e9, float64(e.stats.MaxNanos)/1e9)
	if *only == "" {
		if err := e.evidence(prop, seed, nviol, time.Since(start)); err != nil {
			fmt.Fprintln(os.Stderr, "gosym:", err)
			code = 2
		}
	}
	if nviol > 0 {
		return 1
	}
	return code
}

func inputStr(in map[string]string) string {
	var ks []string
	for k := range in {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(k + "=" + in[k])
		if sb.Len() > 1500 {
			sb.WriteString(" ...")
			break
		}
	}
	return sb.String()
}

type knownFinding struct{ prop, key, inputs, text string }
type knownList []*knownFinding

// loadKnown reads lines "finding: property=ID key=HARNESS/LABEL [inputs=a=1,b=2] text".
func loadKnown(f string) knownList {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out knownList
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		k := &knownFinding{}
		rest := strings.Fields(strings.TrimPrefix(l, "finding:"))
		var text []string
		for _, w := range rest {
			switch {
			case strings.HasPrefix(w, "property=") && k.prop == "":
				k.prop = w[9:]
			case strings.HasPrefix(w, "key=") && k.key == "":
				k.key = w[4:]
			case strings.HasPrefix(w, "inputs=") && k.inputs == "":
				k.inputs = w[7:]
			default:
				text = append(text, w)
			}
		}
		k.text = strings.Join(text, " ")
		out = append(out, k)
	}
	return out
}
func (l knownList) match(v *Violation) *knownFinding {
	for _, k := range l {
		if k.prop != v.Prop || k.key != v.key() {
			continue
		}
		ok := true
		if k.inputs != "" {
			for _, kv := range strings.Split(k.inputs, ",") {
				i := strings.IndexByte(kv, '=')
				if i < 0 || v.Inputs[kv[:i]] != kv[i+1:] {
					ok = false
				}
			}
		}
		if ok {
			return k
		}
	}
	return nil
}

func (e *Engine) evidence(prop string, seed, nviol int, wall time.Duration) error {
	var fns []string
	lib := 0
	e.fns.Range(func(k, _ interface{}) bool {
		f := k.(*ssa.Function)
		if f.Synthetic != "" {
			return true
		}
		pos := f.Prog.Fset.Position(f.Pos())
		if strings.Contains(pos.Filename, "zz_verif_") || strings.Contains(pos.Filename, "/verifsym/") {
			return true
		}
		if !e.isRepoPkg(f.Pkg) || f.Pkg == nil {
			lib++
			return true
		}
		rel, _ := filepath.Rel(e.repo, pos.Filename)
		fns = append(fns, fmt.Sprintf("%s (%s:%d)", f.RelString(types.NewPackage("", "")), rel, pos.Line))
		return true
	})
	sort.Strings(fns)
	var paths, complete, valid, dec, asserts, folded, und, inc, unf, unk, mism, spur, disc int64
	var samples, harn []interface{}
	exhaustive := true
	var dropped []string
	for _, m := range e.mods {
		dropped = append(dropped, m.dropped...)
	}
	if len(dropped) > 0 || len(e.hs) == 0 {
		exhaustive = false
	}
	var assumptions []string
	for _, h := range e.hs {
		s := &h.stat
		paths += s.Paths
		complete += s.Complete
		disc += s.Discarded
		valid += s.Validated
		dec += s.Decisions
		asserts += s.Asserts
		folded += s.Folded
		und += s.AssertUnknown
		inc += s.Inconclusive
		unf += s.TimedOut
		unk += s.Unknown
		mism += s.Mismatch
		spur += s.Spurious
		if h.fn == nil || s.Inconclusive+s.TimedOut+s.Unknown+s.AssertUnknown > 0 {
			exhaustive = false
		}
		for _, in := range s.Samples {
			if len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"harness": h.name, "inputs_of_one_path": in})
			}
		}
		harn = append(harn, map[string]interface{}{"name": h.name, "bounds": h.bounds, "ran": h.fn != nil, "paths": s.Paths, "complete": s.Complete, "assumption_cut": s.Discarded, "inconclusive": s.Inconclusive, "unfinished": s.TimedOut, "open_branches": s.Unknown, "assertions": s.Asserts, "assertions_by_simplification": s.Folded, "assertions_undecided": s.AssertUnknown, "reached": s.Covers, "notes": s.Notes, "seconds": s.End.Sub(s.Start).Seconds()})
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]interface{}{"note": "no symbolic input: all harnesses ran on constants"})
	}
	assumptions = append(assumptions,
		"inputs outside the bounds listed per harness are not covered",
		"harnesses marked ieee encode float64/float32 bit-precisely; in the others a float is a real number with the rounding error bound of the operations that produced it, and a comparison closer than the bound is explored both ways",
		"trusted: x/tools SSA construction, the gosym interpreter (cross-checked natively on every path), z3 and cvc5")
	engs := map[string]int64{}
	for i, n := range engNames {
		if e.stats.ByEngine[i] > 0 {
			engs[n] = e.stats.ByEngine[i]
		}
	}
	tier := "quick"
	if e.tier == 1 {
		tier = "thorough"
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": paths, "transitions": dec, "traces_validated_against_impl": valid, "samples": samples,
			"explanation":       "states = symbolic paths executed, transitions = branch decisions put to the solver, traces validated = paths whose model was run on the compiled code with the same observations",
			"exhaustive":        exhaustive,
			"functions_encoded": fns, "library_functions_encoded": lib,
			"assertions": asserts, "assertions_discharged_by_solver": asserts - folded - und, "assertions_discharged_by_simplification": folded, "assertions_undecided": und,
			"paths_complete": complete, "paths_cut_by_assumptions": disc, "paths_inconclusive": inc, "paths_unfinished": unf, "branch_alternatives_undecided": unk,
			"native_mismatches": mism, "counterexamples_not_reproduced": spur,
			"queries": e.stats.Queries, "queries_sat": e.stats.Sat, "queries_unsat": e.stats.Unsat, "queries_unknown": e.stats.Unknown, "query_cache_hits": e.stats.CacheHits,
			"solver_seconds": float64(e.stats.Nanos) / 1e9, "longest_query_seconds": float64(e.stats.MaxNanos) / 1e9, "answers_by_engine": engs,
			"harnesses": harn, "harness_files_left_out": dropped,
		},
		"assumptions": assumptions,
		"wall_s":      wall.Seconds(),
		"violations":  nviol,
	}
	dir := filepath.Join(e.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}

// replay runs a recorded counterexample on the current tree.
func replay(args []string) int {
	if len(args) < 1 {
		usage()
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property, Harness, Label, Kind string
		Inputs                         map[string]string
		Tier                           int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e, clean, err := setup(r.Property, r.Tier, r.Harness, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer clean()
	for _, h := range e.hs {
		if h.name != r.Harness {
			continue
		}
		rp := &Replayer{eng: e}
		defer rp.close()
		for i := 0; i < 300; i++ {
			n := rp.run(h, r.Inputs, 30*time.Second)
			if n == nil {
				fmt.Println("cannot run:", h.stat.Notes)
				return 2
			}
			if n.Hang || n.Crash || n.Panic != "" || len(n.Fails) > 0 {
				fmt.Printf("reproduced: hang=%v crash=%v panic=%q failed assertions=%v\n", n.Hang, n.Crash, n.Panic, n.Fails)
				return 1
			}
			if !h.mapAny {
				break
			}
		}
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Println("no such harness")
	return 2
}
