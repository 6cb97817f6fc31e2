package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// PropCfg says how one property is checked.
type PropCfg struct {
	Specs   []string    `json:"specs"`   // contract files
	Replay  []ReplayCfg `json:"replay"`  // harnesses that look for a concrete failing input
	Min     int         `json:"min"`     // least number of functions and lemmas that must be under contract
	Assumes []string    `json:"assumes"` // assumptions stated for this property
	Level   string      `json:"level"`
}

type ReplayCfg struct {
	Pkg string `json:"pkg"`
	Run string `json:"run"`
}

type Finding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`  // known or fixed
	Match    string `json:"match"` // exact obligation name or failing-input key
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return filepath.Dir(contractsDir())
}

func loadFindings() []Finding {
	var out []Finding
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		var x Finding
		if err := json.Unmarshal([]byte(l), &x); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.jsonl:", err)
			os.Exit(3)
		}
		out = append(out, x)
	}
	return out
}

// ReplayFail is one concrete failing input found on the real code.
type ReplayFail struct {
	Property string `json:"property"`
	Key      string `json:"key"`   // stable identification of what fails
	Input    string `json:"input"` // the failing input, written out
	Want     string `json:"want"`
	Got      string `json:"got"`
}

type ReplayStats struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
}

type ReplayRun struct {
	Cmd   string
	OK    bool
	Err   string
	Fails []ReplayFail
	Stats []ReplayStats
	Time  float64
}

// overlayFile writes the overlay that puts the harnesses (and a generated parser, when the working tree lacks one) next to the code.
func overlayFile(tmp string) (string, error) {
	rep := map[string]string{}
	root := filepath.Join(verifDir(), "replay", "src")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		rep[filepath.Join(srcDir(), rel)] = p
		return nil
	})
	if err != nil {
		return "", err
	}
	ov := map[string][]byte{}
	if err := parserOverlay(ov); err != nil {
		return "", err
	}
	for k, b := range ov {
		f := filepath.Join(tmp, filepath.Base(k))
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return "", err
		}
		rep[k] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	f := filepath.Join(tmp, "overlay.json")
	return f, os.WriteFile(f, js, 0o644)
}

func runReplay(prop string, rc ReplayCfg, tier string, seed int, budget int, hard bool) (rr ReplayRun) {
	t0 := time.Now()
	defer func() { rr.Time = time.Since(t0).Seconds() }()
	tmp, err := os.MkdirTemp("", "govcreplay")
	if err != nil {
		rr.Err = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	ov, err := overlayFile(tmp)
	if err != nil {
		rr.Err = err.Error()
		return
	}
	out := filepath.Join(tmp, "out.jsonl")
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget*3+200)*time.Second)
	defer cancel()
	bin := filepath.Join(tmp, "harness")
	bld := exec.CommandContext(ctx, "go", "test", "-c", "-overlay", ov, "-vet=off", "-o", bin, rc.Pkg)
	bld.Dir = srcDir()
	bld.Env = append(os.Environ(), "GOFLAGS=")
	if o, err := bld.CombinedOutput(); err != nil {
		rr.Err = "the harness does not build: " + tail(string(o), 3000)
		return
	}
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^"+rc.Run+"$", "-test.timeout", fmt.Sprintf("%ds", budget*3+120))
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VERIF_OUT="+out, "VERIF_PROP="+prop, fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_BUDGET=%d", budget), "VERIF_TIER="+tier, "VERIF_SCRATCH="+tmp)
	if hard {
		cmd.Env = append(cmd.Env, "VERIF_HARD=1")
	}
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	cmd.WaitDelay = 5 * time.Second
	rerr := cmd.Run()
	rr.Cmd = fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_BUDGET=%d go test -overlay <overlay of %s/replay/src> -run '^%s$' %s", srcDir(), seed, budget, verifDir(), rc.Run, rc.Pkg)
	if b, err := os.ReadFile(out); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if l == "" {
				continue
			}
			var m struct {
				Fail  *ReplayFail  `json:"fail"`
				Stats *ReplayStats `json:"stats"`
			}
			if json.Unmarshal([]byte(l), &m) != nil {
				continue
			}
			if m.Fail != nil {
				rr.Fails = append(rr.Fails, *m.Fail)
			}
			if m.Stats != nil {
				rr.Stats = append(rr.Stats, *m.Stats)
			}
		}
	}
	rr.OK = len(rr.Stats) > 0
	if rerr != nil && len(rr.Fails) == 0 {
		rr.Err = fmt.Sprintf("%v: %s", rerr, tail(o.String(), 3000))
	} else if !rr.OK && len(rr.Fails) == 0 {
		rr.Err = "the harness reported nothing: " + tail(o.String(), 3000)
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("p", "", "property")
	tier := fs.String("tier", "", "quick or thorough")
	noReplay := fs.Bool("noreplay", false, "")
	noProof := fs.Bool("noproof", false, "")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	b, err := os.ReadFile(filepath.Join(contractsDir(), "props.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cfgs := map[string]PropCfg{}
	if err := json.Unmarshal(b, &cfgs); err != nil {
		fmt.Fprintln(os.Stderr, "props.json:", err)
		os.Exit(3)
	}
	cfg, ok := cfgs[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	t0 := time.Now()
	var obls []*Obl
	var execs []*Exec
	var lemmas []string
	trusted := map[string]bool{}
	notes := map[string]bool{}
	inlined := map[string]bool{}
	var funcs []string
	ov := &Stats{SolverTime: map[string]float64{}, ByBackend: map[string]int{}}
	vac, vacSecs := 0, 0.0
	var loadErr string
	var v *Ver
	if !*noProof {
		v, err = session(withIncludes(cfg.Specs))
		if err != nil {
			// the code does not load: that is not an answer about the property
			fmt.Fprintln(os.Stderr, "cannot load the code:", err)
			os.Exit(2)
		}
		has := func(ps []string) bool { return inList(ps, *prop) }
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprint(r)
					if se, ok := r.(SpecErr); ok {
						msg = se.msg
					} else if os.Getenv("GOVC_PANIC") != "" {
						panic(r)
					}
					obls = append(obls, &Obl{Func: "contracts", Kind: "contract", Label: "the contracts no longer fit the code", Goal: tFalse, Result: "failed", Output: msg, Why: msg})
				}
			}()
			for i, m := range v.spec.Lemmas {
				if has(m.Props) {
					lemmas = append(lemmas, m.Name)
					obls = append(obls, v.verifyLemma(m, i)...)
				}
			}
			obls = append(obls, v.closedWorld()...)
			invs := false
			for _, d := range v.spec.TypeInvs {
				invs = invs || has(d.Props)
			}
			covered := map[string]bool{}
			for _, t := range v.targets() {
				if !has(t.props) && !invs {
					continue
				}
				e := v.runTarget(t)
				covered[t.name] = true
				for n := range e.inlined {
					covered[n] = true
				}
				own := has(t.props)
				kept := false
				for _, o := range e.obls {
					if has(o.Props) || own && len(o.Props) == 0 {
						obls = append(obls, o)
						kept = true
					}
				}
				if !own && !kept {
					continue
				}
				execs = append(execs, e)
				funcs = append(funcs, t.name)
				for n := range e.assumed {
					notes[n] = true
				}
				for n := range e.inlined {
					inlined[n] = true
				}
				for n := range e.used {
					if s := v.spec.Funcs[n]; s != nil && s.Trusted {
						trusted[n+": "+s.Why] = true
					} else if s != nil && s.Bounded != "" {
						trusted[n+" (bounded: "+s.Bounded+")"] = true
					}
				}
			}
			if invs {
				obls = append(obls, v.builders(*prop, covered)...)
			}
			for _, a := range v.spec.Axioms {
				if a.Why != "" {
					trusted["axiom "+a.Name+": "+a.Why] = true
				}
			}
			ov = v.solveAll(obls, *tier, 6, "")
		}()
		var bad []string
		bad, vac, vacSecs = v.vacuity(execs)
		for _, x := range bad {
			obls = append(obls, &Obl{Func: x, Kind: "vacuity", Label: "the proof would be vacuous", Goal: tFalse, Result: "failed", Why: x})
		}
		for _, e := range execs {
			if e.rets == 0 && !e.spec.NoReturn && len(e.obls) > 0 {
				failed := false
				for _, o := range e.obls {
					failed = failed || o.Result != "proved"
				}
				if !failed {
					obls = append(obls, &Obl{Func: e.name, Kind: "vacuity", Label: "no path returns", Goal: tFalse, Result: "failed", Why: "no path returns"})
				}
			}
		}
		if len(funcs)+len(lemmas) < cfg.Min {
			obls = append(obls, &Obl{Func: "contracts", Kind: "contract", Label: "fewer functions under contract than expected", Goal: tFalse, Result: "failed", Why: fmt.Sprintf("%d functions and lemmas, %d expected", len(funcs)+len(lemmas), cfg.Min)})
		}
	}
	_ = loadErr
	proved := 0
	var failed []*Obl
	for _, o := range obls {
		if o.Result == "proved" {
			proved++
		} else {
			failed = append(failed, o)
		}
	}
	find := loadFindings()
	known := func(key string) *Finding {
		for i := range find {
			f := &find[i]
			if f.Property == *prop && f.Kind == "known" && f.Match == key {
				return f
			}
		}
		return nil
	}
	budget := 12
	if *tier == "thorough" {
		budget = 150
	}
	realFail := false
	for _, o := range failed {
		if known(o.Name()) == nil {
			realFail = true
		}
	}
	if realFail && budget < 60 {
		budget = 60
	}
	var runs []ReplayRun
	if !*noReplay {
		for _, rc := range cfg.Replay {
			runs = append(runs, runReplay(*prop, rc, *tier, seed, budget, realFail))
		}
	}
	// verdict
	printed := map[string]bool{}
	var newFails []ReplayFail
	for _, r := range runs {
		for _, f := range r.Fails {
			if k := known(f.Key); k != nil {
				if !printed[f.Key] {
					printed[f.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
				}
				continue
			}
			newFails = append(newFails, f)
		}
	}
	var newObls []*Obl
	nknown := 0
	for _, o := range failed {
		if k := known(o.Name()); k != nil {
			nknown++
			if !printed[k.What] {
				printed[k.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
			}
			continue
		}
		newObls = append(newObls, o)
	}
	var replayErrs []string
	evals, distinct := 0, 0
	var rules, samples []string
	for _, r := range runs {
		if r.Err != "" {
			replayErrs = append(replayErrs, r.Err)
		}
		for _, s := range r.Stats {
			evals += s.Evaluations
			distinct += s.Distinct
			rules = append(rules, s.Rule)
			for _, x := range s.Samples {
				if len(samples) < 5 {
					samples = append(samples, x)
				}
			}
		}
	}
	nviol := 0
	if len(newFails) > 0 || len(newObls) > 0 {
		nviol = 1
	}
	// evidence
	var nd []string
	for _, o := range newObls {
		nd = append(nd, o.Name())
	}
	cov := map[string]any{
		"obligations":              len(obls),
		"discharged":               proved,
		"known_findings":           nknown,
		"checker_cmd":              fmt.Sprintf("/verif/check.sh %s", *prop),
		"trusted_base":             append(sortedKeys(trusted), "govc (the verification-condition generator in /verif/govc) and golang.org/x/tools/go/ssa", "the SMT solvers z3 5.x, z3 4.8.12 and cvc5 1.1.2"),
		"functions_under_contract": funcs,
		"lemmas":                   lemmas,
		"functions_inlined":        sortedKeys(inlined),
		"discharged_by":            ov.ByBackend,
		"solver_seconds":           ov.SolverTime,
		"vacuity_queries":          vac,
		"vacuity_seconds":          vacSecs,
		"undischarged":             nd,
		"contract_files":           cfg.Specs,
	}
	if len(runs) > 0 {
		cov["crosscheck_evaluations"] = evals
		cov["crosscheck_distinct_nontrivial"] = distinct
		cov["crosscheck_rule"] = "bounded, not counted as proof: " + strings.Join(rules, "; ")
		cov["crosscheck_samples"] = samples
		if len(replayErrs) > 0 {
			cov["crosscheck_errors"] = replayErrs
		}
	}
	assumptions := append([]string{}, cfg.Assumes...)
	assumptions = append(assumptions, "machine integers are treated as mathematical integers", "function values passed as arguments are pure and total; recursion and loops are assumed to terminate (partial correctness)")
	assumptions = append(assumptions, sortedKeys(notes)...)
	if v != nil && len(v.pruned) > 0 {
		assumptions = append(assumptions, "contracts of helpers that no longer exist were dropped: "+strings.Join(v.pruned, ", "))
	}
	if cfg.Level == "" {
		cfg.Level = "proof"
	}
	if cfg.Level == "exploration" {
		cov["evaluations"], cov["distinct_nontrivial"], cov["rule"], cov["samples"] = evals, distinct, strings.Join(rules, "; "), samples
	}
	ev := map[string]any{"property": *prop, "tier": *tier, "seed": seed, "level": cfg.Level, "coverage": cov, "assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nviol}
	evdir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evdir, 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, *prop+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("%s: %d functions, %d lemmas, %d/%d obligations discharged, %d cross-check evaluations, %.1fs\n", *prop, len(funcs), len(lemmas), proved, len(obls), evals, time.Since(t0).Seconds())
	for _, e := range replayErrs {
		fmt.Printf("note: cross-check harness: %s\n", tail(e, 600))
	}
	if nviol == 0 {
		if len(funcs) == 0 && evals == 0 {
			fmt.Fprintln(os.Stderr, "nothing was checked")
			os.Exit(2)
		}
		return
	}
	rp := filepath.Join(evdir, *prop+".replay.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\n", *prop)
	for _, f := range newFails {
		fmt.Fprintf(&sb, "failing input (%s)\n  input: %s\n  expected: %s\n  observed: %s\n\n", f.Key, f.Input, f.Want, f.Got)
	}
	for _, r := range runs {
		fmt.Fprintf(&sb, "replayed by: %s\n", r.Cmd)
	}
	for _, o := range newObls {
		fmt.Fprintf(&sb, "\nobligation %s (%s) not discharged\n  goal: %s\n  %s\n", o.Name(), o.Pos, tail(o.Goal.smt(), 2000), strings.ReplaceAll(o.Output+o.Why, "\n", "\n  "))
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, o := range newObls {
		if i > 8 {
			break
		}
		fmt.Printf("not discharged: %s %s %s\n", o.Name(), o.Pos, o.Why)
	}
	sort.SliceStable(newFails, func(i, j int) bool { return len(newFails[i].Input) < len(newFails[j].Input) })
	if len(newFails) > 0 {
		f := newFails[0]
		fmt.Printf("failing input: %s: %s: expected %s, observed %s\n", f.Key, f.Input, f.Want, f.Got)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rp)
	}
	os.Exit(1)
}
