package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|verify|list ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(3)
	}
}

func contractsDir() string {
	if d := os.Getenv("GOVC_CONTRACTS"); d != "" {
		return d
	}
	return "/verif/contracts"
}

// session loads the code and the contracts.  files: contract files, in order.
func session(files []string) (*Ver, error) {
	v := &Ver{spec: newSpec()}
	pats := map[string]bool{}
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "//packages:") {
				for _, p := range strings.Fields(strings.TrimPrefix(l, "//packages:")) {
					pats[p] = true
				}
			}
		}
		v.spec.parse(f, string(src))
	}
	ov := map[string][]byte{}
	if err := parserOverlay(ov); err != nil {
		return nil, err
	}
	var ps []string
	for p := range pats {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	if err := v.load(ps, ov); err != nil {
		return nil, err
	}
	return v, nil
}

func allSpecs() []string {
	fs, _ := filepath.Glob(filepath.Join(contractsDir(), "*.spec"))
	sort.Strings(fs)
	return fs
}

// withIncludes resolves "//include: a.spec b.spec" lines, dependencies first.
func withIncludes(names []string) []string {
	var out []string
	seen := map[string]bool{}
	var add func(n string)
	add = func(n string) {
		p := n
		if !filepath.IsAbs(p) {
			p = filepath.Join(contractsDir(), n)
		}
		if seen[p] {
			return
		}
		seen[p] = true
		src, err := os.ReadFile(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "//include:") {
				for _, q := range strings.Fields(strings.TrimPrefix(l, "//include:")) {
					add(q)
				}
			}
		}
		out = append(out, p)
	}
	for _, n := range names {
		add(n)
	}
	return out
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	fn := fs.String("f", "", "only functions whose name contains this (comma separated)")
	exact := fs.Bool("x", false, "exact names")
	specs := fs.String("s", "", "contract files")
	dump := fs.String("dump", "", "directory for SMT files")
	tier := fs.String("tier", "quick", "")
	verbose := fs.Bool("v", false, "")
	pcs := fs.Bool("pc", false, "print the hypotheses of failing obligations")
	fs.Parse(args)
	t0 := time.Now()
	v, err := session(withIncludes(strings.Split(*specs, ",")))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	match := func(n string) bool {
		if *fn == "" {
			return true
		}
		for _, f := range strings.Split(*fn, ",") {
			if *exact && n == f || !*exact && strings.Contains(n, f) {
				return true
			}
		}
		return false
	}
	ok := true
	var all []*Obl
	var execs []*Exec
	for i, m := range v.spec.Lemmas {
		if match("lemma " + m.Name) {
			all = append(all, v.verifyLemma(m, i)...)
		}
	}
	all = append(all, v.closedWorld()...)
	for _, t := range v.targets() {
		if !match(t.name) {
			continue
		}
		e := v.runTarget(t)
		execs = append(execs, e)
		all = append(all, e.obls...)
	}
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
	}
	st := v.solveAll(all, *tier, 1000, *dump)
	byFn := map[string][]*Obl{}
	var order []string
	for _, o := range all {
		if byFn[o.Func] == nil {
			order = append(order, o.Func)
		}
		byFn[o.Func] = append(byFn[o.Func], o)
	}
	for _, f := range order {
		p, bad := 0, 0
		tm := 0.0
		for _, o := range byFn[f] {
			tm += o.Time
			if o.Result == "proved" {
				p++
			} else {
				bad++
			}
		}
		mark := "ok  "
		if bad > 0 {
			mark = "FAIL"
			ok = false
		}
		fmt.Printf("%s %-50s %d/%d  %.1fs\n", mark, f, p, p+bad, tm)
		for _, o := range byFn[f] {
			if o.Result != "proved" {
				fmt.Printf("     %s [%s] %s  %s\n", o.Kind, o.Label, o.Pos, o.Query)
				if o.Why != "" {
					fmt.Printf("       %s\n", o.Why)
				}
				if *pcs {
					for _, h := range o.Hyps {
						fmt.Printf("        H %s\n", h.smt())
					}
				}
				if *verbose || *pcs {
					fmt.Printf("        G %s\n", o.Goal.smt())
					fmt.Printf("        %s\n", strings.ReplaceAll(o.Output, "\n", "\n        "))
				}
			} else if *verbose && o.Time > 1 {
				fmt.Printf("     slow %s [%s] %s %.1fs by %s\n", o.Kind, o.Label, o.Pos, o.Time, o.By)
			}
		}
	}
	bad, n, secs := v.vacuity(execs)
	for _, b := range bad {
		fmt.Println("VACUOUS", b)
		ok = false
	}
	fmt.Printf("%d obligations, %v by backend, vacuity %d (%.1fs), total %.1fs\n", len(all), st.ByBackend, n, secs, time.Since(t0).Seconds())
	for _, e := range execs {
		if e.rets == 0 && !e.spec.NoReturn {
			fmt.Println("NO RETURN", e.name)
		}
	}
	if !ok {
		os.Exit(1)
	}
}
