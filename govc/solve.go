package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Attempt struct {
	Name string
	Args []string
	Head string
	Tout time.Duration
}

const z3head = "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"

func attempts(tier string) []Attempt {
	m := time.Duration(1)
	if tier == "thorough" {
		m = 4
	}
	return []Attempt{
		{"z3-new", []string{"-in", "-smt2"}, z3head, 4 * time.Second * m},
		{"cvc5", []string{"--lang=smt2", "--incremental", "-"}, "(set-logic ALL)\n", 6 * time.Second * m},
		{"z3", []string{"-in", "-smt2"}, z3head + "(set-option :smt.random_seed 7)\n", 5 * time.Second * m},
		{"z3-new", []string{"-in", "-smt2"}, z3head + "(set-option :smt.random_seed 11)\n(set-option :smt.arith.solver 2)\n", 8 * time.Second * m},
		{"z3-new", []string{"-in", "-smt2"}, "(set-option :smt.random_seed 3)\n", 6 * time.Second * m},
	}
}

func runSolver(a Attempt, script string) (string, string, float64) {
	ctx, cancel := context.WithTimeout(context.Background(), a.Tout+2*time.Second)
	defer cancel()
	args := append([]string{}, a.Args...)
	if strings.HasPrefix(a.Name, "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(a.Tout.Seconds())), "-memory:3000")
	} else {
		args = append([]string{fmt.Sprintf("--tlimit=%d", a.Tout.Milliseconds())}, args...)
	}
	cmd := exec.CommandContext(ctx, a.Name, args...)
	cmd.Stdin = strings.NewReader(a.Head + script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t := time.Now()
	_ = cmd.Run()
	d := time.Since(t).Seconds()
	first := strings.TrimSpace(out.String())
	for _, l := range strings.Split(first, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return "unsat", first, d
		case "sat":
			return "sat", first, d
		}
	}
	return "unknown", first, d
}

type Stats struct {
	SolverTime map[string]float64
	ByBackend  map[string]int
	mu         sync.Mutex
}

// solveAll discharges the obligations; at most maxFail failures are explored in full.
func (v *Ver) solveAll(obls []*Obl, tier string, maxFail int, dump string) *Stats {
	st := &Stats{SolverTime: map[string]float64{}, ByBackend: map[string]int{}}
	v.instLemmas()
	v.finishImpl()
	v.finishRank()
	v.instLemmas()
	type job struct{ o *Obl }
	jobs := make(chan job)
	var failed int32
	var wg sync.WaitGroup
	ats := attempts(tier)
	var qmu sync.Mutex
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				o := j.o
				if int(atomic.LoadInt32(&failed)) >= maxFail {
					o.Result, o.Output = "skipped", "not attempted: enough obligations already failed"
					continue
				}
				if o.Goal.Op == "false" && o.Why == "" && len(o.Hyps) == 0 {
					o.Result = "failed"
					atomic.AddInt32(&failed, 1)
					continue
				}
				qmu.Lock()
				script := W.query(o.Hyps, o.Goal, o.Uses, o.Lemma)
				qmu.Unlock()
				if dump != "" {
					n := sanitize(o.Name()) + fmt.Sprintf("_%p", o)
					_ = os.WriteFile(filepath.Join(dump, n+".smt2"), []byte(z3head+script), 0o644)
					o.Query = filepath.Join(dump, n+".smt2")
				}
				o.Result = "failed"
				for _, a := range ats {
					r, out, d := runSolver(a, script)
					o.Time += d
					st.mu.Lock()
					st.SolverTime[a.Name] += d
					st.mu.Unlock()
					o.Output += fmt.Sprintf("%s: %s (%.2fs)\n", a.Name, firstLines(out, 3), d)
					if r == "unsat" {
						o.Result, o.By = "proved", a.Name
						st.mu.Lock()
						st.ByBackend[a.Name]++
						st.mu.Unlock()
						break
					}
					if strings.Contains(out, "error") {
						o.Output += "solver error\n"
						if os.Getenv("GOVC_DEBUG") != "" {
							fmt.Fprintln(os.Stderr, "SOLVER ERROR", o.Name(), out)
						}
					}
				}
				if o.Result != "proved" {
					atomic.AddInt32(&failed, 1)
				}
			}
		}()
	}
	for _, o := range obls {
		if o.Result == "" {
			jobs <- job{o}
		}
	}
	close(jobs)
	wg.Wait()
	// A few obligations left over: give each a second, longer round on an idle
	// machine, so that a busy machine does not decide the outcome.
	if n := int(failed); n > 0 && n < maxFail {
		sem := make(chan bool, 3)
		for _, o := range obls {
			if o.Result != "failed" || o.Why != "" || (o.Goal.Op == "false" && len(o.Hyps) == 0) {
				continue
			}
			wg.Add(1)
			go func(o *Obl) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				qmu.Lock()
				script := W.query(o.Hyps, o.Goal, o.Uses, o.Lemma)
				qmu.Unlock()
				for i, a := range ats {
					a.Tout *= 3
					if a.Name != "cvc5" {
						a.Head += fmt.Sprintf("(set-option :smt.random_seed %d)\n", 101+i)
					}
					r, out, d := runSolver(a, script)
					st.mu.Lock()
					o.Time += d
					st.SolverTime[a.Name] += d
					o.Output += fmt.Sprintf("second round, %s: %s (%.2fs)\n", a.Name, firstLines(out, 3), d)
					if r == "unsat" {
						o.Result, o.By = "proved", a.Name
						st.ByBackend[a.Name]++
					}
					st.mu.Unlock()
					if r == "unsat" {
						return
					}
				}
			}(o)
		}
		wg.Wait()
	}
	for _, o := range obls {
		if o.Result == "proved" && o.By == "simplifier" {
			st.ByBackend["simplifier"]++
		}
	}
	return st
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

// vacuity: the entry conditions of a function must not be contradictory.
func (v *Ver) vacuity(es []*Exec) (bad []string, n int, secs float64) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, e := range es {
		var pcs [][]*T
		if e.entryPc != nil {
			pcs = append(pcs, e.entryPc)
		}
		// some path to a return must be feasible: check the hypotheses of a few
		k := len(e.retPcs)
		for i := 0; i < k && i < 3; i++ {
			pcs = append(pcs, e.retPcs[i*k/3%k])
		}
		scripts := []string{}
		for _, pc := range pcs {
			scripts = append(scripts, W.query(pc, tFalse, e.spec.Uses, 0))
		}
		wg.Add(1)
		go func(e *Exec, scripts []string) {
			defer wg.Done()
			for i, s := range scripts {
				sem <- true
				r, _, d := runSolver(Attempt{"z3-new", []string{"-in", "-smt2"}, z3head, 1 * time.Second}, s)
				<-sem
				mu.Lock()
				n++
				secs += d
				if r == "unsat" {
					if i == 0 {
						bad = append(bad, e.name+": its requirements contradict each other")
						mu.Unlock()
						return
					}
					e.deadRets++
					if e.deadRets == len(scripts)-1 {
						bad = append(bad, e.name+": no sampled path to a return is feasible")
					}
				}
				mu.Unlock()
			}
		}(e, scripts)
	}
	wg.Wait()
	return
}
