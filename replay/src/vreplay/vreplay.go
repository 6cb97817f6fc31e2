// Package vreplay searches the real code for concrete inputs on which a property fails.
package vreplay

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

type Run struct {
	T        *testing.T
	R        *rand.Rand
	Prop     string
	deadline time.Time
	Evals    int
	seen     map[string]bool
	samples  []string
	failed   map[string]bool
	rule     string
	first    time.Time
	// NoPanic: a panic of the code under test is not a failure of the property
	NoPanic bool
}

func env(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

func Start(t *testing.T, prop, rule string) *Run {
	return &Run{T: t, R: rand.New(rand.NewSource(int64(env("VERIF_SEED", 1))*7919 + 13)), Prop: prop, rule: rule,
		deadline: time.Now().Add(time.Duration(env("VERIF_BUDGET", 3)) * time.Second), seen: map[string]bool{}, failed: map[string]bool{}}
}

// Split gives the part num/den of the remaining budget to the phase that starts now.
func (r *Run) Left() time.Duration { return time.Until(r.deadline) }

func write(v any) {
	b, _ := json.Marshal(v)
	if f := os.Getenv("VERIF_OUT"); f != "" {
		h, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err == nil {
			h.Write(append(b, '\n'))
			h.Close()
		}
	} else {
		fmt.Println(string(b))
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Fail reports a failing input; one report per key.
func (r *Run) Fail(key, input, want, got string) {
	if r.failed[key] {
		return
	}
	r.failed[key] = true
	if r.first.IsZero() {
		r.first = time.Now()
	}
	write(map[string]any{"fail": map[string]string{"property": r.Prop, "key": key, "input": cut(input, 4000), "want": cut(want, 2000), "got": cut(got, 2000)}})
}

// Case counts one evaluated input; sig identifies it, and trivial inputs give "".
func (r *Run) Case(sig string) {
	r.Evals++
	if sig == "" {
		return
	}
	if len(sig) > 300 {
		sig = sig[:300]
	}
	if len(r.seen) < 200000 && !r.seen[sig] {
		r.seen[sig] = true
		if len(r.samples) < 4 && r.Evals%17 == 1 {
			r.samples = append(r.samples, sig)
		}
	}
}

// Do runs one case and turns a panic into a reported failure.
func (r *Run) Do(key string, input func() string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if r.NoPanic {
				return
			}
			in := "?"
			func() {
				defer func() { recover() }()
				in = input()
			}()
			r.Fail(key+"/panic", in, "no panic", fmt.Sprint(e))
		}
	}()
	f()
}

// Loop runs f until the budget is used up, or enough failures were found.
func (r *Run) Loop(f func(i int)) {
	end := r.deadline
	n := 0
	for i := 0; ; i++ {
		f(i)
		n++
		if n >= 20 && (time.Now().After(end) || len(r.failed) >= 6 || !r.first.IsZero() && time.Since(r.first) > 2*time.Second) {
			return
		}
	}
}

// LoopFor is Loop for the fraction num/den of the budget still left.
func (r *Run) LoopFor(num, den int, f func(i int)) {
	save := r.deadline
	r.deadline = time.Now().Add(time.Until(save) * time.Duration(num) / time.Duration(den))
	r.Loop(f)
	r.deadline = save
}

func (r *Run) Done() {
	samples := r.samples
	if len(samples) == 0 {
		for s := range r.seen {
			samples = append(samples, s)
			break
		}
	}
	write(map[string]any{"stats": map[string]any{"evaluations": r.Evals, "distinct": len(r.seen), "rule": r.rule, "samples": samples}})
	if len(r.failed) > 0 {
		r.T.Fail()
	}
}
