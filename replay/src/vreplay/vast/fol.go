package vast

import (
	"fmt"
	"github.com/GoelandProver/Goeland/Glob"
	"math/rand"
)

// Model is an interpretation over the domain 0..D-1, drawn as it is consulted.
type Model struct {
	R    *rand.Rand
	D    int
	EqID int // the predicate read as equality
	P    map[string]bool
	Fn   map[string]int
}

func NewModel(r *rand.Rand, d, eq int) *Model {
	return &Model{r, d, eq, map[string]bool{}, map[string]int{}}
}

// Env gives values to variables ('v') and metavariables ('m').
type Env map[[2]int]int

func (e Env) with(k byte, n, d int) Env {
	o := Env{}
	for a, b := range e {
		o[a] = b
	}
	o[[2]int{int(k), n}] = d
	return o
}
func (m *Model) Term(t *T, e Env) int {
	key := ""
	switch t.K {
	case 'v', 'm':
		if d, ok := e[[2]int{int(t.K), t.N}]; ok {
			return d
		}
		key = fmt.Sprintf("%c%d", t.K, t.N)
	default:
		key = fmt.Sprintf("f%d", t.N)
		for _, a := range t.As {
			key += fmt.Sprintf(",%d", m.Term(a, e))
		}
	}
	if _, ok := m.Fn[key]; !ok {
		m.Fn[key] = m.R.Intn(m.D)
	}
	return m.Fn[key]
}
func (m *Model) Pred(f *F, e Env) bool {
	if f.N == m.EqID && len(f.As) == 2 {
		return m.Term(f.As[0], e) == m.Term(f.As[1], e)
	}
	key := fmt.Sprintf("p%d", f.N)
	for _, a := range f.As {
		key += fmt.Sprintf(",%d", m.Term(a, e))
	}
	if _, ok := m.P[key]; !ok {
		m.P[key] = m.R.Intn(2) == 0
	}
	return m.P[key]
}

// Holds gives the truth value of a first-order formula.
func (m *Model) Holds(f *F, e Env) bool {
	switch f.K {
	case 'T':
		return true
	case 'B':
		return false
	case '!':
		return !m.Holds(f.Fs[0], e)
	case '&':
		for _, g := range f.Fs {
			if !m.Holds(g, e) {
				return false
			}
		}
		return true
	case '|':
		for _, g := range f.Fs {
			if m.Holds(g, e) {
				return true
			}
		}
		return false
	case '>':
		return !m.Holds(f.Fs[0], e) || m.Holds(f.Fs[1], e)
	case '=':
		return m.Holds(f.Fs[0], e) == m.Holds(f.Fs[1], e)
	case 'A', 'E':
		return m.quant(f.K == 'A', f.Vs, f.Fs[0], e)
	}
	return m.Pred(f, e)
}
func (m *Model) quant(all bool, vs []V, f *F, e Env) bool {
	if len(vs) == 0 {
		return m.Holds(f, e)
	}
	for d := 0; d < m.D; d++ {
		if m.quant(all, vs[1:], f, e.with('v', vs[0].N, d)) != all {
			return !all
		}
	}
	return all
}

// All calls f with every environment over the given metavariables.
func (m *Model) Envs(metas []int, e Env, f func(Env) bool) bool {
	if len(metas) == 0 {
		return f(e)
	}
	for d := 0; d < m.D; d++ {
		if !m.Envs(metas[1:], e.with('m', metas[0], d), f) {
			return false
		}
	}
	return true
}

// PanicOnAnomaly makes an anomaly or fatal error of the code panic instead of ending the process.
func PanicOnAnomaly() {
	Glob.CreateDebugger("verif")
	Glob.SetDebug("verif")
	if !Glob.GetDebug() {
		panic("the debug mode is not on")
	}
}
