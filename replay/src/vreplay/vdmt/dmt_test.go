package vdmt

import (
	"fmt"
	"strings"
	"testing"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Mods/dmt"
	"github.com/GoelandProver/Goeland/Typing"
	"github.com/GoelandProver/Goeland/Unif"
	"github.com/GoelandProver/Goeland/vreplay"
	"github.com/GoelandProver/Goeland/vreplay/vast"
)

const consts = 2

type gen struct {
	*vast.Gen
	next int
}

func (g *gen) con(i int) *vast.T { return &vast.T{K: 'f', N: 8000 + i} }
func (g *gen) term(vs []int) *vast.T {
	if len(vs) > 0 && g.R.Intn(4) != 0 {
		return &vast.T{K: 'v', N: vs[g.R.Intn(len(vs))]}
	}
	return g.con(g.R.Intn(consts))
}

// atoms: 0 and 1 are nullary, 2 and 3 unary, equality
func (g *gen) atom(vs []int) *vast.F {
	switch n := g.R.Intn(8); {
	case n < 2:
		return &vast.F{K: 'p', N: 8100 + n}
	case n == 7:
		return &vast.F{K: 'p', N: AST.Id_eq.GetIndex(), As: []*vast.T{g.term(vs), g.term(vs)}}
	default:
		return &vast.F{K: 'p', N: 8102 + n%2, As: []*vast.T{g.term(vs)}}
	}
}
func (g *gen) lit(vs []int) *vast.F {
	f := g.atom(vs)
	if g.R.Intn(12) == 0 {
		f = &vast.F{K: "TB"[g.R.Intn(2)]}
	}
	if g.R.Intn(3) == 0 {
		f = &vast.F{K: '!', Fs: []*vast.F{f}}
	}
	return f
}
func (g *gen) form(vs []int, d int) *vast.F {
	if d <= 0 || g.R.Intn(6) == 0 {
		return g.lit(vs)
	}
	k := "!&|>=AE"[g.R.Intn(7)]
	f := &vast.F{K: k}
	switch k {
	case '!':
		f.Fs = []*vast.F{g.form(vs, d-1)}
	case 'A', 'E':
		g.next++
		v := 7000 + g.next
		f.Vs = []vast.V{{N: v, Y: &vast.Y{K: 'c', S: "$i"}}}
		f.Fs = []*vast.F{g.form(append(vs[:len(vs):len(vs)], v), d-1)}
	default:
		f.Fs = []*vast.F{g.form(vs, d-1), g.form(vs, d-1)}
	}
	return f
}

// axiom gives a universally closed formula whose body is mostly an equivalence or implication with a literal side.
func (g *gen) axiom() *vast.F {
	var vs []int
	var bind []vast.V
	for i := g.R.Intn(3); i > 0; i-- {
		g.next++
		vs = append(vs, 7000+g.next)
		bind = append(bind, vast.V{N: 7000 + g.next, Y: &vast.Y{K: 'c', S: "$i"}})
	}
	a, b := g.lit(vs), g.form(vs, 2)
	if g.R.Intn(2) == 0 {
		a, b = b, a
	}
	f := &vast.F{K: "==>>>"[g.R.Intn(5)], Fs: []*vast.F{a, b}}
	if g.R.Intn(10) == 0 {
		f = g.form(vs, 2)
	}
	if len(bind) > 0 {
		if len(bind) > 1 && g.R.Intn(2) == 0 {
			f = &vast.F{K: 'A', Vs: bind[1:], Fs: []*vast.F{f}}
			bind = bind[:1]
		}
		f = &vast.F{K: 'A', Vs: bind, Fs: []*vast.F{f}}
	}
	return f
}

type rule struct{ lit, to *vast.F }

// rules asks what every ground literal is rewritten to.
func rules(b *vast.Builder) (out []rule, bad string) {
	var lits []*vast.F
	for n := 0; n < 4; n++ {
		if n < 2 {
			lits = append(lits, &vast.F{K: 'p', N: 8100 + n})
			continue
		}
		for c := 0; c < consts; c++ {
			lits = append(lits, &vast.F{K: 'p', N: 8100 + n, As: []*vast.T{{K: 'f', N: 8000 + c}}})
		}
	}
	for c := 0; c < consts; c++ {
		for d := 0; d < consts; d++ {
			lits = append(lits, &vast.F{K: 'p', N: AST.Id_eq.GetIndex(), As: []*vast.T{{K: 'f', N: 8000 + c}, {K: 'f', N: 8000 + d}}})
		}
	}
	for _, p := range lits {
		for _, l := range []*vast.F{p, {K: '!', Fs: []*vast.F{p}}} {
			res, err := dmt.Rewrite(b.Form(l))
			if err != nil {
				return nil, fmt.Sprintf("rewriting %s: %v", l, err)
			}
			for i := range res {
				if res[i].GetId_rewrite() == -1 {
					continue
				}
				for _, f := range res[i].GetSaf().GetForm().GetSlice() {
					out = append(out, rule{l, vast.ReadForm(f)})
				}
			}
		}
	}
	return out, ""
}

func show(rs []rule) string {
	var o []string
	for _, r := range rs {
		o = append(o, fmt.Sprintf("%s ---> %s", r.lit, r.to))
	}
	return strings.Join(o, "; ")
}

func TestVerifC14(t *testing.T) {
	vast.Init()
	Core.InitDebugger()
	Unif.InitDebugger()
	Typing.InitDebugger()
	Typing.Init()
	dmt.InitDebugger()
	vast.PanicOnAnomaly()
	r := vreplay.Start(t, "C14", "the axiom, its registration and the rewriting of every ground literal in all small models tried")
	g := &gen{Gen: vast.New(r.R)}
	r.Loop(func(i int) {
		polar := i%3 != 0
		n := 1
		if r.R.Intn(4) == 0 {
			n = 2
		}
		var axs []*vast.F
		for j := 0; j < n; j++ {
			axs = append(axs, g.axiom())
		}
		in := func() string {
			s := fmt.Sprintf("polarized=%v", polar)
			for _, a := range axs {
				s += "; axiom " + a.String()
			}
			return s
		}
		r.Do("register", in, func() {
			dmt.InitPluginTests(polar, false)
			b := vast.NewBuilder(r.R)
			var kept []bool
			for _, a := range axs {
				f := b.Form(a).RenameVariables()
				before := vast.Dump(f)
				kept = append(kept, dmt.RegisterAxiom(f))
				if vast.Dump(f) != before {
					r.Fail("axiom changed", in(), before, vast.Dump(f))
				}
			}
			rs, bad := rules(b)
			if bad != "" {
				r.Fail("rewrite error", in(), "an answer", bad)
				return
			}
			sig := ""
			if len(rs) > 0 {
				sig = in()
			}
			r.Case(sig)
			if n == 1 && kept[0] && len(rs) == 0 {
				// the literal may be about no ground instance only if it is an equality
				r.Fail("consumed without a rule", in(), "at least one rule, or the axiom kept", "the axiom is consumed and no literal is rewritten")
			}
			if n == 1 && !kept[0] && len(rs) > 0 {
				r.Fail("kept with rules", in(), "no rule", show(rs))
			}
			for _, x := range rs {
				p := x.lit
				if p.K == '!' {
					p = p.Fs[0]
				}
				if p.N == AST.Id_eq.GetIndex() {
					r.Fail("equality rewritten", in(), "equalities are never rewritten", show([]rule{x}))
				}
			}
			body := func(a *vast.F) *vast.F {
				for a.K == 'A' {
					a = a.Fs[0]
				}
				return a
			}
			for k := 0; k < 12; k++ {
				m := vast.NewModel(r.R, consts, AST.Id_eq.GetIndex())
				for c := 0; c < consts; c++ {
					m.Fn[fmt.Sprintf("f%d", 8000+c)] = c
				}
				allax := true
				for _, a := range axs {
					allax = allax && m.Holds(a, nil)
				}
				allrules := true
				for _, x := range rs {
					ok := !m.Holds(x.lit, nil) || m.Envs(x.to.Metas(), nil, func(e vast.Env) bool { return m.Holds(x.to, e) })
					allrules = allrules && ok
					if allax && !ok {
						r.Fail("rule does not follow", in(), "a consequence of the axiom", fmt.Sprintf("%s; not so in a model with %v", show([]rule{x}), m.P))
					}
				}
				if n == 1 && kept[0] && allrules && !allax && body(axs[0]).K == '=' {
					r.Fail("axiom lost", in(), "rules that say as much as the equivalence", show(rs))
				}
			}
		})
	})
	r.Done()
}

var _ = Lib.MkListV[int]
