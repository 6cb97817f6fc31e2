package incremental

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/vreplay"
	"github.com/GoelandProver/Goeland/vreplay/vast"
	"github.com/GoelandProver/Goeland/vreplay/vsearch"
)

func initAll() {
	vsearch.Init()
	InitDebugger()
	Core.InitDebugger()
}

func readRules(l RuleList) []*vast.F {
	var out []*vast.F
	for _, r := range l {
		out = append(out, vast.ReadForm(r.GetForm()))
	}
	return out
}

func TestVerifC07(t *testing.T) {
	initAll()
	r := vreplay.Start(t, "C07", "random formulas, the branches of their rule in the incremental search compared with the formula under every valuation of the atoms")
	r.Loop(func(i int) {
		g := vast.New(r.R)
		b := vast.NewBuilder(r.R)
		f := g.Prop(1 + r.R.Intn(4))
		if c := f.Class(); c != "alpha" && c != "beta" {
			r.Case("")
			return
		}
		r.Case(f.String())
		r.Do("incremental rule", f.String, func() {
			form := b.Form(f)
			before := vast.Dump(form)
			var br [][]*vast.F
			for _, l := range makeCorrectRule(form, Lib.NewList[AST.Term]()).apply() {
				br = append(br, readRules(l))
			}
			if msg, ok := vsearch.Branches(r.R, f, br); !ok {
				r.Fail("incremental rule", "formula "+f.String()+"\nbranches "+vsearch.Show(br), "the formula is true exactly when all formulas of some branch are", msg)
			}
			if f.Class() == "alpha" && len(br) != 1 {
				r.Fail("incremental rule branches", f.String(), "one branch", fmt.Sprint(len(br)))
			}
			if vast.Dump(form) != before {
				r.Fail("input changed", f.String(), before, vast.Dump(form))
			}
		})
	})
	r.Done()
}

func TestVerifC08(t *testing.T) {
	initAll()
	r := vreplay.Start(t, "C08", "random formulas put into the rule manager of the incremental search, compared with a model of its lists")
	r.Loop(func(i int) {
		g := vast.New(r.R)
		b := vast.NewBuilder(r.R)
		var log []string
		in := func() string { return strings.Join(log, "\n") }
		r.Do("rule manager", in, func() {
			rm := makeRulesManager()
			want := map[string]bool{}
			n := 1 + r.R.Intn(10)
			for j := 0; j < n; j++ {
				f := g.Prop(r.R.Intn(4))
				log = append(log, "insertForm("+f.String()+")")
				rm.insertForm(b.Form(f))
				c := f.Class()
				if c == "atomic" && f.K == '!' {
					c = "atomic not"
				}
				want[c+" "+f.String()] = true
				var ws, gs []string
				for w := range want {
					ws = append(ws, w)
				}
				for _, p := range []struct {
					n string
					l RuleList
				}{{"atomic", rm.atomicRules}, {"atomic not", rm.atomicNotRules}, {"alpha", rm.alphaRules}, {"beta", rm.betaRules}, {"gamma", rm.gammaRules}, {"delta", rm.deltaRules}} {
					for _, x := range readRules(p.l) {
						gs = append(gs, p.n+" "+x.String())
					}
				}
				sort.Strings(ws)
				sort.Strings(gs)
				if strings.Join(ws, "\n") != strings.Join(gs, "\n") {
					r.Fail("rule manager", in(), strings.Join(ws, "\n"), strings.Join(gs, "\n"))
					return
				}
			}
			r.Case(in())
		})
	})
	r.Done()
}
