package vsearch

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Search"
	"github.com/GoelandProver/Goeland/vreplay"
	"github.com/GoelandProver/Goeland/vreplay/vast"
)

func TestVerifC07(t *testing.T) {
	Init()
	r := vreplay.Start(t, "C07", "random formulas, the branches of the rule of their class compared with the formula under every valuation of the atoms")
	r.Loop(func(i int) {
		g := vast.New(r.R)
		b := vast.NewBuilder(r.R)
		f := g.Prop(1 + r.R.Intn(4))
		if i%5 == 4 {
			f = g.Form(2)
		}
		if i < 40 { // long lists first
			n := 1 + i%7
			f = &vast.F{K: "&|"[i/7%2]}
			for j := 0; j < n; j++ {
				f.Fs = append(f.Fs, &vast.F{K: 'p', N: 3000 + j})
			}
			if i >= 14 {
				f = &vast.F{K: '!', Fs: []*vast.F{f}}
			}
		}
		c := f.Class()
		if c != "alpha" && c != "beta" {
			r.Case("")
			return
		}
		r.Case(f.String())
		r.Do("rule", f.String, func() {
			form := b.Form(f)
			before := vast.Dump(form)
			st := State(3)
			fnt := FT(form)
			var br [][]*vast.F
			if c == "alpha" {
				br = [][]*vast.F{Read(Search.ApplyAlphaRules(fnt, &st))}
			} else {
				for _, l := range Search.ApplyBetaRules(fnt, &st) {
					br = append(br, Read(l))
				}
			}
			if msg, ok := Branches(r.R, f, br); !ok {
				r.Fail(c+" rule on "+shape(f), "formula "+f.String()+"\nbranches "+Show(br), "the formula is true exactly when all formulas of some branch are", msg)
			}
			if vast.Dump(form) != before {
				r.Fail("input changed", f.String(), before, vast.Dump(form))
			}
		})
	})
	r.Done()
}

var classes = map[Core.KindOfRule]string{Core.Atomic: "atomic", Core.Alpha: "alpha", Core.Beta: "beta", Core.Delta: "delta", Core.Gamma: "gamma"}

// model of the state of a branch
type model map[string][]string

func (m model) copy() model {
	n := model{}
	for k, v := range m {
		n[k] = append([]string{}, v...)
	}
	return n
}
func (m model) String() string {
	var o []string
	for _, k := range []string{"lf", "atomic", "alpha", "beta", "delta", "gamma"} {
		o = append(o, k+": "+strings.Join(m[k], ", "))
	}
	return strings.Join(o, "\n")
}

func readState(st *Search.State) model {
	m := model{}
	add := func(k string, l Core.FormAndTermsList) {
		for _, f := range Read(l) {
			m[k] = append(m[k], f.String())
		}
	}
	add("lf", st.GetLF())
	add("atomic", st.GetAtomic())
	add("alpha", st.GetAlpha())
	add("beta", st.GetBeta())
	add("delta", st.GetDelta())
	add("gamma", st.GetGamma())
	return m
}

func TestVerifC08(t *testing.T) {
	Init()
	r := vreplay.Start(t, "C08", "random formulas classified, and random histories of dispatching formulas into states and copying states, compared with a model of the lists")
	r.Loop(func(i int) {
		g := vast.New(r.R)
		b := vast.NewBuilder(r.R)
		if i%3 == 0 {
			f := g.Prop(r.R.Intn(4))
			if r.R.Intn(3) == 0 {
				f = g.Form(2)
			}
			if r.R.Intn(2) == 0 {
				f = &vast.F{K: '!', Fs: []*vast.F{f}}
			}
			r.Case(f.String())
			r.Do("class", f.String, func() {
				if k := classes[Core.ShowKindOfRule(b.Form(f))]; k != f.Class() {
					r.Fail("class of "+f.Class(), f.String(), f.Class(), k)
				}
			})
			return
		}
		var log []string
		in := func() string { return strings.Join(log, "\n") }
		r.Do("state", in, func() {
			sts := []Search.State{State(5)}
			ms := []model{{}}
			n := 4 + r.R.Intn(20)
			for j := 0; j < n; j++ {
				k := r.R.Intn(len(sts))
				if r.R.Intn(5) == 0 && len(sts) < 6 {
					sts = append(sts, sts[k].Copy())
					ms = append(ms, ms[k].copy())
					log = append(log, fmt.Sprintf("state%d = state%d.Copy()", len(sts)-1, k))
				} else {
					if r.R.Intn(6) == 0 {
						var fs []string
						l := Core.FormAndTermsList{}
						for q := r.R.Intn(4); q > 0; q-- {
							f := g.Prop(r.R.Intn(2))
							if !l.Contains(FT(b.Form(f))) {
								l = append(l, FT(b.Form(f)))
								fs = append(fs, f.String())
							}
						}
						log = append(log, fmt.Sprintf("state%d.SetLF(%s)", k, strings.Join(fs, ", ")))
						sts[k].SetLF(l)
						ms[k]["lf"] = fs
						continue
					}
					f := g.Prop(r.R.Intn(3))
					if r.R.Intn(3) > 0 {
						f = &vast.F{K: 'p', N: 3000 + r.R.Intn(30)}
					}
					log = append(log, fmt.Sprintf("state%d.DispatchForm(%s)", k, f))
					sts[k].DispatchForm(FT(b.Form(f)))
					c := f.Class()
					dup := false
					for _, x := range ms[k][c] {
						dup = dup || x == f.String()
					}
					if !dup {
						ms[k][c] = append(ms[k][c], f.String())
					}
				}
				for q := range sts {
					if got := readState(&sts[q]); got.String() != ms[q].String() {
						r.Fail("state contents", in()+fmt.Sprintf("\nthen read state%d", q), ms[q].String(), got.String())
						return
					}
					var all []string
					for _, f := range Read(sts[q].GetAllForms()) {
						all = append(all, f.String())
					}
					var want []string
					set := map[string]bool{}
					for _, l := range ms[q] {
						for _, x := range l {
							if !set[x] {
								set[x] = true
								want = append(want, x)
							}
						}
					}
					sort.Strings(all)
					sort.Strings(want)
					if strings.Join(all, ";") != strings.Join(want, ";") {
						r.Fail("GetAllForms", in()+fmt.Sprintf("\nthen state%d.GetAllForms()", q), strings.Join(want, "; "), strings.Join(all, "; "))
						return
					}
				}
			}
			r.Case(in())
		})
	})
	r.Done()
}

var _ = AST.MakerTop
var _ = Lib.NewList[int]
