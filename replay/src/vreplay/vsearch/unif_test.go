package vsearch

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Unif"
	"github.com/GoelandProver/Goeland/vreplay"
	"github.com/GoelandProver/Goeland/vreplay/vast"
)

// bindings in order
type bind struct {
	m int
	t *vast.T
}
type binds []bind

func (b binds) String() string {
	var o []string
	for _, x := range b {
		o = append(o, fmt.Sprintf("?%d -> %s", x.m, x.t))
	}
	return "{" + strings.Join(o, ", ") + "}"
}
func (b binds) sorted() string {
	var o []string
	for _, x := range b {
		o = append(o, fmt.Sprintf("?%d -> %s", x.m, x.t))
	}
	sort.Strings(o)
	return strings.Join(o, ", ")
}
func (b binds) get(m int) *vast.T {
	for _, x := range b {
		if x.m == m {
			return x.t
		}
	}
	return nil
}
func (b binds) set(m int, t *vast.T) binds {
	o := append(binds{}, b...)
	for i := range o {
		if o[i].m == m {
			o[i].t = t
			return o
		}
	}
	return append(o, bind{m, t})
}

// solve gives the most general assignment satisfying all the bindings
func (b binds) solve() (sub, bool) {
	s := sub{}
	for _, x := range b {
		if !s.unify(&vast.T{K: 'm', N: x.m}, x.t) {
			return nil, false
		}
	}
	return s, true
}

// implies: every assignment satisfying b satisfies c
func (b binds) implies(c binds) bool {
	s, ok := b.solve()
	if !ok {
		return true
	}
	for _, x := range c {
		if s.apply(&vast.T{K: 'm', N: x.m}, 300).String() != s.apply(x.t, 300).String() {
			return false
		}
	}
	return true
}
func readBinds(s Unif.Substitutions) binds {
	var o binds
	for _, x := range s {
		k, v := x.Get()
		o = append(o, bind{k.GetIndex(), vast.ReadTerm(v)})
	}
	return o
}
func (b binds) build(vb *vast.Builder) Unif.Substitutions {
	s := Unif.MakeEmptySubstitution()
	for _, x := range b {
		s = append(s, Unif.MakeSubstitution(vast.MetaOf(x.m), vb.Term(x.t)))
	}
	return s
}
func failed(b binds) bool {
	return len(b) == 1 && b[0].t.K == 'm' && b[0].m == b[0].t.N && b[0].m == -1
}
func (b binds) dup() bool {
	seen := map[int]bool{}
	for _, x := range b {
		if seen[x.m] {
			return true
		}
		seen[x.m] = true
	}
	return false
}

// binds with distinct keys; they may be unsatisfiable
func randBinds(g *vast.Gen, n, d int) binds {
	var b binds
	for i := 0; i < n; i++ {
		m := 3000 + g.R.Intn(g.Metas)
		if b.get(m) != nil {
			continue
		}
		t := gterm(g, g.R.Intn(d+1))
		if t.K == 'm' && t.N == m {
			continue
		}
		b = append(b, bind{m, t})
	}
	return b
}

// sameMeaning checks a result against the constraint it must represent
func sameMeaning(r *vreplay.Run, key string, in func() string, want, got binds) {
	_, ok := want.solve()
	switch {
	case !ok && !failed(got):
		r.Fail(key, in(), "failure: the bindings cannot hold together", got.String())
	case ok && failed(got):
		r.Fail(key, in(), "success: the bindings can hold together", "failure")
	case ok && !got.implies(want):
		r.Fail(key, in(), "a substitution under which "+want.String()+" holds", got.String())
	case ok && !want.implies(got):
		r.Fail(key, in(), "nothing more than "+want.String(), got.String())
	}
}

func mixed(s Unif.Substitutions) Lib.List[Unif.MixedSubstitution] { return Unif.FromSubstitutions(s) }
func mixBinds(l Lib.List[Unif.MixedSubstitution]) binds {
	return readBinds(Unif.ToSubstitutions(l))
}

func TestVerifC12(t *testing.T) {
	Init()
	r := vreplay.Start(t, "C12", "random substitutions (satisfiable or not) and histories of updates, compared with a finite map and with a reference unification")
	r.LoopFor(1, 4, func(i int) { // finite map
		g := vast.New(r.R)
		g.Poly = r.R.Intn(3) == 0
		g.Metas = 2 + r.R.Intn(4)
		b := vast.NewBuilder(r.R)
		s := Unif.MakeEmptySubstitution()
		var m binds
		var hist []string
		in := func() string { return strings.Join(hist, "; ") }
		r.Do("finite map", in, func() {
			for j := 1 + r.R.Intn(8); j > 0; j-- {
				k := 3000 + r.R.Intn(g.Metas)
				switch r.R.Intn(6) {
				case 0, 1, 2:
					v := gterm(g, r.R.Intn(3))
					hist = append(hist, fmt.Sprintf("Set(?%d, %s)", k, v))
					s.Set(vast.MetaOf(k), b.Term(v))
					m = m.set(k, v)
				case 3:
					if len(m) > 0 {
						i := r.R.Intn(len(m))
						hist = append(hist, fmt.Sprintf("Remove(index of ?%d)", readBinds(s)[i].m))
						gone := readBinds(s)[i].m
						s.Remove(i)
						var o binds
						for _, x := range m {
							if x.m != gone {
								o = append(o, x)
							}
						}
						m = o
					}
				case 4:
					hist = append(hist, "Copy and change the copy")
					c := s.Copy()
					before := vast.Dump(s)
					c.Set(vast.MetaOf(k), b.Term(gterm(g, 1)))
					c.Set(vast.MetaOf(3000), b.Term(gterm(g, 1)))
					if vast.Dump(s) != before {
						r.Fail("copy is not independent", in(), before, vast.Dump(s))
					}
				case 5:
					hist = append(hist, fmt.Sprintf("Get(?%d)", k))
				}
				if readBinds(s).sorted() != m.sorted() {
					r.Fail("bindings", in(), m.sorted(), readBinds(s).sorted())
					return
				}
				for k := 3000; k < 3000+g.Metas; k++ {
					v, at := s.Get(vast.MetaOf(k))
					w := m.get(k)
					if (w == nil) != (v == nil) || w != nil && (vast.ReadTerm(v).String() != w.String() || at < 0 || at >= len(s) || s[at].Key().GetIndex() != k) || w == nil && at != -1 {
						r.Fail("Get", in()+fmt.Sprintf("; Get(?%d)", k), w.String(), fmt.Sprint(vast.ReadTerm(v), at))
					}
					if Unif.HasSubst(s, vast.MetaOf(k)) != (w != nil) {
						r.Fail("HasSubst", in()+fmt.Sprintf("; HasSubst(?%d)", k), fmt.Sprint(w != nil), "the opposite")
					}
				}
				if s.IsEmpty() != (len(m) == 0) {
					r.Fail("IsEmpty", in(), fmt.Sprint(len(m) == 0), fmt.Sprint(s.IsEmpty()))
				}
			}
			// comparison
			c := append(binds{}, m...)
			r.R.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
			if len(c) > 0 && r.R.Intn(2) == 0 {
				i := r.R.Intn(len(c))
				switch r.R.Intn(4) {
				case 0:
					c[i].t = g.EditTerm(c[i].t)
				case 1:
					c = append(c[:i], c[i+1:]...)
				case 2:
					c[i].m = 3000 + g.Metas
				case 3:
					c = append(c, bind{3000 + g.Metas, gterm(g, 1)})
				}
			}
			o := c.build(b)
			hist = append(hist, "compare with "+c.String())
			want := c.sorted() == m.sorted()
			if s.Equals(o) != want || o.Equals(s) != want {
				r.Fail("Equals", m.String()+" and "+c.String(), fmt.Sprint(want), fmt.Sprint(s.Equals(o), o.Equals(s)))
			}
			if !s.Equals(s.Copy()) {
				r.Fail("Copy", in(), "a copy is equal", "not equal")
			}
			if Lib.ListEquals(mixed(s), mixed(o)) != (c.String() == readBinds(s).String()) {
				r.Fail("FromSubstitutions", m.String()+" and "+c.String(), "equal as lists", "not")
			}
			if readBinds(Unif.ToSubstitutions(mixed(s))).String() != readBinds(s).String() {
				r.Fail("ToSubstitutions", in(), readBinds(s).String(), readBinds(Unif.ToSubstitutions(mixed(s))).String())
			}
			lst := []Unif.Substitutions{o}
			if r.R.Intn(2) == 0 {
				lst = append([]Unif.Substitutions{randBinds(g, 2, 1).build(b)}, lst...)
			}
			has := false
			for _, l := range lst {
				has = has || readBinds(l).sorted() == m.sorted()
			}
			if Unif.ContainsSubst(lst, s) != has {
				r.Fail("ContainsSubst", Unif.SubstListToString(lst)+" "+in(), fmt.Sprint(has), fmt.Sprint(!has))
			}
			ext := Unif.AppendIfNotContainsSubst(lst, s)
			if (len(ext) == len(lst)+1) == has || !Unif.ContainsSubst(ext, s) {
				r.Fail("AppendIfNotContainsSubst", Unif.SubstListToString(lst)+" "+in(), "added iff absent", Unif.SubstListToString(ext))
			}
			// identity bindings, metavariables of a substitution
			id := append(binds{}, m...)
			if len(id) > 0 && r.R.Intn(2) == 0 {
				i := r.R.Intn(len(id))
				id[i].t = &vast.T{K: 'm', N: id[i].m}
			}
			si := id.build(b)
			Core.RemoveIdentitySubst(&si)
			var left binds
			metas := map[int]bool{}
			for _, x := range id {
				if !(x.t.K == 'm' && x.t.N == x.m) {
					left = append(left, x)
				}
			}
			if readBinds(si).sorted() != left.sorted() {
				r.Fail("RemoveIdentitySubst", id.String(), left.String(), readBinds(si).String())
			}
			for _, x := range id {
				metas[x.m] = true
				for _, y := range x.t.Metas() {
					metas[y] = true
				}
			}
			if len(m) > 0 {
				r.Case(in())
			}
		})
	})
	r.LoopFor(1, 4, func(i int) { // occurs check
		g := vast.New(r.R)
		g.Poly = r.R.Intn(3) == 0
		b := vast.NewBuilder(r.R)
		m := 3000 + r.R.Intn(4)
		t := gterm(g, r.R.Intn(5))
		if r.R.Intn(3) == 0 {
			t = g.Term(3)
			m = g.Meta()
		}
		in := func() string { return fmt.Sprintf("?%d in %s", m, t) }
		r.Case(in())
		r.Do("occurs check", in, func() {
			occ := false
			for _, x := range t.Metas() {
				occ = occ || x == m
			}
			mt := vast.MetaOf(m)
			if Unif.OccurCheckValid(mt, b.Term(t)) == occ {
				r.Fail("OccurCheckValid", in(), fmt.Sprint(!occ), fmt.Sprint(occ))
			}
			// a binding whose variable occurs in its own term is a failure
			s := Unif.Substitutions{Unif.MakeSubstitution(mt, b.Term(t))}
			if !(t.K == 'm' && t.N == m) {
				Unif.Eliminate(&s)
				if failed(readBinds(s)) != occ {
					r.Fail("Eliminate, one binding", in(), "failure exactly if the variable occurs", readBinds(s).String())
				}
				u := Unif.AddUnification(mt, b.Term(t), Unif.MakeEmptySubstitution())
				if failed(readBinds(u)) != occ {
					r.Fail("AddUnification, one binding", in(), "failure exactly if the variable occurs", readBinds(u).String())
				}
			}
		})
	})
	r.Loop(func(i int) { // bindings applied to one another, merge
		g := vast.New(r.R)
		g.Poly = false
		g.Metas = 2 + r.R.Intn(5)
		b := vast.NewBuilder(r.R)
		x := randBinds(g, 1+r.R.Intn(5), 3)
		in := func() string { return x.String() }
		r.Case(in())
		s := x.build(b)
		r.Do("Eliminate", in, func() {
			before := vast.Dump(s)
			c := s.Copy()
			Unif.EliminateMeta(&c)
			if !x.implies(readBinds(c)) || !readBinds(c).implies(x) {
				r.Fail("EliminateMeta", in(), "the same constraint", readBinds(c).String())
			}
			Unif.Eliminate(&c)
			got := readBinds(c)
			sameMeaning(r, "Eliminate", in, x, got)
			if got.dup() {
				r.Fail("Eliminate", in(), "distinct keys", got.String())
			}
			if !failed(got) {
				for _, y := range got {
					for _, z := range got {
						for _, m := range z.t.Metas() {
							if m == y.m {
								r.Fail("Eliminate, solved form", in(), "no bound variable occurs in a value", got.String())
							}
						}
					}
				}
			}
			if vast.Dump(s) != before {
				r.Fail("input changed", in(), before, vast.Dump(s))
			}
		})
		// two solved substitutions
		y := randBinds(g, 1+r.R.Intn(4), 2)
		solve := func(z binds) (Unif.Substitutions, bool) {
			c := z.build(b)
			Unif.EliminateMeta(&c)
			Unif.Eliminate(&c)
			return c, !c.Equals(Unif.Failure())
		}
		s1, ok1 := solve(x)
		s2, ok2 := solve(y)
		if !ok1 || !ok2 {
			return
		}
		in2 := func() string { return readBinds(s1).String() + " and " + readBinds(s2).String() }
		both := append(append(binds{}, x...), y...)
		r.Do("merge", in2, func() {
			d := vast.Dump(s1, s2)
			res, same := Unif.MergeSubstitutions(s1.Copy(), s2.Copy())
			sameMeaning(r, "MergeSubstitutions", in2, both, readBinds(res))
			if !failed(readBinds(res)) && readBinds(res).dup() {
				r.Fail("MergeSubstitutions", in2(), "distinct keys", readBinds(res).String())
			}
			_ = same
			m1, m2 := mixed(s1), mixed(s2)
			mr, ok := Unif.MergeMixedSubstitutions(m1, m2)
			_, sat := both.solve()
			if ok != sat {
				r.Fail("MergeMixedSubstitutions", in2(), fmt.Sprint(sat), fmt.Sprint(ok))
			}
			if ok {
				sameMeaning(r, "MergeMixedSubstitutions", in2, both, mixBinds(mr))
			}
			if vast.Dump(s1, s2) != d {
				r.Fail("input changed", in2(), d, vast.Dump(s1, s2))
			}
			// one more equation
			t1, t2 := gterm(g, r.R.Intn(3)), gterm(g, r.R.Intn(3))
			in3 := func() string { return t1.String() + " = " + t2.String() + " with " + readBinds(s1).String() }
			res3 := readBinds(Unif.AddUnification(b.Term(t1), b.Term(t2), s1.Copy()))
			k := 9999
			want := append(append(binds{}, x...), bind{k, t1}, bind{k, t2})
			got := append(append(binds{}, res3...), bind{k, t1})
			if failed(res3) {
				got = res3
			}
			sameMeaning(r, "AddUnification", in3, want, got)
		})
		r.Do("merge with formulas", in2, func() {
			if _, sat := both.solve(); !sat {
				return // announced as an anomaly by the prover
			}
			f1, f2 := b.Forms(g.Forms(1, 2)), b.Forms(g.Forms(1, 1))
			a1, a2 := Core.MakeSubstAndForm(mixed(s1), f1), Core.MakeSubstAndForm(mixed(s2), f2)
			d := vast.Dump(a1, a2)
			err, res := Core.MergeSubstAndForm(a1, a2)
			if err != nil {
				r.Fail("MergeSubstAndForm", in2(), "merged", fmt.Sprint(err))
				return
			}
			sameMeaning(r, "MergeSubstAndForm", in2, both, mixBinds(res.GetSubst()))
			have := map[string]bool{}
			for _, f := range vast.ReadForms(res.GetForm()) {
				have[f.String()] = true
			}
			for _, f := range append(vast.ReadForms(f1), vast.ReadForms(f2)...) {
				if !have[f.String()] {
					r.Fail("MergeSubstAndForm, formulas", in2(), f.String(), "missing")
				}
			}
			if vast.Dump(a1, a2) != d {
				r.Fail("MergeSubstAndForm changed its argument", in2(), d, vast.Dump(a1, a2))
			}
			err, lst := Core.MergeSubstListWithSubst([]Core.SubstAndForm{a1, a1}, a2)
			if err != nil || len(lst) != 2 || !lst[0].Equals(res) || !lst[1].Equals(res) {
				r.Fail("MergeSubstListWithSubst", in2(), res.ToString(), Core.SubstAndFormListToString(lst))
			}
		})
		// application to terms and formulas
		r.Do("apply", in2, func() {
			f := g.Form(2)
			ff := b.Form(f)
			wantF := f
			for _, z := range readBinds(s1) {
				wantF, _ = wantF.Subst('m', z.m, z.t)
			}
			tt := gterm(g, 3)
			wantT := tt
			for _, z := range readBinds(s1) {
				wantT, _ = wantT.Subst('m', z.m, z.t)
			}
			tm := b.Term(tt)
			if got := vast.ReadTerm(Core.ApplySubstitutionsOnTerm(mixed(s1), tm)); got.String() != wantT.String() {
				r.Fail("ApplySubstitutionsOnTerm", readBinds(s1).String()+" on "+tt.String(), wantT.String(), got.String())
			}
			l := b.Terms([]*vast.T{tt, tt})
			if got := vast.ReadTerms(Core.ApplySubstitutionsOnTermList(mixed(s1), l)); len(got) != 2 || got[1].String() != wantT.String() {
				r.Fail("ApplySubstitutionsOnTermList", readBinds(s1).String()+" on "+tt.String(), wantT.String(), fmt.Sprint(got))
			}
			got := vast.ReadForm(Core.ApplySubstitutionsOnFormula(mixed(s1), ff))
			if got.String() != wantF.String() {
				r.Fail("ApplySubstitutionsOnFormula", readBinds(s1).String()+" on "+f.String(), wantF.String(), got.String())
			}
			if len(s1) > 0 {
				one, z := s1[:1], readBinds(s1)[0]
				w, _ := tt.Subst('m', z.m, z.t)
				if got := vast.ReadTerm(Core.ApplySubstitutionOnTerm(one[0].Key(), one[0].Value(), tm)); got.String() != w.String() {
					r.Fail("ApplySubstitutionOnTerm", z.t.String()+" on "+tt.String(), w.String(), got.String())
				}
			}
		})
		// which metavariables and bindings concern a set of metavariables
		r.Do("relevant", in2, func() {
			mm := Lib.EmptySet[AST.Meta]()
			var names []int
			for k := 3000; k < 3000+g.Metas; k++ {
				if r.R.Intn(2) == 0 {
					mm = mm.Add(vast.MetaOf(k))
					names = append(names, k)
				}
			}
			in := func() string { return fmt.Sprint(readBinds(s1).String(), " for ", names) }
			contains := false
			for _, z := range readBinds(s1) {
				for _, n := range names {
					contains = contains || z.m == n || z.t.K == 'm' && z.t.N == n
				}
			}
			if got := Core.ContainsMetaMother(mixed(s1), mm); got != contains {
				r.Fail("ContainsMetaMother", in(), fmt.Sprint(contains), fmt.Sprint(got))
			}
			if r.R.Intn(2) == 0 {
				res := mixBinds(Core.RemoveElementWithoutMM(mixed(s1), mm))
				x := readBinds(s1)
				if !x.implies(res) {
					r.Fail("RemoveElementWithoutMM", in(), "only bindings that follow", res.String())
				}
				// what the kept bindings say about the given metavariables is what the substitution says about them
				for _, z := range x {
					if z.t.K != 'm' && res.get(z.m) == nil {
						for _, n := range names {
							if n == z.m {
								r.Fail("RemoveElementWithoutMM", in(), "the binding of ?"+fmt.Sprint(n), res.String())
							}
						}
					}
				}
				for i, n := range names {
					for _, o := range names[:i] {
						u, _ := x.solve()
						v, _ := res.solve()
						mn, mo := &vast.T{K: 'm', N: n}, &vast.T{K: 'm', N: o}
						if (u.apply(mn, 300).String() == u.apply(mo, 300).String()) != (v.apply(mn, 300).String() == v.apply(mo, 300).String()) {
							r.Fail("RemoveElementWithoutMM, equal metavariables", in(), fmt.Sprintf("?%d and ?%d equal as before", n, o), res.String())
						}
					}
				}
			}
		})
		r.Do("unifier", in2, func() {
			p := Glob.GetProof()
			Glob.SetProof(true)
			defer Glob.SetProof(p)
			x1 := readBinds(s1)
			u1, u2 := Core.MakeUnifier(), Core.MakeUnifier()
			u1.AddSubstitutions(mixed(s1), mixed(s1))
			u2.AddSubstitutions(mixed(s2), mixed(s2))
			_, sat := both.solve()
			c := u1.Copy()
			d := vast.Dump(c, u2)
			u1.Merge(u2)
			if vast.Dump(c, u2) != d {
				r.Fail("Merge changed its argument", in2(), d, vast.Dump(c, u2))
			}
			if u1.IsEmpty() == sat {
				r.Fail("Unifier.Merge", in2(), fmt.Sprint("empty: ", !sat), u1.ToString())
			} else if sat {
				sameMeaning(r, "Unifier.Merge", in2, both, mixBinds(u1.GetUnifier()))
			}
			pr := c.Copy()
			gone := Lib.EmptySet[AST.Meta]()
			var rest binds
			for _, z := range x1 {
				if r.R.Intn(2) == 0 {
					gone = gone.Add(vast.MetaOf(z.m))
				} else {
					rest = append(rest, z)
				}
			}
			pr.PruneMetasInSubsts(gone)
			left := Core.MakeUnifier()
			left.AddSubstitutions(mixed(rest.build(b)), mixed(s1))
			if pr.ToString() != left.ToString() {
				r.Fail("Unifier.PruneMetasInSubsts", x1.String()+" without the bindings of "+Lib.ListToString(gone.Elements()), left.ToString(), pr.ToString())
			}
			c.PruneUncompatibleSubstitutions(mixed(s2))
			if c.IsEmpty() == sat {
				r.Fail("Unifier.PruneUncompatibleSubstitutions", in2(), fmt.Sprint("empty: ", !sat), c.ToString())
			} else if sat {
				sameMeaning(r, "Unifier.PruneUncompatibleSubstitutions", in2, x, mixBinds(c.GetUnifier()))
			}
		})
	})
	r.Done()
}
