package vast

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Unif"
	"github.com/GoelandProver/Goeland/vreplay"
)

func eqs(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// sharing: values built from the same storage must not change when one of them is used
func (b *Builder) family(f *F) []any {
	x := b.Form(f)
	return []any{x, b.Form(f), AST.MakerNot(x), AST.MakerAnd(Lib.MkListV(x, x)), x.Copy()}
}

func TestVerifC05(t *testing.T) {
	Init()
	r := vreplay.Start(t, "C05", "random pairs of terms, types and formulas (second one a random one, a copy or an edit of the first) compared against the comparison of their descriptions")
	check := func(key, da, db string, same bool, ab, ba bool) {
		r.Case(da + " / " + db)
		if ab != same {
			r.Fail(key, "a = "+da+"\nb = "+db, fmt.Sprintf("a.Equals(b) = %v", same), fmt.Sprint(ab))
		}
		if ba != same {
			r.Fail(key, "a = "+db+"\nb = "+da, fmt.Sprintf("a.Equals(b) = %v", same), fmt.Sprint(ba))
		}
	}
	// deterministic part: every pair of small terms, and deep lists
	g0 := New(r.R)
	g0.IdTerms = true
	r.Loop(func(i int) {
		g := New(r.R)
		g.IdTerms = r.R.Intn(4) == 0
		g.Collide = r.R.Intn(3) == 0
		b := NewBuilder(r.R)
		switch i % 3 {
		case 0:
			x := g.Term(r.R.Intn(4))
			y := x
			switch r.R.Intn(4) {
			case 0:
				y = g.Term(r.R.Intn(3))
			case 1:
				y = x.Clone()
			default:
				y = g.EditTerm(x)
				if r.R.Intn(3) == 0 {
					y = g.EditTerm(y)
				}
			}
			r.Do("term", func() string { return x.String() + " / " + y.String() }, func() {
				tx, ty := b.Term(x), b.Term(y)
				check("term equality", x.String(), y.String(), x.String() == y.String(), tx.Equals(ty), ty.Equals(tx))
				if !tx.Equals(tx) {
					r.Fail("term reflexive", x.String(), "true", "false")
				}
				c := tx.Copy()
				if !c.Equals(tx) || !tx.Equals(c) || ReadTerm(c).String() != x.String() {
					r.Fail("term copy", x.String(), "a copy equal to the original", "copy = "+ReadTerm(c).String())
				}
				if AST.TermEquals(tx, ty) != (x.String() == y.String()) {
					r.Fail("TermEquals", x.String()+" / "+y.String(), fmt.Sprint(x.String() == y.String()), "not that")
				}
				if f, ok := tx.(AST.Fun); ok {
					p := f.PointerCopy()
					if !p.Equals(f) || ReadTerm(p).String() != x.String() {
						r.Fail("pointer copy", x.String(), "equal to the original", ReadTerm(p).String())
					}
				}
				for _, o := range []any{x.String(), 3, x.N, b.Form(g.Pred()), AST.MakerTop(), b.Ty(g.Type(1))} {
					if tx.Equals(o) {
						r.Fail("term and other kind", x.String()+" against "+fmt.Sprintf("%T", o), "false", "true")
					}
				}
			})
		case 1:
			x := g.Type(r.R.Intn(4))
			y := x
			switch r.R.Intn(4) {
			case 0:
				y = g.Type(r.R.Intn(3))
			case 1:
				y = x.Clone()
			default:
				y = g.EditType(x)
			}
			r.Do("type", func() string { return x.String() + " / " + y.String() }, func() {
				tx, ty := b.Ty(x), b.Ty(y)
				check("type equality", x.String(), y.String(), x.String() == y.String(), tx.Equals(ty), ty.Equals(tx))
				c := tx.Copy()
				if !c.Equals(tx) || !tx.Equals(c) || ReadTy(c).String() != x.String() {
					r.Fail("type copy", x.String(), "a copy equal to the original", "copy = "+ReadTy(c).String())
				}
				for _, o := range []any{x.S, 3, b.Term(g.Term(1)), b.Form(g.Pred())} {
					if tx.Equals(o) {
						r.Fail("type and other kind", x.String()+" against "+fmt.Sprintf("%T", o), "false", "true")
					}
				}
			})
		case 2:
			x := g.Form(r.R.Intn(4))
			y := x
			switch r.R.Intn(4) {
			case 0:
				y = g.Form(r.R.Intn(3))
			case 1:
				y = x.Clone()
			default:
				y = g.EditForm(x)
				if r.R.Intn(3) == 0 {
					y = g.EditForm(y)
				}
			}
			r.Do("formula", func() string { return x.String() + " / " + y.String() }, func() {
				fx, fy := b.Form(x), b.Form(y)
				if r.R.Intn(3) == 0 {
					// the answer does not depend on what was asked before
					fx.GetMetas()
					fx.GetSubTerms()
				}
				check("formula equality", x.String(), y.String(), x.String() == y.String(), fx.Equals(fy), fy.Equals(fx))
				c := fx.Copy()
				if !c.Equals(fx) || !fx.Equals(c) || ReadForm(c).String() != x.String() {
					r.Fail("formula copy", x.String(), "a copy equal to the original", "copy = "+ReadForm(c).String())
				}
				for _, o := range []any{x.String(), 3, x.N, b.Term(g.Term(1)), b.Ty(g.Type(1))} {
					if fx.Equals(o) {
						r.Fail("formula and other kind", x.String()+" against "+fmt.Sprintf("%T", o), "false", "true")
					}
				}
				tf := Unif.MakerTermForm(VarOf(g.Var()))
				if fx.Equals(tf) || tf.Equals(fx) {
					r.Fail("formula and term-form", x.String(), "false", "true")
				}
				tx, ty := g.Term(2), g.Term(2)
				if r.R.Intn(2) == 0 {
					ty = tx.Clone()
				}
				g2 := *g
				g2.Poly = false
				tx, ty = stripTy(tx), stripTy(ty)
				u, v := Unif.MakerTermForm(b.Term(tx)), Unif.MakerTermForm(b.Term(ty))
				if u.Equals(v) != (tx.String() == ty.String()) {
					r.Fail("term-form equality", tx.String()+" / "+ty.String(), fmt.Sprint(tx.String() == ty.String()), "not that")
				}
				if !u.Copy().Equals(u) {
					r.Fail("term-form copy", tx.String(), "equal", "not equal")
				}
			})
		}
	})
	r.Done()
}

// stripTy: the terms the unification part works with have neither type arguments nor bound variables
func stripTy(t *T) *T {
	c := *t
	if c.K == 'v' || c.K == 'i' {
		c.K = 'f'
	}
	c.Ys, c.As = nil, nil
	for _, a := range t.As {
		c.As = append(c.As, stripTy(a))
	}
	return &c
}

func TestVerifC04(t *testing.T) {
	Init()
	r := vreplay.Start(t, "C04", "random terms and formulas, and the results of copying, substituting and renaming in them after their metavariables were asked for; reported set against the metavariables of the value read back node by node")
	form := func(what string, f AST.Form, in func() string) {
		want := ReadForm(f).Metas()
		before := Dump(f)
		got := MetaSet(f.GetMetas())
		if !eqs(got, want) {
			r.Fail(what, in()+"\nresult: "+ReadForm(f).String(), fmt.Sprint(want), fmt.Sprint(got))
		}
		if got2 := MetaSet(f.GetMetas()); !eqs(got2, want) {
			r.Fail(what+", asked twice", in()+"\nresult: "+ReadForm(f).String(), fmt.Sprint(want), fmt.Sprint(got2))
		}
		if d := Dump(f); d != before {
			r.Fail(what+" changes the formula", in(), before, d)
		}
	}
	term := func(what string, f AST.Term, in func() string) {
		want := ReadTerm(f).Metas()
		before := Dump(f)
		got := MetaSet(f.GetMetas())
		if !eqs(got, want) {
			r.Fail(what, in()+"\nresult: "+ReadTerm(f).String(), fmt.Sprint(want), fmt.Sprint(got))
		}
		if got2 := MetaSet(f.GetMetas()); !eqs(got2, want) {
			r.Fail(what+", asked twice", in(), fmt.Sprint(want), fmt.Sprint(got2))
		}
		seen := map[int]bool{}
		l := f.GetMetaList()
		for i := 0; i < l.Len(); i++ {
			seen[l.At(i).GetIndex()] = true
		}
		if !eqs(keys(seen), want) {
			r.Fail(what+", as a list", in(), fmt.Sprint(want), fmt.Sprint(keys(seen)))
		}
		if d := Dump(f); d != before {
			r.Fail(what+" changes the term", in(), before, d)
		}
	}
	r.Loop(func(i int) {
		g := New(r.R)
		g.Metas = 1 + r.R.Intn(6)
		b := NewBuilder(r.R)
		if i%3 == 0 {
			x, y := g.Term(r.R.Intn(6)), g.Term(r.R.Intn(3))
			in := func() string { return x.String() + " with " + y.String() }
			r.Do("term", in, func() {
				tx, ty := b.Term(x), b.Term(y)
				if r.R.Intn(2) == 0 {
					term("metas of a term", tx, in)
				}
				r.Case(x.String())
				term("metas of a copy", tx.Copy(), in)
				old := MetaOf(g.Meta())
				nt := tx.ReplaceSubTermBy(old, ty)
				term("metas after replacing a metavariable", nt, in)
				nt2 := nt.ReplaceSubTermBy(VarOf(g.Var()), ty)
				term("metas after replacing a variable", nt2, in)
				term("metas after a type substitution", nt2.SubstTy(AST.MkTyBV("A0", 0).(AST.TyBound), b.Ty(g.Type(1))), in)
				term("metas of a term", tx, in)
				if f, ok := tx.(AST.Fun); ok {
					f.SetArgs(Lib.MkListV(ty, tx))
					term("metas after changing the arguments", f, in)
					term("metas of a pointer copy", *f.PointerCopy(), in)
				}
				tf := Unif.MakerTermForm(b.Term(stripTy(x)))
				if got := MetaSet(tf.GetMetas()); !eqs(got, x.Metas()) {
					r.Fail("metas of a term-form", x.String(), fmt.Sprint(x.Metas()), fmt.Sprint(got))
				}
			})
			return
		}
		x, y := g.Form(r.R.Intn(4)), g.Term(r.R.Intn(3))
		in := func() string { return x.String() + " with " + y.String() }
		r.Do("formula", in, func() {
			fam := b.family(x)
			ty := b.Term(y)
			r.Case(x.String())
			d := Dump(fam...)
			f := fam[r.R.Intn(3)].(AST.Form)
			if r.R.Intn(2) == 0 {
				form("metas of a formula", f, in)
			}
			f2 := f
			for k := 0; k < 3; k++ {
				what := ""
				switch r.R.Intn(7) {
				case 0:
					f2, what = f2.Copy(), "copying"
				case 1:
					m := MetaOf(g.Meta())
					f2, what = f2.ReplaceMetaByTerm(m, ty), "replacing a metavariable"
				case 2:
					f2, _ = f2.ReplaceTermByTerm(VarOf(g.Var()), ty)
					what = "replacing a variable"
				case 3:
					f2, what = f2.SubstituteVarByMeta(VarOf(g.Var()), MetaOf(g.Meta())), "substituting a metavariable for a variable"
				case 4:
					f2, what = f2.SubstTy(AST.MkTyBV("A0", 0).(AST.TyBound), b.Ty(g.Type(1))), "a type substitution"
				case 5:
					f2, what = AST.MakerImp(f2, f2), "building an implication"
				case 6:
					f2, _ = f2.ReplaceTermByTerm(MetaOf(g.Meta()), ty)
					what = "replacing a metavariable (as a term)"
				}
				form("metas after "+what, f2, in)
			}
			form("metas of a formula", f, in)
			if Dump(fam...) != d {
				r.Fail("asking changes a formula sharing structure", in(), d, Dump(fam...))
			}
			// the parts of a formula, through its accessors
			if q, ok := f.(AST.All); ok {
				form("metas of the body", q.GetForm(), in)
			}
			if cs := f.GetChildFormulas(); cs.Len() > 0 {
				form("metas of a child", cs.At(r.R.Intn(cs.Len())), in)
			}
			// constructors that are given a set keep reporting the right one
			vs := Lib.NewList[AST.TypedVar]()
			vs.Append(AST.MkTypedVar("X9", 9, AST.TIndividual()))
			fs := Lib.MkListV(f, f2)
			for k, c := range []AST.Form{AST.MakeAnd(3, fs), AST.MakeOr(3, fs), AST.MakeNot(3, f), AST.MakeImp(3, f2, f), AST.MakeEqu(3, f, f2), AST.MakeAll(3, vs, f), AST.MakeEx(3, vs, f2), AST.RemoveNeg(AST.MakerNot(f)), AST.SimplifyNegations(AST.MakerNot(AST.MakerNot(f)))} {
				form(fmt.Sprintf("metas of a built formula (%d)", k), c, in)
			}
		})
	})
	r.Done()
}

func mixed(ms []AST.Meta, ts []AST.Term) Lib.List[Unif.MixedSubstitution] {
	l := Lib.NewList[Unif.MixedSubstitution]()
	for i := range ms {
		l.Append(Unif.MkMixedFromSubst(Unif.MakeSubstitution(ms[i], ts[i])))
	}
	return l
}

func TestVerifC06(t *testing.T) {
	Init()
	r := vreplay.Start(t, "C06", "random terms and formulas, substituting random terms for metavariables and variables through every substituting operation; result against the substituted description, and all inputs and sharers compared field by field before and after")
	r.Loop(func(i int) {
		g := New(r.R)
		b := NewBuilder(r.R)
		y := g.Term(r.R.Intn(3))
		if r.R.Intn(3) == 0 {
			// no metavariable of the replaced kind in the replacement
			y = &T{K: 'f', N: g.id()}
		}
		m, v := g.Meta(), g.Var()
		if i%2 == 0 {
			x := g.Term(1 + r.R.Intn(4))
			in := func() string { return fmt.Sprintf("%s, ?%d or x%d by %s", x, m, v, y) }
			r.Do("term", in, func() {
				tx, ty := b.Term(x), b.Term(y)
				if r.R.Intn(2) == 0 {
					tx.GetMetas()
				}
				shar := []any{tx, ty, AST.MakerPred(IdOf(1), Lib.NewList[AST.Ty](), Lib.MkListV(tx, ty)), b.Term(x), tx.Copy()}
				d := Dump(shar...)
				r.Case(in())
				cmp := func(what string, want *T, got AST.Term) {
					if ReadTerm(got).String() != want.String() {
						r.Fail(what, in(), want.String(), ReadTerm(got).String())
					}
				}
				wm, hm := x.Subst('m', m, y)
				wv, _ := x.Subst('v', v, y)
				cmp("ReplaceSubTermBy, metavariable", wm, tx.ReplaceSubTermBy(MetaOf(m), ty))
				cmp("ReplaceSubTermBy, variable", wv, tx.ReplaceSubTermBy(VarOf(v), ty))
				if f, ok := tx.(AST.Fun); ok {
					cmp("ReplaceAllSubTerm", wm, f.ReplaceAllSubTerm(MetaOf(m), ty))
				}
				cmp("ApplySubstitutionOnTerm", wm, Core.ApplySubstitutionOnTerm(MetaOf(m), ty, tx))
				l := Lib.MkListV(tx, ty, tx)
				ro, hit := AST.ReplaceOccurrence(l, MetaOf(m), ty)
				wy, hy := y.Subst('m', m, y)
				same := y.K == 'm' && y.N == m
				if ro.Len() != 3 {
					r.Fail("ReplaceOccurrence", in(), "3 terms", fmt.Sprint(ro.Len()))
				} else {
					cmp("ReplaceOccurrence", wm, ro.At(0))
					cmp("ReplaceOccurrence", wy, ro.At(1))
					cmp("ReplaceOccurrence", wm, ro.At(2))
					if !same && hit != (hm || hy) {
						r.Fail("ReplaceOccurrence, flag", in(), fmt.Sprint(hm || hy), fmt.Sprint(hit))
					}
				}
				al := Core.ApplySubstitutionOnTermList(MetaOf(m), ty, l)
				cmp("ApplySubstitutionOnTermList", wm, al.At(0))
				cmp("ApplySubstitutionOnTermList", wm, al.At(2))
				m2 := g.Meta()
				w2, _ := wm.Subst('m', m2, x)
				s := mixed([]AST.Meta{MetaOf(m), MetaOf(m2)}, []AST.Term{ty, tx})
				if termOnly(x) && termOnly(y) {
					cmp("ApplySubstitutionsOnTerm", w2, Core.ApplySubstitutionsOnTerm(s, tx))
					cmp("ApplySubstitutionsOnTermList", w2, Core.ApplySubstitutionsOnTermList(s, l).At(2))
				}
				tf := Unif.MakerTermForm(b.Term(stripTy(x)))
				ws, _ := stripTy(x).Subst('m', m, y)
				if u, ok := tf.ReplaceMetaByTerm(MetaOf(m), ty).(Unif.TermForm); !ok || ReadTerm(u.GetTerm()).String() != ws.String() {
					r.Fail("TermForm.ReplaceMetaByTerm", in(), ws.String(), fmt.Sprint(ReadTerm(u.GetTerm())))
				}
				if e := Dump(shar...); e != d {
					r.Fail("substituting changes its input (term)", in(), d, e)
				}
			})
			return
		}
		x := g.Form(r.R.Intn(4))
		in := func() string { return fmt.Sprintf("%s, ?%d or x%d by %s", x, m, v, y) }
		r.Do("formula", in, func() {
			fam := b.family(x)
			f := fam[0].(AST.Form)
			ty := b.Term(y)
			if r.R.Intn(2) == 0 {
				f.GetMetas()
			}
			fl := Lib.MkListV(f, f, fam[1].(AST.Form))
			tl := Lib.MkListV(ty, ty)
			fat := Core.MakeFormAndTerm(f, tl)
			shar := append(append([]any{}, fam...), ty, fl, tl, fat)
			d := Dump(shar...)
			r.Case(in())
			cmp := func(what string, want *F, got AST.Form) {
				if ReadForm(got).String() != want.String() {
					r.Fail(what, in(), want.String(), ReadForm(got).String())
				}
			}
			wm, hm := x.Subst('m', m, y)
			wv, hv := x.Subst('v', v, y)
			cmp("ReplaceMetaByTerm", wm, f.ReplaceMetaByTerm(MetaOf(m), ty))
			rv, fv := f.ReplaceTermByTerm(VarOf(v), ty)
			cmp("ReplaceTermByTerm, variable", wv, rv)
			if fv != hv {
				r.Fail("ReplaceTermByTerm, flag", in(), fmt.Sprint(hv), fmt.Sprint(fv))
			}
			rm, fm := f.ReplaceTermByTerm(MetaOf(m), ty)
			cmp("ReplaceTermByTerm, metavariable", wm, rm)
			if fm != hm {
				r.Fail("ReplaceTermByTerm, flag", in(), fmt.Sprint(hm), fmt.Sprint(fm))
			}
			wvm, _ := x.Subst('v', v, &T{K: 'm', N: m})
			cmp("SubstituteVarByMeta", wvm, f.SubstituteVarByMeta(VarOf(v), MetaOf(m)))
			ls := AST.LsSubstByTerm(fl, MetaOf(m), ty)
			for k := 0; k < ls.Len(); k++ {
				cmp("LsSubstByTerm", wm, ls.At(k))
			}
			m2 := g.Meta()
			w2, _ := wm.Subst('m', m2, y)
			if termOnly(y) {
				s := mixed([]AST.Meta{MetaOf(m), MetaOf(m2)}, []AST.Term{ty, ty})
				sd := Dump(s)
				cmp("ApplySubstitutionsOnFormula", w2, Core.ApplySubstitutionsOnFormula(s, f))
				l2 := Core.ApplySubstitutionsOnFormulaList(s, fl)
				if l2.Len() == 0 {
					r.Fail("ApplySubstitutionsOnFormulaList", in(), "the substituted formulas", "nothing")
				}
				for k := 0; k < l2.Len(); k++ {
					cmp("ApplySubstitutionsOnFormulaList", w2, l2.At(k))
				}
				ft := Core.ApplySubstitutionsOnFormAndTerms(s, fat)
				cmp("ApplySubstitutionsOnFormAndTerms", w2, ft.GetForm())
				ftl := Core.ApplySubstitutionsOnFormAndTermsList(s, Core.MakeSingleElementFormAndTermList(fat))
				if len(ftl) != 1 {
					r.Fail("ApplySubstitutionsOnFormAndTermsList", in(), "one formula", fmt.Sprint(len(ftl)))
				} else {
					cmp("ApplySubstitutionsOnFormAndTermsList", w2, ftl[0].GetForm())
				}
				if Dump(s) != sd {
					r.Fail("applying changes the substitution", in(), sd, Dump(s))
				}
			}
			sb := fat.SubstituteBy(Lib.MkListV(MetaOf(m), MetaOf(m2)), Lib.MkListV(ty, ty))
			cmp("FormAndTerms.SubstituteBy", w2, sb.GetForm())
			wy, _ := y.Subst('m', m, y)
			wy, _ = wy.Subst('m', m2, y)
			if st := sb.GetTerms(); st.Len() != 2 || ReadTerm(st.At(1)).String() != wy.String() {
				r.Fail("FormAndTerms.SubstituteBy, terms", in(), wy.String(), fmt.Sprint(ReadTerms(st)))
			}
			if e := Dump(shar...); e != d {
				r.Fail("substituting changes its input (formula)", in(), d, e)
			}
		})
	})
	r.Done()
}

// termOnly: no type arguments (the mixed substitutions turn terms of type $tType into types)
func termOnly(t *T) bool {
	for _, a := range t.As {
		if !termOnly(a) {
			return false
		}
	}
	return len(t.Ys) == 0
}

func TestVerifC21(t *testing.T) {
	Init()
	r := vreplay.Start(t, "C21", "random polymorphic types and instances, argument and result types, type substitutions in types, terms and formulas, against their descriptions")
	r.Loop(func(i int) {
		g := New(r.R)
		b := NewBuilder(r.R)
		// bodies of Pi types: variables, constructors, products and functions
		n := 1 + r.R.Intn(3)
		vs := []string{}
		for k := 0; k < n; k++ {
			vs = append(vs, fmt.Sprintf("A%d", k))
		}
		var body func(d int) *Y
		body = func(d int) *Y {
			if d <= 0 || r.R.Intn(4) == 0 {
				if r.R.Intn(2) == 0 {
					return &Y{K: 'v', S: vs[r.R.Intn(n)]}
				}
				return &Y{K: 'c', S: []string{"$i", "$o", "A0"}[r.R.Intn(3)]}
			}
			switch r.R.Intn(3) {
			case 0:
				y := &Y{K: 'c', S: "list"}
				for k := 0; k <= r.R.Intn(3); k++ {
					y.As = append(y.As, body(d-1))
				}
				return y
			case 1:
				return &Y{K: 'p', As: []*Y{body(d - 1), body(d - 1), body(d - 1)}}
			}
			return &Y{K: 'f', As: []*Y{body(d - 1), body(d - 1)}}
		}
		bd := body(1 + r.R.Intn(3))
		inst := g.types(1, n)
		in := func() string { return fmt.Sprintf("Pi %v. %s at %s", vs, bd, joinY(inst)) }
		r.Do("instantiate", in, func() {
			pi := b.Ty(&Y{K: 'P', Vs: vs, As: []*Y{bd}})
			il := b.Tys(inst)
			d := Dump(pi, il)
			var sub func(y *Y) *Y
			sub = func(y *Y) *Y {
				if y.K == 'v' {
					for k := n - 1; k >= 0; k-- {
						if vs[k] == y.S {
							return inst[k]
						}
					}
				}
				c := *y
				c.As = nil
				for _, a := range y.As {
					c.As = append(c.As, sub(a))
				}
				return &c
			}
			want := sub(bd).String()
			r.Case(in())
			got := ReadTy(AST.InstantiateTy(pi, il)).String()
			if got != want {
				r.Fail("InstantiateTy", in(), want, got)
			}
			if e := Dump(pi, il); e != d {
				r.Fail("InstantiateTy changes its input", in(), d, e)
			}
			if mono := b.Ty(sub(bd)); sub(bd).K == 'c' || sub(bd).K == 'f' {
				if got := ReadTy(AST.InstantiateTy(mono, Lib.NewList[AST.Ty]())).String(); got != want {
					r.Fail("InstantiateTy, monomorphic", want, want, got)
				}
			}
			if p, ok := pi.(AST.TyPi); ok && p.VarsLen() != n {
				r.Fail("VarsLen", in(), fmt.Sprint(n), fmt.Sprint(p.VarsLen()))
			}
		})
		// argument and result types
		args := g.types(1, 1+r.R.Intn(3))
		out := g.Type(1)
		fn := func() string { return joinY(args) + " > " + out.String() }
		r.Do("args", fn, func() {
			ain := &Y{K: 'p', As: args}
			want := joinY(args)
			if len(args) == 1 {
				ain = args[0]
				switch ain.K {
				case 'b', 'c':
				case 'p':
					want = joinY(ain.As)
				default:
					ain = &Y{K: 'c', S: "nat", As: args}
					want = ain.String()
				}
			}
			ft := b.Ty(&Y{K: 'f', As: []*Y{ain, out}})
			if got := joinY(ReadTys(AST.GetArgsTy(ft))); got != want {
				r.Fail("GetArgsTy", fn(), want, got)
			}
			if got := ReadTy(AST.GetOutTy(ft)).String(); got != out.String() {
				r.Fail("GetOutTy", fn(), out.String(), got)
			}
			c := b.Ty(&Y{K: 'c', S: "nat"})
			if AST.GetArgsTy(c).Len() != 0 || ReadTy(AST.GetOutTy(c)).String() != "c:$tType" {
				r.Fail("type constructor", "nat", "no argument, result $tType", fmt.Sprint(ReadTys(AST.GetArgsTy(c)), ReadTy(AST.GetOutTy(c))))
			}
			k := r.R.Intn(5)
			for q, dt := range []AST.Ty{AST.MkDefaultPredType(k), AST.MkDefaultFunctionType(k)} {
				o := []string{"c:$o", "c:$i"}[q]
				w := o
				if k > 0 {
					w = "f:(p:(" + strings.TrimSuffix(strings.Repeat("c:$i, ", k), ", ") + "), " + o + ")"
				}
				if got := ReadTy(dt).String(); got != w {
					r.Fail("default type", fmt.Sprint(k), w, got)
				}
			}
		})
		// substituting types
		x, y := g.Type(1+r.R.Intn(3)), g.Type(r.R.Intn(2))
		z := g.EditType(x)
		fx, tx := g.Form(r.R.Intn(3)), g.Term(r.R.Intn(3))
		bn, mi := fmt.Sprintf("A%d", r.R.Intn(2)), r.R.Intn(2)
		mn := fmt.Sprintf("B%d", r.R.Intn(2))
		sn := func() string { return fmt.Sprintf("%s, %s / %s and %s#%d / %s", x, bn, y, mn, mi, y) }
		r.Do("subst", sn, func() {
			X, Y_ := b.Ty(x), b.Ty(y)
			FX, TX := b.Form(fx), b.Term(tx)
			d := Dump(X, Y_, FX, TX)
			bv := AST.MkTyBV(bn, 0).(AST.TyBound)
			mv := AST.TyMetaFromMeta(AST.MakeMeta(mi, 0, mn, 0, AST.TType()))
			if got, want := ReadTy(X.SubstTy(bv, Y_)).String(), x.Subst('b', bn, 0, y).String(); got != want {
				r.Fail("SubstTy, bound", sn(), want, got)
			}
			if got, want := ReadTy(X.SubstTy(mv, Y_)).String(), x.Subst('m', mn, mi, y).String(); got != want {
				r.Fail("SubstTy, meta", sn(), want, got)
			}
			if got, want := ReadTerm(TX.SubstTy(bv, Y_)).String(), tx.SubstTy('b', bn, 0, y).String(); got != want {
				r.Fail("SubstTy in a term", tx.String()+", "+sn(), want, got)
			}
			if got, want := ReadForm(FX.SubstTy(bv, Y_)).String(), fx.SubstTy('b', bn, 0, y).String(); got != want {
				r.Fail("SubstTy in a formula", fx.String()+", "+sn(), want, got)
			}
			if got, want := ReadForm(FX.SubstTy(mv, Y_)).String(), fx.SubstTy('m', mn, mi, y).String(); got != want {
				r.Fail("SubstTy in a formula", fx.String()+", "+sn(), want, got)
			}
			if e := Dump(X, Y_, FX, TX); e != d {
				r.Fail("SubstTy changes its input", sn(), d, e)
			}
			Z := b.Ty(z)
			if X.Equals(Z) != (x.String() == z.String()) {
				r.Fail("type equality", x.String()+" / "+z.String(), fmt.Sprint(x.String() == z.String()), "not that")
			}
		})
	})
	r.Done()
}

var _ = reflect.TypeOf
