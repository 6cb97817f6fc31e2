package vsearch

import (
	"fmt"
	"strings"
	"testing"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Search"
	"github.com/GoelandProver/Goeland/Unif"
	"github.com/GoelandProver/Goeland/vreplay"
	"github.com/GoelandProver/Goeland/vreplay/vast"
)

// reference unification on descriptions, triangular
type sub map[int]*vast.T

func (s sub) walk(t *vast.T) *vast.T {
	for t.K == 'm' {
		u, ok := s[t.N]
		if !ok {
			return t
		}
		t = u
	}
	return t
}
func (s sub) occurs(n int, t *vast.T) bool {
	t = s.walk(t)
	if t.K == 'm' {
		return t.N == n
	}
	for _, a := range t.As {
		if s.occurs(n, a) {
			return true
		}
	}
	return false
}
func (s sub) unify(a, b *vast.T) bool {
	a, b = s.walk(a), s.walk(b)
	if a.K == 'm' && b.K == 'm' && a.N == b.N {
		return true
	}
	if a.K == 'm' {
		if s.occurs(a.N, b) {
			return false
		}
		s[a.N] = b
		return true
	}
	if b.K == 'm' {
		return s.unify(b, a)
	}
	if a.N != b.N || len(a.As) != len(b.As) {
		return false
	}
	for i := range a.As {
		if !s.unify(a.As[i], b.As[i]) {
			return false
		}
	}
	return true
}

// apply applies the bindings until nothing changes, at most d levels deep.
func (s sub) apply(t *vast.T, d int) *vast.T {
	if d < 0 {
		return &vast.T{K: 'i', N: -1}
	}
	if t.K == 'm' {
		if u, ok := s[t.N]; ok {
			return s.apply(u, d-1)
		}
		return t
	}
	c := &vast.T{K: t.K, N: t.N, Ys: t.Ys}
	for _, a := range t.As {
		c.As = append(c.As, s.apply(a, d-1))
	}
	return c
}

func pred(f *vast.F) *vast.T { return &vast.T{K: 'f', N: f.N, As: f.As} }

func readSub(l Lib.List[Unif.MixedSubstitution]) (sub, bool) {
	s := sub{}
	for _, x := range l.GetSlice() {
		switch y := x.Substitution().(type) {
		case Lib.Some[Unif.Substitution]:
			k, v := y.Val.Get()
			if _, dup := s[k.GetIndex()]; dup {
				return s, false
			}
			s[k.GetIndex()] = vast.ReadTerm(v)
		default:
			return s, false
		}
	}
	return s, true
}

func (s sub) String() string {
	var o []string
	for i := 0; i < 10000; i++ {
		if t, ok := s[i]; ok {
			o = append(o, fmt.Sprintf("?%d -> %s", i, t))
		}
	}
	return "{" + strings.Join(o, ", ") + "}"
}

// closed terms over few symbols of fixed arity
func gterm(g *vast.Gen, d int) *vast.T {
	if d <= 0 || g.R.Intn(4) == 0 {
		if g.R.Intn(2) == 0 {
			return &vast.T{K: 'm', N: 3000 + g.R.Intn(g.Metas)}
		}
		return &vast.T{K: 'f', N: 1000 + g.R.Intn(2)}
	}
	n := g.R.Intn(2)
	t := &vast.T{K: 'f', N: 1002 + n}
	for i := 0; i <= n; i++ {
		t.As = append(t.As, gterm(g, d-1))
	}
	return t
}

const eqId = 7777

func lit(g *vast.Gen) *vast.F {
	n := g.R.Intn(5)
	f := &vast.F{K: 'p', N: 1010 + n}
	for i := 0; i < n; i++ {
		f.As = append(f.As, gterm(g, g.R.Intn(4)))
	}
	return f
}
func neg(f *vast.F) *vast.F { return &vast.F{K: '!', Fs: []*vast.F{f}} }

func isEq(f *vast.F) bool {
	return f.K == '!' && f.Fs[0].K == 'p' && f.Fs[0].N == AST.Id_eq.GetIndex()
}

func TestVerifC20(t *testing.T) {
	Init()
	r := vreplay.Start(t, "C20", "random literals of a branch and a further formula: closing is compared with the definition of a contradiction, and each substitution is applied to the literals")
	r.Loop(func(i int) {
		g := vast.New(r.R)
		g.Poly = false
		g.Metas = 2 + r.R.Intn(4)
		b := vast.NewBuilder(r.R)
		var lits []*vast.F
		for j := r.R.Intn(6); j > 0; j-- {
			l := lit(g)
			if r.R.Intn(2) == 0 {
				l = neg(l)
			}
			lits = append(lits, l)
		}
		f := lit(g)
		if r.R.Intn(2) == 0 {
			f = neg(f)
		}
		if len(lits) > 0 && r.R.Intn(4) == 0 { // a complementary pair
			l := lits[r.R.Intn(len(lits))]
			if l.K == '!' {
				f = l.Fs[0].Clone()
			} else {
				f = neg(l.Clone())
			}
		}
		if len(lits) > 0 && r.R.Intn(2) == 0 { // a pair that may be made complementary
			l := lits[r.R.Intn(len(lits))]
			if l.K == '!' {
				l = l.Fs[0]
			} else {
				l = neg(l)
			}
			f = l.Clone()
			at := f
			if f.K == '!' {
				at = f.Fs[0]
			}
			for q := range at.As {
				at.As[q] = blur(g, at.As[q])
			}
		}
		switch r.R.Intn(10) {
		case 0:
			x := gterm(g, r.R.Intn(3))
			y := gterm(g, r.R.Intn(3))
			if r.R.Intn(3) == 0 {
				y = x.Clone()
			}
			f = &vast.F{K: 'p', N: AST.Id_eq.GetIndex(), As: []*vast.T{x, y}}
			if r.R.Intn(4) > 0 {
				f = neg(f)
			}
		case 1:
			f = g.Prop(r.R.Intn(2))
			if r.R.Intn(2) == 0 {
				f = neg(f)
			}
		}
		var ls []string
		for _, l := range lits {
			ls = append(ls, l.String())
		}
		in := func() string { return "literals: " + strings.Join(ls, ", ") + "\nformula: " + f.String() }
		r.Case(in())
		r.Do("closure", in, func() {
			form := func(x *vast.F) AST.Form {
				if isEq(x) {
					return AST.MakerNot(AST.MakerPred(AST.Id_eq, Lib.NewList[AST.Ty](), b.Terms(x.Fs[0].As)))
				}
				if x.K == 'p' && x.N == AST.Id_eq.GetIndex() {
					return AST.MakerPred(AST.Id_eq, Lib.NewList[AST.Ty](), b.Terms(x.As))
				}
				return b.Form(x)
			}
			st := State(3)
			fs := Lib.NewList[AST.Form]()
			for _, l := range lits {
				x := form(l)
				fs.Append(x)
				st.DispatchForm(FT(x))
			}
			st.SetTreePos(new(Unif.Node).MakeDataStruct(fs, true))
			st.SetTreeNeg(new(Unif.Node).MakeDataStruct(fs, false))
			ff := form(f)
			before := vast.Dump(ff)
			closed, subs := Search.ApplyClosureRules(ff, &st)
			if vast.Dump(ff) != before {
				r.Fail("input changed", in(), before, vast.Dump(ff))
			}
			obvious := f.K == 'B' || f.K == '!' && f.Fs[0].K == 'T'
			// what contradicts it?
			var with []*vast.T // the terms the formula could be unified with
			var self *vast.T
			if f.K == 'p' || f.K == '!' && f.Fs[0].K == 'p' {
				at := f
				if f.K == '!' {
					at = f.Fs[0]
				}
				self = pred(at)
				for _, l := range lits {
					if (l.K == '!') != (f.K == '!') {
						if l.K == '!' {
							with = append(with, pred(l.Fs[0]))
						} else {
							with = append(with, pred(l))
						}
					}
				}
			}
			ground := obvious // contradiction without any substitution
			some := obvious
			var wit string
			for _, w := range with {
				if w.String() == self.String() {
					ground = true
				}
				if s := (sub{}); s.unify(self, w) {
					some = true
					wit += " " + w.String() + s.String()
				}
			}
			if isEq(f) {
				a, c := f.Fs[0].As[0], f.Fs[0].As[1]
				if a.String() == c.String() {
					ground = true
				}
				if s := (sub{}); s.unify(a, c) {
					some = true
					wit += " " + s.String()
				}
			}
			if closed && !some {
				r.Fail("closed without a contradiction", in(), "not closed", "closed")
			}
			if !closed && ground {
				r.Fail("immediate contradiction missed", in(), "closed", "not closed")
			}
			if !closed && some {
				r.Fail("unifiable contradiction missed", in(), "closed, as"+wit, "not closed")
			}
			if obvious {
				return
			}
			good := 0
			for _, l := range subs.GetSlice() {
				s, ok := readSub(l)
				if !ok {
					r.Fail("substitution", in(), "one term for each metavariable", fmt.Sprint(l.Len())+" bindings "+s.String())
					continue
				}
				hit := false
				for _, w := range with {
					hit = hit || s.apply(self, 200).String() == s.apply(w, 200).String()
				}
				if isEq(f) {
					hit = hit || s.apply(f.Fs[0].As[0], 200).String() == s.apply(f.Fs[0].As[1], 200).String()
				}
				if hit {
					good++
				} else {
					r.Fail("substitution", in(), "a substitution that makes the formula contradict a literal", s.String())
				}
			}
			if closed && good == 0 && len(subs.GetSlice()) == 0 {
				r.Fail("closed without a substitution", in(), "the substitution", "none")
			}
		})
	})
	r.Done()
}

// blur replaces some sub-terms by metavariables.
func blur(g *vast.Gen, t *vast.T) *vast.T {
	if g.R.Intn(4) == 0 {
		return &vast.T{K: 'm', N: 3000 + g.R.Intn(g.Metas)}
	}
	c := &vast.T{K: t.K, N: t.N}
	for _, a := range t.As {
		c.As = append(c.As, blur(g, a))
	}
	return c
}
