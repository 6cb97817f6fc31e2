package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Engine"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Mods/dmt"
	"github.com/GoelandProver/Goeland/Parser"
	"github.com/GoelandProver/Goeland/Typing"
	"github.com/GoelandProver/Goeland/vreplay"
	"github.com/GoelandProver/Goeland/vreplay/vast"
)

// pform is a formula as written in a problem file: the connectives of vast.F and < (reversed implication),
// X (exclusive or), o (negated or), a (negated and), and n (disequality).
type pgen struct {
	R    *rand.Rand
	eq   bool
	next int
}

const fo = 9000

func (g *pgen) term(vs []int, d int) *vast.T {
	if len(vs) > 0 && g.R.Intn(3) != 0 {
		return &vast.T{K: 'v', N: vs[g.R.Intn(len(vs))]}
	}
	if d > 0 && g.R.Intn(3) == 0 {
		return &vast.T{K: 'f', N: fo + 3 + g.R.Intn(2), As: []*vast.T{g.term(vs, d-1), g.term(vs, d-1)}[:1+g.R.Intn(1)]}
	}
	return &vast.T{K: 'f', N: fo + g.R.Intn(2)}
}

func (g *pgen) atom(vs []int) *vast.F {
	switch n := g.R.Intn(10); {
	case n == 0:
		return &vast.F{K: "TB"[g.R.Intn(2)]}
	case n == 1 && g.eq:
		return &vast.F{K: 'e', As: []*vast.T{g.term(vs, 1), g.term(vs, 1)}}
	case n == 2 && g.eq:
		return &vast.F{K: 'n', As: []*vast.T{g.term(vs, 1), g.term(vs, 1)}}
	case n < 5:
		return &vast.F{K: 'p', N: fo + 10 + n%3}
	case n < 8:
		return &vast.F{K: 'p', N: fo + 20 + n%2, As: []*vast.T{g.term(vs, 1)}}
	default:
		return &vast.F{K: 'p', N: fo + 30, As: []*vast.T{g.term(vs, 1), g.term(vs, 1)}}
	}
}

func (g *pgen) form(vs []int, d int) *vast.F {
	if d <= 0 || g.R.Intn(7) == 0 {
		return g.atom(vs)
	}
	k := "!&&||>=<XoaAEAE"[g.R.Intn(15)]
	switch k {
	case '!':
		return &vast.F{K: k, Fs: []*vast.F{g.form(vs, d-1)}}
	case 'A', 'E':
		f := &vast.F{K: k}
		in := append([]int{}, vs...)
		for i := 1 + g.R.Intn(2); i > 0; i-- {
			v := g.R.Intn(4) // names are reused: inner quantifiers may shadow outer ones
			f.Vs = append(f.Vs, vast.V{N: v})
			in = append(in, v)
		}
		if len(f.Vs) == 2 && f.Vs[0].N == f.Vs[1].N {
			f.Vs = f.Vs[:1]
		}
		f.Fs = []*vast.F{g.form(in, d-1)}
		return f
	case '&', '|':
		f := &vast.F{K: k}
		for i := 2 + g.R.Intn(2); i > 0; i-- {
			f.Fs = append(f.Fs, g.form(vs, d-1))
		}
		return f
	}
	return &vast.F{K: k, Fs: []*vast.F{g.form(vs, d-1), g.form(vs, d-1)}}
}

func wname(n int) string {
	switch n -= fo; {
	case n < 3:
		return fmt.Sprintf("c%d", n)
	case n < 10:
		return fmt.Sprintf("f%d", n)
	}
	return fmt.Sprintf("p%d", n)
}

func wterm(t *vast.T) string {
	if t.K == 'v' {
		return fmt.Sprintf("X%d", t.N)
	}
	if len(t.As) == 0 {
		return wname(t.N)
	}
	var o []string
	for _, a := range t.As {
		o = append(o, wterm(a))
	}
	return wname(t.N) + "(" + strings.Join(o, ", ") + ")"
}

// wform writes a unit formula: anything that needs parentheses has them.
func (g *pgen) wform(f *vast.F, tff bool) string {
	w := func(h *vast.F) string { return g.wform(h, tff) }
	switch f.K {
	case 'T':
		return "$true"
	case 'B':
		return "$false"
	case 'e':
		return "(" + wterm(f.As[0]) + " = " + wterm(f.As[1]) + ")"
	case 'n':
		return "(" + wterm(f.As[0]) + " != " + wterm(f.As[1]) + ")"
	case 'p':
		return wterm(&vast.T{K: 'f', N: f.N, As: f.As})
	case '!':
		return "~ " + w(f.Fs[0])
	case 'A', 'E':
		var o []string
		for _, v := range f.Vs {
			s := fmt.Sprintf("X%d", v.N)
			if tff && g.R.Intn(2) == 0 {
				s += " : $i"
			}
			o = append(o, s)
		}
		return map[byte]string{'A': "!", 'E': "?"}[f.K] + " [" + strings.Join(o, ", ") + "] : " + w(f.Fs[0])
	}
	op := map[byte]string{'&': "&", '|': "|", '>': "=>", '=': "<=>", '<': "<=", 'X': "<~>", 'o': "~|", 'a': "~&"}[f.K]
	s := w(f.Fs[0])
	for _, h := range f.Fs[1:] {
		s += " " + op + " " + w(h)
	}
	return "(" + s + ")"
}

func nary(k byte, fs ...*vast.F) *vast.F { return &vast.F{K: k, Fs: fs} }

// core gives the same formula with the connectives vast.Model knows and the symbols' internal numbers.
func core(f *vast.F) *vast.F {
	o := &vast.F{K: f.K, Vs: f.Vs}
	for _, h := range f.Fs {
		o.Fs = append(o.Fs, core(h))
	}
	var term func(t *vast.T) *vast.T
	term = func(t *vast.T) *vast.T {
		if t.K == 'v' {
			return t
		}
		u := &vast.T{K: 'f', N: AST.MakerId(wname(t.N)).GetIndex()}
		for _, a := range t.As {
			u.As = append(u.As, term(a))
		}
		return u
	}
	for _, a := range f.As {
		o.As = append(o.As, term(a))
	}
	switch f.K {
	case 'p':
		o.N = AST.MakerId(wname(f.N)).GetIndex()
	case 'e', 'n':
		o.N, o.K = AST.Id_eq.GetIndex(), 'p'
		if f.K == 'n' {
			return nary('!', o)
		}
	case '<':
		return nary('>', o.Fs[1], o.Fs[0])
	case 'X':
		return nary('!', nary('=', o.Fs...))
	case 'o':
		return nary('!', nary('|', o.Fs...))
	case 'a':
		return nary('!', nary('&', o.Fs...))
	}
	return o
}

type stmt struct {
	role string // axiom, conjecture, negated_conjecture, include, type
	f    *vast.F
	sub  []stmt
	file string
}

func (g *pgen) stmts(depth int, conj bool) (out []stmt) {
	for i := g.R.Intn(5); i > 0; i-- {
		switch n := g.R.Intn(8); {
		case n == 0 && depth > 0:
			g.next++
			out = append(out, stmt{role: "include", file: fmt.Sprintf("inc%d.ax", g.next), sub: g.stmts(depth-1, conj && g.R.Intn(4) == 0)})
		case n == 1:
			out = append(out, stmt{role: "type"})
		default:
			out = append(out, stmt{role: []string{"axiom", "hypothesis", "lemma", "definition", "theorem", "assumption"}[g.R.Intn(6)], f: g.form(nil, 3)})
		}
	}
	if conj {
		k := g.R.Intn(10)
		for n := map[bool]int{true: 1, false: 0}[k < 6] + map[bool]int{true: 2, false: 0}[k == 9]; n > 0; n-- {
			c := stmt{role: []string{"conjecture", "negated_conjecture"}[g.R.Intn(2)], f: g.form(nil, 3)}
			at := g.R.Intn(len(out) + 1)
			out = append(out[:at], append([]stmt{c}, out[at:]...)...)
		}
	}
	return out
}

func (g *pgen) write(dir, file string, ss []stmt, text map[string]string) {
	s := ""
	for i, x := range ss {
		switch x.role {
		case "include":
			s += fmt.Sprintf("include('%s').\n", x.file)
			g.write(dir, x.file, x.sub, text)
		case "type":
			g.next++
			s += fmt.Sprintf("tff(t%d, type, k%d : $i).\n", i, g.next)
		default:
			lang := []string{"fof", "tff"}[g.R.Intn(2)]
			s += fmt.Sprintf("%s(s%d, %s, %s).\n", lang, i, x.role, g.wform(x.f, lang == "tff"))
		}
	}
	os.WriteFile(filepath.Join(dir, file), []byte(s), 0o644)
	text[file] = s
}

// holds: the problem's axioms are true and its conjecture is false.
func holds(m *vast.Model, ss []stmt) bool {
	for _, x := range ss {
		ok := true
		switch x.role {
		case "include":
			ok = holds(m, x.sub)
		case "type":
		case "conjecture":
			ok = !m.Holds(core(x.f), nil)
		default:
			ok = m.Holds(core(x.f), nil)
		}
		if !ok {
			return false
		}
	}
	return true
}

func count(ss []stmt) (n, forms int) {
	for _, x := range ss {
		switch x.role {
		case "include":
			a, b := count(x.sub)
			n, forms = n+a, forms+b
		case "type":
		case "conjecture", "negated_conjecture":
			n, forms = n+1, forms+1
		default:
			forms++
		}
	}
	return
}

var ready = false

func prepare(t *testing.T) string {
	if !ready {
		Glob.InitLogs()
		initDebuggers()
		AST.Init()
		Typing.Init()
		vast.PanicOnAnomaly()
		ready = true
	}
	return t.TempDir()
}

func rejected(f func()) (why any) {
	defer func() { why = recover() }()
	f()
	return nil
}

func TestVerifC15(t *testing.T) {
	dir := prepare(t)
	r := vreplay.Start(t, "C15", "the problem files and the truth of the assembled formula in all small models tried")
	r.Loop(func(i int) {
		g := &pgen{R: r.R, eq: i%3 == 0}
		ss := g.stmts(2, true)
		text := map[string]string{}
		g.write(dir, "prob.p", ss, text)
		usedmt := r.R.Intn(4) == 0
		in := func() string {
			s := fmt.Sprintf("dmt=%v\n", usedmt)
			for f, x := range text {
				s += "--- " + f + "\n" + x
			}
			return s
		}
		r.Do("assemble", in, func() {
			Glob.SetPlugin("dmt", usedmt)
			dmt.InitPluginTests(r.R.Intn(2) == 0, false)
			Glob.SetConjecture(false)
			stmts, bound, _ := Parser.ParseTPTPFile(filepath.Join(dir, "prob.p"))
			elab, _ := Engine.ToInternalSyntax(stmts)
			conj, forms := count(ss)
			if conj > 1 {
				if why := rejected(func() { StatementListToFormula(elab, bound, dir) }); why == nil {
					r.Fail("several conjectures", in(), "the problem is rejected", "a formula")
				}
				r.Case("")
				return
			}
			form, _, _, _ := StatementListToFormula(elab, bound, dir)
			if Glob.IsConjectureFound() != (conj == 1) {
				r.Fail("conjecture flag", in(), fmt.Sprint(conj == 1), fmt.Sprint(Glob.IsConjectureFound()))
			}
			read := &vast.F{K: 'T'}
			if form != nil {
				read = vast.ReadForm(form)
			} else if forms > 0 && !usedmt {
				r.Fail("no formula", in(), "a formula", "nil")
				return
			}
			sig := ""
			if forms > 1 {
				sig = in()
			}
			r.Case(sig)
			var taken []*vast.F
			if usedmt {
				for _, a := range dmt.GetRegisteredAxioms().GetSlice() {
					taken = append(taken, vast.ReadForm(a))
				}
			}
			for k := 0; k < 16; k++ {
				m := vast.NewModel(r.R, 1+r.R.Intn(2), AST.Id_eq.GetIndex())
				want, got := holds(m, ss), m.Holds(read, nil)
				if usedmt && !want {
					for _, a := range taken {
						got = got && m.Holds(a, nil)
					}
				}
				if want != got {
					r.Fail("meaning", in(), fmt.Sprintf("%v in the model with %v %v", want, m.P, m.Fn), fmt.Sprintf("%v: %s", got, read))
				}
			}
		})
		Glob.SetPlugin("dmt", false)
	})
	r.Done()
}

func TestVerifC16(t *testing.T) {
	dir := prepare(t)
	r := vreplay.Start(t, "C16", "the formula as written and the truth of its translation in all small models tried")
	flat := false
	start := r.Left()
	r.Loop(func(i int) {
		if !flat && r.Left() < start/2 {
			Glob.SetFlatteningAllowed()
			flat = true
		}
		g := &pgen{R: r.R, eq: i%3 == 0}
		ss := []stmt{{role: "axiom", f: g.form(nil, 4)}}
		text := map[string]string{}
		g.write(dir, "form.p", ss, text)
		in := func() string { return fmt.Sprintf("flatten=%v %s", flat, text["form.p"]) }
		r.Do("translate", in, func() {
			stmts, _, _ := Parser.ParseTPTPFile(filepath.Join(dir, "form.p"))
			elab, _ := Engine.ToInternalSyntax(stmts)
			if len(elab) != 1 {
				r.Fail("statements", in(), "1", fmt.Sprint(len(elab)))
				return
			}
			var read *vast.F
			for _, f := range optForm(elab[0].GetForm()) {
				read = vast.ReadForm(f)
			}
			if read == nil {
				r.Fail("no formula", in(), "a formula", "none")
				return
			}
			r.Case(in())
			for k := 0; k < 16; k++ {
				m := vast.NewModel(r.R, 1+r.R.Intn(2), AST.Id_eq.GetIndex())
				want, got := holds(m, ss), m.Holds(read, nil)
				if want != got {
					r.Fail("meaning", in(), fmt.Sprintf("%v in the model with %v %v", want, m.P, m.Fn), fmt.Sprintf("%v: %s", got, read))
				}
			}
		})
	})
	r.Done()
}

func optForm(o Lib.Option[AST.Form]) []AST.Form {
	if s, ok := o.(Lib.Some[AST.Form]); ok {
		return []AST.Form{s.Val}
	}
	return nil
}
