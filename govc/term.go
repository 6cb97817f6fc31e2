package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// T is an SMT term.  Terms are immutable; K is a canonical string used for syntactic equality.
type T struct {
	Op   string
	Args []*T
	Sort string
	Bind []BV   // for forall/exists
	Pats [][]*T // triggers
	K    string
	size int
}

type BV struct{ Name, Sort string }

func mk(op, sort string, args ...*T) *T {
	t := &T{Op: op, Args: args, Sort: sort}
	if len(args) == 0 {
		t.K = op
		t.size = 1
	} else {
		var sb strings.Builder
		sb.WriteByte('(')
		sb.WriteString(op)
		t.size = 1
		for _, a := range args {
			if a == nil {
				panic("nil argument to term " + op)
			}
			sb.WriteByte(' ')
			sb.WriteString(a.K)
			t.size += a.size
		}
		sb.WriteByte(')')
		t.K = sb.String()
	}
	return t
}

var tTrue = mk("true", "Bool")
var tFalse = mk("false", "Bool")

func intT(n int64) *T {
	if n < 0 {
		return mk("-", "Int", mk(strconv.FormatInt(-n, 10), "Int"))
	}
	return mk(strconv.FormatInt(n, 10), "Int")
}

func isInt(t *T) (int64, bool) {
	if len(t.Args) == 0 && t.Sort == "Int" {
		n, err := strconv.ParseInt(t.Op, 10, 64)
		return n, err == nil
	}
	if t.Op == "-" && len(t.Args) == 1 {
		n, ok := isInt(t.Args[0])
		return -n, ok
	}
	return 0, false
}

func not(a *T) *T {
	switch {
	case a == tTrue || a.Op == "true":
		return tFalse
	case a == tFalse || a.Op == "false":
		return tTrue
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", "Bool", a)
}

func and(as ...*T) *T {
	var out []*T
	seen := map[string]bool{}
	for _, a := range as {
		if a.Op == "true" {
			continue
		}
		if a.Op == "false" {
			return tFalse
		}
		if a.Op == "and" {
			for _, b := range a.Args {
				if !seen[b.K] {
					seen[b.K] = true
					out = append(out, b)
				}
			}
			continue
		}
		if !seen[a.K] {
			seen[a.K] = true
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", "Bool", out...)
}

func or(as ...*T) *T {
	var out []*T
	seen := map[string]bool{}
	for _, a := range as {
		if a.Op == "false" {
			continue
		}
		if a.Op == "true" {
			return tTrue
		}
		if a.Op == "or" {
			for _, b := range a.Args {
				if !seen[b.K] {
					seen[b.K] = true
					out = append(out, b)
				}
			}
			continue
		}
		if !seen[a.K] {
			seen[a.K] = true
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", "Bool", out...)
}

func implies(a, b *T) *T {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" {
		return tTrue
	}
	if b.Op == "false" {
		return not(a)
	}
	return mk("=>", "Bool", a, b)
}

func iff(a, b *T) *T {
	if a.K == b.K {
		return tTrue
	}
	if a.Op == "true" {
		return b
	}
	if b.Op == "true" {
		return a
	}
	if a.Op == "false" {
		return not(b)
	}
	if b.Op == "false" {
		return not(a)
	}
	return mk("=", "Bool", a, b)
}

func eq(a, b *T) *T {
	if a.K == b.K {
		return tTrue
	}
	if a.Sort == "Bool" {
		return iff(a, b)
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq: sort mismatch %s:%s vs %s:%s", a.K, a.Sort, b.K, b.Sort))
	}
	if x, ok := isInt(a); ok {
		if y, ok := isInt(b); ok {
			if x == y {
				return tTrue
			}
			return tFalse
		}
	}
	ca, cb := ctorOf(a), ctorOf(b)
	if ca != "" && cb != "" {
		if ca != cb {
			return tFalse
		}
	}
	if isStrLit(a) && isStrLit(b) {
		return tFalse // K differs
	}
	return mk("=", "Bool", a, b)
}

func isStrLit(t *T) bool { return t.Sort == "Str" && strings.HasPrefix(t.Op, "str!") }

func ite(c, a, b *T) *T {
	if c.Op == "true" {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a.K == b.K {
		return a
	}
	if a.Sort == "Bool" {
		if a.Op == "true" && b.Op == "false" {
			return c
		}
		if a.Op == "false" && b.Op == "true" {
			return not(c)
		}
	}
	return mk("ite", a.Sort, c, a, b)
}

func cmp(op string, a, b *T) *T {
	if x, ok := isInt(a); ok {
		if y, ok := isInt(b); ok {
			r := false
			switch op {
			case "<":
				r = x < y
			case "<=":
				r = x <= y
			case ">":
				r = x > y
			case ">=":
				r = x >= y
			}
			if r {
				return tTrue
			}
			return tFalse
		}
	}
	return mk(op, "Bool", a, b)
}

func add(a, b *T) *T {
	if x, ok := isInt(a); ok {
		if y, ok := isInt(b); ok {
			return intT(x + y)
		}
		if x == 0 {
			return b
		}
	}
	if y, ok := isInt(b); ok {
		if y == 0 {
			return a
		}
		// (x + c) + d
		if a.Op == "+" && len(a.Args) == 2 {
			if c, ok := isInt(a.Args[1]); ok {
				return add(a.Args[0], intT(c+y))
			}
		}
	}
	return mk("+", a.Sort, a, b)
}

func sub(a, b *T) *T {
	if y, ok := isInt(b); ok {
		return add(a, intT(-y))
	}
	if a.K == b.K && a.Sort == "Int" {
		return intT(0)
	}
	return mk("-", a.Sort, a, b)
}

func quant(q string, bs []BV, body *T, pats [][]*T) *T {
	if len(bs) == 0 {
		return body
	}
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	t := &T{Op: q, Args: []*T{body}, Sort: "Bool", Bind: bs, Pats: pats}
	t.size = body.size + 1
	t.K = t.smt()
	return t
}

func forall(bs []BV, body *T, pats ...[]*T) *T { return quant("forall", bs, body, pats) }
func exists(bs []BV, body *T, pats ...[]*T) *T { return quant("exists", bs, body, pats) }

func (t *T) smt() string {
	if t.Op == "forall" || t.Op == "exists" {
		var sb strings.Builder
		sb.WriteString("(" + t.Op + " (")
		for i, b := range t.Bind {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString("(" + b.Name + " " + b.Sort + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(t.Args[0].smt())
		for _, p := range t.Pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(x.smt())
			}
			sb.WriteString(")")
		}
		if len(t.Pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	}
	return t.K
}

// subst replaces constants by terms (capture is avoided by globally unique bound names).
func (t *T) subst(m map[string]*T) *T {
	if len(m) == 0 {
		return t
	}
	if len(t.Args) == 0 {
		if r, ok := m[t.Op]; ok {
			return r
		}
		return t
	}
	args := make([]*T, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = a.subst(m)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	if t.Op == "forall" || t.Op == "exists" {
		var pats [][]*T
		for _, p := range t.Pats {
			var q []*T
			for _, x := range p {
				q = append(q, x.subst(m))
			}
			pats = append(pats, q)
		}
		return quant(t.Op, t.Bind, args[0], pats)
	}
	switch t.Op {
	case "and":
		return and(args...)
	case "or":
		return or(args...)
	case "not":
		return not(args[0])
	case "=>":
		return implies(args[0], args[1])
	case "=":
		return eq(args[0], args[1])
	case "ite":
		return ite(args[0], args[1], args[2])
	}
	return mk(t.Op, t.Sort, args...)
}

func (t *T) walk(f func(*T), seen map[*T]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		a.walk(f, seen)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			x.walk(f, seen)
		}
	}
}

// ---------------------------------------------------------------- declarations

type FuncDecl struct {
	Name string
	Args []string
	Ret  string
}

type Ctor struct {
	Name   string
	Fields []BV
}

type DataDecl struct {
	Sort  string
	Ctors []*Ctor
}

// World holds every declared sort, function, datatype and axiom.
type World struct {
	Sorts  map[string]bool
	Funcs  map[string]*FuncDecl
	Data   map[string]*DataDecl
	Ctors  map[string]*DataDecl // constructor name -> datatype
	Sels   map[string]string    // selector -> datatype sort
	Axioms []*Axiom
	axName map[string]bool
	fresh  int
	lits   map[string]*T
}

type Axiom struct {
	Name   string
	T      *T
	Keys   []string // function symbols that make this axiom relevant (any of them)
	All    bool     // require all keys rather than any
	Manual string   // lemma used only where a contract names it
	Lemma  int      // 1-based index of the lemma this axiom states (0: none)
}

var W = &World{Sorts: map[string]bool{}, Funcs: map[string]*FuncDecl{}, Data: map[string]*DataDecl{}, Ctors: map[string]*DataDecl{}, Sels: map[string]string{}, axName: map[string]bool{}, lits: map[string]*T{}}

func ctorOf(t *T) string {
	if _, ok := W.Ctors[t.Op]; ok {
		return t.Op
	}
	return ""
}

func (w *World) sort(name string) string {
	w.Sorts[name] = true
	return name
}

func (w *World) fun(name string, args []string, ret string) string {
	if d, ok := w.Funcs[name]; ok {
		if d.Ret != ret || len(d.Args) != len(args) {
			panic("redeclared " + name)
		}
		return name
	}
	w.Funcs[name] = &FuncDecl{name, args, ret}
	return name
}

func (w *World) freshConst(hint, sort string) *T {
	w.fresh++
	n := fmt.Sprintf("%s!%d", sanitize(hint), w.fresh)
	w.fun(n, nil, sort)
	return mk(n, sort)
}

func (w *World) freshBV(hint, sort string) (BV, *T) {
	w.fresh++
	n := fmt.Sprintf("%s?%d", sanitize(hint), w.fresh)
	return BV{n, sort}, mk(n, sort)
}

func (w *World) constant(name, sort string) *T {
	w.fun(name, nil, sort)
	return mk(name, sort)
}

func (w *World) axiom(name string, t *T, keys ...string) {
	if w.axName[name] {
		return
	}
	w.axName[name] = true
	w.Axioms = append(w.Axioms, &Axiom{Name: name, T: t, Keys: keys})
}

func (w *World) app(name string, args ...*T) *T {
	d := w.Funcs[name]
	if d == nil {
		panic("undeclared function " + name)
	}
	if len(d.Args) != len(args) {
		panic(fmt.Sprintf("arity of %s: want %d got %d", name, len(d.Args), len(args)))
	}
	for i := range args {
		if args[i].Sort != d.Args[i] {
			panic(fmt.Sprintf("%s: argument %d has sort %s, want %s (%s)", name, i, args[i].Sort, d.Args[i], args[i].K))
		}
	}
	return mk(name, d.Ret, args...)
}

func (w *World) strLit(s string) *T {
	if t, ok := w.lits[s]; ok {
		return t
	}
	w.sort("Str")
	n := fmt.Sprintf("str!%d!%s", len(w.lits), sanitize(s))
	w.fun(n, nil, "Str")
	t := mk(n, "Str")
	w.lits[s] = t
	return t
}

func (w *World) newData(d *DataDecl) {
	w.Data[d.Sort] = d
	for _, c := range d.Ctors {
		w.Ctors[c.Name] = d
		for _, f := range c.Fields {
			w.Sels[f.Name] = d.Sort
		}
	}
}

func ctorApp(d *DataDecl, c *Ctor, args ...*T) *T {
	for i := range args {
		if args[i].Sort != c.Fields[i].Sort {
			panic(fmt.Sprintf("ctor %s: field %d has sort %s want %s (%s)", c.Name, i, args[i].Sort, c.Fields[i].Sort, args[i].K))
		}
	}
	// eta: C(sel1(t), sel2(t), ...) with single-constructor datatype = t
	if len(d.Ctors) == 1 && len(args) > 0 {
		var base *T
		ok := true
		for i, a := range args {
			if a.Op != c.Fields[i].Name || len(a.Args) != 1 {
				ok = false
				break
			}
			if base == nil {
				base = a.Args[0]
			} else if base.K != a.Args[0].K {
				ok = false
				break
			}
		}
		if ok && base != nil && base.Sort == d.Sort {
			return base
		}
	}
	return mk(c.Name, d.Sort, args...)
}

func selApp(c *Ctor, i int, t *T) *T {
	if t.Op == c.Name && len(t.Args) == len(c.Fields) {
		return t.Args[i]
	}
	if t.Op == "ite" {
		a, b := t.Args[1], t.Args[2]
		if a.Op == c.Name || b.Op == c.Name {
			return ite(t.Args[0], selApp(c, i, a), selApp(c, i, b))
		}
	}
	return mk(c.Fields[i].Name, c.Fields[i].Sort, t)
}

func testApp(c *Ctor, t *T) *T {
	if cc := ctorOf(t); cc != "" {
		if cc == c.Name {
			return tTrue
		}
		return tFalse
	}
	return mk("(_ is "+c.Name+")", "Bool", t)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$', r == '!':
			sb.WriteRune(r)
		default:
			sb.WriteByte('_')
		}
	}
	x := sb.String()
	if len(x) > 60 {
		x = x[:60]
	}
	if x == "" {
		x = "_"
	}
	if x[0] >= '0' && x[0] <= '9' {
		x = "_" + x
	}
	return x
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedInts[V any](m map[int]V) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// ---------------------------------------------------------------- query printing

// query renders hypotheses and negated goal as an SMT-LIB script.
func (w *World) query(hyps []*T, goal *T, uses []string, maxLemma int) string {
	header := ""
	all := append(append([]*T{}, hyps...), goal)
	syms := map[string]bool{}
	sorts := map[string]bool{}
	var addT func(*T)
	seen := map[*T]bool{}
	addT = func(t *T) {
		t.walk(func(x *T) {
			op := x.Op
			if strings.HasPrefix(op, "(_ is ") {
				op = strings.TrimSuffix(strings.TrimPrefix(op, "(_ is "), ")")
			}
			syms[op] = true
			sorts[x.Sort] = true
			for _, b := range x.Bind {
				sorts[b.Sort] = true
			}
		}, seen)
	}
	for _, t := range all {
		addT(t)
	}
	var axs []*T
	used := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, a := range w.Axioms {
			if used[a.Name] || (maxLemma > 0 && a.Lemma >= maxLemma) || (a.Manual != "" && !inList(uses, a.Manual)) {
				continue
			}
			rel := false
			if a.All {
				rel = true
				for _, k := range a.Keys {
					if !syms[k] && !sorts[k] {
						rel = false
					}
				}
			} else {
				for _, k := range a.Keys {
					if syms[k] || sorts[k] {
						rel = true
					}
				}
			}
			if rel {
				used[a.Name] = true
				addT(a.T)
				axs = append(axs, a.T)
				changed = true
			}
		}
		// symbols of function signatures and datatypes pull in sorts
		for s := range syms {
			if d, ok := w.Funcs[s]; ok {
				for _, a := range d.Args {
					sorts[a] = true
				}
				sorts[d.Ret] = true
			}
			if d, ok := w.Ctors[s]; ok {
				sorts[d.Sort] = true
			}
			if d, ok := w.Sels[s]; ok {
				sorts[d] = true
			}
		}
		for grow := true; grow; {
			grow = false
			for s := range sorts {
				if d, ok := w.Data[s]; ok {
					for _, c := range usedCtors(d, syms) {
						for _, f := range c.Fields {
							if !sorts[f.Sort] {
								sorts[f.Sort] = true
								grow = true
								changed = true
							}
						}
					}
				}
			}
		}
	}
	var sb strings.Builder
	sb.WriteString(header)
	for _, s := range sortedKeys(sorts) {
		if s == "Int" || s == "Bool" || s == "Real" || s == "" {
			continue
		}
		if _, ok := w.Data[s]; ok {
			continue
		}
		if strings.HasPrefix(s, "(") {
			continue
		}
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	var ds []*DataDecl
	for _, s := range sortedKeys(sorts) {
		if d, ok := w.Data[s]; ok {
			ds = append(ds, d)
		}
	}
	if len(ds) > 0 {
		sb.WriteString("(declare-datatypes (")
		for _, d := range ds {
			fmt.Fprintf(&sb, "(%s 0) ", d.Sort)
		}
		sb.WriteString(") (\n")
		for _, d := range ds {
			sb.WriteString("  (")
			for _, c := range usedCtors(d, syms) {
				fmt.Fprintf(&sb, "(%s", c.Name)
				for _, f := range c.Fields {
					fmt.Fprintf(&sb, " (%s %s)", f.Name, f.Sort)
				}
				sb.WriteString(") ")
			}
			sb.WriteString(")\n")
		}
		sb.WriteString("))\n")
	}
	for _, s := range sortedKeys(syms) {
		if d, ok := w.Funcs[s]; ok {
			fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", d.Name, strings.Join(d.Args, " "), d.Ret)
		}
	}
	// distinct string literals
	var lits []string
	for _, t := range w.lits {
		if syms[t.Op] {
			lits = append(lits, t.Op)
		}
	}
	sort.Strings(lits)
	if len(lits) > 1 {
		fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	for _, a := range axs {
		fmt.Fprintf(&sb, "(assert %s)\n", a.smt())
	}
	for _, h := range hyps {
		fmt.Fprintf(&sb, "(assert %s)\n", h.smt())
	}
	fmt.Fprintf(&sb, "(assert (not %s))\n(check-sat)\n", goal.smt())
	return sb.String()
}

// usedCtors: values of interface types whose box constructor a query does not mention are
// represented by other_iface, so only the constructors that occur need declaring.
func usedCtors(d *DataDecl, syms map[string]bool) []*Ctor {
	if d.Sort != "Iface" {
		return d.Ctors
	}
	var out []*Ctor
	for _, c := range d.Ctors {
		if c.Name == "nil_iface" || c.Name == "other_iface" || syms[c.Name] || (len(c.Fields) > 0 && syms[c.Fields[0].Name]) {
			out = append(out, c)
		}
	}
	return out
}
