package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---------------------------------------------------------------- type substitution

type TSub map[*types.TypeParam]types.Type

func substType(t types.Type, s TSub) types.Type {
	if len(s) == 0 || t == nil {
		return t
	}
	switch x := t.(type) {
	case *types.TypeParam:
		if r, ok := s[x]; ok {
			return r
		}
		return x
	case *types.Named:
		if x.TypeArgs().Len() == 0 {
			// a generic type seen from inside: the receiver's own type parameters
			if x.TypeParams().Len() > 0 && x.Origin() == x {
				return x
			}
			return x
		}
		var args []types.Type
		ch := false
		for i := 0; i < x.TypeArgs().Len(); i++ {
			a := x.TypeArgs().At(i)
			b := substType(a, s)
			if a != b {
				ch = true
			}
			args = append(args, b)
		}
		if !ch {
			return x
		}
		r, err := types.Instantiate(nil, x.Origin(), args, false)
		if err != nil {
			panic(err)
		}
		return r
	case *types.Alias:
		return substType(types.Unalias(x), s)
	case *types.Pointer:
		e := substType(x.Elem(), s)
		if e == x.Elem() {
			return x
		}
		return types.NewPointer(e)
	case *types.Slice:
		e := substType(x.Elem(), s)
		if e == x.Elem() {
			return x
		}
		return types.NewSlice(e)
	case *types.Array:
		e := substType(x.Elem(), s)
		if e == x.Elem() {
			return x
		}
		return types.NewArray(e, x.Len())
	case *types.Chan:
		e := substType(x.Elem(), s)
		if e == x.Elem() {
			return x
		}
		return types.NewChan(x.Dir(), e)
	case *types.Map:
		k, e := substType(x.Key(), s), substType(x.Elem(), s)
		if k == x.Key() && e == x.Elem() {
			return x
		}
		return types.NewMap(k, e)
	case *types.Tuple:
		var vs []*types.Var
		ch := false
		for i := 0; i < x.Len(); i++ {
			v := x.At(i)
			ty := substType(v.Type(), s)
			if ty != v.Type() {
				ch = true
				v = types.NewVar(v.Pos(), v.Pkg(), v.Name(), ty)
			}
			vs = append(vs, v)
		}
		if !ch {
			return x
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		p := substType(x.Params(), s).(*types.Tuple)
		r := substType(x.Results(), s).(*types.Tuple)
		if p == x.Params() && r == x.Results() {
			return x
		}
		return types.NewSignatureType(nil, nil, nil, p, r, x.Variadic())
	case *types.Struct:
		var fs []*types.Var
		ch := false
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			ty := substType(f.Type(), s)
			if ty != f.Type() {
				ch = true
				f = types.NewField(f.Pos(), f.Pkg(), f.Name(), ty, f.Embedded())
			}
			fs = append(fs, f)
		}
		if !ch {
			return x
		}
		return types.NewStruct(fs, nil)
	}
	return t
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---------------------------------------------------------------- sorts

var sortCache = map[string]string{}
var structInfo = map[string]*StructInfo{} // sort -> info
var treeInfo = map[string]*TreeInfo{}     // sort -> info
var sliceElem = map[string]types.Type{}   // seq sort -> elem type (first seen)

type StructInfo struct {
	Typ  types.Type
	Data *DataDecl
	C    *Ctor
	St   *types.Struct
}

type TreeInfo struct {
	Typ       types.Type // the struct type pointed to
	Data      *DataDecl
	Nil, Node *Ctor
	St        *types.Struct
}

func under(t types.Type) types.Type { return t.Underlying() }

// treeLike: a named struct with a field that is a pointer to the struct itself.
func treeLike(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if p, ok := st.Field(i).Type().(*types.Pointer); ok {
			if m, ok := types.Unalias(p.Elem()).(*types.Named); ok && m.Origin() == n.Origin() {
				return true
			}
		}
	}
	return false
}

func opaqueStruct(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "time", "os", "regexp", "strings", "reflect", "sync/atomic", "io", "bufio", "flag":
			return true
		}
	}
	return false
}

func sortOf(t types.Type) string {
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if s, ok := sortCache[key]; ok {
		return s
	}
	s := sortOf1(t)
	sortCache[key] = s
	return s
}

func sortOf1(t types.Type) string {
	switch x := t.(type) {
	case *types.TypeParam:
		return W.sort("TP_" + x.Obj().Name())
	case *types.Named:
		if opaqueStruct(x) {
			return W.sort("Opq")
		}
		if st, ok := x.Underlying().(*types.Struct); ok {
			return structSort(x, st)
		}
		return sortOf(x.Underlying())
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return "Bool"
		case x.Info()&types.IsInteger != 0:
			return "Int"
		case x.Info()&types.IsFloat != 0:
			return "Real"
		case x.Info()&types.IsString != 0:
			return W.sort("Str")
		}
		return W.sort("Opq")
	case *types.Struct:
		return structSort(x, x)
	case *types.Pointer:
		if treeLike(x.Elem()) {
			return treeSort(x.Elem())
		}
		return W.sort("Ref")
	case *types.Slice:
		return seqSort(x.Elem())
	case *types.Array:
		return seqSort(x.Elem())
	case *types.Interface:
		ifaceInit()
		return "Iface"
	case *types.Map:
		return mapSort(x.Key(), x.Elem())
	case *types.Signature:
		return W.sort("Fn")
	case *types.Chan:
		return W.sort("Opq")
	}
	return W.sort("Opq")
}

func typeName(t types.Type) string {
	s := shortType(t)
	s = strings.NewReplacer("[]", "sl_", "[", "_", "]", "", "*", "p_", " ", "", ",", "_").Replace(s)
	return sanitizeLong(s)
}

func sanitizeLong(s string) string {
	x := sanitize(s)
	if len(s) > 60 {
		h := 0
		for _, c := range s {
			h = h*31 + int(c)
			h &= 0xffffff
		}
		x = x[:50] + fmt.Sprintf("_%x", h)
	}
	return x
}

func structSort(t types.Type, st *types.Struct) string {
	name := "D_" + typeName(t)
	if _, ok := t.(*types.Struct); ok {
		name = "D_" + sanitizeLong(shortType(t))
	}
	key := types.TypeString(t, nil)
	sortCache[key] = name
	d := &DataDecl{Sort: name}
	c := &Ctor{Name: "mk" + name}
	d.Ctors = []*Ctor{c}
	structInfo[name] = &StructInfo{Typ: t, Data: d, C: c, St: st}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		c.Fields = append(c.Fields, BV{name + "." + sanitize(f.Name()), sortOf(f.Type())})
	}
	if st.NumFields() == 0 {
		// unit-like struct: a single nullary constructor
	}
	W.newData(d)
	return name
}

func treeSort(elem types.Type) string {
	name := "Tree_" + typeName(elem)
	key := types.TypeString(types.NewPointer(elem), nil)
	sortCache[key] = name
	st := elem.Underlying().(*types.Struct)
	d := &DataDecl{Sort: name}
	nilC := &Ctor{Name: "nil" + name}
	node := &Ctor{Name: "node" + name}
	d.Ctors = []*Ctor{nilC, node}
	treeInfo[name] = &TreeInfo{Typ: elem, Data: d, Nil: nilC, Node: node, St: st}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		node.Fields = append(node.Fields, BV{name + "." + sanitize(f.Name()), sortOf(f.Type())})
	}
	W.newData(d)
	return name
}

// ---------------------------------------------------------------- sequences

func seqSort(elem types.Type) string {
	e := sortOf(elem)
	return seqSortE(e)
}

func seqElemSort(seq string) string { return seqElems[seq] }

var seqElems = map[string]string{}

func seqSortE(e string) string {
	s := "Seq_" + sanitize(e)
	if W.Sorts[s] {
		return s
	}
	W.sort(s)
	seqElems[s] = e
	ln := W.fun("len_"+s, []string{s}, "Int")
	at := W.fun("at_"+s, []string{s, "Int"}, e)
	emp := W.fun("emp_"+s, nil, s)
	app := W.fun("app_"+s, []string{s, e}, s)
	cat := W.fun("cat_"+s, []string{s, s}, s)
	upd := W.fun("upd_"+s, []string{s, "Int", e}, s)
	sb := W.fun("sub_"+s, []string{s, "Int", "Int"}, s)
	eqf := W.fun("seqeq_"+s, []string{s, s}, "Bool")
	_ = eqf
	v := func(n, so string) *T { return mk(n, so) }
	S, S2, I, J, X := v("s", s), v("s2", s), v("i", "Int"), v("j", "Int"), v("x", e)
	bS, bS2, bI, bJ, bX := BV{"s", s}, BV{"s2", s}, BV{"i", "Int"}, BV{"j", "Int"}, BV{"x", e}
	L := func(a *T) *T { return W.app(ln, a) }
	A := func(a, i *T) *T { return W.app(at, a, i) }
	zero := intT(0)
	W.axiom(s+".len>=0", forall([]BV{bS}, cmp(">=", L(S), zero), []*T{L(S)}), ln)
	W.axiom(s+".emp", eq(L(W.app(emp)), zero), emp)
	W.axiom(s+".emp2", forall([]BV{bS}, implies(eq(L(S), zero), eq(S, W.app(emp))), []*T{L(S)}), emp)
	ap := W.app(app, S, X)
	W.axiom(s+".app.len", forall([]BV{bS, bX}, eq(L(ap), mk("+", "Int", L(S), intT(1))), []*T{ap}), app)
	W.axiom(s+".app.at", forall([]BV{bS, bX, bI}, eq(A(ap, I), ite(eq(I, L(S)), X, A(S, I))), []*T{A(ap, I)}), app)
	W.axiom(s+".app.last", forall([]BV{bS, bX}, eq(A(ap, L(S)), X), []*T{ap}), app)
	W.axiom(s+".app.at2", forall([]BV{bS, bX, bI}, implies(and(cmp("<=", zero, I), cmp("<", I, L(S))), eq(A(ap, I), A(S, I))), []*T{ap, A(S, I)}), app)
	ca := W.app(cat, S, S2)
	W.axiom(s+".cat.len", forall([]BV{bS, bS2}, eq(L(ca), mk("+", "Int", L(S), L(S2))), []*T{ca}), cat)
	W.axiom(s+".cat.at", forall([]BV{bS, bS2, bI}, eq(A(ca, I), ite(cmp("<", I, L(S)), A(S, I), A(S2, mk("-", "Int", I, L(S))))), []*T{A(ca, I)}), cat)
	W.axiom(s+".cat.at1", forall([]BV{bS, bS2, bI}, implies(and(cmp("<=", zero, I), cmp("<", I, L(S))), eq(A(ca, I), A(S, I))), []*T{ca, A(S, I)}), cat)
	W.axiom(s+".cat.at2", forall([]BV{bS, bS2, bI}, implies(and(cmp("<=", zero, I), cmp("<", I, L(S2))), eq(A(ca, mk("+", "Int", I, L(S))), A(S2, I))), []*T{ca, A(S2, I)}), cat)
	W.axiom(s+".cat.snoc", forall([]BV{bS, bS2, bX}, eq(W.app(cat, S, W.app(app, S2, X)), W.app(app, ca, X)), []*T{W.app(cat, S, W.app(app, S2, X))}), cat)
	W.axiom(s+".cat.emp", forall([]BV{bS}, and(eq(W.app(cat, S, W.app(emp)), S), eq(W.app(cat, W.app(emp), S), S)), []*T{W.app(cat, S, W.app(emp))}, []*T{W.app(cat, W.app(emp), S)}), cat)
	up := W.app(upd, S, I, X)
	W.axiom(s+".upd.len", forall([]BV{bS, bI, bX}, eq(L(up), L(S)), []*T{up}), upd)
	W.axiom(s+".upd.same", forall([]BV{bS, bI, bX}, implies(and(cmp("<=", zero, I), cmp("<", I, L(S))), eq(A(up, I), X)), []*T{up}), upd)
	upJ := A(up, J)
	W.axiom(s+".upd.at", forall([]BV{bS, bI, bX, bJ}, implies(and(cmp("<=", zero, I), cmp("<", I, L(S))), eq(upJ, ite(eq(I, J), X, A(S, J)))), []*T{upJ}), upd)
	W.axiom(s+".upd.at2", forall([]BV{bS, bI, bX, bJ}, implies(and(cmp("<=", zero, I), cmp("<", I, L(S)), not(eq(I, J))), eq(upJ, A(S, J))), []*T{up, A(S, J)}), upd)
	sj := W.app(sb, S, I, J)
	W.axiom(s+".sub.len", forall([]BV{bS, bI, bJ}, implies(and(cmp("<=", zero, I), cmp("<=", I, J), cmp("<=", J, L(S))), eq(L(sj), mk("-", "Int", J, I))), []*T{sj}), sb)
	K := v("k", "Int")
	W.axiom(s+".sub.at", forall([]BV{bS, bI, bJ, {"k", "Int"}}, implies(and(cmp("<=", zero, K), cmp("<", K, mk("-", "Int", J, I))), eq(A(sj, K), A(S, mk("+", "Int", I, K)))), []*T{A(sj, K)}), sb)
	W.axiom(s+".sub.at2", forall([]BV{bS, bI, bJ, {"k", "Int"}}, implies(and(cmp("<=", I, K), cmp("<", K, J)), eq(A(sj, mk("-", "Int", K, I)), A(S, K))), []*T{sj, A(S, K)}), sb)
	W.axiom(s+".sub.snoc", forall([]BV{bS, bI, bJ}, implies(and(cmp("<=", zero, I), cmp("<=", I, J), cmp("<", J, L(S))), eq(W.app(sb, S, I, mk("+", "Int", J, intT(1))), W.app(app, sj, A(S, J)))), []*T{sj, A(S, J)}), sb)
	W.axiom(s+".sub.snoc2", forall([]BV{bS, bI, bJ, {"k", "Int"}}, implies(and(cmp("<=", zero, I), cmp("<", I, J), cmp("<=", J, L(S)), eq(J, mk("+", "Int", K, intT(1)))), eq(sj, W.app(app, W.app(sb, S, I, K), A(S, K)))), []*T{sj, A(S, K)}), sb)
	W.axiom(s+".sub.full", forall([]BV{bS, bJ}, implies(eq(J, L(S)), eq(W.app(sb, S, zero, J), S)), []*T{W.app(sb, S, zero, J)}), sb)
	q := W.app("seqeq_"+s, S, S2)
	// seqeq is extensional equality; the witness function gives the skolemised direction
	df := W.fun("seqdiff_"+s, []string{s, s}, "Int")
	D := W.app(df, S, S2)
	W.axiom(s+".seqeq.intro", forall([]BV{bS, bS2}, or(q, not(eq(L(S), L(S2))), and(cmp("<=", zero, D), cmp("<", D, L(S)), not(eq(A(S, D), A(S2, D))))), []*T{q}), "seqeq_"+s)
	W.axiom(s+".seqeq.elim", forall([]BV{bS, bS2}, implies(q, eq(S, S2)), []*T{q}), "seqeq_"+s)
	return s
}

func seqLen(s *T) *T {
	if s.Op == "app_"+s.Sort {
		return add(seqLen(s.Args[0]), intT(1))
	}
	if s.Op == "emp_"+s.Sort {
		return intT(0)
	}
	if s.Op == "cat_"+s.Sort {
		return add(seqLen(s.Args[0]), seqLen(s.Args[1]))
	}
	if s.Op == "upd_"+s.Sort {
		return seqLen(s.Args[0])
	}
	return W.app("len_"+s.Sort, s)
}

func seqAt(s, i *T) *T {
	if n, ok := isInt(i); ok {
		// literal sequences
		if s.Op == "app_"+s.Sort {
			if l, ok := isInt(seqLen(s.Args[0])); ok {
				if n == l {
					return s.Args[1]
				}
				if n < l && n >= 0 {
					return seqAt(s.Args[0], i)
				}
			}
		}
	}
	if s.Op == "app_"+s.Sort && i.K == seqLen(s.Args[0]).K {
		return s.Args[1]
	}
	if s.Op == "upd_"+s.Sort && i.K == s.Args[1].K {
		return s.Args[2] // in range by the caller's bounds obligation
	}
	return W.app("at_"+s.Sort, s, i)
}

func seqEmp(s string) *T { return W.app("emp_" + s) }
func seqApp(s, x *T) *T  { return W.app("app_"+s.Sort, s, x) }
func seqCat(a, b *T) *T {
	if b.Op == "emp_"+b.Sort {
		return a
	}
	if a.Op == "emp_"+a.Sort {
		return b
	}
	if b.Op == "app_"+b.Sort { // literal tails become appends
		if lit, ok := seqLiteral(b); ok {
			r := a
			for _, x := range lit {
				r = seqApp(r, x)
			}
			return r
		}
	}
	return W.app("cat_"+a.Sort, a, b)
}
func seqLiteral(s *T) ([]*T, bool) {
	if s.Op == "emp_"+s.Sort {
		return nil, true
	}
	if s.Op == "app_"+s.Sort {
		l, ok := seqLiteral(s.Args[0])
		if !ok {
			return nil, false
		}
		return append(append([]*T{}, l...), s.Args[1]), true
	}
	return nil, false
}
func seqUpd(s, i, x *T) *T { return W.app("upd_"+s.Sort, s, i, x) }
func seqSub(s, a, b *T) *T {
	if n, ok := isInt(a); ok && n == 0 && b.K == seqLen(s).K {
		return s
	}
	return W.app("sub_"+s.Sort, s, a, b)
}
func seqEq(a, b *T) *T {
	if a.K == b.K {
		return tTrue
	}
	return W.app("seqeq_"+a.Sort, a, b)
}

// ---------------------------------------------------------------- maps

func mapSort(k, v types.Type) string {
	ks, vs := sortOf(k), sortOf(v)
	s := "Map_" + sanitize(ks) + "_" + sanitize(vs)
	if W.Sorts[s] {
		return s
	}
	W.sort(s)
	mapSorts[s] = [2]string{ks, vs}
	dom := W.fun("dom_"+s, []string{s, ks}, "Bool")
	get := W.fun("get_"+s, []string{s, ks}, vs)
	emp := W.fun("emp_"+s, nil, s)
	put := W.fun("put_"+s, []string{s, ks, vs}, s)
	del := W.fun("del_"+s, []string{s, ks}, s)
	ln := W.fun("mlen_"+s, []string{s}, "Int")
	M, K, K2, V := mk("m", s), mk("k", ks), mk("k2", ks), mk("v", vs)
	bM, bK, bK2, bV := BV{"m", s}, BV{"k", ks}, BV{"k2", ks}, BV{"v", vs}
	W.axiom(s+".emp", forall([]BV{bK}, not(W.app(dom, W.app(emp), K)), []*T{W.app(dom, W.app(emp), K)}), emp)
	p := W.app(put, M, K, V)
	W.axiom(s+".put.dom", forall([]BV{bM, bK, bV, bK2}, iff(W.app(dom, p, K2), or(eq(K, K2), W.app(dom, M, K2))), []*T{W.app(dom, p, K2)}), put)
	W.axiom(s+".put.get", forall([]BV{bM, bK, bV, bK2}, eq(W.app(get, p, K2), ite(eq(K, K2), V, W.app(get, M, K2))), []*T{W.app(get, p, K2)}), put)
	W.axiom(s+".put.self", forall([]BV{bM, bK, bV}, and(W.app(dom, p, K), eq(W.app(get, p, K), V)), []*T{p}), put)
	d := W.app(del, M, K)
	W.axiom(s+".del.dom", forall([]BV{bM, bK, bK2}, iff(W.app(dom, d, K2), and(not(eq(K, K2)), W.app(dom, M, K2))), []*T{W.app(dom, d, K2)}), del)
	W.axiom(s+".del.get", forall([]BV{bM, bK, bK2}, implies(not(eq(K, K2)), eq(W.app(get, d, K2), W.app(get, M, K2))), []*T{W.app(get, d, K2)}), del)
	W.axiom(s+".len", forall([]BV{bM}, cmp(">=", W.app(ln, M), intT(0)), []*T{W.app(ln, M)}), ln)
	return s
}

var mapSorts = map[string][2]string{}

// ---------------------------------------------------------------- interfaces

var ifaceData *DataDecl
var boxes = map[string]*Ctor{} // type string -> box constructor
var boxType = map[string]types.Type{}

func ifaceInit() {
	if ifaceData != nil {
		return
	}
	W.sort("Opq")
	ifaceData = &DataDecl{Sort: "Iface"}
	nilC := &Ctor{Name: "nil_iface"}
	oth := &Ctor{Name: "other_iface", Fields: []BV{{"other_val", "Opq"}}}
	ifaceData.Ctors = []*Ctor{nilC, oth}
	W.newData(ifaceData)
}

func nilIface() *T { ifaceInit(); return mk("nil_iface", "Iface") }

// boxCtor returns the constructor that injects values of concrete type t into interfaces.
func boxCtor(t types.Type) *Ctor {
	ifaceInit()
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if c, ok := boxes[key]; ok {
		return c
	}
	c := &Ctor{Name: "box_" + typeName(t)}
	for n := 2; W.Ctors[c.Name] != nil; n++ {
		c.Name = fmt.Sprintf("box_%s_%d", typeName(t), n)
	}
	boxes[key] = c
	boxType[c.Name] = t
	s := sortOf(t)
	c.Fields = []BV{{"un" + c.Name, s}}
	ifaceData.Ctors = append(ifaceData.Ctors, c)
	W.Ctors[c.Name] = ifaceData
	W.Sels[c.Fields[0].Name] = "Iface"
	return c
}

func boxT(t types.Type, v *T) *T {
	c := boxCtor(t)
	return ctorApp(ifaceData, c, v)
}

func zeroTerm(t types.Type) *T {
	t = types.Unalias(t)
	s := sortOf(t)
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch s {
		case "Bool":
			return tFalse
		case "Int":
			return intT(0)
		case "Real":
			return mk("0.0", "Real")
		case "Str":
			return W.strLit("")
		}
	case *types.Struct:
		if si, ok := structInfo[s]; ok {
			var as []*T
			for i := 0; i < x.NumFields(); i++ {
				as = append(as, zeroTerm(si.St.Field(i).Type()))
			}
			return ctorApp(si.Data, si.C, as...)
		}
	case *types.Pointer:
		if ti, ok := treeInfo[s]; ok {
			return mk(ti.Nil.Name, s)
		}
		return W.constant("nil_Ref", W.sort("Ref"))
	case *types.Slice:
		return seqEmp(s)
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); !ok {
			return nilIface()
		}
	case *types.Map:
		return W.app("emp_" + s)
	case *types.Signature:
		return W.constant("nil_Fn", W.sort("Fn"))
	}
	return W.constant("zero_"+sanitize(s), s)
}
