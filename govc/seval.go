package main

import (
	"fmt"
	"go/types"
	"strings"
)

// SV is a specification-level value: an SMT term with its Go type.
type SV struct {
	t  *T
	ty types.Type
}

var tyReal types.Type = types.Typ[types.Float64]
var tyBool types.Type = types.Typ[types.Bool]
var tyInt types.Type = types.Typ[types.Int]
var tyStr types.Type = types.Typ[types.String]
var tyAny types.Type = types.NewInterfaceType(nil, nil)

type Env struct {
	up    *Env
	vars  map[string]SV
	dyn   func(string) (SV, bool)
	old   *Env
	types map[string]types.Type
}

func (e *Env) child() *Env {
	return &Env{up: e, vars: map[string]SV{}, old: e.old, types: e.types}
}

func (e *Env) lookup(n string) (SV, bool) {
	for x := e; x != nil; x = x.up {
		if v, ok := x.vars[n]; ok {
			return v, true
		}
		if x.dyn != nil {
			if v, ok := x.dyn(n); ok {
				return v, true
			}
		}
	}
	return SV{}, false
}

type SpecErr struct{ msg string }

func serr(x *Ex, f string, a ...any) {
	where := ""
	if x != nil {
		where = fmt.Sprintf("%s:%d: ", x.File, x.Line)
	}
	panic(SpecErr{where + fmt.Sprintf(f, a...)})
}

// ---------------------------------------------------------------- types

func (v *Ver) resolveType(t *TyX, env map[string]types.Type) types.Type {
	switch t.Kind {
	case "ptr":
		return types.NewPointer(v.resolveType(t.Args[0], env))
	case "slice":
		return types.NewSlice(v.resolveType(t.Args[0], env))
	case "map":
		return types.NewMap(v.resolveType(t.Args[0], env), v.resolveType(t.Args[1], env))
	case "func":
		var ps []*types.Var
		for _, a := range t.Args[:len(t.Args)-1] {
			ps = append(ps, types.NewVar(0, nil, "", v.resolveType(a, env)))
		}
		r := types.NewVar(0, nil, "", v.resolveType(t.Args[len(t.Args)-1], env))
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(r), false)
	}
	if env != nil {
		if r, ok := env[t.Name]; ok {
			return r
		}
	}
	switch t.Name {
	case "int":
		return tyInt
	case "bool":
		return tyBool
	case "string":
		return tyStr
	case "real":
		return tyReal
	case "any":
		return tyAny
	}
	pk, nm, ok := strings.Cut(t.Name, ".")
	if !ok {
		// spec-only sort
		if st, ok := v.specSorts[t.Name]; ok {
			return st
		}
		panic(SpecErr{"unknown type " + t.Name})
	}
	p := v.pkgs[pk]
	if p == nil {
		panic(SpecErr{"unknown package " + pk})
	}
	o := p.Pkg.Scope().Lookup(nm)
	tn, ok := o.(*types.TypeName)
	if !ok {
		panic(SpecErr{"unknown type " + t.Name})
	}
	ty := tn.Type()
	if len(t.Args) > 0 {
		var as []types.Type
		for _, a := range t.Args {
			as = append(as, v.resolveType(a, env))
		}
		r, err := types.Instantiate(nil, ty, as, false)
		if err != nil {
			panic(SpecErr{err.Error()})
		}
		return r
	}
	return ty
}

func (v *Ver) unify(p *TyX, a types.Type, tps map[string]bool, b map[string]types.Type) {
	a = types.Unalias(a)
	switch p.Kind {
	case "ptr":
		if x, ok := a.(*types.Pointer); ok {
			v.unify(p.Args[0], x.Elem(), tps, b)
		}
		return
	case "slice":
		if x, ok := a.Underlying().(*types.Slice); ok {
			v.unify(p.Args[0], x.Elem(), tps, b)
		}
		return
	case "map":
		if x, ok := a.Underlying().(*types.Map); ok {
			v.unify(p.Args[0], x.Key(), tps, b)
			v.unify(p.Args[1], x.Elem(), tps, b)
		}
		return
	case "func":
		if x, ok := a.Underlying().(*types.Signature); ok {
			for i := 0; i < x.Params().Len() && i < len(p.Args)-1; i++ {
				v.unify(p.Args[i], x.Params().At(i).Type(), tps, b)
			}
			if x.Results().Len() == 1 {
				v.unify(p.Args[len(p.Args)-1], x.Results().At(0).Type(), tps, b)
			}
		}
		return
	}
	if tps[p.Name] {
		if _, ok := b[p.Name]; !ok {
			b[p.Name] = a
		}
		return
	}
	if n, ok := a.(*types.Named); ok && len(p.Args) > 0 {
		for i := range p.Args {
			if i < n.TypeArgs().Len() {
				v.unify(p.Args[i], n.TypeArgs().At(i), tps, b)
			}
		}
	}
}

func (v *Ver) coerce(x *Ex, a SV, ty types.Type) SV {
	want := sortOf(ty)
	if a.t == nil {
		return SV{zeroTerm(ty), ty}
	}
	if a.t.Sort == want {
		return SV{a.t, ty}
	}
	if want == "Iface" {
		return SV{boxT(a.ty, a.t), ty}
	}
	if want == "Real" && a.t.Sort == "Int" {
		if n, ok := isInt(a.t); ok {
			if n < 0 {
				return SV{mk("-", "Real", mk(fmt.Sprintf("%d.0", -n), "Real")), ty}
			}
			return SV{mk(fmt.Sprintf("%d.0", n), "Real"), ty}
		}
		return SV{mk("to_real", "Real", a.t), ty}
	}
	// a struct wrapping exactly the wanted thing? (List[T] where []T is expected)
	if si, ok := structInfo[a.t.Sort]; ok && len(si.C.Fields) == 1 && si.C.Fields[0].Sort == want {
		return SV{selApp(si.C, 0, a.t), ty}
	}
	serr(x, "cannot use %s (sort %s) as %s (sort %s)", a.t.K, a.t.Sort, shortType(ty), want)
	return a
}

// deepEq is equality with extensionality on sequence-valued components.
func deepEq(a, b *T) *T {
	if a.K == b.K {
		return tTrue
	}
	if _, ok := seqElems[a.Sort]; ok {
		return seqEq(a, b)
	}
	if si, ok := structInfo[a.Sort]; ok && hasSeq(a.Sort, map[string]bool{}) {
		var cs []*T
		for i := range si.C.Fields {
			cs = append(cs, deepEq(selApp(si.C, i, a), selApp(si.C, i, b)))
		}
		return and(cs...)
	}
	return eq(a, b)
}

func hasSeq(s string, seen map[string]bool) bool {
	if _, ok := seqElems[s]; ok {
		return true
	}
	if seen[s] {
		return false
	}
	seen[s] = true
	if si, ok := structInfo[s]; ok {
		for _, f := range si.C.Fields {
			if hasSeq(f.Sort, seen) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- expressions

func (v *Ver) evalB(x *Ex, e *Env) *T {
	r := v.eval(x, e)
	if r.t.Sort != "Bool" {
		serr(x, "boolean expected, got %s", r.t.Sort)
	}
	return r.t
}

func findField(ty types.Type, name string) ([]int, types.Type) {
	st, ok := ty.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}, st.Field(i).Type()
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if p, t := findField(st.Field(i).Type(), name); p != nil {
				return append([]int{i}, p...), t
			}
		}
	}
	return nil, nil
}

func (v *Ver) field(x *Ex, a SV, name string) SV {
	ty := types.Unalias(a.ty)
	if p, ok := ty.(*types.Pointer); ok {
		if ti, ok := treeInfo[a.t.Sort]; ok {
			for i := 0; i < ti.St.NumFields(); i++ {
				if ti.St.Field(i).Name() == name {
					return SV{selApp(ti.Node, i, a.t), ti.St.Field(i).Type()}
				}
			}
			serr(x, "no field %s in %s", name, shortType(ty))
		}
		// pointer parameters denote their referent
		ty = p.Elem()
	}
	path, fty := findField(ty, name)
	if path == nil {
		serr(x, "no field %s in %s", name, shortType(ty))
	}
	cur, cty := a.t, ty
	for _, i := range path {
		si := structInfo[cur.Sort]
		if si == nil {
			serr(x, "field %s of non-struct sort %s", name, cur.Sort)
		}
		cty = si.St.Field(i).Type()
		cur = selApp(si.C, i, cur)
	}
	_ = fty
	return SV{cur, cty}
}

func (v *Ver) eval(x *Ex, e *Env) SV {
	switch x.Op {
	case "num":
		return SV{mk(x.Name, "Int"), tyInt}
	case "str":
		return SV{W.strLit(x.Name), tyStr}
	case "var":
		switch x.Name {
		case "true":
			return SV{tTrue, tyBool}
		case "false":
			return SV{tFalse, tyBool}
		case "nil":
			return SV{nil, nil}
		}
		if s, ok := e.lookup(x.Name); ok {
			return s
		}
		if f := v.spec.Fns[x.Name]; f != nil && len(f.Params) == 0 {
			return v.callFn(x, f, nil, e)
		}
		serr(x, "unbound identifier %s", x.Name)
	case "field":
		if b := x.Args[0]; b.Op == "var" {
			if _, ok := e.lookup(b.Name); !ok {
				if p := v.pkgs[b.Name]; p != nil {
					if s, ok := v.globalSV(b.Name, x.Name, e); ok {
						return s
					}
					serr(x, "unknown global %s.%s", b.Name, x.Name)
				}
			}
		}
		return v.field(x, v.eval(x.Args[0], e), x.Name)
	case "index":
		a := v.eval(x.Args[0], e)
		i := v.eval(x.Args[1], e)
		if m, ok := mapSorts[a.t.Sort]; ok {
			mt := a.ty.Underlying().(*types.Map)
			_ = m
			k := v.coerce(x, i, mt.Key())
			return SV{W.app("get_"+a.t.Sort, a.t, k.t), mt.Elem()}
		}
		a = v.asSeq(x, a)
		return SV{seqAt(a.t, i.t), elemType(a.ty)}
	case "slice":
		a := v.asSeq(x, v.eval(x.Args[0], e))
		lo := v.eval(x.Args[1], e)
		hi := SV{seqLen(a.t), tyInt}
		if len(x.Args) > 2 {
			hi = v.eval(x.Args[2], e)
		}
		return SV{seqSub(a.t, lo.t, hi.t), a.ty}
	case "un":
		a := v.eval(x.Args[0], e)
		if x.Name == "!" {
			return SV{not(a.t), tyBool}
		}
		if n, ok := isInt(a.t); ok {
			return SV{intT(-n), tyInt}
		}
		return SV{mk("-", a.t.Sort, a.t), a.ty}
	case "bin":
		return v.evalBin(x, e)
	case "if":
		c := v.evalB(x.Args[0], e)
		a, b := v.eval(x.Args[1], e), v.eval(x.Args[2], e)
		if a.t.Sort != b.t.Sort {
			if a.t.Sort == "Iface" {
				b = v.coerce(x, b, a.ty)
			} else {
				a = v.coerce(x, a, b.ty)
			}
		}
		return SV{ite(c, a.t, b.t), a.ty}
	case "let":
		s := v.eval(x.Args[0], e)
		c := e.child()
		c.vars[x.Name] = s
		if e.old != nil {
			o := e.old.child()
			o.vars[x.Name] = s
			c.old = o
		}
		return v.eval(x.Args[1], c)
	case "quant":
		c := e.child()
		var bs []BV
		if e.old != nil {
			c.old = e.old.child()
		}
		for _, b := range x.Bs {
			ty := v.resolveType(b.Ty, e.types)
			bv, t := W.freshBV(b.Name, sortOf(ty))
			bs = append(bs, bv)
			c.vars[b.Name] = SV{t, ty}
			if c.old != nil {
				c.old.vars[b.Name] = SV{t, ty}
			}
		}
		body := v.evalB(x.Args[0], c)
		var pats [][]*T
		for _, ts := range x.Trigs {
			var p []*T
			for _, t := range ts {
				p = append(p, v.eval(t, c).t)
			}
			pats = append(pats, p)
		}
		return SV{quant(x.Name, bs, body, pats), tyBool}
	case "tyop":
		ty := v.resolveType(x.Ty, e.types)
		switch x.Name {
		case "is":
			a := v.eval(x.Args[0], e)
			return SV{testApp(boxCtor(ty), v.coerce(x, a, tyAny).t), tyBool}
		case "as":
			a := v.eval(x.Args[0], e)
			c := boxCtor(ty)
			return SV{selApp(c, 0, v.coerce(x, a, tyAny).t), ty}
		case "box":
			return SV{boxT(ty, v.coerce(x, v.eval(x.Args[0], e), ty).t), tyAny}
		case "zero":
			return SV{zeroTerm(ty), ty}
		case "empty":
			return SV{seqEmp(sortOf(types.NewSlice(ty))), types.NewSlice(ty)}
		case "seqof":
			s := seqEmp(sortOf(types.NewSlice(ty)))
			for _, a := range x.Args {
				s = seqApp(s, v.coerce(x, v.eval(a, e), ty).t)
			}
			return SV{s, types.NewSlice(ty)}
		case "mk":
			so := sortOf(ty)
			si := structInfo[so]
			if si == nil {
				serr(x, "mk of non-struct %s", shortType(ty))
			}
			if len(x.Args) != len(si.C.Fields) {
				serr(x, "mk[%s]: %d fields expected", shortType(ty), len(si.C.Fields))
			}
			var as []*T
			for i, a := range x.Args {
				as = append(as, v.coerce(x, v.eval(a, e), si.St.Field(i).Type()).t)
			}
			return SV{ctorApp(si.Data, si.C, as...), ty}
		}
	case "apply":
		f := v.eval(x.Args[0], e)
		var args []SV
		for _, a := range x.Args[1:] {
			args = append(args, v.eval(a, e))
		}
		return v.applyFn(x, f, args)
	case "call":
		return v.evalCall(x, e)
	}
	serr(x, "cannot evaluate %s %s", x.Op, x.Name)
	return SV{}
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	panic(SpecErr{"not a slice: " + shortType(t)})
}

func (v *Ver) asSeq(x *Ex, a SV) SV {
	if _, ok := seqElems[a.t.Sort]; ok {
		return a
	}
	if si, ok := structInfo[a.t.Sort]; ok && len(si.C.Fields) == 1 {
		f := SV{selApp(si.C, 0, a.t), si.St.Field(0).Type()}
		return v.asSeq(x, f)
	}
	serr(x, "sequence expected, got %s", a.t.Sort)
	return a
}

func (v *Ver) applyFn(x *Ex, f SV, args []SV) SV {
	sig, ok := f.ty.Underlying().(*types.Signature)
	if !ok {
		serr(x, "not a function: %s", f.t.K)
	}
	var ts []*T
	for i, a := range args {
		ts = append(ts, v.coerce(x, a, sig.Params().At(i).Type()).t)
	}
	return SV{appTerm(f.t, sig, ts, 0), sig.Results().At(0).Type()}
}

// appTerm applies a (pure) function value.
func appTerm(f *T, sig *types.Signature, args []*T, res int) *T {
	name := "apply"
	sorts := []string{"Fn"}
	for _, a := range args {
		name += "_" + sanitize(a.Sort)
		sorts = append(sorts, a.Sort)
	}
	rs := sortOf(sig.Results().At(res).Type())
	name += "__" + sanitize(rs)
	if res > 0 {
		name += fmt.Sprintf("_%d", res)
	}
	W.sort("Fn")
	W.fun(name, sorts, rs)
	return W.app(name, append([]*T{f}, args...)...)
}

func (v *Ver) evalBin(x *Ex, e *Env) SV {
	switch x.Name {
	case "==>":
		a := v.evalB(x.Args[0], e)
		if a.Op == "false" {
			return SV{tTrue, tyBool}
		}
		return SV{implies(a, v.evalB(x.Args[1], e)), tyBool}
	case "<==>":
		return SV{iff(v.evalB(x.Args[0], e), v.evalB(x.Args[1], e)), tyBool}
	case "&&":
		a := v.evalB(x.Args[0], e)
		if a.Op == "false" {
			return SV{tFalse, tyBool}
		}
		return SV{and(a, v.evalB(x.Args[1], e)), tyBool}
	case "||":
		return SV{or(v.evalB(x.Args[0], e), v.evalB(x.Args[1], e)), tyBool}
	}
	a, b := v.eval(x.Args[0], e), v.eval(x.Args[1], e)
	if a.t == nil && b.t == nil {
		serr(x, "nil compared with nil")
	}
	if a.t == nil {
		a, b = b, a
	}
	if b.t == nil {
		b = SV{zeroTerm(a.ty), a.ty}
	}
	if a.t.Sort != b.t.Sort {
		switch {
		case a.t.Sort == "Iface":
			b = v.coerce(x, b, tyAny)
		case b.t.Sort == "Iface":
			a = v.coerce(x, a, tyAny)
		case a.t.Sort == "Real":
			b = v.coerce(x, b, tyReal)
		case b.t.Sort == "Real":
			a = v.coerce(x, a, tyReal)
		case seqElems[a.t.Sort] != "":
			b = v.asSeq(x, b)
		case seqElems[b.t.Sort] != "":
			a = v.asSeq(x, a)
		}
	}
	if a.t.Sort != b.t.Sort {
		serr(x, "sort mismatch in %s: %s vs %s", x.Name, a.t.Sort, b.t.Sort)
	}
	switch x.Name {
	case "==":
		return SV{deepEq(a.t, b.t), tyBool}
	case "!=":
		return SV{not(deepEq(a.t, b.t)), tyBool}
	case "<", "<=", ">", ">=":
		return SV{cmp(x.Name, a.t, b.t), tyBool}
	case "+":
		if seqElems[a.t.Sort] != "" {
			return SV{seqCat(a.t, b.t), a.ty}
		}
		if a.t.Sort == "Str" {
			return SV{strCat(a.t, b.t), tyStr}
		}
		return SV{add(a.t, b.t), a.ty}
	case "-":
		return SV{sub(a.t, b.t), a.ty}
	case "*":
		return SV{mk("*", a.t.Sort, a.t, b.t), a.ty}
	}
	serr(x, "operator %s", x.Name)
	return SV{}
}

func strCat(a, b *T) *T {
	W.fun("str_cat", []string{"Str", "Str"}, "Str")
	if a.K == W.strLit("").K {
		return b
	}
	if b.K == W.strLit("").K {
		return a
	}
	return W.app("str_cat", a, b)
}

func (v *Ver) evalCall(x *Ex, e *Env) SV {
	switch x.Name {
	case "old":
		if e.old == nil {
			return v.eval(x.Args[0], e)
		}
		return v.eval(x.Args[0], e.old)
	case "len":
		a := v.eval(x.Args[0], e)
		if mapSorts[a.t.Sort][0] != "" {
			return SV{W.app("mlen_"+a.t.Sort, a.t), tyInt}
		}
		if a.t.Sort == "Str" {
			W.fun("str_len", []string{"Str"}, "Int")
			return SV{W.app("str_len", a.t), tyInt}
		}
		return SV{seqLen(v.asSeq(x, a).t), tyInt}
	case "has": // has(m, k)
		a := v.eval(x.Args[0], e)
		mt := a.ty.Underlying().(*types.Map)
		k := v.coerce(x, v.eval(x.Args[1], e), mt.Key())
		return SV{W.app("dom_"+a.t.Sort, a.t, k.t), tyBool}
	case "put":
		a := v.eval(x.Args[0], e)
		mt := a.ty.Underlying().(*types.Map)
		k := v.coerce(x, v.eval(x.Args[1], e), mt.Key())
		w := v.coerce(x, v.eval(x.Args[2], e), mt.Elem())
		return SV{W.app("put_"+a.t.Sort, a.t, k.t, w.t), a.ty}
	case "in":
		s := v.asSeq(x, v.eval(x.Args[1], e))
		el := v.coerce(x, v.eval(x.Args[0], e), elemType(s.ty))
		bv, i := W.freshBV("ix", "Int")
		return SV{exists([]BV{bv}, and(cmp("<=", intT(0), i), cmp("<", i, seqLen(s.t)), eq(seqAt(s.t, i), el.t)), []*T{seqAt(s.t, i)}), tyBool}
	case "app": // app(s, x)
		s := v.asSeq(x, v.eval(x.Args[0], e))
		return SV{seqApp(s.t, v.coerce(x, v.eval(x.Args[1], e), elemType(s.ty)).t), s.ty}
	case "upd":
		s := v.asSeq(x, v.eval(x.Args[0], e))
		return SV{seqUpd(s.t, v.eval(x.Args[1], e).t, v.coerce(x, v.eval(x.Args[2], e), elemType(s.ty)).t), s.ty}
	case "real":
		return v.coerce(x, v.eval(x.Args[0], e), tyReal)
	case "max", "min":
		a, b := v.eval(x.Args[0], e), v.eval(x.Args[1], e)
		op := ">="
		if x.Name == "min" {
			op = "<="
		}
		return SV{ite(cmp(op, a.t, b.t), a.t, b.t), tyInt}
	case "strlt":
		a, b := v.eval(x.Args[0], e), v.eval(x.Args[1], e)
		return SV{strLt(a.t, b.t), tyBool}
	case "strkey":
		a := v.eval(x.Args[0], e)
		return SV{strKey(a.t), tyReal}
	case "sprintf":
		var args []*T
		f := v.eval(x.Args[0], e)
		for _, a := range x.Args[1:] {
			args = append(args, v.coerce(x, v.eval(a, e), tyAny).t)
		}
		return SV{sprintfTerm(f.t, args), tyStr}
	}
	if isTC(x.Name) {
		var args []SV
		for _, a := range x.Args {
			args = append(args, v.eval(a, e))
		}
		return v.tclass(x, x.Name, args)
	}
	if s, ok := e.lookup(x.Name); ok {
		if _, ok := s.ty.Underlying().(*types.Signature); ok {
			var args []SV
			for _, a := range x.Args {
				args = append(args, v.eval(a, e))
			}
			return v.applyFn(x, s, args)
		}
	}
	f := v.spec.Fns[x.Name]
	if f == nil {
		serr(x, "unknown function %s", x.Name)
	}
	var args []SV
	for _, a := range x.Args {
		args = append(args, v.eval(a, e))
	}
	return v.callFn(x, f, args, e)
}

func strKey(a *T) *T {
	W.fun("str_key", []string{"Str"}, "Real")
	W.axiom("str_key.inj", forall([]BV{{"a", "Str"}, {"b", "Str"}}, implies(mk("=", "Bool", mk("str_key", "Real", mk("a", "Str")), mk("str_key", "Real", mk("b", "Str"))), mk("=", "Bool", mk("a", "Str"), mk("b", "Str"))), []*T{mk("str_key", "Real", mk("a", "Str")), mk("str_key", "Real", mk("b", "Str"))}), "str_key")
	return W.app("str_key", a)
}
func strLt(a, b *T) *T { return cmp("<", strKey(a), strKey(b)) }

func sprintfTerm(f *T, args []*T) *T {
	W.sort("Str")
	s := seqEmp(seqSortE("Iface"))
	for _, a := range args {
		s = seqApp(s, a)
	}
	W.fun("sprintf", []string{"Str", s.Sort}, "Str")
	return W.app("sprintf", f, s)
}

// type-class style overloaded functions
func isTC(n string) bool { return n == "key" || n == "eqv" || n == "cpy" || n == "strof" }

func (v *Ver) tclass(x *Ex, fn string, args []SV) SV {
	ty := types.Unalias(args[0].ty)
	if in := v.instFor(fn, ty); in != nil {
		env := &Env{vars: map[string]SV{}, types: in.binds}
		for i, p := range in.def.Params {
			env.vars[p] = v.coerce(x, args[i], ty)
		}
		r := v.eval(in.def.Body, env)
		if fn == "key" {
			r = v.coerce(x, r, tyReal)
		}
		return r
	}
	s := sortOf(ty)
	switch fn {
	case "key":
		n := W.fun("key_"+sanitize(s), []string{s}, "Real")
		return SV{W.app(n, args[0].t), tyReal}
	case "eqv":
		a, b := args[0], v.coerce(x, args[1], ty)
		if tp, ok := ty.(*types.TypeParam); ok {
			n := W.fun("eqv_"+sanitize(s), []string{s, s}, "Bool")
			if v.hasMethod(tp, "Less") {
				// the contract of Lib.Ordered: Equals agrees with Less
				kn := W.fun("key_"+sanitize(s), []string{s}, "Real")
				nm := "ordered." + s
				if !W.axName[nm] {
					W.axName[nm] = true
					A, B := mk("a", s), mk("b", s)
					W.Axioms = append(W.Axioms, &Axiom{Name: nm, T: forall([]BV{{"a", s}, {"b", s}}, iff(mk(n, "Bool", A, B), eq(mk(kn, "Real", A), mk(kn, "Real", B))), []*T{mk(n, "Bool", A, B)}), Keys: []string{n, kn}, All: true})
				}
			}
			return SV{W.app(n, a.t, b.t), tyBool}
		}
		return SV{deepEq(a.t, b.t), tyBool}
	case "cpy":
		if tp, ok := ty.(*types.TypeParam); ok {
			_ = tp
			n := W.fun("cpy_"+sanitize(s), []string{s}, s)
			return SV{W.app(n, args[0].t), ty}
		}
		return args[0]
	case "strof":
		n := W.fun("strof_"+sanitize(s), []string{s}, "Str")
		return SV{W.app(n, args[0].t), tyStr}
	}
	panic("tclass")
}

type instHit struct {
	def   *InstDef
	binds map[string]types.Type
}

func (v *Ver) instFor(fn string, ty types.Type) *instHit {
	for _, in := range v.spec.Insts {
		if in.Fn != fn {
			continue
		}
		t := v.resolveType(in.Ty, nil)
		if types.Identical(t, ty) {
			return &instHit{in, nil}
		}
	}
	return nil
}

func (v *Ver) hasMethod(tp *types.TypeParam, name string) bool {
	ms := types.NewMethodSet(tp)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// callFn applies a specification function.
func (v *Ver) callFn(x *Ex, f *FnDef, args []SV, e *Env) SV {
	if len(args) != len(f.Params) {
		serr(x, "%s expects %d arguments, got %d", f.Name, len(f.Params), len(args))
	}
	tps := map[string]bool{}
	for _, t := range f.TParams {
		tps[t] = true
	}
	b := map[string]types.Type{}
	for i, p := range f.Params {
		if args[i].t != nil {
			v.unify(p.Ty, args[i].ty, tps, b)
		}
	}
	for _, t := range f.TParams {
		if b[t] == nil {
			serr(x, "cannot infer type parameter %s of %s", t, f.Name)
		}
	}
	var cargs []SV
	for i, p := range f.Params {
		pt := v.resolveType(p.Ty, b)
		if args[i].t == nil {
			cargs = append(cargs, SV{zeroTerm(pt), pt})
		} else {
			cargs = append(cargs, v.coerce(x, args[i], pt))
		}
	}
	if f.Macro {
		env := &Env{vars: map[string]SV{}, types: b}
		if e != nil { // the program's variables are those of the place the definition is used at
			env.dyn = func(n string) (SV, bool) {
				if strings.HasPrefix(n, "$") {
					return e.lookup(n)
				}
				return SV{}, false
			}
		}
		for i, p := range f.Params {
			env.vars[p.Name] = cargs[i]
		}
		r := v.eval(f.Body, env)
		return v.coerce(x, r, v.resolveType(f.Ret, b))
	}
	in := v.instFn(f, b)
	var ts []*T
	for _, a := range cargs {
		ts = append(ts, a.t)
	}
	return SV{W.app(in.Name, ts...), in.Ret}
}

type FnInst struct {
	Name string
	Ret  types.Type
}

var fnInsts = map[string]*FnInst{}
var fnBinds = map[string][]map[string]types.Type{}

func (v *Ver) instFn(f *FnDef, b map[string]types.Type) *FnInst {
	key := f.Name
	for _, t := range f.TParams {
		key += "$" + sortOf(b[t])
		for _, in := range v.spec.Insts {
			if types.Identical(v.resolveType(in.Ty, nil), types.Unalias(b[t])) {
				key += "!" + typeName(b[t])
				break
			}
		}
	}
	if in, ok := fnInsts[key]; ok {
		return in
	}
	in := &FnInst{Name: sanitizeLong("f." + key), Ret: v.resolveType(f.Ret, b)}
	fnInsts[key] = in
	fnBinds[f.Name] = append(fnBinds[f.Name], b)
	var sorts []string
	var ptys []types.Type
	for _, p := range f.Params {
		t := v.resolveType(p.Ty, b)
		ptys = append(ptys, t)
		sorts = append(sorts, sortOf(t))
	}
	W.fun(in.Name, sorts, sortOf(in.Ret))
	mkEnv := func() (*Env, []BV, []*T) {
		env := &Env{vars: map[string]SV{}, types: b}
		var bs []BV
		var ts []*T
		for i, p := range f.Params {
			bv, t := W.freshBV(p.Name, sorts[i])
			bs = append(bs, bv)
			ts = append(ts, t)
			env.vars[p.Name] = SV{t, ptys[i]}
		}
		return env, bs, ts
	}
	eqR := func(l, r *T) *T {
		if l.Sort == "Bool" {
			return iff(l, r)
		}
		return eq(l, r)
	}
	if f.Body != nil {
		env, bs, ts := mkEnv()
		lhs := W.app(in.Name, ts...)
		rhs := v.coerce(f.Body, v.eval(f.Body, env), in.Ret)
		W.axiom(in.Name+".def", forall(bs, eqR(lhs, rhs.t), []*T{lhs}), in.Name)
	}
	if len(f.Cases) > 0 {
		var testers []func(*T) *T
		for ci, c := range f.Cases {
			env, bs, ts := mkEnv()
			var scr *T
			var nb []BV
			switch c.Kind {
			case "type":
				ct := v.resolveType(c.Ty, b)
				bc := boxCtor(ct)
				bv, t := W.freshBV(c.Vars[0], sortOf(ct))
				nb = append(nb, bv)
				env.vars[c.Vars[0]] = SV{t, ct}
				scr = ctorApp(ifaceData, bc, t)
				testers = append(testers, func(t *T) *T { return testApp(bc, t) })
			case "nil":
				if ti, ok := treeInfo[sorts[0]]; ok {
					scr = mk(ti.Nil.Name, sorts[0])
				} else {
					scr = nilIface()
				}
				s := scr
				testers = append(testers, func(t *T) *T { return eq(t, s) })
			case "node":
				ti := treeInfo[sorts[0]]
				if ti == nil {
					serr(c.Body, "node case on non-tree")
				}
				var as []*T
				for _, fl := range ti.Node.Fields {
					bv, t := W.freshBV("n", fl.Sort)
					nb = append(nb, bv)
					as = append(as, t)
				}
				scr = mk(ti.Node.Name, sorts[0], as...)
				env.vars[c.Vars[0]] = SV{scr, ptys[0]}
			case "empty":
				scr = seqEmp(sorts[0])
			case "snoc":
				b1, t1 := W.freshBV(c.Vars[0], sorts[0])
				b2, t2 := W.freshBV(c.Vars[1], seqElems[sorts[0]])
				nb = append(nb, b1, b2)
				scr = seqApp(t1, t2)
				env.vars[c.Vars[0]] = SV{t1, ptys[0]}
				env.vars[c.Vars[1]] = SV{t2, elemType(ptys[0])}
			case "else":
				lhs := W.app(in.Name, ts...)
				var ns []*T
				for _, te := range testers {
					ns = append(ns, not(te(ts[0])))
				}
				rhs := v.coerce(c.Body, v.eval(c.Body, env), in.Ret)
				W.axiom(fmt.Sprintf("%s.case%d", in.Name, ci), forall(bs, implies(and(ns...), eqR(lhs, rhs.t)), []*T{lhs}), in.Name)
				continue
			}
			env.vars[f.Params[0].Name] = SV{scr, ptys[0]}
			args := append([]*T{scr}, ts[1:]...)
			lhs := W.app(in.Name, args...)
			rhs := v.coerce(c.Body, v.eval(c.Body, env), in.Ret)
			W.axiom(fmt.Sprintf("%s.case%d", in.Name, ci), forall(append(nb, bs[1:]...), eqR(lhs, rhs.t), []*T{lhs}), in.Name)
		}
	}
	return in
}
