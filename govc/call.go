package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type retK func(*State, Val)

func (e *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, instr *ssa.Call, pos token.Pos, k retK) {
	var resT types.Type
	if instr != nil {
		resT = fr.ty(instr.Type())
	}
	if c.IsInvoke() {
		e.invoke(fr, st, c, instr, pos, resT, k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k(st, e.builtin(fr, st, b, c, pos, resT))
		return
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.get(fr, st, a))
	}
	var atys []types.Type
	for _, a := range c.Args {
		atys = append(atys, fr.ty(a.Type()))
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		sub := TSub{}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			fv := e.get(fr, st, mc).(*FuncV)
			binds = fv.binds
			sub = fv.sub
			e.inline(fr, st, fn, sub, args, binds, fr.chain, instr, pos, k)
			return
		}
		if fn.Parent() != nil {
			sub = fr.sub
		}
		e.callStatic(fr, st, fn, sub, args, atys, instr, pos, resT, k)
		return
	}
	if u, ok := c.Value.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok && e.v.isIgnored(globalName(g)) {
			e.note("calls to %s are ignored (printing, debugging)", globalName(g))
			k(st, e.unknownResult(st, resT))
			return
		}
	}
	switch f := e.get(fr, st, c.Value).(type) {
	case *FuncV:
		if f.fn.Parent() == nil && len(f.binds) == 0 {
			e.callStatic(fr, st, f.fn, f.sub, args, atys, instr, pos, resT, k)
			return
		}
		e.inline(fr, st, f.fn, f.sub, args, f.binds, f.chain, instr, pos, k)
	case *T:
		sig := fr.ty(c.Value.Type()).Underlying().(*types.Signature)
		var ts []*T
		for i, a := range args {
			ts = append(ts, e.freeze(st, a, atys[i]))
		}
		e.note("function values received as arguments or read from variables behave as deterministic functions without side effects")
		n := sig.Results().Len()
		if n == 0 {
			k(st, TupleV{})
			return
		}
		var out TupleV
		for i := 0; i < n; i++ {
			t := appTerm(f, sig, ts, i)
			e.typeInv(st, t, sig.Results().At(i).Type())
			out = append(out, t)
		}
		if n == 1 {
			k(st, out[0])
			return
		}
		k(st, out)
	default:
		e.unsupported(st, pos, "call of %T", f)
	}
}

func originOf(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

// subFor maps the type parameters of a callee to actual types.
func subFor(fn *ssa.Function, outer TSub) TSub {
	o := originOf(fn)
	tps := o.TypeParams()
	if tps == nil || tps.Len() == 0 {
		return TSub{}
	}
	s := TSub{}
	targs := fn.TypeArgs()
	for i := 0; i < tps.Len(); i++ {
		if i < len(targs) {
			s[tps.At(i)] = substType(targs[i], outer)
		} else {
			s[tps.At(i)] = substType(tps.At(i), outer)
		}
	}
	return s
}

func (e *Exec) callStatic(fr *Frame, st *State, fn *ssa.Function, csub TSub, args []Val, atys []types.Type, instr *ssa.Call, pos token.Pos, resT types.Type, k retK) {
	o := originOf(fn)
	name := e.v.fnName(o)
	if e.v.isIgnored(name) {
		e.note("calls to %s are ignored (printing, debugging)", name)
		k(st, e.unknownResult(st, resT))
		return
	}
	sub := subFor(fn, fr.sub)
	if fn.Parent() != nil {
		sub = csub
	}
	spec := e.v.spec.Funcs[name]
	if spec != nil && !spec.Inline {
		e.applyContract(fr, st, spec, o, sub, args, atys, pos, resT, k)
		return
	}
	if m := e.v.model(name); m != nil {
		if r, ok := m(e, fr, st, args, atys, resT); ok {
			k(st, r)
			return
		}
	}
	// a method that implements an interface under contract
	if spec == nil && o.Signature.Recv() != nil {
		if is := e.v.ifaceSpecFor(o); is != nil && !is.Inline {
			rt := atys[0]
			self := boxT(rt, e.peek(st, args[0], rt))
			e.applyIface(fr, st, is, self, args[1:], atys[1:], o.Signature, sub, pos, resT, k)
			return
		}
	}
	if o.Blocks == nil || e.v.external(o) {
		e.unsupported(st, pos, "call of %s, which has no contract", name)
	}
	e.inline(fr, st, fn, sub, args, nil, fr.chain, instr, pos, k)
}

func (e *Exec) unknownResult(st *State, t types.Type) Val {
	if t == nil {
		return TupleV{}
	}
	if tt, ok := t.(*types.Tuple); ok {
		var out TupleV
		for i := 0; i < tt.Len(); i++ {
			r := W.freshConst("unk", sortOf(tt.At(i).Type()))
			e.typeInv(st, r, tt.At(i).Type())
			out = append(out, r)
		}
		return out
	}
	r := W.freshConst("unk", sortOf(t))
	e.typeInv(st, r, t)
	return r
}

const maxDepth = 14

func (e *Exec) inline(fr *Frame, st *State, fn *ssa.Function, sub TSub, args []Val, binds []Val, chain string, instr *ssa.Call, pos token.Pos, k retK) {
	o := originOf(fn)
	if fr.depth > maxDepth {
		e.unsupported(st, pos, "inlining too deep at %s", o.String())
	}
	for f := fr; f != nil; f = f.up {
		if f.fn == o {
			e.unsupported(st, pos, "recursive call of %s, which has no contract", e.v.fnName(o))
		}
	}
	if o.Blocks == nil {
		e.unsupported(st, pos, "no body for %s", o.String())
	}
	if sub == nil {
		sub = TSub{}
	}
	if o.Parent() == nil {
		e.inlined[e.v.fnName(o)] = true
	}
	nf := &Frame{fn: o, sub: sub, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*LoopCtx{}, up: fr, depth: fr.depth + 1, binds: binds}
	if instr != nil {
		nf.chain = callChain(chain, instr)
	} else {
		nf.chain = chain + "/d"
	}
	// stop conditions of an enclosing dry run keep applying to the caller only
	for i, p := range o.Params {
		nf.regs[p] = args[i]
	}
	nf.ret = func(s *State, vs []Val) {
		switch len(vs) {
		case 0:
			k(s, TupleV{})
		case 1:
			k(s, vs[0])
		default:
			k(s, TupleV(vs))
		}
	}
	e.run(nf, st, o.Blocks[0], 0)
}

// ---------------------------------------------------------------- invoke

func (e *Exec) invoke(fr *Frame, st *State, c *ssa.CallCommon, instr *ssa.Call, pos token.Pos, resT types.Type, k retK) {
	recv := e.get(fr, st, c.Value)
	rt := types.Unalias(fr.ty(c.Value.Type()))
	var args []Val
	var atys []types.Type
	for _, a := range c.Args {
		args = append(args, e.get(fr, st, a))
		atys = append(atys, fr.ty(a.Type()))
	}
	m := c.Method.Name()
	if _, ok := rt.(*types.TypeParam); ok {
		self := e.peek(st, recv, rt)
		switch m {
		case "Equals":
			o := e.peek(st, args[0], atys[0])
			if o.Sort == "Iface" && self.Sort != "Iface" {
				// Comparable.Equals takes any: the argument was boxed
				if o.Op == boxCtor(rt).Name {
					o = o.Args[0]
				} else {
					o = selApp(boxCtor(rt), 0, o)
				}
			}
			k(st, e.v.tclass(nil, "eqv", []SV{{self, rt}, {o, rt}}).t)
			return
		case "Less":
			o := e.peek(st, args[0], atys[0])
			if o.Sort == "Iface" && self.Sort != "Iface" {
				if o.Op == boxCtor(rt).Name {
					o = o.Args[0]
				} else {
					o = selApp(boxCtor(rt), 0, o)
				}
			}
			k(st, cmp("<", e.v.tclass(nil, "key", []SV{{self, rt}}).t, e.v.tclass(nil, "key", []SV{{o, rt}}).t))
			return
		case "Copy":
			r := e.v.tclass(nil, "cpy", []SV{{self, rt}})
			if resT != nil && sortOf(resT) != r.t.Sort {
				k(st, W.freshConst("cpy", sortOf(resT)))
				return
			}
			k(st, r.t)
			return
		case "ToString":
			k(st, e.v.tclass(nil, "strof", []SV{{self, rt}}).t)
			return
		}
		e.unsupported(st, pos, "method %s of a type parameter", m)
	}
	if _, ok := rt.Underlying().(*types.Interface); !ok {
		// a type parameter instantiated with a concrete type
		e.callConcrete(fr, st, rt, m, c.Method.Pkg(), recv, args, atys, instr, pos, resT, k)
		return
	}
	self := e.peek(st, recv, rt)
	if cn := st.ctor(self); cn != "" && cn != "other_iface" && cn != "nil_iface" {
		bt := boxType[cn]
		if !types.IsInterface(bt) {
			if _, isTP := bt.(*types.TypeParam); !isTP {
				var pl *T
				if self.Op == cn {
					pl = self.Args[0]
				} else {
					pl = selApp(W_ctor(cn), 0, self)
				}
				e.typeInv(st, pl, bt)
				if fn := e.v.methodOf(bt, c.Method.Pkg(), m); fn != nil {
					e.callConcrete(fr, st, bt, m, c.Method.Pkg(), pl, args, atys, instr, pos, resT, k)
					return
				}
			}
		}
	}
	if cn := st.ctor(self); cn == "nil_iface" {
		e.safety(st, "method call on a nil interface", tFalse, pos)
		return
	}
	is := e.v.ifaceMethodSpec(rt, m)
	if e.v.isIgnored(e.v.ifaceMethName(rt, m)) {
		k(st, e.unknownResult(st, resT))
		return
	}
	if is != nil && !is.Inline {
		e.safety(st, "method call on a nil interface", not(eq(self, nilIface())), pos)
		st.assume(not(eq(self, nilIface())))
		e.applyIface(fr, st, is, self, args, atys, c.Method.Type().(*types.Signature), fr.sub, pos, resT, k)
		return
	}
	// closed-world split
	cands := e.v.closedTypes(rt)
	if cands == nil {
		e.unsupported(st, pos, "dynamic call of %s.%s without an interface contract", shortType(rt), m)
	}
	e.safety(st, "method call on a nil interface", not(eq(self, nilIface())), pos)
	e.note("only the known implementations of %s exist", shortType(rt))
	for _, ct := range cands {
		ct := ct
		bc := boxCtor(ct)
		t := testApp(bc, self)
		if st.decide(t) == 0 {
			continue
		}
		s2 := st.clone()
		s2.assume(t)
		f2 := fr.clone()
		e.guard(func() {
			pl := selApp(bc, 0, self)
			e.typeInv(s2, pl, ct)
			e.callConcrete(f2, s2, ct, m, c.Method.Pkg(), pl, args, atys, instr, pos, resT, k)
		})
	}
}

func W_ctor(n string) *Ctor {
	for _, c := range W.Ctors[n].Ctors {
		if c.Name == n {
			return c
		}
	}
	return nil
}

func (e *Exec) callConcrete(fr *Frame, st *State, rt types.Type, m string, pkg *types.Package, recv Val, args []Val, atys []types.Type, instr *ssa.Call, pos token.Pos, resT types.Type, k retK) {
	fn := e.v.methodOf(rt, pkg, m)
	if fn == nil {
		e.unsupported(st, pos, "no method %s on %s", m, shortType(rt))
	}
	as := append([]Val{recv}, args...)
	ts := append([]types.Type{rt}, atys...)
	e.callStatic(fr, st, fn, fr.sub, as, ts, instr, pos, resT, k)
}

// ---------------------------------------------------------------- contracts at calls

func (e *Exec) specEnv(st *State) *Env {
	env := &Env{vars: map[string]SV{}, types: e.tsub}
	for _, n := range sortedKeys(e.params) {
		v := e.params[n]
		env.vars[n] = e.paramSV(st, n, v)
	}
	env.vars["_held"] = SV{tTrue, tyBool}
	e.globalsInto(env, st)
	if e.oldEnv != nil {
		env.old = e.oldEnv
	}
	return env
}

func (e *Exec) globalsInto(env *Env, st *State) {
	env.dyn = func(n string) (SV, bool) {
		if !strings.HasPrefix(n, "$") {
			return SV{}, false
		}
		g := e.v.globByName(n[1:])
		if g == nil {
			return SV{}, false
		}
		e.muted++
		v := e.global(st, g, token.NoPos)
		e.muted--
		return SV{e.peek(st, v, deref(g.Type())), deref(g.Type())}, true
	}
}

// paramSV: value parameters denote their entry value; pointers denote their referent now.
func (e *Exec) paramSV(st *State, n string, v Val) SV {
	ty := e.ptys[n]
	switch x := v.(type) {
	case PtrV:
		if el := deref(ty); el != nil {
			return SV{e.peek(st, e.loadCell(st, x), el), el}
		}
	case MapV:
		return SV{st.cells[x.cell].(*T), ty}
	}
	return SV{e.peek(e.entry, v, ty), ty}
}

func (e *Exec) applyContract(fr *Frame, st *State, spec *FuncSpec, fn *ssa.Function, sub TSub, args []Val, atys []types.Type, pos token.Pos, resT types.Type, k retK) {
	if len(spec.Params) != len(args) {
		panic(SpecErr{fmt.Sprintf("%s:%d: %s has %d parameters, contract names %d", spec.File, spec.Line, spec.Name, len(args), len(spec.Params))})
	}
	tenv := map[string]types.Type{}
	if tps := fn.TypeParams(); tps != nil {
		for i := 0; i < tps.Len() && i < len(spec.TParams); i++ {
			tenv[spec.TParams[i]] = sub[tps.At(i)]
		}
	}
	ptys := make([]types.Type, len(args))
	for i := range args {
		if i < len(fn.Params) {
			ptys[i] = substType(fn.Params[i].Type(), sub)
		} else {
			ptys[i] = atys[i]
		}
	}
	e.apply(fr, st, spec, spec.Params, args, ptys, tenv, pos, resT, k)
}

func (e *Exec) applyIface(fr *Frame, st *State, spec *FuncSpec, self *T, args []Val, atys []types.Type, sig *types.Signature, sub TSub, pos token.Pos, resT types.Type, k retK) {
	as := append([]Val{self}, args...)
	ts := []types.Type{tyAny}
	for i := range args {
		ts = append(ts, substType(sig.Params().At(i).Type(), sub))
	}
	if len(spec.Params) != len(as) {
		panic(SpecErr{fmt.Sprintf("%s:%d: %s: wrong number of parameters", spec.File, spec.Line, spec.Name)})
	}
	e.apply(fr, st, spec, spec.Params, as, ts, map[string]types.Type{}, pos, resT, k)
}

func inList(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (e *Exec) apply(fr *Frame, st *State, spec *FuncSpec, names []string, args []Val, ptys []types.Type, tenv map[string]types.Type, pos token.Pos, resT types.Type, k retK) {
	e.used[spec.Name] = true
	if spec.NoReturn {
		e.panics(st, pos, "call of "+spec.Name)
		return
	}
	pre := &Env{vars: map[string]SV{}, types: tenv}
	e.globalsInto(pre, st.clone())
	type ptr struct {
		n  string
		v  Val
		ty types.Type
	}
	var ptrs []ptr
	for i, n := range names {
		ty := ptys[i]
		switch x := args[i].(type) {
		case PtrV:
			el := deref(ty)
			pre.vars[n] = SV{e.peek(st, e.loadCell(st, x), el), el}
			ptrs = append(ptrs, ptr{n, x, el})
		case GlobPtr:
			el := deref(ty)
			pre.vars[n] = SV{e.peek(st, e.load(fr, st, x, el, pos), el), el}
			ptrs = append(ptrs, ptr{n, x, el})
		case ElemPtr:
			el := deref(ty)
			pre.vars[n] = SV{e.peek(st, e.load(fr, st, x, el, pos), el), el}
			ptrs = append(ptrs, ptr{n, x, el})
		case MapV, GlobMap:
			pre.vars[n] = SV{e.mapTerm(st, x), ty}
			ptrs = append(ptrs, ptr{n, x, ty})
		default:
			pre.vars[n] = SV{e.peek(st, x, ty), ty}
			if sortOf(ty) == "Iface" && pre.vars[n].t.Sort != "Iface" {
				pre.vars[n] = SV{boxT(ty, pre.vars[n].t), ty}
			}
			if e.v.nonNil(ty) && !inList(spec.Nullable, n) {
				if t := pre.vars[n].t; t.Sort == "Iface" {
					e.oblige(st, "requires", spec.Name+": "+n+" is not nil", nil, not(eq(t, nilIface())), e.pos(pos))
				}
			}
		}
	}
	generic := len(spec.TParams) > 0
	var holdNil []*T
	listArg := false
	for i, n := range names {
		ty := ptys[i]
		if el := deref(ty); el != nil && !treeLike(el) {
			ty = el
		}
		if spec.Opts["noinv"] || inList(spec.Nullable, n) || pre.vars[n].t == nil || pre.vars[n].t.Sort != sortOf(ty) || sortOf(ty) == "Iface" {
			continue
		}
		for _, f := range e.v.nonNilFacts(pre.vars[n].t, ty, 0) {
			if generic {
				listArg = true
				if f.Op != "true" && st.decide(f) != 1 {
					holdNil = append(holdNil, f)
				}
			} else if f.Op != "true" && st.decide(f) != 1 {
				e.oblige(st, "requires", spec.Name+": "+n+" holds no nil", nil, f, e.pos(pos))
			}
		}
	}
	// a generic list operation given lists without nil returns lists without nil
	resultNonNil := func(t *T, ty types.Type) {
		fs := e.v.nonNilFacts(t, ty, 0)
		if e.v.nonNil(ty) && t.Sort == "Iface" {
			fs = append(fs, not(eq(t, nilIface())))
		}
		for _, f := range fs {
			if !generic {
				st.assume(f)
			} else if listArg {
				st.assume(implies(and(holdNil...), f))
			}
		}
		if generic && len(fs) > 0 {
			e.note("list operations given lists without nil return lists without nil")
		}
	}
	if len(e.v.spec.TypeInvs) > 0 && !spec.Opts["noinv"] {
		for i, n := range names {
			ty := ptys[i]
			if el := deref(ty); el != nil && !treeLike(el) {
				ty = el
			}
			if e.v.mayHaveInv(ty, 0) && pre.vars[n].t.Sort != "Iface" && pre.vars[n].t.Sort == sortOf(ty) {
				e.checkInv(st, pre.vars[n].t, ty, "type invariant of argument "+n+" of "+spec.Name, pos)
			}
		}
	}
	for _, c := range e.v.spec.Ginv {
		if e.entry != nil && e.v.ginvTouched(c, e.entry, st) {
			genv := &Env{vars: map[string]SV{}}
			e.globalsInto(genv, st)
			e.oblige(st, "ginv", "at the call of "+spec.Name, e.props(c), e.v.evalClause(c, genv), e.pos(pos))
		}
	}
	for _, cl := range spec.Requires {
		t := e.v.evalClause(cl, pre)
		e.oblige(st, "requires", spec.Name+":"+cl.Label, nil, t, e.pos(pos))
		st.assume(t)
	}
	if len(spec.Aborts) > 0 {
		var cs []*T
		for _, cl := range spec.Aborts {
			cs = append(cs, e.v.evalClause(cl, pre))
		}
		e.mayAbort(st, pos, "call of "+spec.Name, or(cs...))
		st.assume(not(or(cs...)))
	}
	for _, l := range spec.Excludes {
		if st.held[l] {
			e.oblige(st, "lock", "calls "+spec.Name+" while holding "+l, nil, tFalse, e.pos(pos))
		}
	}
	// ownership of arguments
	appOwn := 0
	for i, n := range names {
		if inList(spec.Owns, n) {
			e.consume(st, args[i], ptys[i], spec.Name, pos)
		} else if inList(spec.Appends, n) {
			if o := e.ownership(st, args[i]); o > appOwn {
				appOwn = o
			}
			e.loseAppend(st, args[i], pos, spec.Name)
		} else {
			switch args[i].(type) {
			case SliceV, TreeV, *StructV:
				// a borrowed argument may be retained by the result
				if !spec.Opts["borrow"] && mayRetain(spec, resT) && !e.cannotHold(spec, resT, args[i], ptys[i]) {
					e.freezeKeepReadable(st, args[i], ptys[i])
				}
			}
		}
	}
	ptrOwn := map[string]int{}
	for _, p := range ptrs {
		if !inList(spec.Owns, p.n) && !inList(spec.Appends, p.n) {
			continue
		}
		switch p.v.(type) {
		case MapV, GlobMap:
			continue
		}
		v := e.load(fr, st, p.v, p.ty, pos)
		o := e.ownership(st, v)
		if gp, ok := p.v.(GlobPtr); ok && inList(e.spec.Owns, globalName(gp.g)) {
			e.note("assumed: no list still in use shares the storage of the global %s", globalName(gp.g))
		} else if inList(spec.Owns, p.n) && o != 0 || o > 1 {
			e.oblige(st, "ownership", spec.Name+" changes "+p.n+" in place, which must not be shared", nil, tFalse, e.pos(pos))
		}
		ptrOwn[p.n] = o + 1
	}
	post := &Env{vars: map[string]SV{}, types: tenv, old: pre}
	for n, v := range pre.vars {
		post.vars[n] = v
	}
	for _, p := range ptrs {
		if !inList(spec.Modifies, p.n) {
			continue
		}
		nt := W.freshConst(p.n+"'", sortOf(p.ty))
		e.typeInv1(st, nt, p.ty)
		resultNonNil(nt, p.ty)
		post.vars[p.n] = SV{nt, p.ty}
		switch x := p.v.(type) {
		case MapV, GlobMap:
			e.setMap(fr, st, x, pos, func(*T) *T { return nt })
		default:
			nv := Val(nt)
			if inList(spec.Fresh, p.n) || ptrOwn[p.n] == 1 {
				nv = e.own(st, nt, p.ty, spec.Name)
			} else if ptrOwn[p.n] == 2 {
				nv = e.appOnly(st, e.own(st, nt, p.ty, spec.Name))
			}
			e.store(fr, st, p.v, nv, p.ty, pos)
		}
	}
	for _, m := range spec.Modifies {
		if g := e.v.globByName(m); g != nil {
			e.checkGlobalWrite(st, g, pos)
			nt := W.freshConst("g'", sortOf(deref(g.Type())))
			st.globals[g] = nt
			e.typeInv(st, nt, deref(g.Type()))
		}
	}
	e.globalsInto(post, st)
	for _, c := range e.v.spec.Ginv {
		for _, m := range spec.Modifies {
			if _, nm, ok := strings.Cut(m, "."); ok && strings.Contains(exStr(c.E), nm) {
				genv := &Env{vars: map[string]SV{}}
				e.globalsInto(genv, st)
				st.assume(e.v.evalClause(c, genv))
				break
			}
		}
	}
	var rts []types.Type
	if resT != nil {
		if tt, ok := resT.(*types.Tuple); ok {
			for i := 0; i < tt.Len(); i++ {
				rts = append(rts, tt.At(i).Type())
			}
		} else {
			rts = append(rts, resT)
		}
	}
	var outs []Val
	for i, rt := range rts {
		rn := fmt.Sprintf("res%d", i)
		if i < len(spec.Results) {
			rn = spec.Results[i]
		}
		r := W.freshConst(rn, sortOf(rt))
		e.typeInv1(st, r, rt)
		if !inList(spec.Nullable, rn) {
			resultNonNil(r, rt)
		}
		post.vars[rn] = SV{r, rt}
		outs = append(outs, r)
	}
	// definitional postconditions r == t are substituted for fresh results
	for _, cl := range spec.Ensures {
		st.assume(e.v.evalClause(cl, post))
	}
	for i, rt := range rts {
		rn := ""
		if i < len(spec.Results) {
			rn = spec.Results[i]
		}
		if inList(spec.Fresh, rn) {
			outs[i] = e.own(st, outs[i].(*T), rt, spec.Name)
		} else if inList(spec.Appendable, rn) && appOwn <= 1 {
			v := e.own(st, outs[i].(*T), rt, spec.Name)
			if appOwn == 1 {
				v = e.appOnly(st, v)
			}
			outs[i] = v
		}
	}
	switch len(outs) {
	case 0:
		k(st, TupleV{})
	case 1:
		k(st, outs[0])
	default:
		k(st, TupleV(outs))
	}
}

// freezeKeepReadable marks borrowed slices/trees as no longer exclusively ours.
func (e *Exec) freezeKeepReadable(st *State, v Val, t types.Type) {
	e.freeze(st, v, t)
}

func (e *Exec) loseAppend(st *State, v Val, pos token.Pos, what string) {
	switch x := v.(type) {
	case SliceV:
		b := st.backs[x.id]
		if !b.canApp || b.ext != 0 {
			e.oblige(st, "ownership", what+" appends to a slice whose array is shared", nil, tFalse, e.pos(pos))
		}
		b.canApp, b.canWrite = false, false
		b.why = "(given to " + what + ")"
		st.backs[x.id] = b
	case *StructV:
		for _, f := range x.f {
			e.loseAppend(st, f, pos, what)
		}
	case *T:
		if _, ok := seqElems[x.Sort]; ok && x.Op != "emp_"+x.Sort {
			e.oblige(st, "ownership", what+" appends to a slice whose array is shared", nil, tFalse, e.pos(pos))
		}
		if si, ok := structInfo[x.Sort]; ok && hasLinear(si.Typ, 0) {
			e.oblige(st, "ownership", what+" appends to a slice whose array is shared", nil, tFalse, e.pos(pos))
		}
	}
}

// ---------------------------------------------------------------- builtins

func (e *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, pos token.Pos, resT types.Type) Val {
	arg := func(i int) Val { return e.get(fr, st, c.Args[i]) }
	aty := func(i int) types.Type { return fr.ty(c.Args[i].Type()) }
	switch b.Name() {
	case "len", "cap":
		switch aty(0).Underlying().(type) {
		case *types.Map:
			m := e.mapTerm(st, arg(0))
			return W.app("mlen_"+m.Sort, m)
		}
		s := e.peek(st, arg(0), aty(0))
		if s.Sort == "Str" {
			W.fun("str_len", []string{"Str"}, "Int")
			W.axiom("str_len", forall([]BV{{"s", "Str"}}, cmp(">=", mk("str_len", "Int", mk("s", "Str")), intT(0)), []*T{mk("str_len", "Int", mk("s", "Str"))}), "str_len")
			e1 := W.strLit("")
			W.axiom("str_len0", forall([]BV{{"s", "Str"}}, iff(mk("=", "Bool", mk("str_len", "Int", mk("s", "Str")), intT(0)), mk("=", "Bool", mk("s", "Str"), e1)), []*T{mk("str_len", "Int", mk("s", "Str"))}), "str_len")
			return W.app("str_len", s)
		}
		if _, ok := seqElems[s.Sort]; !ok {
			return W.freshConst("len", "Int")
		}
		if b.Name() == "cap" {
			r := W.freshConst("cap", "Int")
			st.assume(cmp("<=", seqLen(s), r))
			return r
		}
		return seqLen(s)
	case "append":
		return e.appendB(fr, st, arg(0), arg(1), aty(0), aty(1), pos)
	case "copy":
		dst := arg(0)
		sv, ok := dst.(SliceV)
		src := e.peek(st, arg(1), aty(1))
		if !ok || src.Sort == "Str" {
			e.unsupported(st, pos, "copy into a slice that others can reach")
		}
		bk := st.backs[sv.id]
		if !bk.canWrite || bk.ext != 0 {
			e.oblige(st, "ownership", "copies into a slice that others can reach", nil, tFalse, e.pos(pos))
		}
		n := ite(cmp("<=", seqLen(src), seqLen(bk.seq)), seqLen(src), seqLen(bk.seq))
		ns := W.freshConst("copied", bk.seq.Sort)
		st.assume(eq(seqLen(ns), seqLen(bk.seq)))
		bv, i := W.freshBV("i", "Int")
		st.assume(forall([]BV{bv}, implies(and(cmp("<=", intT(0), i), cmp("<", i, seqLen(ns))), eq(seqAt(ns, i), ite(cmp("<", i, n), seqAt(src, i), seqAt(bk.seq, i)))), []*T{seqAt(ns, i)}))
		bk.seq = ns
		st.backs[sv.id] = bk
		return n
	case "delete":
		k := e.freezeKey(st, arg(1), aty(0).Underlying().(*types.Map).Key())
		e.setMap(fr, st, arg(0), pos, func(m *T) *T { return W.app("del_"+m.Sort, m, k) })
		return TupleV{}
	case "max", "min":
		op := ">="
		if b.Name() == "min" {
			op = "<="
		}
		r := e.peek(st, arg(0), aty(0))
		for i := 1; i < len(c.Args); i++ {
			x := e.peek(st, arg(i), aty(i))
			r = ite(cmp(op, r, x), r, x)
		}
		return r
	case "print", "println":
		return TupleV{}
	case "close":
		if e.spec.Opts["ignorego"] {
			return TupleV{}
		}
	case "recover":
		return W.freshConst("recovered", "Iface")
	case "ssa:wrapnilchk":
		return arg(0)
	}
	e.unsupported(st, pos, "builtin %s", b.Name())
	return nil
}

func (e *Exec) appendB(fr *Frame, st *State, a, b Val, aty, bty types.Type, pos token.Pos) Val {
	bs := e.freezePeek(st, b, bty)
	if bs.Sort == "Str" {
		f := W.fun("conv_Str_Seq_Int", []string{"Str"}, "Seq_Int")
		bs = W.app(f, bs)
	}
	elem := aty.Underlying().(*types.Slice).Elem()
	as := e.seqTerm(st, a)
	res := seqCat(as, bs)
	switch x := a.(type) {
	case SliceV:
		bk := st.backs[x.id]
		if bs.Op == "emp_"+bs.Sort {
			return a
		}
		if n, ok := isInt(seqLen(as)); ok && n == 0 && bk.canWrite && !bk.sub {
			// nothing to share
			r := e.newBack(st, res, elem)
			return r
		}
		if !bk.canApp || bk.ext != 0 {
			e.appendShared(st, pos, bk.why)
			r := e.newBack(st, res, elem)
			nb := st.backs[r.id]
			nb.canWrite = false
			nb.why = "(may share its array with another slice)"
			st.backs[r.id] = nb
			return r
		}
		r := e.newBack(st, res, elem)
		nb := st.backs[r.id]
		nb.canWrite = bk.canWrite
		nb.why = bk.why
		nb.parent = x.id
		nb.sub = false
		st.backs[r.id] = nb
		for q, sub := bk.parent, bk.sub; q != 0; { // views that a prefix was taken of see what is appended to it
			pb := st.backs[q]
			if sub {
				pb.seq = W.freshConst("stale", pb.seq.Sort)
				pb.stale = true
				st.backs[q] = pb
			}
			sub = sub || pb.sub
			q = pb.parent
		}
		bk.ext = r.id
		st.backs[x.id] = bk
		return r
	case *T:
		if bs.Op == "emp_"+bs.Sort {
			return a
		}
		if x.Op == "emp_"+x.Sort {
			return e.newBack(st, res, elem)
		}
		e.appendShared(st, pos, "it was not created here")
		r := e.newBack(st, res, elem)
		nb := st.backs[r.id]
		nb.canWrite = false
		nb.why = "(may share its array with another slice)"
		st.backs[r.id] = nb
		return r
	}
	panic(fmt.Sprintf("append %T", a))
}

func (e *Exec) freezePeek(st *State, v Val, t types.Type) *T {
	if s, ok := v.(SliceV); ok {
		return st.backs[s.id].seq
	}
	return e.peek(st, v, t)
}

func (e *Exec) appendShared(st *State, pos token.Pos, why string) {
	if e.spec.Opts["appendshared"] || e.v.appendShared {
		e.note("append to a slice whose array may be shared is assumed not to clobber another live slice (%s)", e.name)
		return
	}
	e.oblige(st, "ownership", "appends to a slice whose array others can reach "+why, nil, tFalse, e.pos(pos))
}

// ---------------------------------------------------------------- closures as values

// summarise turns a closure into a function term described by a quantified fact.
func (e *Exec) summarise(st *State, f *FuncV, t types.Type) *T {
	if f.term != nil {
		if f.fact != nil {
			st.assume(f.fact)
		}
		return f.term
	}
	W.sort("Fn")
	name := "fn"
	if o := originOf(f.fn); o.Parent() == nil && len(f.binds) == 0 {
		if s := sortOfSub(f.sub); s == "" {
			// a named function: one constant per function
			f.term = W.constant("fn_"+sanitizeLong(e.v.fnName(o)), "Fn")
		}
		name = o.Name()
	}
	if f.term == nil {
		f.term = W.freshConst(name, "Fn")
	}
	sig := f.fn.Signature
	o := originOf(f.fn)
	params := o.Params
	var sub TSub
	if f.fn.Parent() != nil || len(f.binds) > 0 {
		sub = f.sub
	} else {
		sub = subFor(f.fn, f.sub)
	}
	sig = substType(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()), sub).(*types.Signature)
	if o.Signature.Recv() != nil && len(f.binds) == 0 {
		// method expression: the receiver is the first parameter
		return f.term
	}
	if sig.Results().Len() == 0 {
		return f.term
	}
	var bs []BV
	var args []Val
	var ts []*T
	var tys []types.Type
	for i := range params {
		if i >= sig.Params().Len() {
			break
		}
		ty := sig.Params().At(i).Type()
		tt := W.freshConst("a", sortOf(ty))
		ts = append(ts, tt)
		tys = append(tys, ty)
		args = append(args, tt)
	}
	// run the body on arbitrary arguments
	s := st.clone()
	base := len(s.pc)
	freshBefore := W.fresh
	cellsBefore := s.clone()
	type path struct {
		conds []*T
		res   []*T
	}
	var paths []path
	var pre []*T
	ok := true
	fr := &Frame{fn: nil, sub: f.sub, regs: map[ssa.Value]Val{}, depth: 1}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(abortPath); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		noinv := false
		if sp := e.v.spec.Funcs[e.v.fnName(o)]; sp != nil && sp.Opts["noinv"] {
			noinv = true
		}
		if o.Synthetic != "" && o.Object() != nil {
			if of, ok := o.Object().(*types.Func); ok {
				if g := e.v.prog.FuncValue(of); g != nil {
					if sp := e.v.spec.Funcs[e.v.fnName(g)]; sp != nil && sp.Opts["noinv"] {
						noinv = true
					}
				}
			}
		}
		for i, ty := range tys {
			if !noinv {
				e.typeInv(s, ts[i], ty)
			}
			if e.v.nonNil(ty) {
				s.assume(not(eq(ts[i], nilIface())))
			}
		}
		if noinv {
			if e.noinv == nil {
				e.noinv = map[string]bool{}
			}
			for _, t := range ts {
				e.noinv[t.K] = true
			}
		}
		pre = append([]*T{}, s.pc[base:]...)
		base = len(s.pc)
		// runs which do not return: nothing is known of the result
		saved := e.onAbort
		e.onAbort = func(s2 *State) { paths = append(paths, path{conds: append([]*T{}, s2.pc[base:]...)}) }
		defer func() { e.onAbort = saved }()
		k := func(s2 *State, v Val) {
			mod := map[string]bool{}
			if e.diffState(cellsBefore, s2, cellsBefore, mod) {
				for m := range mod {
					if strings.HasPrefix(m, "c") || strings.HasPrefix(m, "g") {
						ok = false
					}
				}
			}
			p := path{conds: append([]*T{}, s2.pc[base:]...)}
			switch sig.Results().Len() {
			case 1:
				p.res = []*T{e.peek(s2, v, sig.Results().At(0).Type())}
			default:
				for i, x := range v.(TupleV) {
					p.res = append(p.res, e.peek(s2, x, sig.Results().At(i).Type()))
				}
			}
			for i, r := range p.res {
				e.checkInv(s2, r, sig.Results().At(i).Type(), "type invariant of the result of a function value", o.Pos())
			}
			paths = append(paths, p)
		}
		if f.fn.Parent() != nil || len(f.binds) > 0 || f.fn.Synthetic != "" {
			e.inline(fr, s, f.fn, sub, args, f.binds, "closure", nil, token.NoPos, k)
		} else {
			e.callStatic(fr, s, f.fn, f.sub, args, tys, nil, token.NoPos, sigRes(sig), k)
		}
	}()
	if !ok || len(paths) == 0 || len(paths) > 40 {
		if e.muted == 0 && !ok {
			e.note("a closure passed on in %s could not be summarised", e.name)
		}
		return f.term
	}
	// anything created while running the body depends on the arguments
	var disj []*T
	for _, p := range paths {
		cs := append([]*T{}, p.conds...)
		for i, r := range p.res {
			a := appTerm(f.term, sig, ts, i)
			if r.Sort == "Bool" {
				cs = append(cs, iff(a, r))
			} else {
				cs = append(cs, eq(a, r))
			}
		}
		body := and(cs...)
		// existentially quantify constants created during the run
		created := map[string]string{}
		body.walk(func(x *T) {
			if len(x.Args) == 0 {
				if n := freshNum(x.Op); n > freshBefore {
					created[x.Op] = x.Sort
				}
			}
		}, map[*T]bool{})
		if len(created) > 0 {
			m := map[string]*T{}
			var ebs []BV
			for _, c := range sortedKeys(created) {
				bv, bt := W.freshBV("ex", created[c])
				ebs = append(ebs, bv)
				m[c] = bt
			}
			body = exists(ebs, body.subst(m))
		}
		disj = append(disj, body)
	}
	fact := implies(and(pre...), or(disj...))
	if len(ts) > 0 {
		m := map[string]*T{}
		for i, t := range ts {
			bv, bt := W.freshBV("a", sortOf(tys[i]))
			bs = append(bs, bv)
			m[t.Op] = bt
		}
		fact = forall(bs, fact.subst(m), []*T{appTerm(f.term, sig, ts, 0).subst(m)})
	}
	f.fact = fact
	st.assume(fact)
	return f.term
}

func sigRes(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func freshNum(op string) int {
	i := strings.LastIndex(op, "!")
	if i < 0 {
		return -1
	}
	n := 0
	for _, c := range op[i+1:] {
		if c < '0' || c > '9' {
			return -1
		}
		n = n*10 + int(c-'0')
	}
	if i+1 == len(op) {
		return -1
	}
	return n
}

func sortOfSub(s TSub) string {
	if len(s) == 0 {
		return ""
	}
	return "x"
}

// mayRetain: can a result share the slices of a borrowed argument?
func mayRetain(spec *FuncSpec, resT types.Type) bool {
	if resT == nil {
		return len(spec.Modifies) > 0
	}
	if len(spec.Modifies) > 0 {
		return true
	}
	var ts []types.Type
	if tt, ok := resT.(*types.Tuple); ok {
		for i := 0; i < tt.Len(); i++ {
			ts = append(ts, tt.At(i).Type())
		}
	} else {
		ts = []types.Type{resT}
	}
	for i, t := range ts {
		if i < len(spec.Results) && inList(spec.Fresh, spec.Results[i]) && !ifaceInside(t, 0) {
			continue
		}
		if hasLinear(t, 0) || ifaceInside(t, 0) {
			return true
		}
	}
	return false
}

func ifaceInside(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Slice:
		return ifaceInside(u.Elem(), d+1)
	case *types.Pointer:
		return !treeLike(u.Elem())
	case *types.Map:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ifaceInside(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// cannotHold: no value of the result type can refer to the array of the slice arg.
func (e *Exec) cannotHold(spec *FuncSpec, resT types.Type, arg Val, argT types.Type) bool {
	if _, ok := arg.(SliceV); !ok || resT == nil || len(spec.Modifies) > 0 {
		return false
	}
	sl, ok := argT.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	return !e.canHold(resT, sl.Elem(), map[string]bool{})
}

func (e *Exec) canHold(t, elem types.Type, seen map[string]bool) bool {
	t = types.Unalias(t)
	k := types.TypeString(t, nil)
	if seen[k] {
		return false
	}
	seen[k] = true
	if tt, ok := t.(*types.Tuple); ok {
		for i := 0; i < tt.Len(); i++ {
			if e.canHold(tt.At(i).Type(), elem, seen) {
				return true
			}
		}
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return false
	case *types.Slice:
		return types.Identical(u.Elem(), elem) || e.canHold(u.Elem(), elem, seen)
	case *types.Array:
		return types.Identical(u.Elem(), elem) || e.canHold(u.Elem(), elem, seen)
	case *types.Pointer:
		return e.canHold(u.Elem(), elem, seen)
	case *types.Map:
		return e.canHold(u.Key(), elem, seen) || e.canHold(u.Elem(), elem, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if e.canHold(u.Field(i).Type(), elem, seen) {
				return true
			}
		}
		return false
	case *types.Interface:
		if n := ifaceName(t); n != "" && e.v.spec.Closed[n] != nil {
			for _, ct := range e.v.closedTypes(t) {
				if e.canHold(ct, elem, seen) {
					return true
				}
			}
			return false
		}
	}
	return true
}
