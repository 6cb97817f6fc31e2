package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/GoelandProver/Goeland"

type TypeInvDef struct {
	Ty    *TyX
	TPs   []string
	Var   string
	Body  *Ex
	Props []string // the properties the invariant serves; the functions' own when empty
}

// invProps: the properties served by the invariants of a type (nil: those of the function)
func (v *Ver) invProps(ty types.Type, d int) (out []string) {
	if d > 4 || ty == nil {
		return nil
	}
	ty = types.Unalias(ty)
	if n, ok := ty.(*types.Named); ok && n.Obj().Pkg() != nil {
		qn := n.Obj().Pkg().Name() + "." + n.Obj().Name()
		for _, x := range v.spec.TypeInvs {
			if x.Ty.Name == qn {
				out = append(out, x.Props...)
			}
		}
	}
	if st, ok := ty.Underlying().(*types.Struct); ok && !opaqueStruct(ty) {
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, v.invProps(st.Field(i).Type(), d+1)...)
		}
	}
	return
}

// builders: the functions that write into a value of a type with a declared invariant of the
// property have to be verified, or inlined in a verified function.
func (v *Ver) builders(prop string, covered map[string]bool) []*Obl {
	want := map[string]bool{}
	for _, x := range v.spec.TypeInvs {
		if inList(x.Props, prop) {
			want[x.Ty.Name] = true
		}
	}
	if len(want) == 0 {
		return nil
	}
	o := &Obl{Func: "builders", Kind: "invariant", Label: "every function that builds a value with an invariant is verified", Goal: tTrue, Result: "proved", By: "simplifier"}
	for _, n := range sortedKeys(v.fnByName) {
		var scan func(f *ssa.Function)
		scan = func(f *ssa.Function) {
			for _, a := range f.AnonFuncs {
				scan(a)
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					el := deref(fa.X.Type())
					nm, ok := types.Unalias(el).(*types.Named)
					if !ok || nm.Obj().Pkg() == nil || !want[nm.Obj().Pkg().Name()+"."+nm.Obj().Name()] {
						continue
					}
					if !covered[v.fnName(f)] && !covered[n] {
						o.Result, o.Goal = "failed", tFalse
						o.Why = fmt.Sprintf("%s builds or changes a %s and is under no contract", v.fnName(f), nm.Obj().Name())
						o.Output = o.Why
						o.Label += ": " + o.Why
						return
					}
				}
			}
		}
		scan(v.fnByName[n])
	}
	return []*Obl{o}
}

// Ver is one verification session over /repo's current source.
type Ver struct {
	spec         *Spec
	prog         *ssa.Program
	ssapkgs      []*ssa.Package
	pruned       []string
	pkgs         map[string]*ssa.Package
	specSorts    map[string]types.Type
	fnByName     map[string]*ssa.Function
	allGlobals   map[*ssa.Global]bool
	lemmaAx      map[string]int // axiom name -> lemma index
	implPreds    map[string]types.Type
	closedPreds  map[string]bool
	appendShared bool
	nameCache    map[*ssa.Function]string
	ifaceImpl    map[*ssa.Function]*FuncSpec
	ifaceDone    map[*ssa.Function]bool
	loopOwn      map[*ssa.Function]map[*ssa.BasicBlock]int
	gfuncs       map[*ssa.Global]*ssa.Function
	errs         []string
}

func srcDir() string {
	if d := os.Getenv("GOVC_SRC"); d != "" {
		return d
	}
	return "/repo/src"
}

func (v *Ver) load(patterns []string, overlay map[string][]byte) error {
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir:     srcDir(),
		Overlay: overlay,
		Tests:   false,
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	bad := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			bad++
		}
	})
	if bad > 0 {
		return fmt.Errorf("%d load errors", bad)
	}
	prog, pk := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	_ = pk
	v.prog = prog
	v.pkgs = map[string]*ssa.Package{}
	v.fnByName = map[string]*ssa.Function{}
	v.allGlobals = map[*ssa.Global]bool{}
	v.nameCache = map[*ssa.Function]string{}
	v.ifaceImpl = map[*ssa.Function]*FuncSpec{}
	v.ifaceDone = map[*ssa.Function]bool{}
	v.loopOwn = map[*ssa.Function]map[*ssa.BasicBlock]int{}
	v.implPreds = map[string]types.Type{}
	v.closedPreds = map[string]bool{}
	v.lemmaAx = map[string]int{}
	for _, p := range prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), modPath) {
			if v.pkgs[p.Pkg.Name()] == nil && !strings.Contains(p.Pkg.Path(), "internal") {
				v.pkgs[p.Pkg.Name()] = p
			}
			continue
		}
		p.Build()
		v.pkgs[p.Pkg.Name()] = p
		v.ssapkgs = append(v.ssapkgs, p)
	}
	sort.Slice(v.ssapkgs, func(i, j int) bool { return v.ssapkgs[i].Pkg.Path() < v.ssapkgs[j].Pkg.Path() })
	for _, p := range v.ssapkgs {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				v.fnByName[v.fnName(x)] = x
			case *ssa.Global:
				v.allGlobals[x] = true
			case *ssa.Type:
				n, ok := types.Unalias(x.Type()).(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := prog.FuncValue(n.Method(i)); f != nil {
						v.fnByName[v.fnName(f)] = f
					}
				}
			}
		}
	}
	v.findGlobalFuncs()
	v.prune()
	return nil
}

// prune drops the contracts of unexported helpers that no longer exist or that take other
// parameters: their callers are verified against whatever code they call now.
func (v *Ver) prune() {
	var keep []*FuncSpec
	for _, s := range v.spec.Order {
		pk, _, _ := strings.Cut(s.Name, ".")
		base := s.Name[strings.LastIndex(s.Name, ".")+1:]
		if !s.Iface && v.inModule(pk) && base != "" && base[0] >= 'a' && base[0] <= 'z' {
			f := v.fnByName[s.Name]
			if f == nil || len(f.Params) != len(s.Params) {
				v.pruned = append(v.pruned, s.Name)
				delete(v.spec.Funcs, s.Name)
				continue
			}
		}
		keep = append(keep, s)
	}
	v.spec.Order = keep
}

func (v *Ver) fnName(f *ssa.Function) string {
	if n, ok := v.nameCache[f]; ok {
		return n
	}
	n := v.fnName1(f)
	v.nameCache[f] = n
	return n
}

func (v *Ver) fnName1(f *ssa.Function) string {
	o := originOf(f)
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Name()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		pkg = o.Object().Pkg().Name()
	}
	if o.Parent() != nil {
		return v.fnName(o.Parent()) + "$" + o.Name()
	}
	r := o.Signature.Recv()
	if of, ok := o.Object().(*types.Func); ok && r == nil && o.Synthetic != "" {
		r = of.Type().(*types.Signature).Recv() // a method expression or method value
	}
	if r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pkg = n.Obj().Pkg().Name()
			}
			if o.Synthetic != "" {
				return pkg + "." + n.Obj().Name() + "." + o.Name() + "(synthetic)"
			}
			return pkg + "." + n.Obj().Name() + "." + o.Name()
		}
	}
	return pkg + "." + o.Name()
}

func (v *Ver) isIgnored(name string) bool { return v.spec.Ignore[name] }

func (v *Ver) external(f *ssa.Function) bool {
	if f.Pkg != nil {
		return !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if f.Synthetic != "" {
		return false
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return !strings.HasPrefix(f.Object().Pkg().Path(), modPath)
	}
	return false
}

func (v *Ver) wouldInline(fn *ssa.Function) bool {
	o := originOf(fn)
	n := v.fnName(o)
	if v.isIgnored(n) || v.external(o) || o.Blocks == nil {
		return false
	}
	if s := v.spec.Funcs[n]; s != nil {
		return s.Inline && len(s.Loops) == 0
	}
	if v.model(n) != nil {
		return false
	}
	if o.Signature.Recv() != nil {
		if is := v.ifaceSpecFor(o); is != nil && !is.Inline {
			return false
		}
	}
	return true
}

func (v *Ver) specOf(fn *ssa.Function) *FuncSpec {
	if fn == nil {
		return nil
	}
	return v.spec.Funcs[v.fnName(fn)]
}

func (v *Ver) rootFn(e *Exec) *ssa.Function { return e.root }

func (v *Ver) ownLoopNum(fn *ssa.Function, h *ssa.BasicBlock) int {
	m := v.loopOwn[fn]
	if m == nil {
		m = map[*ssa.BasicBlock]int{}
		var hs []*ssa.BasicBlock
		for _, b := range fn.Blocks {
			if isLoopHeader(b) {
				hs = append(hs, b)
			}
		}
		sort.SliceStable(hs, func(i, j int) bool { return blockPos(hs[i]) < blockPos(hs[j]) })
		for i, b := range hs {
			m[b] = i + 1
		}
		v.loopOwn[fn] = m
	}
	return m[h]
}

// ---------------------------------------------------------------- interfaces

func ifaceName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return ""
}

func (v *Ver) ifaceMethName(t types.Type, m string) string { return ifaceName(t) + "." + m }

// ifaceMethodSpec finds the contract of method m on interface t or one it embeds.
func (v *Ver) ifaceMethodSpec(t types.Type, m string) *FuncSpec {
	n := ifaceName(t)
	if n != "" {
		if s := v.spec.Funcs[n+"."+m]; s != nil && s.Iface {
			return s
		}
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumEmbeddeds(); i++ {
			if s := v.ifaceMethodSpec(it.EmbeddedType(i), m); s != nil {
				return s
			}
		}
	}
	return nil
}

// ifaceSpecFor: the interface contract a concrete method has to satisfy, if any.
func (v *Ver) ifaceSpecFor(fn *ssa.Function) *FuncSpec {
	if v.ifaceDone[fn] {
		return v.ifaceImpl[fn]
	}
	v.ifaceDone[fn] = true
	r := fn.Signature.Recv()
	if r == nil || fn.Synthetic != "" {
		return nil
	}
	for _, s := range v.spec.Order {
		if !s.Iface {
			continue
		}
		i := strings.LastIndex(s.Name, ".")
		if s.Name[i+1:] != fn.Name() {
			continue
		}
		it := v.ifaceTypeByName(s.Name[:i])
		if it == nil {
			continue
		}
		if types.Implements(r.Type(), it.Underlying().(*types.Interface)) {
			v.ifaceImpl[fn] = s
			return s
		}
	}
	return nil
}

func (v *Ver) ifaceTypeByName(n string) types.Type {
	pk, nm, _ := strings.Cut(n, ".")
	p := v.pkgs[pk]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(nm)
	if o == nil {
		return nil
	}
	if _, ok := o.Type().Underlying().(*types.Interface); !ok {
		return nil
	}
	return o.Type()
}

func (v *Ver) closedTypes(t types.Type) []types.Type {
	n := ifaceName(t)
	xs := v.spec.Closed[n]
	if xs == nil {
		return nil
	}
	var out []types.Type
	for _, x := range xs {
		out = append(out, v.resolveType(x, nil))
	}
	return out
}

func (v *Ver) methodOf(t types.Type, pkg *types.Package, m string) *ssa.Function {
	ms := v.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, m)
	if sel == nil {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == m {
				sel = ms.At(i)
			}
		}
	}
	if sel == nil {
		return nil
	}
	if len(sel.Index()) == 1 {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.TypeArgs().Len() == 0 {
			return v.prog.FuncValue(sel.Obj().(*types.Func))
		}
	}
	return v.prog.MethodValue(sel)
}

func (v *Ver) implPred(t types.Type) string {
	n := "impl_" + typeName(t)
	ifaceInit()
	if v.implPreds[n] == nil {
		v.implPreds[n] = t
		W.fun(n, []string{"Iface"}, "Bool")
		W.axiom(n+".nil", not(mk(n, "Bool", nilIface())), n)
	}
	return n
}

// closedWorld lists the conversions of the loaded code that put an unlisted type in a closed interface.
func (v *Ver) closedWorld() []*Obl {
	var out []*Obl
	for _, n := range sortedKeys(v.spec.Closed) {
		it := v.ifaceTypeByName(n)
		if it == nil {
			continue
		}
		ui := it.Underlying().(*types.Interface)
		list := v.closedTypes(it)
		o := &Obl{Func: "closed " + n, Kind: "closed", Label: "only the listed types implement " + n, Goal: tTrue, Result: "proved", By: "simplifier"}
		seen := map[*ssa.Function]bool{}
		var scan func(f *ssa.Function)
		scan = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, a := range f.AnonFuncs {
				scan(a)
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					mi, ok := in.(*ssa.MakeInterface)
					if !ok {
						continue
					}
					t := mi.X.Type()
					if _, ok := types.Unalias(t).(*types.TypeParam); ok || !types.Implements(t, ui) || types.IsInterface(t) {
						continue
					}
					known := false
					for _, l := range list {
						known = known || types.Identical(l, t)
					}
					if !known {
						o.Goal, o.Result, o.Why, o.By = tFalse, "failed", "a "+shortType(t)+" is put in an interface in "+v.fnName(f), ""
					}
				}
			}
		}
		for _, name := range sortedKeys(v.fnByName) {
			scan(v.fnByName[name])
		}
		out = append(out, o)
	}
	return out
}

// closedPred: every value of the closed interface t is nil or one of the listed types.
func (v *Ver) closedPred(t types.Type) string {
	n := "closed_" + typeName(t)
	ifaceInit()
	if !v.closedPreds[n] {
		v.closedPreds[n] = true
		W.fun(n, []string{"Iface"}, "Bool")
		bv, x := W.freshBV("v", "Iface")
		ds := []*T{eq(x, nilIface())}
		for _, ct := range v.closedTypes(t) {
			ds = append(ds, testApp(boxCtor(ct), x))
		}
		W.axiom(n, forall([]BV{bv}, iff(mk(n, "Bool", x), or(ds...)), []*T{mk(n, "Bool", x)}), n)
	}
	return n
}

// finishImpl adds what is known about implements-predicates for every boxed type.
func (v *Ver) finishImpl() {
	for _, n := range sortedKeys(v.implPreds) {
		it := v.implPreds[n].Underlying().(*types.Interface)
		for _, c := range ifaceData.Ctors {
			bt := boxType[c.Name]
			if bt == nil {
				continue
			}
			name := n + "." + c.Name
			if W.axName[name] {
				continue
			}
			bv, x := W.freshBV("v", c.Fields[0].Sort)
			t := mk(n, "Bool", mk(c.Name, "Iface", x))
			if !types.Implements(bt, it) {
				t = not(t)
			}
			ax := forall([]BV{bv}, t, []*T{mk(n, "Bool", mk(c.Name, "Iface", x))})
			W.axName[name] = true
			W.Axioms = append(W.Axioms, &Axiom{Name: name, T: ax, Keys: []string{n, c.Name}, All: true})
		}
	}
}

// ---------------------------------------------------------------- globals

func (v *Ver) globByName(n string) *ssa.Global {
	pk, nm, ok := strings.Cut(n, ".")
	if !ok {
		return nil
	}
	p := v.pkgs[pk]
	if p == nil {
		return nil
	}
	g, _ := p.Members[nm].(*ssa.Global)
	return g
}

func (v *Ver) globalSV(pkg, name string, e *Env) (SV, bool) {
	if s, ok := e.lookup("$" + pkg + "." + name); ok {
		return s, true
	}
	g := v.globByName(pkg + "." + name)
	if g == nil {
		// a constant?
		if p := v.pkgs[pkg]; p != nil {
			if c, ok := p.Members[name].(*ssa.NamedConst); ok {
				ex := &Exec{v: v}
				t := ex.constVal(newState(), c.Value, c.Type())
				if tt, ok := t.(*T); ok {
					return SV{tt, c.Type()}, true
				}
			}
			if f, ok := p.Members[name].(*ssa.Function); ok {
				return SV{W.constant("fn_"+sanitizeLong(v.fnName(f)), W.sort("Fn")), f.Signature}, true
			}
		}
		return SV{}, false
	}
	return SV{v.globalTerm(g), deref(g.Type())}, true
}

func (v *Ver) globalTerm(g *ssa.Global) *T {
	return W.constant("g_"+sanitizeLong(globalName(g)), sortOf(deref(g.Type())))
}

func (v *Ver) lockOf(g *ssa.Global) *LockDef {
	n := globalName(g)
	for _, k := range v.spec.Locks {
		for _, x := range k.Globals {
			if x == n {
				return k
			}
		}
	}
	return nil
}

// findGlobalFuncs: package variables of function type that are assigned exactly once in the
// whole program, in a package initialiser, with a named function or closure-free literal.
func (v *Ver) findGlobalFuncs() {
	v.gfuncs = map[*ssa.Global]*ssa.Function{}
	cnt := map[*ssa.Global]int{}
	for _, p := range v.ssapkgs {
		for _, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			v.scanStores(f, cnt)
		}
		for _, f := range v.fnByName {
			if f.Signature.Recv() != nil && f.Pkg == p {
				v.scanStores(f, cnt)
			}
		}
	}
	for g, n := range cnt {
		if n > 1 {
			delete(v.gfuncs, g)
		}
	}
}

func (v *Ver) scanStores(f *ssa.Function, cnt map[*ssa.Global]int) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					cnt[g]++
					if fn, ok := s.Val.(*ssa.Function); ok && f.Name() == "init" {
						v.gfuncs[g] = fn
					}
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		v.scanStores(a, cnt)
	}
}

func (v *Ver) globalFunc(g *ssa.Global) *ssa.Function { return v.gfuncs[g] }

// ---------------------------------------------------------------- types

func (v *Ver) nonNil(t types.Type) bool {
	n := ifaceName(t)
	return n != "" && v.spec.NonNil[n]
}

func (v *Ver) typeFacts(t *T, ty types.Type, depth int) []*T {
	if depth > 4 || ty == nil {
		return nil
	}
	ty = types.Unalias(ty)
	var out []*T
	if t.Sort == "Iface" && ifaceName(ty) != "" && v.spec.Closed[ifaceName(ty)] != nil {
		if t.Op == "nil_iface" {
			return nil
		}
		if bt := boxType[t.Op]; bt != nil {
			for _, ct := range v.closedTypes(ty) {
				if types.Identical(ct, bt) {
					return nil
				}
			}
			if _, ok := bt.(*types.TypeParam); ok {
				return nil
			}
		}
		return []*T{W.app(v.closedPred(ty), t)}
	}
	if n, ok := ty.(*types.Named); ok && n.Obj().Pkg() != nil {
		qn := n.Obj().Pkg().Name() + "." + n.Obj().Name()
		for _, d := range v.spec.TypeInvs {
			if d.Ty.Name != qn {
				continue
			}
			b := map[string]types.Type{}
			tps := map[string]bool{}
			for _, x := range d.TPs {
				tps[x] = true
			}
			v.unify(d.Ty, ty, tps, b)
			if n.TypeArgs().Len() == 0 && n.TypeParams().Len() > 0 {
				for i := range d.TPs {
					b[d.TPs[i]] = n.TypeParams().At(i)
				}
			}
			env := &Env{vars: map[string]SV{d.Var: {t, ty}}, types: b}
			out = append(out, v.evalB(d.Body, env))
		}
		if v.nonNil(ty) {
			_ = qn
		}
	}
	if st, ok := ty.Underlying().(*types.Struct); ok {
		if si, ok := structInfo[t.Sort]; ok {
			for i := 0; i < st.NumFields(); i++ {
				ft := si.St.Field(i).Type()
				if v.mayHaveInv(ft, 0) {
					out = append(out, v.typeFacts(selApp(si.C, i, t), ft, depth+1)...)
				}
			}
		}
	}
	return out
}

// elemFacts: every element of a list held by a value of type ty satisfies the facts of its type
// (they are obliged where the element is stored).
func (v *Ver) elemFacts(t *T, ty types.Type, depth int) []*T {
	return v.listFacts(t, ty, depth, func(x *T, el types.Type) []*T { return v.typeFacts(x, el, 0) })
}

// nonNilFacts: no interface field of a value of type ty and no element of its lists is nil, for
// the interfaces declared nonnil. Obliged where such a value is put in an interface, passed or
// returned; assumed where it is read.
func (v *Ver) nonNilFacts(t *T, ty types.Type, depth int) []*T {
	out := v.listFacts(t, ty, depth, func(x *T, el types.Type) []*T {
		if v.nonNil(el) && x.Sort == "Iface" {
			return []*T{not(eq(x, nilIface()))}
		}
		return v.nonNilFields(x, el, 0)
	})
	return append(out, v.nonNilFields(t, ty, 0)...)
}

func (v *Ver) nonNilFields(t *T, ty types.Type, depth int) (out []*T) {
	st, ok := types.Unalias(ty).Underlying().(*types.Struct)
	if !ok || depth > 3 || opaqueStruct(ty) {
		return nil
	}
	si, ok := structInfo[t.Sort]
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields() && i < len(si.C.Fields); i++ {
		ft := si.St.Field(i).Type()
		if len(v.spec.NilOK) > 0 && v.spec.NilOK[shortType(ty)+"."+si.St.Field(i).Name()] {
			continue
		}
		if v.nonNil(ft) && si.C.Fields[i].Sort == "Iface" {
			out = append(out, not(eq(selApp(si.C, i, t), nilIface())))
		} else if _, ok := ft.Underlying().(*types.Struct); ok && structInfo[si.C.Fields[i].Sort] != nil {
			out = append(out, v.nonNilFields(selApp(si.C, i, t), ft, depth+1)...)
		}
	}
	return
}

func (v *Ver) listFacts(t *T, ty types.Type, depth int, of func(x *T, el types.Type) []*T) []*T {
	if depth > 3 || ty == nil {
		return nil
	}
	ty = types.Unalias(ty)
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		el := u.Elem()
		if t.Op == "emp_"+t.Sort {
			return nil
		}
		if es, ok := seqLiteral(t); ok {
			var out []*T
			for _, x := range es {
				out = append(out, of(x, el)...)
			}
			return out
		}
		bv, i := BV{"i!elem", "Int"}, mk("i!elem", "Int") // one name, so that equal facts are recognised
		x := seqAt(t, i)
		fs := of(x, el)
		if len(fs) == 0 {
			return nil
		}
		return []*T{forall([]BV{bv}, implies(and(cmp("<=", intT(0), i), cmp("<", i, seqLen(t))), and(fs...)), []*T{x})}
	case *types.Map:
		ks := mapSorts[t.Sort][0]
		if ks == "" || t.Op == "emp_"+t.Sort {
			return nil
		}
		bv, k := BV{"k!elem", ks}, mk("k!elem", ks)
		x := W.app("get_"+t.Sort, t, k)
		fs := of(x, u.Elem())
		if len(fs) == 0 {
			return nil
		}
		return []*T{forall([]BV{bv}, implies(W.app("dom_"+t.Sort, t, k), and(fs...)), []*T{x})}
	case *types.Struct:
		var out []*T
		if si, ok := structInfo[t.Sort]; ok && !opaqueStruct(ty) {
			for i := 0; i < u.NumFields() && i < len(si.C.Fields); i++ {
				ft := si.St.Field(i).Type()
				switch ft.Underlying().(type) {
				case *types.Slice, *types.Struct, *types.Map:
					out = append(out, v.listFacts(selApp(si.C, i, t), ft, depth+1, of)...)
				}
			}
		}
		return out
	}
	return nil
}

func (v *Ver) mayHaveInv(t types.Type, d int) bool {
	if d > 4 || len(v.spec.TypeInvs)+len(v.spec.Closed) == 0 {
		return false
	}
	if v.spec.Closed[ifaceName(t)] != nil {
		return true
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		qn := n.Obj().Pkg().Name() + "." + n.Obj().Name()
		for _, x := range v.spec.TypeInvs {
			if x.Ty.Name == qn {
				return true
			}
		}
	}
	if opaqueStruct(t) {
		return false
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if v.mayHaveInv(st.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func (v *Ver) evalClause(c *Clause, env *Env) *T {
	return v.evalB(c.E, env)
}

// ---------------------------------------------------------------- verification of one function

func (v *Ver) newExec(spec *FuncSpec, name string) *Exec {
	return &Exec{v: v, spec: spec, name: name, seen: map[string]bool{}, pcells: map[int]string{}, assumed: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}, params: map[string]Val{}, ptys: map[string]types.Type{}, budget: 4000}
}

func (v *Ver) verifyFunc(spec *FuncSpec, fn *ssa.Function, selfBox bool) (e *Exec) {
	name := spec.Name
	if selfBox {
		name = v.fnName(fn)
	}
	e = v.newExec(spec, name)
	e.root = fn
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case SpecErr:
				e.obls = append(e.obls, &Obl{Func: name, Kind: "contract", Label: "the contract no longer fits the code", Goal: tFalse, Result: "failed", Output: x.msg, Why: x.msg})
			case abortPath:
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				e.obls = append(e.obls, &Obl{Func: name, Kind: "unsupported", Label: "verifier limitation", Goal: tFalse, Result: "failed", Output: fmt.Sprint(r), Why: fmt.Sprint(r)})
			}
		}
	}()
	if fn.Blocks == nil {
		panic(SpecErr{"no body"})
	}
	e.tsub = map[string]types.Type{}
	sub := TSub{}
	if tps := fn.TypeParams(); tps != nil {
		for i := 0; i < tps.Len(); i++ {
			sub[tps.At(i)] = tps.At(i)
			if i < len(spec.TParams) {
				e.tsub[spec.TParams[i]] = tps.At(i)
			}
		}
	}
	if len(spec.Params) != len(fn.Params) {
		panic(SpecErr{fmt.Sprintf("%s:%d: %s has %d parameters, its contract names %d", spec.File, spec.Line, name, len(fn.Params), len(spec.Params))})
	}
	st := newState()
	fr := &Frame{fn: fn, sub: sub, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*LoopCtx{}}
	for i, p := range fn.Params {
		n := spec.Params[i]
		ty := fr.ty(p.Type())
		var val Val
		shared := !inList(spec.Owns, n)
		switch {
		case e.isMap(ty):
			id := e.newID()
			mt := W.freshConst(n, sortOf(ty))
			e.typeInv(st, mt, ty)
			st.cells[id] = mt
			e.pcells[id] = n
			val = MapV{id}
		case deref(ty) != nil && !treeLike(deref(ty)) && !opaqueStruct(deref(ty)):
			el := deref(ty)
			id := e.newID()
			t := W.freshConst(n, sortOf(el))
			e.typeInv(st, t, el)
			if !shared {
				st.cells[id] = e.own(st, t, el, "parameter "+n)
			} else if inList(spec.Appends, n) {
				st.cells[id] = e.appOnly(st, e.own(st, t, el, "parameter "+n))
			} else {
				st.cells[id] = t
			}
			e.pcells[id] = n
			val = PtrV{cell: id}
		default:
			t := W.freshConst(n, sortOf(ty))
			if !spec.Opts["noinv"] {
				e.typeInv(st, t, ty)
			} else {
				if e.noinv == nil {
					e.noinv = map[string]bool{}
				}
				e.noinv[t.K] = true
			}
			if v.nonNil(ty) && !inList(spec.Nullable, n) {
				st.assume(not(eq(t, nilIface())))
			}
			if !shared {
				val = e.own(st, t, ty, "parameter "+n)
			} else if inList(spec.Appends, n) {
				val = e.appOnly(st, e.own(st, t, ty, "parameter "+n))
			} else {
				val = t
			}
		}
		fr.regs[p] = val
		e.params[n] = val
		e.ptys[n] = ty
		if i == 0 && selfBox {
			// the interface contract speaks about the boxed receiver
			e.params[n] = boxT(ty, e.peek(st, val, ty))
			e.ptys[n] = tyAny
		}
	}
	e.entry = st.clone()
	for _, l := range spec.Locks {
		st.held[l] = true
	}
	// invariants of package variables
	genv := &Env{vars: map[string]SV{}}
	e.globalsInto(genv, st)
	for _, c := range v.spec.Ginv {
		if v.ginvRelevant(c) {
			st.assume(v.evalClause(c, genv))
		}
	}
	preEnv := e.specEnv(st)
	for _, c := range spec.Requires {
		st.assume(v.evalClause(c, preEnv))
	}
	entryPc := append([]*T{}, st.pc...)
	e.entry = st.clone()
	oldEnv := e.specEnv(e.entry)
	for _, n := range sortedKeys(e.params) {
		val := e.params[n]
		oldEnv.vars[n] = e.paramSV(e.entry, n, val)
	}
	e.oldEnv = oldEnv
	e.numberLoops(fn)
	heldAtEntry := cp(st.held)
	res := fn.Signature.Results()
	fr.ret = func(s *State, vs []Val) {
		e.rets++
		env := e.specEnv(s)
		var outT []types.Type
		for i := range vs {
			rt := fr.ty(res.At(i).Type())
			outT = append(outT, rt)
			rn := fmt.Sprintf("res%d", i)
			if i < len(spec.Results) {
				rn = spec.Results[i]
			}
			t := e.peek(s, vs[i], rt)
			env.vars[rn] = SV{t, rt}
			for _, f := range v.typeFacts(t, rt, 0) {
				e.oblige(s, "ensures", "type invariant of "+rn, v.invProps(rt, 0), f, e.pos(fn.Pos()))
			}
			if v.nonNil(rt) && !inList(spec.Nullable, rn) && t.Sort == "Iface" {
				e.oblige(s, "ensures", rn+" is not nil", nil, not(eq(t, nilIface())), e.pos(fn.Pos()))
			}
			if len(spec.TParams) == 0 && !inList(spec.Nullable, rn) {
				for _, f := range v.nonNilFacts(t, rt, 0) {
					e.oblige(s, "ensures", rn+" holds no nil", nil, f, e.pos(fn.Pos()))
				}
			}
			if inList(spec.Appendable, rn) && e.ownership(s, vs[i]) > 1 {
				e.oblige(s, "ownership", rn+" can be appended to", nil, tFalse, e.pos(fn.Pos()))
			}
			if inList(spec.Fresh, rn) && e.hasLinear(rt) {
				if o := e.ownership(s, vs[i]); o != 0 {
					e.oblige(s, "ownership", rn+" is freshly built", nil, e.trivialOwn(s, vs[i]), e.pos(fn.Pos()))
				} else if w := e.aliasedTree(s, vs[i]); w != "" {
					e.oblige(s, "ownership", rn+": "+w, nil, tFalse, e.pos(fn.Pos()))
				}
			}
		}
		for _, c := range spec.Asserts {
			t := v.evalClause(c, env)
			e.oblige(s, "assert", c.Label, e.props(c), t, fmt.Sprintf("%s:%d", filepath.Base(c.File), c.Line))
			s.assume(t)
		}
		for _, c := range spec.Ensures {
			t := v.evalClause(c, env)
			e.oblige(s, "ensures", c.Label, e.props(c), t, fmt.Sprintf("%s:%d", filepath.Base(c.File), c.Line))
		}
		for _, id := range sortedInts(e.pcells) {
			n := e.pcells[id]
			if el := deref(e.ptys[n]); el != nil && e.modifies(n) {
				for _, f := range v.typeFacts(e.peek(s, s.cells[id], el), el, 0) {
					e.oblige(s, "ensures", "type invariant of "+n, v.invProps(el, 0), f, e.pos(fn.Pos()))
				}
				if (inList(spec.Fresh, n) || inList(spec.Owns, n)) && e.ownership(s, s.cells[id]) != 0 {
					e.oblige(s, "ownership", n+" stays exclusively owned", nil, tFalse, e.pos(fn.Pos()))
				}
				if inList(spec.Appends, n) && e.ownership(s, s.cells[id]) > 1 {
					e.oblige(s, "ownership", n+" can still be appended to", nil, tFalse, e.pos(fn.Pos()))
				}
			}
		}
		for _, l := range sortedKeys(s.held) {
			if s.held[l] != heldAtEntry[l] {
				e.oblige(s, "lock", "returns while holding "+l, nil, tFalse, e.pos(fn.Pos()))
			}
		}
		genv := &Env{vars: map[string]SV{}}
		e.globalsInto(genv, s)
		for _, c := range v.spec.Ginv {
			if v.ginvRelevant(c) && v.ginvTouched(c, e.entry, s) {
				e.oblige(s, "ginv", c.Label, e.props(c), v.evalClause(c, genv), "")
			}
		}
		if len(e.retPcs) < 200 {
			e.retPcs = append(e.retPcs, s.pc)
		}
	}
	e.guard(func() { e.run(fr, st, fn.Blocks[0], 0) })
	e.entryPc = entryPc
	return e
}

func (v *Ver) ginvRelevant(c *Clause) bool { return true }

func (v *Ver) ginvTouched(c *Clause, a, b *State) bool {
	for g, val := range b.globals {
		if t, ok := val.(*T); ok && t.K == v.globalTerm(g).K {
			continue
		}
		if strings.Contains(exStr(c.E), g.Name()) {
			return true
		}
	}
	return false
}

func exStr(x *Ex) string {
	if x == nil {
		return ""
	}
	s := x.Op + " " + x.Name
	for _, a := range x.Args {
		s += " " + exStr(a)
	}
	return s
}

// trivialOwn: the condition under which a value that is not known to be owned is harmless (no node at all).
func (e *Exec) trivialOwn(st *State, v Val) *T {
	switch x := v.(type) {
	case *T:
		if ti, ok := treeInfo[x.Sort]; ok {
			return eq(x, mk(ti.Nil.Name, x.Sort))
		}
		if si, ok := structInfo[x.Sort]; ok && hasLinear(si.Typ, 0) {
			var cs []*T
			for i := range si.C.Fields {
				if e.hasLinear(si.St.Field(i).Type()) {
					cs = append(cs, e.trivialOwn(st, selApp(si.C, i, x)))
				}
			}
			return and(cs...)
		}
		if _, ok := seqElems[x.Sort]; ok {
			return tFalse
		}
		return tTrue
	case TreeV:
		c := st.trees[x.id]
		if c.status == 0 {
			return tTrue
		}
		if c.mat != nil {
			return tFalse
		}
		return eq(c.term, mk(c.ti.Nil.Name, c.term.Sort))
	case *StructV:
		var cs []*T
		for _, f := range x.f {
			if e.ownership(st, f) != 0 {
				cs = append(cs, e.trivialOwn(st, f))
			}
		}
		return and(cs...)
	}
	return tFalse
}

func (e *Exec) isMap(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Map)
	if _, tp := types.Unalias(t).(*types.TypeParam); tp {
		return false
	}
	return ok
}

func (e *Exec) appOnly(st *State, v Val) Val {
	switch x := v.(type) {
	case SliceV:
		b := st.backs[x.id]
		b.canWrite = false
		b.why = "(belongs to the caller)"
		st.backs[x.id] = b
	case *StructV:
		for _, f := range x.f {
			e.appOnly(st, f)
		}
	}
	return v
}

// aliasedTree: the trees inside v must be disjoint and owned.
func (e *Exec) aliasedTree(st *State, v Val) string {
	switch x := v.(type) {
	case TreeV:
		var bad string
		e.fold(st, x, map[int]bool{}, &bad)
		return bad
	case *StructV:
		for _, f := range x.f {
			if w := e.aliasedTree(st, f); w != "" {
				return w
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- lemmas

func (v *Ver) constraintTP(name string) types.Type {
	// T, T:Ordered, T:Comparable, ...
	find := func(obj string) types.Type {
		p := v.pkgs["Lib"]
		o := p.Pkg.Scope().Lookup(obj)
		switch x := o.Type().(type) {
		case *types.Named:
			return x.TypeParams().At(0)
		case *types.Signature:
			return x.TypeParams().At(0)
		}
		return nil
	}
	_, c, _ := strings.Cut(name, ":")
	switch c {
	case "Ordered":
		return find("Node")
	case "Comparable":
		return find("ListEquals")
	}
	return find("List")
}

func tpName(n string) string { a, _, _ := strings.Cut(n, ":"); return a }

func (v *Ver) lemmaParts(m *LemmaDef, tenv map[string]types.Type) (bs []BV, ts []*T, env *Env, req, ens *T) {
	env = &Env{vars: map[string]SV{}, types: tenv}
	for _, p := range m.Params {
		ty := v.resolveType(p.Ty, tenv)
		bv, t := W.freshBV(p.Name, sortOf(ty))
		bs = append(bs, bv)
		ts = append(ts, t)
		env.vars[p.Name] = SV{t, ty}
	}
	var rs, es []*T
	for _, c := range m.Req {
		rs = append(rs, v.evalClause(c, env))
	}
	for _, c := range m.Ens {
		es = append(es, v.evalClause(c, env))
	}
	return bs, ts, env, and(rs...), and(es...)
}

func (v *Ver) lemmaAxiom(m *LemmaDef, idx int, tenv map[string]types.Type, suffix string) {
	name := "lemma." + m.Name + suffix
	if W.axName[name] {
		return
	}
	bs, _, env, req, ens := v.lemmaParts(m, tenv)
	var pats [][]*T
	keys := map[string]bool{}
	for _, ts := range m.Trigs {
		var p []*T
		for _, x := range ts {
			p = append(p, v.eval(x, env).t)
		}
		pats = append(pats, p)
		p[0].walk(func(t *T) {
			if _, ok := W.Funcs[t.Op]; ok && len(t.Args) > 0 {
				keys[t.Op] = true
			}
		}, map[*T]bool{})
	}
	if len(pats) == 0 {
		return // not used automatically
	}
	// the axiom matters when all functions of some trigger occur; use the first trigger's head symbols
	W.axName[name] = true
	ks := []string{}
	for _, p := range pats {
		if len(p) > 0 {
			ks = append(ks, p[0].Op)
		}
	}
	man := ""
	if m.Manual {
		man = m.Name
	}
	W.Axioms = append(W.Axioms, &Axiom{Name: name, T: forall(bs, implies(req, ens), pats...), Keys: ks, Lemma: idx + 1, Manual: man})
	v.lemmaAx[name] = idx
}

// instLemmas instantiates generic lemmas and axioms for the types at which the functions they mention are used.
func (v *Ver) instLemmas() {
	known := map[string]bool{}
	for _, m := range v.spec.Lemmas {
		known[m.Name] = true
	}
	for _, m := range v.spec.Lemmas {
		for _, u := range m.Uses {
			if !known[u] {
				panic(SpecErr{fmt.Sprintf("lemma %s uses unknown lemma %s", m.Name, u)})
			}
		}
	}
	for _, f := range v.spec.Funcs {
		for _, u := range f.Uses {
			if !known[u] {
				panic(SpecErr{fmt.Sprintf("%s uses unknown lemma %s", f.Name, u)})
			}
		}
	}
	for round := 0; round < 4; round++ {
		before := len(W.Axioms)
		for i, m := range v.spec.Lemmas {
			if len(m.TParams) == 0 {
				if v.mentions(m.Name, m.fnNames(v), nil) {
					v.lemmaAxiom(m, i, nil, "")
				}
				continue
			}
			for _, te := range v.instancesFor(m.fnNames(v), m.TParams) {
				v.lemmaAxiom(m, i, te, tenvKey(m.TParams, te))
			}
		}
		for _, a := range v.spec.Axioms {
			if len(a.TParams) == 0 {
				v.axiomInst(a, nil, "")
				continue
			}
			var names []string
			collectFns(a.E, v, &names)
			for _, te := range v.instancesFor(names, a.TParams) {
				v.axiomInst(a, te, tenvKey(a.TParams, te))
			}
		}
		if len(W.Axioms) == before {
			break
		}
	}
}

func (v *Ver) mentions(_ string, names []string, _ any) bool {
	// non-generic lemmas: relevant when every function they mention has been instantiated
	for _, n := range names {
		if f := v.spec.Fns[n]; f != nil && len(f.TParams) == 0 && !f.Macro {
			if fnInsts[f.Name] == nil {
				return false
			}
		}
	}
	return true
}

func tenvKey(tps []string, te map[string]types.Type) string {
	s := ""
	for _, t := range tps {
		s += "$" + sortOf(te[tpName(t)])
	}
	return s
}

func (m *LemmaDef) fnNames(v *Ver) []string {
	var out []string
	for _, c := range m.Req {
		collectFns(c.E, v, &out)
	}
	for _, c := range m.Ens {
		collectFns(c.E, v, &out)
	}
	return out
}

func collectFns(x *Ex, v *Ver, out *[]string) {
	if x == nil {
		return
	}
	if x.Op == "call" {
		if f := v.spec.Fns[x.Name]; f != nil {
			if f.Macro {
				collectFns(f.Body, v, out)
			} else {
				*out = append(*out, x.Name)
			}
		}
	}
	for _, a := range x.Args {
		collectFns(a, v, out)
	}
}

// instancesFor: the type environments at which one of the generic functions named is instantiated.
func (v *Ver) instancesFor(names []string, tps []string) []map[string]types.Type {
	var out []map[string]types.Type
	seen := map[string]bool{}
	for _, n := range names {
		f := v.spec.Fns[n]
		if f == nil || len(f.TParams) != len(tps) {
			continue
		}
		for _, b := range fnBinds[n] {
			te := map[string]types.Type{}
			for i := range tps {
				te[tpName(tps[i])] = b[f.TParams[i]]
			}
			k := tenvKey(tps, te)
			if !seen[k] {
				seen[k] = true
				out = append(out, te)
			}
		}
	}
	return out
}

func (v *Ver) axiomInst(a *AxDef, te map[string]types.Type, suffix string) {
	name := "axiom." + a.Name + suffix
	if W.axName[name] {
		return
	}
	t := v.evalB(a.E, &Env{vars: map[string]SV{}, types: te})
	ks := append([]string{}, a.Keys...)
	if len(ks) == 0 {
		t.walk(func(x *T) {
			for _, p := range x.Pats {
				if len(p) > 0 {
					ks = append(ks, p[0].Op)
				}
			}
		}, map[*T]bool{})
	}
	if len(ks) == 0 {
		t.walk(func(x *T) {
			if _, ok := W.Funcs[x.Op]; ok {
				ks = append(ks, x.Op)
			}
		}, map[*T]bool{})
	}
	W.axName[name] = true
	W.Axioms = append(W.Axioms, &Axiom{Name: name, T: t, Keys: ks})
}

func (v *Ver) verifyLemma(m *LemmaDef, idx int) (obls []*Obl) {
	mkO := func(label string, hyps []*T, goal *T) {
		var push func(h []*T, g *T, l string)
		push = func(h []*T, g *T, l string) {
			if g.Op == "and" {
				for _, a := range g.Args {
					push(h, a, l)
				}
				return
			}
			if g.Op == "=>" {
				push(append(h[:len(h):len(h)], g.Args[0]), g.Args[1], l)
				return
			}
			if g.Op == "forall" {
				s := map[string]*T{}
				for _, b := range g.Bind {
					s[b.Name] = W.freshConst("sk", b.Sort)
				}
				push(h, g.Args[0].subst(s), l)
				return
			}
			obls = append(obls, &Obl{Func: "lemma " + m.Name, Kind: "lemma", Label: l, Hyps: h, Goal: g, Lemma: idx + 1, Uses: m.Uses, Pos: fmt.Sprintf("%s:%d", filepath.Base(m.File), m.Line)})
		}
		push(hyps, goal, label)
	}
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(SpecErr); ok {
				obls = append(obls, &Obl{Func: "lemma " + m.Name, Kind: "lemma", Goal: tFalse, Result: "failed", Output: x.msg, Why: x.msg})
				return
			}
			panic(r)
		}
	}()
	tenv := map[string]types.Type{}
	for _, t := range m.TParams {
		tenv[tpName(t)] = v.constraintTP(t)
	}
	bs, ts, _, req, ens := v.lemmaParts(m, tenv)
	consts := map[string]*T{}
	var cs []*T
	for i, b := range bs {
		c := W.freshConst(m.Params[i].Name, b.Sort)
		consts[b.Name] = c
		cs = append(cs, c)
		_ = ts
	}
	reqC, ensC := req.subst(consts), ens.subst(consts)
	if len(m.Induct) == 0 {
		mkO("", []*T{reqC}, ensC)
		return
	}
	ipos := -1
	for i, p := range m.Params {
		if p.Name == m.Induct[0] {
			ipos = i
		}
	}
	// induction hypothesis at a smaller value, the other parameters universally quantified
	ih := func(at *T) *T {
		mp := map[string]*T{}
		var qs []BV
		var pats [][]*T
		for i, b := range bs {
			if i == ipos {
				mp[b.Name] = at
				continue
			}
			if inList(m.Induct, m.Params[i].Name+"!") {
				mp[b.Name] = cs[i]
				continue
			}
			nb, nt := W.freshBV(m.Params[i].Name, b.Sort)
			qs = append(qs, nb)
			mp[b.Name] = nt
		}
		env := &Env{vars: map[string]SV{}, types: tenv}
		for i, p := range m.Params {
			env.vars[p.Name] = SV{mp[bs[i].Name], v.resolveType(p.Ty, tenv)}
		}
		if len(qs) > 0 {
			for _, tr := range m.Trigs {
				var p []*T
				for _, x := range tr {
					p = append(p, v.eval(x, env).t)
				}
				pats = append(pats, p)
			}
		}
		return forall(qs, implies(req.subst(mp), ens.subst(mp)), pats...)
	}
	x := cs[ipos]
	switch {
	case treeInfo[x.Sort] != nil:
		ti := treeInfo[x.Sort]
		n0 := mk(ti.Nil.Name, x.Sort)
		m0 := map[string]*T{x.Op: n0}
		mkO("nil", []*T{reqC.subst(m0)}, ensC.subst(m0))
		var as []*T
		var hyps []*T
		for _, f := range ti.Node.Fields {
			c := W.freshConst("f", f.Sort)
			as = append(as, c)
			if f.Sort == x.Sort {
				hyps = append(hyps, ih(c))
			}
		}
		m1 := map[string]*T{x.Op: mk(ti.Node.Name, x.Sort, as...)}
		mkO("node", append(hyps, reqC.subst(m1)), ensC.subst(m1))
	case seqElems[x.Sort] != "":
		m0 := map[string]*T{x.Op: seqEmp(x.Sort)}
		mkO("empty", []*T{reqC.subst(m0)}, ensC.subst(m0))
		s1, el := W.freshConst("s", x.Sort), W.freshConst("x", seqElems[x.Sort])
		m1 := map[string]*T{x.Op: seqApp(s1, el)}
		mkO("snoc", []*T{ih(s1), reqC.subst(m1)}, ensC.subst(m1))
	case x.Sort == "Int":
		m0 := map[string]*T{x.Op: intT(0)}
		mkO("neg", []*T{reqC, cmp("<", x, intT(0))}, ensC)
		mkO("zero", []*T{reqC.subst(m0)}, ensC.subst(m0))
		m1 := add(x, intT(-1))
		mkO("succ", []*T{cmp(">", x, intT(0)), ih(m1), reqC}, ensC)
	case x.Sort == "Iface":
		rank := v.rankOf(x)
		bv, y := W.freshBV("y", "Iface")
		ihy := ih(y)
		h := forall([]BV{bv}, implies(and(cmp("<", v.rankOf(y), rank)), ihy), []*T{v.rankOf(y)})
		if ihy.Op == "forall" {
			var ps [][]*T
			for _, p := range ihy.Pats {
				ps = append(ps, p)
			}
			h = forall(append([]BV{bv}, ihy.Bind...), implies(cmp("<", v.rankOf(y), rank), ihy.Args[0]), ps...)
		} else if len(m.Trigs) > 0 {
			env := &Env{vars: map[string]SV{}, types: tenv}
			for i, p := range m.Params {
				t := cs[i]
				if i == ipos {
					t = y
				}
				env.vars[p.Name] = SV{t, v.resolveType(p.Ty, tenv)}
			}
			var ps [][]*T
			for _, tr := range m.Trigs {
				var p []*T
				for _, xx := range tr {
					p = append(p, v.eval(xx, env).t)
				}
				ps = append(ps, p)
			}
			h = forall([]BV{bv}, implies(cmp("<", v.rankOf(y), rank), ihy), ps...)
		}
		// case split on the constructors named by the lemma's interface functions
		var other []*T
		for _, c := range v.lemmaCtors(m) {
			pl := W.freshConst("pl", c.Fields[0].Sort)
			bx := mk(c.Name, "Iface", pl)
			m1 := map[string]*T{x.Op: bx}
			mkO(strings.TrimPrefix(c.Name, "box_"), []*T{h.subst(m1), reqC.subst(m1)}, ensC.subst(m1))
			other = append(other, not(testApp(c, x)))
		}
		mkO("other", append([]*T{h, reqC}, other...), ensC)
	default:
		panic(SpecErr{"induction over " + x.Sort})
	}
	return
}

func (v *Ver) lemmaCtors(m *LemmaDef) []*Ctor {
	var out []*Ctor
	seen := map[string]bool{}
	for _, n := range m.fnNames(v) {
		f := v.spec.Fns[n]
		if f == nil {
			continue
		}
		for _, c := range f.Cases {
			if c.Kind != "type" {
				continue
			}
			bc := boxCtor(v.resolveType(c.Ty, nil))
			if !seen[bc.Name] {
				seen[bc.Name] = true
				out = append(out, bc)
			}
		}
	}
	return out
}

// rankOf is a well-founded measure on interface values: components of a boxed struct are smaller.
func (v *Ver) rankOf(x *T) *T {
	ifaceInit()
	W.fun("rank", []string{"Iface"}, "Int")
	return W.app("rank", x)
}

// finishRank states that interface-valued parts of a boxed value have a smaller rank.
func (v *Ver) finishRank() {
	if W.Funcs["rank"] == nil {
		return
	}
	for _, c := range ifaceData.Ctors {
		bt := boxType[c.Name]
		if bt == nil || W.axName["rank."+c.Name] {
			continue
		}
		bv, x := W.freshBV("v", c.Fields[0].Sort)
		bx := mk(c.Name, "Iface", x)
		r := func(t *T) *T { return mk("rank", "Int", t) }
		conj := []*T{cmp(">=", r(bx), intT(0))}
		var walk func(t *T, d int)
		walk = func(t *T, d int) {
			if d > 4 {
				return
			}
			if t.Sort == "Iface" {
				conj = append(conj, cmp("<", r(t), r(bx)))
				return
			}
			if el, ok := seqElems[t.Sort]; ok {
				if el == "Iface" {
					ib, i := W.freshBV("i", "Int")
					conj = append(conj, forall([]BV{ib}, cmp("<", r(W.app("at_"+t.Sort, t, i)), r(bx)), []*T{r(W.app("at_"+t.Sort, t, i))}, []*T{W.app("at_"+t.Sort, t, i), r(bx)}))
				} else if si, ok := structInfo[el]; ok {
					// elements that are structures with interface fields
					for j, f := range si.C.Fields {
						if f.Sort == "Iface" {
							ib, i := W.freshBV("i", "Int")
							at := W.app("at_"+t.Sort, t, i)
							part := selApp(si.C, j, at)
							conj = append(conj, forall([]BV{ib}, cmp("<", r(part), r(bx)), []*T{r(part)}, []*T{at, r(bx)}))
						}
					}
				}
				return
			}
			if si, ok := structInfo[t.Sort]; ok {
				for i := range si.C.Fields {
					walk(selApp(si.C, i, t), d+1)
				}
			}
		}
		walk(x, 0)
		W.axName["rank."+c.Name] = true
		W.Axioms = append(W.Axioms, &Axiom{Name: "rank." + c.Name, T: forall([]BV{bv}, and(conj...), []*T{r(bx)}), Keys: []string{"rank", c.Name}, All: true})
	}
}

var _ = token.NoPos
