package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type Val interface{}

// *T is a frozen (immutable) value.

type StructV struct {
	typ types.Type
	f   []Val
}
type ArrV struct {
	typ types.Type // element type
	e   []Val
}
type SliceV struct{ id int }
type TreeV struct{ id int }
type PtrV struct {
	cell int
	path []int
}
type ElemPtr struct {
	slice Val // SliceV or *T
	idx   *T
	path  []int
	ety   types.Type
}
type TreeFieldPtr struct {
	id    int // tree handle
	term  *T  // or frozen node term
	field int
	ti    *TreeInfo
}
type GlobPtr struct {
	g    *ssa.Global
	path []int
}
type MapV struct{ cell int }
type FuncV struct {
	fn    *ssa.Function
	sub   TSub
	binds []Val
	chain string
	term  *T // summary
	fact  *T
}
type TupleV []Val
type IterV struct {
	m  Val
	mt *types.Map
}
type BadPtr struct{ why string } // dereferencing is an unsupported obligation

// Back is the backing store of a slice the current function may own.
type Back struct {
	seq      *T
	canWrite bool // elements may be overwritten in place
	canApp   bool // the spare capacity belongs to this view
	ext      int  // id of the slice obtained by appending to this one (0: none)
	parent   int
	elem     types.Type
	why      string
	stale    bool // content no longer known
	sub      bool // a prefix of its parent: appending overwrites the parent
}

type TreeC struct {
	term   *T
	mat    []Val // materialised fields
	status int   // 0 owned, 1 frozen, 2 consumed
	ti     *TreeInfo
	origin string
}

// ---------------------------------------------------------------- state

type State struct {
	pc       []*T
	facts    map[string]bool
	ctors    map[string]string
	cells    map[int]Val
	backs    map[int]Back
	trees    map[int]TreeC
	globals  map[*ssa.Global]Val
	held     map[string]bool
	lockSnap map[string]map[string]SV
}

func newState() *State {
	return &State{facts: map[string]bool{}, ctors: map[string]string{}, cells: map[int]Val{}, backs: map[int]Back{}, trees: map[int]TreeC{}, globals: map[*ssa.Global]Val{}, held: map[string]bool{}, lockSnap: map[string]map[string]SV{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	return &State{pc: s.pc[:len(s.pc):len(s.pc)], facts: cp(s.facts), ctors: cp(s.ctors), cells: cp(s.cells), backs: cp(s.backs), trees: cp(s.trees), globals: cp(s.globals), held: cp(s.held), lockSnap: cp(s.lockSnap)}
}

func (s *State) assume(t *T) {
	switch t.Op {
	case "true":
		return
	case "and":
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if v, ok := s.facts[t.K]; ok && v {
		return
	}
	s.pc = append(s.pc, t)
	s.note(t, true)
}

func (s *State) note(t *T, val bool) {
	if t.Op == "not" {
		s.note(t.Args[0], !val)
		return
	}
	if t.Op == "and" && val || t.Op == "or" && !val {
		for _, a := range t.Args {
			s.note(a, val)
		}
	}
	s.facts[t.K] = val
	if val && strings.HasPrefix(t.Op, "(_ is ") {
		s.ctors[t.Args[0].K] = strings.TrimSuffix(strings.TrimPrefix(t.Op, "(_ is "), ")")
	}
	if val && t.Op == "=" {
		if c := ctorOf(t.Args[1]); c != "" {
			s.ctors[t.Args[0].K] = c
		}
		if c := ctorOf(t.Args[0]); c != "" {
			s.ctors[t.Args[1].K] = c
		}
	}
}

// ctor returns the known constructor of a term.
func (s *State) ctor(t *T) string {
	if c := ctorOf(t); c != "" {
		return c
	}
	return s.ctors[t.K]
}

// decide: 1 known true, 0 known false, -1 unknown
func (s *State) decide(t *T) int {
	switch t.Op {
	case "true":
		return 1
	case "false":
		return 0
	case "not":
		if d := s.decide(t.Args[0]); d >= 0 {
			return 1 - d
		}
		return -1
	case "and":
		all := true
		for _, a := range t.Args {
			switch s.decide(a) {
			case 0:
				return 0
			case -1:
				all = false
			}
		}
		if all {
			return 1
		}
	case "or":
		none := true
		for _, a := range t.Args {
			switch s.decide(a) {
			case 1:
				return 1
			case -1:
				none = false
			}
		}
		if none {
			return 0
		}
	}
	if v, ok := s.facts[t.K]; ok {
		if v {
			return 1
		}
		return 0
	}
	if strings.HasPrefix(t.Op, "(_ is ") {
		if c := s.ctor(t.Args[0]); c != "" {
			if "(_ is "+c+")" == t.Op {
				return 1
			}
			return 0
		}
	}
	if t.Op == "=" {
		a, b := s.ctor(t.Args[0]), s.ctor(t.Args[1])
		if a != "" && b != "" && a != b {
			return 0
		}
		if a != "" && a == b {
			if d := W.Ctors[a]; d != nil {
				for _, c := range d.Ctors {
					if c.Name == a && len(c.Fields) == 0 {
						return 1
					}
				}
			}
		}
	}
	return -1
}

// ---------------------------------------------------------------- obligations

type Obl struct {
	Func   string
	Kind   string
	Label  string
	Pos    string
	Props  []string
	Hyps   []*T
	Goal   *T
	Result string // proved, failed, unknown
	By     string
	Time   float64
	Output string
	Query  string
	Why    string
	Lemma  int
	Uses   []string
}

func (o *Obl) Name() string {
	s := o.Func + "#" + o.Kind
	if o.Label != "" {
		s += "#" + o.Label
	}
	return s
}

// ---------------------------------------------------------------- executor

const execLimit = 60 * time.Second

type Exec struct {
	maybeNil map[string]bool // values that may hold nil
	steps    int
	onAbort  func(*State) // while a function value is summarised: what to do when it does not return
	start    time.Time
	v        *Ver
	spec     *FuncSpec
	name     string
	muted    int
	noinv    map[string]bool
	cellTy   map[int]types.Type
	nid      int
	paths    int
	obls     []*Obl
	seen     map[string]bool
	entry    *State
	params   map[string]Val
	ptys     map[string]types.Type
	oldEnv   *Env
	pcells   map[int]string // cells reachable from pointer parameters
	loopNum  map[string]int
	assumed  map[string]bool
	inlined  map[string]bool
	used     map[string]bool
	rets     int
	retPcs   [][]*T
	tsub     map[string]types.Type
	aborted  bool
	budget   int
	root     *ssa.Function
	entryPc  []*T
	deadRets int
}

type Frame struct {
	fn     *ssa.Function
	sub    TSub
	regs   map[ssa.Value]Val
	loops  map[*ssa.BasicBlock]*LoopCtx
	defers []*ssa.Defer
	up     *Frame
	ret    func(*State, []Val)
	depth  int
	chain  string
	stop   func(*Frame, *State, *ssa.BasicBlock, *ssa.BasicBlock) bool // edge interceptor
	binds  []Val
	lnum   map[*ssa.BasicBlock]string
}

func (f *Frame) clone() *Frame {
	g := *f
	g.regs = cp(f.regs)
	g.loops = cp(f.loops)
	g.defers = f.defers[:len(f.defers):len(f.defers)]
	return &g
}

func (f *Frame) ty(t types.Type) types.Type { return substType(t, f.sub) }

type abortPath struct{}

func (e *Exec) newID() int { e.nid++; return e.nid }

func (e *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.v.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/src/"); i >= 0 {
		f = f[i+5:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Exec) oblige(st *State, kind, label string, props []string, goal *T, pos string) {
	if e.muted > 0 {
		return
	}
	if goal.Op == "and" {
		for _, g := range goal.Args {
			e.oblige(st, kind, label, props, g, pos)
		}
		return
	}
	if goal.Op == "=>" { // prove the consequent under the antecedent: smaller goals
		s2 := st.clone()
		s2.assume(goal.Args[0])
		e.oblige(s2, kind, label, props, goal.Args[1], pos)
		return
	}
	if goal.Op == "ite" && goal.Sort == "Bool" {
		s2 := st.clone()
		s2.assume(goal.Args[0])
		e.oblige(s2, kind, label, props, goal.Args[1], pos)
		s3 := st.clone()
		s3.assume(not(goal.Args[0]))
		e.oblige(s3, kind, label, props, goal.Args[2], pos)
		return
	}
	if goal.Op == "forall" {
		m := map[string]*T{}
		for _, b := range goal.Bind {
			m[b.Name] = W.freshConst("sk_"+b.Name, b.Sort)
		}
		s2 := st.clone()
		e.oblige(s2, kind, label, props, goal.Args[0].subst(m), pos)
		return
	}
	o := &Obl{Func: e.name, Kind: kind, Label: label, Props: props, Goal: goal, Hyps: st.pc, Pos: pos, Uses: e.spec.Uses}
	if st.decide(goal) == 1 {
		o.Result, o.By = "proved", "simplifier"
	}
	var sb strings.Builder
	sb.WriteString(kind + label + pos + goal.K)
	for _, h := range st.pc {
		sb.WriteString(h.K)
		sb.WriteByte('\n')
	}
	k := sb.String()
	if e.seen[k] {
		return
	}
	e.seen[k] = true
	e.obls = append(e.obls, o)
}

// unsupported records a failing obligation: the path leaves the supported subset.
func (e *Exec) unsupported(st *State, pos token.Pos, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	e.oblige(st, "unsupported", msg, nil, tFalse, e.pos(pos))
	panic(abortPath{})
}

func (e *Exec) note(format string, a ...any) { e.assumed[fmt.Sprintf(format, a...)] = true }

// ---------------------------------------------------------------- value conversions

func structOf(t types.Type) (*types.Struct, bool) {
	s, ok := types.Unalias(t).Underlying().(*types.Struct)
	return s, ok
}

func (e *Exec) zeroVal(st *State, t types.Type) Val {
	t = types.Unalias(t)
	if opaqueStruct(t) {
		return zeroTerm(t)
	}
	if _, ok := t.(*types.TypeParam); ok {
		return zeroTerm(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, e.zeroVal(st, u.Field(i).Type()))
		}
		return sv
	case *types.Slice:
		return e.newBack(st, seqEmp(sortOf(t)), u.Elem())
	case *types.Array:
		a := &ArrV{typ: u.Elem()}
		if u.Len() > 64 {
			return zeroTerm(t)
		}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, e.zeroVal(st, u.Elem()))
		}
		return a
	}
	return zeroTerm(t)
}

func (e *Exec) newBack(st *State, seq *T, elem types.Type) SliceV {
	id := e.newID()
	st.backs[id] = Back{seq: seq, canWrite: true, canApp: true, elem: elem}
	return SliceV{id}
}

// freezeExt takes the write rights of the slices that were made from slice id.
func (e *Exec) freezeExt(st *State, id int) {
	off := false
	for q := st.backs[id].ext; q != 0; q = st.backs[q].ext {
		b := st.backs[q]
		b.canWrite = false
		off = off || b.sub
		if off {
			b.canApp = false
		}
		b.why = "frozen: its array was stored in an immutable value"
		st.backs[q] = b
	}
}

func (e *Exec) newTree(st *State, term *T, ti *TreeInfo, origin string) TreeV {
	id := e.newID()
	st.trees[id] = TreeC{term: term, ti: ti, origin: origin}
	return TreeV{id}
}

func (e *Exec) seqTerm(st *State, v Val) *T {
	switch x := v.(type) {
	case *T:
		return x
	case SliceV:
		return st.backs[x.id].seq
	}
	panic(fmt.Sprintf("seqTerm %T", v))
}

// fold reads the current value of an owned tree.
func (e *Exec) fold(st *State, v Val, seen map[int]bool, bad *string) *T {
	switch x := v.(type) {
	case *T:
		return x
	case TreeV:
		c := st.trees[x.id]
		if c.status == 2 {
			*bad = "use of a tree whose ownership was given away (" + c.origin + ")"
		}
		if seen[x.id] && c.mat != nil {
			*bad = "tree shares a subtree with itself"
			return c.term
		}
		seen[x.id] = true
		if c.mat == nil {
			return c.term
		}
		var as []*T
		for i, f := range c.mat {
			if _, ok := f.(TreeV); ok {
				as = append(as, e.fold(st, f, seen, bad))
			} else {
				as = append(as, e.peek(st, f, c.ti.St.Field(i).Type()))
			}
		}
		return e.nodeTerm(c.ti, as)
	}
	panic(fmt.Sprintf("fold %T", v))
}

func (e *Exec) nodeTerm(ti *TreeInfo, as []*T) *T {
	var base *T
	ok := true
	for i, a := range as {
		if a.Op != ti.Node.Fields[i].Name || len(a.Args) != 1 || (base != nil && base.K != a.Args[0].K) {
			ok = false
			break
		}
		base = a.Args[0]
	}
	_ = ok // selectors of a nil tree are unspecified, so no eta without knowing the tester
	return mk(ti.Node.Name, ti.Data.Sort, as...)
}

// peek reads a value without changing its ownership.
func (e *Exec) peek(st *State, v Val, t types.Type) *T {
	switch x := v.(type) {
	case nil:
		return W.freshConst("undef", sortOf(t))
	case *T:
		return x
	case *StructV:
		so := sortOf(x.typ)
		si := structInfo[so]
		var as []*T
		for i := range x.f {
			as = append(as, e.peek(st, x.f[i], si.St.Field(i).Type()))
		}
		return ctorApp(si.Data, si.C, as...)
	case *ArrV:
		s := seqEmp(seqSort(x.typ))
		for _, el := range x.e {
			s = seqApp(s, e.peek(st, el, x.typ))
		}
		return s
	case SliceV:
		return st.backs[x.id].seq
	case TreeV:
		var bad string
		r := e.fold(st, x, map[int]bool{}, &bad)
		if bad != "" {
			e.oblige(st, "ownership", bad, nil, tFalse, "")
		}
		return r
	case MapV:
		return st.cells[x.cell].(*T)
	case *FuncV:
		return e.summarise(st, x, t)
	case PtrV:
		el := deref(t)
		if el == nil {
			return W.freshConst("ref", W.sort("Ref"))
		}
		return e.peek(st, e.loadCell(st, x), el)
	case GlobPtr:
		return W.constant("addr_"+sanitize(x.g.Name()), W.sort("Ref"))
	case ElemPtr, TreeFieldPtr, BadPtr:
		return W.freshConst("ref", W.sort("Ref"))
	}
	panic(fmt.Sprintf("peek %T", v))
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// freeze converts a value to an immutable term; whatever it owns can no longer be written.
func (e *Exec) freeze(st *State, v Val, t types.Type) *T {
	switch x := v.(type) {
	case *StructV:
		so := sortOf(x.typ)
		si := structInfo[so]
		var as []*T
		for i := range x.f {
			as = append(as, e.freeze(st, x.f[i], si.St.Field(i).Type()))
		}
		return ctorApp(si.Data, si.C, as...)
	case *ArrV:
		for _, el := range x.e {
			e.freeze(st, el, x.typ)
		}
		return e.peek(st, v, t)
	case SliceV:
		b := st.backs[x.id]
		r := b.seq
		b.canWrite, b.canApp = false, false
		b.why = "frozen: it was stored in an immutable value"
		st.backs[x.id] = b
		e.freezeExt(st, x.id)
		for p := b.parent; p != 0; {
			pb := st.backs[p]
			pb.canWrite, pb.canApp = false, false
			st.backs[p] = pb
			p = pb.parent
		}
		return r
	case TreeV:
		r := e.peek(st, x, t)
		e.setTree(st, x, 1)
		return r
	case PtrV:
		if p := deref(t); p != nil && sortOf(t) == "Ref" {
			return W.freshConst("ref", W.sort("Ref"))
		}
	case MapV:
		return st.cells[x.cell].(*T)
	}
	if p, ok := v.(PtrV); ok {
		_ = p
		return W.freshConst("ref", W.sort("Ref"))
	}
	return e.peek(st, v, t)
}

func (e *Exec) setTree(st *State, v Val, status int) {
	x, ok := v.(TreeV)
	if !ok {
		return
	}
	c := st.trees[x.id]
	if c.status >= status {
		return
	}
	c.status = status
	st.trees[x.id] = c
	for _, f := range c.mat {
		e.setTree(st, f, status)
	}
}

// consume gives the ownership of v away.
func (e *Exec) consume(st *State, v Val, t types.Type, what string, pos token.Pos) {
	switch x := v.(type) {
	case *T:
		if e.hasLinear(t) {
			if _, isSeq := seqElems[x.Sort]; isSeq {
				if x.Op == "emp_"+x.Sort {
					return
				}
			}
			if ti, ok := treeInfo[x.Sort]; ok && x.Op == ti.Nil.Name {
				return
			}
			if x.Sort == "Iface" || mapSorts[x.Sort][0] != "" {
				return
			}
			if si, ok := structInfo[x.Sort]; ok && x.Op == si.C.Name {
				for i, a := range x.Args {
					e.consume(st, a, si.St.Field(i).Type(), what, pos)
				}
				return
			}
			e.oblige(st, "ownership", what+" needs a value nobody else can reach", nil, tFalse, e.pos(pos))
		}
	case *StructV:
		si := structInfo[sortOf(x.typ)]
		for i := range x.f {
			e.consume(st, x.f[i], si.St.Field(i).Type(), what, pos)
		}
	case SliceV:
		b := st.backs[x.id]
		if !b.canWrite || b.ext != 0 {
			e.oblige(st, "ownership", what+" needs a slice nobody else can reach", nil, tFalse, e.pos(pos))
		}
		b.canWrite, b.canApp, b.stale = false, false, true
		b.why = "given away to " + what
		b.seq = W.freshConst("given", b.seq.Sort)
		st.backs[x.id] = b
	case TreeV:
		c := st.trees[x.id]
		if c.status != 0 {
			e.oblige(st, "ownership", what+" needs a tree nobody else can reach", nil, tFalse, e.pos(pos))
		}
		c.origin = what
		st.trees[x.id] = c
		e.setTree(st, x, 2)
		for _, f := range c.mat {
			e.setTree(st, f, 2)
		}
	}
}

// hasLinear: does a type directly contain slices or trees (not behind an interface)?
func (e *Exec) hasLinear(t types.Type) bool { return hasLinear(t, 0) }

func hasLinear(t types.Type, d int) bool {
	if d > 6 {
		return false
	}
	t = types.Unalias(t)
	if opaqueStruct(t) {
		return false
	}
	switch u := t.(type) {
	case *types.TypeParam:
		return false
	case *types.Pointer:
		return treeLike(u.Elem())
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasLinear(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// own builds a value the current function owns from a term.
func (e *Exec) own(st *State, t *T, ty types.Type, origin string) Val {
	ty = types.Unalias(ty)
	if !hasLinear(ty, 0) {
		return t
	}
	switch u := ty.(type) {
	case *types.Pointer:
		if ti, ok := treeInfo[t.Sort]; ok {
			return e.newTree(st, t, ti, origin)
		}
		_ = u
	}
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		return e.newBack(st, t, u.Elem())
	case *types.Struct:
		si := structInfo[t.Sort]
		sv := &StructV{typ: ty}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, e.own(st, selApp(si.C, i, t), si.St.Field(i).Type(), origin))
		}
		return sv
	}
	return t
}

// loaded assumes what holds of every value kept in a field or an element.
func (e *Exec) loaded(st *State, t *T, ty types.Type) {
	e.typeInv(st, t, ty)
	if t.Sort == "Iface" && e.v.nonNil(ty) {
		if t.Op == "nil_iface" {
			return
		}
		st.assume(not(eq(t, nilIface())))
	}
}

// checkInv obliges the declared invariant of a value of type ty.
func (e *Exec) checkInv(st *State, t *T, ty types.Type, what string, pos token.Pos) {
	for _, f := range e.v.typeFacts(t, ty, 0) {
		if f.Op == "true" || st.decide(f) == 1 {
			continue
		}
		e.oblige(st, "invariant", what, e.v.invProps(ty, 0), f, e.pos(pos))
	}
}

// checkBoxed obliges what is assumed of a value read back from an interface.
func (e *Exec) checkBoxed(st *State, t *T, ty types.Type, pos token.Pos) {
	what := "the " + shortType(ty) + " put in an interface"
	e.checkInv(st, t, ty, "type invariant of "+what, pos)
	for _, f := range e.v.nonNilFacts(t, ty, 0) {
		if f.Op == "true" || st.decide(f) == 1 {
			continue
		}
		e.oblige(st, "invariant", "no nil in "+what, nil, f, e.pos(pos))
	}
}

// typeInv assumes the declared invariant of a value of type ty.
func (e *Exec) typeInv(st *State, t *T, ty types.Type) {
	e.typeInv1(st, t, ty)
	for _, f := range e.v.nonNilFacts(t, ty, 0) {
		st.assume(f)
	}
}

func (e *Exec) typeInv1(st *State, t *T, ty types.Type) {
	for _, f := range e.v.typeFacts(t, ty, 0) {
		st.assume(f)
	}
	for _, f := range e.v.elemFacts(t, ty, 0) {
		st.assume(f)
	}
}

// ---------------------------------------------------------------- memory

func (e *Exec) loadCell(st *State, p PtrV) Val {
	v, ok := st.cells[p.cell]
	if !ok {
		panic("no cell")
	}
	for _, i := range p.path {
		v = e.fieldOf(st, v, i)
	}
	return v
}

// mayHold records that a value was read from memory this function is still filling, so that the
// absence of nil in it has to be proved rather than assumed.
func (e *Exec) mayHold(t *T, ty types.Type) {
	if e.v.mayHoldNil(ty, 0) {
		if e.maybeNil == nil {
			e.maybeNil = map[string]bool{}
		}
		e.maybeNil[t.K] = true
	}
}

func (e *Exec) fieldOf(st *State, v Val, i int) Val {
	switch x := v.(type) {
	case *StructV:
		return x.f[i]
	case *ArrV:
		return x.e[i]
	case *T:
		if si, ok := structInfo[x.Sort]; ok {
			r := selApp(si.C, i, x)
			ft := si.St.Field(i).Type()
			if x.Op == si.C.Name || e.maybeNil[x.K] {
				// built here, so it may hold zero values: nothing is assumed beyond its parts
				e.mayHold(r, ft)
				e.typeInv1(st, r, ft)
			} else {
				e.loaded(st, r, ft)
			}
			return r
		}
		if _, ok := seqElems[x.Sort]; ok {
			return seqAt(x, intT(int64(i)))
		}
	}
	panic(fmt.Sprintf("fieldOf %T %v", v, v))
}

func (e *Exec) setField(st *State, v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	i := path[0]
	switch x := v.(type) {
	case *StructV:
		y := &StructV{typ: x.typ, f: append([]Val{}, x.f...)}
		y.f[i] = e.setField(st, x.f[i], path[1:], nv)
		return y
	case *ArrV:
		y := &ArrV{typ: x.typ, e: append([]Val{}, x.e...)}
		y.e[i] = e.setField(st, x.e[i], path[1:], nv)
		return y
	case *T:
		si := structInfo[x.Sort]
		if si == nil {
			panic("setField on " + x.Sort)
		}
		y := &StructV{typ: si.Typ}
		for j := range si.C.Fields {
			y.f = append(y.f, selApp(si.C, j, x))
		}
		y.f[i] = e.setField(st, y.f[i], path[1:], nv)
		return y
	}
	panic(fmt.Sprintf("setField %T", v))
}

func (e *Exec) load(fr *Frame, st *State, p Val, ty types.Type, pos token.Pos) Val {
	switch x := p.(type) {
	case PtrV:
		return e.loadCell(st, x)
	case GlobPtr:
		v := e.global(st, x.g, pos)
		for _, i := range x.path {
			v = e.fieldOf(st, v, i)
		}
		return v
	case ElemPtr:
		s := e.seqTerm(st, x.slice)
		v := Val(seqAt(s, x.idx))
		if sl, ok := x.slice.(SliceV); ok && st.backs[sl.id].canWrite && e.v.mayHoldNil(x.ety, 0) {
			e.mayHold(v.(*T), x.ety)
			e.typeInv1(st, v.(*T), x.ety)
		} else if xt, ok := x.slice.(*T); ok && e.maybeNil[xt.K] {
			e.mayHold(v.(*T), x.ety)
			e.typeInv1(st, v.(*T), x.ety)
		} else {
			e.loaded(st, v.(*T), x.ety)
		}
		for _, i := range x.path {
			v = e.fieldOf(st, v, i)
		}
		return v
	case TreeFieldPtr:
		if x.term != nil {
			r := selApp(x.ti.Node, x.field, x.term)
			return r
		}
		c := st.trees[x.id]
		if c.mat == nil || c.status == 2 {
			e.oblige(st, "ownership", "read of a tree whose ownership was given away", nil, tFalse, e.pos(pos))
			return selApp(x.ti.Node, x.field, c.term)
		}
		return c.mat[x.field]
	case TreeV:
		// *node as a whole
		e.unsupported(st, pos, "load of a whole tree node")
	case BadPtr:
		e.unsupported(st, pos, "dereference of %s", x.why)
	case *T:
		// an opaque reference: its referent is unknown
		e.note("pointers held in data are dereferenced to unknown values (%s)", shortType(ty))
		t := W.freshConst("deref", sortOf(ty))
		e.typeInv(st, t, ty)
		return t
	}
	panic(fmt.Sprintf("load %T", p))
}

func (e *Exec) store(fr *Frame, st *State, p Val, v Val, ty types.Type, pos token.Pos) {
	switch x := p.(type) {
	case PtrV:
		if n, ok := e.pcells[x.cell]; ok && !e.modifies(n) {
			e.oblige(st, "frame", "writes through "+n+", which the contract does not allow", nil, tFalse, e.pos(pos))
		}
		st.cells[x.cell] = e.setField(st, st.cells[x.cell], x.path, v)
	case GlobPtr:
		e.checkGlobalWrite(st, x.g, pos)
		cur := e.global(st, x.g, pos)
		st.globals[x.g] = e.setField(st, cur, x.path, e.freezeUnlessMap(st, v, ty))
	case ElemPtr:
		nv := e.freeze(st, v, ty)
		e.checkInv(st, nv, ty, "type invariant of the stored element", pos)
		s, ok := x.slice.(SliceV)
		if !ok {
			e.oblige(st, "ownership", "writes an element of a slice that others can reach", nil, tFalse, e.pos(pos))
			return
		}
		b := st.backs[s.id]
		if !b.canWrite || b.ext != 0 {
			why := b.why
			if b.ext != 0 {
				why = "a longer slice shares its array"
			}
			e.oblige(st, "ownership", "writes an element of a slice that others can reach "+why, nil, tFalse, e.pos(pos))
		}
		if len(x.path) > 0 {
			cur := seqAt(b.seq, x.idx)
			nv = e.freeze(st, e.setField(st, cur, x.path, nv), x.ety)
		}
		b.seq = seqUpd(b.seq, x.idx, nv)
		st.backs[s.id] = b
		for q := b.parent; q != 0; { // views of a prefix see the write
			pb := st.backs[q]
			pb.seq = W.freshConst("stale", pb.seq.Sort)
			pb.stale = true
			st.backs[q] = pb
			q = pb.parent
		}
	case TreeFieldPtr:
		if x.term != nil {
			e.oblige(st, "ownership", "writes a field of a tree node that others can reach", nil, tFalse, e.pos(pos))
			return
		}
		c := st.trees[x.id]
		if c.status != 0 {
			e.oblige(st, "ownership", "writes a field of a tree node that others can reach", nil, tFalse, e.pos(pos))
			return
		}
		m := append([]Val{}, c.mat...)
		switch y := v.(type) {
		case TreeV:
			m[x.field] = y
		default:
			m[x.field] = e.freeze(st, v, ty)
		}
		c.mat = m
		st.trees[x.id] = c
	default:
		e.unsupported(st, pos, "store through an untracked pointer (%T)", p)
	}
}

func (e *Exec) modifies(n string) bool {
	for _, m := range e.spec.Modifies {
		if m == n {
			return true
		}
	}
	return false
}

func (e *Exec) freezeUnlessMap(st *State, v Val, ty types.Type) Val {
	if _, ok := v.(MapV); ok {
		return st.cells[v.(MapV).cell]
	}
	return e.freeze(st, v, ty)
}

func (e *Exec) global(st *State, g *ssa.Global, pos token.Pos) Val {
	if lk := e.v.lockOf(g); lk != nil && e.muted == 0 && !st.held[lk.Mutex] && pos.IsValid() {
		e.oblige(st, "lock", "accesses "+globalName(g)+" without holding "+lk.Mutex, nil, tFalse, e.pos(pos))
	}
	if v, ok := st.globals[g]; ok {
		return v
	}
	ty := deref(g.Type())
	if fn := e.v.globalFunc(g); fn != nil {
		v := &FuncV{fn: fn}
		st.globals[g] = v
		return v
	}
	t := e.v.globalTerm(g)
	st.globals[g] = t
	e.typeInv(st, t, ty)
	return t
}

func globalName(g *ssa.Global) string { return g.Pkg.Pkg.Name() + "." + g.Name() }

func (e *Exec) checkGlobalWrite(st *State, g *ssa.Global, pos token.Pos) {
	n := globalName(g)
	if e.v.lockOf(g) != nil {
		return // shared between threads: no frame can mention it; the lock's guarantee covers it
	}
	if !e.modifies(n) {
		e.oblige(st, "frame", "writes "+n+", which the contract does not allow", nil, tFalse, e.pos(pos))
	}
}

// ---------------------------------------------------------------- operands

func (e *Exec) constVal(st *State, c *ssa.Const, ty types.Type) Val {
	if c.Value == nil {
		z := e.zeroVal(st, ty)
		if _, ok := types.Unalias(ty).Underlying().(*types.Slice); ok {
			switch x := z.(type) {
			case *T:
				cp := *x
				nilSeqs[&cp] = true
				return &cp
			case SliceV:
				b := st.backs[x.id]
				cp := *b.seq
				nilSeqs[&cp] = true
				b.seq = &cp
				st.backs[x.id] = b
			}
		}
		return z
	}
	so := sortOf(ty)
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return tTrue
		}
		return tFalse
	case constant.String:
		return W.strLit(constant.StringVal(c.Value))
	case constant.Int:
		if so == "Real" {
			n, _ := constant.Int64Val(c.Value)
			return SVreal(n)
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return intT(n)
		}
		return mk(c.Value.ExactString(), "Int")
	case constant.Float:
		if so == "Int" {
			n, _ := constant.Int64Val(constant.ToInt(c.Value))
			return intT(n)
		}
		num, den := constant.Num(c.Value).ExactString(), constant.Denom(c.Value).ExactString()
		neg := strings.HasPrefix(num, "-")
		num = strings.TrimPrefix(num, "-")
		t := mk("/", "Real", mk(num+".0", "Real"), mk(den+".0", "Real"))
		if neg {
			t = mk("-", "Real", t)
		}
		return t
	}
	return W.freshConst("const", so)
}

func SVreal(n int64) *T {
	if n < 0 {
		return mk("-", "Real", mk(fmt.Sprintf("%d.0", -n), "Real"))
	}
	return mk(fmt.Sprintf("%d.0", n), "Real")
}

func (e *Exec) get(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(st, x, fr.ty(x.Type()))
	case *ssa.Global:
		return GlobPtr{g: x}
	case *ssa.Function:
		return &FuncV{fn: x, sub: fr.sub, chain: fr.chain}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.binds[i]
			}
		}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(fmt.Sprintf("unset register %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (e *Exec) getT(fr *Frame, st *State, v ssa.Value) *T {
	x := e.get(fr, st, v)
	if t, ok := x.(*T); ok {
		return t
	}
	return e.peek(st, x, fr.ty(v.Type()))
}

// ---------------------------------------------------------------- control

func (e *Exec) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortPath); ok {
				return
			}
			panic(r)
		}
	}()
	f()
}

func (e *Exec) edge(fr *Frame, st *State, from, to *ssa.BasicBlock) {
	if e.steps++; e.steps%64 == 0 {
		if e.start.IsZero() {
			e.start = time.Now()
		} else if time.Since(e.start) > execLimit {
			panic(fmt.Sprintf("symbolic execution exceeds %v (too many paths)", execLimit))
		}
	}
	if fr.stop != nil && fr.stop(fr, st, from, to) {
		return
	}
	if isLoopHeader(to) {
		if to.Dominates(from) {
			if lc := fr.loops[to]; lc != nil {
				lc.back(fr, st, from)
				return
			}
		}
		e.loopEntry(fr, st, from, to)
		return
	}
	e.phis(fr, st, from, to)
	e.run(fr, st, to, 0)
}

func (e *Exec) phis(fr *Frame, st *State, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	vals := map[ssa.Value]Val{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = e.get(fr, st, ph.Edges[idx])
	}
	for k, v := range vals {
		fr.regs[k] = v
	}
}

func (e *Exec) run(fr *Frame, st *State, b *ssa.BasicBlock, start int) {
	for i := start; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.getT(fr, st, x.Cond)
			switch st.decide(c) {
			case 1:
				e.edge(fr, st, b, b.Succs[0])
				return
			case 0:
				e.edge(fr, st, b, b.Succs[1])
				return
			}
			e.paths++
			if e.paths > e.budget {
				e.aborted = true
				e.unsupported(st, x.Cond.Pos(), "too many paths")
			}
			fr2, st2 := fr.clone(), st.clone()
			st.assume(c)
			e.guard(func() { e.edge(fr, st, b, b.Succs[0]) })
			st2.assume(not(c))
			e.guard(func() { e.edge(fr2, st2, b, b.Succs[1]) })
			return
		case *ssa.Jump:
			e.edge(fr, st, b, b.Succs[0])
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, e.get(fr, st, r))
			}
			fr.ret(st, vs)
			return
		case *ssa.Panic:
			e.panics(st, x.Pos(), "explicit panic")
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			bi := i
			e.runDefers(fr, st, ds, func(fr2 *Frame, st2 *State) { e.run(fr2, st2, b, bi+1) })
			return
		case *ssa.Defer:
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], x)
			continue
		case *ssa.Call:
			bi := i
			done := false
			e.call(fr, st, &x.Call, x, x.Pos(), func(st2 *State, v Val) {
				if !done { // common case: one continuation; still clone, callers may be re-entered
					done = true
				}
				fr2 := fr.clone()
				fr2.regs[x] = v
				e.guard(func() { e.run(fr2, st2, b, bi+1) })
			})
			return
		case *ssa.Go:
			if e.spec.Opts["ignorego"] {
				e.note("goroutines started by %s are outside the contract", e.name)
				continue
			}
			e.unsupported(st, x.Pos(), "go statement")
		case *ssa.TypeAssert:
			if e.typeAssert(fr, st, b, i, x) {
				return
			}
		default:
			e.instr(fr, st, in)
		}
	}
}

func (e *Exec) panics(st *State, pos token.Pos, what string) {
	if e.onAbort != nil {
		e.onAbort(st)
		return
	}
	if e.spec.Opts["nopanic"] {
		e.oblige(st, "panic", what, nil, tFalse, e.pos(pos))
	}
	e.mayAbort(st, pos, what, tTrue)
}

// mayAbort: the execution ends here when c holds; a contract with aborts clauses says when it may.
func (e *Exec) mayAbort(st *State, pos token.Pos, what string, c *T) {
	if e.onAbort != nil {
		s2 := st.clone()
		s2.assume(c)
		e.onAbort(s2)
		return
	}
	if len(e.spec.Aborts) == 0 || e.oldEnv == nil {
		return
	}
	var ok []*T
	var props []string
	for _, cl := range e.spec.Aborts {
		ok = append(ok, e.v.evalClause(cl, e.oldEnv))
		props = append(props, e.props(cl)...)
	}
	e.oblige(st, "aborts", what, props, implies(c, or(ok...)), e.pos(pos))
}

func (e *Exec) runDefers(fr *Frame, st *State, ds []*ssa.Defer, k func(*Frame, *State)) {
	if len(ds) == 0 {
		k(fr, st)
		return
	}
	d := ds[len(ds)-1]
	e.call(fr, st, &d.Call, nil, d.Pos(), func(st2 *State, _ Val) {
		e.runDefers(fr.clone(), st2, ds[:len(ds)-1], k)
	})
}

// ---------------------------------------------------------------- instructions

func (e *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		el := fr.ty(deref(x.Type()))
		if treeLike(el) {
			sortOf(types.NewPointer(el))
			ti := treeInfo[sortOf(types.NewPointer(el))]
			id := e.newID()
			c := TreeC{ti: ti, origin: "local"}
			for i := 0; i < ti.St.NumFields(); i++ {
				c.mat = append(c.mat, zeroTerm(ti.St.Field(i).Type()))
			}
			st.trees[id] = c
			fr.regs[x] = TreeV{id}
			return
		}
		id := e.newID()
		if e.cellTy == nil {
			e.cellTy = map[int]types.Type{}
		}
		e.cellTy[id] = el
		st.cells[id] = e.zeroVal(st, el)
		fr.regs[x] = PtrV{cell: id}
	case *ssa.Store:
		p := e.get(fr, st, x.Addr)
		e.store(fr, st, p, e.get(fr, st, x.Val), fr.ty(x.Val.Type()), x.Pos())
	case *ssa.UnOp:
		fr.regs[x] = e.unop(fr, st, x)
	case *ssa.BinOp:
		fr.regs[x] = e.binop(fr, st, x)
	case *ssa.FieldAddr:
		p := e.get(fr, st, x.X)
		switch y := p.(type) {
		case PtrV:
			fr.regs[x] = PtrV{y.cell, append(append([]int{}, y.path...), x.Field)}
		case GlobPtr:
			fr.regs[x] = GlobPtr{y.g, append(append([]int{}, y.path...), x.Field)}
		case ElemPtr:
			fr.regs[x] = ElemPtr{y.slice, y.idx, append(append([]int{}, y.path...), x.Field), y.ety}
		case TreeV:
			c := st.trees[y.id]
			if c.mat == nil {
				e.safety(st, "nil dereference", testApp(c.ti.Node, c.term), x.Pos())
				st.assume(testApp(c.ti.Node, c.term))
				for i := 0; i < c.ti.St.NumFields(); i++ {
					ft := c.ti.St.Field(i).Type()
					f := selApp(c.ti.Node, i, c.term)
					if _, ok := treeInfo[f.Sort]; ok && sortOf(ft) == f.Sort {
						h := e.newTree(st, f, treeInfo[f.Sort], c.origin)
						if c.status != 0 {
							e.setTree(st, h, c.status)
						}
						c.mat = append(c.mat, h)
					} else {
						c.mat = append(c.mat, f)
					}
				}
				st.trees[y.id] = c
			}
			fr.regs[x] = TreeFieldPtr{id: y.id, field: x.Field, ti: c.ti}
		case *T:
			if ti, ok := treeInfo[y.Sort]; ok {
				e.safety(st, "nil dereference", testApp(ti.Node, y), x.Pos())
				st.assume(testApp(ti.Node, y))
				fr.regs[x] = TreeFieldPtr{term: y, field: x.Field, ti: ti}
				return
			}
			fr.regs[x] = BadPtr{"a field of an untracked pointer"}
			if pt := deref(fr.ty(x.X.Type())); pt != nil {
				// opaque reference: fields read as unknown values
				fr.regs[x] = mk("nil_Ref", "Ref")
				W.constant("nil_Ref", W.sort("Ref"))
			}
		case BadPtr:
			fr.regs[x] = y
		default:
			e.unsupported(st, x.Pos(), "field address of %T", p)
		}
	case *ssa.Field:
		v := e.get(fr, st, x.X)
		fr.regs[x] = e.fieldOf(st, v, x.Field)
	case *ssa.IndexAddr:
		p := e.get(fr, st, x.X)
		i := e.getT(fr, st, x.Index)
		switch y := p.(type) {
		case PtrV: // pointer to array
			n, ok := isInt(i)
			if !ok {
				e.unsupported(st, x.Pos(), "array indexed by a variable")
			}
			fr.regs[x] = PtrV{y.cell, append(append([]int{}, y.path...), int(n))}
		case SliceV, *T:
			s := e.seqTerm(st, y)
			if _, ok := seqElems[s.Sort]; !ok {
				e.unsupported(st, x.Pos(), "index into %s", s.Sort)
			}
			g := and(cmp("<=", intT(0), i), cmp("<", i, seqLen(s)))
			e.safety(st, "index in range", g, x.Pos())
			st.assume(g)
			var ety types.Type
			switch u := fr.ty(x.X.Type()).Underlying().(type) {
			case *types.Slice:
				ety = u.Elem()
			case *types.Pointer:
				ety = u.Elem().Underlying().(*types.Array).Elem()
			}
			fr.regs[x] = ElemPtr{slice: y, idx: i, ety: ety}
		case GlobPtr:
			v := e.global(st, y.g, x.Pos())
			fr.regs[x] = ElemPtr{slice: e.peek(st, v, nil), idx: i, ety: deref(fr.ty(x.Type()))}
		default:
			e.unsupported(st, x.Pos(), "index address of %T", p)
		}
	case *ssa.Index:
		v := e.get(fr, st, x.X)
		i := e.getT(fr, st, x.Index)
		if a, ok := v.(*ArrV); ok {
			if n, ok := isInt(i); ok {
				fr.regs[x] = a.e[n]
				return
			}
		}
		s := e.peek(st, v, fr.ty(x.X.Type()))
		if s.Sort == "Str" {
			W.fun("str_at", []string{"Str", "Int"}, "Int")
			W.fun("str_len", []string{"Str"}, "Int")
			g := and(cmp("<=", intT(0), i), cmp("<", i, W.app("str_len", s)))
			e.safety(st, "string index in range", g, x.Pos())
			st.assume(g)
			fr.regs[x] = W.app("str_at", s, i)
			return
		}
		g := and(cmp("<=", intT(0), i), cmp("<", i, seqLen(s)))
		e.safety(st, "index in range", g, x.Pos())
		st.assume(g)
		fr.regs[x] = seqAt(s, i)
	case *ssa.Lookup:
		e.lookup(fr, st, x)
	case *ssa.MakeMap:
		id := e.newID()
		st.cells[id] = W.app("emp_" + sortOf(fr.ty(x.Type())))
		if e.cellTy == nil {
			e.cellTy = map[int]types.Type{}
		}
		e.cellTy[id] = fr.ty(x.Type())
		fr.regs[x] = MapV{id}
	case *ssa.MapUpdate:
		e.mapUpdate(fr, st, x)
	case *ssa.MakeSlice:
		n := e.getT(fr, st, x.Len)
		ty := fr.ty(x.Type())
		so := sortOf(ty)
		el := ty.Underlying().(*types.Slice).Elem()
		if k, ok := isInt(n); ok && k <= 8 {
			s := seqEmp(so)
			for j := int64(0); j < k; j++ {
				s = seqApp(s, zeroTerm(el))
			}
			fr.regs[x] = e.newBack(st, s, el)
			return
		}
		e.safety(st, "make with a non-negative length", cmp("<=", intT(0), n), x.Pos())
		st.assume(cmp("<=", intT(0), n))
		s := W.freshConst("made", so)
		st.assume(eq(seqLen(s), n))
		bv, i := W.freshBV("i", "Int")
		st.assume(forall([]BV{bv}, implies(and(cmp("<=", intT(0), i), cmp("<", i, n)), eq(seqAt(s, i), zeroTerm(el))), []*T{seqAt(s, i)}))
		fr.regs[x] = e.newBack(st, s, el)
	case *ssa.Slice:
		e.sliceOp(fr, st, x)
	case *ssa.MakeInterface:
		v := e.get(fr, st, x.X)
		ty := fr.ty(x.X.Type())
		if _, ok := types.Unalias(ty).(*types.TypeParam); ok {
			fr.regs[x] = boxT(ty, e.freeze(st, v, ty))
			return
		}
		if sortOf(ty) == "Iface" {
			fr.regs[x] = e.peek(st, v, ty)
			return
		}
		bx := e.freeze(st, v, ty)
		e.checkBoxed(st, bx, ty, x.Pos())
		fr.regs[x] = boxT(ty, bx)
	case *ssa.ChangeInterface:
		fr.regs[x] = e.get(fr, st, x.X)
	case *ssa.ChangeType:
		v := e.get(fr, st, x.X)
		from, to := fr.ty(x.X.Type()), fr.ty(x.Type())
		if sortOf(to) == "Iface" && sortOf(from) != "Iface" {
			// any(x) for x of a type parameter
			bx := e.freeze(st, v, from)
			if _, ok := types.Unalias(from).(*types.TypeParam); !ok {
				e.checkBoxed(st, bx, from, x.Pos())
			}
			fr.regs[x] = boxT(from, bx)
			return
		}
		if t, ok := v.(*T); ok && sortOf(from) != sortOf(to) {
			// struct conversion
			sf, st2 := structInfo[sortOf(from)], structInfo[sortOf(to)]
			if sf != nil && st2 != nil {
				var as []*T
				for i := range sf.C.Fields {
					as = append(as, selApp(sf.C, i, t))
				}
				fr.regs[x] = ctorApp(st2.Data, st2.C, as...)
				return
			}
		}
		if s, ok := v.(*StructV); ok {
			v = &StructV{typ: to, f: s.f}
		}
		fr.regs[x] = v
	case *ssa.Convert:
		fr.regs[x] = e.convert(fr, st, x)
	case *ssa.MultiConvert:
		so := sortOf(fr.ty(x.Type()))
		fr.regs[x] = W.freshConst("conv", so)
	case *ssa.Extract:
		tv := e.get(fr, st, x.Tuple)
		fr.regs[x] = tv.(TupleV)[x.Index]
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function), sub: fr.sub, chain: fr.chain}
		for _, b := range x.Bindings {
			fv.binds = append(fv.binds, e.get(fr, st, b))
		}
		fr.regs[x] = fv
	case *ssa.Range:
		mt, _ := fr.ty(x.X.Type()).Underlying().(*types.Map)
		fr.regs[x] = IterV{e.get(fr, st, x.X), mt}
	case *ssa.Next:
		it := e.get(fr, st, x.Iter).(IterV)
		ok := W.freshConst("more", "Bool")
		if it.mt != nil {
			m := e.mapTerm(st, it.m)
			kt := W.freshConst("mk", sortOf(it.mt.Key()))
			st.assume(implies(ok, W.app("dom_"+m.Sort, m, kt)))
			vt := W.app("get_"+m.Sort, m, kt)
			fr.regs[x] = TupleV{ok, kt, vt}
		} else {
			tt := x.Type().(*types.Tuple)
			fr.regs[x] = TupleV{ok, W.freshConst("ri", "Int"), W.freshConst("rr", sortOf(tt.At(2).Type()))}
		}
	case *ssa.MakeChan:
		fr.regs[x] = W.freshConst("chan", W.sort("Opq"))
	default:
		pos := in.Pos()
		e.unsupported(st, pos, "instruction %T", in)
	}
}

func (e *Exec) safety(st *State, what string, g *T, pos token.Pos) {
	if e.spec.Opts["panics"] {
		e.note("run-time panics are assumed not to happen in %s", e.name)
		return
	}
	e.oblige(st, "safety", what, nil, g, e.pos(pos))
}

func (e *Exec) mapTerm(st *State, v Val) *T {
	switch x := v.(type) {
	case MapV:
		return st.cells[x.cell].(*T)
	case *T:
		return x
	case GlobMap:
		return e.peek(st, e.global(st, x.g, token.NoPos), nil)
	}
	panic(fmt.Sprintf("mapTerm %T", v))
}

// GlobMap is the value read from a package-level map variable: writes go to the variable.
type GlobMap struct{ g *ssa.Global }

func (e *Exec) lookup(fr *Frame, st *State, x *ssa.Lookup) {
	v := e.get(fr, st, x.X)
	mt, ok := fr.ty(x.X.Type()).Underlying().(*types.Map)
	if !ok {
		s := e.peek(st, v, fr.ty(x.X.Type()))
		i := e.getT(fr, st, x.Index)
		W.fun("str_at", []string{"Str", "Int"}, "Int")
		fr.regs[x] = W.app("str_at", s, i)
		return
	}
	m := e.mapTerm(st, v)
	k := e.freezeKey(st, e.get(fr, st, x.Index), mt.Key())
	dom := W.app("dom_"+m.Sort, m, k)
	val := ite(dom, W.app("get_"+m.Sort, m, k), zeroTerm(mt.Elem()))
	switch st.decide(dom) {
	case 1:
		val = W.app("get_"+m.Sort, m, k)
	case 0:
		val = zeroTerm(mt.Elem())
	}
	if x.CommaOk {
		fr.regs[x] = TupleV{val, dom}
	} else {
		fr.regs[x] = val
	}
}

func (e *Exec) freezeKey(st *State, v Val, t types.Type) *T {
	if tv, ok := v.(*T); ok {
		return tv
	}
	return e.freeze(st, v, t)
}

func (e *Exec) mapUpdate(fr *Frame, st *State, x *ssa.MapUpdate) {
	mt := fr.ty(x.Map.Type()).Underlying().(*types.Map)
	k := e.freezeKey(st, e.get(fr, st, x.Key), mt.Key())
	val := e.freeze(st, e.get(fr, st, x.Value), mt.Elem())
	e.setMap(fr, st, e.get(fr, st, x.Map), x.Pos(), func(m *T) *T { return W.app("put_"+m.Sort, m, k, val) })
}

func (e *Exec) setMap(fr *Frame, st *State, v Val, pos token.Pos, f func(*T) *T) {
	switch y := v.(type) {
	case MapV:
		if n, ok := e.pcells[y.cell]; ok && !e.modifies(n) {
			e.oblige(st, "frame", "writes map "+n+", which the contract does not allow", nil, tFalse, e.pos(pos))
		}
		st.cells[y.cell] = f(st.cells[y.cell].(*T))
	case GlobMap:
		e.checkGlobalWrite(st, y.g, pos)
		cur := e.peek(st, e.global(st, y.g, pos), nil)
		st.globals[y.g] = f(cur)
	default:
		e.oblige(st, "ownership", "writes a map that others can reach", nil, tFalse, e.pos(pos))
	}
}

func (e *Exec) unop(fr *Frame, st *State, x *ssa.UnOp) Val {
	switch x.Op {
	case token.MUL:
		p := e.get(fr, st, x.X)
		if g, ok := p.(GlobPtr); ok && len(g.path) == 0 {
			if _, isMap := fr.ty(x.Type()).Underlying().(*types.Map); isMap {
				e.global(st, g.g, x.Pos()) // lock check
				return GlobMap{g.g}
			}
		}
		return e.load(fr, st, p, fr.ty(x.Type()), x.Pos())
	case token.NOT:
		return not(e.getT(fr, st, x.X))
	case token.SUB:
		t := e.getT(fr, st, x.X)
		if n, ok := isInt(t); ok {
			return intT(-n)
		}
		return mk("-", t.Sort, t)
	case token.ARROW:
		if e.spec.Opts["ignorego"] {
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				return TupleV{W.freshConst("recv", sortOf(fr.ty(tt.At(0).Type()))), W.freshConst("ok", "Bool")}
			}
			return W.freshConst("recv", sortOf(fr.ty(x.Type())))
		}
	}
	if x.Op == token.XOR {
		return W.freshConst("xor", "Int")
	}
	e.unsupported(st, x.Pos(), "unary operator %s", x.Op)
	return nil
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (e *Exec) nilTest(st *State, v Val, ty types.Type) *T {
	switch x := v.(type) {
	case TreeV:
		c := st.trees[x.id]
		if c.mat != nil {
			return tFalse
		}
		return testApp(c.ti.Nil, c.term)
	case PtrV, ElemPtr, TreeFieldPtr, GlobPtr, *FuncV, MapV:
		return tFalse
	case SliceV:
		s := st.backs[x.id].seq
		return e.seqNil(st, s)
	case GlobMap:
		return W.freshConst("isnilmap", "Bool")
	case *T:
		if ti, ok := treeInfo[x.Sort]; ok {
			return testApp(ti.Nil, x)
		}
		if _, ok := seqElems[x.Sort]; ok {
			return e.seqNil(st, x)
		}
		if _, ok := mapSorts[x.Sort]; ok {
			f := W.fun("isnil_"+x.Sort, []string{x.Sort}, "Bool")
			return W.app(f, x)
		}
		if x.Sort == "Iface" {
			return eq(x, nilIface())
		}
		if x.Sort == "Opq" {
			f := W.fun("isnil_Opq", []string{"Opq"}, "Bool")
			return W.app(f, x)
		}
		return eq(x, zeroTerm(ty))
	}
	return W.freshConst("isnil", "Bool")
}

// nilSeqs: the sequences that are the constant nil
var nilSeqs = map[*T]bool{}

func (e *Exec) seqNil(st *State, s *T) *T {
	if nilSeqs[s] {
		return tTrue
	}
	if n, ok := isInt(seqLen(s)); ok && n > 0 {
		return tFalse
	}
	f := W.fun("isnil_"+s.Sort, []string{s.Sort}, "Bool")
	W.axiom("isnil."+s.Sort, forall([]BV{{"s", s.Sort}}, implies(mk(f, "Bool", mk("s", s.Sort)), eq(W.app("len_"+s.Sort, mk("s", s.Sort)), intT(0))), []*T{mk(f, "Bool", mk("s", s.Sort))}), f)
	return W.app(f, s)
}

func (e *Exec) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	if x.Op == token.EQL || x.Op == token.NEQ {
		var r *T
		switch {
		case isNilConst(x.Y):
			r = e.nilTest(st, e.get(fr, st, x.X), fr.ty(x.X.Type()))
		case isNilConst(x.X):
			r = e.nilTest(st, e.get(fr, st, x.Y), fr.ty(x.Y.Type()))
		default:
			va, vb := e.get(fr, st, x.X), e.get(fr, st, x.Y)
			if pa, ok := va.(PtrV); ok {
				if pb, ok := vb.(PtrV); ok {
					if pa.cell == pb.cell && fmt.Sprint(pa.path) == fmt.Sprint(pb.path) {
						r = tTrue
					} else {
						r = tFalse
					}
					break
				}
			}
			if sortOf(fr.ty(x.X.Type())) == "Ref" || sortOf(fr.ty(x.Y.Type())) == "Ref" {
				r = W.freshConst("refeq", "Bool")
				break
			}
			a, b := e.peek(st, va, fr.ty(x.X.Type())), e.peek(st, vb, fr.ty(x.Y.Type()))
			if a.Sort != b.Sort {
				if a.Sort == "Iface" {
					b = boxT(fr.ty(x.Y.Type()), b)
				} else if b.Sort == "Iface" {
					a = boxT(fr.ty(x.X.Type()), a)
				}
			}
			r = eq(a, b)
		}
		if x.Op == token.NEQ {
			r = not(r)
		}
		return r
	}
	a, b := e.getT(fr, st, x.X), e.getT(fr, st, x.Y)
	switch x.Op {
	case token.ADD:
		if a.Sort == "Str" {
			return strCat(a, b)
		}
		return add(a, b)
	case token.SUB:
		return sub(a, b)
	case token.MUL:
		if n, ok := isInt(a); ok {
			if m, ok := isInt(b); ok {
				return intT(n * m)
			}
		}
		return mk("*", a.Sort, a, b)
	case token.QUO:
		if a.Sort == "Real" {
			return mk("/", "Real", a, b)
		}
		e.safety(st, "division by zero", not(eq(b, intT(0))), x.Pos())
		st.assume(not(eq(b, intT(0))))
		return ite(cmp(">=", a, intT(0)), mk("div", "Int", a, b), mk("-", "Int", mk("div", "Int", mk("-", "Int", a), b)))
	case token.REM:
		e.safety(st, "division by zero", not(eq(b, intT(0))), x.Pos())
		st.assume(not(eq(b, intT(0))))
		q := ite(cmp(">=", a, intT(0)), mk("div", "Int", a, b), mk("-", "Int", mk("div", "Int", mk("-", "Int", a), b)))
		return sub(a, mk("*", "Int", b, q))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.Sort == "Str" {
			a, b = strKey(a), strKey(b)
		}
		return cmp(x.Op.String(), a, b)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		f := W.fun("bit_"+sanitize(fmt.Sprintf("%d", x.Op)), []string{"Int", "Int"}, "Int")
		return W.app(f, a, b)
	}
	e.unsupported(st, x.Pos(), "operator %s", x.Op)
	return nil
}

func (e *Exec) convert(fr *Frame, st *State, x *ssa.Convert) Val {
	v := e.get(fr, st, x.X)
	from, to := fr.ty(x.X.Type()), fr.ty(x.Type())
	a, b := sortOf(from), sortOf(to)
	if a == b && a != "Opq" {
		return v
	}
	t := e.peek(st, v, from)
	if a == "Int" && b == "Real" {
		if n, ok := isInt(t); ok {
			return SVreal(n)
		}
		return mk("to_real", "Real", t)
	}
	if a == "Real" && b == "Int" {
		return mk("to_int", "Int", t)
	}
	f := W.fun("conv_"+sanitize(a)+"_"+sanitize(b), []string{a}, b)
	r := W.app(f, t)
	if _, ok := seqElems[b]; ok {
		return e.newBack(st, r, to.Underlying().(*types.Slice).Elem())
	}
	return r
}

func (e *Exec) sliceOp(fr *Frame, st *State, x *ssa.Slice) {
	v := e.get(fr, st, x.X)
	var lo, hi *T
	if x.Low != nil {
		lo = e.getT(fr, st, x.Low)
	} else {
		lo = intT(0)
	}
	if x.High != nil {
		hi = e.getT(fr, st, x.High)
	}
	switch y := v.(type) {
	case PtrV: // array
		a, ok := e.loadCell(st, y).(*ArrV)
		if !ok {
			e.unsupported(st, x.Pos(), "slice of %T", e.loadCell(st, y))
		}
		s := seqEmp(seqSort(a.typ))
		for _, el := range a.e {
			s = seqApp(s, e.freeze(st, el, a.typ))
		}
		if x.Low != nil || x.High != nil {
			if hi == nil {
				hi = seqLen(s)
			}
			s = e.subSeq(st, s, lo, hi, x.Pos())
		}
		fr.regs[x] = e.newBack(st, s, a.typ)
		return
	}
	ty := fr.ty(x.X.Type())
	s := e.peek(st, v, ty)
	if s.Sort == "Str" {
		W.fun("str_sub", []string{"Str", "Int", "Int"}, "Str")
		W.fun("str_len", []string{"Str"}, "Int")
		if hi == nil {
			hi = W.app("str_len", s)
		}
		fr.regs[x] = W.app("str_sub", s, lo, hi)
		return
	}
	if hi == nil {
		hi = seqLen(s)
	}
	if n, ok := isInt(lo); ok && n == 0 && hi.K == seqLen(s).K {
		fr.regs[x] = v
		return
	}
	if sv, ok := v.(SliceV); ok {
		// a proper sub-slice shares the array: only the newest view may be written
		b := st.backs[sv.id]
		n, zero := isInt(lo)
		if zero && n == 0 && b.canWrite && b.ext == 0 {
			r := e.newBack(st, e.subSeq(st, s, lo, hi, x.Pos()), b.elem)
			nb := st.backs[r.id]
			nb.parent, nb.sub, nb.canApp = sv.id, true, b.canApp
			st.backs[r.id] = nb
			b.ext, b.canWrite, b.canApp = r.id, false, false
			b.why = "(a sub-slice shares its array)"
			st.backs[sv.id] = b
			fr.regs[x] = r
			return
		}
		b.canWrite, b.canApp = false, false
		b.why = "(a sub-slice shares its array)"
		st.backs[sv.id] = b
		e.freezeExt(st, sv.id)
	}
	fr.regs[x] = e.subSeq(st, s, lo, hi, x.Pos())
}

func (e *Exec) subSeq(st *State, s, lo, hi *T, pos token.Pos) *T {
	g := and(cmp("<=", intT(0), lo), cmp("<=", lo, hi), cmp("<=", hi, seqLen(s)))
	e.note("slice expressions are taken within the length (not the capacity) of their operand")
	e.safety(st, "slice bounds", g, pos)
	st.assume(g)
	return seqSub(s, lo, hi)
}

// typeAssert returns true when it continued the path itself.
func (e *Exec) typeAssert(fr *Frame, st *State, b *ssa.BasicBlock, i int, x *ssa.TypeAssert) bool {
	v := e.peek(st, e.get(fr, st, x.X), fr.ty(x.X.Type()))
	ty := types.Unalias(fr.ty(x.AssertedType))
	if _, isTP := ty.(*types.TypeParam); !isTP {
		if _, ok := ty.Underlying().(*types.Interface); ok {
			test := e.implTest(st, v, ty)
			if !x.CommaOk {
				e.safety(st, "type assertion to "+shortType(ty), test, x.Pos())
				st.assume(test)
				fr.regs[x] = v
				return false
			}
			fr.regs[x] = TupleV{ite(test, v, nilIface()), test}
			switch st.decide(test) {
			case 1:
				fr.regs[x] = TupleV{v, tTrue}
			case 0:
				fr.regs[x] = TupleV{nilIface(), tFalse}
			default:
				fr2, st2 := fr.clone(), st.clone()
				st.assume(test)
				fr.regs[x] = TupleV{v, tTrue}
				e.guard(func() { e.run(fr, st, b, i+1) })
				st2.assume(not(test))
				fr2.regs[x] = TupleV{nilIface(), tFalse}
				e.guard(func() { e.run(fr2, st2, b, i+1) })
				return true
			}
			return false
		}
	}
	c := boxCtor(ty)
	test := testApp(c, v)
	var payload *T
	if v.Op == c.Name {
		payload = v.Args[0]
	} else {
		payload = selApp(c, 0, v)
	}
	if !x.CommaOk {
		e.safety(st, "type assertion to "+shortType(ty), test, x.Pos())
		st.assume(test)
		e.typeInv(st, payload, ty)
		fr.regs[x] = payload
		return false
	}
	switch st.decide(test) {
	case 1:
		e.typeInv(st, payload, ty)
		fr.regs[x] = TupleV{payload, tTrue}
		return false
	case 0:
		fr.regs[x] = TupleV{e.zeroVal(st, ty), tFalse}
		return false
	}
	fr2, st2 := fr.clone(), st.clone()
	st.assume(test)
	e.typeInv(st, payload, ty)
	fr.regs[x] = TupleV{payload, tTrue}
	e.guard(func() { e.run(fr, st, b, i+1) })
	st2.assume(not(test))
	fr2.regs[x] = TupleV{e.zeroVal(st2, ty), tFalse}
	e.guard(func() { e.run(fr2, st2, b, i+1) })
	return true
}

func (e *Exec) implTest(st *State, v *T, ty types.Type) *T {
	if v.Sort != "Iface" {
		return tTrue
	}
	it := ty.Underlying().(*types.Interface)
	if c := st.ctor(v); c != "" && c != "other_iface" {
		if c == "nil_iface" {
			return tFalse
		}
		if t := boxType[c]; t != nil {
			if types.Implements(t, it) {
				return tTrue
			}
			return tFalse
		}
	}
	return W.app(e.v.implPred(ty), v)
}

// ---------------------------------------------------------------- loops

type LoopCtx struct {
	back func(*Frame, *State, *ssa.BasicBlock)
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var stack []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !in[p] {
			in[p] = true
			stack = append(stack, p)
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, p := range b.Preds {
			if !in[p] {
				in[p] = true
				stack = append(stack, p)
			}
		}
	}
	return in
}

func blockPos(h *ssa.BasicBlock) token.Pos {
	best := token.NoPos
	for b := range loopBlocks(h) {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

type loopEnt struct {
	key  string
	pos  token.Pos
	subs []loopEnt
}

func (e *Exec) listLoops(fn *ssa.Function, chain string, depth int) []loopEnt {
	var out []loopEnt
	for _, b := range fn.Blocks {
		if isLoopHeader(b) {
			out = append(out, loopEnt{key: fmt.Sprintf("%s|%s.%d", chain, fn.String(), b.Index), pos: blockPos(b)})
		}
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || depth > 3 {
				continue
			}
			callee := c.Common().StaticCallee()
			if callee == nil {
				continue
			}
			if e.v.wouldInline(callee) {
				o := callee
				if o.Origin() != nil {
					o = o.Origin()
				}
				if o.Blocks == nil {
					continue
				}
				out = append(out, loopEnt{pos: in.Pos(), subs: e.listLoops(o, callChain(chain, in.(ssa.Instruction)), depth+1)})
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].pos < out[j].pos })
	return out
}

func callChain(chain string, in ssa.Instruction) string {
	return fmt.Sprintf("%s/%d.%d", chain, in.Block().Index, instrIndex(in))
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (e *Exec) numberLoops(fn *ssa.Function) {
	e.loopNum = map[string]int{}
	n := 0
	var walk func([]loopEnt)
	walk = func(es []loopEnt) {
		for _, x := range es {
			if x.key != "" {
				n++
				e.loopNum[x.key] = n
			}
			walk(x.subs)
		}
	}
	walk(e.listLoops(fn, "", 0))
}

// counter describes a loop phi that only ever grows by one.
type counter struct {
	phi   *ssa.Phi
	init  int64
	bound ssa.Value // X < bound test in the header
	next  bool      // the test is on phi+1 (range loops)
}

func (e *Exec) loopEntry(fr *Frame, st *State, from, h *ssa.BasicBlock) {
	key := fmt.Sprintf("%s|%s.%d", fr.chain, fr.fn.String(), h.Index)
	n := e.loopNum[key]
	var ls *LoopSpec
	if fs := e.v.specOf(fr.fn); fs != nil && fr.fn != e.v.rootFn(e) && len(fs.Loops) > 0 {
		// an inlined function with its own loop contracts
		ls = fs.Loops[e.v.ownLoopNum(fr.fn, h)]
		n = 1000 + e.v.ownLoopNum(fr.fn, h)
	} else {
		ls = e.spec.Loops[n]
	}
	if ls == nil {
		ls = &LoopSpec{}
	}
	label := fmt.Sprintf("loop%d", n)
	blocks := loopBlocks(h)

	frE := fr.clone()
	e.phis(frE, st, from, h)
	entrySt := st

	// counters
	var ctrs []counter
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		c := counter{phi: ph}
		good := true
		for i, p := range h.Preds {
			if h.Dominates(p) {
				bo, ok := ph.Edges[i].(*ssa.BinOp)
				if !ok || bo.Op != token.ADD || bo.X != ph {
					good = false
					break
				}
				k, ok := bo.Y.(*ssa.Const)
				if !ok || k.Value == nil || k.Int64() != 1 {
					good = false
					break
				}
			} else if k, ok := ph.Edges[i].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
				c.init = k.Int64()
			} else {
				good = false
			}
		}
		if !good {
			continue
		}
		if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok && blocks[h.Succs[0]] {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Op == token.LSS {
				if bo.X == ph {
					c.bound = bo.Y
				} else if a, ok := bo.X.(*ssa.BinOp); ok && a.Op == token.ADD && a.X == ph {
					c.bound, c.next = bo.Y, true
				}
			}
		}
		ctrs = append(ctrs, c)
	}

	invEnv := func(f *Frame, s *State) *Env {
		env := e.specEnv(s)
		env.vars["_entry"] = SV{tTrue, tyBool}
		env.dyn = func(nm string) (SV, bool) {
			switch nm {
			case "_k":
				for _, c := range ctrs {
					if c.next || c.bound != nil {
						t := e.getT(f, s, c.phi)
						return SV{add(t, intT(-c.init)), tyInt}, true
					}
				}
				for _, c := range ctrs {
					return SV{add(e.getT(f, s, c.phi), intT(-c.init)), tyInt}, true
				}
			case "_xs":
				if x := rangedSlice(h, blocks); x != nil {
					return SV{e.peekQuiet(f, s, x), f.ty(x.Type())}, true
				}
			}
			if strings.HasPrefix(nm, "_acc") {
				ph := accPhi(h, ctrs)
				if ph != nil {
					return SV{e.peekQuiet(f, s, ph), f.ty(ph.Type())}, true
				}
			}
			return e.localVar(f, s, h, nm)
		}
		// parameters that the body reassigns denote their current value
		env = env.child()
		env.dyn = func(nm string) (SV, bool) {
			if val, ok := e.params[nm]; ok {
				switch val.(type) {
				case PtrV, MapV:
					return SV{}, false
				}
				if e.reassigned(f.fn, nm) {
					return e.localVar(f, s, h, nm)
				}
			}
			return SV{}, false
		}
		if e.oldEnv != nil {
			o := &Env{up: e.oldEnv, vars: map[string]SV{}, types: e.oldEnv.types}
			o.dyn = func(nm string) (SV, bool) { return e.localVar(frE, entrySt0(entrySt), h, nm) }
			env.old = o
		}
		return env
	}
	snapshot := st.clone()
	_ = snapshot
	entrySt = snapshot

	// 1. invariants hold on entry
	for _, c := range ls.Invs {
		t := e.v.evalClause(c, invEnv(frE, st))
		e.oblige(st, label+".init", c.Label, e.props(c), t, fmt.Sprintf("%s:%d", c.File, c.Line))
	}
	// 2. find what the body modifies
	mod := map[string]bool{}
	noNil := func(f *Frame, s *State) {
		at := e.noNilInv(frE, snapshot, h, snapshot, mod)
		for k, fs := range e.noNilInv(f, s, h, snapshot, mod) {
			if knownAll(snapshot, at[k]) {
				for _, x := range fs {
					s.assume(x)
				}
			}
		}
	}
	ownStat := map[ssa.Value]int{} // phi ownership: 0 as entry
	havoc := func() (*Frame, *State) {
		s := snapshot.clone()
		f := frE.clone()
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ty := f.ty(ph.Type())
			f.regs[ph] = e.havocVal(s, f.regs[ph], ty, ph.Name()+"_"+ph.Comment, ownStat[ph])
		}
		for _, id := range sortedInts(snapshot.cells) {
			if mod[fmt.Sprintf("c%d", id)] {
				s.cells[id] = e.havocCell(s, snapshot.cells[id])
			}
		}
		for _, id := range sortedInts(snapshot.backs) {
			if mod[fmt.Sprintf("b%d", id)] {
				b := s.backs[id]
				n := seqLen(b.seq)
				b.seq = W.freshConst("hv", b.seq.Sort)
				s.assume(eq(seqLen(b.seq), n)) // element writes keep the length
				s.backs[id] = b
			}
			if mod[fmt.Sprintf("bw%d", id)] {
				b := s.backs[id]
				b.canWrite, b.canApp = false, false
				s.backs[id] = b
			}
		}
		for _, id := range sortedInts(snapshot.trees) {
			if mod[fmt.Sprintf("t%d", id)] {
				c := s.trees[id]
				if c.mat != nil && !mod[fmt.Sprintf("tm%d", id)] {
					// the node stays; its fields change
					m := append([]Val{}, c.mat...)
					for i := range m {
						ft := c.ti.St.Field(i).Type()
						if _, ok := m[i].(TreeV); ok || sortOf(ft) == c.ti.Data.Sort {
							m[i] = e.newTree(s, W.freshConst("hvt", c.ti.Data.Sort), c.ti, "loop")
						} else {
							m[i] = W.freshConst("hvf", sortOf(ft))
						}
					}
					c.mat = m
				}
				if mod[fmt.Sprintf("ts%d", id)] {
					c.status = 2
				}
				s.trees[id] = c
			}
		}
		for g := range e.v.allGlobals {
			if mod["g"+g.String()] {
				s.globals[g] = W.freshConst("hvg", sortOf(deref(g.Type())))
			}
		}
		for _, c := range ctrs {
			t := e.getT(f, s, c.phi)
			s.assume(cmp(">=", t, intT(c.init)))
		}
		return f, s
	}
	boundFacts := func(f *Frame, s *State) {
		for _, c := range ctrs {
			if c.bound == nil || c.init > 0 {
				continue
			}
			bt := e.boundTerm(f, s, c.bound, blocks)
			if bt == nil {
				continue
			}
			t := e.getT(f, s, c.phi)
			if c.next {
				s.assume(cmp("<", t, ite(cmp(">", bt, intT(0)), bt, intT(0))))
			} else {
				s.assume(cmp("<=", t, ite(cmp(">", bt, intT(0)), bt, intT(0))))
			}
		}
	}
	for iter := 0; iter < 12; iter++ {
		f, s := havoc()
		base := s.clone()
		changed := false
		e.muted++
		savedStop := fr.stop
		f.loops[h] = &LoopCtx{back: func(f2 *Frame, s2 *State, fromB *ssa.BasicBlock) {
			idx := -1
			for i, p := range h.Preds {
				if p == fromB {
					idx = i
				}
			}
			for _, in := range h.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				nv := e.get(f2, s2, ph.Edges[idx])
				if o := e.ownership(s2, nv); o > ownStat[ph] && o > e.ownership(base, f.regs[ph]) {
					ownStat[ph] = o
					changed = true
				}
			}
			if e.diffState(base, s2, snapshot, mod) {
				changed = true
			}
		}}
		f.stop = func(f2 *Frame, s2 *State, fb, tb *ssa.BasicBlock) bool {
			if f2.fn == fr.fn && f2.depth == fr.depth && !blocks[tb] {
				return true
			}
			if savedStop != nil {
				return savedStop(f2, s2, fb, tb)
			}
			return false
		}
		f.ret = func(*State, []Val) {}
		for _, c := range ls.Invs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(SpecErr); ok {
							return
						}
						panic(r)
					}
				}()
				s.assume(e.v.evalClause(c, invEnv(f, s)))
			}()
		}
		boundFacts(f, s)
		noNil(f, s)
		e.guard(func() { e.run(f, s, h, 0) })
		e.muted--
		if !changed {
			break
		}
		if iter == 11 {
			e.unsupported(st, blockPos(h), "loop modification analysis did not converge")
		}
	}
	// 3. one arbitrary iteration
	f, s := havoc()
	f.stop = fr.stop
	f.ret = fr.ret
	boundFacts(f, s)
	noNil(f, s)
	for _, c := range ls.Invs {
		s.assume(e.v.evalClause(c, invEnv(f, s)))
	}
	outer := fr.loops[h]
	f.loops[h] = &LoopCtx{back: func(f2 *Frame, s2 *State, fromB *ssa.BasicBlock) {
		f3 := f2.clone()
		e.phis(f3, s2, fromB, h)
		at := e.noNilInv(frE, snapshot, h, snapshot, mod)
		now := e.noNilInv(f3, s2, h, snapshot, mod)
		for _, k := range sortedKeys(now) {
			if knownAll(snapshot, at[k]) {
				for _, x := range now[k] {
					if x.Op != "true" && s2.decide(x) != 1 {
						e.oblige(s2, label+".preserve", "no nil in what the loop builds", nil, x, e.pos(blockPos(h)))
						s2.assume(x)
					}
				}
			}
		}
		for _, c := range ls.Invs {
			t := e.v.evalClause(c, invEnv(f3, s2))
			e.oblige(s2, label+".preserve", c.Label, e.props(c), t, fmt.Sprintf("%s:%d", c.File, c.Line))
		}
	}}
	_ = outer
	e.run(f, s, h, 0)
}

// noNilInv: the facts "holds no nil" of the values a loop changes; the loop keeps those that are
// known on entry (an invariant the verifier adds and checks by itself).
func (e *Exec) noNilInv(f *Frame, s *State, h *ssa.BasicBlock, snap *State, mod map[string]bool) map[string][]*T {
	out := map[string][]*T{}
	if len(e.v.spec.NonNil) == 0 {
		return out
	}
	add := func(k string, v Val, ty types.Type) {
		switch v.(type) {
		case *T, *StructV, SliceV:
		default:
			return
		}
		if !e.v.mayHoldNil(ty, 0) {
			return
		}
		t := e.peek(s, v, ty)
		fs := e.v.nonNilFacts(t, ty, 0)
		if e.v.nonNil(ty) && t.Sort == "Iface" {
			fs = append(fs, not(eq(t, nilIface())))
		}
		out[k] = append([]*T{}, fs...)
	}
	for i, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		add(fmt.Sprintf("p%d", i), f.regs[ph], f.ty(ph.Type()))
	}
	for _, id := range sortedInts(snap.cells) {
		if mod[fmt.Sprintf("c%d", id)] {
			if sv, ok := s.cells[id].(*StructV); ok {
				add(fmt.Sprintf("c%d", id), sv, sv.typ)
			} else if ty := e.cellTy[id]; ty != nil {
				add(fmt.Sprintf("c%d", id), s.cells[id], ty)
			}
		}
	}
	for _, id := range sortedInts(snap.backs) {
		if mod[fmt.Sprintf("b%d", id)] {
			b := s.backs[id]
			add(fmt.Sprintf("b%d", id), b.seq, types.NewSlice(b.elem))
		}
	}
	return out
}

func knownAll(s *State, fs []*T) bool {
	for _, x := range fs {
		if x.Op != "true" && s.decide(x) != 1 {
			return false
		}
	}
	return true
}

// mayHoldNil: values of this type have interface fields or list elements declared non-nil.
func (v *Ver) mayHoldNil(t types.Type, d int) bool {
	if t == nil || d > 4 {
		return false
	}
	if v.nonNil(t) {
		return true
	}
	if opaqueStruct(t) {
		return false
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		return v.mayHoldNil(u.Elem(), d+1)
	case *types.Map:
		return v.mayHoldNil(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if v.mayHoldNil(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func entrySt0(s *State) *State { return s }

func accPhi(h *ssa.BasicBlock, ctrs []counter) *ssa.Phi {
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		isC := false
		for _, c := range ctrs {
			if c.phi == ph {
				isC = true
			}
		}
		if !isC {
			return ph
		}
	}
	return nil
}

func (e *Exec) peekQuiet(f *Frame, s *State, v ssa.Value) *T {
	return e.peek(s, e.get(f, s, v), f.ty(v.Type()))
}

// rangedSlice finds the slice a range loop walks over.
func rangedSlice(h *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) ssa.Value {
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph.Comment != "rangeindex" {
			continue
		}
		if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				if c, ok := bo.Y.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						return c.Call.Args[0]
					}
				}
			}
		}
	}
	return nil
}

// boundTerm evaluates a loop bound that does not change: len(x) or a value from outside the loop.
func (e *Exec) boundTerm(f *Frame, s *State, v ssa.Value, blocks map[*ssa.BasicBlock]bool) *T {
	in, ok := v.(ssa.Instruction)
	if !ok || !blocks[in.Block()] {
		if v, ok := f.regs[v]; ok {
			if t, ok := v.(*T); ok {
				return t
			}
		}
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			return intT(c.Int64())
		}
	}
	return nil
}

// localVar resolves a source-level variable name at a loop header.
func (e *Exec) reassigned(fn *ssa.Function, nm string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if x.Comment == nm {
					return true
				}
			case *ssa.Alloc:
				if x.Comment == nm {
					return true
				}
			}
		}
	}
	return false
}

// pointedSlice: a pointer to a slice stands for the slice.
func (e *Exec) pointedSlice(s *State, v Val, t types.Type) (SV, bool) {
	pv, ok := v.(PtrV)
	el := deref(t)
	if !ok || el == nil {
		return SV{}, false
	}
	if _, ok := el.Underlying().(*types.Slice); !ok {
		return SV{}, false
	}
	if _, ok := s.cells[pv.cell]; !ok {
		return SV{}, false
	}
	return SV{e.peek(s, e.loadCell(s, pv), el), el}, true
}

func (e *Exec) localVar(f *Frame, s *State, h *ssa.BasicBlock, nm string) (SV, bool) {
	for fr := f; fr != nil; fr = fr.up {
		b := h
		if fr != f {
			b = nil
		}
		if b != nil {
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok && ph.Comment == nm {
					return SV{e.peekQuiet(fr, s, ph), fr.ty(ph.Type())}, true
				}
			}
		}
		// allocs and debug references in dominating blocks: take the last one
		var best ssa.Value
		isAddr := false
		hasAlloc := false
		for _, bl := range fr.fn.Blocks {
			if b != nil && !bl.Dominates(b) {
				continue
			}
			for _, in := range bl.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if x.Comment == nm {
						if _, ok := fr.regs[x]; ok {
							best, isAddr, hasAlloc = x, true, true
						}
					}
				case *ssa.Phi:
					if x.Comment == nm {
						if _, ok := fr.regs[x]; ok {
							best, isAddr = x, false
						}
					}
				case *ssa.DebugRef:
					if b == bl && b != nil && isLoopHeader(b) {
						continue // values computed in the header are not available yet
					}
					if id := x.Object(); id != nil && id.Name() == nm && !x.IsAddr && !hasAlloc {
						if _, ok := fr.regs[x.X]; ok {
							best, isAddr = x.X, false
						} else if _, ok := x.X.(*ssa.Const); ok {
							best, isAddr = x.X, false
						}
					}
				}
			}
		}
		if best != nil {
			if isAddr {
				p := fr.regs[best]
				el := fr.ty(deref(best.Type()))
				if pv, ok := p.(PtrV); ok {
					if _, ok := s.cells[pv.cell]; !ok {
						return SV{}, false
					}
					return SV{e.peek(s, e.loadCell(s, pv), el), el}, true
				}
				return SV{e.peek(s, p, best.Type()), best.Type()}, true
			}
			if sv, ok := e.pointedSlice(s, fr.regs[best], fr.ty(best.Type())); ok {
				return sv, true
			}
			return SV{e.peekQuiet(fr, s, best), fr.ty(best.Type())}, true
		}
		for i, p := range fr.fn.Params {
			if p.Name() == nm {
				_ = i
				if v, ok := fr.regs[p]; ok {
					if sv, ok := e.pointedSlice(s, v, fr.ty(p.Type())); ok {
						return sv, true
					}
					return SV{e.peek(s, v, fr.ty(p.Type())), fr.ty(p.Type())}, true
				}
			}
		}
		for i, p := range fr.fn.FreeVars {
			if p.Name() == nm && i < len(fr.binds) {
				el := fr.ty(p.Type())
				return SV{e.peek(s, fr.binds[i], el), deref(el)}, true
			}
		}
	}
	return SV{}, false
}

// ownership class of a value: 0 owned, 1 append-only, 2 frozen
func (e *Exec) ownership(st *State, v Val) int {
	switch x := v.(type) {
	case *T:
		if _, ok := seqElems[x.Sort]; ok {
			if x.Op == "emp_"+x.Sort {
				return 0
			}
			return 2
		}
		if ti, ok := treeInfo[x.Sort]; ok {
			if x.Op == ti.Nil.Name {
				return 0
			}
			return 2
		}
		if si, ok := structInfo[x.Sort]; ok && hasLinear(si.Typ, 0) {
			if x.Op == si.C.Name {
				m := 0
				for _, a := range x.Args {
					if o := e.ownership(st, a); o > m {
						m = o
					}
				}
				return m
			}
			return 2
		}
		return 0
	case SliceV:
		b := st.backs[x.id]
		if b.ext != 0 {
			return 2
		}
		if b.canWrite && b.canApp {
			return 0
		}
		if b.canApp {
			return 1
		}
		return 2
	case TreeV:
		if st.trees[x.id].status == 0 {
			return 0
		}
		return 2
	case *StructV:
		m := 0
		for _, f := range x.f {
			if o := e.ownership(st, f); o > m {
				m = o
			}
		}
		return m
	}
	return 0
}

func (e *Exec) havocVal(st *State, v Val, ty types.Type, hint string, own int) Val {
	if fv, ok := v.(*FuncV); ok {
		return fv
	}
	switch v.(type) {
	case PtrV, GlobPtr, ElemPtr, TreeFieldPtr, MapV, GlobMap, IterV:
		return v
	}
	if o := e.ownership(st, v); o > own {
		own = o
	}
	t := W.freshConst(hint, sortOf(ty))
	e.typeInv1(st, t, ty)
	switch own {
	case 0:
		return e.own(st, t, ty, "loop")
	case 1:
		r := e.own(st, t, ty, "loop")
		if s, ok := r.(SliceV); ok {
			b := st.backs[s.id]
			b.canWrite = false
			b.why = "(may share its array with another slice)"
			st.backs[s.id] = b
			return r
		}
		return r
	}
	return t
}

func (e *Exec) havocCell(st *State, v Val) Val {
	switch x := v.(type) {
	case *T:
		return W.freshConst("hvc", x.Sort)
	case *StructV:
		return e.havocVal(st, v, x.typ, "hvc", e.ownership(st, v))
	case SliceV:
		b := st.backs[x.id]
		nb := e.newBack(st, W.freshConst("hvs", b.seq.Sort), b.elem)
		c := st.backs[nb.id]
		c.canWrite, c.canApp = b.canWrite, b.canApp
		c.why = b.why
		st.backs[nb.id] = c
		return nb
	case TreeV:
		c := st.trees[x.id]
		return e.newTree(st, W.freshConst("hvt", c.ti.Data.Sort), c.ti, "loop")
	case *ArrV:
		y := &ArrV{typ: x.typ}
		for _, el := range x.e {
			y.e = append(y.e, e.havocCell(st, el))
		}
		return y
	}
	return v
}

func (e *Exec) sameVal(a *State, x Val, b *State, y Val) bool {
	switch p := x.(type) {
	case *T:
		q, ok := y.(*T)
		return ok && p.K == q.K
	case *StructV:
		q, ok := y.(*StructV)
		if !ok || len(p.f) != len(q.f) {
			return false
		}
		for i := range p.f {
			if !e.sameVal(a, p.f[i], b, q.f[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		q, ok := y.(*ArrV)
		if !ok || len(p.e) != len(q.e) {
			return false
		}
		for i := range p.e {
			if !e.sameVal(a, p.e[i], b, q.e[i]) {
				return false
			}
		}
		return true
	case SliceV:
		q, ok := y.(SliceV)
		return ok && p.id == q.id
	case TreeV:
		q, ok := y.(TreeV)
		return ok && p.id == q.id
	case PtrV:
		q, ok := y.(PtrV)
		return ok && p.cell == q.cell && fmt.Sprint(p.path) == fmt.Sprint(q.path)
	case *FuncV:
		q, ok := y.(*FuncV)
		return ok && p == q
	case nil:
		return y == nil
	}
	return fmt.Sprint(x) == fmt.Sprint(y)
}

// diffState records which pre-existing parts of the state changed between base and now.
func (e *Exec) diffState(base, now, snap *State, mod map[string]bool) bool {
	ch := false
	set := func(k string) {
		if !mod[k] {
			mod[k] = true
			ch = true
		}
	}
	for _, id := range sortedInts(snap.cells) {
		if !e.sameVal(base, base.cells[id], now, now.cells[id]) {
			set(fmt.Sprintf("c%d", id))
		}
	}
	for _, id := range sortedInts(snap.backs) {
		a, b := base.backs[id], now.backs[id]
		if a.seq.K != b.seq.K {
			set(fmt.Sprintf("b%d", id))
		}
		if a.ext != b.ext {
			set(fmt.Sprintf("b%d", id))
			set(fmt.Sprintf("bw%d", id))
		}
		if a.canWrite != b.canWrite || a.canApp != b.canApp {
			set(fmt.Sprintf("bw%d", id)) // only the rights to it change
		}
	}
	for _, id := range sortedInts(snap.trees) {
		a, b := base.trees[id], now.trees[id]
		if a.status != b.status {
			set(fmt.Sprintf("t%d", id))
			set(fmt.Sprintf("ts%d", id))
		}
		if (a.mat == nil) != (b.mat == nil) {
			continue // merely unfolded
		}
		for i := range a.mat {
			if !e.sameVal(base, a.mat[i], now, b.mat[i]) {
				set(fmt.Sprintf("t%d", id))
			}
		}
	}
	for g := range now.globals {
		a, ok := base.globals[g]
		if !ok {
			if _, isF := now.globals[g].(*FuncV); isF {
				continue
			}
			if t, isT := now.globals[g].(*T); isT && t.K == e.v.globalTerm(g).K {
				continue
			}
			set("g" + g.String())
			continue
		}
		if !e.sameVal(base, a, now, now.globals[g]) {
			set("g" + g.String())
		}
	}
	return ch
}

func (e *Exec) props(c *Clause) []string {
	if len(c.Props) > 0 {
		return c.Props
	}
	return nil
}
