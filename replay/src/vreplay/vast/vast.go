// Package vast builds random terms, types and formulas together with an independent description of them.
package vast

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
)

// Y describes a type: v variable, b bound, m meta, c constructor, p product, f function, P pi.
type Y struct {
	K  byte
	S  string
	N  int
	As []*Y
	Vs []string
}

// T describes a term: i identifier, v variable, m metavariable, f application.
type T struct {
	K  byte
	N  int
	Ys []*Y
	As []*T
}

type V struct {
	N int
	Y *Y
}

// F describes a formula: p predicate, ! & | > = connectives, A E quantifiers, T B constants.
type F struct {
	K  byte
	N  int
	Ys []*Y
	As []*T
	Vs []V
	Fs []*F
}

func (y *Y) String() string {
	if y == nil {
		return "?"
	}
	s := string(y.K) + ":" + y.S
	if y.K == 'm' {
		s += fmt.Sprintf("#%d", y.N)
	}
	if len(y.Vs) > 0 {
		s += "<" + strings.Join(y.Vs, ",") + ">"
	}
	if y.K == 'c' && len(y.As) == 0 || y.K == 'v' || y.K == 'b' || y.K == 'm' {
		return s
	}
	return s + "(" + joinY(y.As) + ")"
}
func joinY(ys []*Y) string {
	var o []string
	for _, y := range ys {
		o = append(o, y.String())
	}
	return strings.Join(o, ", ")
}
func joinT(ts []*T) string {
	var o []string
	for _, t := range ts {
		o = append(o, t.String())
	}
	return strings.Join(o, ", ")
}
func (t *T) String() string {
	if t == nil {
		return "?"
	}
	switch t.K {
	case 'i':
		return fmt.Sprintf("id%d", t.N)
	case 'v':
		return fmt.Sprintf("x%d", t.N)
	case 'm':
		return fmt.Sprintf("?%d", t.N)
	}
	s := fmt.Sprintf("f%d", t.N)
	if len(t.Ys) > 0 {
		s += "[" + joinY(t.Ys) + "]"
	}
	if len(t.As) > 0 {
		s += "(" + joinT(t.As) + ")"
	}
	return s
}
func (f *F) String() string {
	if f == nil {
		return "?"
	}
	switch f.K {
	case 'T':
		return "TRUE"
	case 'B':
		return "FALSE"
	case 'p':
		s := fmt.Sprintf("P%d", f.N)
		if len(f.Ys) > 0 {
			s += "[" + joinY(f.Ys) + "]"
		}
		return s + "(" + joinT(f.As) + ")"
	case 'A', 'E':
		var o []string
		for _, v := range f.Vs {
			o = append(o, fmt.Sprintf("x%d:%s", v.N, v.Y))
		}
		return string(f.K) + "{" + strings.Join(o, ", ") + "}." + f.Fs[0].String()
	}
	var o []string
	for _, g := range f.Fs {
		o = append(o, g.String())
	}
	return string(f.K) + "(" + strings.Join(o, "; ") + ")"
}

// ---------------------------------------------------------------- building

// Reuse makes the builder share list storage between equal argument lists.
type Builder struct {
	lists map[string]Lib.List[AST.Term]
	R     *rand.Rand
}

func NewBuilder(r *rand.Rand) *Builder { return &Builder{map[string]Lib.List[AST.Term]{}, r} }

func (b *Builder) Ty(y *Y) AST.Ty {
	switch y.K {
	case 'v':
		return AST.MkTyVar(y.S)
	case 'b':
		return AST.MkTyBV(y.S, y.N)
	case 'm':
		return AST.TyMetaFromMeta(AST.MakeMeta(y.N, 0, y.S, 0, AST.TType()))
	case 'c':
		return AST.MkTyConstr(y.S, b.Tys(y.As))
	case 'p':
		return AST.MkTyProd(b.Tys(y.As))
	case 'f':
		return AST.MkTyFunc(b.Ty(y.As[0]), b.Ty(y.As[1]))
	case 'P':
		l := Lib.NewList[string]()
		for _, s := range y.Vs {
			l.Append(s)
		}
		return AST.MkTyPi(l, b.Ty(y.As[0]))
	}
	panic("type kind")
}
func (b *Builder) Tys(ys []*Y) Lib.List[AST.Ty] {
	l := Lib.NewList[AST.Ty]()
	for _, y := range ys {
		l.Append(b.Ty(y))
	}
	return l
}
func IdOf(n int) AST.Id     { return AST.MakeId(n, fmt.Sprintf("s%d", n)) }
func VarOf(n int) AST.Var   { return AST.MakeVar(n, fmt.Sprintf("X%d", n/2)) }
func MetaOf(n int) AST.Meta { return AST.MakeMeta(n, 0, fmt.Sprintf("M%d", n/2), 0, AST.TIndividual()) }
func (b *Builder) Term(t *T) AST.Term {
	switch t.K {
	case 'i':
		return IdOf(t.N)
	case 'v':
		return VarOf(t.N)
	case 'm':
		return MetaOf(t.N)
	}
	return AST.MakerFun(IdOf(t.N), b.Tys(t.Ys), b.Terms(t.As))
}
func (b *Builder) Terms(ts []*T) Lib.List[AST.Term] {
	key := joinT(ts)
	if l, ok := b.lists[key]; ok && b.R != nil && b.R.Intn(3) == 0 {
		return l
	}
	l := Lib.NewList[AST.Term]()
	for _, t := range ts {
		l.Append(b.Term(t))
	}
	b.lists[key] = l
	return l
}
func (b *Builder) Forms(fs []*F) Lib.List[AST.Form] {
	l := Lib.NewList[AST.Form]()
	for _, f := range fs {
		l.Append(b.Form(f))
	}
	return l
}
func (b *Builder) Form(f *F) AST.Form {
	switch f.K {
	case 'T':
		return AST.MakerTop()
	case 'B':
		return AST.MakerBot()
	case 'p':
		return AST.MakerPred(IdOf(f.N), b.Tys(f.Ys), b.Terms(f.As))
	case '!':
		return AST.MakerNot(b.Form(f.Fs[0]))
	case '&':
		return AST.MakerAnd(b.Forms(f.Fs))
	case '|':
		return AST.MakerOr(b.Forms(f.Fs))
	case '>':
		return AST.MakerImp(b.Form(f.Fs[0]), b.Form(f.Fs[1]))
	case '=':
		return AST.MakerEqu(b.Form(f.Fs[0]), b.Form(f.Fs[1]))
	case 'A', 'E':
		vs := Lib.NewList[AST.TypedVar]()
		for _, v := range f.Vs {
			vs.Append(AST.MkTypedVar(fmt.Sprintf("X%d", v.N/2), v.N, b.Ty(v.Y)))
		}
		if f.K == 'A' {
			return AST.MakerAll(vs, b.Form(f.Fs[0]))
		}
		return AST.MakerEx(vs, b.Form(f.Fs[0]))
	}
	panic("formula kind")
}

// ---------------------------------------------------------------- reading back

func ReadTy(t AST.Ty) *Y {
	if t == nil {
		return nil
	}
	return readTy(reflect.ValueOf(t))
}

func elems(v reflect.Value) []reflect.Value {
	for v.Kind() == reflect.Struct {
		var s reflect.Value
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.Slice {
				s = v.Field(i)
			}
		}
		if !s.IsValid() {
			return nil
		}
		v = s
	}
	var out []reflect.Value
	for i := 0; i < v.Len(); i++ {
		out = append(out, v.Index(i))
	}
	return out
}

func readTy(v reflect.Value) *Y {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if !v.IsValid() {
		return nil
	}
	y := &Y{}
	switch v.Type().Name() {
	case "tyVar":
		y.K = 'v'
	case "TyBound":
		y.K = 'b'
	case "TyMeta":
		y.K = 'm'
	case "TyConstr":
		y.K = 'c'
	case "TyProd":
		y.K = 'p'
	case "TyFunc":
		y.K = 'f'
	case "TyPi":
		y.K = 'P'
	default:
		y.K = '?'
		y.S = v.Type().Name()
		return y
	}
	ints := 0
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Kind() == reflect.String:
			y.S = f.String()
		case f.Kind() == reflect.Int:
			if ints == 0 {
				y.N = int(f.Int())
			}
			ints++
		case f.Kind() == reflect.Interface:
			y.As = append(y.As, readTy(f))
		case f.Kind() == reflect.Struct:
			for _, e := range elems(f) {
				if e.Kind() == reflect.String {
					y.Vs = append(y.Vs, e.String())
				} else {
					y.As = append(y.As, readTy(e))
				}
			}
		}
	}
	return y
}

func ReadTys(l Lib.List[AST.Ty]) []*Y {
	var out []*Y
	for i := 0; i < l.Len(); i++ {
		out = append(out, ReadTy(l.At(i)))
	}
	return out
}
func ReadTerms(l Lib.List[AST.Term]) []*T {
	var out []*T
	for i := 0; i < l.Len(); i++ {
		out = append(out, ReadTerm(l.At(i)))
	}
	return out
}
func ReadTerm(t AST.Term) *T {
	switch x := t.(type) {
	case AST.Id:
		return &T{K: 'i', N: x.GetIndex()}
	case AST.Var:
		return &T{K: 'v', N: x.GetIndex()}
	case AST.Meta:
		return &T{K: 'm', N: x.GetIndex()}
	case AST.Fun:
		return &T{K: 'f', N: x.GetID().GetIndex(), Ys: ReadTys(x.GetTyArgs()), As: ReadTerms(x.GetArgs())}
	case *AST.Fun:
		return &T{K: 'f', N: x.GetID().GetIndex(), Ys: ReadTys(x.GetTyArgs()), As: ReadTerms(x.GetArgs())}
	}
	return nil
}
func ReadForms(l Lib.List[AST.Form]) []*F {
	var out []*F
	for i := 0; i < l.Len(); i++ {
		out = append(out, ReadForm(l.At(i)))
	}
	return out
}
func readVars(l Lib.List[AST.TypedVar]) []V {
	var out []V
	for i := 0; i < l.Len(); i++ {
		out = append(out, V{l.At(i).GetIndex(), ReadTy(l.At(i).GetTy())})
	}
	return out
}
func ReadForm(f AST.Form) *F {
	switch x := f.(type) {
	case AST.Top:
		return &F{K: 'T'}
	case AST.Bot:
		return &F{K: 'B'}
	case AST.Pred:
		return &F{K: 'p', N: x.GetID().GetIndex(), Ys: ReadTys(x.GetTyArgs()), As: ReadTerms(x.GetArgs())}
	case AST.Not:
		return &F{K: '!', Fs: []*F{ReadForm(x.GetForm())}}
	case AST.And:
		return &F{K: '&', Fs: ReadForms(x.GetChildFormulas())}
	case AST.Or:
		return &F{K: '|', Fs: ReadForms(x.GetChildFormulas())}
	case AST.Imp:
		return &F{K: '>', Fs: []*F{ReadForm(x.GetF1()), ReadForm(x.GetF2())}}
	case AST.Equ:
		return &F{K: '=', Fs: []*F{ReadForm(x.GetF1()), ReadForm(x.GetF2())}}
	case AST.All:
		return &F{K: 'A', Vs: readVars(x.GetVarList()), Fs: []*F{ReadForm(x.GetForm())}}
	case AST.Ex:
		return &F{K: 'E', Vs: readVars(x.GetVarList()), Fs: []*F{ReadForm(x.GetForm())}}
	}
	return nil
}

// Dump writes every field of a value, whatever it is called, except caches and functions.
func Dump(xs ...any) string {
	var b strings.Builder
	for _, x := range xs {
		dump(&b, reflect.ValueOf(x), 0)
		b.WriteByte('\n')
	}
	return b.String()
}
func dump(b *strings.Builder, v reflect.Value, d int) {
	if d > 60 || !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dump(b, v.Elem(), d+1)
	case reflect.Struct:
		n := v.Type().Name()
		if strings.HasPrefix(n, "Cache[") {
			return
		}
		if i := strings.IndexByte(n, '['); i > 0 {
			n = n[:i]
		}
		b.WriteString(n + "{")
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i), d+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), d+1)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			dump(&kb, k, d+1)
			kb.WriteByte(':')
			dump(&kb, v.MapIndex(k), d+1)
			ks = append(ks, kb.String())
		}
		sort.Strings(ks)
		b.WriteString("map" + strings.Join(ks, ";"))
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint8, reflect.Uint16:
		fmt.Fprint(b, v.Uint())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Func, reflect.Chan:
		b.WriteByte('_')
	default:
		b.WriteString("?" + v.Kind().String())
	}
}

// ---------------------------------------------------------------- random descriptions

type Gen struct {
	R *rand.Rand
	// number of identities of each kind; the indices of different kinds differ unless Collide is set
	Ids, Vars, Metas int
	Collide          bool
	Poly             bool
	IdTerms          bool
}

func New(r *rand.Rand) *Gen { return &Gen{R: r, Ids: 4, Vars: 3, Metas: 3, Poly: true} }

func (g *Gen) id() int { return g.base(1000) + g.R.Intn(g.Ids) }
func (g *Gen) Var() int { return g.base(2000) + g.R.Intn(g.Vars) }
func (g *Gen) Meta() int { return g.base(3000) + g.R.Intn(g.Metas) }
func (g *Gen) base(n int) int {
	if g.Collide {
		return 5000
	}
	return 5000 + n
}

func (g *Gen) Type(d int) *Y {
	if d <= 0 {
		switch g.R.Intn(4) {
		case 0:
			return &Y{K: 'b', S: fmt.Sprintf("A%d", g.R.Intn(2))}
		case 1:
			return &Y{K: 'm', S: fmt.Sprintf("B%d", g.R.Intn(2)), N: g.R.Intn(2)}
		case 2:
			return &Y{K: 'v', S: fmt.Sprintf("A%d", g.R.Intn(2))}
		}
		return &Y{K: 'c', S: []string{"$i", "$o", "nat"}[g.R.Intn(3)]}
	}
	switch g.R.Intn(6) {
	case 0:
		return &Y{K: 'c', S: []string{"list", "pair"}[g.R.Intn(2)], As: g.types(d-1, 1+g.R.Intn(2))}
	case 1:
		return &Y{K: 'p', As: g.types(d-1, 2+g.R.Intn(2))}
	case 2:
		return &Y{K: 'f', As: g.types(d-1, 2)}
	case 3:
		vs := []string{"A0"}
		if g.R.Intn(2) == 0 {
			vs = append(vs, "A1")
		}
		return &Y{K: 'P', Vs: vs, As: g.types(d-1, 1)}
	}
	return g.Type(0)
}
func (g *Gen) types(d, n int) []*Y {
	var out []*Y
	for i := 0; i < n; i++ {
		out = append(out, g.Type(d))
	}
	return out
}
func (g *Gen) tyArgs() []*Y {
	if !g.Poly || g.R.Intn(4) != 0 {
		return nil
	}
	return g.types(1, 1+g.R.Intn(2))
}
func (g *Gen) Term(d int) *T {
	if d <= 0 || g.R.Intn(6) == 0 {
		switch g.R.Intn(3) {
		case 0:
			return &T{K: 'v', N: g.Var()}
		case 1:
			return &T{K: 'm', N: g.Meta()}
		}
		if g.IdTerms && g.R.Intn(6) == 0 {
			return &T{K: 'i', N: g.id()}
		}
		return &T{K: 'f', N: g.id(), Ys: g.tyArgs()}
	}
	return &T{K: 'f', N: g.id(), Ys: g.tyArgs(), As: g.Terms(d-1, 1+g.R.Intn(3))}
}
func (g *Gen) Terms(d, n int) []*T {
	var out []*T
	for i := 0; i < n; i++ {
		if i > 0 && g.R.Intn(4) == 0 {
			out = append(out, out[g.R.Intn(i)])
			continue
		}
		out = append(out, g.Term(d))
	}
	return out
}
func (g *Gen) Pred() *F {
	return &F{K: 'p', N: g.id(), Ys: g.tyArgs(), As: g.Terms(2, g.R.Intn(4))}
}
func (g *Gen) Form(d int) *F {
	if d <= 0 || g.R.Intn(9) == 0 {
		switch g.R.Intn(12) {
		case 0:
			return &F{K: 'T'}
		case 1:
			return &F{K: 'B'}
		}
		return g.Pred()
	}
	switch g.R.Intn(8) {
	case 0, 1:
		return &F{K: '!', Fs: []*F{g.Form(d - 1)}}
	case 2:
		return &F{K: '&', Fs: g.Forms(d-1, 2+g.R.Intn(2))}
	case 3:
		return &F{K: '|', Fs: g.Forms(d-1, 2+g.R.Intn(2))}
	case 4:
		return &F{K: '>', Fs: g.Forms(d-1, 2)}
	case 5:
		return &F{K: '=', Fs: g.Forms(d-1, 2)}
	}
	k := byte('A')
	if g.R.Intn(2) == 0 {
		k = 'E'
	}
	var vs []V
	n := 1 + g.R.Intn(2)
	for i := 0; i < n; i++ {
		v := V{N: g.base(2000) + (g.R.Intn(g.Vars)+i)%g.Vars, Y: &Y{K: 'c', S: "$i"}}
		if i > 0 && vs[0].N == v.N {
			v.N = g.base(2000) + (v.N-g.base(2000)+1)%g.Vars
		}
		if g.Poly && g.R.Intn(3) == 0 {
			v.Y = g.Type(1)
		}
		vs = append(vs, v)
	}
	return &F{K: k, Vs: vs, Fs: []*F{g.Form(d - 1)}}
}
func (g *Gen) Forms(d, n int) []*F {
	var out []*F
	for i := 0; i < n; i++ {
		out = append(out, g.Form(d))
	}
	return out
}

// ---------------------------------------------------------------- operations on descriptions

func (t *T) Clone() *T {
	n := *t
	n.As = nil
	for _, a := range t.As {
		n.As = append(n.As, a.Clone())
	}
	n.Ys = nil
	for _, y := range t.Ys {
		n.Ys = append(n.Ys, y.Clone())
	}
	return &n
}
func (y *Y) Clone() *Y {
	n := *y
	n.As = nil
	for _, a := range y.As {
		n.As = append(n.As, a.Clone())
	}
	n.Vs = append([]string{}, y.Vs...)
	return &n
}
func (f *F) Clone() *F {
	n := *f
	n.Fs, n.As, n.Ys, n.Vs = nil, nil, nil, nil
	for _, a := range f.Fs {
		n.Fs = append(n.Fs, a.Clone())
	}
	for _, a := range f.As {
		n.As = append(n.As, a.Clone())
	}
	for _, y := range f.Ys {
		n.Ys = append(n.Ys, y.Clone())
	}
	for _, v := range f.Vs {
		n.Vs = append(n.Vs, V{v.N, v.Y.Clone()})
	}
	return &n
}

// Subst replaces every node (of kind k and identity n) by r.
func (t *T) Subst(k byte, n int, r *T) (*T, bool) {
	if t.K == k && t.N == n && k != 'f' {
		return r, true
	}
	c := *t
	c.As = nil
	hit := false
	for _, a := range t.As {
		x, h := a.Subst(k, n, r)
		hit = hit || h
		c.As = append(c.As, x)
	}
	return &c, hit
}
func (f *F) Subst(k byte, n int, r *T) (*F, bool) {
	c := *f
	c.As, c.Fs = nil, nil
	hit := false
	for _, a := range f.As {
		x, h := a.Subst(k, n, r)
		hit = hit || h
		c.As = append(c.As, x)
	}
	for _, a := range f.Fs {
		x, h := a.Subst(k, n, r)
		hit = hit || h
		c.Fs = append(c.Fs, x)
	}
	return &c, hit
}
func (y *Y) Subst(k byte, s string, n int, r *Y) *Y {
	if y.K == k && y.S == s && (k == 'b' || y.N == n) {
		return r
	}
	c := *y
	c.As = nil
	for _, a := range y.As {
		c.As = append(c.As, a.Subst(k, s, n, r))
	}
	return &c
}
func (t *T) SubstTy(k byte, s string, n int, r *Y) *T {
	c := *t
	c.As, c.Ys = nil, nil
	for _, a := range t.As {
		c.As = append(c.As, a.SubstTy(k, s, n, r))
	}
	for _, y := range t.Ys {
		c.Ys = append(c.Ys, y.Subst(k, s, n, r))
	}
	return &c
}
func (f *F) SubstTy(k byte, s string, n int, r *Y) *F {
	c := *f
	c.As, c.Fs, c.Ys, c.Vs = nil, nil, nil, nil
	for _, a := range f.As {
		c.As = append(c.As, a.SubstTy(k, s, n, r))
	}
	for _, y := range f.Ys {
		c.Ys = append(c.Ys, y.Subst(k, s, n, r))
	}
	for _, v := range f.Vs {
		c.Vs = append(c.Vs, V{v.N, v.Y.Subst(k, s, n, r)})
	}
	for _, a := range f.Fs {
		c.Fs = append(c.Fs, a.SubstTy(k, s, n, r))
	}
	return &c
}

// Metas lists the metavariables that occur, in increasing order.
func (t *T) metas(m map[int]bool) {
	if t == nil {
		return
	}
	if t.K == 'm' {
		m[t.N] = true
	}
	for _, a := range t.As {
		a.metas(m)
	}
}
func (f *F) metas(m map[int]bool) {
	if f == nil {
		return
	}
	for _, a := range f.As {
		a.metas(m)
	}
	for _, a := range f.Fs {
		a.metas(m)
	}
}
func keys(m map[int]bool) []int {
	out := []int{}
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
func (t *T) Metas() []int { m := map[int]bool{}; t.metas(m); return keys(m) }
func (f *F) Metas() []int { m := map[int]bool{}; f.metas(m); return keys(m) }
func MetaSet(s Lib.Set[AST.Meta]) []int {
	out := []int{}
	l := s.Elements()
	for i := 0; i < l.Len(); i++ {
		out = append(out, l.At(i).GetIndex())
	}
	sort.Ints(out)
	return out
}

// Edit changes one place of a description, possibly keeping the shape.
func (g *Gen) EditTerm(t *T) *T {
	t = t.Clone()
	var all []*T
	var walk func(*T)
	walk = func(x *T) {
		all = append(all, x)
		for _, a := range x.As {
			walk(a)
		}
	}
	walk(t)
	g.editNode(all[g.R.Intn(len(all))])
	return t
}
func (g *Gen) editNode(x *T) {
	switch g.R.Intn(7) {
	case 0:
		x.K = []byte{'v', 'm', 'f'}[g.R.Intn(3)]
		if x.K != 'f' {
			x.As, x.Ys = nil, nil
		}
	case 1:
		switch x.K {
		case 'v':
			x.N = g.Var()
		case 'm':
			x.N = g.Meta()
		default:
			x.N = g.id()
		}
	case 2:
		if len(x.As) > 1 {
			i := g.R.Intn(len(x.As) - 1)
			x.As[i], x.As[i+1] = x.As[i+1], x.As[i]
		}
	case 3:
		if len(x.As) > 0 {
			x.As = x.As[:len(x.As)-1]
		}
	case 4:
		if x.K == 'f' {
			x.As = append(x.As, g.Term(1))
		}
	case 5:
		if x.K == 'f' {
			x.Ys = g.tyArgs()
		}
	case 6:
		if len(x.Ys) > 0 {
			i := g.R.Intn(len(x.Ys))
			x.Ys[i] = g.EditType(x.Ys[i])
		}
	}
}
func (g *Gen) EditType(y *Y) *Y {
	y = y.Clone()
	var all []*Y
	var walk func(*Y)
	walk = func(x *Y) {
		all = append(all, x)
		for _, a := range x.As {
			walk(a)
		}
	}
	walk(y)
	x := all[g.R.Intn(len(all))]
	switch g.R.Intn(4) {
	case 0:
		*x = *g.Type(1)
	case 1:
		if len(x.As) > 1 {
			x.As[0], x.As[1] = x.As[1], x.As[0]
		} else if x.K == 'm' {
			x.N = 1 - x.N
		} else if x.K == 'b' {
			x.K = 'v'
		}
	case 2:
		if (x.K == 'c' || x.K == 'p') && len(x.As) > 1 {
			x.As = x.As[:len(x.As)-1]
		} else if x.K == 'P' && len(x.Vs) > 1 {
			x.Vs = x.Vs[:1]
		} else if x.K == 'c' {
			x.S = "$o"
		}
	case 3:
		if x.K == 'c' || x.K == 'p' {
			x.As = append(x.As, g.Type(0))
		} else if x.K == 'P' {
			x.Vs[0] = "Z"
		} else if x.K == 'm' {
			x.S = "B1"
		}
	}
	return y
}
func (g *Gen) EditForm(f *F) *F {
	f = f.Clone()
	var all []*F
	var walk func(*F)
	walk = func(x *F) {
		all = append(all, x)
		for _, a := range x.Fs {
			walk(a)
		}
	}
	walk(f)
	x := all[g.R.Intn(len(all))]
	switch x.K {
	case 'p':
		switch g.R.Intn(4) {
		case 0:
			x.N = g.id()
		case 1:
			x.Ys = g.tyArgs()
		case 2:
			if len(x.As) > 0 {
				i := g.R.Intn(len(x.As))
				x.As[i] = g.EditTerm(x.As[i])
			}
		case 3:
			if len(x.As) > 1 {
				x.As[0], x.As[1] = x.As[1], x.As[0]
			} else {
				x.As = append(x.As, g.Term(1))
			}
		}
	case 'A', 'E':
		switch g.R.Intn(4) {
		case 0:
			x.K = 'A' + 'E' - x.K
		case 1:
			x.Vs[0].N = g.Var()
		case 2:
			x.Vs[0].Y = g.Type(1)
		case 3:
			if len(x.Vs) > 1 {
				x.Vs = x.Vs[:1]
			} else {
				x.Vs = append(x.Vs, V{g.Var(), &Y{K: 'c', S: "$i"}})
			}
		}
	case '&', '|':
		switch g.R.Intn(3) {
		case 0:
			x.K = '&' + '|' - x.K
		case 1:
			x.Fs = append(x.Fs, g.Form(0))
		case 2:
			x.Fs[0], x.Fs[1] = x.Fs[1], x.Fs[0]
		}
	case '>', '=':
		if g.R.Intn(2) == 0 {
			x.K = '>' + '=' - x.K
		} else {
			x.Fs[0], x.Fs[1] = x.Fs[1], x.Fs[0]
		}
	case 'T', 'B':
		x.K = 'T' + 'B' - x.K
	case '!':
		*x = *x.Fs[0]
	}
	return f
}

// Init prepares the prover's tables.
func Init() {
	Glob.InitLogs()
	AST.Init()
	AST.InitDebugger()
}

// ---------------------------------------------------------------- truth

// Atoms collects the propositional atoms of a formula: predicates and quantified formulas.
func (f *F) Atoms(m map[string]bool) {
	switch f.K {
	case 'p', 'A', 'E':
		m[f.String()] = true
	case 'T', 'B':
	default:
		for _, g := range f.Fs {
			g.Atoms(m)
		}
	}
}

// Eval gives the truth value of f for the truth values of its atoms.
func (f *F) Eval(m map[string]bool) bool {
	switch f.K {
	case 'T':
		return true
	case 'B':
		return false
	case '!':
		return !f.Fs[0].Eval(m)
	case '&':
		for _, g := range f.Fs {
			if !g.Eval(m) {
				return false
			}
		}
		return true
	case '|':
		for _, g := range f.Fs {
			if g.Eval(m) {
				return true
			}
		}
		return false
	case '>':
		return !f.Fs[0].Eval(m) || f.Fs[1].Eval(m)
	case '=':
		return f.Fs[0].Eval(m) == f.Fs[1].Eval(m)
	}
	return m[f.String()]
}

// Valuations calls f with every valuation of the atoms (at most limit of them, then random ones) until it returns false.
func Valuations(r *rand.Rand, atoms map[string]bool, limit int, f func(map[string]bool) bool) {
	var names []string
	for a := range atoms {
		names = append(names, a)
	}
	sort.Strings(names)
	all := len(names) < 20 && 1<<len(names) <= limit
	for i := 0; ; i++ {
		if all && i >= 1<<len(names) || i >= limit {
			return
		}
		m := map[string]bool{}
		for j, n := range names {
			if all {
				m[n] = i>>j&1 == 1
			} else {
				m[n] = r.Intn(2) == 0
			}
		}
		if !f(m) {
			return
		}
	}
}

// Class gives the tableau rule class that the outermost structure of a formula dictates.
func (f *F) Class() string {
	switch f.K {
	case 'T', 'B', 'p':
		return "atomic"
	case '&':
		return "alpha"
	case '|', '>', '=':
		return "beta"
	case 'A':
		return "gamma"
	case 'E':
		return "delta"
	}
	switch f.Fs[0].K {
	case 'T', 'B', 'p':
		return "atomic"
	case '!', '|', '>':
		return "alpha"
	case '&', '=':
		return "beta"
	case 'A':
		return "delta"
	}
	return "gamma"
}

// Prop gives a formula over few atoms, with the given outermost shape when want is not empty.
func (g *Gen) Prop(d int) *F {
	if d <= 0 || g.R.Intn(8) == 0 {
		switch g.R.Intn(9) {
		case 0:
			return &F{K: 'T'}
		case 1:
			return &F{K: 'B'}
		case 2:
			return &F{K: "AE"[g.R.Intn(2)], Vs: []V{{N: 2000 + g.R.Intn(2), Y: &Y{K: 'c', S: "$i"}}}, Fs: []*F{{K: 'p', N: 3003, As: []*T{{K: 'v', N: 2000}}}}}
		}
		return &F{K: 'p', N: 3000 + g.R.Intn(4)}
	}
	k := "!!!&|>="[g.R.Intn(7)]
	n := 2
	switch k {
	case '!':
		n = 1
	case '&', '|':
		n = 2 + g.R.Intn(3)
		if g.R.Intn(12) == 0 {
			n = 1
		}
	}
	f := &F{K: k}
	for i := 0; i < n; i++ {
		if i > 0 && g.R.Intn(5) == 0 {
			f.Fs = append(f.Fs, f.Fs[g.R.Intn(i)])
		} else {
			f.Fs = append(f.Fs, g.Prop(d-1))
		}
	}
	return f
}
