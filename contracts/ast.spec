//packages: ./AST ./Unif
//include: lib.spec

// ------------------------------------------------------------------ the shape of terms, types and formulas
// canon(x) forgets everything that is not part of the shape: names kept for printing, formula
// indices and cached metavariables. Two values have the same shape exactly when canon agrees.

ignore AST.debug
ignore Unif.debug

func Glob.Anomaly(a, b) { noreturn }
func Glob.Fatal(a, b) { noreturn }
func Glob.PrintError(a, b) { trusted "prints a message" }
interface AST.Ty.ToString(self)(r) { trusted "printing" }
interface AST.Term.ToString(self)(r) { trusted "printing" }
// the text of a formula, by shape (uninterpreted)
function txt(c any) string
interface AST.Form.ToString(self)(r) { trusted "the text depends on the shape only" ensures r == txt(canon(self)) }
func Lib.ListToString[T](l, opts)(r) { trusted "printing" }
closed AST.Term = AST.Id | AST.Fun | AST.Var | AST.Meta
closed AST.Ty = AST.tyVar | AST.TyBound | AST.TyMeta | AST.TyConstr | AST.TyProd | AST.TyFunc | AST.TyPi
closed AST.Form = AST.All | AST.Ex | AST.Or | AST.And | AST.Equ | AST.Imp | AST.Not | AST.Pred | AST.Top | AST.Bot | Unif.TermForm
nonnil AST.Term
nonnil AST.Ty
nonnil AST.Form

define tlist(s []any) Lib.List[AST.Term] = mk[Lib.List[AST.Term]](s)
define ylist(s []any) Lib.List[AST.Ty] = mk[Lib.List[AST.Ty]](s)
define flist(s []any) Lib.List[AST.Form] = mk[Lib.List[AST.Form]](s)

function canon(x any) any {
  case AST.Id v: box[AST.Id](mk[AST.Id](v.index, ""))
  case AST.Var v: box[AST.Var](mk[AST.Var](v.index, ""))
  case AST.Meta m: box[AST.Meta](mk[AST.Meta](m.index, 0, "", 0, nil))
  case AST.Fun f: box[AST.Fun](mk[AST.Fun](mk[AST.Id](f.p.index, ""), ylist(canons(f.tys.values)), tlist(canons(f.args.values)), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Fun]]()))
  case AST.tyVar v: box[AST.tyVar](v)
  case AST.TyBound v: box[AST.TyBound](mk[AST.TyBound](v.name, 0))
  case AST.TyMeta v: box[AST.TyMeta](mk[AST.TyMeta](v.name, v.index, 0))
  case AST.TyConstr v: box[AST.TyConstr](mk[AST.TyConstr](v.symbol, ylist(canons(v.args.values))))
  case AST.TyProd v: box[AST.TyProd](mk[AST.TyProd](ylist(canons(v.args.values))))
  case AST.TyFunc v: box[AST.TyFunc](mk[AST.TyFunc](canon(v.in), canon(v.out)))
  case AST.TyPi v: box[AST.TyPi](mk[AST.TyPi](mk[Lib.List[string]](names(v.vars.values)), canon(v.ty)))
  case AST.All v: box[AST.All](mk[AST.All](canonq(v.quantifier)))
  case AST.Ex v: box[AST.Ex](mk[AST.Ex](canonq(v.quantifier)))
  case AST.And v: box[AST.And](mk[AST.And](0, flist(canons(v.forms.values)), zero[Lib.Cache[Lib.Set[AST.Meta], AST.And]]()))
  case AST.Or v: box[AST.Or](mk[AST.Or](0, flist(canons(v.forms.values)), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Or]]()))
  case AST.Equ v: box[AST.Equ](mk[AST.Equ](0, canon(v.f1), canon(v.f2), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Equ]]()))
  case AST.Imp v: box[AST.Imp](mk[AST.Imp](0, canon(v.f1), canon(v.f2), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Imp]]()))
  case AST.Not v: box[AST.Not](mk[AST.Not](0, canon(v.f), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Not]]()))
  case AST.Pred v: box[AST.Pred](mk[AST.Pred](0, mk[AST.Id](v.id.index, ""), ylist(canons(v.tys.values)), tlist(canons(v.args.values)), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Pred]]()))
  case AST.Top v: box[AST.Top](mk[AST.Top](0))
  case AST.Bot v: box[AST.Bot](mk[AST.Bot](0))
  case Unif.TermForm v: box[Unif.TermForm](mk[Unif.TermForm](0, canon(v.t)))
  else: x
}
function canons(s []any) []any {
  case emptyseq: empty[any]()
  case snoc p x: app(canons(p), canon(x))
}
function names(s []string) []string {
  case emptyseq: empty[string]()
  case snoc p x: app(names(p), x)
}
define canontv(v AST.TypedVar) AST.TypedVar = mk[AST.TypedVar](v.name, v.index, canon(v.ty))
function canontvs(s []AST.TypedVar) []AST.TypedVar {
  case emptyseq: empty[AST.TypedVar]()
  case snoc p x: app(canontvs(p), canontv(x))
}
define canonq(q AST.quantifier) AST.quantifier = mk[AST.quantifier](zero[Lib.Cache[Lib.Set[AST.Meta], AST.quantifier]](), 0, mk[Lib.List[AST.TypedVar]](canontvs(q.varList.values)), canon(q.subForm), zero[AST.Connective]())

instance eqv AST.Term (a, b) = canon(a) == canon(b)
instance eqv AST.Ty (a, b) = canon(a) == canon(b)
instance eqv AST.Form (a, b) = canon(a) == canon(b)
instance eqv AST.TypedVar (a, b) = canontv(a) == canontv(b)
instance eqv AST.Meta (a, b) = a.index == b.index
instance key AST.Meta (m) = real(m.index)

lemma canons_len(s []any) @C05 {
  induction s
  ensures len(canons(s)) == len(s)
  trigger canons(s)
}
lemma canons_at(s []any, i int) @C05 {
  induction s
  requires 0 <= i && i < len(s)
  ensures canons(s)[i] == canon(s[i])
  trigger canons(s)[i]
  trigger canons(s), s[i]
}

lemma names_len(s []string) @C05 {
  induction s
  ensures len(names(s)) == len(s)
  trigger names(s)
}
lemma names_at(s []string, i int) @C05 {
  induction s
  requires 0 <= i && i < len(s)
  ensures names(s)[i] == s[i]
  trigger names(s)[i]
  trigger names(s), s[i]
}
lemma names_ext(a []string, b []string) @C05 {
  requires len(a) == len(b) && (forall i int {a[i]} {b[i]} :: 0 <= i && i < len(a) ==> a[i] == b[i])
  ensures names(a) == names(b)
  trigger names(a), names(b)
}
lemma seqv_terms(a []AST.Term, b []AST.Term) @C05 {
  ensures seqv(a, b) <==> canons(a) == canons(b)
  trigger seqv(a, b)
}
lemma seqv_types(a []AST.Ty, b []AST.Ty) @C05 {
  ensures seqv(a, b) <==> canons(a) == canons(b)
  trigger seqv(a, b)
}
lemma seqv_forms(a []AST.Form, b []AST.Form) @C05 {
  ensures seqv(a, b) <==> canons(a) == canons(b)
  trigger seqv(a, b)
}
lemma canontvs_len(s []AST.TypedVar) @C05 {
  induction s
  ensures len(canontvs(s)) == len(s)
  trigger canontvs(s)
}
lemma canontvs_at(s []AST.TypedVar, i int) @C05 {
  induction s
  requires 0 <= i && i < len(s)
  ensures canontvs(s)[i] == canontv(s[i])
  trigger canontvs(s)[i]
  trigger canontvs(s), s[i]
}
lemma seqv_tvs(a []AST.TypedVar, b []AST.TypedVar) @C05 {
  ensures seqv(a, b) <==> canontvs(a) == canontvs(b)
  trigger seqv(a, b)
}

// ------------------------------------------------------------------ equality and copies
interface AST.Term.Equals(self, t)(r) @C05 {
  requires !is[*AST.Fun](t)
  ensures r <==> canon(self) == canon(t)
}
interface AST.Ty.Equals(self, t)(r) @C05,C21 {
  ensures r <==> canon(self) == canon(t)
}
interface AST.Form.Equals(self, t)(r) @C05 {
  ensures r <==> canon(self) == canon(t)
}
interface AST.Term.Copy(self)(r) @C05 { ensures canon(r) == canon(self) }
interface AST.Ty.Copy(self)(r) @C05,C21 { ensures canon(r) == canon(self) }
interface AST.Form.Copy(self)(r) @C05 { ensures canon(r) == canon(self) }
func AST.TypedVar.Equals(self, t)(r) @C05 {
  ensures r <==> is[AST.TypedVar](t) && canontv(self) == canontv(as[AST.TypedVar](t))
}
func AST.TypedVar.Copy(self)(r) @C05 { ensures canontv(r) == canontv(self) }
lemma canons_ext(a []any, b []any) @C05 {
  requires len(a) == len(b) && (forall i int {a[i]} {b[i]} :: 0 <= i && i < len(a) ==> canon(a[i]) == canon(b[i]))
  ensures canons(a) == canons(b)
  trigger canons(a), canons(b)
}
lemma canontvs_ext(a []AST.TypedVar, b []AST.TypedVar) @C05 {
  requires len(a) == len(b) && (forall i int {a[i]} {b[i]} :: 0 <= i && i < len(a) ==> canontv(a[i]) == canontv(b[i]))
  ensures canontvs(a) == canontvs(b)
  trigger canontvs(a), canontvs(b)
}

// ------------------------------------------------------------------ metavariables
// tmc(x, k): the metavariable of key k occurs in x (metavariables are compared by index).
function tmc(x any, k real) bool {
  case AST.Meta m: real(m.index) == k
  case AST.Fun f: tmcs(f.args.values, k)
  case AST.Pred f: tmcs(f.args.values, k)
  case AST.And v: tmcs(v.forms.values, k)
  case AST.Or v: tmcs(v.forms.values, k)
  case AST.Equ v: tmc(v.f1, k) || tmc(v.f2, k)
  case AST.Imp v: tmc(v.f1, k) || tmc(v.f2, k)
  case AST.Not v: tmc(v.f, k)
  case AST.All v: tmc(v.quantifier.subForm, k)
  case AST.Ex v: tmc(v.quantifier.subForm, k)
  case Unif.TermForm v: tmc(v.t, k)
  else: false
}
function tmcs(s []any, k real) bool {
  case emptyseq: false
  case snoc p x: tmcs(p, k) || tmc(x, k)
}
lemma tmcs_canon(s []any, k real) @C04 {
  manual
  induction s
  requires forall i int, j real {tmc(s[i], j)} :: 0 <= i && i < len(s) ==> (tmc(canon(s[i]), j) <==> tmc(s[i], j))
  ensures tmcs(canons(s), k) <==> tmcs(s, k)
  trigger tmcs(s, k)
}
lemma tmc_canon(x any, k real) @C04 {
  manual
  induction x
  uses tmcs_canon
  ensures tmc(canon(x), k) <==> tmc(x, k)
  trigger tmc(x, k)
}
lemma tmc_same(x any, y any, k real) @C04 {
  uses tmc_canon
  requires canon(x) == canon(y)
  ensures tmc(x, k) <==> tmc(y, k)
  trigger tmc(x, k), tmc(y, k), canon(x), canon(y)
}

// the cached set is only used when it is up to date, and the hook computes the exact set
typeinv @C04 AST.Fun (f) = f.metas.shouldUpdate && (forall x AST.Fun, k real {smem(f.metas.updateHook(x), k)} :: smem(f.metas.updateHook(x), k) <==> tmcs(x.args.values, k))
typeinv @C04 AST.Pred (f) = f.metas.shouldUpdate && (forall x AST.Pred, k real {smem(f.metas.updateHook(x), k)} :: smem(f.metas.updateHook(x), k) <==> tmcs(x.args.values, k))
typeinv @C04 AST.And (f) = f.metas.shouldUpdate && (forall x AST.And, k real {smem(f.metas.updateHook(x), k)} :: smem(f.metas.updateHook(x), k) <==> tmcs(x.forms.values, k))
typeinv @C04 AST.Or (f) = f.metas.shouldUpdate && (forall x AST.Or, k real {smem(f.metas.updateHook(x), k)} :: smem(f.metas.updateHook(x), k) <==> tmcs(x.forms.values, k))
typeinv @C04 AST.Equ (f) = f.metas.shouldUpdate && (forall x AST.Equ, k real {smem(f.metas.updateHook(x), k)} :: smem(f.metas.updateHook(x), k) <==> tmc(x.f1, k) || tmc(x.f2, k))
typeinv @C04 AST.Imp (f) = f.metas.shouldUpdate && (forall x AST.Imp, k real {smem(f.metas.updateHook(x), k)} :: smem(f.metas.updateHook(x), k) <==> tmc(x.f1, k) || tmc(x.f2, k))
typeinv @C04 AST.Not (f) = f.metas.shouldUpdate && (forall x AST.Not, k real {smem(f.metas.updateHook(x), k)} :: smem(f.metas.updateHook(x), k) <==> tmc(x.f, k))
typeinv @C04 AST.quantifier (f) = f.metas.shouldUpdate && (forall x AST.quantifier, k real {smem(f.metas.updateHook(x), k)} :: smem(f.metas.updateHook(x), k) <==> tmc(x.subForm, k))

func AST.Fun.forceGetMetas(f)(r) @C04 {
  opt noinv
  ensures forall k real {smem(r, k)} :: smem(r, k) <==> tmcs(f.args.values, k)
  loop 1 { invariant forall k real {smem(metas, k)} :: smem(metas, k) <==> tmcs(_xs[:_k], k) }
}
func AST.Pred.forceGetMetas(f)(r) @C04 {
  opt noinv
  ensures forall k real {smem(r, k)} :: smem(r, k) <==> tmcs(f.args.values, k)
  loop 1 { invariant forall k real {smem(res, k)} :: smem(res, k) <==> tmcs(_xs[:_k], k) }
}
func AST.metasUnion(fs)(r) @C04 {
  ensures forall k real {smem(r, k)} :: smem(r, k) <==> tmcs(fs.values, k)
  loop 1 { invariant forall k real {smem(res, k)} :: smem(res, k) <==> tmcs(_xs[:_k], k) }
}
func AST.And.forceGetMetas(f)(r) @C04 {
  opt noinv
  ensures forall k real {smem(r, k)} :: smem(r, k) <==> tmcs(f.forms.values, k)
}
func AST.Or.forceGetMetas(f)(r) @C04 {
  opt noinv
  ensures forall k real {smem(r, k)} :: smem(r, k) <==> tmcs(f.forms.values, k)
}
func AST.Equ.forceGetMetas(f)(r) @C04 {
  opt noinv
  ensures forall k real {smem(r, k)} :: smem(r, k) <==> tmc(f.f1, k) || tmc(f.f2, k)
}
func AST.Imp.forceGetMetas(f)(r) @C04 {
  opt noinv
  ensures forall k real {smem(r, k)} :: smem(r, k) <==> tmc(f.f1, k) || tmc(f.f2, k)
}
func AST.Not.forceGetMetas(f)(r) @C04 {
  opt noinv
  ensures forall k real {smem(r, k)} :: smem(r, k) <==> tmc(f.f, k)
}
func AST.quantifier.forceGetMetas(f)(r) @C04 {
  opt noinv
  ensures forall k real {smem(r, k)} :: smem(r, k) <==> tmc(f.subForm, k)
}
interface AST.Term.GetMetas(self)(r) @C04 { ensures forall k real {smem(r, k)} :: smem(r, k) <==> tmc(self, k) }
interface AST.Form.GetMetas(self)(r) @C04 { ensures forall k real {smem(r, k)} :: smem(r, k) <==> tmc(self, k) }

// ------------------------------------------------------------------ substitution of terms
// The replaced term o and the replacement n are given by shape. trep replaces o itself, wherever
// it occurs; hrep (formulas) replaces variables and metavariables the same way, and a function
// term by any application of the same symbol.
define zfun() Lib.Cache[Lib.Set[AST.Meta], AST.Fun] = zero[Lib.Cache[Lib.Set[AST.Meta], AST.Fun]]()
function trep(x any, o any, n any) any {
  case AST.Fun f: if canon(x) == o then n else box[AST.Fun](mk[AST.Fun](mk[AST.Id](f.p.index, ""), ylist(canons(f.tys.values)), tlist(treps(f.args.values, o, n)), zfun()))
  else: if canon(x) == o then n else canon(x)
}
function treps(s []any, o any, n any) []any {
  case emptyseq: empty[any]()
  case snoc p x: app(treps(p, o, n), trep(x, o, n))
}
define headof(o any, i int) bool = is[AST.Fun](o) && as[AST.Fun](o).p.index == i
function hrep(x any, o any, n any) any {
  case AST.Var f: if canon(x) == o then n else canon(x)
  case AST.Meta f: if canon(x) == o then n else canon(x)
  case AST.Fun f: if headof(o, f.p.index) then n else box[AST.Fun](mk[AST.Fun](mk[AST.Id](f.p.index, ""), ylist(canons(f.tys.values)), tlist(hreps(f.args.values, o, n)), zfun()))
  else: canon(x)
}
function hreps(s []any, o any, n any) []any {
  case emptyseq: empty[any]()
  case snoc p x: app(hreps(p, o, n), hrep(x, o, n))
}
// whether o occurs
function hocc(x any, o any) bool {
  case AST.Var f: canon(x) == o
  case AST.Meta f: canon(x) == o
  case AST.Fun f: headof(o, f.p.index) || hoccs(f.args.values, o)
  else: false
}
function hoccs(s []any, o any) bool {
  case emptyseq: false
  case snoc p x: hoccs(p, o) || hocc(x, o)
}
lemma treps_len(s []any, o any, n any) @C06 {
  induction s
  ensures len(treps(s, o, n)) == len(s)
  trigger treps(s, o, n)
}
lemma treps_at(s []any, o any, n any, i int) @C06 {
  induction s
  requires 0 <= i && i < len(s)
  ensures treps(s, o, n)[i] == trep(s[i], o, n)
  trigger treps(s, o, n)[i]
  trigger treps(s, o, n), s[i]
}
lemma hreps_len(s []any, o any, n any) @C06 {
  induction s
  ensures len(hreps(s, o, n)) == len(s)
  trigger hreps(s, o, n)
}
lemma hreps_at(s []any, o any, n any, i int) @C06 {
  induction s
  requires 0 <= i && i < len(s)
  ensures hreps(s, o, n)[i] == hrep(s[i], o, n)
  trigger hreps(s, o, n)[i]
  trigger hreps(s, o, n), s[i]
}
lemma canons_treps(a []any, s []any, o any, n any) @C06 {
  requires len(a) == len(s) && (forall i int {a[i]} {s[i]} :: 0 <= i && i < len(a) ==> canon(a[i]) == trep(s[i], o, n))
  ensures canons(a) == treps(s, o, n)
  trigger canons(a), treps(s, o, n)
}
lemma canons_hreps(a []any, s []any, o any, n any) @C06 {
  requires len(a) == len(s) && (forall i int {a[i]} {s[i]} :: 0 <= i && i < len(a) ==> canon(a[i]) == hrep(s[i], o, n))
  ensures canons(a) == hreps(s, o, n)
  trigger canons(a), hreps(s, o, n)
}

interface AST.Term.IsFun(self)(r) @C06 { ensures r <==> is[AST.Fun](self) }
interface AST.Term.GetIndex(self)(r) @C06 {
  ensures is[AST.Fun](self) ==> r == as[AST.Fun](self).p.index
  ensures is[AST.Id](self) ==> r == as[AST.Id](self).index
  ensures is[AST.Var](self) ==> r == as[AST.Var](self).index
  ensures is[AST.Meta](self) ==> r == as[AST.Meta](self).index
}
interface AST.Term.ReplaceSubTermBy(self, o, n)(r) @C06 {
  ensures canon(r) == trep(self, canon(o), canon(n))
}
func AST.Fun.ReplaceAllSubTerm(self, o, n)(r) @C06 {
  ensures canon(r) == trep(box[AST.Fun](self), canon(o), canon(n))
}
func AST.ReplaceOccurrence(tl, o, n)(r, b) @C06 {
  ensures canons(r.values) == treps(tl.values, canon(o), canon(n))
  ensures b <==> canons(r.values) != canons(tl.values)
  loop 1 {
    invariant len(res.values) == len(tl.values)
    invariant forall i int {res.values[i]} :: 0 <= i && i < _k ==> res.values[i] != nil && canon(res.values[i]) == trep(tl.values[i], canon(o), canon(n))
    invariant hasUpdated <==> (exists i int {res.values[i]} :: 0 <= i && i < _k && canon(res.values[i]) != canon(tl.values[i]))
  }
}
func AST.replaceTermInTermList(terms, o, n)(r, b) @C06 {
  ensures canons(r.values) == hreps(terms.values, canon(o), canon(n))
  ensures b <==> hoccs(terms.values, canon(o))
  loop 1 {
    invariant len(newTermList.values) == len(terms.values)
    invariant forall i int {newTermList.values[i]} :: 0 <= i && i < _k ==> newTermList.values[i] != nil && canon(newTermList.values[i]) == hrep(terms.values[i], canon(o), canon(n))
    invariant res <==> hoccs(_xs[:_k], canon(o))
  }
}
// formulas: every occurrence, also below binders (bound variables have indices of their own)
function frep(x any, o any, n any) any {
  case AST.Pred v: box[AST.Pred](mk[AST.Pred](0, mk[AST.Id](v.id.index, ""), ylist(canons(v.tys.values)), tlist(hreps(v.args.values, o, n)), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Pred]]()))
  case AST.And v: box[AST.And](mk[AST.And](0, flist(freps(v.forms.values, o, n)), zero[Lib.Cache[Lib.Set[AST.Meta], AST.And]]()))
  case AST.Or v: box[AST.Or](mk[AST.Or](0, flist(freps(v.forms.values, o, n)), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Or]]()))
  case AST.Equ v: box[AST.Equ](mk[AST.Equ](0, frep(v.f1, o, n), frep(v.f2, o, n), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Equ]]()))
  case AST.Imp v: box[AST.Imp](mk[AST.Imp](0, frep(v.f1, o, n), frep(v.f2, o, n), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Imp]]()))
  case AST.Not v: box[AST.Not](mk[AST.Not](0, frep(v.f, o, n), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Not]]()))
  case AST.All v: box[AST.All](mk[AST.All](mk[AST.quantifier](zero[Lib.Cache[Lib.Set[AST.Meta], AST.quantifier]](), 0, mk[Lib.List[AST.TypedVar]](canontvs(v.quantifier.varList.values)), frep(v.quantifier.subForm, o, n), zero[AST.Connective]())))
  case AST.Ex v: box[AST.Ex](mk[AST.Ex](mk[AST.quantifier](zero[Lib.Cache[Lib.Set[AST.Meta], AST.quantifier]](), 0, mk[Lib.List[AST.TypedVar]](canontvs(v.quantifier.varList.values)), frep(v.quantifier.subForm, o, n), zero[AST.Connective]())))
  case Unif.TermForm v: box[Unif.TermForm](mk[Unif.TermForm](0, trep(v.t, o, n)))
  else: canon(x)
}
function freps(s []any, o any, n any) []any {
  case emptyseq: empty[any]()
  case snoc p x: app(freps(p, o, n), frep(x, o, n))
}
lemma freps_len(s []any, o any, n any) @C06 {
  induction s
  ensures len(freps(s, o, n)) == len(s)
  trigger freps(s, o, n)
}
lemma freps_at(s []any, o any, n any, i int) @C06 {
  induction s
  requires 0 <= i && i < len(s)
  ensures freps(s, o, n)[i] == frep(s[i], o, n)
  trigger freps(s, o, n)[i]
  trigger freps(s, o, n), s[i]
}
lemma canons_freps(a []any, s []any, o any, n any) @C06 {
  requires len(a) == len(s) && (forall i int {a[i]} {s[i]} :: 0 <= i && i < len(a) ==> canon(a[i]) == frep(s[i], o, n))
  ensures canons(a) == freps(s, o, n)
  trigger canons(a), freps(s, o, n)
}
function focc(x any, o any, n any) bool {
  case AST.Pred v: hoccs(v.args.values, o)
  case AST.And v: foccs(v.forms.values, o, n)
  case AST.Or v: foccs(v.forms.values, o, n)
  case AST.Equ v: focc(v.f1, o, n) || focc(v.f2, o, n)
  case AST.Imp v: focc(v.f1, o, n) || focc(v.f2, o, n)
  case AST.Not v: focc(v.f, o, n)
  case AST.All v: focc(v.quantifier.subForm, o, n)
  case AST.Ex v: focc(v.quantifier.subForm, o, n)
  case Unif.TermForm v: trep(v.t, o, n) != canon(v.t)
  else: false
}
function foccs(s []any, o any, n any) bool {
  case emptyseq: false
  case snoc p x: foccs(p, o, n) || focc(x, o, n)
}
// on variables and metavariables the two ways of replacing agree
lemma hreps_treps(s []any, o any, n any) @C06 {
  manual
  induction s
  requires forall i int, a any, b any {hrep(s[i], a, b)} :: 0 <= i && i < len(s) && (is[AST.Var](a) || is[AST.Meta](a)) ==> hrep(s[i], a, b) == trep(s[i], a, b)
  requires is[AST.Var](o) || is[AST.Meta](o)
  ensures hreps(s, o, n) == treps(s, o, n)
  trigger hreps(s, o, n)
}
lemma hrep_trep(x any, o any, n any) @C06 {
  manual
  induction x
  uses hreps_treps
  requires is[AST.Var](o) || is[AST.Meta](o)
  ensures hrep(x, o, n) == trep(x, o, n)
  trigger hrep(x, o, n)
}
lemma hreps_treps2(s []any, o any, n any) @C06 {
  uses hrep_trep, hreps_treps
  requires is[AST.Var](o) || is[AST.Meta](o)
  ensures hreps(s, o, n) == treps(s, o, n)
  trigger hreps(s, o, n)
  trigger treps(s, o, n)
}
// the shape of the result depends only on the shape of the input
lemma treps_canon(s []any, o any, n any) @C06 {
  manual
  induction s
  requires forall i int, a any, b any {trep(s[i], a, b)} :: 0 <= i && i < len(s) ==> trep(canon(s[i]), a, b) == trep(s[i], a, b)
  ensures treps(canons(s), o, n) == treps(s, o, n)
  trigger treps(s, o, n)
}
lemma names_idem(s []string) @C06 {
  manual
  ensures names(s) == s
  trigger names(s)
}
lemma canons_idem(s []any) @C06 {
  manual
  induction s
  requires forall i int {canon(s[i])} :: 0 <= i && i < len(s) ==> canon(canon(s[i])) == canon(s[i])
  ensures canons(canons(s)) == canons(s)
  trigger canons(s)
}
lemma canontvs_idem(s []AST.TypedVar) @C06 {
  manual
  induction s
  requires forall i int {canontv(s[i])} :: 0 <= i && i < len(s) ==> canontv(canontv(s[i])) == canontv(s[i])
  ensures canontvs(canontvs(s)) == canontvs(s)
  trigger canontvs(s)
}
lemma canon_idem(x any) @C06 {
  manual
  induction x
  uses canons_idem, canontvs_idem, names_idem
  ensures canon(canon(x)) == canon(x)
  trigger canon(x)
}
lemma trep_canon(x any, o any, n any) @C06 {
  manual
  induction x
  uses treps_canon, canon_idem, canons_idem
  ensures trep(canon(x), o, n) == trep(x, o, n)
  trigger trep(x, o, n)
}
lemma trep_same(x any, y any, o any, n any) @C06 {
  uses trep_canon
  requires canon(x) == canon(y)
  ensures trep(x, o, n) == trep(y, o, n)
  trigger trep(x, o, n), trep(y, o, n), canon(x), canon(y)
}

lemma hreps_canon(s []any, o any, n any) @C06 {
  manual
  induction s
  requires forall i int, a any, b any {hrep(s[i], a, b)} :: 0 <= i && i < len(s) ==> hrep(canon(s[i]), a, b) == hrep(s[i], a, b)
  ensures hreps(canons(s), o, n) == hreps(s, o, n)
  trigger hreps(s, o, n)
}
lemma hrep_canon(x any, o any, n any) @C06 {
  manual
  induction x
  uses hreps_canon, canon_idem, canons_idem
  ensures hrep(canon(x), o, n) == hrep(x, o, n)
  trigger hrep(x, o, n)
}
lemma hreps_canon2(s []any, o any, n any) @C06 {
  manual
  uses hreps_canon, hrep_canon
  ensures hreps(canons(s), o, n) == hreps(s, o, n)
  trigger hreps(s, o, n)
}
lemma hoccs_canon(s []any, o any) @C06 {
  manual
  induction s
  requires forall i int, a any {hocc(s[i], a)} :: 0 <= i && i < len(s) ==> hocc(canon(s[i]), a) == hocc(s[i], a)
  ensures hoccs(canons(s), o) == hoccs(s, o)
  trigger hoccs(s, o)
}
lemma hocc_canon(x any, o any) @C06 {
  manual
  induction x
  uses hoccs_canon, canon_idem
  ensures hocc(canon(x), o) == hocc(x, o)
  trigger hocc(x, o)
}
lemma hoccs_canon2(s []any, o any) @C06 {
  manual
  uses hoccs_canon, hocc_canon
  ensures hoccs(canons(s), o) == hoccs(s, o)
  trigger hoccs(s, o)
}
lemma freps_canon(s []any, o any, n any) @C06 {
  manual
  induction s
  requires forall i int, a any, b any {frep(s[i], a, b)} :: 0 <= i && i < len(s) ==> frep(canon(s[i]), a, b) == frep(s[i], a, b)
  ensures freps(canons(s), o, n) == freps(s, o, n)
  trigger freps(s, o, n)
}
lemma canons_idem2(s []any) @C06 {
  manual
  uses canons_idem, canon_idem
  ensures canons(canons(s)) == canons(s)
  trigger canons(s)
}
lemma canontvs_idem2(s []AST.TypedVar) @C06 {
  manual
  uses canontvs_idem, canon_idem
  ensures canontvs(canontvs(s)) == canontvs(s)
  trigger canontvs(s)
}
lemma frep_canon(x any, o any, n any) @C06 {
  manual
  induction x
  uses freps_canon, hreps_canon2, trep_canon, canon_idem, canons_idem2, canontvs_idem2
  ensures frep(canon(x), o, n) == frep(x, o, n)
  trigger frep(x, o, n)
}
lemma frep_same(x any, y any, o any, n any) @C06 {
  uses frep_canon
  requires canon(x) == canon(y)
  ensures frep(x, o, n) == frep(y, o, n)
  trigger frep(x, o, n), frep(y, o, n), canon(x), canon(y)
}
lemma foccs_canon(s []any, o any, n any) @C06 {
  manual
  induction s
  requires forall i int, a any, b any {focc(s[i], a, b)} :: 0 <= i && i < len(s) ==> focc(canon(s[i]), a, b) == focc(s[i], a, b)
  ensures foccs(canons(s), o, n) == foccs(s, o, n)
  trigger foccs(s, o, n)
}
lemma focc_canon(x any, o any, n any) @C06 {
  manual
  induction x
  uses foccs_canon, hoccs_canon2, trep_canon, canon_idem
  ensures focc(canon(x), o, n) == focc(x, o, n)
  trigger focc(x, o, n)
}
lemma focc_same(x any, y any, o any, n any) @C06 {
  uses focc_canon
  requires canon(x) == canon(y)
  ensures focc(x, o, n) == focc(y, o, n)
  trigger focc(x, o, n), focc(y, o, n), canon(x), canon(y)
}
interface AST.Form.ReplaceTermByTerm(self, o, n)(r, b) @C06 {
  ensures canon(r) == frep(self, canon(o), canon(n))
  ensures b <==> focc(self, canon(o), canon(n))
}
interface AST.Form.SubstituteVarByMeta(self, o, n)(r) @C06 {
  ensures canon(r) == frep(self, canon(box[AST.Var](o)), canon(box[AST.Meta](n)))
}
interface AST.Form.ReplaceMetaByTerm(self, m, t)(r) @C06 {
  ensures canon(r) == frep(self, canon(box[AST.Meta](m)), canon(t))
}
func AST.replaceTermInFormList(fs, o, n)(r, b) @C06 {
  ensures canons(r.values) == freps(fs.values, canon(o), canon(n))
  ensures b <==> foccs(fs.values, canon(o), canon(n))
  loop 1 {
    invariant len(newForms.values) == len(fs.values)
    invariant forall i int {newForms.values[i]} :: 0 <= i && i < _k ==> newForms.values[i] != nil && canon(newForms.values[i]) == frep(fs.values[i], canon(o), canon(n))
    invariant res <==> foccs(_xs[:_k], canon(o), canon(n))
  }
}
func AST.LsSubstByTerm(fs, m, t)(r) @C06 {
  ensures canons(r.values) == freps(fs.values, canon(box[AST.Meta](m)), canon(t))
  loop 1 {
    invariant len(result.values) == len(fs.values)
    invariant forall i int {result.values[i]} :: 0 <= i && i < _k ==> result.values[i] != nil && canon(result.values[i]) == frep(fs.values[i], canon(box[AST.Meta](m)), canon(t))
  }
}
func AST.substVarByMetaInFormList(o, n, fs, metas)(r, ms) @C06 {
  ensures canons(r.values) == freps(fs.values, canon(box[AST.Var](o)), canon(box[AST.Meta](n)))
  loop 1 {
    invariant canons(replacedFormList.values) == freps(_xs[:_k], canon(box[AST.Var](o)), canon(box[AST.Meta](n)))
  }
}

// ------------------------------------------------------------------ substitution of types
// The replaced type variable o and the replacement n are given by shape. A wrapped term
// (Unif.TermForm) carries no type arguments (Unif builds it from translated terms).
closed AST.TyGenVar = AST.TyBound | AST.TyMeta
nonnil AST.TyGenVar
function yrep(x any, o any, n any) any {
  case AST.TyBound v: if canon(x) == o then n else canon(x)
  case AST.TyMeta v: if canon(x) == o then n else canon(x)
  case AST.TyConstr v: box[AST.TyConstr](mk[AST.TyConstr](v.symbol, ylist(yreps(v.args.values, o, n))))
  case AST.TyProd v: box[AST.TyProd](mk[AST.TyProd](ylist(yreps(v.args.values, o, n))))
  case AST.TyFunc v: box[AST.TyFunc](mk[AST.TyFunc](yrep(v.in, o, n), yrep(v.out, o, n)))
  case AST.TyPi v: box[AST.TyPi](mk[AST.TyPi](mk[Lib.List[string]](names(v.vars.values)), yrep(v.ty, o, n)))
  case AST.Fun f: box[AST.Fun](mk[AST.Fun](mk[AST.Id](f.p.index, ""), ylist(yreps(f.tys.values, o, n)), tlist(yreps(f.args.values, o, n)), zfun()))
  case AST.Pred v: box[AST.Pred](mk[AST.Pred](0, mk[AST.Id](v.id.index, ""), ylist(yreps(v.tys.values, o, n)), tlist(yreps(v.args.values, o, n)), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Pred]]()))
  case AST.And v: box[AST.And](mk[AST.And](0, flist(yreps(v.forms.values, o, n)), zero[Lib.Cache[Lib.Set[AST.Meta], AST.And]]()))
  case AST.Or v: box[AST.Or](mk[AST.Or](0, flist(yreps(v.forms.values, o, n)), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Or]]()))
  case AST.Equ v: box[AST.Equ](mk[AST.Equ](0, yrep(v.f1, o, n), yrep(v.f2, o, n), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Equ]]()))
  case AST.Imp v: box[AST.Imp](mk[AST.Imp](0, yrep(v.f1, o, n), yrep(v.f2, o, n), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Imp]]()))
  case AST.Not v: box[AST.Not](mk[AST.Not](0, yrep(v.f, o, n), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Not]]()))
  case AST.All v: box[AST.All](mk[AST.All](mk[AST.quantifier](zero[Lib.Cache[Lib.Set[AST.Meta], AST.quantifier]](), 0, mk[Lib.List[AST.TypedVar]](yreptvs(v.quantifier.varList.values, o, n)), yrep(v.quantifier.subForm, o, n), zero[AST.Connective]())))
  case AST.Ex v: box[AST.Ex](mk[AST.Ex](mk[AST.quantifier](zero[Lib.Cache[Lib.Set[AST.Meta], AST.quantifier]](), 0, mk[Lib.List[AST.TypedVar]](yreptvs(v.quantifier.varList.values, o, n)), yrep(v.quantifier.subForm, o, n), zero[AST.Connective]())))
  else: canon(x)
}
function yreps(s []any, o any, n any) []any {
  case emptyseq: empty[any]()
  case snoc p x: app(yreps(p, o, n), yrep(x, o, n))
}
define yreptv(v AST.TypedVar, o any, n any) AST.TypedVar = mk[AST.TypedVar](v.name, v.index, yrep(v.ty, o, n))
function yreptvs(s []AST.TypedVar, o any, n any) []AST.TypedVar {
  case emptyseq: empty[AST.TypedVar]()
  case snoc p x: app(yreptvs(p, o, n), yreptv(x, o, n))
}
lemma yreps_len(s []any, o any, n any) @C06 {
  induction s
  ensures len(yreps(s, o, n)) == len(s)
  trigger yreps(s, o, n)
}
lemma yreps_at(s []any, o any, n any, i int) @C06 {
  induction s
  requires 0 <= i && i < len(s)
  ensures yreps(s, o, n)[i] == yrep(s[i], o, n)
  trigger yreps(s, o, n)[i]
  trigger yreps(s, o, n), s[i]
}
lemma canons_yreps(a []any, s []any, o any, n any) @C06 {
  requires len(a) == len(s) && (forall i int {a[i]} {s[i]} :: 0 <= i && i < len(a) ==> canon(a[i]) == yrep(s[i], o, n))
  ensures canons(a) == yreps(s, o, n)
  trigger canons(a), yreps(s, o, n)
}
lemma yreptvs_len(s []AST.TypedVar, o any, n any) @C06 {
  induction s
  ensures len(yreptvs(s, o, n)) == len(s)
  trigger yreptvs(s, o, n)
}
lemma yreptvs_at(s []AST.TypedVar, o any, n any, i int) @C06 {
  induction s
  requires 0 <= i && i < len(s)
  ensures yreptvs(s, o, n)[i] == yreptv(s[i], o, n)
  trigger yreptvs(s, o, n)[i]
  trigger yreptvs(s, o, n), s[i]
}
lemma canontvs_yreps(a []AST.TypedVar, s []AST.TypedVar, o any, n any) @C06 {
  requires len(a) == len(s) && (forall i int {a[i]} {s[i]} :: 0 <= i && i < len(a) ==> canontv(a[i]) == yreptv(s[i], o, n))
  ensures canontvs(a) == yreptvs(s, o, n)
  trigger canontvs(a), yreptvs(s, o, n)
}
lemma yreps_canon(s []any, o any, n any) @C06 {
  manual
  induction s
  requires forall i int, a any, b any {yrep(s[i], a, b)} :: 0 <= i && i < len(s) ==> yrep(canon(s[i]), a, b) == yrep(s[i], a, b)
  ensures yreps(canons(s), o, n) == yreps(s, o, n)
  trigger yreps(s, o, n)
}
lemma yreptvs_canon(s []AST.TypedVar, o any, n any) @C06 {
  manual
  induction s
  requires forall i int, a any, b any {yreptv(s[i], a, b)} :: 0 <= i && i < len(s) ==> yreptv(canontv(s[i]), a, b) == yreptv(s[i], a, b)
  ensures yreptvs(canontvs(s), o, n) == yreptvs(s, o, n)
  trigger yreptvs(s, o, n)
}
lemma yrep_canon(x any, o any, n any) @C06 {
  manual
  induction x
  uses yreps_canon, yreptvs_canon, canon_idem, canons_idem2, canontvs_idem2, names_idem
  ensures yrep(canon(x), o, n) == yrep(x, o, n)
  trigger yrep(x, o, n)
}
lemma yrep_same(x any, y any, o any, n any) @C06 {
  uses yrep_canon
  requires canon(x) == canon(y)
  ensures yrep(x, o, n) == yrep(y, o, n)
  trigger yrep(x, o, n), yrep(y, o, n), canon(x), canon(y)
}
lemma yreptvs_same(s []AST.TypedVar, t []AST.TypedVar, o any, n any) @C06 {
  uses yrep_canon, yreptvs_canon
  requires canontvs(s) == canontvs(t)
  ensures yreptvs(s, o, n) == yreptvs(t, o, n)
  trigger yreptvs(s, o, n), yreptvs(t, o, n), canontvs(s), canontvs(t)
}
interface AST.Ty.SubstTy(self, o, n)(r) @C06,C21 { ensures canon(r) == yrep(self, canon(o), canon(n)) }
interface AST.Term.SubstTy(self, o, n)(r) @C06,C21 { ensures canon(r) == yrep(self, canon(o), canon(n)) }
interface AST.Form.SubstTy(self, o, n)(r) @C06,C21 { ensures canon(r) == yrep(self, canon(o), canon(n)) }
func AST.TypedVar.SubstTy(self, o, n)(r) @C06,C21 { ensures canontv(r) == yreptv(self, canon(o), canon(n)) }

// ------------------------------------------------------------------ type instances (C21)
// ylook: the type at the position of the name r in the list of bound names (the last one)
function ylook(ns []string, ts []any, r string) any {
  case emptyseq: nil
  case snoc p x: if x == r then ts[len(p)] else ylook(p, ts, r)
}
function yhas(ns []string, r string) bool {
  case emptyseq: false
  case snoc p x: x == r || yhas(p, r)
}
// yinst: the shape of the body of a polymorphic type instantiated at ts
function yinst(x any, ns []string, ts []any) any {
  case AST.tyVar v: canon(ylook(ns, ts, v.repr))
  case AST.TyConstr v: box[AST.TyConstr](mk[AST.TyConstr](v.symbol, ylist(yinsts(v.args.values, ns, ts))))
  case AST.TyProd v: box[AST.TyProd](mk[AST.TyProd](ylist(yinsts(v.args.values, ns, ts))))
  case AST.TyFunc v: box[AST.TyFunc](mk[AST.TyFunc](yinst(v.in, ns, ts), yinst(v.out, ns, ts)))
  else: nil
}
function yinsts(s []any, ns []string, ts []any) []any {
  case emptyseq: empty[any]()
  case snoc p x: app(yinsts(p, ns, ts), yinst(x, ns, ts))
}
// yinstok: the body has an instance (its variables are bound, and there is no other binder)
function yinstok(x any, ns []string) bool {
  case AST.tyVar v: yhas(ns, v.repr)
  case AST.TyConstr v: yinstoks(v.args.values, ns)
  case AST.TyProd v: yinstoks(v.args.values, ns)
  case AST.TyFunc v: yinstok(v.in, ns) && yinstok(v.out, ns)
  else: false
}
function yinstoks(s []any, ns []string) bool {
  case emptyseq: true
  case snoc p x: yinstoks(p, ns) && yinstok(x, ns)
}
lemma yinsts_len(s []any, ns []string, ts []any) @C21 {
  induction s
  ensures len(yinsts(s, ns, ts)) == len(s)
  trigger yinsts(s, ns, ts)
}
lemma yinsts_at(s []any, ns []string, ts []any, i int) @C21 {
  induction s
  requires 0 <= i && i < len(s)
  ensures yinsts(s, ns, ts)[i] == yinst(s[i], ns, ts)
  trigger yinsts(s, ns, ts)[i]
  trigger yinsts(s, ns, ts), s[i]
}
lemma yinstoks_at(s []any, ns []string, i int) @C21 {
  induction s
  requires 0 <= i && i < len(s)
  ensures yinstoks(s, ns) ==> yinstok(s[i], ns)
  trigger yinstoks(s, ns), yinstok(s[i], ns)
}
lemma canons_yinsts(a []any, s []any, ns []string, ts []any) @C21 {
  requires len(a) == len(s) && (forall i int {a[i]} {s[i]} :: 0 <= i && i < len(a) ==> canon(a[i]) == yinst(s[i], ns, ts))
  ensures canons(a) == yinsts(s, ns, ts)
  trigger canons(a), yinsts(s, ns, ts)
}
func AST.GetOutTy(t)(r) @C21 {
  aborts !is[AST.TyConstr](t) && !is[AST.TyFunc](t)
  ensures is[AST.TyFunc](t) ==> r == as[AST.TyFunc](t).out
  ensures is[AST.TyConstr](t) ==> r == AST.tType
}
func AST.GetArgsTy(t)(r) @C21 {
  aborts !is[AST.TyConstr](t) && !(is[AST.TyFunc](t) && (is[AST.TyBound](as[AST.TyFunc](t).in) || is[AST.TyConstr](as[AST.TyFunc](t).in) || is[AST.TyProd](as[AST.TyFunc](t).in)))
  ensures is[AST.TyConstr](t) ==> len(r.values) == 0
  ensures is[AST.TyFunc](t) && is[AST.TyProd](as[AST.TyFunc](t).in) ==> r.values == as[AST.TyProd](as[AST.TyFunc](t).in).args.values
  ensures is[AST.TyFunc](t) && !is[AST.TyProd](as[AST.TyFunc](t).in) ==> len(r.values) == 1 && r.values[0] == as[AST.TyFunc](t).in
}
// the native types exist (AST.Init has run)
invariant AST.tType != nil && AST.tInt != nil && AST.tRat != nil && AST.tReal != nil && AST.tIndividual != nil && AST.tProp != nil
function yinstm(x any, m map[string]AST.Ty) any {
  case AST.tyVar v: canon(m[v.repr])
  case AST.TyConstr v: box[AST.TyConstr](mk[AST.TyConstr](v.symbol, ylist(yinstsm(v.args.values, m))))
  case AST.TyProd v: box[AST.TyProd](mk[AST.TyProd](ylist(yinstsm(v.args.values, m))))
  case AST.TyFunc v: box[AST.TyFunc](mk[AST.TyFunc](yinstm(v.in, m), yinstm(v.out, m)))
  else: nil
}
function yinstsm(s []any, m map[string]AST.Ty) []any {
  case emptyseq: empty[any]()
  case snoc p x: app(yinstsm(p, m), yinstm(x, m))
}
function yinstmok(x any, m map[string]AST.Ty) bool {
  case AST.tyVar v: has(m, v.repr)
  case AST.TyConstr v: yinstmoks(v.args.values, m)
  case AST.TyProd v: yinstmoks(v.args.values, m)
  case AST.TyFunc v: yinstmok(v.in, m) && yinstmok(v.out, m)
  else: false
}
function yinstmoks(s []any, m map[string]AST.Ty) bool {
  case emptyseq: true
  case snoc p x: yinstmoks(p, m) && yinstmok(x, m)
}
lemma yinstsm_len(s []any, m map[string]AST.Ty) @C21 {
  induction s
  ensures len(yinstsm(s, m)) == len(s)
  trigger yinstsm(s, m)
}
lemma yinstsm_at(s []any, m map[string]AST.Ty, i int) @C21 {
  induction s
  requires 0 <= i && i < len(s)
  ensures yinstsm(s, m)[i] == yinstm(s[i], m)
  trigger yinstsm(s, m)[i]
  trigger yinstsm(s, m), s[i]
}
lemma yinstmoks_at(s []any, m map[string]AST.Ty, i int) @C21 {
  induction s
  requires 0 <= i && i < len(s)
  ensures yinstmoks(s, m) ==> yinstmok(s[i], m)
  trigger yinstmoks(s, m), s[i]
}
lemma canons_yinstsm(a []any, s []any, m map[string]AST.Ty) @C21 {
  requires len(a) == len(s) && (forall i int {a[i]} {s[i]} :: 0 <= i && i < len(a) ==> canon(a[i]) == yinstm(s[i], m))
  ensures canons(a) == yinstsm(s, m)
  trigger canons(a), yinstsm(s, m)
}
func AST.instantiateTyRec(ty, source, instance)(r) @C21 {
  aborts !yinstmok(ty, instance)
  ensures yinstmok(ty, instance) ==> canon(r) == yinstm(ty, instance)
}
lemma yinstoks_map(s []any, ns []string, m map[string]AST.Ty) @C21 {
  manual
  induction s
  requires forall i int {yinstok(s[i], ns)} :: 0 <= i && i < len(s) ==> yinstok(s[i], ns) == yinstmok(s[i], m)
  ensures yinstoks(s, ns) == yinstmoks(s, m)
  trigger yinstoks(s, ns), yinstmoks(s, m)
}
lemma yinstok_map(x any, ns []string, m map[string]AST.Ty) @C21 {
  induction x
  uses yinstoks_map
  requires forall q string {has(m, q)} {yhas(ns, q)} :: has(m, q) <==> yhas(ns, q)
  ensures yinstok(x, ns) == yinstmok(x, m)
  trigger yinstok(x, ns), yinstmok(x, m)
}
lemma yinsts_map(s []any, ns []string, ts []any, m map[string]AST.Ty) @C21 {
  manual
  induction s
  requires forall i int {yinst(s[i], ns, ts)} :: 0 <= i && i < len(s) && yinstok(s[i], ns) ==> yinst(s[i], ns, ts) == yinstm(s[i], m)
  ensures yinstoks(s, ns) ==> yinsts(s, ns, ts) == yinstsm(s, m)
  trigger yinsts(s, ns, ts), yinstsm(s, m)
}
lemma yinst_map(x any, ns []string, ts []any, m map[string]AST.Ty) @C21 {
  induction x
  uses yinsts_map
  requires forall q string {has(m, q)} {yhas(ns, q)} :: has(m, q) <==> yhas(ns, q)
  requires forall q string {m[q]} :: yhas(ns, q) ==> m[q] == ylook(ns, ts, q)
  ensures yinstok(x, ns) ==> yinst(x, ns, ts) == yinstm(x, m)
  trigger yinst(x, ns, ts), yinstm(x, m)
}
func AST.InstantiateTy(ty, instance)(r) @C21 {
  aborts !is[AST.TyConstr](ty) && !is[AST.TyFunc](ty) && !is[AST.TyPi](ty)
  aborts (is[AST.TyConstr](ty) || is[AST.TyFunc](ty)) && len(instance.values) != 0
  aborts is[AST.TyPi](ty) && (len(as[AST.TyPi](ty).vars.values) != len(instance.values) || !yinstok(as[AST.TyPi](ty).ty, as[AST.TyPi](ty).vars.values))
  ensures is[AST.TyConstr](ty) || is[AST.TyFunc](ty) ==> r == ty
  ensures is[AST.TyPi](ty) && yinstok(as[AST.TyPi](ty).ty, as[AST.TyPi](ty).vars.values) ==> canon(r) == yinst(as[AST.TyPi](ty).ty, as[AST.TyPi](ty).vars.values, instance.values)
  loop 1 {
    invariant forall q string {has(instanceMap, q)} {yhas(as[AST.TyPi](ty).vars.values[:_k], q)} :: has(instanceMap, q) <==> yhas(as[AST.TyPi](ty).vars.values[:_k], q)
    invariant forall q string {instanceMap[q]} :: yhas(as[AST.TyPi](ty).vars.values[:_k], q) ==> instanceMap[q] == ylook(as[AST.TyPi](ty).vars.values[:_k], instance.values, q)
  }
}
func AST.mkDefaultFunctionalType(n, out)(r) @C21 {
  requires n >= 0
  ensures n == 0 ==> r == out
  ensures n > 0 ==> is[AST.TyFunc](r) && as[AST.TyFunc](r).out == out && is[AST.TyProd](as[AST.TyFunc](r).in) && len(as[AST.TyProd](as[AST.TyFunc](r).in).args.values) == n
  ensures forall i int {as[AST.TyProd](as[AST.TyFunc](r).in).args.values[i]} :: n > 0 && 0 <= i && i < n ==> as[AST.TyProd](as[AST.TyFunc](r).in).args.values[i] == AST.tIndividual
  loop 1 {
    invariant len(tys.values) == n && 0 <= i && i <= n
    invariant forall j int {tys.values[j]} :: 0 <= j && j < i ==> tys.values[j] == AST.tIndividual
  }
}
func AST.Fun.SetArgs(f, tl) @C04 {
  modifies f
  ensures f.args.values == tl.values && f.p == old(f).p && f.tys.values == old(f).tys.values
}
