//packages: ./Core ./Search
//include: ast.spec

ignore Core.debug
ignore Search.debug
func Core.FormAndTerms.ToString(f)(r) { trusted "printing" }
func AST.EqualsWithoutOrder(a, b)(r) { trusted "compares sorted copies of two argument lists; nothing is assumed of the answer" }

lock AST.lock_formula protects AST.cpt_formula {}
lock AST.lock_term protects AST.cpt_term, AST.idTable, AST.idVar, AST.occurenceMeta {}

// the zero ProofStruct, used when no proof is recorded, holds no formula
nilable Search.ProofStruct.Formula
nonnil eqStruct.EqualityStruct
nonnil Unif.DataStructure
func Search.copyProofStructChildren(c)(r) { trusted "copies the nodes of a proof" }
interface eqStruct.EqualityStruct.Copy(self)(r) { trusted "the equality structure is not part of the branch's formulas" }
interface Unif.DataStructure.MakeDataStruct(self, fs, b)(r) { trusted "the index is rebuilt from the atomic formulas; its content is C14's subject" }

// ------------------------------------------------------------------ truth of formulas
// An arbitrary interpretation: atomv gives the truth of the formulas that the propositional
// connectives do not decompose (atoms, quantified formulas), by shape.
function atomv(c any) bool
function tv(x any) bool {
  case AST.Top v: true
  case AST.Bot v: false
  case AST.Not v: !tv(v.f)
  case AST.And v: tvall(v.forms.values)
  case AST.Or v: tvany(v.forms.values)
  case AST.Imp v: tv(v.f1) ==> tv(v.f2)
  case AST.Equ v: tv(v.f1) <==> tv(v.f2)
  else: atomv(canon(x))
}
function tvall(s []any) bool {
  case emptyseq: true
  case snoc p x: tvall(p) && tv(x)
}
function tvany(s []any) bool {
  case emptyseq: false
  case snoc p x: tvany(p) || tv(x)
}
lemma tvs_canon(s []any) @C07 {
  manual
  induction s
  requires forall i int {tv(s[i])} :: 0 <= i && i < len(s) ==> (tv(canon(s[i])) <==> tv(s[i]))
  ensures (tvall(canons(s)) <==> tvall(s)) && (tvany(canons(s)) <==> tvany(s))
  trigger tvall(s)
  trigger tvany(s)
}
lemma tv_canon(x any) @C07 {
  manual
  induction x
  uses tvs_canon, canon_idem
  ensures tv(canon(x)) <==> tv(x)
  trigger tv(x)
}
lemma tv_same(x any, y any) @C07 {
  uses tv_canon
  requires canon(x) == canon(y)
  ensures tv(x) <==> tv(y)
  trigger tv(x), tv(y), canon(x), canon(y)
}


lemma tvs_idem(s []any) @C07 {
  uses tvs_canon, tv_canon
  ensures (tvall(canons(s)) <==> tvall(s)) && (tvany(canons(s)) <==> tvany(s))
  trigger tvall(s), canons(s)
  trigger tvany(s), canons(s)
}

// ------------------------------------------------------------------ lists of formulas
function amem(s []any, x any) bool {
  case emptyseq: false
  case snoc p y: amem(p, x) || x == y
}
lemma amem_at(s []any, i int) @C07,C08 {
  induction s
  requires 0 <= i && i < len(s)
  ensures amem(s, s[i])
  trigger amem(s, s[i])
}
// the shapes of the formulas of a list
function fforms(s []Core.FormAndTerms) []any {
  case emptyseq: empty[any]()
  case snoc p x: app(fforms(p), canon(x.form))
}
lemma fforms_len(s []Core.FormAndTerms) @C07,C08 {
  induction s
  ensures len(fforms(s)) == len(s)
  trigger fforms(s)
}
lemma fforms_at(s []Core.FormAndTerms, i int) @C07,C08 {
  induction s
  requires 0 <= i && i < len(s)
  ensures fforms(s)[i] == canon(s[i].form)
  trigger fforms(s)[i]
  trigger fforms(s), s[i]
}
lemma fforms_ext(a []Core.FormAndTerms, b []Core.FormAndTerms) @C07,C08 {
  requires len(a) == len(b) && (forall i int {a[i]} {b[i]} :: 0 <= i && i < len(a) ==> canon(a[i].form) == canon(b[i].form))
  ensures fforms(a) == fforms(b)
  trigger fforms(a), fforms(b)
}
// all formulas of the list are true
define ftv(s []Core.FormAndTerms) bool = tvall(fforms(s))
lemma tvall_in(s []any, x any) @C07 {
  induction s
  requires amem(s, x) && tvall(s)
  ensures tv(x)
  trigger amem(s, x), tvall(s)
}
func Core.FormAndTerms.GetForm(f)(r) @C07,C08 { ensures canon(r) == canon(f.form) }
func Core.FormAndTerms.Copy(f)(r) @C07,C08 { ensures canon(r.form) == canon(f.form) }
func Core.FormAndTerms.Equals(f, g)(r) @C07,C08 { ensures r ==> canon(f.form) == canon(g.form) }
func Core.FormAndTermsList.Copy(fl)(r) @C07,C08 {
  ensures fforms(r) == fforms(fl)
  fresh r
  loop 1 { invariant fforms(res) == fforms(_xs[:_k]) }
}
func Core.FormAndTermsList.Contains(fl, f)(r) @C07,C08 {
  ensures r ==> amem(fforms(fl), canon(f.form))
}
func Core.FormAndTermsList.Append(fl, f)(r) @C07,C08 {
  ensures fforms(r) == app(fforms(fl), canon(f.form))
}
func Core.FormAndTermsList.AppendIfNotContains(fl, f)(r) @C07,C08 {
  ensures (fforms(r) == fforms(fl) && amem(fforms(fl), canon(f.form))) || fforms(r) == app(fforms(fl), canon(f.form))
  ensures @C07 ftv(r) <==> ftv(fl) && tv(f.form)
  uses tv_canon
}
func Core.FormAndTermsList.Merge(a, b)(r) @C07,C08 {
  ensures forall x any {amem(fforms(r), x)} :: amem(fforms(r), x) <==> amem(fforms(a), x) || amem(fforms(b), x)
  loop 1 { invariant forall x any {amem(fforms(res), x)} :: amem(fforms(res), x) <==> amem(fforms(a), x) || amem(fforms(_xs[:_k]), x) }
}
lemma saddv_forms(t []AST.Form, s []AST.Form, x any) @C07,C08 {
  induction t
  ensures amem(canons(saddv(t, s)), x) <==> amem(canons(s), x) || amem(canons(t), x)
  trigger amem(canons(saddv(t, s)), x)
}
lemma saddv_nonnil(t []AST.Form, s []AST.Form) @C07,C08 {
  induction t
  requires (forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] != nil) && (forall i int {t[i]} :: 0 <= i && i < len(t) ==> t[i] != nil)
  ensures forall i int {saddv(t, s)[i]} :: 0 <= i && i < len(saddv(t, s)) ==> saddv(t, s)[i] != nil
  trigger saddv(t, s)
}
func Core.FormAndTermsList.ExtractForms(fl)(r) @C07,C08 {
  ensures forall x any {amem(canons(r.values), x)} :: amem(canons(r.values), x) <==> amem(fforms(fl), x)
  loop 1 { invariant forall i int {res.values[i]} :: 0 <= i && i < len(res.values) ==> res.values[i] != nil
    invariant forall x any {amem(canons(res.values), x)} :: amem(canons(res.values), x) <==> amem(fforms(_xs[:_k]), x) }
}

// ------------------------------------------------------------------ alpha and beta rules
func Search.setStateRules(state, name, forms) { trusted "records the rule's name in the proof under construction" }
define isalpha(x any) bool = is[AST.And](x) || (is[AST.Not](x) && (let y = as[AST.Not](x).f :: is[AST.Not](y) || is[AST.Or](y) || is[AST.Imp](y)))
define isbeta(x any) bool = is[AST.Or](x) || is[AST.Imp](x) || is[AST.Equ](x) || (is[AST.Not](x) && (let y = as[AST.Not](x).f :: is[AST.And](y) || is[AST.Equ](y)))
// the branches of a beta rule: at least one of them has all its formulas true
function btv(s []Core.FormAndTermsList) bool {
  case emptyseq: false
  case snoc p x: btv(p) || ftv(x)
}
func Search.ApplyAlphaRules(fnt, state)(r) @C07 {
  uses tv_canon
  ensures isalpha(fnt.form) ==> (ftv(r) <==> tv(fnt.form))
}
func Search.applyAlphaNotRule(f, state, terms, result)(r) @C07 {
  uses tv_canon
  ensures isalpha(box[AST.Not](f)) ==> (ftv(r) <==> ftv(result) && !tv(f.f))
}
func Search.applyAlphaNotNotRule(f, state, terms, result)(r) @C07 {
  ensures ftv(r) <==> ftv(result) && tv(f.f)
}
func Search.applyAlphaNotOrRule(f, state, terms, result)(r) @C07 {
  ensures ftv(r) <==> ftv(result) && !tvany(f.forms.values)
  loop 1 { invariant ftv(result) <==> ftv(old(result)) && !tvany(_xs[:_k]) }
}
func Search.applyAlphaNotImpRule(f, state, terms, result)(r) @C07 {
  ensures ftv(r) <==> ftv(result) && tv(f.f1) && !tv(f.f2)
}
func Search.applyAlphaAndRule(f, state, terms, result)(r) @C07 {
  ensures ftv(r) <==> ftv(result) && tvall(f.forms.values)
  loop 1 { invariant ftv(result) <==> ftv(old(result)) && tvall(_xs[:_k]) }
}

func Search.ApplyBetaRules(fnt, state)(r) @C07 {
  uses tv_canon
  ensures isbeta(fnt.form) ==> (btv(r) <==> tv(fnt.form))
}
func Search.applyBetaNotRule(f, state, terms, result)(r) @C07 {
  appends result
  uses tv_canon
  ensures isbeta(box[AST.Not](f)) ==> (btv(r) <==> btv(result) || !tv(f.f))
}
func Search.applyBetaNotAndRule(f, state, terms, result)(r) @C07 {
  appends result
  uses tv_canon
  ensures btv(r) <==> btv(result) || !tvall(f.forms.values)
  loop 1 { invariant btv(result) <==> btv(old(result)) || !tvall(_xs[:_k]) }
}
func Search.applyBetaNotEquRule(f, state, terms, result)(r) @C07 {
  appends result
  uses tv_canon
  ensures btv(r) <==> btv(result) || !(tv(f.f1) <==> tv(f.f2))
}
func Search.applyBetaOrRule(f, state, terms, result)(r) @C07 {
  appends result
  uses tv_canon
  ensures btv(r) <==> btv(result) || tvany(f.forms.values)
  loop 1 { invariant btv(result) <==> btv(old(result)) || tvany(_xs[:_k]) }
}
func Search.applyBetaImpRule(f, state, terms, result)(r) @C07 {
  appends result
  uses tv_canon
  ensures btv(r) <==> btv(result) || !tv(f.f1) || tv(f.f2)
}
func Search.applyBetaEquRule(f, state, terms, result)(r) @C07 {
  appends result
  uses tv_canon
  ensures btv(r) <==> btv(result) || (tv(f.f1) <==> tv(f.f2))
}

// ------------------------------------------------------------------ classification and dispatch
define islit(x any) bool = is[AST.Pred](x) || is[AST.Top](x) || is[AST.Bot](x)
// 0 atomic, 1 alpha, 2 beta, 3 delta, 4 gamma
define kind(x any) int =
  if isalpha(x) then 1 else if isbeta(x) then 2
  else if is[AST.Ex](x) || (is[AST.Not](x) && is[AST.All](as[AST.Not](x).f)) then 3
  else if is[AST.All](x) || (is[AST.Not](x) && is[AST.Ex](as[AST.Not](x).f)) then 4
  else 0
lemma kind_same(x any, y any) @C08 {
  requires canon(x) == canon(y)
  ensures kind(x) == kind(y)
  trigger canon(x), canon(y)
}
func Core.ShowKindOfRule(f)(r) @C07,C08 {
  ensures r == kind(f)
}
// the list keeps its formulas in order and gains f unless an equal formula is already there
define filed(new []Core.FormAndTerms, old_ []Core.FormAndTerms, f AST.Form) bool = (fforms(new) == fforms(old_) && amem(fforms(old_), canon(f))) || fforms(new) == app(fforms(old_), canon(f))
func Search.State.DispatchForm(st, f) @C08 {
  modifies st
  ensures kind(f.form) == 0 ==> filed(st.atomic, old(st.atomic), f.form)
  ensures kind(f.form) == 1 ==> filed(st.alpha, old(st.alpha), f.form)
  ensures kind(f.form) == 2 ==> filed(st.beta, old(st.beta), f.form)
  ensures kind(f.form) == 3 ==> filed(st.delta, old(st.delta), f.form)
  ensures kind(f.form) == 4 ==> filed(st.gamma, old(st.gamma), f.form)
  ensures kind(f.form) != 0 ==> fforms(st.atomic) == fforms(old(st.atomic))
  ensures kind(f.form) != 1 ==> fforms(st.alpha) == fforms(old(st.alpha))
  ensures kind(f.form) != 2 ==> fforms(st.beta) == fforms(old(st.beta))
  ensures kind(f.form) != 3 ==> fforms(st.delta) == fforms(old(st.delta))
  ensures kind(f.form) != 4 ==> fforms(st.gamma) == fforms(old(st.gamma))
  ensures fforms(st.lf) == fforms(old(st.lf))
}
func Search.State.GetAllForms(st)(r) @C08 {
  ensures forall x any {amem(fforms(r), x)} :: amem(fforms(r), x) <==> amem(fforms(st.lf), x) || amem(fforms(st.atomic), x) || amem(fforms(st.alpha), x) || amem(fforms(st.beta), x) || amem(fforms(st.delta), x) || amem(fforms(st.gamma), x)
}
func Search.State.Copy(st)(r) @C08 {
  ensures fforms(r.lf) == fforms(st.lf) && fforms(r.atomic) == fforms(st.atomic) && fforms(r.alpha) == fforms(st.alpha) && fforms(r.beta) == fforms(st.beta) && fforms(r.delta) == fforms(st.delta) && fforms(r.gamma) == fforms(st.gamma)
  ensures forall k real {smem(r.mm, k)} :: smem(r.mm, k) <==> smem(st.mm, k) || smem(st.mc, k)
  ensures r.n == st.n && r.bt_on_formulas == st.bt_on_formulas
}
func Core.SubstAndForm.Copy(s)(r) @C08 {}
func Core.CopySubstAndFormList(s)(r) @C08 {}
func Core.CopyMetaGenList(s)(r) @C08 {
  loop 1 { invariant forall i int {res[i]} :: 0 <= i && i < _k ==> res[i].f.form != nil }
}
func Core.Unifier.Copy(s)(r) @C08 {}
func Search.ProofStruct.Copy(s)(r) @C08 {}
func Search.CopyProofStructList(s)(r) @C08 {}
func Search.MakeEmptyProofStruct()(r) @C08 {}
