//packages: ./Mods/dmt
//include: search.spec

ignore dmt.debug

// ------------------------------------------------------------------ Deduction modulo: rules follow from their axiom
// hyp(): the axiom being registered is true in the interpretation at hand (an arbitrary one).
function hyp() bool
// truth of a formula under every assignment of its quantified variables; left uninterpreted
function tvu(c any) bool
define listat(m map[string]Lib.List[AST.Form], k string) []AST.Form = if has(m, k) then m[k].values else empty[AST.Form]()
// the rule map m holds a rule from the atom p to (a formula shaped like) c
function hasrule(m map[string]Lib.List[AST.Form], p any, c any) bool = exists i int {listat(m, txt(canon(p)))[i]} :: 0 <= i && i < len(listat(m, txt(canon(p)))) && canon(listat(m, txt(canon(p)))[i]) == canon(c)
define cnot(c any) any = box[AST.Not](mk[AST.Not](0, canon(c), zero[Lib.Cache[Lib.Set[AST.Meta], AST.Not]]()))
// the rule map m holds a rule from the atom p to the negation of c
define hasrulen(m map[string]Lib.List[AST.Form], p any, c any) bool = hasrule(m, p, cnot(c))

function noneg(x any) any {
  case AST.Not v: noneg(v.f)
  else: x
}
define isatom(x any) bool = is[AST.Pred](x) || (is[AST.Not](x) && is[AST.Pred](as[AST.Not](x).f))
define predof(x any) any = if is[AST.Not](x) then as[AST.Not](x).f else x
define iseq(p any) bool = is[AST.Pred](p) && as[AST.Pred](p).id.index == AST.Id_eq.index
// rule(pol, p, c): rewriting the literal (p or its negation) to c is justified
define okrule(pol bool, p any, c any) bool = if pol then (tv(p) ==> tv(c)) else (!tv(p) ==> tv(c))

func AST.getDeepFormWithoutNot(form, isEven)(r, even) @C14 {
  ensures canon(r) == noneg(canon(form)) && !is[AST.Not](r)
}
func AST.RemoveNeg(form)(r) @C14 {
  ensures canon(r) == noneg(canon(form)) && !is[AST.Not](r)
}
func dmt.isEquality(pred)(r) @C14 { ensures r <==> pred.id.index == AST.Id_eq.index }
func dmt.predFromNegatedAtom(f)(r) @C14 {
  requires is[AST.Not](f) && is[AST.Pred](as[AST.Not](f).f)
  ensures canon(box[AST.Pred](r)) == canon(as[AST.Not](f).f)
}
func dmt.isAtomic(f)(r) @C14 { ensures r <==> isatom(f) }
func dmt.areBothAtomics(f1, f2)(r) @C14 { ensures r <==> isatom(f1) && isatom(f2) }
func dmt.neitherAreAtomics(f1, f2)(r) @C14 { ensures r <==> !isatom(f1) && !isatom(f2) }
func dmt.isEqualityPred(f)(r) @C14 { ensures r <==> isatom(f) && iseq(predof(f)) }
func dmt.isRegisterableAsEqu(f)(r) @C14 { ensures r <==> is[AST.Equ](f) }
func dmt.isRegisterableAsImplication(f)(r) @C14 { ensures r ==> is[AST.Imp](f) }
func dmt.printDebugRewriteRule(polarity, axiom, cons) { trusted "printing" }
func dmt.selectFromPolarity[T](polarity, positive, negative)(r) { inline }
function inserted(m map[string]Lib.List[AST.Form], k string, v AST.Form) map[string]Lib.List[AST.Form] = put(m, k, mk[Lib.List[AST.Form]](app(listat(m, k), v)))
func dmt.rewriteMapInsertion(polarity, key, val) @C14 {
  trusted "appends in place to the list stored in the map"
  modifies dmt.positiveRewrite, dmt.negativeRewrite
  ensures polarity ==> dmt.negativeRewrite == old(dmt.negativeRewrite) && dmt.positiveRewrite == inserted(old(dmt.positiveRewrite), key, val)
  ensures !polarity ==> dmt.positiveRewrite == old(dmt.positiveRewrite) && dmt.negativeRewrite == inserted(old(dmt.negativeRewrite), key, val)
}
func dmt.canSkolemize(form)(r) @C14 { ensures r ==> dmt.preskolemize }
func Core.Skolemize(form, metas)(r) { trusted "Skolemisation (C10): in the interpretation extended to the new symbol the result is true when the formula is" ensures tv(form) ==> tv(r) }
// what a rule insertion does: one more rule in the map of its polarity, all the others stay
define keeps(m1 map[string]Lib.List[AST.Form], m2 map[string]Lib.List[AST.Form]) bool = forall p any, c any {hasrule(m2, p, c)} {hasrule(m1, p, c)} :: hasrule(m1, p, c) ==> hasrule(m2, p, c)
lemma rule_new(m map[string]Lib.List[AST.Form], k string, p any, v AST.Form, c any) @C14 {
  manual
  requires canon(v) == canon(c) && k == txt(canon(p))
  ensures hasrule(inserted(m, k, v), p, c)
  trigger hasrule(inserted(m, k, v), p, c)
}
lemma rule_keep(m map[string]Lib.List[AST.Form], k string, v AST.Form, p any, c any) @C14 {
  manual
  requires hasrule(m, p, c)
  ensures hasrule(inserted(m, k, v), p, c)
  trigger hasrule(inserted(m, k, v), p, c)
}
lemma rule_same(m map[string]Lib.List[AST.Form], p any, q any, c any, d any) @C14 {
  manual
  requires canon(p) == canon(q) && canon(c) == canon(d) && hasrule(m, p, c)
  ensures hasrule(m, q, d)
  trigger hasrule(m, p, c), hasrule(m, q, d)
}
func dmt.addRewriteRule(axiom, cons, polarity) @C14 {
  requires is[AST.Pred](axiom) && !iseq(axiom)
  requires hyp() ==> okrule(polarity, axiom, cons)
  modifies dmt.positiveRewrite, dmt.negativeRewrite
  uses rule_new, rule_keep
  loop 1 { invariant (hyp() ==> okrule(polarity, axiom, cons)) && (!dmt.preskolemize ==> cons == old(cons)) }
  ensures !dmt.preskolemize ==> (if polarity then hasrule(dmt.positiveRewrite, axiom, cons) else hasrule(dmt.negativeRewrite, axiom, cons))
  ensures keeps(old(dmt.positiveRewrite), dmt.positiveRewrite) && keeps(old(dmt.negativeRewrite), dmt.negativeRewrite)
}
invariant dmt.positiveTree != nil && dmt.negativeTree != nil
interface Unif.DataStructure.InsertFormulaListToDataStructure(self, lf)(r) { trusted "the discrimination tree (C20): finds the left sides to rewrite, not what they are rewritten to" }
func dmt.addPosRewriteRule(axiom, cons) @C14 {
  requires isatom(axiom) && !iseq(predof(axiom))
  requires hyp() ==> okrule(true, predof(axiom), cons)
  modifies dmt.positiveTree, dmt.positiveRewrite, dmt.negativeRewrite
  ensures !dmt.preskolemize ==> hasrule(dmt.positiveRewrite, predof(axiom), cons)
  ensures keeps(old(dmt.positiveRewrite), dmt.positiveRewrite) && keeps(old(dmt.negativeRewrite), dmt.negativeRewrite)
}
func dmt.addNegRewriteRule(axiom, cons) @C14 {
  requires isatom(axiom) && !iseq(predof(axiom))
  requires hyp() ==> okrule(false, predof(axiom), cons)
  modifies dmt.negativeTree, dmt.positiveRewrite, dmt.negativeRewrite
  ensures !dmt.preskolemize ==> hasrule(dmt.negativeRewrite, predof(axiom), cons)
  ensures keeps(old(dmt.positiveRewrite), dmt.positiveRewrite) && keeps(old(dmt.negativeRewrite), dmt.negativeRewrite)
}
// the rules make the literal a equivalent to c
define equrules(a any, c AST.Form) bool =
  if is[AST.Not](a) then hasrulen(dmt.positiveRewrite, predof(a), c) && hasrule(dmt.negativeRewrite, predof(a), c)
  else hasrule(dmt.positiveRewrite, a, c) && hasrulen(dmt.negativeRewrite, a, c)
// rules that make the literal a imply c
define imprules(a any, c AST.Form) bool = if is[AST.Not](a) then hasrule(dmt.negativeRewrite, predof(a), c) else hasrule(dmt.positiveRewrite, a, c)
// rules that make the negation of the literal a imply the negation of c
define conrules(a any, c AST.Form) bool = if is[AST.Not](a) then hasrulen(dmt.positiveRewrite, predof(a), c) else hasrulen(dmt.negativeRewrite, a, c)
func dmt.addEquivalenceRewriteRule(axiom, cons) @C14 {
  uses canon_idem, rule_same
  modifies dmt.positiveTree, dmt.negativeTree, dmt.positiveRewrite, dmt.negativeRewrite
  requires isatom(axiom) && !iseq(predof(axiom))
  requires hyp() ==> (tv(axiom) <==> tv(cons))
  ensures !dmt.preskolemize ==> equrules(axiom, cons)
}
func dmt.addEquRewriteRuleIfNotEquality(f1, f2)(r) @C14 {
  modifies dmt.positiveTree, dmt.negativeTree, dmt.positiveRewrite, dmt.negativeRewrite
  requires isatom(f1)
  requires hyp() ==> (tv(f1) <==> tv(f2))
  ensures r <==> !iseq(predof(f1))
  ensures r && !dmt.preskolemize ==> equrules(f1, f2)
}
func dmt.makeRewriteRuleFromEquivalence(f)(r) @C14 {
  modifies dmt.positiveTree, dmt.negativeTree, dmt.positiveRewrite, dmt.negativeRewrite
  requires hyp() ==> tv(box[AST.Equ](f))
  ensures r && !dmt.preskolemize ==> if isatom(f.f1) then equrules(f.f1, f.f2) else isatom(f.f2) && equrules(f.f2, f.f1)
}
func dmt.makeRewriteRuleFromImplication(f)(r) @C14 {
  uses canon_idem, rule_same
  modifies dmt.positiveTree, dmt.negativeTree, dmt.positiveRewrite, dmt.negativeRewrite
  requires hyp() ==> tv(box[AST.Imp](f))
  ensures r && !dmt.preskolemize ==> (isatom(f.f1) && imprules(f.f1, f.f2)) || (isatom(f.f2) && conrules(f.f2, f.f1))
}
func dmt.instanciateForalls(axiom)(r) @C14 {
  trusted "instantiates the universal quantifiers of the axiom (C09): the instance is true when the axiom is"
  ensures tvu(canon(axiom)) ==> tv(r)
}
func dmt.RegisterAxiom(axiom)(r) @C14 {
  modifies dmt.registeredAxioms, dmt.positiveTree, dmt.negativeTree, dmt.positiveRewrite, dmt.negativeRewrite
  owns dmt.registeredAxioms
  requires hyp() ==> tvu(canon(axiom))
}
