//packages: ./Unif ./Core ./Search
//include: unif.spec

// ------------------------------------------------------------------ closing a branch
// unif(t, c): the index t holds an atom that unifies with the atom of shape c
function unif(t any, c any) bool
interface Unif.DataStructure.Unify(self, f)(ok, substs) @C20 {
  trusted "the code-tree index: goes through goroutines and channels, checked by the bounded harness only"
  ensures ok <==> unif(self, canon(f))
  ensures ok ==> len(substs) > 0
}
define isneq(x any) bool = is[AST.Not](x) && is[AST.Pred](as[AST.Not](x).f) && as[AST.Pred](as[AST.Not](x).f).id.index == AST.Id_eq.index
define eqarg(x any, i int) any = as[AST.Pred](as[AST.Not](x).f).args.values[i]
// an equality has two arguments; terms of a closed formula are applications or metavariables made by MakerMeta
define goodneq(x any) bool = isneq(x) ==> len(as[AST.Pred](as[AST.Not](x).f).args.values) == 2 && (is[AST.Meta](eqarg(x, 0)) || is[AST.Fun](eqarg(x, 0))) && (is[AST.Meta](eqarg(x, 1)) || is[AST.Fun](eqarg(x, 1))) && !(is[AST.Meta](eqarg(x, 0)) && as[AST.Meta](eqarg(x, 0)).index == -1) && !(is[AST.Meta](eqarg(x, 1)) && as[AST.Meta](eqarg(x, 1)).index == -1)
define neqclash(x any) bool = isneq(x) && ev(eqarg(x, 0)) == ev(eqarg(x, 1))
define obvious(x any) bool = is[AST.Bot](x) || (is[AST.Not](x) && is[AST.Top](as[AST.Not](x).f))
define litclash(x any, pos any, neg any) bool = (is[AST.Pred](x) && unif(neg, canon(x))) || (is[AST.Not](x) && is[AST.Pred](as[AST.Not](x).f) && unif(pos, canon(as[AST.Not](x).f)))
func Search.searchObviousClosureRule(f)(r) @C20 { ensures r <==> obvious(f) }
lemma zero_bmem(s []Unif.Substitution, k int, c any) @C20 {
  manual
  induction s
  requires len(s) == 0
  ensures !bmem(s, k, c)
  trigger bmem(s, k, c)
}
lemma one_bmem(s []Unif.Substitution, k int, c any) @C20 {
  manual
  induction s
  uses zero_bmem
  requires len(s) == 1 && bmem(s, k, c)
  ensures s[0].k.index == k && canon(s[0].v) == c
  trigger bmem(s, k, c)
}
func Search.searchInequalities(form)(r, s) @C20 {
  uses one_bmem, one_distinct
  nullable s
  requires goodneq(form)
  ensures r ==> isneq(form) && wf(s) && (sat(s) <==> neqclash(form))
  ensures !r ==> !neqclash(form)
}
func Search.searchClosureRule(f, st)(r, s) @C20 {
  nullable s
  ensures r <==> litclash(f, st.tree_pos, st.tree_neg)
  ensures r ==> len(s) > 0
}

func Core.AreEqualsModuloaLaphaConversion(s1, s2)(r) @C20 { trusted "comparison of substitutions up to renaming; nothing is assumed of the answer" }
func Search.searchForbidden(state, s)(r) @C20 {
  ensures r ==> len(state.forbidden.values) > 0
  loop 1 { invariant foundForbidden ==> _k > 0 }
}
func Search.ApplyClosureRules(form, state)(r, substs) @C20 {
  requires goodneq(form)
  ensures obvious(form) ==> r && len(substs.values) == 0
  ensures neqclash(form) ==> r
  ensures litclash(form, state.tree_pos, state.tree_neg) && len(state.forbidden.values) == 0 ==> r
  ensures r ==> obvious(form) || isneq(form) || litclash(form, state.tree_pos, state.tree_neg)
  loop 2 {
    invariant neqclash(form) ==> result
    invariant len(state.forbidden.values) == 0 && _k > 0 ==> result
  }
}
