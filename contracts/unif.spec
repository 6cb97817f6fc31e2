//packages: ./Unif ./Core ./Search
//include: search.spec

// ------------------------------------------------------------------ values of terms under an assignment
// An arbitrary interpretation of the symbols and an arbitrary assignment of the metavariables.
function mval(k int) any
function cval(c any) any
function fapp(i int, tys any, vs []any) any
function gsize(x any) int
function gmax(s []any) int {
  case emptyseq: 0
  case snoc p x: if gsize(x) > gmax(p) then gsize(x) else gmax(p)
}
// terms are well founded: an application is bigger than its arguments
axiom fapp_grows "terms are finite: an application is bigger than its arguments" : forall i int, tys any, vs []any {fapp(i, tys, vs)} :: gsize(fapp(i, tys, vs)) > gmax(vs)
function ev(x any) any {
  case AST.Meta m: mval(m.index)
  case AST.Fun f: fapp(f.p.index, ylist(canons(f.tys.values)), evs(f.args.values))
  else: cval(canon(x))
}
function evs(s []any) []any {
  case emptyseq: empty[any]()
  case snoc p x: app(evs(p), ev(x))
}
lemma evs_len(s []any) @C12 {
  induction s
  ensures len(evs(s)) == len(s)
  trigger evs(s)
}
lemma evs_at(s []any, i int) @C12 {
  induction s
  requires 0 <= i && i < len(s)
  ensures evs(s)[i] == ev(s[i])
  trigger evs(s)[i]
  trigger evs(s), s[i]
}
lemma evs_canon(s []any) @C12 {
  manual
  induction s
  requires forall i int {ev(s[i])} :: 0 <= i && i < len(s) ==> ev(canon(s[i])) == ev(s[i])
  ensures evs(canons(s)) == evs(s)
  trigger evs(s)
}
lemma ev_canon(x any) @C12 {
  manual
  induction x
  uses evs_canon, canons_idem2, canon_idem
  ensures ev(canon(x)) == ev(x)
  trigger ev(x)
}
lemma ev_same(x any, y any) @C12 {
  uses ev_canon
  requires canon(x) == canon(y)
  ensures ev(x) == ev(y)
  trigger ev(x), ev(y), canon(x), canon(y)
}
// mocc(x, k): the metavariable of index k occurs in the term x
function mocc(x any, k int) bool {
  case AST.Meta m: m.index == k
  case AST.Fun f: moccs(f.args.values, k)
  else: false
}
function moccs(s []any, k int) bool {
  case emptyseq: false
  case snoc p x: moccs(p, k) || mocc(x, k)
}
lemma moccs_canon(s []any, k int) @C12 {
  manual
  induction s
  requires forall i int {mocc(s[i], k)} :: 0 <= i && i < len(s) ==> (mocc(canon(s[i]), k) <==> mocc(s[i], k))
  ensures moccs(canons(s), k) <==> moccs(s, k)
  trigger moccs(s, k)
}
lemma mocc_canon(x any, k int) @C12 {
  manual
  induction x
  uses moccs_canon
  ensures mocc(canon(x), k) <==> mocc(x, k)
  trigger mocc(x, k)
}
lemma mocc_same(x any, y any, k int) @C12 {
  uses mocc_canon
  requires canon(x) == canon(y)
  ensures mocc(x, k) <==> mocc(y, k)
  trigger mocc(x, k), mocc(y, k), canon(x), canon(y)
}
// a metavariable that occurs inside an application is smaller than it
lemma occs_small(s []any, k int) @C12 {
  manual
  induction s
  requires forall i int {ev(s[i])} :: 0 <= i && i < len(s) && mocc(s[i], k) ==> gsize(mval(k)) <= gsize(ev(s[i]))
  requires moccs(s, k)
  ensures gsize(mval(k)) <= gmax(evs(s))
  trigger moccs(s, k), evs(s)
}
lemma occ_small(x any, k int) @C12 {
  manual
  induction x
  uses occs_small
  requires mocc(x, k)
  ensures gsize(mval(k)) <= gsize(ev(x))
  ensures is[AST.Fun](x) ==> gsize(mval(k)) < gsize(ev(x))
  trigger mocc(x, k)
}

interface AST.Term.IsMeta(self)(r) @C12 { ensures r <==> is[AST.Meta](self) }
interface AST.Term.ToMeta(self)(r) @C12 {
  ensures is[AST.Meta](self) ==> r == as[AST.Meta](self)
  ensures !is[AST.Meta](self) ==> r.index == -1
}
lemma moccs_in(s []any, i int, k int) @C12 {
  induction s
  requires 0 <= i && i < len(s) && mocc(s[i], k)
  ensures moccs(s, k)
  trigger moccs(s, k), s[i]
}
// ------------------------------------------------------------------ occurs check
func Unif.isRecursive(t, m)(r) @C12 { ensures r <==> mocc(t, m.index) }
func Unif.areFuncArgsRecursive(f, m)(r) @C12 {
  ensures r <==> moccs(f.args.values, m.index)
  loop 1 { invariant !moccs(_xs[:_k], m.index) }
}
func Unif.OccurCheckValid(key, val)(r) @C12 { ensures r <==> !mocc(val, key.index) }

// ------------------------------------------------------------------ substitutions as finite maps
define mcan(i int) any = box[AST.Meta](mk[AST.Meta](i, 0, "", 0, nil))
function bhas(s []Unif.Substitution, k int) bool {
  case emptyseq: false
  case snoc p x: bhas(p, k) || x.k.index == k
}
function bget(s []Unif.Substitution, k int) any {
  case emptyseq: mcan(-1)
  case snoc p x: if bhas(p, k) then bget(p, k) else if x.k.index == k then canon(x.v) else mcan(-1)
}
function distinct(s []Unif.Substitution) bool {
  case emptyseq: true
  case snoc p x: distinct(p) && !bhas(p, x.k.index)
}
function sat(s []Unif.Substitution) bool {
  case emptyseq: true
  case snoc p x: sat(p) && mval(x.k.index) == ev(x.v)
}
function noid(s []Unif.Substitution) bool {
  case emptyseq: true
  case snoc p x: noid(p) && canon(x.v) != mcan(x.k.index)
}
lemma bhas_in(s []Unif.Substitution, i int) @C12 {
  induction s
  requires 0 <= i && i < len(s)
  ensures bhas(s, s[i].k.index)
  trigger bhas(s, s[i].k.index)
}
// same keys in the same places, the value of k replaced by v
define bset(t []Unif.Substitution, s []Unif.Substitution, k int, v any) bool = len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index && (if s[i].k.index == k then canon(t[i].v) == v else canon(t[i].v) == canon(s[i].v)))
// keys and values by shape
define bpair(k int, v any) Unif.Substitution = mk[Unif.Substitution](mk[AST.Meta](k, 0, "", 0, nil), v)
function bcs(s []Unif.Substitution) []Unif.Substitution {
  case emptyseq: empty[Unif.Substitution]()
  case snoc p x: app(bcs(p), bpair(x.k.index, canon(x.v)))
}
lemma bcs_len(s []Unif.Substitution) @C12 {
  induction s
  ensures len(bcs(s)) == len(s)
  trigger bcs(s)
}
lemma bcs_at(s []Unif.Substitution, i int) @C12 {
  induction s
  requires 0 <= i && i < len(s)
  ensures bcs(s)[i] == bpair(s[i].k.index, canon(s[i].v))
  trigger bcs(s)[i]
  trigger bcs(s), s[i]
}
lemma bcs_bhas(s []Unif.Substitution, k int) @C12 {
  induction s
  ensures bhas(bcs(s), k) <==> bhas(s, k)
  trigger bhas(s, k), bcs(s)
}
lemma bcs_distinct(s []Unif.Substitution) @C12 {
  induction s
  ensures distinct(bcs(s)) <==> distinct(s)
  trigger distinct(s), bcs(s)
}
lemma bcs_sat(s []Unif.Substitution) @C12 {
  induction s
  uses ev_canon
  ensures sat(bcs(s)) <==> sat(s)
  trigger sat(s), bcs(s)
}
// (k, c) is a binding
function bmem(s []Unif.Substitution, k int, c any) bool {
  case emptyseq: false
  case snoc p x: bmem(p, k, c) || (x.k.index == k && canon(x.v) == c)
}
lemma bcs_bmem(s []Unif.Substitution, k int, c any) @C12 {
  induction s
  uses canon_idem
  ensures bmem(bcs(s), k, c) <==> bmem(s, k, c)
  trigger bmem(s, k, c), bcs(s)
}
lemma bmem_at(s []Unif.Substitution, i int) @C12 {
  induction s
  requires 0 <= i && i < len(s)
  ensures bmem(s, s[i].k.index, canon(s[i].v))
  trigger bmem(s, s[i].k.index, canon(s[i].v))
}
lemma bmem_bhas(s []Unif.Substitution, k int, c any) @C12 {
  induction s
  requires bmem(s, k, c)
  ensures bhas(s, k)
  trigger bmem(s, k, c)
}
lemma bmem_one(s []Unif.Substitution, k int, c any, d any) @C12 {
  manual
  induction s
  requires distinct(s) && bmem(s, k, c) && bmem(s, k, d)
  ensures c == d
  trigger distinct(s), bmem(s, k, c), bmem(s, k, d)
}
lemma bmem_get(s []Unif.Substitution, k int) @C12 {
  induction s
  requires bhas(s, k)
  ensures bmem(s, k, bget(s, k))
  trigger bhas(s, k)
}
lemma bmem_sat(s []Unif.Substitution, k int, c any) @C12 {
  induction s
  uses ev_canon
  requires sat(s) && bmem(s, k, c)
  ensures mval(k) == ev(c)
  trigger sat(s), bmem(s, k, c)
}
lemma bget_at(s []Unif.Substitution, i int) @C12 {
  manual
  induction s
  requires distinct(s) && 0 <= i && i < len(s)
  ensures bget(s, s[i].k.index) == canon(s[i].v)
  trigger distinct(s), s[i]
}
lemma bget_bmem(s []Unif.Substitution, k int, c any) @C12 {
  manual
  induction s
  requires distinct(s) && bmem(s, k, c)
  ensures bget(s, k) == c
  trigger distinct(s), bmem(s, k, c)
}
lemma sat_bget(s []Unif.Substitution, k int) @C12 {
  manual
  induction s
  uses ev_canon
  requires sat(s) && bhas(s, k)
  ensures mval(k) == ev(bget(s, k))
  trigger sat(s), bhas(s, k)
}
lemma sat_at(s []Unif.Substitution, i int) @C12 {
  induction s
  requires sat(s) && 0 <= i && i < len(s)
  ensures mval(s[i].k.index) == ev(s[i].v)
  trigger sat(s), s[i]
}
lemma fun_moccs(x any, k int) @C12 {
  manual
  requires is[AST.Fun](x)
  ensures moccs(as[AST.Fun](x).args.values, k) <==> mocc(x, k)
  trigger moccs(as[AST.Fun](x).args.values, k)
}
lemma fun_evs(x any) @C12 {
  manual
  requires is[AST.Fun](x)
  ensures ev(x) == fapp(as[AST.Fun](x).p.index, ylist(canons(as[AST.Fun](x).tys.values)), evs(as[AST.Fun](x).args.values))
  trigger evs(as[AST.Fun](x).args.values)
}
function bks(s []Unif.Substitution) []Unif.Substitution {
  case emptyseq: empty[Unif.Substitution]()
  case snoc p x: app(bks(p), bpair(x.k.index, mcan(-1)))
}
lemma bks_len(s []Unif.Substitution) @C12 {
  manual
  induction s
  ensures len(bks(s)) == len(s)
  trigger bks(s)
}
lemma bks_at(s []Unif.Substitution, i int) @C12 {
  manual
  induction s
  uses bks_len
  requires 0 <= i && i < len(s)
  ensures bks(s)[i] == bpair(s[i].k.index, mcan(-1))
  trigger bks(s)[i]
  trigger bks(s), s[i]
}
lemma bks_bhas(s []Unif.Substitution, k int) @C12 {
  manual
  induction s
  uses bks_len, bks_at
  ensures bhas(bks(s), k) <==> bhas(s, k)
  trigger bhas(s, k), bks(s)
}
lemma bks_distinct(s []Unif.Substitution) @C12 {
  manual
  induction s
  uses bks_bhas
  ensures distinct(bks(s)) <==> distinct(s)
  trigger distinct(s), bks(s)
}
lemma bks_ext(t []Unif.Substitution, s []Unif.Substitution) @C12 {
  manual
  uses bks_len, bks_at
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index)
  ensures bks(t) == bks(s)
  trigger distinct(t), distinct(s)
}
lemma bks_ext2(t []Unif.Substitution, s []Unif.Substitution, k int) @C12 {
  manual
  uses bks_len, bks_at, bks_bhas
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index)
  ensures bks(t) == bks(s)
  trigger bhas(t, k), bhas(s, k)
}
lemma bhas_ext(t []Unif.Substitution, s []Unif.Substitution, k int) @C12 {
  manual
  uses bks_ext2, bks_bhas
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index)
  ensures bhas(t, k) <==> bhas(s, k)
  trigger bhas(t, k), bhas(s, k)
}
lemma dist_ext(t []Unif.Substitution, s []Unif.Substitution) @C12 {
  manual
  uses bks_ext, bks_distinct
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index)
  ensures distinct(t) <==> distinct(s)
  trigger distinct(t), distinct(s)
}
lemma bcs_ext(t []Unif.Substitution, s []Unif.Substitution) @C12 {
  manual
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index && canon(t[i].v) == canon(s[i].v))
  ensures bcs(t) == bcs(s)
  trigger distinct(t), distinct(s)
  trigger sat(t), sat(s)
  trigger noid(t), noid(s)
}
lemma bcs_ext2(t []Unif.Substitution, s []Unif.Substitution, k int, c any) @C12 {
  manual
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index && canon(t[i].v) == canon(s[i].v))
  ensures bcs(t) == bcs(s)
  trigger bmem(t, k, c), bmem(s, k, c)
}
lemma sat_ext(t []Unif.Substitution, s []Unif.Substitution) @C12 {
  manual
  uses bcs_ext
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index && canon(t[i].v) == canon(s[i].v))
  ensures sat(t) <==> sat(s)
  trigger sat(t), sat(s)
}
lemma bmem_ext(t []Unif.Substitution, s []Unif.Substitution, k int, c any) @C12 {
  manual
  uses bcs_ext2
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index && canon(t[i].v) == canon(s[i].v))
  ensures bmem(t, k, c) <==> bmem(s, k, c)
  trigger bmem(t, k, c), bmem(s, k, c)
}
lemma bhas_ex(s []Unif.Substitution, k int) @C12 {
  manual
  induction s
  requires bhas(s, k)
  ensures exists i int {s[i]} :: 0 <= i && i < len(s) && s[i].k.index == k
  trigger bhas(s, k)
}
lemma distinct_at(s []Unif.Substitution, i int, j int) @C12 {
  manual
  induction s
  requires distinct(s) && 0 <= i && i < j && j < len(s)
  ensures s[i].k.index != s[j].k.index
  trigger distinct(s), s[i], s[j]
}
lemma distinct_sub(s []Unif.Substitution, i int) @C12 {
  manual
  uses bhas_ex, distinct_at
  requires distinct(s) && 0 <= i && i < len(s)
  ensures !bhas(s[:i], s[i].k.index)
  trigger distinct(s), s[i]
}
lemma noid_at(s []Unif.Substitution, i int) @C12 {
  manual
  induction s
  requires noid(s) && 0 <= i && i < len(s)
  ensures canon(s[i].v) != mcan(s[i].k.index)
  trigger noid(s), s[i]
}
lemma bcs_noid(s []Unif.Substitution) @C12 {
  induction s
  uses canon_idem
  ensures noid(bcs(s)) <==> noid(s)
  trigger noid(s), bcs(s)
}
lemma noid_ext(t []Unif.Substitution, s []Unif.Substitution) @C12 {
  manual
  uses bcs_ext
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index && canon(t[i].v) == canon(s[i].v))
  ensures noid(t) <==> noid(s)
  trigger noid(t), noid(s)
}
define nn(s []Unif.Substitution) bool = forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i].v != nil && s[i].k.ty != nil
define isfail(s []Unif.Substitution) bool = len(s) == 1 && s[0].k.index == -1 && canon(s[0].v) == mcan(-1)
define headfail(s []Unif.Substitution) bool = len(s) > 0 && s[0].k.index == -1 && canon(s[0].v) == mcan(-1)
define wf(s []Unif.Substitution) bool = distinct(s) && !bhas(s, -1)
// the substitution r stands for the constraint c: a failure when no values satisfy it
define stands(r []Unif.Substitution, c bool) bool = if isfail(r) then !c else (wf(r) && noid(r) && (sat(r) <==> c))
lemma bmem_key(s []Unif.Substitution, k int, c any, i int) @C12 {
  manual
  induction s
  uses bmem_bhas
  requires distinct(s) && bmem(s, k, c) && 0 <= i && i < len(s) && s[i].k.index == k
  ensures c == canon(s[i].v)
  trigger bmem(s, k, c), distinct(s), s[i]
}
lemma bset_same(t []Unif.Substitution, s []Unif.Substitution, k int, c any) @C12 {
  manual
  uses bmem_key
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index && (if s[i].k.index == k then canon(t[i].v) == c else canon(t[i].v) == canon(s[i].v)))
  requires distinct(s) && bmem(s, k, c)
  ensures bcs(t) == bcs(s)
  trigger bmem(s, k, c), distinct(s), bcs(t)
}
lemma zero_distinct(s []Unif.Substitution) @C12 {
  manual
  induction s
  requires len(s) == 0
  ensures distinct(s)
  trigger distinct(s)
}
lemma one_distinct(s []Unif.Substitution) @C12 {
  manual
  induction s
  uses zero_distinct, zero_bhas
  requires len(s) == 1
  ensures distinct(s)
  trigger distinct(s)
}
lemma zero_bhas(s []Unif.Substitution, k int) @C12 {
  manual
  induction s
  requires len(s) == 0
  ensures !bhas(s, k)
  trigger bhas(s, k)
}
lemma one_bhas(s []Unif.Substitution, k int) @C12 {
  manual
  induction s
  uses zero_bhas
  requires len(s) == 1 && s[0].k.index != k
  ensures !bhas(s, k)
  trigger bhas(s, k)
}
func Unif.MakeSubstitution(k, v)(r) @C12 { ensures r.k == k && r.v == v }
// bclr(s, k): the metavariable of index k occurs in no value
function bclr(s []Unif.Substitution, k int) bool {
  case emptyseq: true
  case snoc p x: bclr(p, k) && !mocc(x.v, k)
}
lemma bcs_bclr(s []Unif.Substitution, k int) @C12 {
  manual
  induction s
  uses mocc_canon
  ensures bclr(bcs(s), k) <==> bclr(s, k)
  trigger bclr(s, k), bcs(s)
}
lemma bcs_ext3(t []Unif.Substitution, s []Unif.Substitution, k int) @C12 {
  manual
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index && canon(t[i].v) == canon(s[i].v))
  ensures bcs(t) == bcs(s)
  trigger bclr(t, k), bclr(s, k)
}
lemma bclr_ext(t []Unif.Substitution, s []Unif.Substitution, k int) @C12 {
  manual
  uses bcs_ext3, bcs_bclr
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> t[i].k.index == s[i].k.index && canon(t[i].v) == canon(s[i].v))
  ensures bclr(t, k) <==> bclr(s, k)
  trigger bclr(t, k), bclr(s, k)
}
func Unif.Substitution.Copy(s)(r) @C12 { ensures r.k.index == s.k.index && canon(r.v) == canon(s.v) }
func Unif.Substitution.Equals(s, o)(r) @C12 { ensures r <==> is[Unif.Substitution](o) && as[Unif.Substitution](o).k.index == s.k.index && canon(as[Unif.Substitution](o).v) == canon(s.v) }
func Unif.Substitutions.IsEmpty(s)(r) @C12 { ensures r <==> len(s) == 0 }
func Unif.HasSubst(s, m)(r) @C12 {
  ensures r <==> bhas(s, m.index)
  loop 1 { invariant !bhas(_xs[:_k], m.index) }
}
func Unif.Failure()(r) @C12 { ensures isfail(r) }
func Unif.MakeEmptySubstitution()(r) @C12 { fresh r ensures len(r) == 0 }
func Unif.Substitutions.Get(s, key)(r, i) @C12 {
  nullable r
  ensures key.index != -1 && bhas(s, key.index) ==> 0 <= i && i < len(s) && s[i].k.index == key.index && r == s[i].v && !bhas(s[:i], key.index)
  ensures key.index == -1 || !bhas(s, key.index) ==> i == -1 && r == nil
  loop 1 { invariant !bhas(_xs[:_k], key.index) }
}
func Unif.Substitutions.Copy(s)(r) @C12 {
  uses bclr_ext
  ensures bcs(r) == bcs(s)
  ensures forall k int {bclr(r, k)} :: bclr(r, k) <==> bclr(s, k)
  ensures len(r) == len(s) && (distinct(r) <==> distinct(s)) && (noid(r) <==> noid(s)) && (sat(r) <==> sat(s)) && (isfail(r) <==> isfail(s))
  ensures forall k int {bhas(r, k)} :: bhas(r, k) <==> bhas(s, k)
  ensures forall k int, c any {bmem(r, k, c)} :: bmem(r, k, c) <==> bmem(s, k, c)
  fresh r
  loop 1 { invariant bcs(res) == bcs(_xs[:_k]) }
}
func Unif.Substitutions.Set(s, key, value) @C12 {
  uses dist_ext, bhas_ext, sat_ext, noid_ext, bmem_ext, bset_same, bclr_ext
  owns s
  appends s
  modifies s
  ensures !bhas(old(s), key.index) ==> (distinct(s) <==> distinct(old(s))) && (sat(s) <==> sat(old(s)) && mval(key.index) == ev(value)) && (noid(s) <==> noid(old(s)) && canon(value) != mcan(key.index))
  ensures !bhas(old(s), key.index) ==> (forall k int {bhas(s, k)} :: bhas(s, k) <==> (bhas(old(s), k) || k == key.index))
  ensures !bhas(old(s), key.index) ==> (forall k int, c any {bmem(s, k, c)} :: bmem(s, k, c) <==> (bmem(old(s), k, c) || (k == key.index && c == canon(value))))
  ensures !bhas(old(s), key.index) ==> (forall k int {bclr(s, k)} :: bclr(s, k) <==> bclr(old(s), k) && !mocc(value, k))
  ensures len(old(s)) == 0 ==> len(s) == 1 && s[0].k.index == key.index && canon(s[0].v) == canon(value)
  ensures !bhas(old(s), key.index) && headfail(old(s)) ==> headfail(s)
  ensures bhas(old(s), key.index) ==> (distinct(s) <==> distinct(old(s)))
  ensures bhas(old(s), key.index) ==> (forall k int {bhas(s, k)} :: bhas(s, k) <==> bhas(old(s), k))
  ensures bhas(old(s), key.index) && distinct(old(s)) && bmem(old(s), key.index, canon(value)) ==> bcs(s) == bcs(old(s))
  ensures if bhas(old(s), key.index) then bset(s, old(s), key.index, canon(value)) else bcs(s) == app(bcs(old(s)), bpair(key.index, canon(value)))
  loop 1 {
    invariant found <==> bhas(old(s)[:_k], key.index)
    invariant len(s) == len(old(s)) && (forall i int {s[i]} {old(s)[i]} :: 0 <= i && i < len(s) ==> s[i].k.index == old(s)[i].k.index && (if i < _k && old(s)[i].k.index == key.index then canon(s[i].v) == canon(value) else canon(s[i].v) == canon(old(s)[i].v)))
  }
}
func Unif.Substitutions.Remove(s, index) @C12 {
  owns s
  modifies s
  requires 0 <= index && index < len(s)
  ensures len(s) == len(old(s)) - 1
  ensures forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] == (if i == index then old(s)[len(old(s)) - 1] else old(s)[i])
}
func Unif.Substitutions.Equals(s, o)(r) @C12 {
  ensures r && is[Unif.Substitutions](o) ==> len(s) == len(as[Unif.Substitutions](o)) && (forall i int {s[i]} :: 0 <= i && i < len(s) ==> bmem(as[Unif.Substitutions](o), s[i].k.index, canon(s[i].v)))
  ensures !r && is[Unif.Substitutions](o) ==> len(s) != len(as[Unif.Substitutions](o)) || !(forall i int {s[i]} :: 0 <= i && i < len(s) ==> bmem(as[Unif.Substitutions](o), s[i].k.index, canon(s[i].v)))
  ensures !is[Unif.Substitutions](o) ==> !r
  loop 1 { invariant forall i int {s[i]} :: 0 <= i && i < _k ==> bmem(typed, s[i].k.index, canon(s[i].v)) }
  loop 2 { invariant 0 <= i && i <= len(typed)
           invariant if found then bmem(typed, subst_s1.k.index, canon(subst_s1.v)) else !bmem(typed[:i], subst_s1.k.index, canon(subst_s1.v)) }
}
// ------------------------------------------------------------------ bindings applied to one another
lemma evs_canon2(s []any) @C12 {
  manual
  uses evs_canon, ev_canon
  ensures evs(canons(s)) == evs(s)
  trigger evs(s), canons(s)
}
lemma moccs_canon2(s []any, k int) @C12 {
  manual
  uses moccs_canon, mocc_canon
  ensures moccs(canons(s), k) <==> moccs(s, k)
  trigger moccs(s, k), canons(s)
}
lemma evs_same2(s []any, t []any) @C12 {
  manual
  uses evs_canon2
  requires canons(s) == canons(t)
  ensures evs(s) == evs(t)
  trigger canons(s), canons(t), evs(s), evs(t)
}
lemma moccs_ext(s []any, t []any, k int) @C12 {
  manual
  uses canons_ext, moccs_canon2
  requires len(t) == len(s) && (forall i int {t[i]} {s[i]} :: 0 <= i && i < len(s) ==> canon(t[i]) == canon(s[i]))
  ensures canons(s) == canons(t)
  ensures moccs(s, k) <==> moccs(t, k)
  trigger moccs(s, k), moccs(t, k)
}
func Unif.eliminateList(key, value, termList, hasChangedTop)(r) @C12 {
  uses evs_same2, canons_ext, moccs_ext
  modifies hasChangedTop
  requires !mocc(value, key.index)
  ensures mval(key.index) == ev(value) ==> evs(r.values) == evs(termList.values)
  ensures !moccs(termList.values, key.index) ==> canons(r.values) == canons(termList.values)
  ensures !moccs(r.values, key.index)
  ensures old(hasChangedTop) ==> hasChangedTop
  ensures hasChangedTop || canons(r.values) == canons(termList.values)
  loop 1 {
    invariant mval(key.index) == ev(value) ==> evs(termList.values) == evs(old(termList).values)
    invariant !moccs(old(termList).values, key.index) ==> canons(termList.values) == canons(old(termList).values)
    invariant hasChanged || !moccs(termList.values, key.index)
    invariant old(hasChangedTop) ==> hasChangedTop
    invariant hasChangedTop || canons(termList.values) == canons(old(termList).values)
  }
  loop 2 {
    invariant forall i int {tempList.values[i]} :: 0 <= i && i < len(tempList.values) ==> tempList.values[i] != nil
    invariant mval(key.index) == ev(value) ==> evs(tempList.values) == evs(_xs[:_k])
    invariant !moccs(_xs[:_k], key.index) ==> canons(tempList.values) == canons(_xs[:_k])
    invariant !moccs(tempList.values, key.index)
    invariant hasChanged || canons(tempList.values) == canons(_xs[:_k])
  }
}

func Unif.eliminateInside(key, value, s, has_changed_top)(r) @C12 {
  uses occ_small, ev_canon, distinct_sub, noid_at, fun_moccs, fun_evs
  modifies has_changed_top
  requires wf(s) && noid(s) && !mocc(value, key.index)
  ensures isfail(r) || (wf(r) && noid(r))
  ensures isfail(r) && mval(key.index) == ev(value) ==> !sat(s)
  ensures !isfail(r) && mval(key.index) == ev(value) ==> (sat(r) <==> sat(s))
  ensures !isfail(r) && bmem(s, key.index, canon(value)) ==> bmem(r, key.index, canon(value))
  ensures old(has_changed_top) ==> has_changed_top
  ensures isfail(r) || bclr(r, key.index)
  ensures isfail(r) || has_changed_top || bcs(r) == bcs(s)
  loop 1 {
    invariant wf(s) && noid(s)
    invariant mval(key.index) == ev(value) ==> (sat(s) <==> sat(old(s)))
    invariant bmem(old(s), key.index, canon(value)) ==> bmem(s, key.index, canon(value))
    invariant old(has_changed_top) ==> has_changed_top
    invariant has_changed || bclr(s, key.index)
    invariant has_changed_top || bcs(s) == bcs(old(s))
  }
  loop 2 {
    invariant wf(s_tmp) && noid(s_tmp)
    invariant forall k int {bhas(s_tmp, k)} :: bhas(s_tmp, k) ==> bhas(_xs[:_k], k)
    invariant mval(key.index) == ev(value) ==> (sat(s_tmp) <==> sat(_xs[:_k]))
    invariant bmem(_xs[:_k], key.index, canon(value)) ==> bmem(s_tmp, key.index, canon(value))
    invariant bclr(s_tmp, key.index)
    invariant has_changed || bcs(s_tmp) == bcs(_xs[:_k])
  }
}
// no bound variable occurs in a value
define solved(s []Unif.Substitution, n int) bool = forall j int {s[j]} :: 0 <= j && j < n && j < len(s) ==> bclr(s, s[j].k.index)
lemma fail_mem(f []Unif.Substitution, k int, c any) @C12 {
  manual
  induction f
  requires isfail(f) && bmem(f, k, c)
  ensures k == -1 && c == mcan(-1)
  trigger bmem(f, k, c)
}
func Unif.Eliminate(s) @C12 {
  uses bcs_bclr, fail_mem, occ_small, ev_canon, noid_at, fun_moccs, fun_evs
  modifies s
  requires nn(s) && (headfail(s) || (wf(s) && noid(s)))
  ensures stands(s, !headfail(old(s)) && sat(old(s))) && nn(s)
  ensures isfail(s) || solved(s, len(s))
  loop 1 { invariant nn(s) && 0 <= 0 && (if headfail(old(s)) then headfail(s) && has_changed else wf(s) && noid(s) && (sat(s) <==> sat(old(s))))
           invariant has_changed || solved(s, len(s)) }
  loop 2 { invariant nn(s) && 0 <= i && (if headfail(old(s)) then headfail(s) && i == 0 else wf(s) && noid(s) && (sat(s) <==> sat(old(s))))
           invariant has_changed || solved(s, i) }
}
// a binding X -> Y is redundant beside Y -> X
lemma elim_drop(m []Unif.Substitution, s []Unif.Substitution, i int) @C12 {
  manual
  uses bget_at, bget_bmem, sat_bget
  requires distinct(s) && 0 <= i && i < len(s) && bhas(m, s[i].k.index) && sat(m)
  requires forall a int, c any {bmem(m, a, c)} :: bmem(m, a, c) ==> bmem(s, a, c)
  ensures bget(s, s[i].k.index) == bget(m, s[i].k.index)
  ensures mval(s[i].k.index) == ev(bget(m, s[i].k.index))
  ensures bget(s, s[i].k.index) == canon(s[i].v)
  ensures mval(s[i].k.index) == ev(canon(s[i].v))
  trigger bhas(m, s[i].k.index), distinct(s)
}
lemma elim_drop2(m []Unif.Substitution, s []Unif.Substitution, i int, k int) @C12 {
  manual
  uses elim_drop
  requires distinct(s) && 0 <= i && i < len(s) && bhas(m, s[i].k.index) && canon(s[i].v) == mcan(k) && sat(m)
  requires forall a int, c any {bmem(m, a, c)} :: bmem(m, a, c) ==> bmem(s, a, c)
  ensures mval(s[i].k.index) == ev(canon(s[i].v))
  ensures ev(mcan(k)) == mval(k)
  ensures mval(s[i].k.index) == mval(k)
  trigger bhas(m, s[i].k.index), distinct(s), mval(k)
}
func Unif.EliminateMeta(subst) @C12 {
  uses distinct_sub, elim_drop2
  modifies subst
  requires distinct(subst) && nn(subst)
  ensures nn(subst) && (noid(old(subst)) ==> noid(subst)) && (headfail(old(subst)) ==> headfail(subst))
  ensures forall k int {bhas(subst, k)} :: bhas(subst, k) ==> bhas(old(subst), k)
  ensures distinct(subst) && (sat(subst) <==> sat(old(subst)))
  ensures forall k int, c any {bmem(subst, k, c)} :: bmem(subst, k, c) ==> bmem(old(subst), k, c)
  loop 1 {
    invariant len(meta) <= _k && nn(meta) && (noid(_xs[:_k]) ==> noid(meta)) && (headfail(_xs) && _k > 0 ==> headfail(meta))
    invariant distinct(meta) && (sat(meta) <==> sat(_xs[:_k]))
    invariant forall k int, c any {bmem(meta, k, c)} :: bmem(meta, k, c) ==> bmem(_xs, k, c)
    invariant forall k int {bhas(meta, k)} :: bhas(meta, k) ==> bhas(_xs[:_k], k)
    invariant forall k int, c any {bmem(meta, k, c)} :: bmem(meta, k, c) ==> bmem(_xs[:_k], k, c)
  }
}

func Unif.Machine.addUnifications(m, term1, term2)(r) @C12 {
  trusted "the code-tree unification machine: goes through goroutines and channels, checked by the bounded harness only"
  modifies m
  requires wf(m.meta) && noid(m.meta)
  ensures r == 2 ==> nn(m.meta) && stands(m.meta, sat(old(m.meta)) && ev(term1) == ev(term2))
  ensures r != 2 ==> !(sat(old(m.meta)) && ev(term1) == ev(term2))
}
func Unif.AddUnification(term1, term2, subst)(r) @C12 {
  uses ev_same, one_distinct, one_bhas
  owns subst
  requires wf(subst) && noid(subst)
  requires is[AST.Meta](term1) || is[AST.Meta](term2) || (is[AST.Fun](term1) && is[AST.Fun](term2))
  requires (is[AST.Meta](term1) ==> as[AST.Meta](term1).index != -1) && (is[AST.Meta](term2) && !is[AST.Meta](term1) ==> as[AST.Meta](term2).index != -1)
  ensures stands(r, sat(subst) && ev(term1) == ev(term2))
}
func Unif.MergeSubstitutions(s1, s2)(r, same) @C12 {
  uses ev_same, noid_at, distinct_sub, one_distinct, one_bhas
  requires wf(s1) && noid(s1) && wf(s2) && noid(s2)
  ensures stands(r, sat(s1) && sat(s2))
  loop 1 {
    invariant wf(res) && noid(res) && nn(res) && (sat(res) <==> sat(_xs[:_k]))
    invariant forall k int {bhas(res, k)} :: bhas(res, k) ==> bhas(_xs[:_k], k)
  }
  loop 2 { invariant nn(res) && stands(res, sat(s1) && sat(_xs[:_k])) }
}
