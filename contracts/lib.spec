//packages: ./Lib

// ------------------------------------------------------------------ AVL trees
// The abstract value of a tree is the set of keys it contains; elements are compared with
// Less/Equals, which the contract of Ordered describes through a key in a dense linear order.

function ht[T](n *Lib.Node[T]) int = if n == nil then 0 else n.height

function tmem[T](n *Lib.Node[T], k real) bool {
  case nil: false
  case node m: k == key(m.value) || tmem(m.left, k) || tmem(m.right, k)
}

function tin[T](n *Lib.Node[T], x T) bool {
  case nil: false
  case node m: x == m.value || tin(m.left, x) || tin(m.right, x)
}

function bst[T](n *Lib.Node[T]) bool {
  case nil: true
  case node m: bst(m.left) && bst(m.right)
     && (forall j real {tmem(m.left, j)} :: tmem(m.left, j) ==> j < key(m.value))
     && (forall j real {tmem(m.right, j)} :: tmem(m.right, j) ==> key(m.value) < j)
}

function avl[T](n *Lib.Node[T]) bool {
  case nil: true
  case node m: avl(m.left) && avl(m.right) && m.height == 1 + max(ht(m.left), ht(m.right))
     && ht(m.left) - ht(m.right) <= 1 && ht(m.right) - ht(m.left) <= 1
}

function tcard[T](n *Lib.Node[T]) int {
  case nil: 0
  case node m: 1 + tcard(m.left) + tcard(m.right)
}

lemma avl_height[T:Ordered](n *Lib.Node[T]) @C02 {
  induction n
  requires avl(n)
  ensures ht(n) >= 0 && (n != nil ==> ht(n) >= 1)
  trigger avl(n)
}

lemma tin_tmem[T:Ordered](n *Lib.Node[T], x T) @C01 {
  induction n
  requires tin(n, x)
  ensures tmem(n, key(x))
  trigger tin(n, x)
}

lemma root_in[T:Ordered](n *Lib.Node[T]) @C01 {
  requires n != nil
  ensures tmem(n, key(n.value)) && tin(n, n.value)
  trigger bst(n)
}

lemma tmem_up[T:Ordered](n *Lib.Node[T], k real) @C01 {
  requires n != nil && (tmem(n.left, k) || tmem(n.right, k))
  ensures tmem(n, k)
  trigger tmem(n.left, k)
  trigger tmem(n.right, k)
}

lemma tin_unique[T:Ordered](n *Lib.Node[T], x T, y T) @C01 {
  induction n
  requires bst(n) && tin(n, x) && tin(n, y) && key(x) == key(y)
  ensures x == y
  trigger tin(n, x), tin(n, y)
}

lemma tmem_tin[T:Ordered](n *Lib.Node[T], k real) @C01 {
  manual
  induction n
  requires tmem(n, k)
  ensures exists x T {key(x)} :: tin(n, x) && key(x) == k
  trigger tmem(n, k)
}

lemma card_pos[T:Ordered](n *Lib.Node[T]) @C01 {
  induction n
  ensures tcard(n) >= 0
  trigger tcard(n)
}

func Lib.height[T](node)(r) @C02 { ensures r == ht(node) }

func Lib.mkNode[T](x)(r) @C01,C02 {
  fresh r
  ensures r != nil && r.left == nil && r.right == nil && r.height == 1
  ensures r.value == x
}

func Lib.balance[T](node)(r) @C02 {
  ensures r == (if node == nil then 0 else ht(node.left) - ht(node.right))
}

func Lib.newHeight[T](node)(r) @C02 {
  requires node != nil
  ensures r == 1 + max(ht(node.left), ht(node.right))
}

func Lib.rebalance[T](node)(r) @C01,C02 {
  owns node
  fresh r
  requires node != nil
  requires bst(node) && avl(node.left) && avl(node.right)
  requires node.height == 1 + max(ht(node.left), ht(node.right))
  requires ht(node.left) - ht(node.right) <= 2 && ht(node.right) - ht(node.left) <= 2
  ensures[bst]@C01 bst(r)
  ensures[members]@C01 forall k real {tmem(r,k)} :: tmem(r,k) <==> tmem(node,k)
  ensures[elements]@C01 forall x T {tin(r,x)} :: tin(r,x) <==> tin(node,x)
  ensures[avl]@C02 avl(r)
  ensures[card]@C01 tcard(r) == tcard(node)
  ensures[height]@C02 ht(r) == ht(node) || ht(r) == ht(node) - 1
  ensures[same]@C02 ht(node.left) - ht(node.right) <= 1 && ht(node.right) - ht(node.left) <= 1 ==> ht(r) == ht(node)
}

func Lib.insert[T](node, x)(r) @C01,C02 {
  owns node
  fresh r
  requires bst(node) && avl(node)
  ensures[bst]@C01 bst(r)
  ensures[members]@C01 forall k real {tmem(r,k)} :: tmem(r,k) <==> (k == key(x) || tmem(node,k))
  ensures[elements]@C01 forall y T {tin(r,y)} :: tin(r,y) <==> (tin(node,y) || (y == x && !tmem(node,key(x))))
  ensures[card]@C01 tcard(r) == tcard(node) + (if tmem(node,key(x)) then 0 else 1)
  ensures[avl]@C02 avl(r)
  ensures[height]@C02 ht(node) <= ht(r) && ht(r) <= ht(node) + 1
  ensures r != nil
}

func Lib.minValue[T](node)(r) @C01 {
  requires node != nil && bst(node)
  ensures tmem(node, key(r)) && tin(node, r)
  ensures forall k real {tmem(node,k)} :: tmem(node,k) ==> key(r) <= k
}

func Lib.remove[T](node, x)(r) @C01,C02 {
  owns node
  fresh r
  requires bst(node) && avl(node)
  ensures[bst]@C01 bst(r)
  ensures[members]@C01 forall k real {tmem(r,k)} :: tmem(r,k) <==> (k != key(x) && tmem(node,k))
  ensures[elements]@C01 forall y T {tin(r,y)} :: tin(r,y) <==> (tin(node,y) && key(y) != key(x))
  ensures[card]@C01 tcard(r) == tcard(node) - (if tmem(node,key(x)) then 1 else 0)
  ensures[avl]@C02 avl(r)
  ensures[height]@C02 ht(node) - 1 <= ht(r) && ht(r) <= ht(node)
}

func Lib.find[T](node, x)(r) @C01 {
  requires bst(node)
  ensures r == tmem(node, key(x))
}

func Lib.cardinal[T](node)(r) @C01 { ensures r == tcard(node) }

// ------------------------------------------------------------------ sequences

function sin[T](s []T, x T) bool {
  case emptyseq: false
  case snoc p y: sin(p, x) || x == y
}

function skey[T](s []T, k real) bool {
  case emptyseq: false
  case snoc p y: skey(p, k) || k == key(y)
}

lemma sin_cat[T:any](s []T, t []T, x T) @C01,C03 {
  induction t
  ensures sin(s + t, x) == (sin(s, x) || sin(t, x))
  trigger sin(s + t, x)
}

lemma skey_cat[T:Ordered](s []T, t []T, k real) @C01 {
  induction t
  ensures skey(s + t, k) == (skey(s, k) || skey(t, k))
  trigger skey(s + t, k)
}

lemma sin_at[T:any](s []T, i int) @C01,C03 {
  requires 0 <= i && i < len(s)
  ensures sin(s, s[i])
  induction s
  trigger sin(s, s[i])
}

lemma sin_idx[T:any](s []T, x T) @C01,C03 {
  requires sin(s, x)
  ensures exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == x
  induction s
  trigger sin(s, x)
}

lemma sin_sub[T:any](s []T, i int, j int, x T) @C01,C03 {
  requires 0 <= i && i <= j && j <= len(s) && sin(s[i:j], x)
  ensures sin(s, x)
  trigger sin(s[i:j], x)
}

lemma sin_skey[T:Ordered](s []T, x T) @C01 {
  requires sin(s, x)
  ensures skey(s, key(x))
  induction s
  trigger sin(s, x)
}

lemma skey_at[T:Ordered](s []T, i int) @C01 {
  requires 0 <= i && i < len(s)
  ensures skey(s, key(s[i]))
  induction s
  trigger skey(s, key(s[i]))
}

lemma skey_idx[T:Ordered](s []T, k real) @C01 {
  requires skey(s, k)
  ensures exists i int {s[i]} :: 0 <= i && i < len(s) && key(s[i]) == k
  induction s
  trigger skey(s, k)
}

func Lib.elements[T](node)(r) @C01 {
  fresh r
  ensures[members] forall x T {sin(r.values, x)} {tin(node,x)} :: sin(r.values, x) == tin(node, x)
  ensures[keys] forall k real {skey(r.values, k)} {tmem(node,k)} :: skey(r.values, k) == tmem(node, k)
  ensures[once] len(r.values) == tcard(node)
}

func Lib.nodeCpy[T](node)(r) @C01,C02 {
  fresh r
  ensures[same]@C01,C02 r == node
}

typeinv[T] Lib.Set[T] (s) = bst(s.root) && avl(s.root)

define smem[T](s Lib.Set[T], k real) bool = tmem(s.root, k)
define elem[T](s Lib.Set[T], x T) bool = tin(s.root, x)

func Lib.mkSet[T](root)(r) { inline }

func Lib.EmptySet[T]()(r) @C01 {
  fresh r
  ensures r.root == nil
}

func Lib.Set.Add[T](s, values)(r) @C01,C02 {
  owns s
  fresh r
  ensures[members] forall k real {smem(r,k)} {skey(values,k)} :: smem(r,k) <==> (smem(s,k) || skey(values,k))
  ensures[elements] forall x T {elem(r,x)} :: elem(s,x) ==> elem(r,x)
  ensures[elements] forall x T {elem(r,x)} :: elem(r,x) ==> elem(s,x) || sin(values,x)
  loop 1 {
    invariant forall k real {smem(s,k)} :: smem(s,k) <==> (smem(old(s),k) || skey(values[:_k],k))
    invariant forall x T {elem(s,x)} :: elem(old(s),x) ==> elem(s,x)
    invariant forall x T {elem(s,x)} :: elem(s,x) ==> elem(old(s),x) || sin(values[:_k],x)
    invariant bst(s.root) && avl(s.root)
  }
}

func Lib.Singleton[T](x)(r) @C01,C02 {
  fresh r
  ensures forall k real {smem(r,k)} :: smem(r,k) <==> k == key(x)
  ensures forall y T {elem(r,y)} :: elem(r,y) <==> y == x
}

func Lib.Set.Remove[T](s, x)(r) @C01,C02 {
  owns s
  fresh r
  ensures forall k real {smem(r,k)} :: smem(r,k) <==> (smem(s,k) && k != key(x))
  ensures forall y T {elem(r,y)} :: elem(r,y) <==> (elem(s,y) && key(y) != key(x))
}

func Lib.Set.Elements[T](s)(r) @C01 {
  fresh r
  ensures forall x T {sin(r.values, x)} {elem(s,x)} :: sin(r.values, x) == elem(s, x)
  ensures forall k real {skey(r.values, k)} {smem(s,k)} :: skey(r.values, k) == smem(s, k)
  ensures len(r.values) == tcard(s.root)
}

func Lib.Set.Contains[T](s, x)(r) @C01 { ensures r == smem(s, key(x)) }

func Lib.Set.Union[T](s0, s1)(r) @C01,C02 {
  owns s0
  fresh r
  ensures[members] forall k real {smem(r,k)} :: smem(r,k) <==> (smem(s0,k) || smem(s1,k))
  ensures[elements] forall x T {elem(r,x)} :: elem(s0,x) ==> elem(r,x)
  ensures[elements] forall x T {elem(r,x)} :: elem(r,x) ==> elem(s0,x) || elem(s1,x)
  loop 1 {
    invariant forall k real {smem(s0,k)} :: smem(s0,k) <==> (smem(old(s0),k) || skey(_xs[:_k],k))
    invariant forall x T {elem(s0,x)} :: elem(old(s0),x) ==> elem(s0,x)
    invariant forall x T {elem(s0,x)} :: elem(s0,x) ==> elem(old(s0),x) || sin(_xs[:_k],x)
    invariant bst(s0.root) && avl(s0.root)
  }
}

func Lib.Set.Inter[T](s0, s1)(r) @C01,C02 {
  fresh r
  ensures[members] forall k real {smem(r,k)} :: smem(r,k) <==> (smem(s0,k) && smem(s1,k))
  ensures[elements] forall x T {elem(r,x)} :: elem(r,x) ==> elem(s1,x)
  loop 1 {
    invariant forall k real {smem(s2,k)} :: smem(s2,k) <==> (smem(s0,k) && skey(_xs[:_k],k))
    invariant forall x T {elem(s2,x)} :: elem(s2,x) ==> sin(_xs[:_k],x)
    invariant bst(s2.root) && avl(s2.root)
  }
}

func Lib.Set.Diff[T](s0, s1)(r) @C01,C02 {
  owns s0
  fresh r
  ensures[members] forall k real {smem(r,k)} :: smem(r,k) <==> (smem(s0,k) && !smem(s1,k))
  ensures[elements] forall x T {elem(r,x)} :: elem(r,x) ==> elem(s0,x)
  loop 1 {
    invariant forall k real {smem(s0,k)} :: smem(s0,k) <==> (smem(old(s0),k) && !skey(_xs[:_k],k))
    invariant forall x T {elem(s0,x)} :: elem(s0,x) ==> elem(old(s0),x)
    invariant bst(s0.root) && avl(s0.root)
  }
}

func slices.ContainsFunc[S,E](s, f)(r) {
  trusted "standard library: reports whether some element satisfies f"
  ensures r <==> (exists i int {s[i]} :: 0 <= i && i < len(s) && f(s[i]))
}

func Lib.Set.Disjoint[T](s0, s1)(r) @C01 {
  ensures r <==> (forall k real {smem(s0,k)} {smem(s1,k)} :: !(smem(s0,k) && smem(s1,k)))
}

func Lib.Set.Cardinal[T](s)(r) @C01 { ensures r == tcard(s.root) }
func Lib.Set.IsEmpty[T](s)(r) @C01 { ensures r <==> (forall k real {smem(s,k)} :: !smem(s,k)) }

func Lib.Set.Copy[T](s)(r) @C01,C02 {
  fresh r
  ensures r == s
}

func Lib.Set.Filter[T](s, pred)(r) @C01,C02 {
  fresh r
  uses tmem_tin
  ensures[elements] forall x T {elem(r,x)} :: elem(r,x) <==> (elem(s,x) && pred(x))
  loop 1 {
    invariant forall x T {elem(res,x)} :: elem(res,x) <==> (sin(_xs[:_k],x) && pred(x))
    invariant bst(res.root) && avl(res.root)
  }
}

// ------------------------------------------------------------------ lists

define ls[T](l Lib.List[T]) []T = l.values

func Lib.MkList[T](i)(r) @C03 {
  requires i >= 0
  fresh r
  ensures len(r.values) == i
  ensures forall j int {r.values[j]} :: 0 <= j && j < i ==> r.values[j] == zero[T]()
}
func Lib.MkListV[T](sl)(r) { inline }
func Lib.NewList[T]()(r) @C03 { fresh r ensures r.values == empty[T]() }

func Lib.List.Append[T](l, value) @C03 {
  appends l
  modifies l
  ensures l.values == old(l.values) + value
}
func Lib.List.Upd[T](l, i, v) @C03 {
  owns l
  modifies l
  requires 0 <= i && i < len(l.values)
  ensures l.values == upd(old(l.values), i, v)
}
func Lib.List.Len[T](l)(r) @C03 { ensures r == len(l.values) }
func Lib.List.GetSlice[T](l)(r) { inline }
func Lib.List.At[T](l, i)(r) @C03 {
  requires 0 <= i && i < len(l.values)
  ensures r == l.values[i]
}
func Lib.List.Slice[T](l, st, ed)(r) @C03 {
  requires 0 <= st && st <= ed && ed <= len(l.values)
  ensures r.values == l.values[st:ed]
}
func Lib.List.Get[T](l, from, to)(r) @C03 {
  requires 0 <= from && from <= to && to <= len(l.values)
  ensures r == l.values[from:to]
}
func Lib.List.Equals[T](l, cmp, ls0, ls1)(r) @C03 {
  ensures r <==> (len(ls0.values) == len(ls1.values) && (forall i int {ls0.values[i]} {ls1.values[i]} :: 0 <= i && i < len(ls0.values) ==> cmp(ls0.values[i], ls1.values[i])))
  loop 1 {
    invariant forall i int {ls0.values[i]} {ls1.values[i]} :: 0 <= i && i < _k ==> cmp(ls0.values[i], ls1.values[i])
  }
}
function seqv[T](a []T, b []T) bool = len(a) == len(b) && (forall i int {a[i]} {b[i]} :: 0 <= i && i < len(a) ==> eqv(a[i], b[i]))

func Lib.ListEquals[T](ls0, ls1)(r) @C03 {
  ensures r <==> seqv(ls0.values, ls1.values)
}
func Lib.ListMap[T,U](l, f)(r) @C03 {
  fresh r
  ensures len(r.values) == len(l.values)
  ensures forall i int {r.values[i]} {l.values[i]} :: 0 <= i && i < len(l.values) ==> r.values[i] == f(l.values[i])
  loop 1 {
    invariant len(newList) == len(l.values)
    invariant forall i int {newList[i]} {l.values[i]} :: 0 <= i && i < _k ==> newList[i] == f(l.values[i])
  }
}
func Lib.List.Copy[T](l, cpyFunc)(r) @C03 {
  fresh r
  ensures len(r.values) == len(l.values)
  ensures forall i int {r.values[i]} {l.values[i]} :: 0 <= i && i < len(l.values) ==> r.values[i] == cpyFunc(l.values[i])
  loop 1 {
    invariant len(cpy.values) == len(l.values)
    invariant forall i int {cpy.values[i]} {l.values[i]} :: 0 <= i && i < _k ==> cpy.values[i] == cpyFunc(l.values[i])
  }
}
func Lib.List.Contains[T](l, x, cmpFunc)(r) @C03 {
  ensures r <==> (exists i int {l.values[i]} :: 0 <= i && i < len(l.values) && cmpFunc(x, l.values[i]))
  loop 1 {
    invariant forall i int {l.values[i]} :: 0 <= i && i < _k ==> !cmpFunc(x, l.values[i])
  }
}
function memv[T](x T, s []T) bool = exists i int {s[i]} :: 0 <= i && i < len(s) && eqv(x, s[i])

func Lib.ListMem[T](x, ls)(r) @C03 {
  ensures r <==> memv(x, ls.values)
}
func Lib.List.Empty[T](l)(r) @C03 { ensures r <==> len(l.values) == 0 }
func Lib.List.Find[T](l, pred, def)(r, found) @C03 {
  ensures found <==> (exists i int {l.values[i]} :: 0 <= i && i < len(l.values) && pred(l.values[i]))
  ensures !found ==> r == def
  ensures found ==> (exists i int {l.values[i]} :: 0 <= i && i < len(l.values) && pred(l.values[i]) && r == l.values[i] && (forall j int {l.values[j]} :: 0 <= j && j < i ==> !pred(l.values[j])))
  loop 1 {
    invariant forall i int {l.values[i]} :: 0 <= i && i < _k ==> !pred(l.values[i])
  }
}
func Lib.List.Any[T](l, pred)(r) @C03 {
  ensures r <==> (exists i int {l.values[i]} :: 0 <= i && i < len(l.values) && pred(l.values[i]))
  loop 1 {
    invariant forall i int {l.values[i]} :: 0 <= i && i < _k ==> !pred(l.values[i])
  }
}
function sfilter[T](s []T, p func(T) bool) []T {
  case emptyseq: empty[T]()
  case snoc q x: if p(x) then app(sfilter(q, p), x) else sfilter(q, p)
}
func Lib.List.Filter[T](l, pred)(r) @C03 {
  fresh r
  ensures r.values == sfilter(l.values, pred)
  loop 1 {
    invariant res.values == sfilter(l.values[:_k], pred)
  }
}
func Lib.List.RemoveAt[T](l, index)(r) @C03 {
  fresh r
  ensures 0 <= index && index < len(l.values) ==> r.values == l.values[:index] + l.values[index+1:]
  ensures !(0 <= index && index < len(l.values)) ==> r.values == l.values
  loop 1 {
    invariant index < 0 || index >= _k ==> new_list.values == l.values[:_k]
    invariant 0 <= index && index < _k ==> new_list.values == l.values[:index] + l.values[index+1:_k]
  }
}
func Lib.List.IndexOf[T](l, x, cmp)(r) @C03 {
  ensures is[Lib.Some[int]](r) ==> (let i = as[Lib.Some[int]](r).Val :: 0 <= i && i < len(l.values) && cmp(x, l.values[i]) && (forall j int {l.values[j]} :: 0 <= j && j < i ==> !cmp(x, l.values[j])))
  ensures is[Lib.Some[int]](r) <==> (exists i int {l.values[i]} :: 0 <= i && i < len(l.values) && cmp(x, l.values[i]))
  ensures is[Lib.Some[int]](r) || is[Lib.None[int]](r)
  loop 1 {
    invariant forall i int {l.values[i]} :: 0 <= i && i < _k ==> !cmp(x, l.values[i])
  }
}
func Lib.ListIndexOf[T](x, l)(r) @C03 {
  ensures is[Lib.Some[int]](r) ==> (let i = as[Lib.Some[int]](r).Val :: 0 <= i && i < len(l.values) && eqv(x, l.values[i]) && (forall j int {l.values[j]} :: 0 <= j && j < i ==> !eqv(x, l.values[j])))
  ensures is[Lib.Some[int]](r) <==> memv(x, l.values)
  ensures is[Lib.Some[int]](r) || is[Lib.None[int]](r)
}
// duplicate-free insertion
function sadd[T](t []T, s []T, c func(T, T) bool) []T {
  case emptyseq: s
  case snoc q x: let r = sadd(q, s, c) :: if (exists i int {r[i]} :: 0 <= i && i < len(r) && c(x, r[i])) then r else app(r, x)
}
func Lib.List.Add[T](l, cmpFunc, x) @C03 {
  appends l
  modifies l
  ensures l.values == sadd(x, old(l.values), cmpFunc)
  loop 1 {
    invariant l.values == sadd(x[:_k], old(l.values), cmpFunc)
  }
}
function saddv[T](t []T, s []T) []T {
  case emptyseq: s
  case snoc q x: let r = saddv(q, s) :: if memv(x, r) then r else app(r, x)
}
lemma sadd_saddv[T:Comparable](t []T, s []T, c func(T, T) bool) @C03 {
  requires forall a T, b T {c(a,b)} :: c(a,b) == eqv(a,b)
  ensures sadd(t, s, c) == saddv(t, s)
  induction t
  trigger sadd(t, s, c)
}
func Lib.ListAdd[T](l, x)(r) @C03 {
  appends l
  appendable r
  ensures r.values == saddv(x, l.values)
}
func Lib.ToStrictlyOrderedList[T](l)(r) { inline }
func Lib.StrictlyOrderedList.Len[T](l)(r) @C03 { ensures r == len(l.values.values) }
func Lib.StrictlyOrderedList.Less[T](l, i, j)(r) @C03 {
  requires 0 <= i && i < len(l.values.values) && 0 <= j && j < len(l.values.values)
  ensures r <==> key(l.values.values[i]) < key(l.values.values[j])
}
func Lib.ComparableList.Equals[T](cpbl, oth)(r) @C03 {
  ensures r <==> seqv(cpbl, oth)
  loop 1 { invariant forall i int {cpbl[i]} {oth[i]} :: 0 <= i && i < _k ==> eqv(cpbl[i], oth[i]) }
}
func Lib.ComparableList.Contains[T](cpbl, element)(r) @C03 {
  ensures r <==> (exists i int {cpbl[i]} :: 0 <= i && i < len(cpbl) && eqv(cpbl[i], element))
  loop 1 { invariant forall i int {cpbl[i]} :: 0 <= i && i < _k ==> !eqv(cpbl[i], element) }
}
