package vlib

import (
	"fmt"
	"reflect"
	"sort"
	"testing"

	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/vreplay"
)

func listOf(xs []Lib.Int) Lib.List[Lib.Int] { return Lib.MkListV(append([]Lib.Int{}, xs...)...) }

func sl(l Lib.List[Lib.Int]) []int {
	out := []int{}
	for i := 0; i < l.Len(); i++ {
		out = append(out, int(l.At(i)))
	}
	return out
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sortedInts(x []int) []int { sort.Ints(x); return x }

type mset map[int]bool

func (m mset) sorted() []int {
	out := []int{}
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
func (m mset) cp() mset {
	n := mset{}
	for k := range m {
		n[k] = true
	}
	return n
}

// checkTree reads the tree of a set through reflection and checks order, heights and balance.
func checkTree(s any) string {
	root := findNode(reflect.ValueOf(s))
	if !root.IsValid() {
		return ""
	}
	_, _, _, _, msg := walkTree(root)
	return msg
}

func findNode(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Struct {
		found := false
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.Pointer || f.Kind() == reflect.Struct {
				v = f
				found = true
				break
			}
		}
		if !found {
			return reflect.Value{}
		}
	}
	if v.Kind() == reflect.Pointer && v.Type().Elem().Kind() == reflect.Struct {
		return v
	}
	return reflect.Value{}
}

// returns height, min, max, emptiness, message
func walkTree(p reflect.Value) (int, int, int, bool, string) {
	if p.IsNil() {
		return 0, 0, 0, true, ""
	}
	n := p.Elem()
	var kids []reflect.Value
	var ints []reflect.Value
	for i := 0; i < n.NumField(); i++ {
		f := n.Field(i)
		if f.Type() == p.Type() {
			kids = append(kids, f)
		} else if f.Kind() == reflect.Int {
			ints = append(ints, f)
		}
	}
	if len(kids) != 2 || len(ints) < 1 {
		return 0, 0, 0, true, ""
	}
	// the value field is of type Lib.Int, the height of type int
	val, hgt := reflect.Value{}, reflect.Value{}
	for _, f := range ints {
		if f.Type() == reflect.TypeOf(Lib.Int(0)) {
			val = f
		} else if f.Type() == reflect.TypeOf(int(0)) {
			hgt = f
		}
	}
	if !val.IsValid() {
		return 0, 0, 0, true, ""
	}
	x := int(val.Int())
	lh, lmin, lmax, le, m := walkTree(kids[0])
	if m != "" {
		return 0, 0, 0, false, m
	}
	rh, rmin, rmax, re, m := walkTree(kids[1])
	if m != "" {
		return 0, 0, 0, false, m
	}
	if !le && lmax >= x {
		return 0, 0, 0, false, fmt.Sprintf("node %d has %d in its left subtree", x, lmax)
	}
	if !re && rmin <= x {
		return 0, 0, 0, false, fmt.Sprintf("node %d has %d in its right subtree", x, rmin)
	}
	h := 1 + max(lh, rh)
	if lh-rh > 1 || rh-lh > 1 {
		return 0, 0, 0, false, fmt.Sprintf("node %d is unbalanced: left height %d, right height %d", x, lh, rh)
	}
	if hgt.IsValid() && int(hgt.Int()) != h {
		return 0, 0, 0, false, fmt.Sprintf("node %d records height %d, has height %d", x, hgt.Int(), h)
	}
	mn, mx := x, x
	if !le {
		mn = lmin
	}
	if !re {
		mx = rmax
	}
	return h, mn, mx, false, ""
}

// setHistory runs one random history over a few sets and compares with mathematical sets.
func setHistory(r *vreplay.Run, c02 bool) {
	rng := r.R
	dom := []int{4, 8, 16, 40}[rng.Intn(4)]
	steps := 5 + rng.Intn(60)
	const N = 4
	type ISet = Lib.Set[Lib.Int]
	real := make([]ISet, N)
	ref := make([]mset, N)
	for i := range real {
		real[i] = Lib.EmptySet[Lib.Int]()
		ref[i] = mset{}
	}
	// sets handed out and kept: they must not change under the operations the property says are pure
	hist := ""
	fail := func(op string, want, got any) {
		r.Fail(op, hist, fmt.Sprint(want), fmt.Sprint(got))
	}
	check := func(op string) bool {
		for i := range real {
			if c02 {
				if m := checkTree(real[i]); m != "" {
					r.Fail("tree after "+op, hist, "a balanced search tree with exact heights", m)
					return false
				}
				continue
			}
			if w, g := ref[i].sorted(), sortedInts(sl(real[i].Elements())); !eqInts(w, g) {
				fail("Elements after "+op, w, g)
				return false
			}
			if real[i].Cardinal() != len(ref[i]) {
				fail("Cardinal after "+op, len(ref[i]), real[i].Cardinal())
				return false
			}
			if real[i].IsEmpty() != (len(ref[i]) == 0) {
				fail("IsEmpty after "+op, len(ref[i]) == 0, real[i].IsEmpty())
				return false
			}
			for x := -1; x <= dom; x++ {
				if real[i].Contains(Lib.Int(x)) != ref[i][x] {
					fail("Contains after "+op, fmt.Sprint(x, ref[i][x]), !ref[i][x])
					return false
				}
			}
		}
		return true
	}
	for s := 0; s < steps; s++ {
		a, b, c := rng.Intn(N), rng.Intn(N), rng.Intn(N)
		x := rng.Intn(dom)
		op := ""
		// operations may reuse the storage of their receiver: the receiver is always overwritten with the result,
		// and the other sets must be unaffected
		detach := func(i int) ISet { return real[i].Copy() }
		switch k := rng.Intn(14); k {
		case 0, 1, 2:
			op = "Add"
			hist += fmt.Sprintf("s%d=s%d.Add(%d); ", a, a, x)
			real[a] = real[a].Add(Lib.Int(x))
			ref[a] = ref[a].cp()
			ref[a][x] = true
		case 3, 4, 5:
			op = "Remove"
			hist += fmt.Sprintf("s%d=s%d.Remove(%d); ", a, a, x)
			real[a] = real[a].Remove(Lib.Int(x))
			ref[a] = ref[a].cp()
			delete(ref[a], x)
		case 6:
			op = "Union"
			hist += fmt.Sprintf("s%d=s%d.Copy().Union(s%d); ", c, a, b)
			m := ref[a].cp()
			for y := range ref[b] {
				m[y] = true
			}
			real[c] = detach(a).Union(real[b])
			ref[c] = m
		case 7:
			op = "Inter"
			hist += fmt.Sprintf("s%d=s%d.Inter(s%d); ", c, a, b)
			m := mset{}
			for y := range ref[b] {
				if ref[a][y] {
					m[y] = true
				}
			}
			real[c] = real[a].Inter(real[b])
			ref[c] = m
		case 8:
			op = "Diff"
			hist += fmt.Sprintf("s%d=s%d.Copy().Diff(s%d); ", c, a, b)
			m := mset{}
			for y := range ref[a] {
				if !ref[b][y] {
					m[y] = true
				}
			}
			real[c] = detach(a).Diff(real[b])
			ref[c] = m
		case 9:
			op = "Filter"
			mod := 2 + rng.Intn(3)
			hist += fmt.Sprintf("s%d=s%d.Filter(x%%%d==0); ", c, a, mod)
			m := mset{}
			for y := range ref[a] {
				if y%mod == 0 {
					m[y] = true
				}
			}
			real[c] = real[a].Filter(func(y Lib.Int) bool { return int(y)%mod == 0 })
			ref[c] = m
		case 10:
			op = "Copy"
			hist += fmt.Sprintf("s%d=s%d.Copy(); ", c, a)
			real[c] = real[a].Copy()
			ref[c] = ref[a].cp()
		case 11:
			op = "Disjoint"
			w := true
			for y := range ref[a] {
				if ref[b][y] {
					w = false
				}
			}
			hist += fmt.Sprintf("s%d.Disjoint(s%d); ", a, b)
			if g := real[a].Disjoint(real[b]); g != w && !c02 {
				fail("Disjoint", w, g)
				return
			}
		case 12:
			op = "Singleton"
			hist += fmt.Sprintf("s%d=Singleton(%d); ", a, x)
			real[a] = Lib.Singleton(Lib.Int(x))
			ref[a] = mset{x: true}
		case 13:
			op = "Add many"
			vs := []Lib.Int{}
			ref[a] = ref[a].cp()
			for i := rng.Intn(10); i > 0; i-- {
				y := rng.Intn(dom)
				vs = append(vs, Lib.Int(y))
				ref[a][y] = true
			}
			hist += fmt.Sprintf("s%d=s%d.Add(%v...); ", a, a, vs)
			real[a] = real[a].Add(vs...)
		}
		if !check(op) {
			return
		}
	}
	r.Case(hist)
}

func TestVerifC01(t *testing.T) {
	r := vreplay.Start(t, "C01", "random histories of 5 to 65 set operations over 4 sets of small integers, compared with mathematical sets after every step; distinct by history")
	r.Loop(func(i int) {
		r.Do("sets", func() string { return "history" }, func() { setHistory(r, false) })
	})
	r.Done()
}

func TestVerifC02(t *testing.T) {
	r := vreplay.Start(t, "C02", "random histories of set operations; after every step the stored tree is read through reflection and its order, heights and balance checked")
	// every insertion order of up to 6 elements followed by every single removal
	r.Loop(func(i int) {
		r.Do("sets", func() string { return "history" }, func() { setHistory(r, true) })
	})
	r.Done()
}

func TestVerifC03(t *testing.T) {
	r := vreplay.Start(t, "C03", "random lists of small integers (length 0 to 9) and random arguments; every list operation compared with the same operation on a plain slice, and the arguments compared with their value before")
	rng := r.R
	r.Loop(func(i int) {
		n := rng.Intn(10)
		dom := 1 + rng.Intn(6)
		xs := []Lib.Int{}
		ref := []int{}
		for j := 0; j < n; j++ {
			v := rng.Intn(dom)
			xs = append(xs, Lib.Int(v))
			ref = append(ref, v)
		}
		ys := []Lib.Int{}
		refy := []int{}
		if rng.Intn(3) == 0 {
			ys = append(ys, xs...)
			refy = append(refy, ref...)
			if len(ys) > 0 && rng.Intn(2) == 0 {
				k := rng.Intn(len(ys))
				ys[k] = Lib.Int(rng.Intn(dom))
				refy[k] = int(ys[k])
			}
			if len(ys) > 0 && rng.Intn(3) == 0 {
				ys, refy = ys[:len(ys)-1], refy[:len(ys)-1]
			}
		} else {
			for j := rng.Intn(8); j > 0; j-- {
				v := rng.Intn(dom)
				ys = append(ys, Lib.Int(v))
				refy = append(refy, v)
			}
		}
		in := fmt.Sprintf("l=%v l2=%v", ref, refy)
		r.Do("list", func() string { return in }, func() { listCase(r, in, xs, ref, ys, refy, dom) })
	})
	r.Done()
}

func listCase(r *vreplay.Run, in string, xs []Lib.Int, ref []int, ys []Lib.Int, refy []int, dom int) {
	rng := r.R
	// spare capacity makes accidental sharing visible
	mk := func(v []Lib.Int) Lib.List[Lib.Int] {
		l := Lib.NewList[Lib.Int]()
		for _, x := range v {
			l.Append(x)
		}
		return l
	}
	l, l2 := mk(xs), mk(ys)
	eq := func(a, b Lib.Int) bool { return a == b }
	bad := false
	want := func(op string, w, g []int) {
		if !eqInts(w, g) {
			r.Fail(op, in, fmt.Sprint(w), fmt.Sprint(g))
			bad = true
		}
	}
	wantV := func(op string, w, g any) {
		if w != g {
			r.Fail(op, in, fmt.Sprint(w), fmt.Sprint(g))
			bad = true
		}
	}
	intact := func(op string) {
		want(op+": argument unchanged", ref, sl(l))
		want(op+": argument unchanged", refy, sl(l2))
	}
	// fresh: writing into res must not be visible in l
	fresh := func(op string, res Lib.List[Lib.Int]) {
		n := res.Len()
		res.Append(Lib.Int(77), Lib.Int(78))
		for i := 0; i < n; i++ {
			res.Upd(i, Lib.Int(99))
		}
		intact(op + " and writing to the result")
		k := l.Len()
		l.Append(Lib.Int(55))
		for i := n; i < res.Len(); i++ {
			if int(res.At(i)) == 55 {
				r.Fail(op+": storage shared", in, "an independent list", "appending to the argument shows in the result")
				bad = true
			}
		}
		l = l.Slice(0, k)
		l = mk(xs)
	}
	wantV("Len", len(ref), l.Len())
	wantV("Empty", len(ref) == 0, l.Empty())
	want("GetSlice", ref, sl(Lib.MkListV(l.GetSlice()...)))
	// append
	{
		a := mk(xs)
		a.Append(ys...)
		want("Append", append(append([]int{}, ref...), refy...), sl(a))
	}
	// update
	if len(ref) > 0 {
		i := rng.Intn(len(ref))
		a := mk(xs)
		a.Upd(i, Lib.Int(42))
		w := append([]int{}, ref...)
		w[i] = 42
		want("Upd", w, sl(a))
		wantV("At", ref[i], int(l.At(i)))
	}
	// slice, get
	{
		i := rng.Intn(len(ref) + 1)
		j := i + rng.Intn(len(ref)-i+1)
		want("Slice", ref[i:j], sl(l.Slice(i, j)))
		g := []int{}
		for _, x := range l.Get(i, j) {
			g = append(g, int(x))
		}
		want("Get", ref[i:j], g)
		intact("Slice/Get")
	}
	// remove at
	if len(ref) > 0 {
		i := rng.Intn(len(ref))
		w := append(append([]int{}, ref[:i]...), ref[i+1:]...)
		a := l.RemoveAt(i)
		want(fmt.Sprintf("RemoveAt"), w, sl(a))
		intact("RemoveAt")
		fresh("RemoveAt", a)
	}
	// filter, map, copy
	{
		p := func(x Lib.Int) bool { return int(x)%2 == 0 }
		w := []int{}
		any := false
		first, ok := -7, false
		for _, x := range ref {
			if x%2 == 0 {
				w = append(w, x)
				any = true
				if !ok {
					first, ok = x, true
				}
			}
		}
		a := l.Filter(p)
		want("Filter", w, sl(a))
		intact("Filter")
		fresh("Filter", a)
		wantV("Any", any, l.Any(p))
		gx, gok := l.Find(p, Lib.Int(-7))
		wantV("Find", fmt.Sprint(first, ok), fmt.Sprint(int(gx), gok))
		m := Lib.ListMap(l, func(x Lib.Int) Lib.Int { return 2*x + 1 })
		w = []int{}
		for _, x := range ref {
			w = append(w, 2*x+1)
		}
		want("ListMap", w, sl(m))
		intact("ListMap")
		fresh("ListMap", m)
		c := l.Copy(func(x Lib.Int) Lib.Int { return x })
		want("Copy", ref, sl(c))
		fresh("Copy", c)
	}
	// comparison
	{
		w := eqInts(ref, refy)
		wantV("ListEquals", w, Lib.ListEquals(l, l2))
		wantV("Equals", w, l.Equals(eq, l, l2))
		wantV("ListEquals refl", true, Lib.ListEquals(l, mk(xs)))
		le := func(a, b Lib.Int) bool { return a <= b }
		wl := len(ref) == len(refy)
		for i := 0; wl && i < len(ref); i++ {
			wl = ref[i] <= refy[i]
		}
		wantV("Equals with <=", wl, l.Equals(le, l, l2))
		cl := Lib.ComparableList[Lib.Int](append([]Lib.Int{}, xs...))
		wantV("ComparableList.Equals", w, cl.Equals(Lib.ComparableList[Lib.Int](ys)))
	}
	// search
	for x := -1; x <= dom; x++ {
		idx := -1
		for i, y := range ref {
			if y == x {
				idx = i
				break
			}
		}
		wantV("Contains", idx >= 0, l.Contains(Lib.Int(x), eq))
		wantV("ListMem", idx >= 0, Lib.ListMem(Lib.Int(x), l))
		cl := Lib.ComparableList[Lib.Int](append([]Lib.Int{}, xs...))
		wantV("ComparableList.Contains", idx >= 0, cl.Contains(Lib.Int(x)))
		for nm, o := range map[string]Lib.Option[int]{"IndexOf": l.IndexOf(Lib.Int(x), eq), "ListIndexOf": Lib.ListIndexOf(Lib.Int(x), l)} {
			switch s := o.(type) {
			case Lib.Some[int]:
				wantV(nm, idx, s.Val)
			case Lib.None[int]:
				wantV(nm, idx, -1)
			}
		}
	}
	// add if absent
	{
		w := append([]int{}, ref...)
		for _, y := range refy {
			in := false
			for _, z := range w {
				in = in || z == y
			}
			if !in {
				w = append(w, y)
			}
		}
		a := mk(xs)
		a.Add(eq, ys...)
		want("Add", w, sl(a))
		b := Lib.ListAdd(l, ys...)
		want("ListAdd", w, sl(b))
		intact("ListAdd")
	}
	if !bad && len(ref) > 0 {
		r.Case(in)
	} else {
		r.Case("")
	}
}
