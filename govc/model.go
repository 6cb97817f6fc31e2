package main

import (
	"go/types"
	"strings"
)

type Model func(e *Exec, fr *Frame, st *State, args []Val, atys []types.Type, resT types.Type) (Val, bool)

// model returns a built-in meaning of an external function.
func (v *Ver) model(name string) Model {
	switch name {
	case "fmt.Sprintf":
		return func(e *Exec, fr *Frame, st *State, args []Val, atys []types.Type, resT types.Type) (Val, bool) {
			W.sort("Str")
			s := e.freezePeek(st, args[1], atys[1])
			W.fun("sprintf", []string{"Str", s.Sort}, "Str")
			e.note("fmt.Sprintf is a pure function of its arguments")
			return W.app("sprintf", e.peek(st, args[0], atys[0]), s), true
		}
	case "strings.Join":
		return func(e *Exec, fr *Frame, st *State, args []Val, atys []types.Type, resT types.Type) (Val, bool) {
			s := e.freezePeek(st, args[0], atys[0])
			W.fun("str_join", []string{s.Sort, "Str"}, "Str")
			e.note("strings.Join is a pure function of its arguments")
			return W.app("str_join", s, e.peek(st, args[1], atys[1])), true
		}
	case "strconv.Itoa":
		return func(e *Exec, fr *Frame, st *State, args []Val, atys []types.Type, resT types.Type) (Val, bool) {
			W.fun("itoa", []string{"Int"}, "Str")
			e.note("strconv.Itoa is injective")
			W.axiom("itoa.inj", forall([]BV{{"a", "Int"}, {"b", "Int"}}, implies(mk("=", "Bool", mk("itoa", "Str", mk("a", "Int")), mk("itoa", "Str", mk("b", "Int"))), mk("=", "Bool", mk("a", "Int"), mk("b", "Int"))), []*T{mk("itoa", "Str", mk("a", "Int")), mk("itoa", "Str", mk("b", "Int"))}), "itoa")
			return W.app("itoa", e.peek(st, args[0], atys[0])), true
		}
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
		return func(e *Exec, fr *Frame, st *State, args []Val, atys []types.Type, resT types.Type) (Val, bool) {
			g, ok := args[0].(GlobPtr)
			if !ok {
				return TupleV{}, true
			}
			e.lock(st, globalName(g.g), strings.HasSuffix(name, "RLock"))
			return TupleV{}, true
		}
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		return func(e *Exec, fr *Frame, st *State, args []Val, atys []types.Type, resT types.Type) (Val, bool) {
			g, ok := args[0].(GlobPtr)
			if !ok {
				return TupleV{}, true
			}
			e.unlock(st, globalName(g.g))
			return TupleV{}, true
		}
	}
	return nil
}

// lock acquires a mutex: the protected variables take any value the invariant and the
// guarantee of the other threads allow.
func (e *Exec) lock(st *State, m string, read bool) {
	if st.held[m] {
		e.oblige(st, "lock", "locks "+m+" twice", nil, tFalse, "")
	}
	st.held[m] = true
	k := e.v.spec.Locks[m]
	if k == nil {
		return
	}
	pre := &Env{vars: map[string]SV{}}
	before := st.clone()
	e.globalsInto(pre, before)
	for _, n := range k.Globals {
		g := e.v.globByName(n)
		ty := deref(g.Type())
		nt := W.freshConst("at_lock_"+g.Name(), sortOf(ty))
		st.globals[g] = nt
		e.typeInv(st, nt, ty)
	}
	env := &Env{vars: map[string]SV{}, old: pre}
	e.globalsInto(env, st)
	for _, c := range k.Inv {
		st.assume(e.v.evalClause(c, env))
	}
	for _, c := range k.Rely {
		st.assume(e.v.evalClause(c, env))
	}
	snap := map[string]SV{}
	for _, n := range k.Globals {
		g := e.v.globByName(n)
		snap["$"+n] = SV{st.globals[g].(*T), deref(g.Type())}
	}
	st.lockSnap = cp(st.lockSnap)
	st.lockSnap[m] = snap
}

func (e *Exec) unlock(st *State, m string) {
	if !st.held[m] {
		e.oblige(st, "lock", "unlocks "+m+" without holding it", nil, tFalse, "")
	}
	k := e.v.spec.Locks[m]
	if k != nil {
		old := &Env{vars: map[string]SV{}}
		for n, s := range st.lockSnap[m] {
			old.vars[n] = s
		}
		env := &Env{vars: map[string]SV{}, old: old}
		e.globalsInto(env, st)
		for _, c := range k.Inv {
			e.oblige(st, "lock", "invariant of "+m+" "+c.Label, e.props(c), e.v.evalClause(c, env), "")
		}
		if st.lockSnap[m] != nil {
			for _, c := range k.Rely {
				e.oblige(st, "lock", "guarantee of "+m+" "+c.Label, e.props(c), e.v.evalClause(c, env), "")
			}
		}
	}
	delete(st.held, m)
}
