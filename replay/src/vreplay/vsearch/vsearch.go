// Package vsearch drives the search rules and states of the real code.
package vsearch

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Search"
	"github.com/GoelandProver/Goeland/Typing"
	"github.com/GoelandProver/Goeland/Unif"
	"github.com/GoelandProver/Goeland/vreplay/vast"
)

func Init() {
	vast.Init()
	Core.InitDebugger()
	Unif.InitDebugger()
	Typing.InitDebugger()
	Typing.Init()
	Search.InitDebugger()
}

func FT(f AST.Form, ts ...AST.Term) Core.FormAndTerms {
	return Core.MakeFormAndTerm(f, Lib.MkListV(ts...))
}

func State(limit int) Search.State {
	return Search.MakeState(limit, new(Unif.Node), new(Unif.Node), AST.MakerTop())
}

func Read(l Core.FormAndTermsList) []*vast.F {
	var out []*vast.F
	for _, f := range l {
		out = append(out, vast.ReadForm(f.GetForm()))
	}
	return out
}

func Join(fs []*vast.F) string {
	var o []string
	for _, f := range fs {
		o = append(o, f.String())
	}
	return strings.Join(o, ", ")
}

// Branches compares the branches of a rule with the formula it was applied to.
func Branches(r *rand.Rand, f *vast.F, branches [][]*vast.F) (string, bool) {
	atoms := map[string]bool{}
	f.Atoms(atoms)
	for _, b := range branches {
		for _, g := range b {
			if g == nil {
				return "a branch holds a formula of an unknown kind", false
			}
			g.Atoms(atoms)
		}
	}
	msg := ""
	vast.Valuations(r, atoms, 1024, func(m map[string]bool) bool {
		some := false
		for _, b := range branches {
			all := true
			for _, g := range b {
				all = all && g.Eval(m)
			}
			some = some || all
		}
		if some != f.Eval(m) {
			msg = fmt.Sprintf("under %v the formula is %v and some branch true is %v", m, f.Eval(m), some)
			return false
		}
		return true
	})
	return msg, msg == ""
}

func Show(branches [][]*vast.F) string {
	var o []string
	for _, b := range branches {
		o = append(o, "{"+Join(b)+"}")
	}
	return strings.Join(o, " | ")
}

func shape(f *vast.F) string {
	if f.K == '!' {
		return "!" + string(f.Fs[0].K)
	}
	return string(f.K)
}
