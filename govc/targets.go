package main

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type target struct {
	name    string
	spec    *FuncSpec
	fn      *ssa.Function
	selfBox bool
	props   []string
	missing bool
}

// targets lists every function body that has to satisfy a contract.
func (v *Ver) targets() []target {
	var out []target
	for _, s := range v.spec.Order {
		if s.Trusted || s.NoReturn || s.Bounded != "" || s.Inline {
			continue
		}
		if s.Iface {
			var impl []target
			for n, f := range v.fnByName {
				if f.Blocks == nil || f.Signature.Recv() == nil {
					continue
				}
				if v.spec.Funcs[n] != nil && !v.spec.Funcs[n].Iface {
					continue // has its own contract; conformance is checked below
				}
				if v.ifaceSpecFor(f) == s {
					impl = append(impl, target{name: n, spec: s, fn: f, selfBox: true, props: s.Props})
				}
			}
			impl = append(impl, v.promoted(s)...)
			sort.Slice(impl, func(i, j int) bool { return impl[i].name < impl[j].name })
			out = append(out, impl...)
			continue
		}
		f := v.fnByName[s.Name]
		if f == nil {
			if pk, _, _ := strings.Cut(s.Name, "."); v.pkgs[pk] == nil || !v.inModule(pk) {
				continue // package not loaded, or external (must be trusted)
			}
			out = append(out, target{name: s.Name, spec: s, missing: true, props: s.Props})
			continue
		}
		out = append(out, target{name: s.Name, spec: s, fn: f, props: s.Props})
	}
	return out
}

// promoted lists the methods under the interface contract s that a type gets by embedding.
func (v *Ver) promoted(s *FuncSpec) (out []target) {
	i := strings.LastIndex(s.Name, ".")
	it := v.ifaceTypeByName(s.Name[:i])
	if it == nil {
		return nil
	}
	ui := it.Underlying().(*types.Interface)
	for _, p := range v.ssapkgs {
		for _, mn := range sortedKeys(p.Members) {
			tm, ok := p.Members[mn].(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := types.Unalias(tm.Type()).(*types.Named)
			if !ok || n.TypeParams().Len() > 0 || types.IsInterface(n) || !types.Implements(n, ui) {
				continue
			}
			sel := v.prog.MethodSets.MethodSet(n).Lookup(p.Pkg, s.Name[i+1:])
			if sel == nil || len(sel.Index()) == 1 {
				continue
			}
			f := v.prog.MethodValue(sel)
			if f == nil || f.Blocks == nil {
				continue
			}
			name := p.Pkg.Name() + "." + n.Obj().Name() + "." + s.Name[i+1:]
			if v.spec.Funcs[name] != nil {
				continue
			}
			v.nameCache[f] = name
			out = append(out, target{name: name, spec: s, fn: f, selfBox: true, props: s.Props})
		}
	}
	return out
}

func (v *Ver) inModule(pk string) bool {
	p := v.pkgs[pk]
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

func (v *Ver) runTarget(t target) *Exec {
	if t.missing {
		e := v.newExec(t.spec, t.name)
		e.obls = append(e.obls, &Obl{Func: t.name, Kind: "contract", Label: "the function under contract no longer exists", Goal: tFalse, Result: "failed", Why: "function not found"})
		return e
	}
	return v.verifyFunc(t.spec, t.fn, t.selfBox)
}

// parserOverlay supplies the generated parser when the working tree does not contain it.
func parserOverlay(ov map[string][]byte) error {
	gen := filepath.Join(srcDir(), "Parser", "tptp_parse.go")
	if _, err := os.Stat(gen); err == nil {
		return nil
	}
	dir, err := os.MkdirTemp("", "govcyacc")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command("/opt/vp/bin/goyacc", "-l", "-p", "TPTP", "-o", filepath.Join(dir, "tptp_parse.go"), "-v", filepath.Join(dir, "y.output"), filepath.Join(srcDir(), "Parser", "tptp_parse.y"))
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("goyacc: %v %s", err, out)
	}
	b, err := os.ReadFile(filepath.Join(dir, "tptp_parse.go"))
	if err != nil {
		return err
	}
	ov[gen] = b
	return nil
}
