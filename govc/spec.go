package main

import (
	"fmt"
	"os"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- lexer

type Tok struct {
	K    string // id, num, str, op, eof
	S    string
	Line int
	Pos  int
}

type Lexer struct {
	toks []Tok
	p    int
	file string
}

var ops = []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", ":=", "..", "->", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ":", ".", "=", "|", "@", ";", "#", "?"}

func lex(file, src string) *Lexer {
	l := &Lexer{file: file}
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '\'') {
				j++
			}
			l.toks = append(l.toks, Tok{"id", src[i:j], line, i})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && unicode.IsDigit(rune(src[j])) {
				j++
			}
			l.toks = append(l.toks, Tok{"num", src[i:j], line, i})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			l.toks = append(l.toks, Tok{"str", src[i+1 : j], line, i})
			i = j + 1
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					l.toks = append(l.toks, Tok{"op", o, line, i})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				fmt.Fprintf(os.Stderr, "%s:%d: bad character %q\n", file, line, c)
				os.Exit(3)
			}
		}
	}
	l.toks = append(l.toks, Tok{"eof", "", line, i})
	return l
}

func (l *Lexer) peek() Tok { return l.toks[l.p] }
func (l *Lexer) peekN(n int) Tok {
	if l.p+n < len(l.toks) {
		return l.toks[l.p+n]
	}
	return l.toks[len(l.toks)-1]
}
func (l *Lexer) next() Tok { t := l.toks[l.p]; l.p++; return t }
func (l *Lexer) fail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "%s:%d: %s (at %q)\n", l.file, l.peek().Line, fmt.Sprintf(f, a...), l.peek().S)
	os.Exit(3)
}
func (l *Lexer) is(s string) bool { t := l.peek(); return (t.K == "op" || t.K == "id") && t.S == s }
func (l *Lexer) accept(s string) bool {
	if l.is(s) {
		l.p++
		return true
	}
	return false
}
func (l *Lexer) expect(s string) {
	if !l.accept(s) {
		l.fail("expected %q", s)
	}
}
func (l *Lexer) ident() string {
	t := l.next()
	if t.K != "id" {
		l.p--
		l.fail("identifier expected")
	}
	return t.S
}

// ---------------------------------------------------------------- AST

type TyX struct { // type expression
	Kind string // name, ptr, slice, map
	Name string // possibly qualified
	Args []*TyX
}

func (t *TyX) String() string {
	switch t.Kind {
	case "ptr":
		return "*" + t.Args[0].String()
	case "slice":
		return "[]" + t.Args[0].String()
	case "map":
		return "map[" + t.Args[0].String() + "]" + t.Args[1].String()
	}
	s := t.Name
	if len(t.Args) > 0 {
		var as []string
		for _, a := range t.Args {
			as = append(as, a.String())
		}
		s += "[" + strings.Join(as, ",") + "]"
	}
	return s
}

type Ex struct {
	Op    string // var num str call field index slice bin un quant if let is as mk tyop
	Name  string
	Args  []*Ex
	Bs    []Bind
	Trigs [][]*Ex
	Ty    *TyX
	Line  int
	File  string
}

type Bind struct {
	Name string
	Ty   *TyX
}

func (l *Lexer) typ() *TyX {
	if l.accept("*") {
		return &TyX{Kind: "ptr", Args: []*TyX{l.typ()}}
	}
	if l.accept("[") {
		l.expect("]")
		return &TyX{Kind: "slice", Args: []*TyX{l.typ()}}
	}
	n := l.ident()
	if n == "map" && l.accept("[") {
		k := l.typ()
		l.expect("]")
		return &TyX{Kind: "map", Args: []*TyX{k, l.typ()}}
	}
	if n == "func" {
		l.expect("(")
		t := &TyX{Kind: "func"}
		for !l.accept(")") {
			t.Args = append(t.Args, l.typ())
			l.accept(",")
		}
		t.Args = append(t.Args, l.typ())
		return t
	}
	if l.is(".") && l.peekN(1).K == "id" {
		l.next()
		n += "." + l.ident()
	}
	t := &TyX{Kind: "name", Name: n}
	if l.is("[") && !(l.peekN(1).K == "op" && l.peekN(1).S == "]") {
		l.next()
		for {
			t.Args = append(t.Args, l.typ())
			if !l.accept(",") {
				break
			}
		}
		l.expect("]")
	}
	return t
}

func (l *Lexer) node(op, name string, args ...*Ex) *Ex {
	return &Ex{Op: op, Name: name, Args: args, Line: l.peek().Line, File: l.file}
}

func (l *Lexer) expr() *Ex { return l.iffE() }

func (l *Lexer) iffE() *Ex {
	a := l.impE()
	for l.accept("<==>") {
		a = l.node("bin", "<==>", a, l.impE())
	}
	return a
}
func (l *Lexer) impE() *Ex {
	a := l.orE()
	if l.accept("==>") {
		return l.node("bin", "==>", a, l.impE())
	}
	return a
}
func (l *Lexer) orE() *Ex {
	a := l.andE()
	for l.accept("||") {
		a = l.node("bin", "||", a, l.andE())
	}
	return a
}
func (l *Lexer) andE() *Ex {
	a := l.cmpE()
	for l.accept("&&") {
		a = l.node("bin", "&&", a, l.cmpE())
	}
	return a
}
func (l *Lexer) cmpE() *Ex {
	a := l.addE()
	var out *Ex
	for {
		t := l.peek()
		if t.K == "op" && (t.S == "==" || t.S == "!=" || t.S == "<" || t.S == "<=" || t.S == ">" || t.S == ">=") {
			l.next()
			b := l.addE()
			c := l.node("bin", t.S, a, b)
			if out == nil {
				out = c
			} else {
				out = l.node("bin", "&&", out, c)
			}
			a = b
			continue
		}
		if t.K == "id" && t.S == "in" {
			l.next()
			b := l.addE()
			c := l.node("call", "in", a, b)
			if out == nil {
				out = c
			} else {
				out = l.node("bin", "&&", out, c)
			}
			a = b
			continue
		}
		break
	}
	if out != nil {
		return out
	}
	return a
}
func (l *Lexer) addE() *Ex {
	a := l.mulE()
	for {
		if l.accept("+") {
			a = l.node("bin", "+", a, l.mulE())
		} else if l.accept("-") {
			a = l.node("bin", "-", a, l.mulE())
		} else {
			return a
		}
	}
}
func (l *Lexer) mulE() *Ex {
	a := l.unE()
	for {
		if l.accept("*") {
			a = l.node("bin", "*", a, l.unE())
		} else if l.accept("/") {
			a = l.node("bin", "/", a, l.unE())
		} else if l.accept("%") {
			a = l.node("bin", "%", a, l.unE())
		} else {
			return a
		}
	}
}
func (l *Lexer) unE() *Ex {
	if l.accept("!") {
		return l.node("un", "!", l.unE())
	}
	if l.accept("-") {
		return l.node("un", "-", l.unE())
	}
	if l.accept("*") { // deref, a no-op in specifications
		return l.unE()
	}
	return l.postE()
}

func (l *Lexer) binds() []Bind {
	var bs []Bind
	for {
		n := l.ident()
		names := []string{n}
		for l.is(",") { // x, y T is not supported; each binder has its own type
			break
		}
		ty := l.typ()
		for _, n := range names {
			bs = append(bs, Bind{n, ty})
		}
		if !l.accept(",") {
			return bs
		}
	}
}

func (l *Lexer) postE() *Ex {
	a := l.primE()
	for {
		switch {
		case l.is(".") && l.peekN(1).K == "id":
			l.next()
			a = l.node("field", l.ident(), a)
		case l.is(".") && l.peekN(1).K == "num":
			l.next()
			a = l.node("field", l.next().S, a)
		case l.is("["):
			l.next()
			if l.accept(":") {
				b := l.expr()
				l.expect("]")
				a = l.node("slice", "", a, l.node("num", "0"), b)
				break
			}
			i := l.expr()
			if l.accept(":") {
				if l.accept("]") {
					a = l.node("slice", "", a, i)
					break
				}
				b := l.expr()
				l.expect("]")
				a = l.node("slice", "", a, i, b)
				break
			}
			l.expect("]")
			a = l.node("index", "", a, i)
		case l.is("("):
			l.next()
			var args []*Ex
			for !l.accept(")") {
				args = append(args, l.expr())
				if !l.is(")") {
					l.expect(",")
				}
			}
			if a.Op == "var" {
				c := l.node("call", a.Name, args...)
				a = c
			} else {
				c := l.node("apply", "", append([]*Ex{a}, args...)...)
				a = c
			}
		default:
			return a
		}
	}
}

func (l *Lexer) primE() *Ex {
	t := l.peek()
	switch t.K {
	case "num":
		l.next()
		return l.node("num", t.S)
	case "str":
		l.next()
		return l.node("str", t.S)
	case "id":
		switch t.S {
		case "forall", "exists":
			l.next()
			e := l.node("quant", t.S)
			e.Bs = l.binds()
			for l.accept("{") {
				var ts []*Ex
				for {
					ts = append(ts, l.expr())
					if !l.accept(",") {
						break
					}
				}
				l.expect("}")
				e.Trigs = append(e.Trigs, ts)
			}
			l.expect("::")
			e.Args = []*Ex{l.expr()}
			return e
		case "if":
			l.next()
			c := l.expr()
			l.expect("then")
			a := l.expr()
			l.expect("else")
			b := l.expr()
			return l.node("if", "", c, a, b)
		case "let":
			l.next()
			n := l.ident()
			l.expect("=")
			v := l.expr()
			l.expect("::")
			b := l.expr()
			return l.node("let", n, v, b)
		case "is", "as", "mk", "zero", "empty", "box", "seqof":
			if l.peekN(1).S == "[" {
				l.next()
				l.expect("[")
				ty := l.typ()
				l.expect("]")
				e := l.node("tyop", t.S)
				e.Ty = ty
				l.expect("(")
				for !l.accept(")") {
					e.Args = append(e.Args, l.expr())
					if !l.is(")") {
						l.expect(",")
					}
				}
				return e
			}
		}
		l.next()
		return l.node("var", t.S)
	case "op":
		if t.S == "(" {
			l.next()
			e := l.expr()
			l.expect(")")
			return e
		}
	}
	l.fail("expression expected")
	return nil
}

// ---------------------------------------------------------------- declarations

type Clause struct {
	Kind  string
	Label string
	Props []string
	E     *Ex
	Line  int
	File  string
}

type LoopSpec struct {
	Invs    []*Clause
	Assumes []*Clause
}

type FuncSpec struct {
	Name       string // package-qualified: Lib.insert, Lib.Set.Add, AST.Term.GetMetas (interface)
	TParams    []string
	Params     []string
	Results    []string
	Props      []string
	Requires   []*Clause
	Ensures    []*Clause
	Owns       []string
	Fresh      []string
	Appendable []string
	Modifies   []string
	Appends    []string
	Nullable   []string
	Loops      map[int]*LoopSpec
	Aborts     []*Clause // the only inputs on which it may panic or call a noreturn function
	Asserts    []*Clause // ghost assertions proved at each return, then used as hypotheses
	Trusted    bool
	Why        string
	Inline     bool
	NoReturn   bool
	Iface      bool
	Bounded    string
	File       string
	Line       int
	Uses       []string
	Opts       map[string]bool
	Refs       []*Ex
	Locks      []string
	Excludes   []string
}

type FnDef struct {
	Name    string
	TParams []string
	Params  []Bind
	Ret     *TyX
	Body    *Ex
	Cases   []FnCase
	Macro   bool
	Line    int
	File    string
}

type FnCase struct {
	Kind string // type, nil, node, empty, snoc, else
	Ty   *TyX
	Vars []string
	Body *Ex
}

type AxDef struct {
	Name    string
	TParams []string
	E       *Ex
	Keys    []string
	Line    int
	File    string
	Why     string
}

type LemmaDef struct {
	Name    string
	TParams []string
	Params  []Bind
	Props   []string
	Req     []*Clause
	Ens     []*Clause
	Induct  []string
	Trigs   [][]*Ex
	Line    int
	File    string
	Uses    []string
	Manual  bool
}

type InstDef struct {
	Fn     string
	Ty     *TyX
	Params []string
	Body   *Ex
}

type LockDef struct {
	Mutex   string
	Globals []string
	Inv     []*Clause
	Rely    []*Clause
}

type Spec struct {
	Funcs    map[string]*FuncSpec
	Order    []*FuncSpec
	Fns      map[string]*FnDef
	FnOrd    []*FnDef
	Axioms   []*AxDef
	Lemmas   []*LemmaDef
	Insts    []*InstDef
	Ignore   map[string]bool
	NilOK    map[string]bool
	Locks    map[string]*LockDef
	NonNil   map[string]bool
	Ginv     []*Clause // invariants of package-level variables
	Closed   map[string][]*TyX
	TypeInvs []*TypeInvDef
}

func (l *Lexer) props() []string {
	var ps []string
	for l.accept("@") {
		ps = append(ps, l.ident())
		for l.accept(",") {
			ps = append(ps, l.ident())
		}
	}
	return ps
}

func (l *Lexer) tparams() []string {
	var out []string
	if l.accept("[") {
		for {
			n := l.ident()
			if l.accept(":") {
				n += ":" + l.ident()
			}
			out = append(out, n)
			if !l.accept(",") {
				break
			}
		}
		l.expect("]")
	}
	return out
}

func (l *Lexer) label() string {
	if l.is("[") {
		l.next()
		s := ""
		for !l.is("]") {
			s += l.next().S
		}
		l.expect("]")
		return s
	}
	return ""
}

func (l *Lexer) qname() string {
	n := l.ident()
	for l.is(".") && l.peekN(1).K == "id" {
		l.next()
		n += "." + l.ident()
	}
	for l.is("/") {
		l.next()
		n += "/" + l.ident()
		for l.is(".") && l.peekN(1).K == "id" {
			l.next()
			n += "." + l.ident()
		}
	}
	return n
}

func (l *Lexer) names() []string {
	out := []string{l.qname()}
	for l.accept(",") {
		out = append(out, l.qname())
	}
	return out
}

func (l *Lexer) clause(kind string) *Clause {
	c := &Clause{Kind: kind, Line: l.peek().Line, File: l.file}
	c.Label = l.label()
	c.Props = l.props()
	c.E = l.expr()
	return c
}

func (sp *Spec) parse(file, src string) {
	l := lex(file, src)
	for l.peek().K != "eof" {
		line := l.peek().Line
		switch kw := l.ident(); kw {
		case "ignore":
			for {
				sp.Ignore[l.qname()] = true
				if !l.accept(",") {
					break
				}
			}
		case "nonnil":
			for {
				sp.NonNil[l.typ().String()] = true
				if !l.accept(",") {
					break
				}
			}
		case "nilable": // nilable Pkg.Struct.field: the field may hold nil although its type is declared nonnil
			sp.NilOK[l.qname()] = true
		case "typeinv": // typeinv[T] Lib.Set[T] (s) = e
			d := &TypeInvDef{}
			d.Props = l.props()
			d.TPs = l.tparams()
			d.Ty = l.typ()
			l.expect("(")
			d.Var = l.ident()
			l.expect(")")
			l.expect("=")
			d.Body = l.expr()
			sp.TypeInvs = append(sp.TypeInvs, d)
		case "closed": // closed interface hierarchy used for exhaustive splits
			t := l.typ()
			l.expect("=")
			for {
				sp.Closed[t.String()] = append(sp.Closed[t.String()], l.typ())
				if !l.accept("|") {
					break
				}
			}
		case "instance":
			in := &InstDef{}
			in.Fn = l.ident()
			in.Ty = l.typ()
			l.expect("(")
			for !l.accept(")") {
				in.Params = append(in.Params, l.ident())
				l.accept(",")
			}
			l.expect("=")
			in.Body = l.expr()
			sp.Insts = append(sp.Insts, in)
		case "define", "function":
			f := &FnDef{Macro: kw == "define", Line: line, File: file}
			f.Name = l.ident()
			f.TParams = l.tparams()
			l.expect("(")
			for !l.accept(")") {
				n := l.ident()
				f.Params = append(f.Params, Bind{n, l.typ()})
				if !l.is(")") {
					l.expect(",")
				}
			}
			f.Ret = l.typ()
			if l.accept("=") {
				f.Body = l.expr()
			} else if l.accept("{") {
				for !l.accept("}") {
					c := FnCase{}
					if l.accept("else") {
						c.Kind = "else"
					} else {
						l.expect("case")
						switch {
						case l.is("nil"):
							l.next()
							c.Kind = "nil"
						case l.is("node"):
							l.next()
							c.Kind = "node"
							c.Vars = []string{l.ident()}
						case l.is("emptyseq"):
							l.next()
							c.Kind = "empty"
						case l.is("snoc"):
							l.next()
							c.Kind = "snoc"
							c.Vars = []string{l.ident(), l.ident()}
						default:
							c.Kind = "type"
							c.Ty = l.typ()
							c.Vars = []string{l.ident()}
						}
					}
					l.expect(":")
					c.Body = l.expr()
					f.Cases = append(f.Cases, c)
				}
			}
			if sp.Fns[f.Name] != nil {
				l.fail("duplicate function %s", f.Name)
			}
			sp.Fns[f.Name] = f
			sp.FnOrd = append(sp.FnOrd, f)
		case "axiom":
			a := &AxDef{Line: line, File: file}
			a.Name = l.ident()
			a.TParams = l.tparams()
			if l.peek().K == "str" {
				a.Why = l.next().S
			}
			if l.accept("keys") {
				a.Keys = append(a.Keys, l.ident())
				for l.accept(",") {
					a.Keys = append(a.Keys, l.ident())
				}
			}
			l.expect(":")
			a.E = l.expr()
			sp.Axioms = append(sp.Axioms, a)
		case "lemma":
			m := &LemmaDef{Line: line, File: file}
			m.Name = l.ident()
			m.TParams = l.tparams()
			l.expect("(")
			for !l.accept(")") {
				n := l.ident()
				m.Params = append(m.Params, Bind{n, l.typ()})
				if !l.is(")") {
					l.expect(",")
				}
			}
			m.Props = l.props()
			l.expect("{")
			for !l.accept("}") {
				switch k := l.ident(); k {
				case "requires":
					m.Req = append(m.Req, l.clause(k))
				case "ensures":
					m.Ens = append(m.Ens, l.clause(k))
				case "manual":
					m.Manual = true
				case "induction":
					m.Induct = append(m.Induct, l.ident())
				case "uses":
					m.Uses = append(m.Uses, l.names()...)
				case "trigger":
					var ts []*Ex
					for {
						ts = append(ts, l.expr())
						if !l.accept(",") {
							break
						}
					}
					m.Trigs = append(m.Trigs, ts)
				default:
					l.p--
					l.fail("unknown lemma clause")
				}
			}
			sp.Lemmas = append(sp.Lemmas, m)
		case "invariant":
			sp.Ginv = append(sp.Ginv, l.clause("ginv"))
		case "lock":
			k := &LockDef{}
			k.Mutex = l.qname()
			l.expect("protects")
			k.Globals = l.names()
			l.expect("{")
			for !l.accept("}") {
				switch kk := l.ident(); kk {
				case "invariant":
					k.Inv = append(k.Inv, l.clause("lockinv"))
				case "rely":
					k.Rely = append(k.Rely, l.clause("rely"))
				default:
					l.p--
					l.fail("unknown lock clause")
				}
			}
			sp.Locks[k.Mutex] = k
		case "func", "interface":
			f := &FuncSpec{Loops: map[int]*LoopSpec{}, Iface: kw == "interface", File: file, Line: line, Opts: map[string]bool{}}
			f.Name = l.qname()
			f.TParams = l.tparams()
			l.expect("(")
			for !l.accept(")") {
				f.Params = append(f.Params, l.ident())
				if !l.is(")") {
					l.expect(",")
				}
			}
			if l.accept("(") {
				for !l.accept(")") {
					f.Results = append(f.Results, l.ident())
					if !l.is(")") {
						l.expect(",")
					}
				}
			}
			f.Props = l.props()
			if l.accept("{") {
				for !l.accept("}") {
					switch k := l.ident(); k {
					case "requires":
						f.Requires = append(f.Requires, l.clause(k))
					case "ensures":
						f.Ensures = append(f.Ensures, l.clause(k))
					case "aborts":
						f.Aborts = append(f.Aborts, l.clause(k))
					case "assert":
						f.Asserts = append(f.Asserts, l.clause(k))
					case "owns":
						f.Owns = append(f.Owns, l.names()...)
					case "fresh":
						f.Fresh = append(f.Fresh, l.names()...)
					case "appendable":
						f.Appendable = append(f.Appendable, l.names()...)
					case "modifies":
						f.Modifies = append(f.Modifies, l.names()...)
					case "appends":
						f.Appends = append(f.Appends, l.names()...)
					case "nullable":
						f.Nullable = append(f.Nullable, l.names()...)
					case "uses":
						f.Uses = append(f.Uses, l.names()...)
					case "locks":
						f.Locks = append(f.Locks, l.names()...)
					case "excludes":
						f.Excludes = append(f.Excludes, l.names()...)
					case "opt":
						for _, o := range l.names() {
							f.Opts[o] = true
						}
					case "trusted":
						f.Trusted = true
						if l.peek().K == "str" {
							f.Why = l.next().S
						}
					case "bounded":
						f.Bounded = l.next().S
					case "noreturn":
						f.NoReturn = true
					case "inline":
						f.Inline = true
					case "loop":
						n := 0
						fmt.Sscanf(l.next().S, "%d", &n)
						ls := &LoopSpec{}
						f.Loops[n] = ls
						l.expect("{")
						for !l.accept("}") {
							switch kk := l.ident(); kk {
							case "invariant":
								ls.Invs = append(ls.Invs, l.clause("invariant"))
							default:
								l.p--
								l.fail("unknown loop clause")
							}
						}
					default:
						l.p--
						l.fail("unknown clause")
					}
				}
			}
			if sp.Funcs[f.Name] != nil {
				l.fail("duplicate contract %s", f.Name)
			}
			sp.Funcs[f.Name] = f
			sp.Order = append(sp.Order, f)
		default:
			l.p--
			l.fail("unknown declaration")
		}
	}
}

func newSpec() *Spec {
	return &Spec{Funcs: map[string]*FuncSpec{}, Fns: map[string]*FnDef{}, Ignore: map[string]bool{}, Locks: map[string]*LockDef{}, NonNil: map[string]bool{}, NilOK: map[string]bool{}, Closed: map[string][]*TyX{}}
}
