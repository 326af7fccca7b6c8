package main

// Parser for the contract files (*.gvc).

import (
	"fmt"
	"math/big"
	"os"
	"strings"
	"unicode"
)

type Expr struct {
	Kind string // int, str, name, call, sel, index, slice, bin, un, quant, ite, let, old, star
	Name string
	Int  *big.Int
	Args []*Expr
	Vars []VarDecl
	Trig [][]*Expr
	Pos  string
}

type VarDecl struct{ Name, Type string }

func (e *Expr) String() string {
	if e == nil {
		return "<nil>"
	}
	switch e.Kind {
	case "int":
		return e.Int.String()
	case "str":
		return fmt.Sprintf("%q", e.Name)
	case "name":
		return e.Name
	case "call":
		var ss []string
		for _, a := range e.Args {
			ss = append(ss, a.String())
		}
		return e.Name + "(" + strings.Join(ss, ", ") + ")"
	case "sel":
		return e.Args[0].String() + "." + e.Name
	case "index":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "slice":
		s := e.Args[0].String() + "["
		if e.Args[1] != nil {
			s += e.Args[1].String()
		}
		s += ":"
		if e.Args[2] != nil {
			s += e.Args[2].String()
		}
		return s + "]"
	case "bin":
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case "un":
		return e.Name + e.Args[0].String()
	case "quant":
		var vs []string
		for _, v := range e.Vars {
			vs = append(vs, v.Name+" "+v.Type)
		}
		return "(" + e.Name + " " + strings.Join(vs, ", ") + " :: " + e.Args[0].String() + ")"
	case "ite":
		return "(if " + e.Args[0].String() + " then " + e.Args[1].String() + " else " + e.Args[2].String() + ")"
	case "let":
		return "(let " + e.Name + " = " + e.Args[0].String() + " in " + e.Args[1].String() + ")"
	case "old":
		return "old(" + e.Args[0].String() + ")"
	case "star":
		return e.Args[0].String() + "[*]"
	}
	return "?" + e.Kind
}

type tok struct {
	k string // id, int, str, op, eof
	s string
	p int
}

type exprParser struct {
	toks []tok
	i    int
	pos  string
	src  string
}

func lexExpr(src, pos string) []tok {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "->", "++"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == 'x' || (src[j] >= 'a' && src[j] <= 'f' && strings.HasPrefix(src[i:], "0x"))) {
				j++
			}
			out = append(out, tok{"int", src[i:j], i})
			i = j
		case c == '_' || c == '$' || c == '\\' || unicode.IsLetter(rune(c)):
			j := i + 1
			for j < len(src) && (src[j] == '_' || src[j] == '$' || unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j]))) {
				j++
			}
			out = append(out, tok{"id", src[i:j], i})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			out = append(out, tok{"str", src[i+1 : j], i})
			i = j + 1
		default:
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			out = append(out, tok{"op", m, i})
			i += len(m)
		}
	}
	out = append(out, tok{"eof", "", len(src)})
	return out
}

func parseExpr(src, pos string) *Expr {
	p := &exprParser{toks: lexExpr(src, pos), pos: pos, src: src}
	e := p.expr()
	if p.peek().k != "eof" {
		p.fail("trailing input")
	}
	return e
}

func parseExprList(src, pos string) []*Expr {
	p := &exprParser{toks: lexExpr(src, pos), pos: pos, src: src}
	var out []*Expr
	if p.peek().k == "eof" {
		return nil
	}
	for {
		out = append(out, p.expr())
		if p.isOp(",") {
			p.i++
			continue
		}
		break
	}
	if p.peek().k != "eof" {
		p.fail("trailing input")
	}
	return out
}

func (p *exprParser) fail(m string) {
	t := p.peek()
	panic(fmt.Sprintf("%s: spec parse error: %s near %q (at %q)", p.pos, m, t.s, p.src[min(t.p, len(p.src)):min(t.p+30, len(p.src))]))
}
func (p *exprParser) peek() tok          { return p.toks[p.i] }
func (p *exprParser) isOp(s string) bool { return p.toks[p.i].k == "op" && p.toks[p.i].s == s }
func (p *exprParser) isID(s string) bool { return p.toks[p.i].k == "id" && p.toks[p.i].s == s }
func (p *exprParser) eat(s string) {
	if p.toks[p.i].s != s {
		p.fail("expected " + s)
	}
	p.i++
}

func (p *exprParser) expr() *Expr { return p.iff() }

func (p *exprParser) mk(k, n string, args ...*Expr) *Expr {
	return &Expr{Kind: k, Name: n, Args: args, Pos: p.pos}
}

func (p *exprParser) iff() *Expr {
	a := p.imp()
	for p.isOp("<==>") {
		p.i++
		b := p.imp()
		a = p.mk("bin", "<==>", a, b)
	}
	return a
}
func (p *exprParser) imp() *Expr {
	a := p.or()
	if p.isOp("==>") {
		p.i++
		b := p.imp()
		return p.mk("bin", "==>", a, b)
	}
	return a
}
func (p *exprParser) or() *Expr {
	a := p.and()
	for p.isOp("||") {
		p.i++
		a = p.mk("bin", "||", a, p.and())
	}
	return a
}
func (p *exprParser) and() *Expr {
	a := p.cmp()
	for p.isOp("&&") {
		p.i++
		a = p.mk("bin", "&&", a, p.cmp())
	}
	return a
}

var cmpOps = map[string]bool{"==": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true}

func (p *exprParser) cmp() *Expr {
	a := p.addx()
	var res *Expr
	for p.peek().k == "op" && cmpOps[p.peek().s] {
		op := p.peek().s
		p.i++
		b := p.addx()
		c := p.mk("bin", op, a, b)
		if res == nil {
			res = c
		} else {
			res = p.mk("bin", "&&", res, c)
		}
		a = b
	}
	if res != nil {
		return res
	}
	return a
}
func (p *exprParser) addx() *Expr {
	a := p.mul()
	for p.isOp("+") || p.isOp("-") || p.isOp("++") {
		op := p.peek().s
		p.i++
		a = p.mk("bin", op, a, p.mul())
	}
	return a
}
func (p *exprParser) mul() *Expr {
	a := p.unary()
	for p.isOp("*") || p.isOp("/") || p.isOp("%") {
		op := p.peek().s
		p.i++
		a = p.mk("bin", op, a, p.unary())
	}
	return a
}
func (p *exprParser) unary() *Expr {
	if p.isOp("!") || p.isOp("-") || p.isOp("*") || p.isOp("&") {
		op := p.peek().s
		p.i++
		return p.mk("un", op, p.unary())
	}
	return p.postfix()
}
func (p *exprParser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.isOp("."):
			p.i++
			t := p.peek()
			if t.k != "id" && t.k != "int" {
				p.fail("field name")
			}
			p.i++
			e = p.mk("sel", t.s, e)
			if p.isOp("(") { // qualified call pkg.f(...)
				if e.Args[0].Kind == "name" {
					nm := e.Args[0].Name + "." + t.s
					e = p.call(nm)
				}
			}
		case p.isOp("["):
			p.i++
			if p.isOp("*") {
				p.i++
				p.eat("]")
				e = p.mk("star", "", e)
				continue
			}
			var lo *Expr
			if !p.isOp(":") {
				lo = p.expr()
			}
			if p.isOp(":") {
				p.i++
				var hi *Expr
				if !p.isOp("]") {
					hi = p.expr()
				}
				p.eat("]")
				e = p.mk("slice", "", e, lo, hi)
			} else {
				p.eat("]")
				e = p.mk("index", "", e, lo)
			}
		default:
			return e
		}
	}
}

func (p *exprParser) call(name string) *Expr {
	p.eat("(")
	var args []*Expr
	for !p.isOp(")") {
		args = append(args, p.expr())
		if p.isOp(",") {
			p.i++
		} else {
			break
		}
	}
	p.eat(")")
	if name == "old" {
		return p.mk("old", "", args...)
	}
	return p.mk("call", name, args...)
}

func (p *exprParser) typ() string {
	// go type syntax or spec sort; read until , or :: or { or )
	var sb strings.Builder
	d := 0
	for {
		t := p.peek()
		if t.k == "eof" {
			break
		}
		if d == 0 && t.k == "op" && (t.s == "," || t.s == "::" || t.s == "{" || t.s == ")" || t.s == "=") {
			break
		}
		if t.s == "[" || t.s == "(" {
			d++
		}
		if t.s == "]" || t.s == ")" {
			d--
		}
		sb.WriteString(t.s)
		p.i++
	}
	return sb.String()
}

func (p *exprParser) primary() *Expr {
	t := p.peek()
	switch {
	case t.k == "int":
		p.i++
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("int")
		}
		return &Expr{Kind: "int", Int: n, Pos: p.pos}
	case t.k == "str":
		p.i++
		return p.mk("str", t.s)
	case p.isOp("("):
		p.i++
		e := p.expr()
		p.eat(")")
		return e
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		p.i++
		e := p.mk("quant", t.s)
		for {
			n := p.peek().s
			p.i++
			ty := p.typ()
			e.Vars = append(e.Vars, VarDecl{n, ty})
			if p.isOp(",") {
				p.i++
				continue
			}
			break
		}
		for p.isOp("{") {
			p.i++
			var tr []*Expr
			for !p.isOp("}") {
				tr = append(tr, p.expr())
				if p.isOp(",") {
					p.i++
				}
			}
			p.eat("}")
			e.Trig = append(e.Trig, tr)
		}
		p.eat("::")
		e.Args = []*Expr{p.expr()}
		return e
	case t.k == "id" && t.s == "if":
		p.i++
		c := p.expr()
		p.eat("then")
		a := p.expr()
		p.eat("else")
		b := p.expr()
		return p.mk("ite", "", c, a, b)
	case t.k == "id" && t.s == "let":
		p.i++
		n := p.peek().s
		p.i++
		p.eat("=")
		a := p.expr()
		p.eat("in")
		b := p.expr()
		return p.mk("let", n, a, b)
	case t.k == "id":
		p.i++
		if p.isOp("(") {
			return p.call(t.s)
		}
		return p.mk("name", t.s)
	}
	p.fail("unexpected token")
	return nil
}

// ---- declarations ----

type Clause struct {
	E     *Expr
	Src   string
	Pos   string
	Name  string // optional label
	Trust bool   // assumed, not checked (listed among the assumptions)
}

type LoopSpec struct {
	Ord       int
	Label     string
	Invs      []Clause
	Decr      *Clause
	Mods      []*Expr
	HasMods   bool
	Hints     []Clause // asserted at the back edge before invariants
	HeadHints []Clause // asserted at loop head after assuming the invariants
}

// counts: the annotations mention the iteration number
func (l *LoopSpec) counts() bool {
	for _, cs := range [][]Clause{l.Invs, l.Hints, l.HeadHints} {
		for _, c := range cs {
			if strings.Contains(c.Src, "$iter") {
				return true
			}
		}
	}
	return false
}

type Contract struct {
	Key        string
	Pkg        string
	Params     []string
	Results    []string
	Trusted    bool // extern / iface
	Iface      bool
	Internal   bool
	Inline     bool
	Havoc      bool
	Props      []string
	Req        []Clause
	Ens        []Clause
	Mods       []*Expr
	HasMods    bool
	ModAny     bool
	Ghost      []GhostSet
	Loops      []*LoopSpec
	Hints      map[string][]Clause // point -> assertions
	Reveal     map[string]bool
	NoPanic    bool
	Pos        string
	Impl       []string // interface contracts this implements
	Axioms     []string
	Used       bool
	Terminates bool
	Note       string
	Opts       map[string]string
	Alts       []*Contract // the same specification with other loop annotations, tried when the proof with these fails
}

type GhostSet struct {
	L, R *Expr
	Cond *Expr
	At   string // entry/exit
	Pos  string
}

type GhostField struct {
	Owner string // type key, "" for any
	Name  string
	Sort  string
	Def   *Expr
}
type FunDecl struct {
	Name string
	Args []string
	Ret  string
}
type AxiomDecl struct {
	Name   string
	E      *Expr
	Kind   string // axiom, defaxiom, lemma
	Pkg    string
	Proof  string
	Uses   []*Expr
	Pos    string
	Induct string
	Src    string
	Props  []string
	always bool
}
type MacroDecl struct {
	Name   string
	Params []VarDecl
	Body   *Expr
	Reads  []*Expr
	Opaque bool
	Pkg    string
	Pos    string
}
type TypeInv struct {
	Checked bool // also checked at calls from other packages
	Type    string
	Var     string
	Pkg     string
	Invs    []Clause
}
type LockInv struct {
	Type     string
	Field    string
	Var      string
	Pkg      string
	Protects []*Expr
	Invs     []Clause
	Rely     []Clause
}
type ChanSpec struct {
	Logged    bool // messages are recorded too, as for channels without a contract
	Elem      string
	Pkg       string
	Ch, Msg   string
	SendReq   []Clause
	RecvEns   []Clause
	GiveExprs []*Expr
	Gives     []string // element types of the slices that become the receiver's
	// what holds whenever the channel is closed (for the closer), and what a receiver then knows
	CloseReq, ClosedEns []Clause
	SendGhost           []GhostSet
	RecvGhost           []GhostSet
}

type Specs struct {
	Ghosts      map[string]*GhostField
	Funs        map[string]*FunDecl
	Axioms      []*AxiomDecl
	Macros      map[string]*MacroDecl
	Contracts   map[string]*Contract
	Order       []*Contract
	TypeInvs    []*TypeInv
	LockInvs    []*LockInv
	Chans       []*ChanSpec
	PropFuncs   map[string][]string
	PropInfo    map[string]map[string]string
	Sorts       []string
	Consts      map[string]bool
	ImmutFields map[string]bool
}

var clauseKW = map[string]bool{"package": true, "ghost": true, "fun": true, "def": true, "opaque": true, "axiom": true, "defaxiom": true, "lemma": true, "func": true, "iface": true, "extern": true,
	"props": true, "requires": true, "ensures": true, "modifies": true, "loop": true, "invariant": true, "decreases": true, "hint": true, "headhint": true, "ghostset": true, "lockinv": true, "protects": true, "rely": true, "chan": true, "typeinv": true,
	"reveal": true, "inline": true, "internal": true, "trusted": true, "proof": true, "implements": true, "send": true, "recv": true, "sendghost": true, "recvghost": true, "close": true, "closed": true, "gives": true, "prop": true, "propinfo": true, "induction": true, "sort": true, "use": true, "at": true, "trust": true, "loopmodifies": true, "havoc": true, "terminates": true, "note": true, "alt": true, "opt": true, "immutable": true}

type rawClause struct {
	kw, body, pos string
}

func splitClauses(path string) []rawClause {
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var out []rawClause
	for ln, line := range strings.Split(string(data), "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		t := strings.TrimSpace(line)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			w = t[:i]
		}
		if clauseKW[w] {
			out = append(out, rawClause{w, strings.TrimSpace(t[len(w):]), fmt.Sprintf("%s:%d", shortPath(path), ln+1)})
		} else {
			if len(out) == 0 {
				panic(fmt.Sprintf("%s:%d: text outside clause", path, ln+1))
			}
			out[len(out)-1].body += "\n" + t
		}
	}
	return out
}

func shortPath(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

func NewSpecs() *Specs {
	return &Specs{Ghosts: map[string]*GhostField{}, Funs: map[string]*FunDecl{}, Macros: map[string]*MacroDecl{}, Contracts: map[string]*Contract{}, PropFuncs: map[string][]string{}, PropInfo: map[string]map[string]string{}, Consts: map[string]bool{}, ImmutFields: map[string]bool{}}
}

// label: optional "name:" prefix written as [name]
func mkClause(body, pos string) Clause {
	name := ""
	b := body
	if strings.HasPrefix(b, "@") {
		i := strings.IndexAny(b, " \t\n")
		name = b[1:i]
		b = strings.TrimSpace(b[i:])
	}
	return Clause{E: parseExpr(b, pos), Src: strings.Join(strings.Fields(b), " "), Pos: pos, Name: name}
}

func parseHeader(s, pos string) (name string, params, results []string) {
	i := strings.Index(s, "(")
	if i < 0 {
		return strings.TrimSpace(s), nil, nil
	}
	name = strings.TrimSpace(s[:i])
	j := strings.Index(s, ")")
	ps := s[i+1 : j]
	for _, x := range strings.Split(ps, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			params = append(params, strings.Fields(x)[0])
		}
	}
	rest := strings.TrimSpace(s[j+1:])
	if strings.HasPrefix(rest, "returns") {
		rest = strings.TrimSpace(rest[7:])
		rest = strings.Trim(rest, "() ")
		for _, x := range strings.Split(rest, ",") {
			results = append(results, strings.TrimSpace(x))
		}
	} else if rest != "" {
		panic(pos + ": bad header: " + s)
	}
	return
}

func parseParams(ps string) []VarDecl {
	var out []VarDecl
	for _, x := range strings.Split(ps, ",") {
		f := strings.Fields(strings.TrimSpace(x))
		if len(f) == 0 {
			continue
		}
		ty := ""
		if len(f) > 1 {
			ty = strings.Join(f[1:], " ")
		}
		out = append(out, VarDecl{f[0], ty})
	}
	return out
}

func (sp *Specs) LoadFile(path string) {
	pkg := ""
	var cur *Contract
	var loop *LoopSpec
	var ax *AxiomDecl
	var ti *TypeInv
	var li *LockInv
	var ch *ChanSpec
	parseGS := func(c rawClause) GhostSet {
		body := c.body
		at := "exit"
		if strings.HasPrefix(body, "@") {
			i := strings.IndexAny(body, " \t\n")
			at = body[1:i]
			body = strings.TrimSpace(body[i:])
		}
		var cond *Expr
		if i := strings.LastIndex(body, " when "); i >= 0 {
			cond = parseExpr(body[i+6:], c.pos)
			body = body[:i]
		}
		i := strings.Index(body, ":=")
		if i < 0 {
			panic(c.pos + ": ghostset needs :=")
		}
		return GhostSet{L: parseExpr(body[:i], c.pos), R: parseExpr(body[i+2:], c.pos), Cond: cond, At: at, Pos: c.pos}
	}
	for _, c := range splitClauses(path) {
		switch c.kw {
		case "package":
			pkg = c.body
		case "sort":
			sp.Sorts = append(sp.Sorts, c.body)
		case "ghost":
			body := c.body
			var def *Expr
			if i := strings.Index(body, "="); i >= 0 {
				def = parseExpr(body[i+1:], c.pos)
				body = strings.TrimSpace(body[:i])
			}
			f := strings.SplitN(body, " ", 2)
			nm := f[0]
			owner := ""
			if i := strings.LastIndex(nm, "."); i >= 0 {
				owner = nm[:i]
				nm = nm[i+1:]
				os := strings.Split(owner, "|")
				for i := range os {
					if !strings.Contains(os[i], ".") {
						os[i] = pkg + "." + os[i]
					}
				}
				owner = strings.Join(os, "|")
			}
			if g := sp.Ghosts[nm]; g != nil {
				panic(c.pos + ": duplicate ghost " + nm)
			}
			sp.Ghosts[nm] = &GhostField{Owner: owner, Name: nm, Sort: strings.TrimSpace(f[1]), Def: def}
		case "fun":
			i := strings.Index(c.body, "(")
			j := strings.LastIndex(c.body, ")")
			nm := strings.TrimSpace(c.body[:i])
			var args []string
			for _, x := range splitTop(c.body[i+1 : j]) {
				x = strings.TrimSpace(x)
				if x != "" {
					args = append(args, x)
				}
			}
			if sp.Funs[nm] != nil {
				panic(c.pos + ": duplicate fun " + nm)
			}
			sp.Funs[nm] = &FunDecl{nm, args, strings.TrimSpace(c.body[j+1:])}
		case "def", "opaque":
			i := strings.Index(c.body, "(")
			j := matchParen(c.body, i)
			nm := strings.TrimSpace(c.body[:i])
			m := &MacroDecl{Name: nm, Params: parseParams(c.body[i+1 : j]), Opaque: c.kw == "opaque", Pkg: pkg, Pos: c.pos}
			rest := strings.TrimSpace(c.body[j+1:])
			k := strings.Index(rest, "=")
			pre := strings.TrimSpace(rest[:k])
			if strings.HasPrefix(pre, "reads") {
				m.Reads = parseExprList(pre[5:], c.pos)
			}
			m.Body = parseExpr(rest[k+1:], c.pos)
			if sp.Macros[nm] != nil {
				panic(c.pos + ": duplicate def " + nm)
			}
			sp.Macros[nm] = m
		case "axiom", "defaxiom", "lemma":
			i := strings.Index(c.body, ":")
			ax = &AxiomDecl{Name: strings.TrimSpace(c.body[:i]), Kind: c.kw, Pkg: pkg, Pos: c.pos}
			ax.Src = strings.Join(strings.Fields(c.body[i+1:]), " ")
			ax.E = parseExpr(c.body[i+1:], c.pos)
			sp.Axioms = append(sp.Axioms, ax)
			cur, loop = nil, nil
		case "induction":
			ax.Induct = c.body
		case "use":
			ax.Uses = append(ax.Uses, parseExpr(c.body, c.pos))
		case "proof":
			ax.Proof = c.body
		case "func", "iface", "extern":
			nm, ps, rs := parseHeader(c.body, c.pos)
			cur = &Contract{Key: nm, Pkg: pkg, Params: ps, Results: rs, Pos: c.pos, Hints: map[string][]Clause{}, Reveal: map[string]bool{}, Opts: map[string]string{}}
			if c.kw != "func" {
				cur.Trusted = true
			}
			cur.Iface = c.kw == "iface"
			if sp.Contracts[nm] != nil {
				panic(c.pos + ": duplicate contract " + nm)
			}
			sp.Contracts[nm] = cur
			sp.Order = append(sp.Order, cur)
			loop, ax, ti, li, ch = nil, nil, nil, nil, nil
		case "props":
			ps := strings.Fields(strings.ReplaceAll(c.body, ",", " "))
			if cur != nil {
				cur.Props = append(cur.Props, ps...)
			} else if ax != nil {
				ax.Props = append(ax.Props, ps...)
			}
		case "prop":
			f := strings.Fields(c.body)
			sp.PropFuncs[f[0]] = append(sp.PropFuncs[f[0]], f[1:]...)
		case "propinfo":
			f := strings.SplitN(c.body, " ", 3)
			if sp.PropInfo[f[0]] == nil {
				sp.PropInfo[f[0]] = map[string]string{}
			}
			if old := sp.PropInfo[f[0]][f[1]]; old != "" {
				f[2] = old + "\n" + f[2]
			}
			sp.PropInfo[f[0]][f[1]] = strings.Join(strings.FieldsFunc(f[2], func(r rune) bool { return r == '\r' }), "")
		case "alt":
			main := cur
			for i := len(sp.Order) - 1; i >= 0; i-- {
				if sp.Order[i].Key == cur.Key {
					main = sp.Order[i]
					break
				}
			}
			a := *main
			a.Loops, a.Alts = nil, nil
			a.Ghost = append([]GhostSet(nil), main.Ghost...)
			a.Hints = map[string][]Clause{}
			for k, h := range main.Hints {
				a.Hints[k] = append([]Clause(nil), h...)
			}
			main.Alts = append(main.Alts, &a)
			cur, loop = &a, nil
		case "internal":
			cur.Internal = true
		case "inline":
			cur.Inline = true
		case "trusted":
			cur.Trusted = true
			cur.Note = c.body
		case "note":
			cur.Note = c.body
		case "opt":
			f := strings.SplitN(c.body, " ", 2)
			v := ""
			if len(f) > 1 {
				v = f[1]
			}
			if ti != nil {
				ti.Checked = ti.Checked || f[0] == "checked"
				continue
			}
			cur.Opts[f[0]] = v
		case "havoc":
			cur.Havoc = true
		case "terminates":
			cur.Terminates = true
		case "implements":
			cur.Impl = append(cur.Impl, strings.Fields(c.body)...)
		case "reveal":
			for _, x := range strings.Fields(c.body) {
				cur.Reveal[x] = true
			}
		case "requires":
			cur.Req = append(cur.Req, mkClause(c.body, c.pos))
		case "ensures":
			cur.Ens = append(cur.Ens, mkClause(c.body, c.pos))
		case "modifies":
			if loop != nil {
				loop.HasMods = true
				if c.body != "nothing" {
					loop.Mods = append(loop.Mods, parseExprList(c.body, c.pos)...)
				}
				break
			}
			cur.HasMods = true
			if strings.TrimSpace(c.body) == "anything" {
				cur.ModAny = true
			} else if strings.TrimSpace(c.body) != "nothing" {
				cur.Mods = append(cur.Mods, parseExprList(c.body, c.pos)...)
			}
		case "ghostset":
			cur.Ghost = append(cur.Ghost, parseGS(c))
		case "hint":
			if loop != nil && !strings.HasPrefix(c.body, "exit:") && !strings.HasPrefix(c.body, "select:") && !strings.HasPrefix(c.body, "entry:") && !strings.HasPrefix(c.body, "before ") && !strings.HasPrefix(c.body, "after ") {
				loop.Hints = append(loop.Hints, mkClause(c.body, c.pos))
			} else {
				i := strings.Index(c.body, ":")
				pt := strings.TrimSpace(c.body[:i])
				cur.Hints[pt] = append(cur.Hints[pt], mkClause(strings.TrimSpace(c.body[i+1:]), c.pos))
			}
		case "trust":
			i := strings.Index(c.body, ":")
			cl := mkClause(strings.TrimSpace(c.body[i+1:]), c.pos)
			cl.Trust = true
			pt := strings.TrimSpace(c.body[:i])
			cur.Hints[pt] = append(cur.Hints[pt], cl)
		case "headhint":
			loop.HeadHints = append(loop.HeadHints, mkClause(c.body, c.pos))
		case "loop":
			f := strings.Fields(c.body)
			loop = &LoopSpec{}
			fmt.Sscanf(f[0], "%d", &loop.Ord)
			if len(f) > 1 {
				loop.Label = f[1]
			}
			cur.Loops = append(cur.Loops, loop)
		case "invariant":
			switch {
			case ti != nil:
				ti.Invs = append(ti.Invs, mkClause(c.body, c.pos))
			case li != nil:
				li.Invs = append(li.Invs, mkClause(c.body, c.pos))
			default:
				loop.Invs = append(loop.Invs, mkClause(c.body, c.pos))
			}
		case "loopmodifies":
			loop.HasMods = true
			if c.body != "nothing" {
				loop.Mods = append(loop.Mods, parseExprList(c.body, c.pos)...)
			}
		case "decreases":
			cl := mkClause(c.body, c.pos)
			loop.Decr = &cl
		case "typeinv":
			nm, ps, _ := parseHeader(c.body, c.pos)
			ti = &TypeInv{Type: nm, Var: ps[0], Pkg: pkg}
			sp.TypeInvs = append(sp.TypeInvs, ti)
			cur, loop, ax, li, ch = nil, nil, nil, nil, nil
		case "lockinv":
			nm, ps, _ := parseHeader(c.body, c.pos)
			i := strings.LastIndex(nm, ".")
			li = &LockInv{Type: nm[:i], Field: nm[i+1:], Var: ps[0], Pkg: pkg}
			sp.LockInvs = append(sp.LockInvs, li)
			cur, loop, ax, ti, ch = nil, nil, nil, nil, nil
		case "protects":
			li.Protects = append(li.Protects, parseExprList(c.body, c.pos)...)
		case "rely":
			li.Rely = append(li.Rely, mkClause(c.body, c.pos))
		case "immutable":
			for _, x := range strings.Fields(c.body) {
				sp.ImmutFields[x] = true
			}
		case "chan":
			nm, ps, rs := parseHeader(c.body, c.pos)
			ch = &ChanSpec{Elem: nm, Pkg: pkg, Ch: ps[0], Msg: ps[1], Logged: len(rs) == 1 && rs[0] == "logged"}
			sp.Chans = append(sp.Chans, ch)
			cur, loop, ax, ti, li = nil, nil, nil, nil, nil
		case "send":
			ch.SendReq = append(ch.SendReq, mkClause(c.body, c.pos))
		case "recv":
			ch.RecvEns = append(ch.RecvEns, mkClause(c.body, c.pos))
		case "close":
			ch.CloseReq = append(ch.CloseReq, mkClause(c.body, c.pos))
		case "gives":
			// gives T: expr, ...
			i := strings.Index(c.body, ":")
			ch.Gives = append(ch.Gives, strings.TrimSpace(c.body[:i]))
			for _, e := range parseExprList(c.body[i+1:], c.pos) {
				ch.GiveExprs = append(ch.GiveExprs, e)
			}
		case "closed":
			ch.ClosedEns = append(ch.ClosedEns, mkClause(c.body, c.pos))
		case "sendghost":
			ch.SendGhost = append(ch.SendGhost, parseGS(c))
		case "recvghost":
			ch.RecvGhost = append(ch.RecvGhost, parseGS(c))
		default:
			panic(c.pos + ": unhandled clause " + c.kw)
		}
	}
}

func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		if s[j] == '(' {
			d++
		}
		if s[j] == ')' {
			d--
			if d == 0 {
				return j
			}
		}
	}
	panic("unbalanced parens: " + s)
}

func splitTop(s string) []string {
	var out []string
	d := 0
	st := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	out = append(out, s[st:])
	return out
}
