package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a specification value: leaves plus either a Go type or a spec sort.
type SV struct {
	L    []*Term
	T    types.Type
	Elem *spElem // lazily addressed struct location (for field selection through pointers)
	Nil  bool
}

type spElem struct{}

type SpecCtx struct {
	x         *Exec
	st        *State
	old       *State
	vars      map[string]SV
	lookup    func(name string, st *State) (SV, bool)
	pkg       string
	bound     int
	loopEntry *State
	loopHead  *State
	reveal    map[string]bool
	depth     int
	sends     []*Term // channels the select statement offers to send to / receive from
	recvs     []*Term
}

func specSort(s string) string {
	s = strings.TrimSpace(s)
	switch s {
	case "int", "Int":
		return SInt
	case "bool", "Bool":
		return SBool
	case "seq", "Seq":
		return SSeq
	case "ref", "Ref":
		return SRef
	case "any", "Any", "error":
		return SAny
	case "row":
		return arrSort(SInt, SInt)
	}
	if strings.HasPrefix(s, "map[") {
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					return arrSort(specSort(s[4:i]), specSort(s[i+1:]))
				}
			}
		}
	}
	if strings.HasPrefix(s, "(Array") {
		return s
	}
	if strings.HasPrefix(s, "*") {
		return SRef
	}
	return s
}

func (sp *Specs) ghostsOf(owner string) []*GhostField {
	var out []*GhostField
	var ks []string
	for k := range sp.Ghosts {
		ks = append(ks, k)
	}
	sortStrings(ks)
	for _, k := range ks {
		g := sp.Ghosts[k]
		for _, o := range strings.Split(g.Owner, "|") {
			if o == owner {
				out = append(out, g)
			}
		}
	}
	return out
}

func (c *SpecCtx) clone() *SpecCtx {
	n := *c
	n.vars = map[string]SV{}
	for k, v := range c.vars {
		n.vars[k] = v
	}
	return &n
}

func (c *SpecCtx) fail(e *Expr, m string) {
	panic(unsupportedErr{fmt.Sprintf("%s: spec error: %s in %s", e.Pos, m, e)})
}

func one(t *Term) SV { return SV{L: []*Term{t}} }

// hintExpr evaluates a hint. Hints are optional intermediate steps: one that names a variable that does not exist
// (at this return, or after a renaming) is left out.
func (c *SpecCtx) hintExpr(e *Expr) (t *Term) {
	defer func() {
		if p := recover(); p != nil {
			if u, ok := p.(unsupportedErr); ok && strings.Contains(u.msg, "unknown name") {
				t = True
				return
			}
			panic(p)
		}
	}()
	return c.boolExpr(e)
}

func (c *SpecCtx) boolExpr(e *Expr) *Term {
	v := c.expr(e)
	if len(v.L) != 1 || v.L[0].Sort != SBool {
		c.fail(e, "not a boolean")
	}
	return v.L[0]
}

// resolveType parses a Go type name used in specifications.
func (c *SpecCtx) resolveType(s string) types.Type {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "*") {
		if t := c.resolveType(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(s, "[]") {
		if t := c.resolveType(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	pk, nm := c.pkg, s
	if i := strings.Index(s, "."); i >= 0 {
		pk, nm = s[:i], s[i+1:]
	}
	if p := c.x.P.ByPkg[pk]; p != nil {
		if o := p.Scope().Lookup(nm); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	return nil
}

func (c *SpecCtx) varOf(d VarDecl, name string) (SV, []*Term) {
	switch d.Type {
	case "int", "seq", "ref", "any", "bool", "row", "Int", "Seq":
		b := BVar(name, specSort(d.Type))
		sv := one(b)
		return sv, []*Term{b}
	}
	if strings.HasPrefix(d.Type, "map[") {
		b := BVar(name, specSort(d.Type))
		return one(b), []*Term{b}
	}
	if t := c.resolveType(d.Type); t != nil {
		var sv SV
		sv.T = t
		var bs []*Term
		for _, l := range leavesOf(t) {
			b := BVar(name+l.Path, l.Sort)
			sv.L = append(sv.L, b)
			bs = append(bs, b)
		}
		return sv, bs
	}
	b := BVar(name, specSort(d.Type))
	return one(b), []*Term{b}
}

var bvN int

func (c *SpecCtx) expr(e *Expr) SV {
	switch e.Kind {
	case "int":
		return one(BigI(e.Int))
	case "str":
		return one(strTerm(e.Name))
	case "name":
		return c.name(e)
	case "sel":
		return c.sel(e)
	case "index":
		return c.index(e)
	case "slice":
		return c.slice(e)
	case "star":
		return c.star(e)
	case "old":
		n := c.clone()
		if n.old == nil {
			c.fail(e, "old() not available")
		}
		n.st = c.old
		n.loopEntry = nil
		if c.lookup != nil {
			lk := c.lookup
			n.lookup = func(name string, st *State) (SV, bool) { return lk("\\old:"+name, st) }
		}
		return n.expr(e.Args[0])
	case "call":
		return c.call(e)
	case "ite":
		g := c.boolExpr(e.Args[0])
		a, b := c.expr(e.Args[1]), c.expr(e.Args[2])
		a, b = c.unify(e, a, b)
		out := SV{T: a.T}
		for i := range a.L {
			out.L = append(out.L, Ite(g, a.L[i], b.L[i]))
		}
		return out
	case "let":
		n := c.clone()
		n.vars[e.Name] = c.expr(e.Args[0])
		return n.expr(e.Args[1])
	case "quant":
		n := c.clone()
		n.bound++
		var bs []*Term
		for _, d := range e.Vars {
			bvN++
			sv, b := c.varOf(d, fmt.Sprintf("%s?%d", d.Name, bvN))
			n.vars[d.Name] = sv
			bs = append(bs, b...)
		}
		body := n.boolExpr(e.Args[0])
		occurs := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if occurs[t] {
				return
			}
			occurs[t] = true
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(body)
		var trigs [][]*Term
		for _, tr := range e.Trig {
			// a struct valued term stands for any of its leaves that the body mentions
			alts := [][]*Term{nil}
			for _, t := range tr {
				ls := n.expr(t).L
				if len(ls) > 1 {
					var used []*Term
					for _, l := range ls {
						if occurs[l] {
							used = append(used, l)
						}
					}
					if len(used) > 0 {
						ls = used
					}
				}
				var next [][]*Term
				for _, a := range alts {
					for _, l := range ls {
						next = append(next, append(append([]*Term(nil), a...), l))
					}
				}
				alts = next
			}
			trigs = append(trigs, alts...)
		}
		return one(Quant(e.Name, bs, trigs, body))
	case "un":
		switch e.Name {
		case "!":
			return one(Not(c.boolExpr(e.Args[0])))
		case "-":
			v := c.expr(e.Args[0])
			return one(Sub(I(0), v.L[0]))
		case "*":
			v := c.expr(e.Args[0])
			return c.derefV(e, v)
		}
	case "bin":
		return c.bin(e)
	}
	c.fail(e, "cannot evaluate "+e.Kind)
	return SV{}
}

func (c *SpecCtx) derefV(e *Expr, v SV) SV {
	if v.T == nil {
		c.fail(e, "dereference of a non-pointer")
	}
	t := deref(v.T)
	r := v.L[0]
	if _, ok := isStruct(t); ok {
		return SV{T: t, L: c.x.structLoad(c.st, r, t).L}
	}
	out := SV{T: t}
	for _, l := range leavesOf(t) {
		m := c.x.heapGet(c.st, cellMap(t, l.Path), arrSort(SRef, l.Sort))
		out.L = append(out.L, sel(m, r))
	}
	return out
}

func (c *SpecCtx) unify(e *Expr, a, b SV) (SV, SV) {
	if a.Nil && !b.Nil {
		a = c.nilOf(b)
	} else if b.Nil && !a.Nil {
		b = c.nilOf(a)
	}
	// interface vs concrete pointer comparison
	if len(a.L) == 1 && len(b.L) == 1 && a.L[0].Sort != b.L[0].Sort {
		if a.L[0].Sort == SAny && b.T != nil {
			b = SV{T: a.T, L: []*Term{c.x.box(V{T: b.T, L: b.L})}}
		} else if b.L[0].Sort == SAny && a.T != nil {
			a = SV{T: b.T, L: []*Term{c.x.box(V{T: a.T, L: a.L})}}
		} else if a.L[0].Sort == SSeq && isSliceV(b) {
			b = c.seqv(b)
		}
	}
	if len(a.L) == 4 && isSliceV(a) && len(b.L) == 1 && b.L[0].Sort == SSeq {
		a = c.seqv(a)
	}
	if len(b.L) == 4 && isSliceV(b) && len(a.L) == 1 && a.L[0].Sort == SSeq {
		b = c.seqv(b)
	}
	if len(a.L) != len(b.L) {
		c.fail(e, "shape mismatch")
	}
	return a, b
}

func isSliceV(v SV) bool {
	if v.T == nil {
		return false
	}
	_, ok := v.T.Underlying().(*types.Slice)
	return ok
}

func (c *SpecCtx) seqv(v SV) SV {
	return one(c.x.seqOf(c.st, V{T: v.T, L: v.L}))
}

func (c *SpecCtx) nilOf(v SV) SV {
	if isSliceV(v) {
		return SV{T: v.T, L: []*Term{rnil(), v.L[1], v.L[2], v.L[3]}}
	}
	if len(v.L) == 1 && v.L[0].Sort == SAny {
		return SV{T: v.T, L: []*Term{App("anil", SAny)}}
	}
	return SV{T: v.T, L: []*Term{rnil()}}
}

func (c *SpecCtx) bin(e *Expr) SV {
	switch e.Name {
	case "==>":
		a := c.boolExpr(e.Args[0])
		if a == False {
			return one(True)
		}
		return one(Imp(a, c.boolExpr(e.Args[1])))
	case "&&":
		a := c.boolExpr(e.Args[0])
		if a == False {
			return one(False)
		}
		return one(And(a, c.boolExpr(e.Args[1])))
	case "||":
		a := c.boolExpr(e.Args[0])
		if a == True {
			return one(True)
		}
		return one(Or(a, c.boolExpr(e.Args[1])))
	case "<==>":
		return one(Iff(c.boolExpr(e.Args[0]), c.boolExpr(e.Args[1])))
	}
	a, b := c.expr(e.Args[0]), c.expr(e.Args[1])
	switch e.Name {
	case "==", "!=":
		a, b = c.unify(e, a, b)
		var cs []*Term
		if isSliceV(a) && isSliceV(b) && (a.L[0] == rnil() || b.L[0] == rnil()) {
			cs = append(cs, Eq(a.L[0], b.L[0]))
		} else {
			for i := range a.L {
				switch a.L[i].Sort {
				case SInt:
					cs = append(cs, Eq2(a.L[i], b.L[i]))
				case SRef:
					cs = append(cs, refEq(a.L[i], b.L[i]))
				default:
					if a.L[i].Sort != b.L[i].Sort {
						c.fail(e, "sort mismatch "+a.L[i].Sort+" "+b.L[i].Sort)
					}
					cs = append(cs, Eq(a.L[i], b.L[i]))
				}
			}
		}
		r := And(cs...)
		if e.Name == "!=" {
			r = Not(r)
		}
		return one(r)
	}
	if len(a.L) == 1 && a.L[0].Sort == SSeq || isSliceV(a) && e.Name == "++" {
		if isSliceV(a) {
			a = c.seqv(a)
		}
		if isSliceV(b) {
			b = c.seqv(b)
		}
		switch e.Name {
		case "++", "+":
			return one(scatT(a.L[0], b.L[0]))
		}
	}
	if len(a.L) != 1 || len(b.L) != 1 || a.L[0].Sort != SInt || b.L[0].Sort != SInt {
		c.fail(e, "integer operands expected")
	}
	x, y := a.L[0], b.L[0]
	switch e.Name {
	case "+":
		return one(Add(x, y))
	case "-":
		return one(Sub(x, y))
	case "*":
		return one(Mul(x, y))
	case "/":
		return one(Div(x, y))
	case "%":
		return one(Mod(x, y))
	case "<":
		return one(Lt(x, y))
	case "<=":
		return one(Le(x, y))
	case ">":
		return one(Lt(y, x))
	case ">=":
		return one(Le(y, x))
	}
	c.fail(e, "operator "+e.Name)
	return SV{}
}

func scatT(a, b *Term) *Term {
	if a.Kind == 'a' && a.Op == "sempty" {
		return b
	}
	if b.Kind == 'a' && b.Op == "sempty" {
		return a
	}
	return App("scat", SSeq, a, b)
}

func (c *SpecCtx) name(e *Expr) SV {
	n := e.Name
	if v, ok := c.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return one(True)
	case "false":
		return one(False)
	case "nil":
		return SV{Nil: true, L: []*Term{rnil()}}
	case "empty":
		return one(App("sempty", SSeq))
	case "maxint":
		_, hi := bounds(irange{64, true})
		return one(BigI(hi))
	case "maxuint":
		_, hi := bounds(irange{64, false})
		return one(BigI(hi))
	case "allocnow":
		return one(c.st.alloc)
	}
	if c.lookup != nil {
		if v, ok := c.lookup(n, c.st); ok {
			return v
		}
	}
	if m, ok := c.x.S.Macros[n]; ok && len(m.Params) == 0 {
		return c.expr(&Expr{Kind: "call", Name: n, Pos: e.Pos})
	}
	if f, ok := c.x.S.Funs[n]; ok && len(f.Args) == 0 {
		return one(Sym("fun."+n, specSort(f.Ret)))
	}
	if v, ok := c.global(c.pkg, n); ok {
		return v
	}
	c.fail(e, "unknown name "+n)
	return SV{}
}

func (c *SpecCtx) global(pkg, n string) (SV, bool) {
	p := c.x.P.ByPkg[pkg]
	if p == nil {
		return SV{}, false
	}
	o := p.Scope().Lookup(n)
	switch g := o.(type) {
	case *types.Const:
		v := c.x.constV(ssa.NewConst(g.Val(), g.Type()))
		return SV{T: v.T, L: v.L}, true
	case *types.Var:
		if isErrorType(g.Type()) {
			return SV{T: g.Type(), L: []*Term{errConst(pkg + "." + n)}}, true
		}
		r := globalRefByName(pkg + "." + n)
		return c.derefV(&Expr{Kind: "name", Name: n}, SV{T: types.NewPointer(g.Type()), L: []*Term{r}}), true
	}
	return SV{}, false
}

func (c *SpecCtx) sel(e *Expr) SV {
	b := e.Args[0]
	if b.Kind == "name" {
		if _, isVar := c.vars[b.Name]; !isVar {
			shadow := false
			if c.lookup != nil {
				_, shadow = c.lookup(b.Name, c.st)
			}
			if !shadow {
				if _, ok := c.x.P.ByPkg[b.Name]; ok {
					if v, ok := c.global(b.Name, e.Name); ok {
						return v
					}
				}
			}
		}
	}
	v := c.expr(b)
	return c.field(e, v, e.Name)
}

func (c *SpecCtx) refOf(e *Expr, v SV) *Term {
	if len(v.L) == 1 {
		switch v.L[0].Sort {
		case SRef:
			return v.L[0]
		case SAny:
			return arefOf(v.L[0])
		}
	}
	if isSliceV(v) {
		return v.L[0]
	}
	c.fail(e, "no reference")
	return nil
}

// fieldNow: the present name of a field, which may have been renamed since the contracts were written.
func (c *SpecCtx) fieldNow(v SV, f string) string {
	if v.T == nil || prints == nil {
		return f
	}
	n, ok := deref(v.T).(*types.Named)
	if !ok {
		return f
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok || fieldIndex(s, f) >= 0 {
		return f
	}
	if p := prints["type "+typeKey(n)]; p != nil {
		if r := renamed(p.Locals, fieldsOf(s), f); r != "" {
			return r
		}
	}
	return f
}

func fieldsOf(s *types.Struct) [][2]string {
	var out [][2]string
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, [2]string{s.Field(i).Name(), typeKey(s.Field(i).Type())})
	}
	return out
}

func (c *SpecCtx) field(e *Expr, v SV, f string) SV {
	x := c.x
	f = c.fieldNow(v, f)
	// ghost field
	if g, ok := x.S.Ghosts[f]; ok {
		hasReal := false
		if v.T != nil {
			if s, ok := isStruct(deref(v.T)); ok && fieldIndex(s, f) >= 0 {
				hasReal = true
			}
		}
		if !hasReal {
			srt := specSort(g.Sort)
			m := x.heapGet(c.st, "G:"+g.Name, arrSort(SRef, srt))
			return one(sel(m, c.refOf(e, v)))
		}
	}
	if v.T == nil {
		c.fail(e, "field "+f+" of a spec value")
	}
	if isSliceV(v) {
		switch f {
		case "arr":
			return one(v.L[0])
		case "off":
			return one(v.L[1])
		}
	}
	if pt, ok := v.T.Underlying().(*types.Pointer); ok {
		own := pt.Elem()
		s, ok := isStruct(own)
		if !ok {
			c.fail(e, "field of pointer to non-struct")
		}
		i := fieldIndex(s, f)
		if i < 0 {
			// promoted field through embedded structs
			for k := 0; k < s.NumFields(); k++ {
				if s.Field(k).Embedded() {
					sub := c.field(e, v, s.Field(k).Name())
					if st2, ok := isStruct(deref(sub.T)); ok && fieldIndex(st2, f) >= 0 {
						return c.field(e, sub, f)
					}
				}
			}
			c.fail(e, "no field "+f+" in "+own.String())
		}
		ft := s.Field(i).Type()
		r := v.L[0]
		if _, ok := isStruct(ft); ok {
			return SV{T: types.NewPointer(ft), L: []*Term{rfld(r, fieldId(own, f))}}
		}
		out := SV{T: ft}
		if _, ok := isArray(ft); ok {
			out.L = []*Term{rfld(r, fieldId(own, f))}
			return out
		}
		for _, l := range leavesOf(ft) {
			m := x.heapGet(c.st, fieldMap(own, "."+f+l.Path), arrSort(SRef, l.Sort))
			out.L = append(out.L, sel(m, r))
		}
		if c.bound == 0 {
			x.typeFacts(c.st, V{T: ft, L: out.L})
		}
		return out
	}
	if s, ok := isStruct(v.T); ok {
		i := fieldIndex(s, f)
		if i < 0 {
			for k := 0; k < s.NumFields(); k++ {
				if s.Field(k).Embedded() {
					lo, hi := fieldLeafRange(s, k)
					sub := SV{T: s.Field(k).Type(), L: v.L[lo:hi]}
					if st2, ok := isStruct(deref(sub.T)); ok && fieldIndex(st2, f) >= 0 {
						return c.field(e, sub, f)
					}
				}
			}
			c.fail(e, "no field "+f)
		}
		lo, hi := fieldLeafRange(s, i)
		return SV{T: s.Field(i).Type(), L: v.L[lo:hi]}
	}
	c.fail(e, "field "+f+" of "+v.T.String())
	return SV{}
}

func (c *SpecCtx) index(e *Expr) SV {
	v := c.expr(e.Args[0])
	i := c.expr(e.Args[1])
	return c.indexV(e, v, i)
}

func (c *SpecCtx) indexV(e *Expr, v, i SV) SV {
	x := c.x
	if v.T == nil {
		t := v.L[0]
		if t.Sort == SSeq {
			return one(sat(t, i.L[0]))
		}
		if strings.HasPrefix(t.Sort, "(Array") {
			k, _ := arrParts(t.Sort)
			ix := i.L[0]
			if k == SRef && ix.Sort == SAny {
				ix = arefOf(ix)
			}
			return one(Select(t, ix))
		}
		c.fail(e, "index of "+t.Sort)
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		el := u.Elem()
		out := SV{T: el}
		for _, l := range leavesOf(el) {
			m := x.heapGet(c.st, elemMap(el, l.Path), arrSort(SRef, arrSort(SInt, l.Sort)))
			out.L = append(out.L, atTerm(sel(m, v.L[0]), v.L[1], i.L[0]))
		}
		if c.bound == 0 {
			x.typeFacts(c.st, V{T: el, L: out.L})
		}
		return out
	case *types.Map:
		out := SV{T: u.Elem()}
		k := x.mapKey(c.st, V{T: u.Key(), L: i.L})
		for _, l := range leavesOf(u.Elem()) {
			m := x.heapGet(c.st, x.mapMap(u, ".val"+l.Path), arrSort(SRef, arrSort(k.Sort, l.Sort)))
			out.L = append(out.L, Select(sel(m, v.L[0]), k))
		}
		return out
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return one(sat(v.L[0], i.L[0]))
		}
	}
	c.fail(e, "index")
	return SV{}
}

func (c *SpecCtx) slice(e *Expr) SV {
	v := c.expr(e.Args[0])
	if isSliceV(v) {
		lo, hi := I(0), v.L[2]
		if e.Args[1] != nil {
			lo = c.expr(e.Args[1]).L[0]
		}
		if e.Args[2] != nil {
			hi = c.expr(e.Args[2]).L[0]
		}
		el := v.T.Underlying().(*types.Slice).Elem()
		if l := leavesOf(el); len(l) == 1 && l[0].Sort == SInt {
			m := c.x.heapGet(c.st, elemMap(el, ""), arrSort(SRef, arrSort(SInt, SInt)))
			return one(seqofT(sel(m, v.L[0]), Add(v.L[1], lo), Sub(hi, lo)))
		}
		return SV{T: v.T, L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(v.L[3], lo)}}
	}
	s := v.L[0]
	if s.Sort != SSeq {
		c.fail(e, "slice of non-sequence")
	}
	lo, hi := I(0), slen(s)
	if e.Args[1] != nil {
		lo = c.expr(e.Args[1]).L[0]
	}
	if e.Args[2] != nil {
		hi = c.expr(e.Args[2]).L[0]
	}
	return one(ssubT(s, lo, hi))
}

func (c *SpecCtx) star(e *Expr) SV {
	v := c.expr(e.Args[0])
	if isSliceV(v) {
		return c.seqv(v)
	}
	return v
}

func (c *SpecCtx) call(e *Expr) SV {
	x := c.x
	arg := func(i int) SV {
		if i >= len(e.Args) {
			c.fail(e, "missing argument")
		}
		return c.expr(e.Args[i])
	}
	n := e.Name
	switch n {
	case "len":
		v := arg(0)
		if isSliceV(v) {
			return one(v.L[2])
		}
		if v.T != nil {
			if mt, ok := v.T.Underlying().(*types.Map); ok {
				m := x.heapGet(c.st, x.mapMap(mt, ".len"), arrSort(SRef, SInt))
				return one(sel(m, v.L[0]))
			}
		}
		return one(slen(v.L[0]))
	case "cap":
		return one(arg(0).L[3])
	case "has":
		v := arg(0)
		u := v.T.Underlying().(*types.Map)
		k := x.mapKey(c.st, V{T: u.Key(), L: arg(1).L})
		m := x.heapGet(c.st, x.mapMap(u, ".has"), arrSort(SRef, arrSort(k.Sort, SBool)))
		return one(Select(sel(m, v.L[0]), k))
	case "store":
		m := arg(0).L[0]
		k := arg(1).L[0]
		v := arg(2).L[0]
		return one(Store(m, k, v))
	case "snoc":
		return one(App("snoc", SSeq, c.seqArg(arg(0)), arg(1).L[0]))
	case "min":
		a, b := arg(0).L[0], arg(1).L[0]
		return one(Ite(Le(a, b), a, b))
	case "max":
		a, b := arg(0).L[0], arg(1).L[0]
		return one(Ite(Le(a, b), b, a))
	case "abs":
		a := arg(0).L[0]
		return one(Ite(Le(I(0), a), a, Sub(I(0), a)))
	case "inv":
		// the type invariant of the object the argument points to
		v := arg(0)
		g := True
		for _, ti := range x.S.TypeInvs {
			if v.T != nil && typeKey(deref(v.T)) == ti.Type {
				cx := &SpecCtx{x: x, st: c.st, vars: map[string]SV{ti.Var: v}, pkg: ti.Pkg}
				for _, cl := range ti.Invs {
					g = And(g, cx.boolExpr(cl.E))
				}
			}
		}
		return one(g)
	case "fresh":
		v := arg(0)
		base := c.old
		if base == nil {
			c.fail(e, "fresh needs an old state")
		}
		return one(And(Le(base.alloc, rootid(c.refOf(e, v))), Lt(rootid(c.refOf(e, v)), c.st.alloc)))
	case "loopfresh":
		v := arg(0)
		return one(Le(c.loopEntry.alloc, rootid(c.refOf(e, v))))
	case "offered", "listens": // a select statement waits to send to / receive from the channel
		r := c.refOf(e, arg(0))
		chs := c.sends
		if e.Name == "listens" {
			chs = c.recvs
		}
		var any []*Term
		for _, ch := range chs {
			any = append(any, And(Eq(ch, r), Not(Eq(ch, rnil()))))
		}
		return one(Or(any...))
	case "allocated":
		return one(Lt(rootid(c.refOf(e, arg(0))), c.st.alloc))
	case "rootid":
		return one(rootid(c.refOf(e, arg(0))))
	case "ref":
		return one(c.refOf(e, arg(0)))
	case "arr":
		return one(arg(0).L[0])
	case "off":
		return one(arg(0).L[1])
	case "row":
		v := arg(0)
		el := v.T.Underlying().(*types.Slice).Elem()
		lf, path := leavesOf(el)[0], ""
		if len(e.Args) > 1 {
			// row(s, "F"): field F of the elements
			path = "." + c.fieldNow(SV{T: el}, e.Args[1].Name)
			ok := false
			for _, l := range leavesOf(el) {
				if l.Path == path {
					lf, ok = l, true
				}
			}
			if !ok {
				c.fail(e, "no such column")
			}
		}
		m := x.heapGet(c.st, elemMap(el, path), arrSort(SRef, arrSort(SInt, lf.Sort)))
		return one(sel(m, v.L[0]))
	case "pre":
		if c.loopEntry == nil {
			c.fail(e, "pre() outside loop")
		}
		k := c.clone()
		k.st = c.loopEntry
		return k.expr(e.Args[0])
	case "at_head":
		k := c.clone()
		k.st = c.loopHead
		return k.expr(e.Args[0])
	case "is":
		v := arg(0)
		t := c.typeArg(e.Args[1])
		return one(isBox(t, v.L[0]))
	case "as":
		v := arg(0)
		t := c.typeArg(e.Args[1])
		u := unbox(t, v.L[0])
		return SV{T: t, L: u.L}
	case "box":
		v := arg(0)
		t := v.T
		if len(e.Args) > 1 {
			t = c.typeArg(e.Args[1])
		}
		return one(x.box(V{T: t, L: v.L}))
	case "typed":
		v := arg(0)
		v.T = c.typeArg(e.Args[1])
		return v
	case "mark":
		marksUsed = true
		return one(App("mark", SBool, arg(0).L[0]))
	case "bytes_in":
		// all bytes of the row range are bytes: no-op hook
		return one(True)
	case "wrapsub":
		return one(True)
	case "u8", "u16", "u32", "u64":
		k, _ := strconv.Atoi(n[1:])
		return one(Mod(arg(0).L[0], BigI(pow2(k))))
	case "mkslice":
		// mkslice(arr, off, len, "T")
		return SV{T: types.NewSlice(c.typeArg(e.Args[3])), L: []*Term{arg(0).L[0], arg(1).L[0], arg(2).L[0], arg(2).L[0]}}
	case "chmsg":
		// chmsg(ch, k, "T"): the k-th message of a channel of T
		el := c.typeArg(e.Args[2])
		v := V{T: el}
		for _, l := range leavesOf(el) {
			m := x.heapGet(c.st, msgMap(el, l.Path), arrSort(SRef, arrSort(SInt, l.Sort)))
			v.L = append(v.L, Select(sel(m, c.refOf(e, arg(0))), arg(1).L[0]))
		}
		return SV{T: el, L: v.L}
	case "funcref":
		return one(rbase(I(int64(-1000000 - funcId(e.Args[0].Name)))))
	case "errof":
		return one(App("aerr", SAny, arg(0).L[0]))
	case "cellof":
		// content of a heap cell of Go type T at reference
		return c.derefV(e, SV{T: types.NewPointer(c.typeArg(e.Args[1])), L: arg(0).L})
	}
	if m, ok := x.S.Macros[n]; ok {
		return c.macro(e, m)
	}
	if f, ok := x.S.Funs[n]; ok {
		var as []*Term
		for i := range e.Args {
			v := arg(i)
			want := ""
			if i < len(f.Args) {
				want = specSort(f.Args[i])
			}
			if isSliceV(v) && want == SSeq {
				v = c.seqv(v)
			}
			if want == SRef && len(v.L) == 1 && v.L[0].Sort == SAny {
				v = one(arefOf(v.L[0]))
			}
			if v.Nil && want == SAny {
				v = one(App("anil", SAny))
			}
			if want == SAny && len(v.L) == 1 && v.L[0].Sort == SRef && v.T != nil {
				v = one(c.x.box(V{T: v.T, L: v.L}))
			}
			as = append(as, v.L...)
		}
		if len(as) != len(f.Args) {
			c.fail(e, "argument count of "+n)
		}
		for i, a := range as {
			if a.Sort != specSort(f.Args[i]) {
				c.fail(e, fmt.Sprintf("argument %d of %s has sort %s, want %s", i+1, n, a.Sort, specSort(f.Args[i])))
			}
		}
		return one(App("fun."+n, specSort(f.Ret), as...))
	}
	c.fail(e, "unknown function "+n)
	return SV{}
}

func (c *SpecCtx) typeArg(e *Expr) types.Type {
	s := e.Name
	if e.Kind != "str" {
		s = e.String()
	}
	t := c.resolveType(s)
	if t == nil {
		c.fail(e, "unknown type "+s)
	}
	return t
}

func (c *SpecCtx) seqArg(v SV) *Term {
	if isSliceV(v) {
		return c.seqv(v).L[0]
	}
	return v.L[0]
}

func (c *SpecCtx) macro(e *Expr, m *MacroDecl) SV {
	if len(e.Args) != len(m.Params) {
		c.fail(e, "argument count of "+m.Name)
	}
	c.depth++
	if c.depth > 60 {
		c.fail(e, "macro recursion")
	}
	defer func() { c.depth-- }()
	n := &SpecCtx{x: c.x, st: c.st, old: c.old, vars: map[string]SV{}, pkg: m.Pkg, bound: c.bound, loopEntry: c.loopEntry, loopHead: c.loopHead, reveal: c.reveal, depth: c.depth}
	var args []SV
	for i, p := range m.Params {
		v := c.expr(e.Args[i])
		if p.Type != "" {
			switch p.Type {
			case "seq":
				if isSliceV(v) {
					v = c.seqv(v)
				}
				v.T = nil
			case "int", "bool", "any", "ref":
				if v.T != nil && p.Type == "ref" {
					v = one(c.refOf(e, v))
				}
				v.T = nil
			default:
				if v.T == nil || v.Nil {
					if t := n.resolveType(p.Type); t != nil {
						if v.Nil {
							v = c.nilOf(SV{T: t, L: make([]*Term, len(leavesOf(t)))})
						}
						v.T = t
					}
				}
			}
		}
		n.vars[p.Name] = v
		args = append(args, v)
	}
	if !m.Opaque || (c.x.reveal[m.Name]) {
		return n.expr(m.Body)
	}
	// opaque predicate: an uninterpreted function of its arguments and the locations it reads
	var as []*Term
	for _, a := range args {
		as = append(as, a.L...)
	}
	for _, r := range m.Reads {
		v := n.expr(r)
		as = append(as, v.L...)
	}
	return one(App("opq."+m.Name, SBool, as...))
}

// footprint gives the heap locations named by a modifies expression.
func (c *SpecCtx) footprint(e *Expr) map[string][]*Term {
	x := c.x
	out := map[string][]*Term{}
	add := func(n, srt string, r *Term) {
		if _, ok := x.sorts[n]; !ok {
			x.sorts[n] = srt
		}
		out[n] = append(out[n], r)
	}
	var addStruct func(t types.Type, r *Term)
	addStruct = func(t types.Type, r *Term) {
		s, _ := isStruct(t)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if _, ok := isStruct(f.Type()); ok {
				addStruct(f.Type(), rfld(r, fieldId(t, f.Name())))
				continue
			}
			if _, ok := isArray(f.Type()); ok {
				continue
			}
			for _, l := range leavesOf(f.Type()) {
				add(fieldMap(t, "."+f.Name()+l.Path), arrSort(SRef, l.Sort), r)
			}
		}
	}
	switch e.Kind {
	case "ite":
		g := c.boolExpr(e.Args[0])
		a := c.footprint(e.Args[1])
		b := c.footprint(e.Args[2])
		dead := deadRef()
		for n, ts := range a {
			for _, t := range ts {
				out[n] = append(out[n], Ite(g, t, dead))
			}
		}
		for n, ts := range b {
			for _, t := range ts {
				out[n] = append(out[n], Ite(g, dead, t))
			}
		}
		return out
	case "name":
		if e.Name == "nothing" {
			return out
		}
	case "call":
		if m, ok := x.S.Macros[e.Name]; ok && len(m.Reads) > 0 && m.Body.Kind == "name" && m.Body.Name == "true" {
			// footprint macro: def fp(x) reads a, b = true
			n := &SpecCtx{x: c.x, st: c.st, old: c.old, vars: map[string]SV{}, pkg: m.Pkg, loopEntry: c.loopEntry}
			for i, p := range m.Params {
				v := c.expr(e.Args[i])
				if v.T == nil && p.Type != "" {
					v.T = n.resolveType(p.Type)
				}
				n.vars[p.Name] = v
			}
			for _, r := range m.Reads {
				for k, ts := range n.footprint(r) {
					out[k] = append(out[k], ts...)
				}
			}
			return out
		}
		if e.Name == "ghostat" { // ghostat(name, ref)
			g := x.S.Ghosts[e.Args[0].Name]
			add("G:"+g.Name, arrSort(SRef, specSort(g.Sort)), c.refOf(e, c.expr(e.Args[1])))
			return out
		}
		if e.Name == "cells" { // cells(ref, "T")
			t := c.typeArg(e.Args[1])
			r := c.expr(e.Args[0]).L[0]
			if _, ok := isStruct(t); ok {
				addStruct(t, r)
			} else {
				for _, l := range leavesOf(t) {
					add(cellMap(t, l.Path), arrSort(SRef, l.Sort), r)
				}
			}
			return out
		}
		if e.Name == "msglog" { // msglog(channel): the messages sent on it
			v := c.expr(e.Args[0])
			el := v.T.Underlying().(*types.Chan).Elem()
			for _, l := range leavesOf(el) {
				n := msgMap(el, l.Path)
				add(n, arrSort(SRef, arrSort(SInt, l.Sort)), v.L[0])
			}
			return out
		}
		if e.Name == "rows" { // rows(slice)
			v := c.expr(e.Args[0])
			el := v.T.Underlying().(*types.Slice).Elem()
			for _, l := range leavesOf(el) {
				add(elemMap(el, l.Path), arrSort(SRef, arrSort(SInt, l.Sort)), v.L[0])
			}
			return out
		}
	case "star":
		v := c.expr(e.Args[0])
		if isSliceV(v) {
			el := v.T.Underlying().(*types.Slice).Elem()
			for _, l := range leavesOf(el) {
				add(elemMap(el, l.Path), arrSort(SRef, arrSort(SInt, l.Sort)), v.L[0])
			}
			return out
		}
		if v.T != nil {
			if mt, ok := v.T.Underlying().(*types.Map); ok {
				ks := leavesOf(mt.Key())[0].Sort
				add(x.mapMap(mt, ".has"), arrSort(SRef, arrSort(ks, SBool)), v.L[0])
				add(x.mapMap(mt, ".len"), arrSort(SRef, SInt), v.L[0])
				for _, l := range leavesOf(mt.Elem()) {
					add(x.mapMap(mt, ".val"+l.Path), arrSort(SRef, arrSort(ks, l.Sort)), v.L[0])
				}
				return out
			}
		}
	case "un":
		if e.Name == "*" {
			v := c.expr(e.Args[0])
			t := deref(v.T)
			if _, ok := isStruct(t); ok {
				addStruct(t, v.L[0])
			} else {
				for _, l := range leavesOf(t) {
					add(cellMap(t, l.Path), arrSort(SRef, l.Sort), v.L[0])
				}
			}
			return out
		}
	case "sel":
		v := c.expr(e.Args[0])
		f := c.fieldNow(v, e.Name)
		hasReal := false
		if v.T != nil {
			if s, ok := isStruct(deref(v.T)); ok && fieldIndex(s, f) >= 0 {
				hasReal = true
			}
		}
		if g, ok := x.S.Ghosts[f]; ok && !hasReal {
			add("G:"+g.Name, arrSort(SRef, specSort(g.Sort)), c.refOf(e, v))
			return out
		}
		if v.T != nil {
			own := deref(v.T)
			if s, ok := isStruct(own); ok {
				i := fieldIndex(s, f)
				if i < 0 {
					for k := 0; k < s.NumFields(); k++ {
						if s.Field(k).Embedded() {
							if st2, ok := isStruct(deref(s.Field(k).Type())); ok && fieldIndex(st2, f) >= 0 {
								return c.footprint(&Expr{Kind: "sel", Name: f, Args: []*Expr{{Kind: "sel", Name: s.Field(k).Name(), Args: e.Args, Pos: e.Pos}}, Pos: e.Pos})
							}
						}
					}
				}
				if i >= 0 {
					ft := s.Field(i).Type()
					if _, ok := isStruct(ft); ok {
						addStruct(ft, rfld(v.L[0], fieldId(own, f)))
						return out
					}
					for _, l := range leavesOf(ft) {
						add(fieldMap(own, "."+f+l.Path), arrSort(SRef, l.Sort), v.L[0])
					}
					return out
				}
			}
		}
	}
	c.fail(e, "not a location")
	return nil
}

// goalize replaces sequence equality in positive positions by extensional equality.
func goalize(t *Term) *Term { return goalz(t, true) }

func goalz(t *Term, positive bool) *Term {
	switch {
	case t.Kind == 'a' && t.Op == "=" && t.Args[0].Sort == SSeq && positive:
		return App("sEq", SBool, t.Args[0], t.Args[1])
	case t.Kind == 'a' && t.Op == "=" && t.Args[0].Sort == SBool:
		return And(Imp(goalz(t.Args[0], false), goalz(t.Args[1], true)), Imp(goalz(t.Args[1], false), goalz(t.Args[0], true)))
	case t.Kind == 'a' && (t.Op == "and" || t.Op == "or"):
		var as []*Term
		for _, a := range t.Args {
			as = append(as, goalz(a, positive))
		}
		if t.Op == "and" {
			return And(as...)
		}
		return Or(as...)
	case t.Kind == 'a' && t.Op == "=>":
		return Imp(goalz(t.Args[0], !positive), goalz(t.Args[1], positive))
	case t.Kind == 'a' && t.Op == "not":
		return Not(goalz(t.Args[0], !positive))
	case t.Kind == 'a' && t.Op == "ite" && t.Sort == SBool:
		return Ite(t.Args[0], goalz(t.Args[1], positive), goalz(t.Args[2], positive))
	case t.Kind == 'q' && (t.Op == "forall") == positive:
		return Quant(t.Op, t.Vars, t.Trigs, goalz(t.Args[0], positive))
	}
	return t
}
