package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	threadCall bool
	fn         *ssa.Function
	fi         *FnInfo
	key        string
	env        map[ssa.Value]V
	cells      map[*ssa.Alloc]*Cell
	free       []V
	params     []V
	con        *Contract
	defers     []*deferSite
	rets       []retState
	parent     *Frame
	pfx        string
	entry      *State
	top        bool
	depth      int
	// a new helper of the function of host: its loops are numbered from loopBase on
	host     *Frame
	loopBase int
	callIn   ssa.Instruction // the call in host's body that (directly or not) led here
	iters    map[*Loop]*Cell // number of the iteration, for loops whose annotations mention $iter
}

type deferSite struct {
	in   *ssa.Defer
	flag *Cell
	args []*Cell
	fnv  V
	recv *Cell
}

type retState struct {
	st   *State
	vals []V
	pos  string
}

type inEdge struct {
	pred *ssa.BasicBlock
	st   *State
}
type outEdge struct {
	from, to *ssa.BasicBlock
	st       *State
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.P.Fset.Position(p)
	f := strings.TrimPrefix(ps.Filename, x.P.Root+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) newCell(name string, t types.Type) *Cell {
	x.cellN++
	return &Cell{Name: name, T: t, Id: x.cellN}
}

func (x *Exec) newFrame(fn *ssa.Function, con *Contract, parent *Frame) *Frame {
	fr := &Frame{fn: fn, fi: infoOf(fn), key: funcKey(fn), env: map[ssa.Value]V{}, cells: map[*ssa.Alloc]*Cell{}, con: con, parent: parent}
	if parent != nil {
		fr.depth = parent.depth + 1
		if fr.depth > 12 {
			panic(unsupported("inlining too deep (recursion?) at " + fr.key))
		}
		x.nInline++
		fr.pfx = fr.key + "/"
	}
	// defer flags
	for _, b := range fr.fi.rpo {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				for _, l := range fr.fi.loops {
					if l.Blocks[b] {
						panic(unsupported("defer in loop"))
					}
				}
				fr.defers = append(fr.defers, &deferSite{in: d, flag: x.newCell("defer", types.Typ[types.Bool])})
			}
		}
	}
	return fr
}

// runBody executes a function body from st, collecting returns in fr.rets.
func (x *Exec) runBody(fr *Frame, st *State) {
	if len(fr.fn.Blocks) == 0 {
		panic(unsupported("no body for " + fr.key))
	}
	for _, d := range fr.defers {
		st.cells[d.flag] = boolV(False)
	}
	x.region(fr, nil, fr.fn.Blocks[0], st)
}

func (x *Exec) region(fr *Frame, blocks map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, st *State) (exits []outEdge, backs []*State) {
	in := map[*ssa.BasicBlock][]inEdge{}
	in[start] = []inEdge{{nil, st}}
	deliver := func(e outEdge) {
		if e.st == nil || e.st.pc == False {
			return
		}
		if blocks != nil && e.to == start {
			backs = append(backs, e.st)
			return
		}
		if blocks != nil && !blocks[e.to] {
			exits = append(exits, e)
			return
		}
		in[e.to] = append(in[e.to], inEdge{e.from, e.st})
	}
	for _, b := range fr.fi.rpo {
		if blocks != nil && !blocks[b] {
			continue
		}
		ins := in[b]
		if len(ins) == 0 {
			continue
		}
		if l := fr.fi.byHdr[b]; l != nil && !(blocks != nil && b == start) {
			for _, e := range x.doLoop(fr, l, ins) {
				deliver(e)
			}
			continue
		}
		for _, e := range x.block(fr, b, ins) {
			deliver(e)
		}
	}
	return
}

func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, ins []inEdge) []outEdge {
	var sts []*State
	for _, e := range ins {
		sts = append(sts, e.st)
	}
	st := x.merge(sts)
	// phis
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []V
		var live []*State
		for _, e := range ins {
			for i, p := range b.Preds {
				if p == e.pred {
					vs = append(vs, x.val(fr, e.st, ph.Edges[i]))
					live = append(live, e.st)
					break
				}
			}
		}
		if len(vs) == 0 {
			panic(unsupported("phi"))
		}
		fr.env[ph] = x.mergeV("phi", live, vs)
	}
	return x.instrs(fr, b, st)
}

func (x *Exec) instrs(fr *Frame, b *ssa.BasicBlock, st *State) []outEdge {
	for _, in := range b.Instrs {
		if st.pc == False {
			return nil
		}
		switch i := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := x.val(fr, st, i.Cond).L[0]
			s1, s2 := st.clone(), st.clone()
			s1.pc = And(st.pc, c)
			s2.pc = And(st.pc, Not(c))
			return []outEdge{{b, b.Succs[0], s1}, {b, b.Succs[1], s2}}
		case *ssa.Jump:
			return []outEdge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var vs []V
			for _, r := range i.Results {
				vs = append(vs, x.val(fr, st, r))
			}
			fr.rets = append(fr.rets, retState{st, vs, x.pos(i.Pos())})
			return nil
		case *ssa.Panic:
			x.check(st, "panic", fr.pfx+"panic", x.pos(i.Pos()), "explicit panic is unreachable", False)
			return nil
		default:
			st = x.instr(fr, st, in)
			if st == nil {
				return nil
			}
		}
	}
	return nil
}

// val gives the value of an SSA operand.
func (x *Exec) val(fr *Frame, st *State, v ssa.Value) V {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constV(c)
	case *ssa.Function:
		return V{T: c.Type(), Fn: &FnVal{Fn: c}}
	case *ssa.Global:
		return V{T: c.Type(), L: []*Term{x.globalRef(c)}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				return fr.free[i]
			}
		}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == c {
				return fr.params[i]
			}
		}
	case *ssa.Builtin:
		return V{T: c.Type()}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s of %s not available", v.Name(), fr.key)))
	}
	if r.Bad != "" {
		panic(unsupported(r.Bad))
	}
	return r
}

var globalIds = map[string]int{}

func (x *Exec) globalRef(g *ssa.Global) *Term {
	return globalRefByName(g.Pkg.Pkg.Name() + "." + g.Name())
}

func globalRefByName(n string) *Term {
	id, ok := globalIds[n]
	if !ok {
		id = len(globalIds) + 1
		globalIds[n] = id
	}
	return rbase(I(int64(-id)))
}

var errIds = map[string]int{}

func errConst(name string) *Term {
	id, ok := errIds[name]
	if !ok {
		id = len(errIds) + 1
		errIds[name] = id
	}
	return App("aerr", SAny, I(int64(-id)))
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func strTerm(s string) *Term {
	t := App("sempty", SSeq)
	for i := 0; i < len(s); i++ {
		t = App("snoc", SSeq, t, I(int64(s[i])))
	}
	if len(s) == 0 {
		return t
	}
	return strConst(s)
}

var strConsts = map[*Term]string{}
var strByVal = map[string]*Term{}

func strConst(s string) *Term {
	if t, ok := strByVal[s]; ok {
		return t
	}
	t := Sym(fmt.Sprintf("str.%d.%s", len(strByVal), sanitize(s[:min(len(s), 20)])), SSeq)
	strByVal[s] = t
	strConsts[t] = s
	return t
}

func (x *Exec) constV(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return x.zeroV(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return V{T: t, L: []*Term{B(constant.BoolVal(c.Value))}}
	case constant.String:
		return V{T: t, L: []*Term{strTerm(constant.StringVal(c.Value))}}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return V{T: t, L: []*Term{Fresh("float", "Real")}}
		}
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return V{T: t, L: []*Term{BigI(n)}}
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if ok {
				return V{T: t, L: []*Term{BigI(n)}}
			}
		}
		return V{T: t, L: []*Term{Fresh("float", "Real")}}
	}
	panic(unsupported("constant " + c.String()))
}

func (x *Exec) allocRef(st *State) *Term {
	r := rbase(st.alloc)
	st.alloc = Add(st.alloc, I(1))
	for _, rc := range x.recs {
		rc.alloc = true
	}
	return r
}

// zeroAt initialises a fresh object.
func (x *Exec) zeroAt(st *State, r *Term, t types.Type) {
	if s, ok := isStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if _, ok := isStruct(f.Type()); ok {
				x.zeroAt(st, rfld(r, fieldId(t, f.Name())), f.Type())
				continue
			}
			if at, ok := isArray(f.Type()); ok {
				x.zeroArr(st, rfld(r, fieldId(t, f.Name())), at.Elem())
				continue
			}
			for _, l := range leavesOf(f.Type()) {
				x.heapSetRaw(st, fieldMap(t, "."+f.Name()+l.Path), r, zeroLeaf(l), arrSort(SRef, l.Sort))
			}
		}
		x.zeroGhosts(st, r, typeKey(t))
		return
	}
	if at, ok := isArray(t); ok {
		x.zeroArr(st, r, at.Elem())
		return
	}
	for _, l := range leavesOf(t) {
		x.heapSetRaw(st, cellMap(t, l.Path), r, zeroLeaf(l), arrSort(SRef, l.Sort))
	}
}

// ghost fields owned by a type start at their zero value
func (x *Exec) zeroGhosts(st *State, r *Term, owner string) {
	for _, g := range x.S.ghostsOf(owner) {
		srt := specSort(g.Sort)
		x.heapSetRaw(st, "G:"+g.Name, r, zeroLeaf(Leaf{Sort: srt}), arrSort(SRef, srt))
	}
}

func (x *Exec) zeroArr(st *State, r *Term, el types.Type) {
	for _, l := range leavesOf(el) {
		rs := arrSort(SInt, l.Sort)
		x.heapSetRaw(st, elemMap(el, l.Path), r, ConstArr(rs, zeroLeaf(l)), arrSort(SRef, rs))
	}
}

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) *State {
	pos := x.pos(in.Pos())
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := deref(i.Type())
		if escapes(i) {
			r := x.allocRef(st)
			x.zeroAt(st, r, t)
			fr.env[i] = V{T: i.Type(), L: []*Term{r}}
		} else {
			c := fr.cells[i]
			if c == nil {
				c = x.newCell(i.Comment, t)
				fr.cells[i] = c
			}
			for _, r := range x.recs {
				r.cells[c] = true
			}
			st.cells[c] = x.zeroV(t)
			fr.env[i] = V{T: i.Type(), Ad: &Addr{Kind: "cell", Cell: c, T: t}}
		}
	case *ssa.Store:
		x.store(st, x.val(fr, st, i.Addr), x.val(fr, st, i.Val), pos)
	case *ssa.UnOp:
		fr.env[i] = x.unop(fr, st, i)
	case *ssa.BinOp:
		fr.env[i] = x.binop(st, i.Op, x.val(fr, st, i.X), x.val(fr, st, i.Y), i.Type(), pos)
	case *ssa.FieldAddr:
		p := x.val(fr, st, i.X)
		fr.env[i] = x.fieldAddr(st, p, i.Field, i.Type(), pos)
	case *ssa.Field:
		p := x.val(fr, st, i.X)
		s, _ := isStruct(i.X.Type())
		lo, hi := fieldLeafRange(s, i.Field)
		fr.env[i] = V{T: i.Type(), L: p.L[lo:hi]}
	case *ssa.IndexAddr:
		p := x.val(fr, st, i.X)
		ix := x.val(fr, st, i.Index).L[0]
		var arr, off, ln *Term
		var el types.Type
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			arr, off, ln, el = p.L[0], p.L[1], p.L[2], u.Elem()
		case *types.Pointer:
			a, _ := isArray(u.Elem())
			r := x.leaves(p, i.X.Type())[0]
			arr, off, ln, el = r, I(0), I(a.Len()), a.Elem()
		default:
			panic(unsupported("IndexAddr"))
		}
		x.boundsCheck(st, fr, ix, ln, pos)
		if _, ok := isArray(el); ok {
			panic(unsupported("array of arrays"))
		}
		fr.env[i] = V{T: i.Type(), Ad: &Addr{Kind: "elem", Ref: arr, Off: off, Idx: ix, Own: el, T: el}}
	case *ssa.Index:
		p := x.val(fr, st, i.X)
		ix := x.val(fr, st, i.Index).L[0]
		if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x.boundsCheck(st, fr, ix, slen(p.L[0]), pos)
			fr.env[i] = V{T: i.Type(), L: []*Term{sat(p.L[0], ix)}}
			x.rangeFact(fr.env[i].L[0], irange{8, false})
			break
		}
		panic(unsupported("Index of array value"))
	case *ssa.Slice:
		fr.env[i] = x.sliceOp(fr, st, i, pos)
	case *ssa.MakeSlice:
		ln := x.val(fr, st, i.Len).L[0]
		cp := x.val(fr, st, i.Cap).L[0]
		x.check(st, "bounds", fr.pfx+"makeslice", pos, "make: length and capacity in range", And(Le(I(0), ln), Le(ln, cp)))
		x.assume(st, Le(cp, BigI(maxCap))) // larger requests panic for lack of address space
		x.assumes["make([]T, n) with n beyond 2^47 elements (runtime out-of-memory panic) is not considered"] = true
		r := x.allocRef(st)
		el := i.Type().Underlying().(*types.Slice).Elem()
		x.zeroArr(st, r, el)
		fr.env[i] = V{T: i.Type(), L: []*Term{r, I(0), ln, cp}}
	case *ssa.MakeMap:
		r := x.allocRef(st)
		mt := i.Type().Underlying().(*types.Map)
		x.mapInit(st, r, mt)
		fr.env[i] = V{T: i.Type(), L: []*Term{r}}
	case *ssa.MakeChan:
		r := x.allocRef(st)
		x.chanInit(st, r, i.Type())
		fr.env[i] = V{T: i.Type(), L: []*Term{r}}
	case *ssa.MakeClosure:
		f := &FnVal{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.Bind = append(f.Bind, x.val(fr, st, b))
		}
		fr.env[i] = V{T: i.Type(), Fn: f}
	case *ssa.MakeInterface:
		fr.env[i] = V{T: i.Type(), L: []*Term{x.box(x.val(fr, st, i.X))}}
		// keep Go-side knowledge of boxed function values
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var src ssa.Value
		if c, ok := i.(*ssa.ChangeInterface); ok {
			src = c.X
		} else {
			src = i.(*ssa.ChangeType).X
		}
		v := x.val(fr, st, src)
		v.T = i.(ssa.Value).Type()
		fr.env[i.(ssa.Value)] = v
	case *ssa.Convert:
		fr.env[i] = x.convert(st, x.val(fr, st, i.X), i.Type())
	case *ssa.TypeAssert:
		fr.env[i] = x.typeAssert(fr, st, i, pos)
	case *ssa.Extract:
		t := x.val(fr, st, i.Tuple)
		if t.Tup == nil {
			panic(unsupported("extract from " + i.Tuple.String()))
		}
		fr.env[i] = t.Tup[i.Index]
	case *ssa.Lookup:
		fr.env[i] = x.lookup(fr, st, i, pos)
	case *ssa.MapUpdate:
		x.mapUpdate(fr, st, i, pos)
	case *ssa.Range:
		fr.env[i] = x.rangeInit(fr, st, i)
	case *ssa.Next:
		fr.env[i] = x.rangeNext(fr, st, i)
	case *ssa.Call:
		vs := x.call(fr, st, &i.Call, i, pos)
		if st.pc == False {
			return nil
		}
		switch {
		case len(vs) == 1 && !isTuple(i.Type()):
			fr.env[i] = vs[0]
		default:
			fr.env[i] = V{T: i.Type(), Tup: vs}
		}
	case *ssa.Go:
		x.goStmt(fr, st, i, pos)
	case *ssa.Defer:
		x.deferStmt(fr, st, i, pos)
	case *ssa.RunDefers:
		return x.runDefers(fr, st, pos)
	case *ssa.Send:
		x.send(fr, st, x.val(fr, st, i.Chan), x.val(fr, st, i.X), pos)
	case *ssa.Select:
		fr.env[i] = x.selectStmt(fr, st, i, pos)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T %s", in, in)))
	}
	return st
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

func slen(s *Term) *Term {
	if s.Kind == 'a' && s.Op == "sempty" {
		return I(0)
	}
	if v, ok := strConsts[s]; ok {
		return I(int64(len(v)))
	}
	return App("slen", SInt, s)
}
func sat(s, i *Term) *Term { return App("sat", SInt, s, i) }

func (x *Exec) boundsCheck(st *State, fr *Frame, ix, ln *Term, pos string) {
	g := And(Le(I(0), ix), Lt(ix, ln))
	if g == True {
		return
	}
	x.check(st, "bounds", fr.pfx+"bounds", pos, "index in range", g)
}

func (x *Exec) fieldAddr(st *State, p V, fi int, pt types.Type, pos string) V {
	ft := deref(pt)
	if p.Ad != nil {
		a := *p.Ad
		s, _ := isStruct(a.T)
		f := s.Field(fi)
		switch a.Kind {
		case "cell":
			lo, _ := fieldLeafRange(s, fi)
			a.Lo += lo
			a.T = ft
			return V{T: pt, Ad: &a}
		case "elem":
			a.Path += "." + f.Name()
			a.T = ft
			return V{T: pt, Ad: &a}
		}
		panic(unsupported("fieldAddr " + a.Kind))
	}
	r := p.L[0]
	x.nilCheck(st, r, pos)
	own := deref(p.T)
	s, _ := isStruct(own)
	f := s.Field(fi)
	if _, ok := isStruct(ft); ok {
		return V{T: pt, L: []*Term{rfld(r, fieldId(own, f.Name()))}}
	}
	if _, ok := isArray(ft); ok {
		return V{T: pt, L: []*Term{rfld(r, fieldId(own, f.Name()))}}
	}
	return V{T: pt, Ad: &Addr{Kind: "field", Ref: r, Own: own, Path: "." + f.Name(), T: ft}}
}

func (x *Exec) unop(fr *Frame, st *State, i *ssa.UnOp) V {
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok {
			if v, ok := x.globalConst(g); ok {
				return v
			}
		}
		return x.load(st, x.val(fr, st, i.X), x.pos(i.Pos()))
	case token.NOT:
		return V{T: i.Type(), L: []*Term{Not(x.val(fr, st, i.X).L[0])}}
	case token.SUB:
		v := x.val(fr, st, i.X)
		if v.L[0].Sort != SInt {
			return V{T: i.Type(), L: []*Term{Fresh("float", "Real")}}
		}
		return x.binop(st, token.SUB, V{T: i.Type(), L: []*Term{I(0)}}, v, i.Type(), "")
	case token.XOR:
		v := x.val(fr, st, i.X)
		r, _ := intRange(i.Type())
		if r.signed {
			return V{T: i.Type(), L: []*Term{Sub(I(-1), v.L[0])}}
		}
		_, hi := bounds(r)
		return V{T: i.Type(), L: []*Term{Sub(BigI(hi), v.L[0])}}
	case token.ARROW:
		return x.recv(fr, st, x.val(fr, st, i.X), i.CommaOk, i.Type(), x.pos(i.Pos()))
	}
	panic(unsupported("unop " + i.Op.String()))
}

// globalConst recognises package variables that are never assigned after initialisation.
func (x *Exec) globalConst(g *ssa.Global) (V, bool) {
	t := deref(g.Type())
	name := g.Pkg.Pkg.Name() + "." + g.Name()
	if isErrorType(t) && !x.assigned(g) {
		return V{T: t, L: []*Term{errConst(name)}}, true
	}
	return V{}, false
}

var assignedMemo map[*ssa.Global]bool

func (x *Exec) assigned(g *ssa.Global) bool {
	if !x.P.InRep[g.Pkg.Pkg] {
		return false
	}
	if assignedMemo == nil {
		assignedMemo = map[*ssa.Global]bool{}
		for _, f := range x.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if gg, ok := s.Addr.(*ssa.Global); ok && f.Name() != "init" {
							assignedMemo[gg] = true
						}
					}
				}
			}
		}
	}
	return assignedMemo[g]
}

func (x *Exec) named(key string, srt string, mk func(f *Term) *Term) *Term {
	if e, ok := x.memo[key]; ok {
		return e.t
	}
	f := Fresh(key[:min(len(key), 4)], srt)
	x.memo[key] = memoEnt{f, len(x.facts)}
	x.facts = append(x.facts, mk(f))
	return f
}

// wrap reduces a mathematical integer to a machine type.
func (x *Exec) wrap(t *Term, ty types.Type, addlike bool) *Term {
	r, ok := intRange(ty)
	if !ok {
		return t
	}
	lo, hi := bounds(r)
	if t.isInt() {
		m := new(big.Int).Lsh(big.NewInt(1), r.bits)
		v := new(big.Int).Sub(t.Int, lo)
		v.Mod(v, m)
		v.Add(v, lo)
		return BigI(v)
	}
	if l, h, ok := x.interval(t, 0); ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	m := BigI(new(big.Int).Lsh(big.NewInt(1), r.bits))
	if x.con != nil && x.con.Opts["mathints"] == "" {
	}
	return x.named(fmt.Sprintf("w%d%v.%d", r.bits, r.signed, t.id), SInt, func(f *Term) *Term {
		var def *Term
		if addlike {
			def = Eq(f, Ite(Gt(t, BigI(hi)), Sub(t, m), Ite(Lt(t, BigI(lo)), Add(t, m), t)))
		} else if r.signed {
			def = Eq(f, Ite(And(Le(BigI(lo), t), Le(t, BigI(hi))), t, Add(Mod(Sub(t, BigI(lo)), m), BigI(lo))))
		} else {
			def = Eq(f, Ite(And(Le(I(0), t), Le(t, BigI(hi))), t, Mod(t, m)))
		}
		return And(def, Le(BigI(lo), f), Le(f, BigI(hi)))
	})
}

// interval gives cheap syntactic bounds.
func (x *Exec) interval(t *Term, d int) (lo, hi *big.Int, ok bool) {
	if d > 6 {
		return nil, nil, false
	}
	if t.isInt() {
		return t.Int, t.Int, true
	}
	if t.Kind == 'a' {
		switch t.Op {
		case "mod":
			if t.Args[1].isInt() && t.Args[1].Int.Sign() > 0 {
				return big.NewInt(0), new(big.Int).Sub(t.Args[1].Int, big.NewInt(1)), true
			}
		case "ite":
			l1, h1, ok1 := x.interval(t.Args[1], d+1)
			l2, h2, ok2 := x.interval(t.Args[2], d+1)
			if ok1 && ok2 {
				if l2.Cmp(l1) < 0 {
					l1 = l2
				}
				if h2.Cmp(h1) > 0 {
					h1 = h2
				}
				return l1, h1, true
			}
		case "+":
			lo, hi = big.NewInt(0), big.NewInt(0)
			for _, a := range t.Args {
				l, h, ok := x.interval(a, d+1)
				if !ok {
					return nil, nil, false
				}
				lo = new(big.Int).Add(lo, l)
				hi = new(big.Int).Add(hi, h)
			}
			return lo, hi, true
		case "*", "mul":
			l1, h1, ok1 := x.interval(t.Args[0], d+1)
			l2, h2, ok2 := x.interval(t.Args[1], d+1)
			if ok1 && ok2 {
				var mn, mx *big.Int
				for _, a := range []*big.Int{l1, h1} {
					for _, b := range []*big.Int{l2, h2} {
						p := new(big.Int).Mul(a, b)
						if mn == nil || p.Cmp(mn) < 0 {
							mn = p
						}
						if mx == nil || p.Cmp(mx) > 0 {
							mx = p
						}
					}
				}
				return mn, mx, true
			}
		}
	}
	for _, r := range []irange{{8, false}, {16, false}, {32, false}, {32, true}, {64, false}, {64, true}} {
		if x.rangeDone[App(fmt.Sprintf("rangefact%d%v", r.bits, r.signed), SBool, t)] {
			l, h := bounds(r)
			return l, h, true
		}
	}
	return nil, nil, false
}

func (x *Exec) binop(st *State, op token.Token, a, b V, rt types.Type, pos string) V {
	bt := a.T
	// comparisons of non-integers
	switch op {
	case token.EQL, token.NEQ:
		e := x.eqV(st, a, b)
		if op == token.NEQ {
			e = Not(e)
		}
		return V{T: rt, L: []*Term{e}}
	}
	l, r := a.L[0], b.L[0]
	if l.Sort == "Real" || r.Sort == "Real" {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return V{T: rt, L: []*Term{Fresh("fcmp", SBool)}}
		}
		return V{T: rt, L: []*Term{Fresh("float", "Real")}}
	}
	if l.Sort == SSeq {
		switch op {
		case token.ADD:
			return V{T: rt, L: []*Term{App("scat", SSeq, l, r)}}
		}
		panic(unsupported("string op " + op.String()))
	}
	switch op {
	case token.LSS:
		return V{T: rt, L: []*Term{Lt(l, r)}}
	case token.LEQ:
		return V{T: rt, L: []*Term{Le(l, r)}}
	case token.GTR:
		return V{T: rt, L: []*Term{Lt(r, l)}}
	case token.GEQ:
		return V{T: rt, L: []*Term{Le(r, l)}}
	}
	var t *Term
	switch op {
	case token.ADD:
		t = x.wrap(Add(l, r), rt, true)
	case token.SUB:
		t = x.wrap(Sub(l, r), rt, true)
	case token.MUL:
		t = x.wrap(Mul(l, r), rt, false)
	case token.QUO, token.REM:
		x.check(st, "divzero", "divzero", pos, "division by zero", Not(Eq(r, I(0))))
		ir, _ := intRange(bt)
		if !ir.signed {
			q := Div(l, r)
			if op == token.QUO {
				t = q
				if !r.isInt() {
					t = x.divFacts(l, r, q)
				}
			} else {
				if r.isInt() {
					t = Mod(l, r)
				} else {
					t = Sub(l, Mul(r, x.divFacts(l, r, q)))
				}
			}
			break
		}
		var q *Term
		switch {
		case r.isInt() && r.Int.Sign() > 0:
			q = Ite(Ge(l, I(0)), Div(l, r), Sub(I(0), Div(Sub(I(0), l), r)))
		default:
			q = x.signedDiv(l, r)
		}
		if op == token.QUO {
			t = x.wrap(q, rt, true)
		} else {
			if r.isInt() && r.Int.Sign() > 0 {
				t = Ite(Ge(l, I(0)), Mod(l, r), Sub(I(0), Mod(Sub(I(0), l), r)))
			} else {
				t = Sub(l, Mul(r, q))
			}
		}
	case token.AND:
		t = x.bitAnd(l, r, rt)
	case token.OR:
		t = x.bitOr(l, r, rt)
	case token.SHL:
		if !r.isInt() {
			panic(unsupported("shift by non-constant"))
		}
		t = x.wrap(Mul(l, BigI(new(big.Int).Lsh(big.NewInt(1), uint(r.Int.Int64())))), rt, false)
	case token.SHR:
		if !r.isInt() {
			panic(unsupported("shift by non-constant"))
		}
		t = Div(l, BigI(new(big.Int).Lsh(big.NewInt(1), uint(r.Int.Int64()))))
	default:
		t = Fresh("bitop", SInt)
		if ir, ok := intRange(rt); ok {
			x.rangeFact(t, ir)
		}
	}
	return V{T: rt, L: []*Term{t}}
}

// divFacts names an unsigned quotient by a symbolic divisor with its defining (nonlinear) facts.
func (x *Exec) divFacts(l, r, q *Term) *Term {
	return x.named(fmt.Sprintf("qu.%d.%d", l.id, r.id), SInt, func(f *Term) *Term {
		return Imp(And(Gt(r, I(0)), Ge(l, I(0))), And(Eq(f, Div(l, r)), Le(Mul(r, f), l), Lt(l, Add(Mul(r, f), r)), Ge(f, I(0)), Le(f, l)))
	})
}

func (x *Exec) signedDiv(l, r *Term) *Term {
	return x.named(fmt.Sprintf("qs.%d.%d", l.id, r.id), SInt, func(f *Term) *Term {
		p := Mul(r, f)
		return And(
			Imp(And(Gt(r, I(0)), Ge(l, I(0))), And(Eq(f, Div(l, r)), Le(p, l), Lt(l, Add(p, r)), Ge(f, I(0)), Le(f, l))),
			Imp(And(Gt(r, I(0)), Lt(l, I(0))), And(Ge(p, l), Gt(Add(l, r), p), Le(f, I(0)), Ge(f, l))),
			Imp(And(Lt(r, I(0)), Ge(l, I(0))), And(Le(p, l), Lt(Sub(l, p), Sub(I(0), r)), Le(f, I(0)))),
			Imp(And(Lt(r, I(0)), Lt(l, I(0))), And(Ge(p, l), Lt(Sub(p, l), Sub(I(0), r)), Ge(f, I(0)))))
	})
}

func pow2m1(n *big.Int) (uint, bool) {
	m := new(big.Int).Add(n, big.NewInt(1))
	if m.Sign() > 0 && new(big.Int).And(m, n).Sign() == 0 {
		return uint(m.BitLen() - 1), true
	}
	return 0, false
}

func (x *Exec) bitAnd(l, r *Term, rt types.Type) *Term {
	if l.isInt() {
		l, r = r, l
	}
	if l.isInt() && r.isInt() {
		return BigI(new(big.Int).And(l.Int, r.Int))
	}
	if r.isInt() {
		if k, ok := pow2m1(r.Int); ok {
			return Mod(l, BigI(new(big.Int).Lsh(big.NewInt(1), k)))
		}
	}
	f := App("bitand", SInt, l, r)
	k := App("bitandfact", SBool, f)
	if !x.factDone(k) {
		x.facts = append(x.facts, Imp(And(Le(I(0), l), Le(I(0), r)), And(Le(I(0), f), Le(f, l), Le(f, r))))
		if ir, ok := intRange(rt); ok {
			x.rangeFact(f, ir)
		}
	}
	return f
}

func (x *Exec) bitOr(l, r *Term, rt types.Type) *Term {
	if l.isInt() && r.isInt() {
		return BigI(new(big.Int).Or(l.Int, r.Int))
	}
	// disjoint ranges: a | (b * 2^k) with 0 <= a < 2^k
	try := func(a, b *Term) *Term {
		_, h, ok := x.interval(a, 0)
		if !ok || b.Kind != 'a' || b.Op != "*" || !b.Args[0].isInt() {
			return nil
		}
		if h.Cmp(b.Args[0].Int) < 0 {
			return Add(a, b)
		}
		return nil
	}
	if t := try(l, r); t != nil {
		return t
	}
	if t := try(r, l); t != nil {
		return t
	}
	f := App("bitor", SInt, l, r)
	if ir, ok := intRange(rt); ok {
		x.rangeFact(f, ir)
	}
	return f
}

func (x *Exec) eqV(st *State, a, b V) *Term {
	if _, ok := a.T.Underlying().(*types.Slice); ok {
		return Eq(a.L[0], b.L[0]) // comparison with nil only
	}
	if _, ok := b.T.Underlying().(*types.Slice); ok {
		return Eq(a.L[0], b.L[0])
	}
	// interface vs concrete
	_, ia := a.T.Underlying().(*types.Interface)
	_, ib := b.T.Underlying().(*types.Interface)
	if ia && !ib {
		b = V{T: a.T, L: []*Term{x.box(b)}}
	} else if ib && !ia {
		a = V{T: b.T, L: []*Term{x.box(a)}}
	}
	if a.Ad != nil || b.Ad != nil || a.Fn != nil || b.Fn != nil {
		if (a.Ad != nil || a.Fn != nil) && len(b.L) == 1 && b.L[0] == rnil() {
			return False
		}
		if (b.Ad != nil || b.Fn != nil) && len(a.L) == 1 && a.L[0] == rnil() {
			return False
		}
		if a.Ad != nil && b.Ad != nil && a.Ad.Kind == "field" && b.Ad.Kind == "field" {
			return Eq(x.refOfAddr(a.Ad), x.refOfAddr(b.Ad))
		}
		panic(unsupported("comparison of addresses"))
	}
	var cs []*Term
	for i := range a.L {
		if a.L[i].Sort == "Real" {
			cs = append(cs, Fresh("fcmp", SBool))
			continue
		}
		if a.L[i].Sort == SInt {
			cs = append(cs, Eq2(a.L[i], b.L[i]))
		} else if a.L[i].Sort == SRef {
			cs = append(cs, refEq(a.L[i], b.L[i]))
		} else {
			cs = append(cs, Eq(a.L[i], b.L[i]))
		}
	}
	return And(cs...)
}

func (x *Exec) convert(st *State, v V, t types.Type) V {
	ut, uv := t.Underlying(), v.T.Underlying()
	bt, okT := ut.(*types.Basic)
	bv, okV := uv.(*types.Basic)
	if okT && okV {
		switch {
		case bt.Info()&types.IsInteger != 0 && bv.Info()&types.IsInteger != 0:
			x.typeFacts(st, v)
			return V{T: t, L: []*Term{x.wrap(v.L[0], t, false)}}
		case bt.Info()&types.IsString != 0 && bv.Info()&types.IsString != 0:
			return V{T: t, L: v.L}
		case bt.Info()&types.IsFloat != 0:
			return V{T: t, L: []*Term{Fresh("float", "Real")}}
		case bt.Info()&types.IsInteger != 0 && bv.Info()&types.IsFloat != 0:
			return x.freshV(st, "fromfloat", t)
		}
	}
	if okT && bt.Info()&types.IsString != 0 {
		if _, ok := uv.(*types.Slice); ok {
			return V{T: t, L: []*Term{x.seqOf(st, v)}}
		}
	}
	if sl, ok := ut.(*types.Slice); ok && okV && bv.Info()&types.IsString != 0 {
		r := x.allocRef(st)
		rs := arrSort(SInt, SInt)
		row := Fresh("strrow", rs)
		x.heapSetRaw(st, elemMap(sl.Elem(), ""), r, row, arrSort(SRef, rs))
		cp := Fresh("cap", SInt)
		n := slen(v.L[0])
		x.facts = append(x.facts, And(Le(n, cp), Le(cp, BigI(maxCap))))
		x.facts = append(x.facts, Eq(seqofT(row, I(0), n), v.L[0]))
		return V{T: t, L: []*Term{r, I(0), n, cp}}
	}
	v.T = t
	return v
}

func seqofT(row, off, n *Term) *Term {
	if n.isInt() && n.Int.Sign() == 0 {
		return App("sempty", SSeq)
	}
	o0, d := splitOff(off)
	return App("seqof", SSeq, row, o0, d, n)
}

// seqOf gives the contents of a byte slice as a sequence.
func (x *Exec) seqOf(st *State, v V) *Term {
	el := v.T.Underlying().(*types.Slice).Elem()
	ls := leavesOf(el)
	if len(ls) != 1 || ls[0].Sort != SInt {
		panic(unsupported("contents of " + v.T.String()))
	}
	m := x.heapGet(st, elemMap(el, ""), arrSort(SRef, arrSort(SInt, SInt)))
	return seqofT(sel(m, v.L[0]), v.L[1], v.L[2])
}

func (x *Exec) sliceOp(fr *Frame, st *State, i *ssa.Slice, pos string) V {
	p := x.val(fr, st, i.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.val(fr, st, v).L[0]
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic:
		n := slen(p.L[0])
		lo, hi := get(i.Low, I(0)), get(i.High, n)
		x.check(st, "bounds", fr.pfx+"slice", pos, "slice bounds", And(Le(I(0), lo), Le(lo, hi), Le(hi, n)))
		return V{T: i.Type(), L: []*Term{ssubT(p.L[0], lo, hi)}}
	case *types.Pointer:
		a, _ := isArray(u.Elem())
		r := x.leaves(p, i.X.Type())[0]
		n := I(a.Len())
		lo, hi := get(i.Low, I(0)), get(i.High, n)
		x.checkT(st, "bounds", fr.pfx+"slice", pos, "slice bounds", And(Le(I(0), lo), Le(lo, hi), Le(hi, n)))
		return V{T: i.Type(), L: []*Term{r, lo, Sub(hi, lo), Sub(n, lo)}}
	case *types.Slice:
		lo, hi := get(i.Low, I(0)), get(i.High, p.L[2])
		mx := get(i.Max, p.L[3])
		x.checkT(st, "bounds", fr.pfx+"slice", pos, "slice bounds", And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, p.L[3])))
		return V{T: i.Type(), L: []*Term{p.L[0], Add(p.L[1], lo), Sub(hi, lo), Sub(mx, lo)}}
	}
	panic(unsupported("slice of " + i.X.Type().String()))
}

func (x *Exec) checkT(st *State, kind, name, pos, desc string, g *Term) {
	if g == True {
		return
	}
	x.check(st, kind, name, pos, desc, g)
}

func ssubT(s, lo, hi *Term) *Term {
	if hi == slen(s) && lo.isInt() && lo.Int.Sign() == 0 {
		return s
	}
	return App("ssub", SSeq, s, lo, hi)
}

func (x *Exec) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert, pos string) V {
	v := x.val(fr, st, i.X).L[0]
	var is *Term
	var res V
	if _, ok := i.AssertedType.Underlying().(*types.Interface); ok {
		is = x.implements(v, i.AssertedType)
		res = V{T: i.AssertedType, L: []*Term{v}}
	} else {
		is = isBox(i.AssertedType, v)
		res = unbox(i.AssertedType, v)
	}
	if !i.CommaOk {
		x.checkT(st, "typeassert", fr.pfx+"typeassert", pos, "type assertion to "+typeKey(i.AssertedType)+" succeeds", is)
		x.typeFacts(st, res)
		return res
	}
	z := x.zeroV(i.AssertedType)
	out := V{T: res.T}
	for k := range res.L {
		t := Ite(is, res.L[k], z.L[k])
		if t.Op == "ite" {
			// a name, so that the value can occur in patterns
			f := Fresh("asserted"+leavesOf(i.AssertedType)[k].Path, t.Sort)
			x.facts = append(x.facts, Eq(f, t))
			t = f
		}
		out.L = append(out.L, t)
	}
	x.typeFacts(st, out)
	return V{T: i.Type(), Tup: []V{out, boolV(is)}}
}

func (x *Exec) implements(v *Term, it types.Type) *Term {
	if v.Kind == 'a' && strings.HasPrefix(v.Op, "box.") {
		return B(types.Implements(boxTypes[v.Op], it.Underlying().(*types.Interface)))
	}
	if v.Kind == 'a' && v.Op == "anil" {
		return False
	}
	registerImpl(it)
	return App("impl:"+typeKey(it), SBool, v)
}

var implTypes = map[string]types.Type{}

func registerImpl(it types.Type) { implTypes["impl:"+typeKey(it)] = it }

// ---- defers ----

func (x *Exec) deferStmt(fr *Frame, st *State, d *ssa.Defer, pos string) {
	for _, s := range fr.defers {
		if s.in == d {
			st.cells[s.flag] = boolV(True)
			for _, r := range x.recs {
				r.cells[s.flag] = true
			}
			s.args = nil
			if d.Call.IsInvoke() {
				s.recv = x.newCell("deferrecv", d.Call.Value.Type())
				st.cells[s.recv] = x.val(fr, st, d.Call.Value)
			} else {
				s.fnv = V{}
				if _, ok := d.Call.Value.(*ssa.Builtin); !ok {
					s.fnv = x.val(fr, st, d.Call.Value)
				}
			}
			for _, a := range d.Call.Args {
				c := x.newCell("deferarg", a.Type())
				st.cells[c] = x.val(fr, st, a)
				s.args = append(s.args, c)
			}
			return
		}
	}
	panic("defer site")
}

func (x *Exec) runDefers(fr *Frame, st *State, pos string) *State {
	for k := len(fr.defers) - 1; k >= 0; k-- {
		s := fr.defers[k]
		fl, ok := st.cells[s.flag]
		if !ok || fl.L[0] == False {
			continue
		}
		run := func(st *State) {
			var args []V
			for _, c := range s.args {
				args = append(args, st.cells[c])
			}
			var recv V
			if s.recv != nil {
				recv = st.cells[s.recv]
			}
			x.callWith(fr, st, &s.in.Call, s.in, x.pos(s.in.Pos()), recv, s.fnv, args)
		}
		if fl.L[0] == True {
			run(st)
			continue
		}
		s1, s2 := st.clone(), st.clone()
		s1.pc = And(st.pc, fl.L[0])
		s2.pc = And(st.pc, Not(fl.L[0]))
		run(s1)
		st = x.merge([]*State{s1, s2})
	}
	return st
}

// ---- loops ----

func (x *Exec) doLoop(fr *Frame, l *Loop, ins []inEdge) []outEdge {
	var sts []*State
	for _, e := range ins {
		sts = append(sts, e.st)
	}
	for _, in := range l.Header.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			panic(unsupported("phi in loop header"))
		}
	}
	pre := x.merge(sts)
	spec := x.loopSpec(fr, l)
	if con := fr.conOf(); con != nil {
		for _, g := range con.Ghost {
			if g.At == fmt.Sprintf("loop%d", x.ord(fr, l)) {
				x.runGhosts(x.loopCtx(fr, l, pre), pre, []GhostSet{g})
			}
		}
	}

	var iter *Cell
	if spec != nil && spec.counts() {
		if fr.iters == nil {
			fr.iters = map[*Loop]*Cell{}
		}
		iter = x.newCell("iter", types.Typ[types.Int])
		fr.iters[l] = iter
		pre.cells[iter] = V{T: iter.T, L: []*Term{I(0)}}
		defer delete(fr.iters, l)
	}

	// 1. which locations does the loop write?
	rec := newRec()
	startN := freshN
	for it := 0; it < 6; it++ {
		r2 := newRec()
		m := x.mark()
		saveRet := len(fr.rets)
		envSave := copyEnv(fr.env)
		st := pre.clone()
		x.dry++
		st.alloc = Fresh("alloc", SInt)
		x.havocLoop(fr, st, pre, rec, startN, nil, nil)
		x.recs = append(x.recs, r2)
		func() {
			defer func() {
				x.recs = x.recs[:len(x.recs)-1]
				x.dry--
			}()
			x.region(fr, l.Blocks, l.Header, st)
		}()
		fr.rets = fr.rets[:saveRet]
		fr.env = envSave
		x.rollback(m)
		if !mergeRec(rec, r2) {
			break
		}
	}
	// propagate to the enclosing recorders
	for _, r := range x.recs {
		mergeRec(r, rec)
	}
	lname := fmt.Sprintf("%sloop%d", fr.pfx, l.Ord)
	x.nloops++

	lf := &loopFrame{alloc: pre.alloc, mods: map[string][]*Term{}}
	for n, m := range rec.maps {
		for a := range m.addrs {
			if stableTerm(a, startN) {
				lf.mods[n] = append(lf.mods[n], a)
			}
		}
	}
	entryCells := map[*Cell]V{}
	for c := range rec.cells {
		if v, ok := pre.cells[c]; ok {
			entryCells[c] = v
		}
	}
	// the entry arrays of slices appended to in the loop belong to its footprint
	auto, apps := x.autoSliceCells(fr, l, rec)
	for _, c := range auto {
		if v, ok := pre.cells[c]; ok && apps[c] && len(v.L) == 4 {
			el := c.T.Underlying().(*types.Slice).Elem()
			for _, lf2 := range leavesOf(el) {
				n := elemMap(el, lf2.Path)
				lf.mods[n] = append(lf.mods[n], v.L[0])
			}
		}
	}
	ctx := func(s *State) *SpecCtx {
		c := x.loopCtx(fr, l, s)
		c.loopEntry = pre
		return c
	}
	if spec != nil && spec.HasMods {
		for _, e := range spec.Mods {
			if e.Kind == "name" && e.Name == "anything" {
				lf.any = true
				continue
			}
			for n, as := range ctx(pre).footprint(e) {
				lf.mods[n] = append(lf.mods[n], as...)
			}
		}
	}
	// automatic bound of a range loop's hidden index
	rix, rlen := rangeIndexOf(fr, l)
	autoIx := func(s *State) *Term {
		if rix == nil || rlen == nil {
			return nil
		}
		c, n := s.cells[rix], rlen
		if len(c.L) != 1 {
			return nil
		}
		return And(Le(I(-1), c.L[0]), Lt(c.L[0], n))
	}
	cands := x.candidates(fr, l, pre, rec, lname, iter)
	for _, c := range cands {
		x.checkCand(pre, c, ".entry")
	}
	// 2. invariants hold on entry
	if g := autoIx(pre); g != nil {
		x.checkT(pre, "invariant", lname+".range.entry", "", "range index in bounds", g)
	}
	if spec != nil {
		for k, c := range spec.Invs {
			if x.drops[invName(lname, k)] {
				continue
			}
			g := ctx(pre).boolExpr(c.E)
			x.inGroup(c.Name, func() {
				x.check(pre, "invariant", invName(lname, k)+".entry", c.Pos, "loop invariant on entry: "+c.Src, goalize(g))
			})
		}
	}
	// 3. arbitrary iteration
	head := pre.clone()
	if rec.alloc {
		head.alloc = Fresh("alloc", SInt)
		x.facts = append(x.facts, Le(pre.alloc, head.alloc))
	}
	x.havocLoop(fr, head, pre, rec, startN, lf, auto)
	if iter != nil {
		n := Fresh("iter", SInt)
		head.cells[iter] = V{T: iter.T, L: []*Term{n}}
		x.assume(head, Le(I(0), n))
	}
	if g := autoIx(head); g != nil {
		x.assume(head, g)
	}
	for _, c := range cands {
		x.assume(head, c.f(head))
	}
	if spec != nil {
		for k, c := range spec.Invs {
			if x.drops[invName(lname, k)] {
				continue
			}
			g := ctx(head).boolExpr(c.E)
			x.inGroup(c.Name, func() { x.note(c.Name, func() { x.assume(head, g) }) })
		}
		for k, c := range spec.HeadHints {
			g := ctx(head).hintExpr(c.E)
			x.inGroup(c.Name, func() {
				x.check(head, "hint", fmt.Sprintf("%s.headhint%d", lname, k+1), c.Pos, "hint: "+c.Src, goalize(g))
			})
		}
	}
	var dec0 *Term
	if spec != nil && spec.Decr != nil {
		dec0 = ctx(head).expr(spec.Decr.E).L[0]
	}
	// 4. body
	x.loopMods = append(x.loopMods, lf)
	head0 := head.clone()
	exits, backs := x.region(fr, l.Blocks, l.Header, head)
	x.loopMods = x.loopMods[:len(x.loopMods)-1]
	// 5. preservation
	for bi, b := range backs {
		sfx := ""
		if bi > 0 {
			sfx = fmt.Sprintf("#%d", bi+1)
		}
		if iter != nil {
			b.cells[iter] = V{T: iter.T, L: []*Term{Add(head0.cells[iter].L[0], I(1))}}
		}
		cx := ctx(b)
		cx.loopHead = head0
		if spec != nil {
			for k, c := range spec.Hints {
				g := cx.hintExpr(c.E)
				x.inGroup(c.Name, func() {
					x.check(b, "hint", fmt.Sprintf("%s.hint%d%s", lname, k+1, sfx), c.Pos, "hint: "+c.Src, goalize(g))
				})
			}
		}
		for _, c := range cands {
			x.checkCand(b, c, ".preserved"+sfx)
		}
		if g := autoIx(b); g != nil {
			x.checkT(b, "invariant", lname+".range.preserved"+sfx, "", "range index in bounds", g)
		}
		for _, c := range auto {
			v := b.cells[c]
			pv := pre.cells[c]
			if len(v.L) == 4 && len(pv.L) == 4 {
				x.checkT(b, "invariant", lname+".auto:"+c.Name+sfx, "", "slice "+c.Name+" keeps its entry array or a fresh one", Or(Eq(v.L[0], pv.L[0]), Le(pre.alloc, rootid(v.L[0]))))
			}
		}
		if spec != nil {
			mm := x.mark()
			_ = mm
			for k, c := range spec.Invs {
				if x.drops[invName(lname, k)] {
					continue
				}
				g := ctx(b).boolExpr(c.E)
				x.inGroup(c.Name, func() {
					x.check(b, "invariant", invName(lname, k)+".preserved"+sfx, c.Pos, "loop invariant preserved: "+c.Src, goalize(g))
				})
			}
			if spec.Decr != nil {
				d := ctx(b).expr(spec.Decr.E).L[0]
				x.check(b, "decreases", lname+".decreases"+sfx, spec.Decr.Pos, "variant decreases: "+spec.Decr.Src, And(Le(I(0), dec0), Lt(d, dec0)))
			}
		}
	}
	return exits
}

type cand struct {
	name string
	f    func(st *State) *Term
}

func (x *Exec) checkCand(st *State, c cand, sfx string) {
	n := len(x.obls)
	x.checkT(st, "cand", c.name+sfx, "", "automatic loop invariant "+c.name, goalize(c.f(st)))
	for _, o := range x.obls[n:] {
		o.Cand = c.name
	}
}

// candidates: automatic loop invariants, kept only when they prove inductive (Houdini).
func (x *Exec) candidates(fr *Frame, l *Loop, pre *State, rec *Recorder, lname string, iter *Cell) []cand {
	var out []cand
	add := func(name string, f func(st *State) *Term) {
		name = lname + ".auto." + name
		if !x.drops[name] {
			out = append(out, cand{name, f})
		}
	}
	// monotone integer variables
	var cs []*Cell
	for c := range rec.cells {
		if v, ok := pre.cells[c]; ok && len(v.L) == 1 && v.L[0].Sort == SInt && c.Name != "rangeindex" {
			if b, ok := c.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				cs = append(cs, c)
			}
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Id < cs[j].Id })
	for i, c := range cs {
		c := c
		v0 := pre.cells[c].L[0]
		add(fmt.Sprintf("ge:%s%d", c.Name, i), func(st *State) *Term { return Le(v0, st.cells[c].L[0]) })
		add(fmt.Sprintf("le:%s%d", c.Name, i), func(st *State) *Term { return Le(st.cells[c].L[0], v0) })
	}
	if iter != nil {
		// counters follow the iteration number
		if rix, _ := rangeIndexOf(fr, l); rix != nil {
			cs = append(cs, rix)
		}
		for i, c := range cs {
			c := c
			if len(pre.cells[c].L) != 1 {
				continue
			}
			v0 := pre.cells[c].L[0]
			add(fmt.Sprintf("up:%s%d", c.Name, i), func(st *State) *Term { return Eq(st.cells[c].L[0], Add(v0, st.cells[iter].L[0])) })
			add(fmt.Sprintf("down:%s%d", c.Name, i), func(st *State) *Term { return Eq(st.cells[c].L[0], Sub(v0, st.cells[iter].L[0])) })
		}
	}
	// in code the contracts were not written for: bounds of counters, lengths of slices that are appended to
	if changed(fr.fn) {
		guarded := func(f func(st *State) *Term) func(st *State) *Term {
			return func(st *State) (t *Term) {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(unsupportedErr); ok {
							t = True
							return
						}
						panic(p)
					}
				}()
				return f(st)
			}
		}
		if f, ok := l.Node.(*ast.ForStmt); ok {
			if c, ok := f.Cond.(*ast.BinaryExpr); ok && c.Op == token.LSS {
				func() {
					defer func() {
						if p := recover(); p != nil {
							if _, ok := p.(unsupportedErr); !ok {
								panic(p)
							}
						}
					}()
					e := parseExpr(types.ExprString(c.X)+" <= "+types.ExprString(c.Y), "")
					add("bound", guarded(func(st *State) *Term { return x.loopCtx(fr, l, st).boolExpr(e) }))
				}()
			}
		}
		_, apps := x.autoSliceCells(fr, l, rec)
		var as []*ssa.Alloc
		for a := range fr.cells {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].Pos() < as[j].Pos() })
		for _, a := range as {
			c := fr.cells[a]
			if !apps[c] {
				continue
			}
			v0 := pre.cells[c]
			if len(v0.L) != 4 {
				continue
			}
			ix := func(st *State) *Term {
				if rix, _ := rangeIndexOf(fr, l); rix != nil && len(st.cells[rix].L) == 1 {
					return Sub(st.cells[rix].L[0], pre.cells[rix].L[0])
				}
				if ca := counterOf(l); ca != nil && fr.cells[ca] != nil {
					cc := fr.cells[ca]
					if len(st.cells[cc].L) == 1 && len(pre.cells[cc].L) == 1 {
						return Sub(st.cells[cc].L[0], pre.cells[cc].L[0])
					}
				}
				return nil
			}
			if ix(pre) != nil {
				add("len:"+a.Comment, func(st *State) *Term {
					v, n := st.cells[c], ix(st)
					if len(v.L) != 4 || n == nil {
						return True
					}
					return Eq(v.L[2], Add(v0.L[2], n))
				})
			}
		}
	}
	// type invariants of the parameters
	if len(rec.maps) > 0 || rec.anyw {
		frs := []*Frame{fr}
		if x.topFrame != nil && x.topFrame != fr {
			frs = append(frs, x.topFrame)
		}
		for fi, f := range frs {
			x.typeInvsFor(f.fn, f.params, func(ti *TypeInv, k int, c Clause, v V) {
				add(fmt.Sprintf("typeinv%d.%s%d:%d", fi, ti.Type, k+1, slices.IndexFunc(f.params, func(p V) bool { return len(p.L) == 1 && p.L[0] == v.L[0] })), func(st *State) *Term {
					cx := &SpecCtx{x: x, st: st, vars: map[string]SV{ti.Var: {T: v.T, L: v.L}}, pkg: ti.Pkg}
					return cx.boolExpr(c.E)
				})
			})
		}
	}
	return out
}

// rangeIndexOf finds the hidden index cell and the (loop-invariant) length of a range loop.
func rangeIndexOf(fr *Frame, l *Loop) (*Cell, *Term) {
	var al *ssa.Alloc
	for _, in := range l.Header.Instrs {
		if st, ok := in.(*ssa.Store); ok {
			if a, ok := st.Addr.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				al = a
			}
		}
		if b, ok := in.(*ssa.BinOp); ok && al != nil && b.Op == token.LSS {
			if _, isc := b.Y.(*ssa.Const); isc {
				break
			}
			v, ok := fr.env[b.Y]
			if ok && len(v.L) == 1 && fr.cells[al] != nil {
				return fr.cells[al], v.L[0]
			}
		}
	}
	return nil, nil
}

func invName(l string, k int) string { return fmt.Sprintf("%s.inv%d", l, k+1) }

func copyEnv(m map[ssa.Value]V) map[ssa.Value]V {
	n := make(map[ssa.Value]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func mergeRec(a, b *Recorder) bool {
	ch := false
	for c := range b.cells {
		if !a.cells[c] {
			a.cells[c] = true
			ch = true
		}
	}
	if b.alloc && !a.alloc {
		a.alloc = true
		ch = true
	}
	if b.anyw && !a.anyw {
		a.anyw = true
		ch = true
	}
	for n, m := range b.maps {
		o := a.maps[n]
		if o == nil {
			o = &mapRec{addrs: map[*Term]bool{}}
			a.maps[n] = o
			ch = true
		}
		if m.whole && !o.whole {
			o.whole = true
			ch = true
		}
		for t := range m.addrs {
			if !o.addrs[t] {
				o.addrs[t] = true
				if !o.whole {
					ch = true
				}
			}
		}
		if len(o.addrs) > 24 {
			o.whole = true
		}
	}
	return ch
}

// stableTerm: built only from symbols that existed before the loop.
func stableTerm(t *Term, startN int) bool {
	ok := true
	collectSyms(t, map[*Term]bool{}, func(s *Term) {
		if s.Kind == 's' {
			if i := strings.LastIndexByte(s.Op, '!'); i >= 0 {
				n := 0
				fmt.Sscanf(s.Op[i+1:], "%d", &n)
				if n > startN {
					ok = false
				}
			}
		}
	})
	return ok
}

func (x *Exec) havocLoop(fr *Frame, st, pre *State, rec *Recorder, startN int, lf *loopFrame, auto []*Cell) {
	for c := range rec.cells {
		v, ok := st.cells[c]
		if !ok {
			continue
		}
		if v.Fn != nil || v.Ad != nil || v.It != nil {
			// function-valued or address-valued variables changing in loops
			st.cells[c] = V{T: v.T, Bad: "variable " + c.Name + " holds a closure or address changed in a loop"}
			if len(v.L) == 0 && v.Ad == nil && v.It == nil {
				continue
			}
			continue
		}
		nv := x.freshV(st, c.Name, c.T)
		st.cells[c] = nv
	}
	if rec.anyw {
		st.ep = x.newEpoch()
		st.heap = map[string]*Term{}
		x.initGiven(st)
	}
	var names []string
	for n := range rec.maps {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		m := rec.maps[n]
		srt := x.sorts[n]
		whole := m.whole
		var stable []*Term
		for a := range m.addrs {
			if stableTerm(a, startN) {
				stable = append(stable, a)
			} else {
				whole = true
			}
		}
		sortTerms(stable)
		cur := x.heapGet(pre, n, srt)
		if !whole {
			nm := cur
			_, vs := arrParts(srt)
			for _, a := range stable {
				f := Fresh(n, vs)
				nm = Store(nm, a, f)
			}
			x.setMap(st, n, nm)
			continue
		}
		f := Fresh(n, srt)
		st.heap[n] = f
		if n == "G:given" {
			x.notGiven(f, st.alloc)
			continue
		}
		if lf != nil {
			r := BVar("r", SRef)
			if !lf.any {
				var ex []*Term
				for _, a := range lf.mods[n] {
					ex = append(ex, Not(Eq(r, a)))
				}
				x.facts = append(x.facts, Forall([]*Term{r}, [][]*Term{{Select(f, r)}}, Imp(And(append(ex, Lt(rootid(r), lf.alloc))...), Eq(Select(f, r), Select(cur, r)))))
			}
			if !x.modAny {
				var ex []*Term
				for _, a := range x.modSet[n] {
					ex = append(ex, Not(Eq(r, a)))
				}
				en := x.heapGet(x.entry, n, srt)
				if en != cur || lf.any || len(lf.mods[n]) > 0 {
					x.facts = append(x.facts, Forall([]*Term{r}, [][]*Term{{Select(f, r)}}, Imp(And(append(ex, Lt(rootid(r), x.alloc0))...), Eq(Select(f, r), Select(en, r)))))
				}
			}
		}
	}
	if lf != nil {
		for _, c := range auto {
			v := st.cells[c]
			pv := pre.cells[c]
			if len(v.L) == 4 && len(pv.L) == 4 {
				x.assume(st, Or(Eq(v.L[0], pv.L[0]), Le(lf.alloc, rootid(v.L[0]))))
			}
		}
	}
}

// autoSliceCells: slice variables of the loop that only receive appends to / reslices of themselves or fresh slices.
func (x *Exec) autoSliceCells(fr *Frame, l *Loop, rec *Recorder) ([]*Cell, map[*Cell]bool) {
	var out []*Cell
	apps := map[*Cell]bool{}
	for al, c := range fr.cells {
		if !rec.cells[c] {
			continue
		}
		if _, ok := c.T.Underlying().(*types.Slice); !ok {
			continue
		}
		ok := true
		isApp := false
		for _, u := range *al.Referrers() {
			switch s := u.(type) {
			case *ssa.Store:
				if s.Addr == al && l.Blocks[s.Block()] {
					if !selfSlice(s.Val, al, &isApp, 0) {
						ok = false
					}
				}
			case *ssa.MakeClosure:
				// a closure may only reslice or append to the captured variable
				g, isFn := s.Fn.(*ssa.Function)
				if !isFn {
					ok = false
					break
				}
				for i, b := range s.Bindings {
					if b != al {
						continue
					}
					for _, w := range *g.FreeVars[i].Referrers() {
						switch y := w.(type) {
						case *ssa.Store:
							if y.Addr != g.FreeVars[i] || !selfSlice(y.Val, g.FreeVars[i], &isApp, 0) {
								ok = false
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							ok = false
						}
					}
				}
			}
		}
		if ok {
			apps[c] = isApp
			out = append(out, c)
		}
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j].Id < out[i].Id {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out, apps
}

func selfSlice(v ssa.Value, al ssa.Value, isApp *bool, d int) bool {
	if d > 8 {
		return false
	}
	switch y := v.(type) {
	case *ssa.UnOp:
		return y.Op == token.MUL && y.X == al
	case *ssa.Slice:
		if _, ok := y.X.Type().Underlying().(*types.Pointer); ok {
			return true
		}
		return selfSlice(y.X, al, isApp, d+1)
	case *ssa.MakeSlice:
		*isApp = true
		return true
	case *ssa.ChangeType:
		return selfSlice(y.X, al, isApp, d+1)
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			*isApp = true
			return selfSlice(y.Call.Args[0], al, isApp, d+1)
		}
	}
	return false
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
func sortTerms(s []*Term) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j].id < s[j-1].id; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (x *Exec) loopSpec(fr *Frame, l *Loop) *LoopSpec {
	con := fr.conOf()
	if con == nil {
		return nil
	}
	n := x.ord(fr, l)
	for _, s := range con.Loops {
		if s.Ord == n {
			return s
		}
	}
	return nil
}
