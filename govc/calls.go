package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

func (x *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, in ssa.Instruction, pos string) []V {
	var recv, fnv V
	if cc.IsInvoke() {
		recv = x.val(fr, st, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fnv = x.val(fr, st, cc.Value)
	}
	var args []V
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	return x.callWith(fr, st, cc, in, pos, recv, fnv, args)
}

func resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func (x *Exec) callWith(fr *Frame, st *State, cc *ssa.CallCommon, in ssa.Instruction, pos string, recv, fnv V, args []V) []V {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return x.builtin(fr, st, b, cc, in, pos, args)
	}
	if cc.IsInvoke() {
		r := recv.L[0]
		if r.Kind == 'a' && strings.HasPrefix(r.Op, "box.") {
			dt := boxTypes[r.Op]
			if f := x.P.SSA.LookupMethod(dt, cc.Method.Pkg(), cc.Method.Name()); f != nil {
				v := V{T: dt, L: r.Args}
				return x.callFn(fr, st, f, append([]V{v}, args...), nil, in, pos)
			}
		}
		x.checkT(st, "nil", fr.pfx+"nilcall", pos, "method call on nil interface ("+cc.Method.Name()+")", Not(Eq(r, App("anil", SAny))))
		con := x.ifaceContract(cc)
		if con == nil {
			panic(unsupported("no contract for interface method " + ifaceKeys(cc)[0] + " at " + pos))
		}
		rv := recv
		return x.applyContract(fr, st, con, append([]V{rv}, args...), resultTypes(cc.Signature()), pos, nil)
	}
	if fnv.Fn != nil {
		return x.callFn(fr, st, fnv.Fn.Fn, args, fnv.Fn.Bind, in, pos)
	}
	// call of a function value
	key := x.funcValueKey(cc)
	if key != "" {
		if con := x.S.Contracts[key]; con != nil {
			if len(fnv.L) > 0 {
				x.nilCheck(st, fnv.L[0], pos)
			}
			return x.applyContract(fr, st, con, append([]V{fnv}, args...), resultTypes(cc.Signature()), pos, nil)
		}
	}
	panic(unsupported("call of unknown function value " + key + " at " + pos))
}

func (x *Exec) funcValueKey(cc *ssa.CallCommon) string {
	if u, ok := cc.Value.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.Pkg.Pkg.Name() + "." + g.Name() + ".call"
		}
	}
	if n, ok := cc.Value.Type().(*types.Named); ok {
		return typeKey(n) + ".call"
	}
	return ""
}

func ifaceKeys(cc *ssa.CallCommon) []string {
	var out []string
	out = append(out, typeKey(cc.Value.Type())+"."+cc.Method.Name())
	if r := cc.Method.Type().(*types.Signature).Recv(); r != nil {
		out = append(out, typeKey(r.Type())+"."+cc.Method.Name())
	}
	return out
}

func (x *Exec) ifaceContract(cc *ssa.CallCommon) *Contract {
	for _, k := range ifaceKeys(cc) {
		if c := x.S.Contracts[k]; c != nil {
			return c
		}
	}
	return nil
}

func (x *Exec) callFn(fr *Frame, st *State, f *ssa.Function, args []V, bind []V, in ssa.Instruction, pos string) []V {
	key := funcKey(f)
	if f.Synthetic != "" && f.Object() != nil && len(f.Blocks) > 0 && f.Parent() == nil {
		// wrapper: execute it
		return x.inline(fr, st, f, args, bind, nil, pos, in)
	}
	if vs, ok := x.intrinsic(fr, st, key, f, args, in, pos); ok {
		return vs
	}
	con := x.S.Contracts[key]
	if con != nil && !con.Inline && !x.noContract[key] {
		return x.applyContract(fr, st, con, args, resultTypes(f.Signature), pos, &FnVal{Fn: f, Bind: bind})
	}
	if len(f.Blocks) > 0 && f.Pkg != nil && x.P.InRep[f.Pkg.Pkg] || f.Parent() != nil && len(f.Blocks) > 0 {
		x.inlined[key] = true
		return x.inline(fr, st, f, args, bind, con, pos, in)
	}
	panic(unsupported("no contract for external function " + key + " at " + pos))
}

func (x *Exec) inline(fr *Frame, st *State, f *ssa.Function, args, bind []V, con *Contract, pos string, in ssa.Instruction) []V {
	sub := x.newFrame(f, con, fr)
	if newHelper(f, con) && in != nil {
		switch {
		case fr.con != nil:
			sub.host, sub.callIn = fr, in
		case fr.host != nil:
			sub.host, sub.callIn = fr.host, fr.callIn
		}
		if sub.host != nil {
			sub.loopBase = fr.loopBase + x.virtual(fr.fn, in, nil, 0)
		}
	}
	sub.params = args
	sub.free = bind
	sub.entry = st.clone()
	x.runBody(sub, st.clone())
	if len(sub.rets) == 0 {
		st.pc = False
		var out []V
		for _, t := range resultTypes(f.Signature) {
			out = append(out, x.zeroV(t))
		}
		return out
	}
	var sts []*State
	for _, r := range sub.rets {
		sts = append(sts, r.st)
	}
	m := x.merge(sts)
	var out []V
	for i := range sub.rets[0].vals {
		var vs []V
		for _, r := range sub.rets {
			vs = append(vs, r.vals[i])
		}
		if len(vs) == 1 {
			out = append(out, vs[0])
		} else {
			out = append(out, x.mergeV("res", sts, vs))
		}
	}
	// drop callee-local cells
	*st = *m
	return out
}

// conCtx prepares the evaluation context of a contract.
func (x *Exec) conCtx(con *Contract, params []V, st, old *State, fv *FnVal) *SpecCtx {
	c := &SpecCtx{x: x, st: st, old: old, vars: map[string]SV{}, pkg: con.Pkg}
	for i, p := range con.Params {
		if i < len(params) {
			v := params[i]
			if v.Ad != nil || v.Fn != nil && len(v.L) == 0 {
				if v.Ad != nil && v.Ad.Kind != "field" {
					continue
				}
				v.L = x.leaves(v, v.T)
			}
			c.vars[p] = SV{T: v.T, L: v.L}
		}
	}
	if fv != nil && len(fv.Bind) > 0 {
		c.lookup = func(name string, s *State) (SV, bool) {
			name = strings.TrimPrefix(name, "\\old:")
			for i, f := range fv.Fn.FreeVars {
				if f.Name() == name {
					return x.derefAny(s, fv.Bind[i])
				}
			}
			return SV{}, false
		}
	}
	return c
}

// derefAny reads the variable behind a captured pointer.
func (x *Exec) derefAny(st *State, p V) (SV, bool) {
	if p.Ad != nil && p.Ad.Kind == "cell" {
		v, ok := st.cells[p.Ad.Cell]
		if !ok || v.Bad != "" || len(v.L) == 0 {
			return SV{}, false
		}
		n := len(leavesOf(p.Ad.T))
		return SV{T: p.Ad.T, L: v.L[p.Ad.Lo : p.Ad.Lo+n]}, true
	}
	if len(p.L) == 0 {
		return SV{}, false
	}
	t := deref(p.T)
	c := &SpecCtx{x: x, st: st}
	v := c.derefV(&Expr{Kind: "name", Name: "freevar"}, SV{T: p.T, L: p.L})
	v.T = t
	return v, true
}

func (x *Exec) applyContract(fr *Frame, st *State, con *Contract, args []V, rts []types.Type, pos string, fv *FnVal) []V {
	x.used[con.Key] = true
	if len(con.Params) != len(args) && len(con.Params) != 0 {
		panic(unsupported(fmt.Sprintf("contract %s has %d parameters, call has %d", con.Key, len(con.Params), len(args))))
	}
	for i := range args {
		if args[i].Ad != nil && args[i].Ad.Kind == "field" {
			if _, ok := isStruct(args[i].Ad.T); ok {
				args[i] = V{T: args[i].T, L: x.leaves(args[i], args[i].T)}
			}
		}
	}
	x.callHints(fr, st, nil, con, args, nil, "before")
	cx := x.conCtx(con, args, st, nil, fv)
	short := con.Key
	// type invariants of the receiver inside its own package
	for k, r := range con.Req {
		g := cx.boolExpr(r.E)
		x.check(st, "requires", fmt.Sprintf("%scall:%s.requires%d", fr.pfx, short, k+1), pos, "precondition of "+short+": "+r.Src, goalize(g))
	}
	x.typeInvAt(fr, st, con, args, pos, true)
	if fr.threadCall {
		// a goroutine with its own life: what it does is not an effect of the go statement
		return nil
	}
	pre := st.clone()
	// havoc
	if con.ModAny {
		for _, r := range x.recs {
			r.anyw = true
		}
		if x.dry == 0 && !x.modAny {
			x.check(st, "frame", fr.pfx+"frame:call:"+short, pos, "call to "+short+" may modify anything", False)
		}
		st.ep = x.newEpoch()
		st.heap = map[string]*Term{}
	}
	cx0 := x.conCtx(con, args, pre, pre, fv)
	foot := map[string][]*Term{}
	for _, e := range con.Mods {
		for n, as := range cx0.footprint(e) {
			for _, a := range as {
				dup := false
				for _, o := range foot[n] {
					if o == a {
						dup = true
					}
				}
				if !dup {
					foot[n] = append(foot[n], a)
				}
			}
		}
	}
	var names []string
	for n := range foot {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		srt := x.sorts[n]
		_, vs := arrParts(srt)
		cur := x.heapGet(st, n, srt)
		for _, a := range foot[n] {
			x.frameCheck(st, n, a)
			x.recWrite(n, a)
			nv := Fresh(n, vs)
			if d := isDead(a); d != False {
				nv = Ite(d, sel(cur, a), nv)
			}
			cur = Store(cur, a, nv)
		}
		x.setMap(st, n, cur)
	}
	if con.Opts["pure"] == "" {
		na := Fresh("alloc", SInt)
		x.facts = append(x.facts, Le(st.alloc, na))
		st.alloc = na
		for _, r := range x.recs {
			r.alloc = true
		}
	}
	var res []V
	for i, t := range rts {
		nm := "res"
		if i < len(con.Results) {
			nm = con.Results[i]
		}
		res = append(res, x.freshV(st, nm, t))
	}
	cx2 := x.conCtx(con, args, st, pre, fv)
	for i, n := range con.Results {
		if i < len(res) {
			cx2.vars[n] = SV{T: res[i].T, L: res[i].L}
		}
	}
	for _, e := range con.Ens {
		t := cx2.boolExpr(e.E)
		x.note(e.Name, func() { x.assume(st, t) })
	}
	x.typeInvAt(fr, st, con, args, pos, false)
	x.resultTypeInvs(res, func(ti *TypeInv, k int, c Clause, v V) {
		cx := &SpecCtx{x: x, st: st, vars: map[string]SV{ti.Var: {T: v.T, L: v.L}}, pkg: ti.Pkg}
		x.assume(st, Imp(Not(Eq(v.L[0], rnil())), cx.boolExpr(c.E)))
	})
	if con.Opts["noreturn"] != "" {
		st.pc = False
	}
	x.callHints(fr, st, pre, con, args, res, "after")
	return res
}

// callHints checks the intermediate steps given for a call: $p is the argument for (or result named) p in the callee's
// contract, pre(e) is e before the call.
func (x *Exec) callHints(fr *Frame, st, pre *State, con *Contract, args, res []V, when string) {
	hcon := fr.conOf()
	if hcon == nil || x.dry > 0 {
		return
	}
	hs := hcon.Hints[when+" "+con.Key]
	if len(hs) == 0 {
		return
	}
	cx := x.loopCtx(fr, nil, st)
	cx.loopEntry = pre
	a := x.conCtx(con, args, st, nil, nil)
	for n, v := range a.vars {
		cx.vars["$"+n] = v
	}
	for i, n := range con.Results {
		if i < len(res) {
			cx.vars["$"+n] = SV{T: res[i].T, L: res[i].L}
		}
	}
	for k, h := range hs {
		g := cx.hintExpr(h.E)
		if h.Trust {
			x.trust(hcon.Key+" "+when+" "+con.Key, "assumed: "+h.Src)
			x.assume(st, g)
			continue
		}
		x.inGroup(h.Name, func() {
			x.check(st, "hint", fmt.Sprintf("%shint:%s.%s%d", fr.pfx, con.Key, when, k+1), h.Pos, "hint: "+h.Src, goalize(g))
		})
	}
}

// typeInvAt asserts (before) and assumes (after) type invariants for method receivers.
func (x *Exec) typeInvAt(fr *Frame, st *State, con *Contract, args []V, pos string, before bool) {
	for i, a := range args {
		if a.T == nil || len(a.L) != 1 {
			continue
		}
		for _, ti := range x.S.TypeInvs {
			if typeKey(deref(a.T)) != ti.Type {
				continue
			}
			if _, ok := a.T.Underlying().(*types.Pointer); !ok {
				continue
			}
			inPkg := fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Name() == ti.Pkg
			if before && !inPkg && !ti.Checked {
				continue
			}
			if i > 0 && !inPkg && !ti.Checked {
				continue
			}
			for k, c := range ti.Invs {
				cx := &SpecCtx{x: x, st: st, vars: map[string]SV{ti.Var: {T: a.T, L: a.L}}, pkg: ti.Pkg}
				g := cx.boolExpr(c.E)
				if before {
					x.check(st, "typeinv", fmt.Sprintf("%scall:%s.typeinv%d", fr.pfx, con.Key, k+1), pos, "type invariant of "+ti.Type+": "+c.Src, goalize(g))
				} else {
					x.assume(st, g)
				}
			}
		}
	}
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, in ssa.Instruction, pos string, args []V) []V {
	intT := types.Typ[types.Int]
	switch b.Name() {
	case "ssa:deferstack":
		return []V{{T: intT, L: []*Term{I(0)}}}
	case "len", "cap":
		a := args[0]
		switch u := a.T.Underlying().(type) {
		case *types.Slice:
			if b.Name() == "len" {
				return []V{{T: intT, L: []*Term{a.L[2]}}}
			}
			return []V{{T: intT, L: []*Term{a.L[3]}}}
		case *types.Basic:
			n := slen(a.L[0])
			x.rangeFact(n, irange{64, true})
			return []V{{T: intT, L: []*Term{n}}}
		case *types.Map:
			m := x.heapGet(st, x.mapMap(u, ".len"), arrSort(SRef, SInt))
			n := sel(m, a.L[0])
			x.rangeFact(n, irange{64, true})
			x.assume(st, Le(I(0), n))
			return []V{{T: intT, L: []*Term{n}}}
		case *types.Pointer:
			if at, ok := isArray(u.Elem()); ok {
				return []V{{T: intT, L: []*Term{I(at.Len())}}}
			}
		}
		v := x.freshV(st, b.Name(), intT)
		x.assume(st, Le(I(0), v.L[0]))
		return []V{v}
	case "append":
		return []V{x.appendB(st, args[0], args[1])}
	case "copy":
		return []V{x.copyB(st, args[0], args[1])}
	case "close":
		x.closeChan(fr, st, args[0], pos)
		return []V{{T: types.NewTuple()}}
	case "delete":
		mt := args[0].T.Underlying().(*types.Map)
		k := x.mapKey(st, args[1])
		r := args[0].L[0]
		nm := x.mapMap(mt, ".has")
		srt := arrSort(SRef, arrSort(k.Sort, SBool))
		m := x.heapGet(st, nm, srt)
		row := sel(m, r)
		nl := x.mapMap(mt, ".len")
		lm := x.heapGet(st, nl, arrSort(SRef, SInt))
		x.hset(st, nl, r, Sub(sel(lm, r), Ite(Select(row, k), I(1), I(0))), arrSort(SRef, SInt))
		x.hset(st, nm, r, Store(row, k, False), srt)
		return []V{{T: types.NewTuple()}}
	case "recover":
		return []V{x.freshV(st, "recovered", cc.Signature().Results().At(0).Type())}
	case "print", "println":
		return []V{{T: types.NewTuple()}}
	case "ssa:wrapnilchk":
		return []V{args[0]}
	case "min", "max":
		r := args[0].L[0]
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = Ite(Le(r, a.L[0]), r, a.L[0])
			} else {
				r = Ite(Le(r, a.L[0]), a.L[0], r)
			}
		}
		return []V{{T: args[0].T, L: []*Term{r}}}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (x *Exec) appendB(st *State, s, t V) V {
	sl, ok := s.T.Underlying().(*types.Slice)
	if !ok {
		panic(unsupported("append"))
	}
	el := sl.Elem()
	ls := leavesOf(el)
	// source
	var tl *Term
	var srcRow func(l Leaf) (row, off *Term)
	strSrc := false
	if _, isS := t.T.Underlying().(*types.Slice); isS {
		tl = t.L[2]
		srcRow = func(l Leaf) (*Term, *Term) {
			m := x.heapGet(st, elemMap(el, l.Path), arrSort(SRef, arrSort(SInt, l.Sort)))
			return sel(m, t.L[0]), t.L[1]
		}
	} else {
		tl = slen(t.L[0])
		strSrc = true
	}
	if tl.isInt() && tl.Int.Sign() == 0 && !strSrc {
		return s
	}
	arr, off, ln, cp := s.L[0], s.L[1], s.L[2], s.L[3]
	nl := Add(ln, tl)
	fits := Le(nl, cp)
	newr := x.allocRef(st)
	r := Ite(fits, arr, newr)
	noff := Ite(fits, off, I(0))
	ncap := Ite(fits, cp, Fresh("cap", SInt))
	if !ncap.isInt() && fits != True {
		c := ncap
		x.assume(st, And(Le(nl, c), Le(c, BigI(maxCap))))
		x.assumes["append growing a slice beyond 2^47 elements (runtime out-of-memory panic) is not considered"] = true
	}
	// named results keep terms small
	name := func(t *Term, p string) *Term {
		if t.Kind != 'a' || t.Op != "ite" {
			return t
		}
		f := Fresh(p, t.Sort)
		x.facts = append(x.facts, Eq(f, t))
		return f
	}
	rN := name(r, "app.arr")
	offN := name(noff, "app.off")
	capN := name(ncap, "app.cap")
	_ = rN
	// all rows are read from the pre-state
	type upd struct {
		nm, srt string
		row     *Term
	}
	var ups []upd
	var olds []*Term
	for _, l := range ls {
		nm := elemMap(el, l.Path)
		rs := arrSort(SInt, l.Sort)
		srt := arrSort(SRef, rs)
		m := x.heapGet(st, nm, srt)
		old := sel(m, arr)
		olds = append(olds, old)
		row := Fresh("row", rs)
		i := BVar("i", SInt)
		o := BVar("o", SInt)
		at := mkAt
		single := tl.isInt() && tl.Int.Cmp(big.NewInt(8)) <= 0 && !strSrc
		if single {
			sr, so := srcRow(l)
			inPlace := old
			moved := Fresh("mrow", rs)
			for k := int64(0); k < tl.Int.Int64(); k++ {
				v := atTerm(sr, so, I(k))
				inPlace = Store(inPlace, Add(off, Add(ln, I(k))), v)
				x.facts = append(x.facts, Eq(at(moved, I(0), Add(ln, I(k))), v))
			}
			switch fits {
			case True:
				x.facts = append(x.facts, Eq(row, inPlace))
			case False:
				x.facts = append(x.facts, Eq(row, moved))
			default:
				x.facts = append(x.facts, Eq(row, Ite(fits, inPlace, moved)))
			}
			if fits != True {
				x.facts = append(x.facts, Forall([]*Term{i}, [][]*Term{{at(moved, I(0), i)}}, Imp(And(Le(I(0), i), Lt(i, ln)), Eq(at(moved, I(0), i), at(old, off, i)))))
			}
			// uniform view of the result
			trs := [][]*Term{{at(row, offN, i)}}
			if len(ls) > 1 {
				trs = append(trs, []*Term{at(old, off, i)})
			}
			x.facts = append(x.facts, Forall([]*Term{i}, trs, Imp(And(Le(I(0), i), Lt(i, ln)), Eq(at(row, offN, i), at(old, off, i)))))
			for k := int64(0); k < tl.Int.Int64(); k++ {
				sr2, so2 := sr, so
				x.facts = append(x.facts, Eq(at(row, offN, Add(ln, I(k))), atTerm(sr2, so2, I(k))))
			}
		} else {
			var src func(ix *Term) *Term
			if strSrc {
				src = func(ix *Term) *Term { return sat(t.L[0], ix) }
			} else {
				sr, so := srcRow(l)
				src = func(ix *Term) *Term { return at(sr, so, ix) }
			}
			x.facts = append(x.facts, Forall([]*Term{i}, [][]*Term{{at(row, offN, i)}}, Imp(And(Le(I(0), i), Lt(i, nl)), Eq(at(row, offN, i), Ite(Lt(i, ln), at(old, off, i), src(Sub(i, ln)))))))
			if fits != False {
				x.facts = append(x.facts, Imp(fits, Forall([]*Term{o, i}, [][]*Term{{at(row, o, i)}}, Imp(Or(Lt(Add(o, i), Add(off, ln)), Ge(Add(o, i), Add(off, nl))), Eq(at(row, o, i), at(old, o, i))))))
			}
		}
		if len(ls) == 1 && l.Sort == SInt {
			// sequence view of the result
			var ts *Term
			if strSrc {
				ts = t.L[0]
			} else {
				sr, so := srcRow(l)
				ts = seqofT(sr, so, tl)
			}
			base := seqofT(old, off, ln)
			x.facts = append(x.facts, Eq(seqofT(row, offN, nl), scatT(base, ts)))
			if single && tl.Int.Int64() == 1 {
				sr, so := srcRow(l)
				x.facts = append(x.facts, Eq(seqofT(row, offN, nl), App("snoc", SSeq, base, atTerm(sr, so, I(0)))))
			}
		}
		ups = append(ups, upd{nm, srt, row})
	}
	// the elements of the result are those of both parts
	for k, l := range ls {
		if l.Sort != SInt || strSrc || x.S.Funs["cnt"] == nil || len(ls) == 1 && el.Underlying() == types.Typ[types.Uint8] {
			continue
		}
		v, w := BVar("v", SInt), BVar("w", SInt)
		single := tl.isInt() && tl.Int.Cmp(big.NewInt(8)) <= 0
		sr, so := srcRow(l)
		c := func(r, o, n *Term) *Term { return App("fun.cnt", SInt, r, o, n, v) }
		sum := c(olds[k], off, ln)
		if single {
			for j := int64(0); j < tl.Int.Int64(); j++ {
				sum = Add(sum, Ite(Eq(atTerm(sr, so, I(j)), v), I(1), I(0)))
			}
		} else {
			sum = Add(sum, c(sr, so, tl))
		}
		t := c(ups[k].row, offN, nl)
		x.facts = append(x.facts, Forall([]*Term{v}, [][]*Term{{t}}, Eq(t, sum)))
		if x.S.Funs["cnt2"] == nil || k+1 >= len(ls) || ls[k+1].Sort != SInt {
			continue
		}
		sr2, so2 := srcRow(ls[k+1])
		c2 := func(r, q, o, n *Term) *Term { return App("fun.cnt2", SInt, r, q, o, n, v, w) }
		sum = c2(olds[k], olds[k+1], off, ln)
		if single {
			for j := int64(0); j < tl.Int.Int64(); j++ {
				sum = Add(sum, Ite(And(Eq(atTerm(sr, so, I(j)), v), Eq(atTerm(sr2, so2, I(j)), w)), I(1), I(0)))
			}
		} else {
			sum = Add(sum, c2(sr, sr2, so, tl))
		}
		t = c2(ups[k].row, ups[k+1].row, offN, nl)
		x.facts = append(x.facts, Forall([]*Term{v, w}, [][]*Term{{t}}, Eq(t, sum)))
	}
	for _, u := range ups {
		m := x.heapGet(st, u.nm, u.srt)
		// frame: in place only when it fits
		if fits == False {
			x.heapSetRaw(st, u.nm, newr, u.row, u.srt)
			continue
		}
		s2 := st.clone()
		s2.pc = And(st.pc, fits)
		x.frameCheck(s2, u.nm, arr)
		for _, r := range x.recs {
			_ = r
		}
		if fits == True {
			x.heapSetRaw(st, u.nm, arr, u.row, u.srt)
			continue
		}
		x.recWrite(u.nm, arr)
		x.recWrite(u.nm, newr)
		// both objects: arr changes only if it fits; newr (fresh) otherwise
		nm := Store(m, rN, u.row)
		x.setMap(st, u.nm, nm)
	}
	return V{T: s.T, L: []*Term{rN, offN, nl, capN}}
}

func (x *Exec) copyB(st *State, d, s V) V {
	el := d.T.Underlying().(*types.Slice).Elem()
	var sl *Term
	str := false
	if _, ok := s.T.Underlying().(*types.Slice); ok {
		sl = s.L[2]
	} else {
		sl = slen(s.L[0])
		str = true
	}
	n := Ite(Le(d.L[2], sl), d.L[2], sl)
	if n.Kind == 'a' && n.Op == "ite" {
		f := Fresh("copied", SInt)
		x.facts = append(x.facts, Eq(f, n))
		n = f
	}
	type upd struct {
		nm, srt string
		row     *Term
	}
	var ups []upd
	for _, l := range leavesOf(el) {
		nm := elemMap(el, l.Path)
		rs := arrSort(SInt, l.Sort)
		srt := arrSort(SRef, rs)
		m := x.heapGet(st, nm, srt)
		old := sel(m, d.L[0])
		row := Fresh("row", rs)
		i, o := BVar("i", SInt), BVar("o", SInt)
		at := mkAt
		var src func(ix *Term) *Term
		if str {
			src = func(ix *Term) *Term { return sat(s.L[0], ix) }
		} else {
			sr := sel(m, s.L[0])
			src = func(ix *Term) *Term { return at(sr, s.L[1], ix) }
		}
		p := Add(o, i)
		x.facts = append(x.facts, Forall([]*Term{o, i}, [][]*Term{{at(row, o, i)}}, Eq(at(row, o, i), Ite(And(Le(d.L[1], p), Lt(p, Add(d.L[1], n))), src(Sub(p, d.L[1])), at(old, o, i)))))
		ups = append(ups, upd{nm, srt, row})
	}
	s2 := st.clone()
	s2.pc = And(st.pc, Lt(I(0), n))
	for _, u := range ups {
		x.frameCheck(s2, u.nm, d.L[0])
		x.heapSetRaw(st, u.nm, d.L[0], u.row, u.srt)
	}
	return V{T: types.Typ[types.Int], L: []*Term{n}}
}

// ---- maps ----

func (x *Exec) mapMap(mt *types.Map, part string) string { return "M:" + typeKey(mt) + part }

func (x *Exec) mapKey(st *State, k V) *Term {
	if len(k.L) != 1 {
		panic(unsupported("map key type"))
	}
	return k.L[0]
}

func (x *Exec) mapInit(st *State, r *Term, mt *types.Map) {
	ks := leavesOf(mt.Key())[0].Sort
	x.heapSetRaw(st, x.mapMap(mt, ".has"), r, ConstArr(arrSort(ks, SBool), False), arrSort(SRef, arrSort(ks, SBool)))
	x.heapSetRaw(st, x.mapMap(mt, ".len"), r, I(0), arrSort(SRef, SInt))
	for _, l := range leavesOf(mt.Elem()) {
		rs := arrSort(ks, l.Sort)
		x.heapSetRaw(st, x.mapMap(mt, ".val"+l.Path), r, ConstArr(rs, zeroLeaf(l)), arrSort(SRef, rs))
	}
}

func (x *Exec) lookup(fr *Frame, st *State, i *ssa.Lookup, pos string) V {
	m := x.val(fr, st, i.X)
	if b, ok := m.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		ix := x.val(fr, st, i.Index).L[0]
		x.boundsCheck(st, fr, ix, slen(m.L[0]), pos)
		v := V{T: i.Type(), L: []*Term{sat(m.L[0], ix)}}
		x.rangeFact(v.L[0], irange{8, false})
		return v
	}
	mt := m.T.Underlying().(*types.Map)
	k := x.mapKey(st, x.val(fr, st, i.Index))
	r := m.L[0]
	hm := x.heapGet(st, x.mapMap(mt, ".has"), arrSort(SRef, arrSort(k.Sort, SBool)))
	has := And(Not(Eq(r, rnil())), Select(sel(hm, r), k))
	v := V{T: mt.Elem()}
	for _, l := range leavesOf(mt.Elem()) {
		vm := x.heapGet(st, x.mapMap(mt, ".val"+l.Path), arrSort(SRef, arrSort(k.Sort, l.Sort)))
		t := Ite(has, Select(sel(vm, r), k), zeroLeaf(l))
		f := Fresh("mapv"+l.Path, l.Sort)
		x.facts = append(x.facts, Eq(f, t))
		v.L = append(v.L, f)
	}
	x.typeFacts(st, v)
	if i.CommaOk {
		return V{T: i.Type(), Tup: []V{v, boolV(has)}}
	}
	return v
}

func (x *Exec) mapUpdate(fr *Frame, st *State, i *ssa.MapUpdate, pos string) {
	m := x.val(fr, st, i.Map)
	mt := m.T.Underlying().(*types.Map)
	k := x.mapKey(st, x.val(fr, st, i.Key))
	v := x.val(fr, st, i.Value)
	r := m.L[0]
	x.nilCheck(st, r, pos)
	nm := x.mapMap(mt, ".has")
	srt := arrSort(SRef, arrSort(k.Sort, SBool))
	hm := x.heapGet(st, nm, srt)
	row := sel(hm, r)
	nl := x.mapMap(mt, ".len")
	lm := x.heapGet(st, nl, arrSort(SRef, SInt))
	x.hset(st, nl, r, Add(sel(lm, r), Ite(Select(row, k), I(0), I(1))), arrSort(SRef, SInt))
	x.hset(st, nm, r, Store(row, k, True), srt)
	vl := x.leaves(v, mt.Elem())
	for j, l := range leavesOf(mt.Elem()) {
		n := x.mapMap(mt, ".val"+l.Path)
		s := arrSort(SRef, arrSort(k.Sort, l.Sort))
		vm := x.heapGet(st, n, s)
		x.hset(st, n, r, Store(sel(vm, r), k, vl[j]), s)
	}
}

func (x *Exec) rangeInit(fr *Frame, st *State, i *ssa.Range) V {
	m := x.val(fr, st, i.X)
	mt, ok := m.T.Underlying().(*types.Map)
	if !ok {
		panic(unsupported("range over string"))
	}
	ks := leavesOf(mt.Key())[0].Sort
	c := fr.rangeCell(x, i)
	for _, r := range x.recs {
		r.cells[c] = true
	}
	st.cells[c] = V{T: seenType, L: []*Term{ConstArr(arrSort(ks, SBool), False)}}
	return V{T: i.Type(), It: &IterVal{Map: m, Seen: c}}
}

var seenType = types.NewNamed(types.NewTypeName(0, nil, "$seen", nil), types.NewStruct(nil, nil), nil)

var rangeCells = map[*ssa.Range]*Cell{}

func (fr *Frame) rangeCell(x *Exec, i *ssa.Range) *Cell {
	if c, ok := rangeCells[i]; ok {
		return c
	}
	ks := leavesOf(i.X.Type().Underlying().(*types.Map).Key())[0].Sort
	t := types.NewNamed(types.NewTypeName(0, nil, "$seen."+ks, nil), types.NewStruct(nil, nil), nil)
	leafMemo[t] = []Leaf{{"", arrSort(ks, SBool), types.Typ[types.Bool], ""}}
	c := x.newCell("$seen", t)
	rangeCells[i] = c
	return c
}

func (x *Exec) rangeNext(fr *Frame, st *State, i *ssa.Next) V {
	it := x.val(fr, st, i.Iter).It
	if it == nil {
		panic(unsupported("range iterator"))
	}
	mt := it.Map.T.Underlying().(*types.Map)
	ks := leavesOf(mt.Key())[0].Sort
	r := it.Map.L[0]
	hm := x.heapGet(st, x.mapMap(mt, ".has"), arrSort(SRef, arrSort(ks, SBool)))
	has := sel(hm, r)
	seen := st.cells[it.Seen].L[0]
	ok := Fresh("rangeok", SBool)
	k := x.freshV(st, "key", mt.Key())
	v := V{T: mt.Elem()}
	for _, l := range leavesOf(mt.Elem()) {
		vm := x.heapGet(st, x.mapMap(mt, ".val"+l.Path), arrSort(SRef, arrSort(ks, l.Sort)))
		v.L = append(v.L, Select(sel(vm, r), k.L[0]))
	}
	x.assume(st, Imp(ok, And(Not(Eq(r, rnil())), Select(has, k.L[0]), Not(Select(seen, k.L[0])))))
	b := BVar("k", ks)
	x.assume(st, Imp(Not(ok), Or(Eq(r, rnil()), Forall([]*Term{b}, [][]*Term{{Select(has, b)}}, Imp(Select(has, b), Select(seen, b))))))
	x.typeFacts(st, v)
	ns := Fresh("seen", arrSort(ks, SBool))
	x.facts = append(x.facts, Eq(ns, Ite(ok, Store(seen, k.L[0], True), seen)))
	for _, rc := range x.recs {
		rc.cells[it.Seen] = true
	}
	st.cells[it.Seen] = V{T: st.cells[it.Seen].T, L: []*Term{ns}}
	return V{T: i.Type(), Tup: []V{boolV(ok), k, v}}
}

// ---- channels ----

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

func (x *Exec) ghostSet(st *State, name, srt string, r, v *Term) {
	x.hset(st, "G:"+name, r, v, arrSort(SRef, srt))
}
func (x *Exec) ghostGet(st *State, name, srt string, r *Term) *Term {
	return sel(x.heapGet(st, "G:"+name, arrSort(SRef, srt)), r)
}

func msgMap(el types.Type, path string) string { return "CH:" + typeKey(el) + path }

func (x *Exec) chanInit(st *State, r *Term, t types.Type) {
	x.heapSetRaw(st, "G:sentN", r, I(0), arrSort(SRef, SInt))
	x.heapSetRaw(st, "G:recvN", r, I(0), arrSort(SRef, SInt))
	x.heapSetRaw(st, "G:chclosed", r, False, arrSort(SRef, SBool))
	x.zeroGhosts(st, r, "chan "+typeKey(chanElem(t)))
}

func (x *Exec) chanSpec(el types.Type) *ChanSpec {
	for _, c := range x.S.Chans {
		if c.Elem == typeKey(el) {
			return c
		}
	}
	return nil
}

func (x *Exec) chanCtx(cs *ChanSpec, fr *Frame, st *State, ch, msg V) *SpecCtx {
	c := &SpecCtx{x: x, st: st, old: st, vars: map[string]SV{}, pkg: cs.Pkg}
	c.vars[cs.Ch] = SV{T: ch.T, L: ch.L}
	c.vars[cs.Msg] = SV{T: msg.T, L: msg.L}
	return c
}

func (x *Exec) send(fr *Frame, st *State, ch, v V, pos string) {
	r := ch.L[0]
	el := chanElem(ch.T)
	// a send on a nil channel blocks forever
	x.assume(st, Not(Eq(r, rnil())))
	x.checkT(st, "chan", fr.pfx+"send", pos, "send on a closed channel", Not(x.ghostGet(st, "chclosed", SBool, r)))
	v.L = x.leaves(v, el)
	cs := x.chanSpec(el)
	if cs != nil {
		cx := x.chanCtx(cs, fr, st, ch, v)
		for k, c := range cs.SendReq {
			x.check(st, "chan", fmt.Sprintf("%ssend:%s.requires%d", fr.pfx, typeKey(el), k+1), pos, "sent message satisfies the channel contract: "+c.Src, goalize(cx.boolExpr(c.E)))
		}
	}
	n := x.ghostGet(st, "sentN", SInt, r)
	for j, l := range leavesOf(el) {
		if cs != nil && !cs.Logged {
			break // described by the channel's contract, not by a log
		}
		nm := msgMap(el, l.Path)
		srt := arrSort(SRef, arrSort(SInt, l.Sort))
		m := x.heapGet(st, nm, srt)
		x.hset(st, nm, r, Store(sel(m, r), n, v.L[j]), srt)
	}
	x.ghostSet(st, "sentN", SInt, r, Add(n, I(1)))
	if cs != nil {
		x.runGhosts(x.chanCtx(cs, fr, st, ch, v), st, cs.SendGhost)
		for _, e := range cs.GiveExprs {
			x.ghostSet(st, "given", SBool, x.chanCtx(cs, fr, st, ch, v).expr(e).L[0], True)
		}
	}
}

func (x *Exec) closeChan(fr *Frame, st *State, ch V, pos string) {
	r := ch.L[0]
	x.nilCheck(st, r, pos)
	x.checkT(st, "chan", fr.pfx+"close", pos, "close of a closed channel", Not(x.ghostGet(st, "chclosed", SBool, r)))
	if cs := x.chanSpec(chanElem(ch.T)); cs != nil {
		cx := x.chanCtx(cs, fr, st, ch, x.zeroV(chanElem(ch.T)))
		for k, c := range cs.CloseReq {
			x.check(st, "chan", fmt.Sprintf("%sclose:%s.requires%d", fr.pfx, typeKey(chanElem(ch.T)), k+1), pos, "close satisfies the channel contract: "+c.Src, goalize(cx.boolExpr(c.E)))
		}
	}
	x.ghostSet(st, "chclosed", SBool, r, True)
}

// recv receives from a channel.
func (x *Exec) recv(fr *Frame, st *State, ch V, commaOk bool, rt types.Type, pos string) V {
	r := ch.L[0]
	el := chanElem(ch.T)
	x.assume(st, Not(Eq(r, rnil())))
	if cs := x.chanSpec(el); cs != nil && !cs.Logged {
		msg := x.freshV(st, "msg", el)
		ok := Fresh("recvok", SBool)
		cx := x.chanCtx(cs, fr, st, ch, msg)
		cx.vars["ok"] = one(ok)
		for _, c := range cs.RecvEns {
			x.assume(st, Imp(ok, cx.boolExpr(c.E)))
		}
		for _, c := range cs.ClosedEns {
			x.assume(st, Imp(Not(ok), cx.boolExpr(c.E)))
		}
		z := x.zeroV(el)
		for k := range msg.L {
			x.assume(st, Imp(Not(ok), Eq(msg.L[k], z.L[k])))
		}
		x.runGhosts(cx, st, cs.RecvGhost)
		if commaOk {
			return V{T: rt, Tup: []V{msg, boolV(ok)}}
		}
		return msg
	}
	n := x.ghostGet(st, "sentN", SInt, r)
	k := x.ghostGet(st, "recvN", SInt, r)
	ok := Fresh("recvok", SBool)
	x.facts = append(x.facts, Eq(ok, Lt(k, n)))
	// without a further message the receive returns only if the channel is closed
	x.assume(st, Imp(Not(ok), x.ghostGet(st, "chclosed", SBool, r)))
	msg := V{T: el}
	for _, l := range leavesOf(el) {
		nm := msgMap(el, l.Path)
		m := x.heapGet(st, nm, arrSort(SRef, arrSort(SInt, l.Sort)))
		t := Select(sel(m, r), k)
		f := Fresh("msg"+l.Path, l.Sort)
		x.facts = append(x.facts, Eq(f, Ite(ok, t, zeroLeaf(l))))
		msg.L = append(msg.L, f)
	}
	x.typeFacts(st, msg)
	x.ghostSet(st, "recvN", SInt, r, Ite(ok, Add(k, I(1)), k))
	if cs := x.chanSpec(el); cs != nil {
		cx := x.chanCtx(cs, fr, st, ch, msg)
		cx.vars["ok"] = one(ok)
		for _, c := range cs.RecvEns {
			x.assume(st, Imp(ok, cx.boolExpr(c.E)))
		}
		x.runGhosts(cx, st, cs.RecvGhost)
	}
	if commaOk {
		return V{T: rt, Tup: []V{msg, boolV(ok)}}
	}
	return msg
}

func (x *Exec) runGhosts(cx *SpecCtx, st *State, gs []GhostSet) {
	for _, g := range gs {
		cx.st = st
		cond := True
		if g.Cond != nil {
			cond = cx.boolExpr(g.Cond)
		}
		val := cx.expr(g.R)
		x.assignGhost(cx, st, g.L, val, cond)
	}
}

func (x *Exec) assignGhost(cx *SpecCtx, st *State, l *Expr, val SV, cond *Term) {
	if l.Kind != "sel" {
		cx.fail(l, "ghost assignment target")
	}
	g := x.S.Ghosts[l.Name]
	if g == nil {
		cx.fail(l, "not a ghost field")
	}
	srt := specSort(g.Sort)
	r := cx.refOf(l, cx.expr(l.Args[0]))
	v := val.L[0]
	if isSliceV(val) && srt == SSeq {
		v = cx.seqv(val).L[0]
	}
	cur := x.ghostGet(st, g.Name, srt, r)
	nv := Ite(cond, v, cur)
	if nv.Op == "ite" {
		f := Fresh("ghost", srt)
		x.facts = append(x.facts, Eq(f, nv))
		nv = f
	}
	x.ghostSet(st, g.Name, srt, r, nv)
}

func (x *Exec) selectStmt(fr *Frame, st *State, s *ssa.Select, pos string) V {
	// nondeterministic choice among the ready cases
	nc := len(s.States)
	ix := Fresh("select", SInt)
	lo := int64(0)
	if !s.Blocking {
		lo = -1
	}
	x.assume(st, And(Le(I(lo), ix), Lt(ix, I(int64(nc)))))
	var sts []*State
	var recvOk []*Term
	tt := s.Type().(*types.Tuple)
	nrecv := tt.Len() - 2
	recvVals := make([][]V, 0)
	rk := 0
	base := st.clone()
	if fr.conOf() != nil && x.dry == 0 {
		if hs := fr.conOf().Hints["select"]; len(hs) > 0 {
			cx := x.loopCtx(fr, nil, st)
			for _, cs := range s.States {
				ch := x.val(fr, base, cs.Chan)
				if cs.Dir == types.SendOnly {
					cx.sends = append(cx.sends, ch.L[0])
				} else {
					cx.recvs = append(cx.recvs, ch.L[0])
				}
			}
			for k, h := range hs {
				g := cx.boolExpr(h.E)
				x.inGroup(h.Name, func() {
					x.check(st, "select", fmt.Sprintf("%sselect%d", fr.pfx, k+1), pos, "while waiting: "+h.Src, goalize(g))
				})
			}
		}
	}
	for k, cs := range s.States {
		b := base.clone()
		b.pc = And(base.pc, Eq(ix, I(int64(k))))
		ch := x.val(fr, base, cs.Chan)
		vals := make([]V, nrecv)
		for j := range vals {
			vals[j] = x.zeroV(tt.At(j + 2).Type())
		}
		ok := True
		if cs.Dir == types.SendOnly {
			x.send(fr, b, ch, x.val(fr, base, cs.Send), pos)
		} else {
			v := x.recv(fr, b, ch, true, nil, pos)
			ok = v.Tup[1].L[0]
			if rk < nrecv {
				vals[rk] = v.Tup[0]
			}
			rk++
		}
		sts = append(sts, b)
		recvOk = append(recvOk, ok)
		recvVals = append(recvVals, vals)
	}
	if !s.Blocking {
		b := base.clone()
		b.pc = And(base.pc, Eq(ix, I(-1)))
		vals := make([]V, nrecv)
		for j := range vals {
			vals[j] = x.zeroV(tt.At(j + 2).Type())
		}
		sts = append(sts, b)
		recvOk = append(recvOk, False)
		recvVals = append(recvVals, vals)
	}
	m := x.merge(sts)
	var oks []V
	for _, o := range recvOk {
		oks = append(oks, boolV(o))
	}
	out := V{T: s.Type(), Tup: []V{{T: types.Typ[types.Int], L: []*Term{ix}}, x.mergeV("ok", sts, oks)}}
	for j := 0; j < nrecv; j++ {
		var vs []V
		for k := range sts {
			vs = append(vs, recvVals[k][j])
		}
		out.Tup = append(out.Tup, x.mergeV("recv", sts, vs))
	}
	pc := st.pc
	*st = *m
	st.pc = pc
	return out
}

func (x *Exec) goStmt(fr *Frame, st *State, g *ssa.Go, pos string) {
	cc := &g.Call
	var args []V
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	if cc.IsInvoke() {
		panic(unsupported("go of an interface method"))
	}
	fv := x.val(fr, st, cc.Value)
	if fv.Fn == nil {
		panic(unsupported("go of a function value"))
	}
	key := funcKey(fv.Fn.Fn)
	con := x.S.Contracts[key]
	if con == nil {
		panic(unsupported("go statement: no contract for " + key))
	}
	if con.Opts["thread"] != "" {
		x.assumes["`go "+key+"` starts a goroutine whose preconditions are proved; what it owns (its contract's modifies clause) is left to it"] = true
		fr.threadCall = true
		defer func() { fr.threadCall = false }()
	} else {
		x.assumes["goroutines are analysed as contracted threads: the effects of `go "+key+"` are those of its contract, and data races are excluded by ownership (not checked)"] = true
	}
	x.applyContract(fr, st, con, args, resultTypes(fv.Fn.Fn.Signature), pos, fv.Fn)
}
