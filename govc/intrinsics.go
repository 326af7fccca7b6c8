package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) freshErr(st *State) V {
	id := Fresh("err", SInt)
	x.facts = append(x.facts, Le(I(1), id))
	return V{T: types.Universe.Lookup("error").Type(), L: []*Term{App("aerr", SAny, id)}}
}

func (x *Exec) trust(k, note string) {
	x.trusted[k+": "+note] = true
}

// intrinsic models library functions that need more than a contract.
func (x *Exec) intrinsic(fr *Frame, st *State, key string, f *ssa.Function, args []V, in ssa.Instruction, pos string) ([]V, bool) {
	none := []V{}
	switch key {
	case "errors.New":
		x.trust(key, "returns a new non-nil error")
		return []V{x.freshErr(st)}, true
	case "fmt.Errorf":
		x.trust(key, "returns a new non-nil error and has no other effect")
		return []V{x.freshErr(st)}, true
	case "fmt.Sprintf":
		x.trust(key, "formats %v and %d of integers in decimal")
		return []V{x.sprintf(fr, st, args, in)}, true
	case "sync.WaitGroup.Add", "sync.WaitGroup.Done", "sync.WaitGroup.Wait":
		x.trust("sync.WaitGroup", "Wait returns only after every counted goroutine has finished; no other effect")
		return none, true
	case "atomic.AddInt64", "atomic.AddInt32", "atomic.AddUint64", "atomic.AddUint32":
		x.trust(key, "adds atomically")
		v := x.load(st, args[0], pos)
		nv := V{T: v.T, L: []*Term{x.wrap(Add(v.L[0], args[1].L[0]), v.T, true)}}
		x.store(st, args[0], nv, pos)
		return []V{nv}, true
	case "binary.littleEndian.PutUint32", "binary.littleEndian.PutUint16", "binary.littleEndian.PutUint64":
		x.trust(key, "stores the value's bytes, lowest first")
		n := map[string]int64{"binary.littleEndian.PutUint32": 4, "binary.littleEndian.PutUint16": 2, "binary.littleEndian.PutUint64": 8}[key]
		b, v := args[len(args)-2], args[len(args)-1]
		x.checkT(st, "bounds", fr.pfx+"bounds", pos, key+": buffer long enough", Le(I(n), b.L[2]))
		el := b.T.Underlying().(*types.Slice).Elem()
		nm := elemMap(el, "")
		srt := arrSort(SRef, arrSort(SInt, SInt))
		row := sel(x.heapGet(st, nm, srt), b.L[0])
		for k := int64(0); k < n; k++ {
			row = Store(row, Add(b.L[1], I(k)), Mod(Div(v.L[0], BigI(pow2(int(8*k)))), I(256)))
		}
		x.hset(st, nm, b.L[0], row, srt)
		return none, true
	case "binary.littleEndian.Uint32", "binary.littleEndian.Uint16", "binary.littleEndian.Uint64":
		x.trust(key, "reads the value's bytes, lowest first")
		n := map[string]int64{"binary.littleEndian.Uint32": 4, "binary.littleEndian.Uint16": 2, "binary.littleEndian.Uint64": 8}[key]
		b := args[len(args)-1]
		x.checkT(st, "bounds", fr.pfx+"bounds", pos, key+": buffer long enough", Le(I(n), b.L[2]))
		el := b.T.Underlying().(*types.Slice).Elem()
		row := sel(x.heapGet(st, elemMap(el, ""), arrSort(SRef, arrSort(SInt, SInt))), b.L[0])
		t := I(0)
		for k := int64(0); k < n; k++ {
			v := atTerm(row, b.L[1], I(k))
			x.rangeFact(v, irange{8, false})
			t = Add(t, Mul(BigI(pow2(int(8*k))), v))
		}
		return []V{{T: f.Signature.Results().At(0).Type(), L: []*Term{t}}}, true
	case "sort.Reverse":
		return []V{{T: f.Signature.Results().At(0).Type(), L: []*Term{App("sortrev", SAny, args[0].L[0])}}}, true
	case "sort.Sort", "sort.Stable":
		x.sortSort(fr, st, args[0].L[0], pos)
		return none, true
	case "sort.Search":
		return []V{x.sortSearch(fr, st, args[0], args[1], in, pos)}, true
	case "sync.Mutex.Lock":
		x.lock(fr, st, args[0], pos, true)
		return none, true
	case "sync.Mutex.Unlock":
		x.lock(fr, st, args[0], pos, false)
		return none, true
	case "runtime.Gosched":
		return none, true
	case "binary.Read":
		if v, ok := x.binaryRead(fr, st, args, in, pos); ok {
			return []V{v}, true
		}
	}
	if strings.HasPrefix(key, "llrb.LLRB.Ascend") || strings.HasPrefix(key, "llrb.LLRB.Descend") {
		return x.llrbAscend(fr, st, key, args, in, pos), true
	}
	return nil, false
}

// binaryRead models binary.Read of one fixed-size integer, lowest byte first: all its bytes are taken from what the
// reader has left, or the reader is exhausted and an error returned.
func (x *Exec) binaryRead(fr *Frame, st *State, args []V, in ssa.Instruction, pos string) (V, bool) {
	c, ok := in.(*ssa.Call)
	if !ok || x.S.Funs["lev"] == nil {
		return V{}, false
	}
	mi, ok := c.Call.Args[2].(*ssa.MakeInterface)
	if !ok {
		return V{}, false
	}
	ord, ok := c.Call.Args[1].(*ssa.MakeInterface)
	if !ok || ord.X.Type().String() != "encoding/binary.littleEndian" {
		return V{}, false
	}
	pt, ok := mi.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return V{}, false
	}
	r, ok := intRange(pt.Elem())
	if !ok {
		return V{}, false
	}
	x.trust("binary.Read", "takes all bytes of a fixed-size integer from the reader, lowest first, or returns an error")
	n := int64(r.bits / 8)
	rd := arefOf(args[0].L[0])
	rem := x.ghostGet(st, "rem", SSeq, rd)
	enough := Le(I(n), App("slen", SInt, rem))
	okPc := Fresh("readok", SBool)
	x.facts = append(x.facts, Eq(okPc, enough))
	old := x.load(st, x.val(fr, st, mi.X), pos)
	lev := App("fun.lev", SInt, I(n), App("ssub", SSeq, rem, I(0), I(n)))
	nv := lev
	if r.signed {
		nv = Ite(Lt(lev, BigI(pow2(int(r.bits-1)))), lev, Sub(lev, BigI(pow2(int(r.bits)))))
	}
	x.store(st, x.val(fr, st, mi.X), V{T: old.T, L: []*Term{Ite(okPc, nv, old.L[0])}}, pos)
	x.ghostSet(st, "rem", SSeq, rd, Ite(okPc, App("ssub", SSeq, rem, I(n), App("slen", SInt, rem)), App("sempty", SSeq)))
	e := x.freshErr(st)
	e.L = []*Term{Ite(okPc, App("anil", SAny), e.L[0])}
	return e, true
}

func (x *Exec) sprintf(fr *Frame, st *State, args []V, in ssa.Instruction) V {
	res := V{T: types.Typ[types.String]}
	fs, ok := strConsts[args[0].L[0]]
	if !ok {
		res.L = []*Term{Fresh("sprintf", SSeq)}
		return res
	}
	va := args[1]
	out := App("sempty", SSeq)
	k := int64(0)
	lit := ""
	flush := func() {
		if lit != "" {
			out = scatT(out, strTerm(lit))
			lit = ""
		}
	}
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		i++
		if i >= len(fs) {
			break
		}
		if fs[i] == '%' {
			lit += "%"
			continue
		}
		flush()
		el := va.T.Underlying().(*types.Slice).Elem()
		row := sel(x.heapGet(st, elemMap(el, ""), arrSort(SRef, arrSort(SInt, SAny))), va.L[0])
		a := atTerm(row, va.L[1], I(k))
		k++
		piece := Fresh("fmtpiece", SSeq)
		if fs[i] == 'v' || fs[i] == 'd' {
			if a.Kind == 'a' && strings.HasPrefix(a.Op, "box.") && len(a.Args) == 1 && a.Args[0].Sort == SInt {
				piece = App("fun.dec", SSeq, a.Args[0])
			}
		}
		out = scatT(out, piece)
	}
	flush()
	res.L = []*Term{out}
	return res
}

// evalPure inlines a side-effect-free closure at the given arguments, without generating obligations.
func (x *Exec) evalPure(fr *Frame, st *State, fv *FnVal, args []V, pos string) []V {
	x.dry++
	s := st.clone()
	defer func() { x.dry-- }()
	return x.callFn(fr, s, fv.Fn, args, fv.Bind, nil, pos)
}

func (x *Exec) sortSearch(fr *Frame, st *State, n, f V, in ssa.Instruction, pos string) V {
	x.trust("sort.Search", "binary search: f(r) holds unless r == n, and f(r-1) does not hold unless r == 0; calls f only on [0, n)")
	if f.Fn == nil {
		panic(unsupported("sort.Search with unknown function"))
	}
	intT := types.Typ[types.Int]
	// obligations of the body for an arbitrary index
	k := x.freshV(st, "searchidx", intT)
	s := st.clone()
	s.pc = And(st.pc, Le(I(0), k.L[0]), Lt(k.L[0], n.L[0]))
	m := x.mark()
	_ = m
	x.callFn(fr, s, f.Fn.Fn, []V{k}, f.Fn.Bind, in, pos)
	r := x.freshV(st, "search", intT)
	x.assume(st, And(Le(I(0), r.L[0]), Or(Le(r.L[0], n.L[0]), And(Le(n.L[0], I(0)), Eq(r.L[0], I(0))))))
	a := st.clone()
	a.pc = And(st.pc, Lt(r.L[0], n.L[0]))
	fv := x.evalPure(fr, a, f.Fn, []V{r}, pos)
	x.assume(a, fv[0].L[0])
	b := st.clone()
	b.pc = And(st.pc, Lt(I(0), r.L[0]))
	pv := x.evalPure(fr, b, f.Fn, []V{{T: intT, L: []*Term{Sub(r.L[0], I(1))}}}, pos)
	x.assume(b, Not(pv[0].L[0]))
	return r
}

// lessExpr finds the defining expression of a Less method from its contract.
func (x *Exec) lessExpr(t types.Type) (*Contract, *Expr) {
	con := x.S.Contracts[typeKey(t)+".Less"]
	if con == nil {
		panic(unsupported("sort.Sort: no contract for " + typeKey(t) + ".Less"))
	}
	x.used[con.Key] = true
	for _, e := range con.Ens {
		if e.E.Kind == "bin" && (e.E.Name == "==" || e.E.Name == "<==>") && e.E.Args[0].Kind == "name" && e.E.Args[0].Name == con.Results[0] {
			return con, e.E.Args[1]
		}
	}
	panic(unsupported("sort.Sort: contract of " + con.Key + " does not define its result"))
}

var permN int

func (x *Exec) sortSort(fr *Frame, st *State, a *Term, pos string) {
	x.trust("sort.Sort", "permutes the elements into an order in which no later element is Less than an earlier one, given that Len/Less/Swap meet their contracts")
	rev := false
	for a.Kind == 'a' && a.Op == "sortrev" {
		rev = !rev
		a = a.Args[0]
	}
	if !(a.Kind == 'a' && strings.HasPrefix(a.Op, "box.")) {
		panic(unsupported("sort.Sort of an unknown interface value"))
	}
	t := boxTypes[a.Op]
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		panic(unsupported("sort.Sort of a non-slice"))
	}
	con, less := x.lessExpr(t)
	for _, m := range []string{"Len", "Swap"} {
		if c := x.S.Contracts[typeKey(t)+"."+m]; c != nil {
			x.used[c.Key] = true
		} else {
			panic(unsupported("sort.Sort: no contract for " + typeKey(t) + "." + m))
		}
	}
	el := sl.Elem()
	arr, off, n := a.Args[0], a.Args[1], a.Args[2]
	permN++
	p := func(i *Term) *Term { return App(fmt.Sprintf("perm.%d", permN), SInt, i) }
	q := func(i *Term) *Term { return App(fmt.Sprintf("iperm.%d", permN), SInt, i) }
	s2 := st.clone()
	s2.pc = And(st.pc, Lt(I(1), n))
	type upd struct {
		nm, srt  string
		old, row *Term
		l        Leaf
	}
	var ups []upd
	for _, l := range leavesOf(el) {
		nm := elemMap(el, l.Path)
		rs := arrSort(SInt, l.Sort)
		srt := arrSort(SRef, rs)
		old := sel(x.heapGet(st, nm, srt), arr)
		row := Fresh("sorted", rs)
		ups = append(ups, upd{nm, srt, old, row, l})
	}
	i, o := BVar("i", SInt), BVar("o", SInt)
	for _, u := range ups {
		at := mkAt
		inr := And(Le(I(0), i), Lt(i, n))
		x.facts = append(x.facts,
			Forall([]*Term{i}, [][]*Term{{at(u.row, off, i)}}, Imp(inr, And(Le(I(0), p(i)), Lt(p(i), n), Eq(at(u.row, off, i), at(u.old, off, p(i))), Eq(q(p(i)), i)))),
			Forall([]*Term{i}, [][]*Term{{at(u.old, off, i)}}, Imp(inr, And(App("fun.blk", SBool, q(i)), Le(I(0), q(i)), Lt(q(i), n), Eq(at(u.row, off, q(i)), at(u.old, off, i)), Eq(p(q(i)), i)))),
			Forall([]*Term{o, i}, [][]*Term{{at(u.row, o, i)}}, Imp(Or(Lt(Add(o, i), off), Ge(Add(o, i), Add(off, n))), Eq(at(u.row, o, i), at(u.old, o, i)))))
		x.frameCheck(s2, u.nm, arr)
		x.heapSetRaw(st, u.nm, arr, u.row, u.srt)
	}
	// a permutation has every element as often
	for k, u := range ups {
		if u.l.Sort != SInt {
			continue
		}
		v, w := BVar("v", SInt), BVar("w", SInt)
		if x.S.Funs["cnt"] != nil {
			c := func(r *Term) *Term { return App("fun.cnt", SInt, r, off, n, v) }
			x.facts = append(x.facts, Forall([]*Term{v}, [][]*Term{{c(u.row)}}, Eq(c(u.row), c(u.old))))
		}
		if x.S.Funs["cnt2"] != nil && k+1 < len(ups) && ups[k+1].l.Sort == SInt {
			u2 := ups[k+1]
			c := func(r, q *Term) *Term { return App("fun.cnt2", SInt, r, q, off, n, v, w) }
			x.facts = append(x.facts, Forall([]*Term{v, w}, [][]*Term{{c(u.row, u2.row)}}, Eq(c(u.row, u2.row), c(u.old, u2.old))))
		}
	}
	// sortedness in the new state
	j := BVar("j", SInt)
	cx := &SpecCtx{x: x, st: st, old: st, vars: map[string]SV{}, pkg: con.Pkg, bound: 1}
	cx.vars[con.Params[0]] = SV{T: t, L: a.Args}
	lo, hi := con.Params[1], con.Params[2]
	bi, bj := j, i // Less(later j, earlier i)
	if rev {
		bi, bj = i, j
	}
	cx.vars[lo] = one(bi)
	cx.vars[hi] = one(bj)
	le := cx.boolExpr(less)
	u := ups[0]
	tr := func(ix *Term) *Term { return mkAt(u.row, off, ix) }
	x.facts = append(x.facts, Forall([]*Term{i, j}, [][]*Term{{tr(i), tr(j)}}, Imp(And(Le(I(0), i), Lt(i, j), Lt(j, n)), Not(le))))
}

type lockKey struct {
	li *LockInv
	r  *Term
}

// lock models Lock (on) and Unlock of a mutex with a lock invariant.
func (x *Exec) lock(fr *Frame, st *State, m V, pos string, on bool) {
	x.trust("sync.Mutex", "mutual exclusion: between Lock and Unlock no other goroutine touches the protected state")
	r := x.leaves(m, m.T)[0]
	if !(r.Kind == 'a' && r.Op == "rfld") {
		panic(unsupported("lock of a mutex that is not a struct field"))
	}
	for _, li := range x.S.LockInvs {
		own := (&SpecCtx{x: x, pkg: li.Pkg}).resolveType(li.Type)
		if own == nil || I(int64(fieldId(own, li.Field))) != r.Args[1] {
			continue
		}
		parent := SV{T: types.NewPointer(own), L: []*Term{r.Args[0]}}
		cx := &SpecCtx{x: x, st: st, vars: map[string]SV{li.Var: parent}, pkg: li.Pkg}
		lk := lockKey{li, r}
		if on {
			before := st.clone()
			for _, e := range li.Protects {
				for n, as := range cx.footprint(e) {
					for _, a := range as {
						x.havocAt(st, n, a)
					}
				}
			}
			na := Fresh("alloc", SInt)
			x.facts = append(x.facts, Le(st.alloc, na))
			st.alloc = na
			for _, rc := range x.recs {
				rc.alloc = true
			}
			for _, c := range li.Invs {
				x.assume(st, cx.boolExpr(c.E))
			}
			// what the other goroutines did since respects the rely conditions
			cx.old = before
			for _, c := range li.Rely {
				x.assume(st, cx.boolExpr(c.E))
			}
			x.locked[lk] = st.clone()
		} else {
			for k, c := range li.Invs {
				x.check(st, "lockinv", fmt.Sprintf("%slockinv%d:%s", fr.pfx, k+1, li.Type), pos, "lock invariant at Unlock: "+c.Src, goalize(cx.boolExpr(c.E)))
			}
			if len(li.Rely) > 0 {
				cx.old = x.locked[lk]
				if cx.old == nil {
					panic(unsupported("Unlock without a matching Lock in the same function"))
				}
				for k, c := range li.Rely {
					x.check(st, "rely", fmt.Sprintf("%srely%d:%s", fr.pfx, k+1, li.Type), pos, "between Lock and Unlock: "+c.Src, goalize(cx.boolExpr(c.E)))
				}
			}
		}
		return
	}
	panic(unsupported("mutex without a lock invariant"))
}

// llrbAscend models (*llrb.LLRB).AscendGreaterOrEqual: the items at positions from the pivot's on are visited in ascending
// order until the iterator returns false.  It is a loop; its invariants come from `loop 101` (102, ... for further calls in the
// same function), where $last is the position of the last visited item.
func (x *Exec) llrbAscend(fr *Frame, st *State, key string, args []V, in ssa.Instruction, pos string) []V {
	x.trust(key, "visits the items whose position is at least the pivot's, in ascending order, until the iterator returns false")
	fv := args[2].Fn
	if fv == nil {
		panic(unsupported("LLRB iteration with an unknown function"))
	}
	ord := 101
	found := false
	for _, b := range fr.fn.Blocks {
		for _, i := range b.Instrs {
			if i == in {
				found = true
			}
			if c, ok := i.(*ssa.Call); ok && !found {
				if f := c.Call.StaticCallee(); f != nil && funcKey(f) == key {
					ord++
				}
			}
		}
	}
	var spec *LoopSpec
	if fr.conOf() != nil {
		for _, s := range fr.conOf().Loops {
			if s.Ord == ord {
				spec = s
			}
		}
	}
	tree := x.leaves(args[0], args[0].T)[0]
	x.nilCheck(st, tree, pos)
	pivot := args[1].L[0]
	boolMap := arrSort(SInt, SBool)
	anyMap := arrSort(SInt, SAny)
	hasAt := func(s *State, k *Term) *Term { return Select(x.ghostGet(s, "thas", boolMap, tree), k) }
	ppos := App("fun.pos", SInt, pivot)
	k := BVar("k", SInt)
	empty := Forall([]*Term{k}, [][]*Term{{hasAt(st, k)}}, Not(hasAt(st, k)))
	nilp := Eq(pivot, App("anil", SAny))
	if pivot.Kind == 'a' && strings.HasPrefix(pivot.Op, "box.") {
		nilp = False
	}
	if nilp != False {
		x.checkT(st, "pivot", fr.pfx+"ascend.pivot", pos, "the pivot is not nil, or the tree is empty", Or(Not(nilp), empty))
	}
	first := Ite(nilp, I(-1), Sub(ppos, I(1)))
	pre := st.clone()
	thas0, tval0 := x.ghostGet(pre, "thas", boolMap, tree), x.ghostGet(pre, "tval", anyMap, tree)
	item := func(n *Term) V { return V{T: fv.Fn.Params[0].Type(), L: []*Term{Select(tval0, n)}} }
	startN := freshN
	rec := newRec()
	for it := 0; it < 6; it++ {
		r2 := newRec()
		m := x.mark()
		s := pre.clone()
		x.dry++
		s.alloc = Fresh("alloc", SInt)
		x.havocLoop(fr, s, pre, rec, startN, nil, nil)
		x.recs = append(x.recs, r2)
		func() {
			defer func() {
				x.recs = x.recs[:len(x.recs)-1]
				x.dry--
			}()
			x.callFn(fr, s, fv.Fn, []V{item(Fresh("next", SInt))}, fv.Bind, in, pos)
		}()
		x.rollback(m)
		if !mergeRec(rec, r2) {
			break
		}
	}
	if rec.maps["G:thas"] != nil || rec.maps["G:tval"] != nil || rec.anyw {
		panic(unsupported("LLRB iteration that may change the tree"))
	}
	for _, r := range x.recs {
		mergeRec(r, rec)
	}
	lname := fmt.Sprintf("%sloop%d", fr.pfx, ord)
	x.nloops++
	lf := &loopFrame{alloc: pre.alloc, mods: map[string][]*Term{}}
	for n, m := range rec.maps {
		for a := range m.addrs {
			if stableTerm(a, startN) {
				lf.mods[n] = append(lf.mods[n], a)
			}
		}
	}
	ctx := func(s *State, last *Term) *SpecCtx {
		c := x.loopCtx(fr, nil, s)
		c.loopEntry = pre
		c.vars["$last"] = one(last)
		return c
	}
	checkInvs := func(s *State, last *Term, sfx string) {
		if spec == nil {
			return
		}
		for k, c := range spec.Invs {
			g := ctx(s, last).boolExpr(c.E)
			x.inGroup(c.Name, func() {
				x.check(s, "invariant", invName(lname, k)+sfx, c.Pos, "iteration invariant: "+c.Src, goalize(g))
			})
		}
	}
	checkInvs(pre, first, ".entry")
	head := pre.clone()
	if rec.alloc {
		head.alloc = Fresh("alloc", SInt)
		x.facts = append(x.facts, Le(pre.alloc, head.alloc))
	}
	x.havocLoop(fr, head, pre, rec, startN, lf, nil)
	last := Fresh("last", SInt)
	x.assume(head, Le(first, last))
	if spec != nil {
		for _, c := range spec.Invs {
			g := ctx(head, last).boolExpr(c.E)
			x.inGroup(c.Name, func() { x.note(c.Name, func() { x.assume(head, g) }) })
		}
	}
	more := Fresh("more", SBool)
	done, next := head.clone(), head.clone()
	done.pc = And(head.pc, Not(more))
	next.pc = And(head.pc, more)
	x.assume(done, Forall([]*Term{k}, [][]*Term{{Select(thas0, k)}}, Imp(Lt(last, k), Not(Select(thas0, k)))))
	n := Fresh("next", SInt)
	x.assume(next, And(Lt(last, n), Select(thas0, n)))
	x.assume(next, Forall([]*Term{k}, [][]*Term{{Select(thas0, k)}}, Imp(And(Lt(last, k), Lt(k, n)), Not(Select(thas0, k)))))
	x.loopMods = append(x.loopMods, lf)
	res := x.callFn(fr, next, fv.Fn, []V{item(n)}, fv.Bind, in, pos)
	x.loopMods = x.loopMods[:len(x.loopMods)-1]
	back, stop := next.clone(), next.clone()
	back.pc = And(next.pc, res[0].L[0])
	stop.pc = And(next.pc, Not(res[0].L[0]))
	if spec != nil && res[0].L[0] != False {
		for k, c := range spec.Hints {
			g := ctx(back, n).boolExpr(c.E)
			x.inGroup(c.Name, func() {
				x.check(back, "hint", fmt.Sprintf("%s.hint%d", lname, k+1), c.Pos, "hint: "+c.Src, goalize(g))
			})
		}
	}
	if res[0].L[0] != False {
		checkInvs(back, n, ".preserved")
	}
	m := x.merge([]*State{done, stop})
	*st = *m
	return nil
}
