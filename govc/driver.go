package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- name resolution inside function bodies ----

// paramSpill finds the variable a parameter is stored into at entry.
func paramSpill(fn *ssa.Function, i int) *ssa.Alloc {
	p := fn.Params[i]
	if p.Referrers() == nil {
		return nil
	}
	for _, r := range *p.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Val == p {
			if a, ok := s.Addr.(*ssa.Alloc); ok {
				return a
			}
		}
	}
	return nil
}

func (x *Exec) readAlloc(fr *Frame, st *State, a *ssa.Alloc) (SV, bool) {
	if v, ok := fr.env[a]; ok {
		return x.derefAny(st, v)
	}
	return SV{}, false
}

// frameLookup resolves parameter names, captured variables and locals to their current values.
func (x *Exec) frameLookup(fr *Frame, l *Loop) func(name string, st *State) (SV, bool) {
	return func(name string, st *State) (SV, bool) {
		if v, ok := x.frameLookup1(fr, l, name, st); ok {
			return v, true
		}
		if v, ok := x.returnedTo(fr, l, name, st); ok {
			return v, true
		}
		if v, ok := x.passedIn(fr, name, st); ok {
			return v, true
		}
		if fr.host != nil && fr.con == nil && liveAt(fr.host, name, fr.callIn) {
			var hl *Loop
			if strings.HasPrefix(name, "$") && fr.callIn != nil {
				// of the innermost loop of the host around the call
				for _, l := range fr.host.fi.loops {
					if l.Blocks[fr.callIn.Block()] && (hl == nil || len(l.Blocks) < len(hl.Blocks)) {
						hl = l
					}
				}
			}
			if v, ok := x.frameLookup1(fr.host, hl, name, st); ok {
				return v, true
			}
		}
		if strings.HasPrefix(name, "\\old:") {
			return SV{}, false
		}
		return x.tolerant(fr, l, name, st)
	}
}

func (x *Exec) frameLookup1(fr *Frame, l *Loop, name string, st *State) (SV, bool) {
	{
		old := strings.HasPrefix(name, "\\old:")
		name = strings.TrimPrefix(name, "\\old:")
		if fr.con != nil {
			for i, p := range fr.con.Params {
				if p == name && i < len(fr.params) {
					if !old && i < len(fr.fn.Params) {
						if a := paramSpill(fr.fn, i); a != nil {
							if v, ok := x.readAlloc(fr, st, a); ok {
								return v, true
							}
						}
					}
					v := fr.params[i]
					if len(v.L) == 0 {
						if v.Ad != nil && v.Ad.Kind != "field" {
							return SV{}, false
						}
						return SV{T: v.T, L: x.leaves(v, v.T)}, true
					}
					return SV{T: v.T, L: v.L}, true
				}
			}
		}
		for i, f := range fr.fn.FreeVars {
			if f.Name() == name && i < len(fr.free) {
				return x.derefAny(st, fr.free[i])
			}
		}
		if old {
			return SV{}, false
		}
		if name == "$seen" {
			return x.seenOf(fr, l, st)
		}
		if name == "$iter" && l != nil {
			var best *Loop
			for el, c := range fr.iters {
				if _, ok := st.cells[c]; ok && el.Blocks[l.Header] && (best == nil || len(el.Blocks) < len(best.Blocks)) {
					best = el
				}
			}
			if best == nil {
				return SV{}, false
			}
			return SV{T: types.Typ[types.Int], L: st.cells[fr.iters[best]].L}, true
		}
		if name == "$range" && l != nil {
			// the channel of the innermost range loop around (or at) l
			var best *Loop
			var bv ssa.Value
			for h, el := range fr.fi.byHdr {
				if !el.Blocks[l.Header] || best != nil && len(el.Blocks) >= len(best.Blocks) {
					continue
				}
				for _, in := range h.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
						best, bv = el, u.X
					}
				}
			}
			if bv != nil {
				v := x.val(fr, st, bv)
				return SV{T: v.T, L: v.L}, true
			}
			return SV{}, false
		}
		cands := fr.fi.names[name]
		if strings.HasPrefix(name, "$") {
			cands = fr.fi.names[name[1:]]
		}
		if name == "$rangeindex" && l != nil {
			// the index of the innermost range loop around (or at) l
			var best *Loop
			var ba *ssa.Alloc
			for _, a := range cands {
				for _, r := range *a.Referrers() {
					if el := fr.fi.byHdr[r.Block()]; el != nil && el.Blocks[l.Header] && (best == nil || len(el.Blocks) < len(best.Blocks)) {
						best, ba = el, a
					}
				}
			}
			if ba != nil {
				if v, ok := x.readAlloc(fr, st, ba); ok {
					return v, true
				}
			}
		}
		if a := pickAlloc(cands, l); a != nil {
			if l != nil && prints != nil && perIteration(a, l) {
				if was, known := wasRange(fr.key, x.ord(fr, l)); known && !was {
					if v, ok := x.rangePlus1(fr, l, st); ok {
						return v, true
					}
				}
			}
			if v, ok := x.readAlloc(fr, st, a); ok {
				return v, true
			}
		}
		for _, a := range cands {
			if v, ok := x.readAlloc(fr, st, a); ok {
				return v, true
			}
		}
		return SV{}, false
	}
}

func loopBody(n ast.Node) *ast.BlockStmt {
	switch s := n.(type) {
	case *ast.ForStmt:
		return s.Body
	case *ast.RangeStmt:
		return s.Body
	}
	return nil
}

// pickAlloc chooses the variable of that name that is in scope at the loop header.
func pickAlloc(cands []*ssa.Alloc, l *Loop) *ssa.Alloc {
	if len(cands) == 0 {
		return nil
	}
	if l == nil {
		return cands[len(cands)-1]
	}
	if len(cands) == 1 {
		return cands[0]
	}
	// used in the header itself
	inHdr := func(a *ssa.Alloc) bool {
		for _, r := range *a.Referrers() {
			if r.Block() == l.Header {
				return true
			}
		}
		return false
	}
	var hdr []*ssa.Alloc
	for _, a := range cands {
		if inHdr(a) {
			hdr = append(hdr, a)
		}
	}
	if len(hdr) == 1 {
		return hdr[0]
	}
	var lim token.Pos
	if l.Node != nil {
		if b := loopBody(l.Node); b != nil {
			lim = b.Pos()
		}
	}
	var best *ssa.Alloc
	for _, a := range cands {
		if !a.Block().Dominates(l.Header) || l.Blocks[a.Block()] && a.Block() != l.Header {
			continue
		}
		if lim.IsValid() && a.Pos().IsValid() && a.Pos() > lim {
			continue
		}
		if best == nil || a.Pos() > best.Pos() {
			best = a
		}
	}
	return best
}

func (x *Exec) seenOf(fr *Frame, l *Loop, st *State) (SV, bool) {
	if l == nil {
		return SV{}, false
	}
	for _, in := range l.Header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				if c, ok := rangeCells[r]; ok {
					if v, ok := st.cells[c]; ok {
						return SV{L: v.L}, true
					}
				}
			}
		}
	}
	return SV{}, false
}

func (x *Exec) loopCtx(fr *Frame, l *Loop, st *State) *SpecCtx {
	c := &SpecCtx{x: x, st: st, old: fr.entry, vars: map[string]SV{}}
	if con := fr.conOf(); con != nil {
		c.pkg = con.Pkg
	} else if fr.fn.Pkg != nil {
		c.pkg = fr.fn.Pkg.Pkg.Name()
	}
	if fr.con == nil && fr.host != nil {
		c.old = fr.host.entry
	}
	c.lookup = x.frameLookup(fr, l)
	return c
}

// ---- verification of one function ----

type VerifyOpts struct {
	NoContract map[string]bool
	Drops      map[string]bool
	Extra      []*LoopSpec // replaced loop specifications (fallback)
	Alt        *Contract   // the same specification with other loop annotations
}

func newExec(P *Prog, S *Specs, key string, con *Contract) *Exec {
	return &Exec{locked: map[lockKey]*State{}, P: P, S: S, key: key, con: con, sorts: map[string]string{}, memo: map[string]memoEnt{}, modSet: map[string][]*Term{}, rangeDone: map[*Term]bool{},
		used: map[string]bool{}, trusted: map[string]bool{}, assumes: map[string]bool{}, inlined: map[string]bool{}, oblCount: map[string]int{}, reveal: map[string]bool{}, drops: map[string]bool{},
		noContract: map[string]bool{}, specVars: map[string]SV{}, refNames: map[string]*Term{}, lockHeld: map[*Term]bool{}, opaqueMemo: map[string]bool{}, autoInv: map[string]bool{}}
}

func (x *Exec) initState() *State {
	st := &State{cells: map[*Cell]V{}, heap: map[string]*Term{}, pc: True, ep: x.newEpoch()}
	st.alloc = Fresh("alloc", SInt)
	x.facts = append(x.facts, Le(I(1), st.alloc))
	x.alloc0 = st.alloc
	x.initGiven(st)
	return st
}

// VerifyH runs Verify, dropping automatic loop-invariant candidates until the remaining ones are inductive.
func VerifyH(sv *Solver, P *Prog, S *Specs, key string, opts VerifyOpts) (*Exec, error) {
	drops := map[string]bool{}
	for k := range opts.Drops {
		drops[k] = true
	}
	for {
		opts.Drops = drops
		x, err := Verify(P, S, key, opts)
		if err != nil {
			return nil, err
		}
		var cs []*Obl
		for _, o := range x.obls {
			if o.Kind == "cand" {
				cs = append(cs, o)
			}
		}
		if len(cs) == 0 {
			return x, nil
		}
		sv.Solve(cs)
		bad := 0
		for _, o := range cs {
			if o.Status != "proved" {
				drops[o.Cand] = true
				bad++
			}
		}
		if bad == 0 {
			return x, nil
		}
	}
}

// VerifyA runs VerifyH with the function's own annotations or, where they do not fit the code, the first alternative
// annotations that do; it returns the alternatives that were not tried.
func VerifyA(sv *Solver, P *Prog, S *Specs, key string) (*Exec, []*Contract, error) {
	var alts []*Contract
	if c := S.Contracts[key]; c != nil {
		alts = c.Alts
	}
	x, err := VerifyH(sv, P, S, key, VerifyOpts{})
	for i := 0; err != nil && i < len(alts); i++ {
		if y, e := VerifyH(sv, P, S, key, VerifyOpts{Alt: alts[i]}); e == nil {
			return y, alts[i+1:], nil
		}
	}
	if err != nil {
		alts = nil
	}
	return x, alts, err
}

// Alternatives: for the functions with an obligation left unproved, proves the same contract with alternative
// annotations; the function keeps the obligations of the first alternative that is fully proved.
func Alternatives(sv *Solver, P *Prog, S *Specs, key string, x *Exec, alts []*Contract) *Exec {
	open := func(x *Exec) bool {
		for _, o := range x.obls {
			if o.Status == "failed" {
				return true
			}
		}
		return false
	}
	if !open(x) {
		return x
	}
	for _, a := range alts {
		y, err := VerifyH(sv, P, S, key, VerifyOpts{Alt: a})
		if err != nil {
			continue
		}
		sv.Solve(y.obls)
		if !open(y) {
			return y
		}
	}
	return x
}

// Verify generates the obligations of one function.
func Verify(P *Prog, S *Specs, key string, opts VerifyOpts) (x *Exec, err error) {
	fn := P.Funcs[key]
	con := S.Contracts[key]
	if opts.Alt != nil {
		con = opts.Alt
	}
	if fn == nil {
		return nil, fmt.Errorf("function %s not found in the source", key)
	}
	if con == nil {
		con = &Contract{Key: key, Pkg: fn.Pkg.Pkg.Name(), Hints: map[string][]Clause{}, Opts: map[string]string{}, ModAny: true, HasMods: true}
	}
	x = newExec(P, S, key, con)
	x.fn = fn
	if opts.NoContract != nil {
		x.noContract = opts.NoContract
	}
	if opts.Drops != nil {
		x.drops = opts.Drops
	}
	for k := range con.Reveal {
		x.reveal[k] = true
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	x.verifyBody(fn, con)
	return x, nil
}

func (x *Exec) freshParams(fn *ssa.Function, con *Contract, st *State) []V {
	if con.Params != nil && len(con.Params) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("contract %s names %d parameters, the function has %d", con.Key, len(con.Params), len(fn.Params))))
	}
	var out []V
	for i, p := range fn.Params {
		nm := p.Name()
		if i < len(con.Params) {
			nm = con.Params[i]
		}
		v := x.freshV(st, nm, p.Type())
		out = append(out, v)
	}
	// a method never runs on a nil struct value receiver that it dereferences; pointers may be nil unless required otherwise
	return out
}

func (x *Exec) verifyBody(fn *ssa.Function, con *Contract) {
	st := x.initState()
	params := x.freshParams(fn, con, st)
	fr := x.newFrame(fn, con, nil)
	fr.top = true
	fr.params = params
	x.topFrame = fr
	var roots []*Term
	for _, f := range fn.FreeVars {
		v := x.freshV(st, f.Name(), f.Type())
		x.facts = append(x.facts, Not(Eq(v.L[0], rnil())), Le(I(1), rootid(v.L[0])))
		for _, r := range roots {
			x.facts = append(x.facts, Not(Eq(rootid(v.L[0]), rootid(r))))
		}
		roots = append(roots, v.L[0])
		fr.free = append(fr.free, v)
	}
	x.entry = st.clone()
	fr.entry = x.entry
	var fv *FnVal
	if len(fr.free) > 0 {
		fv = &FnVal{Fn: fn, Bind: fr.free}
	}
	cx := x.conCtx(con, params, st, nil, fv)
	cx.old = st
	for _, r := range con.Req {
		t := cx.boolExpr(r.E)
		x.inGroup(r.Name, func() { x.note(r.Name, func() { x.assume(st, t) }) })
	}
	x.assumeTypeInvs(fn, params, st)
	if con.ModAny {
		x.modAny = true
	}
	for _, e := range con.Mods {
		for n, as := range cx.footprint(e) {
			x.modSet[n] = append(x.modSet[n], as...)
		}
	}
	x.entry = st.clone()
	fr.entry = x.entry
	x.smoke(st, "entry")
	for _, g := range con.Ghost {
		if g.At == "entry" {
			x.runGhosts(cx, st, []GhostSet{g})
		}
	}
	for k, h := range con.Hints["entry"] {
		x.check(st, "hint", fmt.Sprintf("entryhint%d", k+1), h.Pos, "hint: "+h.Src, goalize(cx.hintExpr(h.E)))
	}
	x.runBody(fr, st)
	rts := resultTypes(fn.Signature)
	for ri, r := range fr.rets {
		sfx := ""
		if ri > 0 {
			sfx = fmt.Sprintf("#%d", ri+1)
		}
		st := r.st
		cx := x.conCtx(con, params, st, x.entry, fv)
		flk := x.frameLookup(fr, nil)
		base := cx.lookup
		cx.lookup = func(name string, s *State) (SV, bool) {
			if base != nil {
				if v, ok := base(name, s); ok {
					return v, true
				}
			}
			return flk(name, s)
		}
		for i, n := range con.Results {
			if i < len(r.vals) {
				v := r.vals[i]
				if len(v.L) == 0 && v.Fn == nil && v.Ad == nil && len(leavesOf(rts[i])) > 0 {
					continue
				}
				cx.vars[n] = SV{T: rts[i], L: x.leaves(v, rts[i])}
			}
		}
		for _, g := range con.Ghost {
			if g.At == "exit" {
				x.runGhosts(cx, st, []GhostSet{g})
			}
		}
		for k, h := range con.Hints["exit"] {
			x.check(st, "hint", fmt.Sprintf("exithint%d%s", k+1, sfx), h.Pos, "hint: "+h.Src, goalize(cx.hintExpr(h.E)))
		}
		for k, e := range con.Ens {
			g := cx.boolExpr(e.E)
			x.inGroup(e.Name, func() {
				x.check(st, "ensures", fmt.Sprintf("ensures%d%s", k+1, sfx), r.pos, "postcondition: "+e.Src, goalize(g))
			})
		}
		x.checkTypeInvs(fn, params, st, "exit"+sfx)
		x.resultTypeInvs(r.vals, func(ti *TypeInv, k int, c Clause, v V) {
			if fn.Pkg.Pkg.Name() != ti.Pkg {
				return
			}
			cx := &SpecCtx{x: x, st: st, vars: map[string]SV{ti.Var: {T: v.T, L: v.L}}, pkg: ti.Pkg}
			x.check(st, "typeinv", fmt.Sprintf("typeinv%d.result%s", k+1, sfx), c.Pos, "type invariant of "+ti.Type+": "+c.Src, Imp(Not(Eq(v.L[0], rnil())), goalize(cx.boolExpr(c.E))))
		})
		x.smoke(st, "return"+sfx)
	}
}

func (x *Exec) smoke(st *State, name string) {
	if x.dry > 0 {
		return
	}
	x.obls = append(x.obls, &Obl{Fn: x.key, Name: "smoke:" + name, Kind: "smoke", Goal: Not(st.pc), NF: len(x.facts), Desc: "reachable", x: x, Smoke: true})
}

func (x *Exec) typeInvsFor(fn *ssa.Function, params []V, f func(ti *TypeInv, k int, c Clause, v V)) {
	for _, p := range params {
		if _, ok := p.T.Underlying().(*types.Pointer); !ok {
			continue
		}
		for _, ti := range x.S.TypeInvs {
			if typeKey(deref(p.T)) != ti.Type {
				continue
			}
			for k, c := range ti.Invs {
				f(ti, k, c, p)
			}
		}
	}
}

func (x *Exec) resultTypeInvs(vals []V, f func(ti *TypeInv, k int, c Clause, v V)) {
	for _, v := range vals {
		if v.T == nil || len(v.L) != 1 {
			continue
		}
		if _, ok := v.T.Underlying().(*types.Pointer); !ok {
			continue
		}
		for _, ti := range x.S.TypeInvs {
			if typeKey(deref(v.T)) == ti.Type {
				for k, c := range ti.Invs {
					f(ti, k, c, v)
				}
			}
		}
	}
}

func (x *Exec) assumeTypeInvs(fn *ssa.Function, params []V, st *State) {
	x.typeInvsFor(fn, params, func(ti *TypeInv, k int, c Clause, v V) {
		cx := &SpecCtx{x: x, st: st, vars: map[string]SV{ti.Var: {T: v.T, L: v.L}}, pkg: ti.Pkg}
		x.assume(st, cx.boolExpr(c.E))
	})
}

func (x *Exec) checkTypeInvs(fn *ssa.Function, params []V, st *State, sfx string) {
	x.typeInvsFor(fn, params, func(ti *TypeInv, k int, c Clause, v V) {
		cx := &SpecCtx{x: x, st: st, vars: map[string]SV{ti.Var: {T: v.T, L: v.L}}, pkg: ti.Pkg}
		x.check(st, "typeinv", fmt.Sprintf("typeinv%d.%s", k+1, sfx), c.Pos, "type invariant of "+ti.Type+": "+c.Src, goalize(cx.boolExpr(c.E)))
	})
}

// Refine generates the obligations that a function's contract implements an interface contract.
func Refine(P *Prog, S *Specs, key, ikey string) (x *Exec, err error) {
	fn, con, ic := P.Funcs[key], S.Contracts[key], S.Contracts[ikey]
	if fn == nil || con == nil || ic == nil {
		return nil, fmt.Errorf("refinement %s of %s: missing", key, ikey)
	}
	x = newExec(P, S, key+"<:"+ikey, con)
	x.fn = fn
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	st := x.initState()
	params := x.freshParams(fn, con, st)
	x.entry = st.clone()
	iparams := append([]V(nil), params...)
	var it types.Type = types.NewInterfaceType(nil, nil)
	if i := strings.LastIndex(ikey, "."); i > 0 {
		c := &SpecCtx{x: x, pkg: ic.Pkg}
		if t := c.resolveType(ikey[:i]); t != nil {
			it = t
		}
	}
	if len(params[0].L) == 1 && params[0].L[0].Sort == SRef {
		x.facts = append(x.facts, Not(Eq(params[0].L[0], rnil())))
	}
	iparams[0] = V{T: it, L: []*Term{x.box(params[0])}}
	x.assumeTypeInvs(fn, params, st)
	icx := x.conCtx(ic, iparams, st, st, nil)
	for _, r := range ic.Req {
		x.assume(st, icx.boolExpr(r.E))
	}
	x.smoke(st, "entry")
	// frame
	if ic.ModAny {
		x.modAny = true
	}
	for _, e := range ic.Mods {
		for n, as := range icx.footprint(e) {
			x.modSet[n] = append(x.modSet[n], as...)
		}
	}
	// the implementation's own (non-ghost) fields cannot be seen through the interface
	if len(con.Params) > 0 {
		ccx := x.conCtx(con, params, st, st, nil)
		for _, e := range con.Mods {
			if e.Kind == "sel" && len(e.Args) > 0 && e.Args[0].Kind == "name" && e.Args[0].Name == con.Params[0] {
				for n, as := range ccx.footprint(e) {
					if strings.HasPrefix(n, "F:") {
						x.modSet[n] = append(x.modSet[n], as...)
					}
				}
			}
		}
	}
	pre := st.clone()
	fr := &Frame{fn: fn, con: con, key: key}
	res := x.applyContract(fr, st, con, params, resultTypes(fn.Signature), "", nil)
	cx2 := x.conCtx(ic, iparams, st, pre, nil)
	for i, n := range ic.Results {
		cx2.vars[n] = SV{T: res[i].T, L: res[i].L}
	}
	for k, e := range ic.Ens {
		x.check(st, "refine", fmt.Sprintf("refine.ensures%d", k+1), e.Pos, "interface postcondition: "+e.Src, goalize(cx2.boolExpr(e.E)))
	}
	x.smoke(st, "return")
	return x, nil
}
