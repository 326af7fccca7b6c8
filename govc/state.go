package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a symbolic value of a Go type.
type V struct {
	T   types.Type
	L   []*Term
	Fn  *FnVal
	Ad  *Addr
	Tup []V
	It  *IterVal
	Bad string
}

type FnVal struct {
	Fn   *ssa.Function
	Bind []V
}

type IterVal struct {
	Map  V
	Cnt  *Cell
	Seen *Cell
	Str  bool
}

type Cell struct {
	Name string
	T    types.Type
	Id   int
}

type Addr struct {
	Kind string // cell, field, elem, heap
	Cell *Cell
	Lo   int
	Ref  *Term
	Own  types.Type // struct type for field; element type for elem
	Path string     // leaf path prefix
	Off  *Term      // slice offset for elem
	Idx  *Term
	T    types.Type // type at the address
}

type Epoch struct {
	id      int
	parents []epPar
	memo    map[string]*Term
}
type epPar struct {
	pc *Term
	st *State
}

type State struct {
	cells map[*Cell]V
	heap  map[string]*Term
	alloc *Term
	pc    *Term
	ep    *Epoch
}

func (s *State) clone() *State {
	n := &State{cells: make(map[*Cell]V, len(s.cells)), heap: make(map[string]*Term, len(s.heap)), alloc: s.alloc, pc: s.pc, ep: s.ep}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

type Obl struct {
	Groups []string
	Fn     string
	Name   string
	Kind   string
	Pos    string
	Goal   *Term
	NF     int
	Desc   string
	Props  []string
	x      *Exec
	// result
	Status string
	Solver string
	Secs   float64
	Model  string
	Cached bool
	Smoke  bool
	Cand   string
}

type mapRec struct {
	addrs map[*Term]bool
	whole bool
}

type Recorder struct {
	cells map[*Cell]bool
	maps  map[string]*mapRec
	alloc bool
	anyw  bool
}

func newRec() *Recorder {
	return &Recorder{cells: map[*Cell]bool{}, maps: map[string]*mapRec{}}
}

// Exec verifies one function.
type Exec struct {
	group         []string
	factGroups    map[*Term]map[string]bool
	factSrc       map[*Term]string
	splits        []split
	P             *Prog
	S             *Specs
	key           string
	con           *Contract
	fn            *ssa.Function
	facts         []*Term
	locked        map[lockKey]*State
	obls          []*Obl
	entry         *State
	alloc0        *Term
	sorts         map[string]string // heap map name -> sort
	recs          []*Recorder
	memo          map[string]memoEnt
	cellN         int
	epN           int
	modSet        map[string][]*Term // declared footprint by map name (evaluated at entry)
	modAny        bool
	loopMods      []*loopFrame
	gives         map[string]bool
	dry           int
	rangeDone     map[*Term]bool
	rangeLog      []*Term
	used          map[string]bool // contracts used (callee keys)
	trusted       map[string]bool
	assumes       map[string]bool
	inlined       map[string]bool
	hasQuantFacts bool
	oblCount      map[string]int
	topFrame      *Frame
	nloops        int
	reveal        map[string]bool
	nInline       int
	drops         map[string]bool // dropped (houdini) invariants
	noContract    map[string]bool // internal contracts not to be trusted: inline instead
	specVars      map[string]SV   // extra names
	fallbackLoops []string
	entryPC       *Term
	prophN        int
	refNames      map[string]*Term
	lockHeld      map[*Term]bool
	errNo         int
	opaqueMemo    map[string]bool
	autoInv       map[string]bool
	epLog         []epLogEnt
}

type memoEnt struct {
	t  *Term
	nf int
}

type loopFrame struct {
	alloc *Term
	mods  map[string][]*Term
	any   bool
}

func (x *Exec) assume(st *State, f *Term) {
	if t := atTwin(f); t != nil {
		x.assume(st, t)
	}
	f = remark(f, false)
	if st != nil {
		f = Imp(st.pc, f)
	}
	if f == True {
		return
	}
	if f.Kind == 'a' && f.Op == "and" {
		for _, a := range f.Args {
			x.facts = append(x.facts, a)
		}
		return
	}
	x.facts = append(x.facts, f)
}

func (x *Exec) check(st *State, kind, name, pos, desc string, goal *Term) {
	if x.dry > 0 {
		return
	}
	if goal.Kind == 'a' && goal.Op == "and" && len(goal.Args) > 1 {
		for i, a := range goal.Args {
			x.check(st, kind, fmt.Sprintf("%s.%d", name, i+1), pos, desc, a)
		}
		return
	}
	g := Imp(st.pc, remark(goal, true))
	nm := name
	x.oblCount[nm]++
	if n := x.oblCount[nm]; n > 1 {
		nm = fmt.Sprintf("%s~%d", nm, n)
	}
	o := &Obl{Fn: x.key, Name: nm, Kind: kind, Pos: pos, Goal: g, NF: len(x.facts), Desc: desc, x: x, Groups: x.group}
	if g == True {
		o.Status = "proved"
		o.Solver = "simplifier"
	}
	x.obls = append(x.obls, o)
	// once checked, the condition may be assumed (a failed check is reported anyway)
	if g != True && g != False {
		if marksUsed {
			g = Imp(st.pc, remark(goal, false))
		}
		l := ""
		if len(x.group) > 0 {
			l = x.group[0]
		}
		x.note(l, func() { x.facts = append(x.facts, g) })
	}
}

func (x *Exec) heapGet(st *State, name, srt string) *Term {
	if o, ok := x.sorts[name]; ok {
		if o != srt {
			panic(fmt.Sprintf("heap map %s has two sorts %s %s", name, o, srt))
		}
	} else {
		x.sorts[name] = srt
	}
	if t, ok := st.heap[name]; ok {
		return t
	}
	return x.epGet(st.ep, name)
}

func (x *Exec) epGet(e *Epoch, name string) *Term {
	if t, ok := e.memo[name]; ok {
		return t
	}
	var t *Term
	if len(e.parents) == 0 {
		t = Sym(fmt.Sprintf("%s@%d", name, e.id), x.sorts[name])
	} else {
		t = Fresh(name, x.sorts[name])
		for _, p := range e.parents {
			x.facts = append(x.facts, Imp(p.pc, Eq(t, x.heapGet(p.st, name, x.sorts[name]))))
		}
	}
	e.memo[name] = t
	if len(e.parents) > 0 {
		x.epLog = append(x.epLog, epLogEnt{e, name})
	}
	return t
}

type epLogEnt struct {
	e    *Epoch
	name string
}

type mark struct{ facts, rng, ep int }

// split records a control flow merge: a hard obligation after it may be proved one branch at a time.
type split struct {
	nf  int
	pcs []*Term
}

func (x *Exec) mark() mark { return mark{len(x.facts), len(x.rangeLog), len(x.epLog)} }

// rollback discards everything learnt since the mark.
func (x *Exec) rollback(m mark) {
	x.facts = x.facts[:m.facts]
	for len(x.splits) > 0 && x.splits[len(x.splits)-1].nf > m.facts {
		x.splits = x.splits[:len(x.splits)-1]
	}
	for _, k := range x.rangeLog[m.rng:] {
		delete(x.rangeDone, k)
	}
	x.rangeLog = x.rangeLog[:m.rng]
	for _, e := range x.epLog[m.ep:] {
		delete(e.e.memo, e.name)
	}
	x.epLog = x.epLog[:m.ep]
	for k, e := range x.memo {
		if e.nf >= m.facts {
			delete(x.memo, k)
		}
	}
}

func (x *Exec) newEpoch() *Epoch {
	x.epN++
	return &Epoch{id: x.epN, memo: map[string]*Term{}}
}

func (x *Exec) recWrite(name string, addr *Term) {
	for _, r := range x.recs {
		m := r.maps[name]
		if m == nil {
			m = &mapRec{addrs: map[*Term]bool{}}
			r.maps[name] = m
		}
		if addr == nil {
			m.whole = true
		} else {
			m.addrs[addr] = true
		}
	}
}

// heapSetRaw performs an unchecked update at an address.
func (x *Exec) heapSetRaw(st *State, name string, addr, val *Term, srt string) {
	cur := x.heapGet(st, name, srt)
	x.recWrite(name, addr)
	n := Store(cur, addr, val)
	x.setMap(st, name, n)
}

// setMap names big store chains.
func (x *Exec) setMap(st *State, name string, n *Term) {
	f := Fresh(name, n.Sort)
	x.facts = append(x.facts, Eq(f, n))
	aliasOf[f] = n
	st.heap[name] = f
}

// aliasOf lets Select look through named store chains.
var aliasOf = map[*Term]*Term{}

// sel reads through named maps where addresses are syntactically decidable.
func sel(m, i *Term) *Term {
	cur := m
	for {
		if d, ok := aliasOf[cur]; ok {
			if d.Kind == 'a' && d.Op == "store" {
				e := refEq(d.Args[1], i)
				if e == True {
					return d.Args[2]
				}
				if e == False {
					cur = d.Args[0]
					continue
				}
			}
		} else if cur.Kind == 'a' && cur.Op == "store" {
			e := refEq(cur.Args[1], i)
			if e == True {
				return cur.Args[2]
			}
			if e == False {
				cur = cur.Args[0]
				continue
			}
		}
		break
	}
	if cur.Kind == 'a' && cur.Op == "constarr" {
		return cur.Args[0]
	}
	return Select(cur, i)
}

// refEq decides equality of addresses syntactically where possible.
func refEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort == SInt {
		return Eq2(a, b)
	}
	if a.Sort != SRef {
		return Eq(a, b)
	}
	if a.Kind == 'a' && b.Kind == 'a' && a.Op == b.Op {
		switch a.Op {
		case "rbase":
			return Eq2(a.Args[0], b.Args[0])
		case "rfld":
			if a.Args[1] != b.Args[1] {
				return False
			}
			if e := refEq(a.Args[0], b.Args[0]); e == True || e == False {
				return e
			}
		}
		return Eq(a, b)
	}
	// different constructors: distinct
	if a.Kind == 'a' && b.Kind == 'a' && refCons[a.Op] != 0 && refCons[b.Op] != 0 {
		return False
	}
	return Eq(a, b)
}

// Eq2 is integer equality with linear simplification.
func Eq2(a, b *Term) *Term {
	d := Sub(a, b)
	if d.isInt() {
		return B(d.Int.Sign() == 0)
	}
	return Eq(a, b)
}

func rbase(id *Term) *Term      { return App("rbase", SRef, id) }
func rfld(r *Term, k int) *Term { return App("rfld", SRef, r, I(int64(k))) }
func rnil() *Term               { return rbase(I(0)) }
func rootid(r *Term) *Term {
	switch {
	case r.Kind == 'a' && r.Op == "rbase":
		return r.Args[0]
	case r.Kind == 'a' && (r.Op == "rfld" || r.Op == "relm"):
		return rootid(r.Args[0])
	case r.Kind == 'a' && r.Op == "ite":
		return Ite(r.Args[0], rootid(r.Args[1]), rootid(r.Args[2]))
	}
	return App("rootid", SInt, r)
}

// field ids
var fieldIds = map[string]int{}

func fieldId(t types.Type, f string) int {
	k := typeKey(t) + "." + f
	if i, ok := fieldIds[k]; ok {
		return i
	}
	i := len(fieldIds) + 1
	fieldIds[k] = i
	return i
}

func fieldMap(own types.Type, path string) string { return "F:" + typeKey(own) + path }
func elemMap(el types.Type, path string) string   { return "E:" + elemKey(el) + path }
func elemKey(el types.Type) string {
	if b, ok := el.(*types.Basic); ok {
		if b.Kind() == types.Byte {
			return "uint8"
		}
		if b.Kind() == types.Rune {
			return "int32"
		}
	}
	return typeKey(el)
}
func cellMap(t types.Type, path string) string { return "C:" + typeKey(t) + path }

func (x *Exec) mk(t types.Type, ls []*Term) V { return V{T: t, L: ls} }

func boolV(t *Term) V { return V{T: types.Typ[types.Bool], L: []*Term{t}} }

// typeFacts states the machine-level invariants of a value.
func (x *Exec) typeFacts(st *State, v V) {
	ls := leavesOf(v.T)
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		if i >= len(v.L) {
			return
		}
		t := v.L[i]
		if l.Part == "arr" {
			x.sliceFacts(st, v.L[i], v.L[i+1], v.L[i+2], v.L[i+3])
			i += 3
			continue
		}
		x.leafFact(st, l, t)
	}
}

func (x *Exec) sliceFacts(st *State, arr, off, ln, cp *Term) {
	k := App("slicefacts", SBool, arr, off, ln, cp)
	if x.factDone(k) {
		return
	}
	x.facts = append(x.facts, And(Le(I(0), off), Le(I(0), ln), Le(ln, cp), Le(Add(off, cp), BigI(maxCap)), Imp(Eq(arr, rnil()), Eq(cp, I(0)))))
	x.refFact(st, arr)
}

var maxCap = new(big.Int).Lsh(big.NewInt(1), 47)

func (x *Exec) refFact(st *State, r *Term) {
	if r.Kind == 'a' && r.Op == "rbase" && r.Args[0].isInt() {
		return
	}
	k := App("reffact", SBool, r, st.alloc)
	if x.factDone(k) {
		return
	}
	x.facts = append(x.facts, Lt(rootid(r), st.alloc))
}

func (x *Exec) factDone(k *Term) bool {
	if x.rangeDone[k] {
		return true
	}
	x.rangeDone[k] = true
	x.rangeLog = append(x.rangeLog, k)
	return false
}

func (x *Exec) leafFact(st *State, l Leaf, t *Term) {
	switch l.Sort {
	case SInt:
		if t.isInt() {
			return
		}
		r, ok := intRange(l.T)
		if !ok {
			return
		}
		x.rangeFact(t, r)
	case SRef:
		x.refFact(st, t)
	case SAny:
		if t.Kind == 'a' && strings.HasPrefix(t.Op, "box.") || t.Kind == 'a' && (t.Op == "anil" || t.Op == "aerr") {
			return
		}
		k := App("anyfact", SBool, t, st.alloc)
		if x.factDone(k) {
			return
		}
		x.facts = append(x.facts, Lt(rootid(arefOf(t)), st.alloc))
	case SSeq:
	}
}

func bounds(r irange) (lo, hi *big.Int) {
	one := big.NewInt(1)
	if r.signed {
		h := new(big.Int).Lsh(one, r.bits-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, r.bits), one)
}

func (x *Exec) rangeFact(t *Term, r irange) {
	k := App(fmt.Sprintf("rangefact%d%v", r.bits, r.signed), SBool, t)
	if x.factDone(k) {
		return
	}
	lo, hi := bounds(r)
	x.facts = append(x.facts, And(Le(BigI(lo), t), Le(t, BigI(hi))))
}

// freshV makes an arbitrary value of a type.
func (x *Exec) freshV(st *State, name string, t types.Type) V {
	ls := leavesOf(t)
	v := V{T: t}
	for _, l := range ls {
		v.L = append(v.L, Fresh(name+l.Path, l.Sort))
	}
	x.typeFacts(st, v)
	return v
}

func zeroLeaf(l Leaf) *Term {
	switch l.Sort {
	case SInt:
		return I(0)
	case SBool:
		return False
	case SRef:
		return rnil()
	case SAny:
		return App("anil", SAny)
	case SSeq:
		return App("sempty", SSeq)
	case "Real":
		return App("0.0", "Real")
	}
	if strings.HasPrefix(l.Sort, "(Array ") {
		_, v := arrParts(l.Sort)
		return ConstArr(l.Sort, zeroLeaf(Leaf{Sort: v}))
	}
	return Sym("zero."+l.Sort, l.Sort)
}

func (x *Exec) zeroV(t types.Type) V {
	v := V{T: t}
	if tp, ok := t.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, x.zeroV(tp.At(i).Type()))
		}
		return v
	}
	for _, l := range leavesOf(t) {
		v.L = append(v.L, zeroLeaf(l))
	}
	return v
}

// ---- loads and stores ----

// structAddrLoad reads a whole struct value located at reference r.
func (x *Exec) structLoad(st *State, r *Term, t types.Type) V {
	s, _ := isStruct(t)
	v := V{T: t}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := isStruct(f.Type()); ok {
			v.L = append(v.L, x.structLoad(st, rfld(r, fieldId(t, f.Name())), f.Type()).L...)
			continue
		}
		if _, ok := isArray(f.Type()); ok {
			v.L = append(v.L, rfld(r, fieldId(t, f.Name())))
			continue
		}
		for _, l := range leavesOf(f.Type()) {
			m := x.heapGet(st, fieldMap(t, "."+f.Name()+l.Path), arrSort(SRef, l.Sort))
			v.L = append(v.L, sel(m, r))
		}
	}
	return v
}

func (x *Exec) structStore(st *State, r *Term, t types.Type, v V) {
	s, _ := isStruct(t)
	k := 0
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		n := len(leavesOf(f.Type()))
		if _, ok := isStruct(f.Type()); ok {
			x.structStore(st, rfld(r, fieldId(t, f.Name())), f.Type(), V{T: f.Type(), L: v.L[k : k+n]})
		} else {
			for j, l := range leavesOf(f.Type()) {
				x.hset(st, fieldMap(t, "."+f.Name()+l.Path), r, v.L[k+j], arrSort(SRef, l.Sort))
			}
		}
		k += n
	}
}

// hset is a checked heap write.
func (x *Exec) hset(st *State, name string, addr, val *Term, srt string) {
	x.frameCheck(st, name, addr)
	x.heapSetRaw(st, name, addr, val, srt)
}

func (x *Exec) inFoot(name string, addr *Term, foot map[string][]*Term) *Term {
	var alts []*Term
	if strings.HasPrefix(name, "G:") {
		alts = append(alts, refEq(addr, rnil())) // ghost state of nothing
	}
	for _, a := range foot[name] {
		e := refEq(a, addr)
		if e == True {
			return True
		}
		alts = append(alts, e)
	}
	return Or(alts...)
}

func (x *Exec) frameCheck(st *State, name string, addr *Term) {
	if x.dry > 0 || strings.HasPrefix(name, "E:") && refEq(addr, rnil()) == True {
		return // the nil slice has no elements
	}
	if name == "G:given" {
		return // see gives
	}
	if strings.HasPrefix(name, "G:") && refEq(addr, rnil()) == True {
		return // ghost state of nothing
	}
	if addr == deadRef() {
		return
	}
	if x.givesElem(name) {
		x.check(st, "chan", "given:"+name, "", "write to "+strings.TrimPrefix(name, "E:")+" of a slice that was sent away on a channel", Not(x.ghostGet(st, "given", SBool, addr)))
	}
	if !x.modAny {
		g := Or(Le(x.alloc0, rootid(addr)), x.inFoot(name, addr, x.modSet), isDead(addr))
		if g != True {
			x.check(st, "frame", "frame:"+name, "", "write to "+name+" outside the modifies clause", g)
		}
	}
	for i, lf := range x.loopMods {
		if lf.any {
			continue
		}
		g := Or(Le(lf.alloc, rootid(addr)), x.inFoot(name, addr, lf.mods), isDead(addr))
		if g != True {
			x.check(st, "frame", fmt.Sprintf("loopframe%d:%s", i+1, name), "", "write to "+name+" in a loop is neither to a stable address nor to a fresh object", g)
		}
	}
}

// deadRef stands for no location in conditional modifies clauses.
func deadRef() *Term { return rbase(I(-999999999)) }

func isDead(a *Term) *Term {
	if a.Kind == 'a' && a.Op == "ite" {
		return Or(And(a.Args[0], isDead(a.Args[1])), And(Not(a.Args[0]), isDead(a.Args[2])))
	}
	return B(a == deadRef())
}

// Slices sent away: `gives m.F` in a channel's contract marks the array of slice m.F as the receiver's from then on;
// the sending function may no longer write to its elements.
func (x *Exec) notGiven(t, alloc *Term) {
	r := BVar("r", SRef)
	x.facts = append(x.facts, Forall([]*Term{r}, [][]*Term{{Select(t, r)}}, Imp(Le(alloc, rootid(r)), Not(Select(t, r)))))
}

func (x *Exec) initGiven(st *State) {
	for _, c := range x.S.Chans {
		if len(c.Gives) > 0 {
			x.notGiven(x.heapGet(st, "G:given", arrSort(SRef, SBool)), st.alloc)
			return
		}
	}
}

// givesElem: the map holds elements of a slice type that the function under verification sends away.
func (x *Exec) givesElem(name string) bool {
	if !strings.HasPrefix(name, "E:") || x.fn == nil {
		return false
	}
	if x.gives == nil {
		x.gives = map[string]bool{}
		for _, b := range x.fn.Blocks {
			for _, in := range b.Instrs {
				sd, ok := in.(*ssa.Send)
				if !ok {
					continue
				}
				if cs := x.chanSpec(chanElem(sd.Chan.Type())); cs != nil {
					for _, g := range cs.Gives {
						c := &SpecCtx{x: x, pkg: cs.Pkg}
						if t := c.resolveType(g); t != nil {
							for _, l := range leavesOf(t) {
								x.gives[elemMap(t, l.Path)] = true
							}
						}
					}
				}
			}
		}
	}
	return x.gives[name]
}

func (x *Exec) load(st *State, p V, pos string) V {
	t := deref(p.T)
	if p.Ad != nil {
		a := p.Ad
		switch a.Kind {
		case "cell":
			cv, ok := st.cells[a.Cell]
			if !ok {
				panic(unsupported("read of uninitialised cell " + a.Cell.Name))
			}
			if cv.Bad != "" {
				panic(unsupported(cv.Bad))
			}
			if types.Identical(cv.T, a.T) && a.Lo == 0 {
				cv.T = a.T
				return cv
			}
			n := len(leavesOf(a.T))
			return V{T: a.T, L: cv.L[a.Lo : a.Lo+n]}
		case "field":
			v := V{T: a.T}
			for _, l := range leavesOf(a.T) {
				m := x.heapGet(st, fieldMap(a.Own, a.Path+l.Path), arrSort(SRef, l.Sort))
				v.L = append(v.L, sel(m, a.Ref))
			}
			x.typeFacts(st, v)
			return v
		case "elem":
			v := V{T: a.T}
			for _, l := range leavesOf(a.T) {
				m := x.heapGet(st, elemMap(a.Own, a.Path+l.Path), arrSort(SRef, arrSort(SInt, l.Sort)))
				v.L = append(v.L, atTerm(sel(m, a.Ref), a.Off, a.Idx))
			}
			x.typeFacts(st, v)
			return v
		}
		panic("load kind " + a.Kind)
	}
	r := p.L[0]
	x.nilCheck(st, r, pos)
	var v V
	if _, ok := isStruct(t); ok {
		v = x.structLoad(st, r, t)
	} else if _, ok := isArray(t); ok {
		v = V{T: t, L: []*Term{r}}
		return v
	} else {
		v = V{T: t}
		for _, l := range leavesOf(t) {
			m := x.heapGet(st, cellMap(t, l.Path), arrSort(SRef, l.Sort))
			v.L = append(v.L, sel(m, r))
		}
	}
	x.typeFacts(st, v)
	return v
}

func atTerm(row, off, idx *Term) *Term {
	// look through stores
	cur := row
	for {
		d := cur
		if a, ok := aliasOf[cur]; ok {
			d = a
		}
		if d.Kind == 'a' && d.Op == "store" {
			e := Eq2(d.Args[1], Add(off, idx))
			if e == True {
				return d.Args[2]
			}
			if e == False {
				cur = d.Args[0]
				continue
			}
		}
		if d.Kind == 'a' && d.Op == "constarr" {
			return d.Args[0]
		}
		break
	}
	return mkAt(cur, off, idx)
}

// mkAt is the element at off+idx of a row; the offset is kept as the slice's symbolic base, the rest moves into the index,
// so that elements reached through different reslicings of one array are the same term.
func mkAt(row, off, idx *Term) *Term {
	_, vs := arrParts(row.Sort)
	o0, d := splitOff(off)
	return App("at."+sortTag(vs), vs, row, o0, Add(d, idx))
}

func isOffTerm(t *Term) bool {
	switch t.Kind {
	case 's':
		return strings.Contains(t.Op, ".off!")
	case 'a':
		switch t.Op {
		case "select":
			m := t.Args[0]
			for m.Kind == 'a' && (m.Op == "store" || m.Op == "select") {
				m = m.Args[0]
			}
			return m.Kind == 's' && strings.Contains(m.Op, ".off")
		case "ite":
			return isOffTerm(t.Args[1]) || isOffTerm(t.Args[2])
		}
		if strings.HasPrefix(t.Op, "un:") { // the offset of a slice held in an interface value
			b := t.Op[3:strings.LastIndex(t.Op, ":")]
			k, _ := strconv.Atoi(t.Op[strings.LastIndex(t.Op, ":")+1:])
			if ls := leavesOf(boxTypes[b]); k < len(ls) {
				return strings.HasSuffix(ls[k].Path, ".off")
			}
		}
		if strings.HasPrefix(t.Op, "at.") {
			m := t.Args[0]
			if m.Kind == 'a' && m.Op == "select" {
				m = m.Args[0]
			}
			for m.Kind == 'a' && m.Op == "store" {
				m = m.Args[0]
			}
			return m.Kind == 's' && strings.Contains(m.Op, ".off")
		}
	}
	return false
}

// splitOff splits an offset into a symbolic slice base and a displacement.
func splitOff(o *Term) (base, d *Term) {
	if isOffTerm(o) || o.Kind == 'v' || o.bound {
		return o, I(0)
	}
	l := newLin()
	linOf(o, big.NewInt(1), l)
	var b *Term
	for t, k := range l.m {
		if k.IsInt64() && k.Int64() == 1 && isOffTerm(t) {
			if b != nil {
				return o, I(0)
			}
			b = t
		}
	}
	if b == nil {
		return I(0), o
	}
	delete(l.m, b)
	return b, l.term()
}

func sortTag(s string) string { return sanitize(s) }

func (x *Exec) store(st *State, p V, v V, pos string) {
	t := deref(p.T)
	if p.Ad != nil {
		a := p.Ad
		switch a.Kind {
		case "cell":
			for _, r := range x.recs {
				r.cells[a.Cell] = true
			}
			if a.Lo == 0 && len(leavesOf(a.T)) == len(leavesOf(a.Cell.T)) {
				v.T = a.Cell.T
				st.cells[a.Cell] = v
				return
			}
			old := st.cells[a.Cell]
			nl := append([]*Term(nil), old.L...)
			copy(nl[a.Lo:], v.L)
			st.cells[a.Cell] = V{T: a.Cell.T, L: nl}
			return
		case "field":
			vl := x.leaves(v, a.T)
			for i, l := range leavesOf(a.T) {
				x.hset(st, fieldMap(a.Own, a.Path+l.Path), a.Ref, vl[i], arrSort(SRef, l.Sort))
			}
			return
		case "elem":
			vl := x.leaves(v, a.T)
			for i, l := range leavesOf(a.T) {
				nm := elemMap(a.Own, a.Path+l.Path)
				srt := arrSort(SRef, arrSort(SInt, l.Sort))
				m := x.heapGet(st, nm, srt)
				x.hset(st, nm, a.Ref, Store(sel(m, a.Ref), Add(a.Off, a.Idx), vl[i]), srt)
			}
			return
		}
		panic("store kind")
	}
	r := p.L[0]
	x.nilCheck(st, r, pos)
	if _, ok := isStruct(t); ok {
		x.structStore(st, r, t, v)
		return
	}
	if _, ok := isArray(t); ok {
		panic(unsupported("array store"))
	}
	vl := x.leaves(v, t)
	for i, l := range leavesOf(t) {
		x.hset(st, cellMap(t, l.Path), r, vl[i], arrSort(SRef, l.Sort))
	}
}

// leaves gives the term leaves of a value (materialising function values and addresses).
func (x *Exec) leaves(v V, t types.Type) []*Term {
	if v.Bad != "" {
		panic(unsupported(v.Bad))
	}
	if v.Ad != nil {
		return []*Term{x.refOfAddr(v.Ad)}
	}
	if v.Fn != nil && len(v.L) == 0 {
		return []*Term{x.fnRef(v.Fn)}
	}
	return v.L
}

func (x *Exec) fnRef(f *FnVal) *Term {
	return rbase(I(int64(-1000000 - funcId(funcKey(f.Fn)))))
}

var funcIds = map[string]int{}

func funcId(k string) int {
	if i, ok := funcIds[k]; ok {
		return i
	}
	funcIds[k] = len(funcIds) + 1
	return funcIds[k]
}

func (x *Exec) refOfAddr(a *Addr) *Term {
	if a.Kind == "field" {
		if _, ok := isStruct(a.T); ok {
			return rfld(a.Ref, fieldId(a.Own, strings.TrimPrefix(a.Path, ".")))
		}
	}
	panic(unsupported("address of " + a.Kind + " " + a.Path + " used as a value"))
}

func (x *Exec) nilCheck(st *State, r *Term, pos string) {
	g := Not(refEq(r, rnil()))
	if g == True {
		return
	}
	x.check(st, "nil", "nil"+posTag(pos), pos, "nil dereference", g)
}

func posTag(pos string) string { return "" }

// havocMap replaces the map at the given addresses by arbitrary values.
func (x *Exec) havocAt(st *State, name string, addr *Term) *Term {
	srt := x.sorts[name]
	_, vs := arrParts(srt)
	f := Fresh(name, vs)
	x.heapSetRaw(st, name, addr, f, srt)
	return f
}

// ---- merging ----

func (x *Exec) merge(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if s != nil && s.pc != False {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		if len(sts) > 0 && sts[0] != nil {
			return sts[0].clone()
		}
		return nil
	}
	if len(live) == 1 {
		return live[0].clone()
	}
	out := &State{cells: map[*Cell]V{}, heap: map[string]*Term{}}
	var pcs []*Term
	for _, s := range live {
		pcs = append(pcs, s.pc)
	}
	out.pc = Or(pcs...)
	if x.dry == 0 {
		x.splits = append(x.splits, split{len(x.facts), pcs})
	}
	if len(out.pc.Args) > 2 && out.pc.Kind == 'a' {
		p := Fresh("pc", SBool)
		x.facts = append(x.facts, Eq(p, out.pc))
		out.pc = p
	}
	mergeT := func(name, srt string, ts []*Term) *Term {
		same := true
		for _, t := range ts {
			if t != ts[0] {
				same = false
			}
		}
		if same {
			return ts[0]
		}
		f := Fresh(name, srt)
		for i, t := range ts {
			x.facts = append(x.facts, Imp(live[i].pc, Eq(f, t)))
		}
		return f
	}
	// alloc
	var as []*Term
	for _, s := range live {
		as = append(as, s.alloc)
	}
	out.alloc = mergeT("alloc", SInt, as)
	// epochs
	out.ep = live[0].ep
	sameEp := true
	for _, s := range live {
		if s.ep != out.ep {
			sameEp = false
		}
	}
	if !sameEp {
		e := x.newEpoch()
		for _, s := range live {
			e.parents = append(e.parents, epPar{s.pc, s.clone()})
		}
		out.ep = e
	} else {
		names := map[string]bool{}
		for _, s := range live {
			for n := range s.heap {
				names[n] = true
			}
		}
		var ns []string
		for n := range names {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			var ts []*Term
			for _, s := range live {
				ts = append(ts, x.heapGet(s, n, x.sorts[n]))
			}
			out.heap[n] = mergeT(n, x.sorts[n], ts)
		}
	}
	var cs []*Cell
	for c := range live[0].cells {
		all := true
		for _, s := range live[1:] {
			if _, ok := s.cells[c]; !ok {
				all = false
			}
		}
		if all {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Id < cs[j].Id })
	for _, c := range cs {
		var vs []V
		for _, s := range live {
			vs = append(vs, s.cells[c])
		}
		out.cells[c] = x.mergeV(c.Name, live, vs)
	}
	return out
}

func (x *Exec) mergeV(name string, live []*State, vs []V) V {
	same := true
	goSide := false
	for _, v := range vs {
		if !sameV(v, vs[0]) {
			same = false
		}
		if v.Ad != nil || v.Fn != nil || v.It != nil || v.Bad != "" || v.Tup != nil {
			goSide = true
		}
	}
	if same {
		return vs[0]
	}
	if goSide {
		ok := true
		for i := range vs {
			if vs[i].Fn != nil && len(vs[i].L) == 0 && len(vs[i].Fn.Bind) == 0 {
				vs[i].L = []*Term{x.fnRef(vs[i].Fn)}
			} else if vs[i].Ad != nil && vs[i].Ad.Kind == "field" {
				if _, o := isStruct(vs[i].Ad.T); o {
					vs[i].L = []*Term{x.refOfAddr(vs[i].Ad)}
				} else {
					ok = false
				}
			} else if len(vs[i].L) == 0 {
				ok = false
			}
		}
		if !ok {
			return V{T: vs[0].T, Bad: "merge of incompatible values for " + name}
		}
	}
	out := V{T: vs[0].T}
	for k := range vs[0].L {
		t0 := vs[0].L[k]
		eq := true
		for _, v := range vs {
			if v.L[k] != t0 {
				eq = false
			}
		}
		if eq {
			out.L = append(out.L, t0)
			continue
		}
		nm := name
		if ls := leavesOf(vs[0].T); len(ls) == len(vs[0].L) {
			nm += ls[k].Path
		}
		f := Fresh(nm, t0.Sort)
		for i, v := range vs {
			x.facts = append(x.facts, Imp(live[i].pc, Eq(f, v.L[k])))
		}
		out.L = append(out.L, f)
	}
	return out
}

func sameV(a, b V) bool {
	if a.Bad != b.Bad || a.It != b.It || len(a.L) != len(b.L) || len(a.Tup) != len(b.Tup) {
		return false
	}
	if (a.Fn == nil) != (b.Fn == nil) || (a.Ad == nil) != (b.Ad == nil) {
		return false
	}
	if a.Fn != nil && a.Fn != b.Fn {
		if a.Fn.Fn != b.Fn.Fn || len(a.Fn.Bind) != len(b.Fn.Bind) {
			return false
		}
		for i := range a.Fn.Bind {
			if !sameV(a.Fn.Bind[i], b.Fn.Bind[i]) {
				return false
			}
		}
	}
	if a.Ad != nil && *a.Ad != *b.Ad {
		return false
	}
	for i := range a.L {
		if a.L[i] != b.L[i] {
			return false
		}
	}
	for i := range a.Tup {
		if !sameV(a.Tup[i], b.Tup[i]) {
			return false
		}
	}
	return true
}

// ---- any boxes ----

func boxOp(t types.Type) string { return "box." + typeKey(t) }

func arefOf(a *Term) *Term {
	if a.Kind == 'a' && strings.HasPrefix(a.Op, "box.") && len(a.Args) == 1 && a.Args[0].Sort == SRef {
		return a.Args[0]
	}
	if a.Kind == 'a' && (a.Op == "anil" || a.Op == "aerr") {
		return rnil()
	}
	return App("aref", SRef, a)
}

func (x *Exec) box(v V) *Term {
	t := v.T
	registerBox(t)
	ls := x.leaves(v, t)
	return App(boxOp(t), SAny, ls...)
}

var boxTypes = map[string]types.Type{}

func registerBox(t types.Type) {
	boxTypes[boxOp(t)] = t
}

func isBox(t types.Type, a *Term) *Term {
	registerBox(t)
	if a.Kind == 'a' {
		if a.Op == boxOp(t) {
			return True
		}
		if strings.HasPrefix(a.Op, "box.") || a.Op == "anil" || a.Op == "aerr" {
			return False
		}
	}
	return App("is:"+boxOp(t), SBool, a)
}

func unbox(t types.Type, a *Term) V {
	registerBox(t)
	v := V{T: t}
	for i, l := range leavesOf(t) {
		if a.Kind == 'a' && a.Op == boxOp(t) {
			v.L = append(v.L, a.Args[i])
			continue
		}
		v.L = append(v.L, App("un:"+boxOp(t)+":"+strconv.Itoa(i), l.Sort, a))
	}
	return v
}

// atTwin restates "forall k {row[k]} :: ..." for elements reached through slices (at row off idx), so that
// a fact about the rest of a row is found from an element of a slice of it.
func atTwin(f *Term) *Term {
	if f.Kind == 'a' && f.Op == "=>" && len(f.Args) == 2 {
		if t := atTwin(f.Args[1]); t != nil {
			return Imp(f.Args[0], t)
		}
		return nil
	}
	if f.Kind != 'q' || f.Op != "forall" || len(f.Vars) != 1 || f.Vars[0].Sort != SInt || len(f.Trigs) == 0 || len(f.Trigs[0]) != 1 {
		return nil
	}
	k, tr := f.Vars[0], f.Trigs[0][0]
	if tr.Kind != 'a' || tr.Op != "select" || tr.Args[1] != k || tr.Args[0].bound {
		return nil
	}
	_, vs := arrParts(tr.Args[0].Sort)
	if vs == "" {
		return nil
	}
	o, i := BVar("o", SInt), BVar("i", SInt)
	m := map[*Term]*Term{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Kind == 'a' && t.Op == "select" && t.Args[1] == k && !t.Args[0].bound {
			_, vs := arrParts(t.Args[0].Sort)
			m[t] = App("at."+sortTag(vs), vs, t.Args[0], o, i)
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(f.Args[0])
	m[k] = Add(o, i)
	return Forall([]*Term{o, i}, [][]*Term{{m[tr]}}, Subst(f.Args[0], m))
}
