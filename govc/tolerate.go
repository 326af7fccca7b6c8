package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts name locals (in invariants, hints, ghost assignments) and number loops.  A fingerprint of the code that the
// contracts were written for lets them follow renamed locals, loops moved into new helpers, and range loops rewritten
// as counting loops or back.  A wrong guess can only make a proof fail: everything said about locals is proved.

type fnPrint struct {
	Locals [][2]string `json:"locals,omitempty"` // name, type and class, in order of position
	Free   [][2]string `json:"free,omitempty"`
	Range  []bool      `json:"range,omitempty"` // for each loop, whether it is a range loop
	Hash   string      `json:"hash"`            // of the body
	Sig    string      `json:"sig,omitempty"`   // types of the parameters and results of a named function
	Calls  []string    `json:"calls,omitempty"` // the named functions of the same package it refers to
}

var prints map[string]*fnPrint

func loadPrints(path string) {
	prints = nil
	d, err := os.ReadFile(path)
	if err != nil {
		return
	}
	json.Unmarshal(d, &prints)
}

func namedAllocs(fi *FnInfo) []*ssa.Alloc {
	var as []*ssa.Alloc
	seen := map[*ssa.Alloc]bool{}
	for n, l := range fi.names {
		if !token.IsIdentifier(n) || n == "rangeindex" || n == "complit" || n == "varargs" || n == "makeslice" || n == "new" {
			continue
		}
		for _, a := range l {
			if !seen[a] {
				seen[a] = true
				as = append(as, a)
			}
		}
	}
	sort.Slice(as, func(i, j int) bool {
		if as[i].Pos() != as[j].Pos() {
			return as[i].Pos() < as[j].Pos()
		}
		return as[i].Comment < as[j].Comment
	})
	return as
}

func loopIsRange(l *Loop) bool {
	for _, in := range l.Header.Instrs {
		if st, ok := in.(*ssa.Store); ok {
			if a, ok := st.Addr.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				return true
			}
		}
	}
	return false
}

func printOf(fn *ssa.Function) *fnPrint {
	fi := infoOf(fn)
	p := &fnPrint{}
	for _, a := range namedAllocs(fi) {
		p.Locals = append(p.Locals, [2]string{a.Comment, typeKey(deref(a.Type())) + classOf(fi, a)})
	}
	for _, f := range fn.FreeVars {
		p.Free = append(p.Free, [2]string{f.Name(), typeKey(f.Type())})
	}
	for _, l := range fi.loops {
		p.Range = append(p.Range, loopIsRange(l))
	}
	p.Hash = bodyHash(fn)
	p.Sig = sigOf(fn)
	p.Calls = refersTo(fn)
	return p
}

// classOf tells loop counters, changing variables and variables that are set once apart.
func classOf(fi *FnInfo, a *ssa.Alloc) string {
	for _, l := range fi.loops {
		if counterOf(l) == a {
			return "#counter"
		}
	}
	n := 0
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			n++
		}
	}
	if n > 1 {
		return "#changing"
	}
	return "#once"
}

func bodyHash(fn *ssa.Function) string {
	h := fnv.New64a()
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			v := ""
			if w, ok := in.(ssa.Value); ok {
				v = w.Name() + "=" + w.Type().String()
			}
			fmt.Fprintf(h, "%d %s %s\n", b.Index, v, in)
		}
	}
	return fmt.Sprintf("%x", h.Sum64())
}

// changed: the body is not the one the contracts were written for.
func changed(fn *ssa.Function) bool {
	if prints == nil {
		return false
	}
	p := prints[funcKey(fn)]
	return p == nil || p.Hash != bodyHash(fn)
}

func writePrints(P *Prog, path string) error {
	m := map[string]*fnPrint{}
	for k, f := range P.Funcs {
		if len(f.Blocks) > 0 {
			m[k] = printOf(f)
		}
	}
	for _, pk := range P.SSA.AllPackages() {
		if !P.InRep[pk.Pkg] {
			continue
		}
		for _, mem := range pk.Members {
			if t, ok := mem.(*ssa.Type); ok {
				if s, ok := t.Type().Underlying().(*types.Struct); ok {
					m["type "+typeKey(t.Type())] = &fnPrint{Locals: fieldsOf(s)}
				}
			}
		}
	}
	d, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(d, '\n'), 0o644)
}

// renamed pairs the names of a fingerprint that are gone with the new names of the same type, in order.
func renamed(base, cur [][2]string, name string) string {
	has := func(l [][2]string, n string) bool {
		for _, e := range l {
			if e[0] == n {
				return true
			}
		}
		return false
	}
	t := ""
	for _, e := range base {
		if e[0] == name {
			t = e[1]
			break
		}
	}
	if t == "" || has(cur, name) {
		return ""
	}
	bare := func(t string) string {
		if i := strings.IndexByte(t, '#'); i >= 0 {
			return t[:i]
		}
		return t
	}
	uniq := func(l, other [][2]string, same func(string) bool) []string {
		var out []string
		seen := map[string]bool{}
		for _, e := range l {
			if same(e[1]) && !seen[e[0]] && !has(other, e[0]) {
				seen[e[0]] = true
				out = append(out, e[0])
			}
		}
		return out
	}
	for _, same := range []func(string) bool{func(u string) bool { return u == t }, func(u string) bool { return bare(u) == bare(t) }} {
		gone, added := uniq(base, cur, same), uniq(cur, base, same)
		for i, n := range gone {
			if n == name && i < len(added) {
				return added[i]
			}
		}
	}
	return ""
}

// newHelper: a function that the fingerprint does not have.
func newHelper(f *ssa.Function, con *Contract) bool {
	return prints != nil && con == nil && f.Synthetic == "" && prints[funcKey(f)] == nil
}

// conOf is the contract whose loop numbers, hints and ghost assignments apply in a frame.
func (fr *Frame) conOf() *Contract {
	if fr.con == nil && fr.host != nil {
		return fr.host.con
	}
	return fr.con
}

// virtual numbers the loops of fn and of the new helpers it calls in the order they occur. It returns the number of
// loops before the instruction at (that many helpers' loops included), or before the header of l, or all of them.
func (x *Exec) virtual(fn *ssa.Function, at ssa.Instruction, hdr *ssa.BasicBlock, depth int) int {
	fi := infoOf(fn)
	type ev struct {
		pos token.Pos
		n   int
	}
	var evs []ev
	limit := token.Pos(1 << 40)
	for _, l := range fi.loops {
		if l.Node == nil {
			// no syntax: no helpers are looked for
			n := 0
			for _, o := range fi.loops {
				if o.Header == hdr {
					return n
				}
				n++
			}
			return n
		}
		if l.Header == hdr {
			limit = l.Node.Pos()
		}
		evs = append(evs, ev{l.Node.Pos(), 1})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if in == at {
				limit = c.Pos()
			}
			if depth >= 5 {
				continue
			}
			if f := c.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && f.Pkg != nil && x.P.InRep[f.Pkg.Pkg] && newHelper(f, x.S.Contracts[funcKey(f)]) {
				evs = append(evs, ev{c.Pos(), x.virtual(f, nil, nil, depth+1)})
			}
		}
	}
	n := 0
	for _, e := range evs {
		if e.pos < limit {
			n += e.n
		}
	}
	return n
}

// ord is the number of a loop for the contract that applies.
func (x *Exec) ord(fr *Frame, l *Loop) int {
	if prints == nil {
		return l.Ord
	}
	if fr.con == nil && fr.host == nil {
		return l.Ord
	}
	return fr.loopBase + x.virtual(fr.fn, nil, l.Header, 0) + 1
}

// counterOf: the variable that counts the iterations of a loop that is not a range loop.
func counterOf(l *Loop) *ssa.Alloc {
	f, ok := l.Node.(*ast.ForStmt)
	if !ok {
		return nil
	}
	var best *ssa.Alloc
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := s.Addr.(*ssa.Alloc)
			if !ok || a.Comment == "rangeindex" {
				continue
			}
			p, ok := s.Val.(*ssa.BinOp)
			if !ok || p.Op != token.ADD {
				continue
			}
			c, ok := p.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int || c.Int64() != 1 {
				continue
			}
			u, ok := p.X.(*ssa.UnOp)
			if !ok || u.X != ssa.Value(a) {
				continue
			}
			// the one of the for statement's own clauses comes first
			own := func(a *ssa.Alloc) bool { return a.Pos() >= f.Pos() && a.Pos() < f.Body.Pos() }
			if best == nil || own(a) && !own(best) || own(a) == own(best) && a.Pos() < best.Pos() {
				best = a
			}
		}
	}
	return best
}

// enclosing lists l and the loops around it, innermost first.
func enclosing(fi *FnInfo, l *Loop) []*Loop {
	var ls []*Loop
	for _, o := range fi.loops {
		if o.Blocks[l.Header] {
			ls = append(ls, o)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].Blocks) < len(ls[j].Blocks) })
	return ls
}

// tolerant resolves a name that the function does not have.
func (x *Exec) tolerant(fr *Frame, l *Loop, name string, st *State) (SV, bool) {
	if prints == nil {
		return SV{}, false
	}
	bare := name
	if len(bare) > 1 && bare[0] == '$' {
		bare = bare[1:]
	}
	if bare == "rangeindex" && l != nil {
		for _, el := range enclosing(fr.fi, l) {
			if a := counterOf(el); a != nil {
				if v, ok := x.readAlloc(fr, st, a); ok && len(v.L) == 1 && v.L[0].Sort == SInt {
					return SV{T: types.Typ[types.Int], L: []*Term{Sub(v.L[0], I(1))}}, true
				}
			}
		}
	}
	key := fr.key
	if fr.host != nil {
		key = fr.host.key
	}
	p := prints[key]
	if p == nil {
		return SV{}, false
	}
	cur := printOf(fr.fn)
	if fr.host != nil {
		// parameters and locals of a new helper may stand for locals of its caller
		for _, e := range printOf(fr.host.fn).Locals {
			if liveAt(fr.host, e[0], fr.callIn) {
				cur.Locals = append(cur.Locals, e)
			}
		}
	}
	if n := renamed(p.Locals, cur.Locals, bare); n != "" {
		if v, ok := x.frameLookup1(fr, l, n, st); ok {
			return v, true
		}
		if fr.host != nil {
			return x.frameLookup1(fr.host, nil, n, st)
		}
	}
	if n := renamed(p.Free, cur.Free, bare); n != "" {
		return x.frameLookup1(fr, l, n, st)
	}
	// the counter of a counting loop that has become a range loop
	if l != nil {
		for _, e := range p.Locals {
			if e[0] == bare && (e[1] == "int" || e[1] == "uint") && loopIsRange(l) {
				return x.rangePlus1(fr, l, st)
			}
		}
	}
	return SV{}, false
}

func (x *Exec) rangePlus1(fr *Frame, l *Loop, st *State) (SV, bool) {
	c, _ := rangeIndexOf(fr, l)
	if c == nil {
		return SV{}, false
	}
	v, ok := st.cells[c]
	if !ok || len(v.L) != 1 {
		return SV{}, false
	}
	return SV{T: types.Typ[types.Int], L: []*Term{Add(v.L[0], I(1))}}, true
}

// perIteration: a variable declared in the body of the range loop l that holds the index of the iteration.
func perIteration(a *ssa.Alloc, l *Loop) bool {
	if !loopIsRange(l) || a.Referrers() == nil {
		return false
	}
	n, ix := 0, false
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			n++
			if !l.Blocks[s.Block()] || s.Block() == l.Header {
				return false
			}
			if u, ok := s.Val.(*ssa.UnOp); ok {
				if b, ok := u.X.(*ssa.Alloc); ok && b.Comment == "rangeindex" {
					ix = true
				}
			}
			if b, ok := s.Val.(*ssa.BinOp); ok && b.Op == token.ADD {
				ix = ix || loopHas(l.Header, b)
			}
		}
	}
	return n == 1 && ix
}

func loopHas(b *ssa.BasicBlock, v ssa.Value) bool {
	for _, in := range b.Instrs {
		if w, ok := in.(ssa.Value); ok && w == v {
			return true
		}
	}
	return false
}

// wasRange: the loop with this number was a range loop in the code the contracts were written for.
func wasRange(key string, ord int) (was, known bool) {
	p := prints[key]
	if p == nil || ord > len(p.Range) {
		return false, false
	}
	return p.Range[ord-1], true
}

// liveAt: a local of that name has a value at the call in (parameters and captured variables always have).
func liveAt(fr *Frame, name string, in ssa.Instruction) bool {
	if len(name) > 1 && name[0] == '$' {
		name = name[1:]
	}
	as := fr.fi.names[name]
	if len(as) == 0 || in == nil {
		return true
	}
	rs := fr.fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if rs.At(i).Name() == name {
			return true
		}
	}
	for _, a := range as {
		for _, r := range *a.Referrers() {
			s, ok := r.(*ssa.Store)
			if !ok {
				if _, ok := r.(*ssa.UnOp); !ok {
					return true // its address is used
				}
				continue
			}
			if s.Block() == in.Block() {
				for _, i := range s.Block().Instrs {
					if i == in {
						break
					}
					if i == ssa.Instruction(s) {
						return true
					}
				}
			} else if s.Block().Dominates(in.Block()) {
				return true
			}
		}
	}
	return false
}

// passedIn: a local of the host that was passed to the new helper as a parameter is that parameter.
func (x *Exec) passedIn(fr *Frame, name string, st *State) (SV, bool) {
	if fr.host == nil || fr.con != nil || fr.parent != fr.host {
		return SV{}, false
	}
	if len(name) > 1 && name[0] == '$' {
		name = name[1:]
	}
	c, ok := fr.callIn.(*ssa.Call)
	if !ok || c.Call.IsInvoke() {
		return SV{}, false
	}
	for i, a := range c.Call.Args {
		u, ok := a.(*ssa.UnOp)
		if !ok || i >= len(fr.fn.Params) {
			continue
		}
		if al, ok := u.X.(*ssa.Alloc); ok && u.Op == token.MUL && al.Comment == name {
			if sp := paramSpill(fr.fn, i); sp != nil {
				if v, ok := x.readAlloc(fr, st, sp); ok {
					return v, true
				}
			}
		}
	}
	return SV{}, false
}

// returnedTo: a local of the host that gets a result of the new helper is, inside the helper, what it returns.
func (x *Exec) returnedTo(fr *Frame, l *Loop, name string, st *State) (SV, bool) {
	if fr.host == nil || fr.con != nil || fr.parent != fr.host || l == nil {
		return SV{}, false
	}
	if len(name) > 1 && name[0] == '$' {
		name = name[1:]
	}
	c, ok := fr.callIn.(*ssa.Call)
	if !ok || c.Referrers() == nil {
		return SV{}, false
	}
	storedTo := func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Val == v {
				if a, ok := s.Addr.(*ssa.Alloc); ok && a.Comment == name {
					return true
				}
			}
		}
		return false
	}
	k := -1
	if fr.fn.Signature.Results().Len() == 1 {
		if storedTo(c) {
			k = 0
		}
	} else {
		for _, r := range *c.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && storedTo(e) {
				k = e.Index
			}
		}
	}
	if k < 0 {
		return SV{}, false
	}
	var al *ssa.Alloc
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || k >= len(r.Results) {
				continue
			}
			if a := loadedFrom(r.Results[k]); a != nil && a.Block().Dominates(l.Header) {
				al = a
				// an unnamed result variable: what the return statement put there
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(a) && strings.Contains(a.Comment, ".") || ok && s.Addr == ssa.Value(a) && a.Comment == "" {
						if o := loadedFrom(s.Val); o != nil && o.Block().Dominates(l.Header) {
							al = o
						}
					}
				}
			}
		}
	}
	if al == nil {
		return SV{}, false
	}
	return x.readAlloc(fr, st, al)
}

func loadedFrom(v ssa.Value) *ssa.Alloc {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a, ok := u.X.(*ssa.Alloc); ok {
			return a
		}
	}
	return nil
}
