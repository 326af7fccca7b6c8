package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Term struct {
	id    int
	Op    string // operator, symbol name, or literal
	Kind  byte   // 'i' int literal, 'b' bool literal, 's' symbol, 'a' application, 'q' quantifier, 'v' bound var
	Args  []*Term
	Sort  string
	Int   *big.Int
	Vars  []*Term   // for quantifiers
	Trigs [][]*Term // for quantifiers
	bound bool      // contains bound variables (free in it)
}

var termTab = map[string]*Term{}
var termCount int

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(t.Kind)
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if t.Kind == 'q' {
		sb.WriteByte(';')
		for _, v := range t.Vars {
			fmt.Fprintf(&sb, "v%d", v.id)
		}
		for _, tr := range t.Trigs {
			sb.WriteByte('/')
			for _, x := range tr {
				fmt.Fprintf(&sb, "t%d", x.id)
			}
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCount++
	t.id = termCount
	for _, a := range t.Args {
		if a.bound {
			t.bound = true
		}
	}
	if t.Kind == 'v' {
		t.bound = true
	}
	termTab[k] = t
	return t
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SRef  = "Ref"
	SAny  = "Any"
	SSeq  = "Sq"
)

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func arrParts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not array sort: " + s)
	}
	in := s[7 : len(s)-1]
	// split first sort
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func I(n int64) *Term       { return BigI(big.NewInt(n)) }
func BigI(n *big.Int) *Term { return intern(&Term{Kind: 'i', Op: n.String(), Sort: SInt, Int: n}) }
func B(b bool) *Term {
	if b {
		return True
	}
	return False
}

var True = intern(&Term{Kind: 'b', Op: "true", Sort: SBool})
var False = intern(&Term{Kind: 'b', Op: "false", Sort: SBool})

func Sym(name, srt string) *Term { return intern(&Term{Kind: 's', Op: name, Sort: srt}) }
func BVar(name, srt string) *Term {
	return intern(&Term{Kind: 'v', Op: name, Sort: srt})
}

var freshN int
var symOrder = map[string]int{}

func FreshName(p string) string {
	freshN++
	p = sanitize(p)
	if p == "" || p[0] == '.' {
		p = "v" + p
	}
	return fmt.Sprintf("%s!%d", p, freshN)
}
func Fresh(p, srt string) *Term { return Sym(FreshName(p), srt) }

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '$' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func App(op, srt string, args ...*Term) *Term {
	return intern(&Term{Kind: 'a', Op: op, Sort: srt, Args: args})
}

func (t *Term) isInt() bool { return t.Kind == 'i' }

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.Kind == 'a' && a.Op == "not" {
		return a.Args[0]
	}
	return App("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False {
			return false
		}
		if a.Kind == 'a' && a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	for _, a := range out {
		if a.Kind == 'a' && a.Op == "not" && seen[a.Args[0]] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == True {
			return True
		}
		if a == False || seen[a] {
			continue
		}
		if a.Kind == 'a' && a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.Kind == 'a' && a.Op == "not" && seen[a.Args[0]] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	// factor (and p c) or (and p (not c)) -> p
	if len(out) == 2 {
		if r := factorOr(out[0], out[1]); r != nil {
			return r
		}
	}
	return App("or", SBool, out...)
}

func conj(a *Term) []*Term {
	if a.Kind == 'a' && a.Op == "and" {
		return a.Args
	}
	return []*Term{a}
}

func factorOr(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	var common, ra []*Term
	inC := map[*Term]bool{}
	for _, x := range ca {
		if inB[x] {
			common = append(common, x)
			inC[x] = true
		} else {
			ra = append(ra, x)
		}
	}
	var rb []*Term
	for _, x := range cb {
		if !inC[x] {
			rb = append(rb, x)
		}
	}
	if len(common) == 0 {
		return nil
	}
	if len(ra) == 0 || len(rb) == 0 {
		return And(common...)
	}
	if len(ra) == 1 && len(rb) == 1 && Not(ra[0]) == rb[0] {
		return And(common...)
	}
	return And(append(common, Or(And(ra...), And(rb...)))...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return App("=>", SBool, a, b)
}
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if a.isInt() && b.isInt() {
		return B(a.Int.Cmp(b.Int) == 0)
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.Sort == SRef {
		if x, y, ok := refDistinct(a, b); ok && x != y {
			return False
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}

// refDistinct: syntactic disequality of constructor applications
func refDistinct(a, b *Term) (int, int, bool) {
	if a.Kind == 'a' && b.Kind == 'a' {
		ca, cb := refCons[a.Op], refCons[b.Op]
		if ca != 0 && cb != 0 && ca != cb {
			return ca, cb, true
		}
	}
	return 0, 0, false
}

var refCons = map[string]int{"rbase": 1, "rfld": 2, "relm": 3}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Ite sort mismatch %s:%s %s:%s", a, a.Sort, b, b.Sort))
	}
	return App("ite", a.Sort, c, a, b)
}

// linear normalisation helper: split t into (non-const, const)
func splitConst(t *Term) (*Term, *big.Int) {
	if t.isInt() {
		return nil, t.Int
	}
	if t.Kind == 'a' && t.Op == "+" {
		last := t.Args[len(t.Args)-1]
		if last.isInt() {
			if len(t.Args) == 2 {
				return t.Args[0], last.Int
			}
			return App("+", SInt, t.Args[:len(t.Args)-1]...), last.Int
		}
	}
	return t, big.NewInt(0)
}

type linear struct {
	c *big.Int
	m map[*Term]*big.Int
}

func linOf(t *Term, k *big.Int, l *linear) {
	switch {
	case t.isInt():
		l.c.Add(l.c, new(big.Int).Mul(k, t.Int))
	case t.Kind == 'a' && t.Op == "+":
		for _, a := range t.Args {
			linOf(a, k, l)
		}
	case t.Kind == 'a' && t.Op == "-" && len(t.Args) == 1:
		linOf(t.Args[0], new(big.Int).Neg(k), l)
	case t.Kind == 'a' && t.Op == "*" && len(t.Args) == 2 && t.Args[0].isInt():
		linOf(t.Args[1], new(big.Int).Mul(k, t.Args[0].Int), l)
	default:
		if o, ok := l.m[t]; ok {
			o.Add(o, k)
		} else {
			l.m[t] = new(big.Int).Set(k)
		}
	}
}

func (l *linear) term() *Term {
	var ts []*Term
	for t, k := range l.m {
		if k.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		k := l.m[t]
		if k.IsInt64() && k.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, App("*", SInt, BigI(k), t))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, BigI(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("+", SInt, out...)
}

func newLin() *linear { return &linear{c: new(big.Int), m: map[*Term]*big.Int{}} }

func Add(a, b *Term) *Term {
	l := newLin()
	linOf(a, big.NewInt(1), l)
	linOf(b, big.NewInt(1), l)
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	linOf(a, big.NewInt(1), l)
	linOf(b, big.NewInt(-1), l)
	return l.term()
}
func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := newLin()
		linOf(b, a.Int, l)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("mul", SInt, a, b)
}
func Div(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.Int.Sign() > 0 {
		return BigI(new(big.Int).Div(a.Int, b.Int))
	}
	if b.isInt() && b.Int.IsInt64() && b.Int.Int64() == 1 {
		return a
	}
	return App("div", SInt, a, b)
}
func Mod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.Int.Sign() > 0 {
		return BigI(new(big.Int).Mod(a.Int, b.Int))
	}
	return App("mod", SInt, a, b)
}
func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	d := Sub(a, b)
	if d.isInt() {
		return B(d.Int.Sign() <= 0)
	}
	return App("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	d := Sub(a, b)
	if d.isInt() {
		return B(d.Int.Sign() < 0)
	}
	return App("<", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Select(a, i *Term) *Term {
	k, v := arrParts(a.Sort)
	if i.Sort != k {
		panic(fmt.Sprintf("Select index sort %s, want %s in %s", i.Sort, k, a))
	}
	cur := a
	for cur.Kind == 'a' && cur.Op == "store" {
		e := Eq(cur.Args[1], i)
		if e == True {
			return cur.Args[2]
		}
		if e == False {
			cur = cur.Args[0]
			continue
		}
		break
	}
	if cur.Kind == 'a' && cur.Op == "constarr" {
		return cur.Args[0]
	}
	return App("select", v, cur, i)
}
func Store(a, i, v *Term) *Term {
	k, vs := arrParts(a.Sort)
	if i.Sort != k || v.Sort != vs {
		panic(fmt.Sprintf("Store sorts: %s[%s] := %s", a.Sort, i.Sort, v.Sort))
	}
	if a.Kind == 'a' && a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return App("store", a.Sort, a, i, v)
}
func ConstArr(srt string, v *Term) *Term { return App("constarr", srt, v) }

func Quant(q string, vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	vars, trigs, body = normTrigs(vars, trigs, body)
	t := &Term{Kind: 'q', Op: q, Sort: SBool, Args: []*Term{body}, Vars: vars, Trigs: trigs}
	r := intern(t)
	r.bound = hasFreeBound(r, map[*Term]bool{})
	return r
}

func hasFreeBound(t *Term, env map[*Term]bool) bool {
	if t.Kind == 'v' {
		return !env[t]
	}
	if t.Kind != 'q' && !t.bound {
		return false
	}
	if t.Kind == 'q' {
		e2 := map[*Term]bool{}
		for k := range env {
			e2[k] = true
		}
		for _, v := range t.Vars {
			e2[v] = true
		}
		env = e2
	}
	for _, a := range t.Args {
		if hasFreeBound(a, env) {
			return true
		}
	}
	return false
}

func Forall(vars []*Term, trigs [][]*Term, body *Term) *Term {
	return Quant("forall", vars, trigs, body)
}
func Exists(vars []*Term, trigs [][]*Term, body *Term) *Term {
	return Quant("exists", vars, trigs, body)
}

// Subst replaces symbols/bound vars.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}

func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 && t.Kind != 'q' {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if t.Kind == 'q' {
		trigs := make([][]*Term, len(t.Trigs))
		for i, tr := range t.Trigs {
			trigs[i] = make([]*Term, len(tr))
			for j, x := range tr {
				trigs[i][j] = subst(x, m, memo)
				if trigs[i][j] != x {
					ch = true
				}
			}
		}
		if ch {
			r = Quant(t.Op, t.Vars, trigs, args[0])
		}
	} else if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

// Marks: mark(t) is true. In a goal it is a term (blk(t)) that triggers quantifiers; where a fact is assumed it is left out.
var marksUsed bool

func remark(t *Term, goal bool) *Term {
	if !marksUsed {
		return t
	}
	return remark1(t, goal, map[*Term]*Term{})
}

func remark1(t *Term, goal bool, memo map[*Term]*Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	if t.Kind == 'a' && t.Op == "mark" {
		if goal {
			return App("fun.blk", SBool, t.Args...)
		}
		return True
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = remark1(a, goal, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch && t.Kind == 'q' {
		r = Quant(t.Op, t.Vars, t.Trigs, args[0])
	} else if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "*", "mul":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "div":
		return Div(args[0], args[1])
	case "mod":
		return Mod(args[0], args[1])
	}
	return App(t.Op, t.Sort, args...)
}

// ---- printing ----

func (t *Term) String() string {
	var sb strings.Builder
	pr(&sb, t, nil)
	return sb.String()
}

func quoteSym(s string) string {
	return "|" + s + "|"
}

func pr(sb *strings.Builder, t *Term, let map[*Term]string) {
	if let != nil {
		if n, ok := let[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.Kind {
	case 'i':
		if t.Int.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.Int).String())
		} else {
			sb.WriteString(t.Op)
		}
	case 'b':
		sb.WriteString(t.Op)
	case 's', 'v':
		sb.WriteString(quoteSym(t.Op))
	case 'q':
		fmt.Fprintf(sb, "(%s (", t.Op)
		for _, v := range t.Vars {
			fmt.Fprintf(sb, "(%s %s)", quoteSym(v.Op), v.Sort)
		}
		sb.WriteString(") ")
		if len(t.Trigs) > 0 {
			sb.WriteString("(! ")
		}
		pr(sb, t.Args[0], let)
		if len(t.Trigs) > 0 {
			for _, tr := range t.Trigs {
				sb.WriteString(" :pattern (")
				for i, x := range tr {
					if i > 0 {
						sb.WriteByte(' ')
					}
					pr(sb, x, let)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	case 'a':
		if t.Op == "constarr" {
			fmt.Fprintf(sb, "((as const %s) ", t.Sort)
			pr(sb, t.Args[0], let)
			sb.WriteString(")")
			return
		}
		if len(t.Args) == 0 {
			sb.WriteString(t.Op)
			return
		}
		sb.WriteByte('(')
		if builtinOps[t.Op] {
			sb.WriteString(t.Op)
		} else {
			sb.WriteString(quoteSym(t.Op))
		}
		for _, a := range t.Args {
			sb.WriteByte(' ')
			pr(sb, a, let)
		}
		sb.WriteByte(')')
	}
}

var builtinOps = map[string]bool{"not": true, "and": true, "or": true, "=>": true, "=": true, "ite": true, "+": true, "-": true, "*": true, "<=": true, "<": true, "select": true, "store": true, "div": true, "mod": true, "distinct": true}

// collectSyms gathers free symbols and application operators.
func collectSyms(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		collectSyms(a, seen, f)
	}
	for _, tr := range t.Trigs {
		for _, x := range tr {
			collectSyms(x, seen, f)
		}
	}
}

// normTrigs rewrites quantified integer variables so that trigger terms index with the plain variable
// (forall i {a[i+d]} P(i)  becomes  forall j {a[j]} P(j-d)), and drops trigger alternatives that are no patterns.
func normTrigs(vars []*Term, trigs [][]*Term, body *Term) ([]*Term, [][]*Term, *Term) {
	if len(trigs) == 0 {
		return vars, trigs, body
	}
	isVar := map[*Term]bool{}
	for _, v := range vars {
		isVar[v] = true
	}
	for vi, v := range vars {
		if v.Sort != SInt {
			continue
		}
		plain := false
		var disp *Term
		var look func(t *Term, top bool)
		look = func(t *Term, top bool) {
			for _, a := range t.Args {
				if a == v {
					plain = true
				}
				if a.Kind == 'a' && a.Op == "+" && a.Sort == SInt {
					l := newLin()
					linOf(a, big.NewInt(1), l)
					if k, ok := l.m[v]; ok && k.IsInt64() && k.Int64() == 1 {
						delete(l.m, v)
						d := l.term()
						if !containsAny(d, isVar) && disp == nil {
							disp = d
						}
					}
				}
				look(a, false)
			}
		}
		for _, tr := range trigs {
			for _, t := range tr {
				look(t, true)
			}
		}
		if disp == nil || plain {
			continue
		}
		nv := BVar(v.Op+"'", SInt)
		for isVar[nv] {
			nv = BVar(nv.Op+"'", SInt)
		}
		m := map[*Term]*Term{v: Sub(nv, disp)}
		nvars := append([]*Term(nil), vars...)
		nvars[vi] = nv
		vars = nvars
		delete(isVar, v)
		isVar[nv] = true
		nt := make([][]*Term, len(trigs))
		for i, tr := range trigs {
			for _, t := range tr {
				nt[i] = append(nt[i], Subst(t, m))
			}
		}
		trigs = nt
		body = Subst(body, m)
	}
	var out [][]*Term
	for _, tr := range trigs {
		ok := true
		cov := map[*Term]bool{}
		for _, t := range tr {
			if t.Kind != 'a' || t.Op == "ite" || t.Op == "+" || t.Op == "*" || t.Op == "=" || t.Op == "and" || t.Op == "or" || t.Op == "not" || t.Op == "<=" || t.Op == "<" {
				ok = false
				break
			}
			var vis func(t *Term)
			vis = func(t *Term) {
				if isVar[t] {
					cov[t] = true
				}
				for _, a := range t.Args {
					vis(a)
				}
			}
			vis(t)
		}
		if ok && len(cov) == len(vars) {
			out = append(out, tr)
		}
	}
	return vars, out, body
}

func containsAny(t *Term, set map[*Term]bool) bool {
	if set[t] {
		return true
	}
	for _, a := range t.Args {
		if containsAny(a, set) {
			return true
		}
	}
	return false
}
