package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- SMT emission ----

type emitter struct {
	sb    strings.Builder
	x     *Exec
	decl  map[string]bool
	sorts map[string]bool
	lets  map[*Term]string
	nlet  int
}

// compiled axioms (evaluated once per program)
type axiomT struct {
	name string
	t    *Term
	need []string // symbols that must occur for the axiom to be included
	kind string
	decl *AxiomDecl
}

var compiledAxioms []axiomT
var axiomsDone bool
var axiomMu sync.Mutex

func compileAxioms(P *Prog, S *Specs) {
	if axiomsDone {
		return
	}
	axiomsDone = true
	for _, a := range S.Axioms {
		x := newExec(P, S, "axiom "+a.Name, &Contract{Key: a.Name, Pkg: a.Pkg, Opts: map[string]string{}})
		c := &SpecCtx{x: x, st: nil, vars: map[string]SV{}, pkg: a.Pkg, bound: 1}
		t := c.boolExpr(a.E)
		compiledAxioms = append(compiledAxioms, axiomT{name: a.Name, t: t, need: axiomNeed(t), kind: a.Kind, decl: a})
	}
}

// axiomNeed: the uninterpreted functions in the trigger (or body).
func axiomNeed(t *Term) []string {
	m := map[string]bool{}
	var from *Term = t
	add := func(u *Term) {
		collectSyms(u, map[*Term]bool{}, func(s *Term) {
			if (s.Kind == 'a' || s.Kind == 's') && (strings.HasPrefix(s.Op, "fun.") || strings.HasPrefix(s.Op, "opq.") || s.Op == "mul") {
				m[s.Op] = true
			}
		})
	}
	if from.Kind == 'q' && len(from.Trigs) > 0 {
		for _, u := range from.Trigs[0] {
			add(u)
		}
	}
	if len(m) == 0 {
		for _, a := range t.Args {
			add(a)
		}
		if len(t.Args) == 0 {
			add(t)
		}
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (e *emitter) declSort(s string) {
	if strings.HasPrefix(s, "(Array ") {
		k, v := arrParts(s)
		e.declSort(k)
		e.declSort(v)
		return
	}
	switch s {
	case SInt, SBool, "Real", SRef, SAny, SSeq:
		return
	}
	if !e.sorts[s] {
		e.sorts[s] = true
		fmt.Fprintf(&e.sb, "(declare-sort %s 0)\n", s)
	}
}

type fsig struct {
	args []string
	ret  string
}

// query renders a validity query: facts => goal.
// Lemmas about built-in operations only (sequences, products) are included where the contract asks for them.
func renderQuery(P *Prog, S *Specs, facts []*Term, goal *Term, optLemmas string, omit map[string]bool) string {
	all := append(append([]*Term(nil), facts...), goal)
	seen := map[*Term]bool{}
	funs := map[string]fsig{}
	var order []string
	refs := map[*Term]int{}
	visit := func(s *Term) {
		switch s.Kind {
		case 's':
			if _, ok := funs[s.Op]; !ok {
				funs[s.Op] = fsig{nil, s.Sort}
				order = append(order, s.Op)
			}
		case 'a':
			if !builtinOps[s.Op] && s.Op != "constarr" && s.Op != "0.0" {
				if _, ok := funs[s.Op]; !ok {
					var as []string
					for _, a := range s.Args {
						as = append(as, a.Sort)
					}
					funs[s.Op] = fsig{as, s.Sort}
					order = append(order, s.Op)
				}
			}
		}
	}
	for _, t := range all {
		collectSyms(t, seen, visit)
	}
	// relevant axioms
	var axs []axiomT
	used := map[string]bool{}
	for {
		ch := false
		for _, a := range compiledAxioms {
			if used[a.name] || omit[a.name] {
				continue
			}
			ok := len(a.need) > 0 || optLemmas == "*" && a.kind == "lemma" || strings.Contains(" "+optLemmas+" ", " "+a.name+" ")
			for _, n := range a.need {
				if _, h := funs[n]; !h {
					ok = false
				}
			}
			if ok {
				used[a.name] = true
				axs = append(axs, a)
				collectSyms(a.t, seen, visit)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	for _, a := range axs {
		all = append(all, a.t)
	}
	var strs []*Term
	for _, n := range order {
		if t := Sym(n, funs[n].ret); len(funs[n].args) == 0 {
			if _, ok := strConsts[t]; ok {
				strs = append(strs, t)
			}
		}
	}

	var sb strings.Builder
	sb.WriteString("(declare-sort Ref 0)\n(declare-sort Any 0)\n(declare-sort Sq 0)\n")
	base := []struct {
		n string
		s fsig
	}{
		{"rbase", fsig{[]string{SInt}, SRef}}, {"rfld", fsig{[]string{SRef, SInt}, SRef}}, {"rb.id", fsig{[]string{SRef}, SInt}}, {"rf.of", fsig{[]string{SRef}, SRef}}, {"rf.k", fsig{[]string{SRef}, SInt}}, {"rkind", fsig{[]string{SRef}, SInt}},
		{"rootid", fsig{[]string{SRef}, SInt}},
		{"anytag", fsig{[]string{SAny}, SInt}}, {"anil", fsig{nil, SAny}}, {"aerr", fsig{[]string{SInt}, SAny}}, {"aerr.id", fsig{[]string{SAny}, SInt}}, {"aref", fsig{[]string{SAny}, SRef}},
		{"slen", fsig{[]string{SSeq}, SInt}}, {"sat", fsig{[]string{SSeq, SInt}, SInt}},
		{"sempty", fsig{nil, SSeq}},
	}
	sorts := map[string]bool{}
	var declSort func(s string)
	declSort = func(s string) {
		if strings.HasPrefix(s, "(Array ") {
			k, v := arrParts(s)
			declSort(k)
			declSort(v)
			return
		}
		switch s {
		case SInt, SBool, "Real", SRef, SAny, SSeq:
			return
		}
		if !sorts[s] {
			sorts[s] = true
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
		}
	}
	need := func(op string) bool { _, ok := funs[op]; return ok }
	add := func(n string, s fsig) {
		if _, ok := funs[n]; !ok {
			funs[n] = s
			order = append(order, n)
		}
	}
	for _, b := range base {
		add(b.n, b.s)
	}
	if need("sEq") {
		add("sdiff", fsig{[]string{SSeq, SSeq}, SInt})
	}
	// box selectors
	var boxes []string
	for _, n := range append([]string(nil), order...) {
		if strings.HasPrefix(n, "box.") {
			boxes = append(boxes, n)
		}
		if strings.HasPrefix(n, "is:") {
			b := n[3:]
			if !need(b) {
				var as []string
				for _, l := range leavesOf(boxTypes[b]) {
					as = append(as, l.Sort)
				}
				add(b, fsig{as, SAny})
				boxes = append(boxes, b)
			}
		}
		if strings.HasPrefix(n, "un:") {
			b := n[3:strings.LastIndex(n, ":")]
			if !need(b) {
				var as []string
				for _, l := range leavesOf(boxTypes[b]) {
					as = append(as, l.Sort)
				}
				add(b, fsig{as, SAny})
				boxes = append(boxes, b)
			}
		}
	}
	seenB := map[string]bool{}
	for _, b := range boxes {
		if seenB[b] {
			continue
		}
		seenB[b] = true
		t := boxTypes[b]
		for i, l := range leavesOf(t) {
			add("un:"+b+":"+strconv.Itoa(i), fsig{[]string{SAny}, l.Sort})
		}
		add("is:"+b, fsig{[]string{SAny}, SBool})
	}
	for _, n := range order {
		s := funs[n]
		for _, a := range s.args {
			declSort(a)
		}
		declSort(s.ret)
		if n == "anil" || n == "sempty" {
			fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(s.args, " "), s.ret)
			continue
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", quoteSym(n), strings.Join(s.args, " "), s.ret)
	}
	// references
	sb.WriteString("(assert (forall ((i Int)) (! (and (= (rb.id (rbase i)) i) (= (rkind (rbase i)) 0) (= (rootid (rbase i)) i)) :pattern ((rbase i)))))\n")
	if need("rfld") {
		sb.WriteString("(assert (forall ((r Ref) (k Int)) (! (and (= (rf.of (rfld r k)) r) (= (rf.k (rfld r k)) k) (= (rkind (rfld r k)) 1) (= (rootid (rfld r k)) (rootid r))) :pattern ((rfld r k)))))\n")
	}
	// anys
	sb.WriteString("(assert (and (= (anytag anil) 0) (= (aref anil) (rbase 0))))\n(assert (forall ((i Int)) (! (and (= (anytag (aerr i)) 1) (= (aerr.id (aerr i)) i) (= (aref (aerr i)) (rbase 0))) :pattern ((aerr i)))))\n")
	var bl []string
	for b := range seenB {
		bl = append(bl, b)
	}
	sort.Strings(bl)
	for _, b := range bl {
		t := boxTypes[b]
		ls := leavesOf(t)
		var vs, ns, us []string
		for i, l := range ls {
			vs = append(vs, fmt.Sprintf("(v%d %s)", i, l.Sort))
			ns = append(ns, fmt.Sprintf("v%d", i))
			us = append(us, fmt.Sprintf("(%s a)", quoteSym(fmt.Sprintf("un:%s:%d", b, i))))
		}
		tag := 10 + funcId(b)
		bx := "(" + quoteSym(b) + " " + strings.Join(ns, " ") + ")"
		if len(ls) == 0 {
			bx = quoteSym(b)
		}
		var cs []string
		cs = append(cs, fmt.Sprintf("(= (anytag %s) %d)", bx, tag))
		for i := range ls {
			cs = append(cs, fmt.Sprintf("(= (%s %s) v%d)", quoteSym(fmt.Sprintf("un:%s:%d", b, i)), bx, i))
		}
		if len(ls) == 1 && ls[0].Sort == SRef {
			cs = append(cs, fmt.Sprintf("(= (aref %s) v0)", bx))
		}
		if len(ls) == 0 {
			fmt.Fprintf(&sb, "(assert (and %s true))\n", strings.Join(cs, " "))
		} else {
			fmt.Fprintf(&sb, "(assert (forall (%s) (! (and %s true) :pattern (%s))))\n", strings.Join(vs, " "), strings.Join(cs, " "), bx)
		}
		un := "(" + quoteSym(b) + " " + strings.Join(us, " ") + ")"
		if len(ls) == 0 {
			un = quoteSym(b)
		}
		fmt.Fprintf(&sb, "(assert (forall ((a Any)) (! (and (= (%s a) (= (anytag a) %d)) (=> (%s a) (= a %s))) :pattern ((%s a)))))\n", quoteSym("is:"+b), tag, quoteSym("is:"+b), un, quoteSym("is:"+b))
	}
	for _, n := range order {
		if strings.HasPrefix(n, "impl:") {
			it := implTypes[n]
			fmt.Fprintf(&sb, "(assert (not (%s anil)))\n", quoteSym(n))
			for _, b := range bl {
				ls := leavesOf(boxTypes[b])
				if len(ls) == 0 {
					continue
				}
				v := "false"
				if types.Implements(boxTypes[b], it.Underlying().(*types.Interface)) {
					v = "true"
				}
				var vs, ns []string
				for i, l := range ls {
					vs = append(vs, fmt.Sprintf("(v%d %s)", i, l.Sort))
					ns = append(ns, fmt.Sprintf("v%d", i))
				}
				bx := "(" + quoteSym(b) + " " + strings.Join(ns, " ") + ")"
				fmt.Fprintf(&sb, "(assert (forall (%s) (! (= (%s %s) %s) :pattern (%s))))\n", strings.Join(vs, " "), quoteSym(n), bx, v, bx)
			}
		}
	}
	// at
	for _, n := range append([]string(nil), order...) {
		if strings.HasPrefix(n, "at.") {
			s := funs[n]
			fmt.Fprintf(&sb, "(assert (forall ((r %s) (o Int) (i Int)) (! (= (%s r o i) (select r (+ o i))) :pattern ((%s r o i)))))\n", s.args[0], quoteSym(n), quoteSym(n))
			fmt.Fprintf(&sb, "(assert (forall ((r %s) (j Int) (v %s) (o Int) (i Int)) (! (= (%s (store r j v) o i) (ite (= (+ o i) j) v (%s r o i))) :pattern ((%s (store r j v) o i)))))\n", s.args[0], s.ret, quoteSym(n), quoteSym(n), quoteSym(n))
		}
	}
	if need("mul") {
		sb.WriteString("(assert (forall ((a Int) (b Int)) (! (and (= (mul a b) (* a b)) (= (mul a b) (mul b a))) :pattern ((mul a b)))))\n")
	}
	// sequences
	sb.WriteString("(assert (forall ((s Sq)) (! (>= (slen s) 0) :pattern ((slen s)))))\n(assert (= (slen sempty) 0))\n(assert (forall ((s Sq)) (! (=> (= (slen s) 0) (= s sempty)) :pattern ((slen s)))))\n")
	if need("snoc") {
		sb.WriteString("(assert (forall ((s Sq) (v Int)) (! (= (slen (snoc s v)) (+ (slen s) 1)) :pattern ((snoc s v)))))\n")
		sb.WriteString("(assert (forall ((s Sq) (v Int) (i Int)) (! (= (sat (snoc s v) i) (ite (= i (slen s)) v (sat s i))) :pattern ((sat (snoc s v) i)))))\n")
	}
	if need("scat") {
		sb.WriteString("(assert (forall ((a Sq) (b Sq)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))\n")
		sb.WriteString("(assert (forall ((a Sq) (b Sq)) (! (and (=> (= (slen a) 0) (= (scat a b) b)) (=> (= (slen b) 0) (= (scat a b) a))) :pattern ((scat a b)))))\n")
		sb.WriteString("(assert (forall ((a Sq) (b Sq) (i Int)) (! (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a))))) :pattern ((sat (scat a b) i)))))\n")
	}
	if need("ssub") {
		sb.WriteString("(assert (forall ((s Sq) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s))) (= (slen (ssub s l h)) (- h l))) :pattern ((ssub s l h)))))\n")
		sb.WriteString("(assert (forall ((s Sq) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= 0 i) (<= h (slen s)) (< i (- h l))) (= (sat (ssub s l h) i) (sat s (+ l i)))) :pattern ((sat (ssub s l h) i)))))\n")
	}
	if need("ssub") {
		sb.WriteString("(assert (forall ((s Sq) (h Int)) (! (=> (= h (slen s)) (= (ssub s 0 h) s)) :pattern ((ssub s 0 h)))))\n")
	}
	if need("seqof") && need("ssub") {
		sb.WriteString("(assert (forall ((r (Array Int Int)) (o Int) (d Int) (n Int) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h n)) (= (ssub (seqof r o d n) l h) (seqof r o (+ d l) (- h l)))) :pattern ((ssub (seqof r o d n) l h)))))\n")
	}
	if need("seqof") {
		sb.WriteString("(assert (forall ((r (Array Int Int)) (o Int) (d Int) (n Int)) (! (=> (<= 0 n) (= (slen (seqof r o d n)) n)) :pattern ((seqof r o d n)))))\n")
		if !need("at.Int") {
			sb.WriteString("(declare-fun |at.Int| ((Array Int Int) Int Int) Int)\n(assert (forall ((r (Array Int Int)) (o Int) (i Int)) (! (= (|at.Int| r o i) (select r (+ o i))) :pattern ((|at.Int| r o i)))))\n")
		}
		sb.WriteString("(assert (forall ((r (Array Int Int)) (o Int) (d Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (seqof r o d n) i) (|at.Int| r o (+ d i)))) :pattern ((sat (seqof r o d n) i)))))\n")
	}
	if need("sEq") {
		sb.WriteString("(assert (forall ((a Sq) (b Sq)) (! (and (=> (sEq a b) (= a b)) (=> (not (sEq a b)) (or (not (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b)))))))) :pattern ((sEq a b)))))\n")
	}
	for _, t := range strs {
		s := strConsts[t]
		fmt.Fprintf(&sb, "(assert (= (slen %s) %d))\n", quoteSym(t.Op), len(s))
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&sb, "(assert (= (sat %s %d) %d))\n", quoteSym(t.Op), i, s[i])
		}
	}
	// sharing
	sizes := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		n := 1
		for _, a := range t.Args {
			count(a)
			n += sizes[a]
			if n > 1000000 {
				n = 1000000
			}
		}
		for _, tr := range t.Trigs {
			for _, u := range tr {
				count(u)
			}
		}
		sizes[t] = n
	}
	for _, t := range all {
		count(t)
	}
	lets := map[*Term]string{}
	nlet := 0
	var defs func(t *Term, done map[*Term]bool)
	defs = func(t *Term, done map[*Term]bool) {
		if done[t] {
			return
		}
		done[t] = true
		for _, a := range t.Args {
			defs(a, done)
		}
		for _, tr := range t.Trigs {
			for _, u := range tr {
				defs(u, done)
			}
		}
		if t.Kind != 'i' && t.Kind != 'b' && t.Kind != 's' && t.Kind != 'v' && !t.bound && refs[t] > 1 && sizes[t] > 8 && len(t.Args) > 0 {
			nm := fmt.Sprintf("$d%d", nlet)
			nlet++
			fmt.Fprintf(&sb, "(define-fun %s () %s ", nm, t.Sort)
			pr(&sb, t, lets)
			sb.WriteString(")\n")
			lets[t] = nm
		}
	}
	done := map[*Term]bool{}
	for _, a := range axs {
		defs(a.t, done)
		sb.WriteString("(assert ")
		pr(&sb, a.t, lets)
		sb.WriteString(") ; " + a.name + "\n")
	}
	for _, f := range facts {
		defs(f, done)
		sb.WriteString("(assert ")
		pr(&sb, f, lets)
		sb.WriteString(")\n")
	}
	defs(goal, done)
	sb.WriteString("(assert (not ")
	pr(&sb, goal, lets)
	sb.WriteString("))\n(check-sat)\n")
	return sb.String()
}

// ---- running solvers ----

type solverCfg struct {
	name string
	cmd  string
	args []string
	pre  string
}

var z3Pre = "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"

func solverByName(n string, secs float64) solverCfg {
	switch n {
	case "z3-new":
		return solverCfg{"z3 5.3.2", "z3-new", []string{fmt.Sprintf("-T:%d", int(secs+0.999)), "-memory:3000", "smt.solve_eqs=false"}, z3Pre}
	case "z3-new-eqs":
		return solverCfg{"z3 5.3.2 (solve_eqs)", "z3-new", []string{fmt.Sprintf("-T:%d", int(secs+0.999)), "-memory:3000"}, z3Pre}
	case "z3-new-s2":
		return solverCfg{"z3 5.3.2 (seed 7)", "z3-new", []string{fmt.Sprintf("-T:%d", int(secs+0.999)), "-memory:3000", "smt.solve_eqs=false", "smt.random_seed=7", "smt.arith.solver=2"}, z3Pre}
	case "z3-new-nl":
		return solverCfg{"z3 5.3.2 (light nla)", "z3-new", []string{fmt.Sprintf("-T:%d", int(secs+0.999)), "-memory:3000", "smt.arith.nl.grobner=false", "smt.arith.nl.horner=false"}, z3Pre}
	case "z3-new-auto":
		return solverCfg{"z3 5.3.2 (default)", "z3-new", []string{fmt.Sprintf("-T:%d", int(secs+0.999)), "-memory:3000"}, ""}
	case "z3":
		return solverCfg{"z3 4.8.12", "z3", []string{fmt.Sprintf("-T:%d", int(secs+0.999)), "-memory:3000"}, z3Pre}
	case "cvc5":
		return solverCfg{"cvc5 1.1.2", "cvc5", []string{fmt.Sprintf("--tlimit=%d", int(secs*1000)), "--lang=smt2"}, "(set-logic ALL)\n"}
	}
	panic(n)
}

func runSolver(ctx context.Context, file string, cfg solverCfg, query string, secs float64) string {
	q := cfg.pre + query
	if cfg.cmd == "cvc5" {
		q = cfg.pre + liftConstArrays(query)
	}
	if err := os.WriteFile(file, []byte(q), 0o644); err != nil {
		return "error " + err.Error()
	}
	defer os.Remove(file)
	c, cancel := context.WithTimeout(ctx, time.Duration((secs+2)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(c, cfg.cmd, append(cfg.args, file)...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := strings.TrimSpace(out.String())
	for strings.HasPrefix(s, "WARNING") && strings.Contains(s, "\n") {
		s = strings.TrimSpace(s[strings.IndexByte(s, '\n')+1:])
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		if strings.HasPrefix(s, "(error") || strings.Contains(s, "error") {
			return "error: " + s[:min(len(s), 600)]
		}
		s = s[:i]
	}
	if strings.HasPrefix(s, "(error") {
		return "error: " + s
	}
	if s == "" {
		return "timeout"
	}
	return s
}

// liftConstArrays replaces constant arrays of non-literal values, which cvc5 does not accept, by constants with a defining axiom.
func liftConstArrays(q string) string {
	if !strings.Contains(q, "((as const (Array ") {
		return q
	}
	// matching parenthesis of q[i]
	match := func(q string, i int) int {
		d, bar := 0, false
		for ; i < len(q); i++ {
			switch {
			case q[i] == '|':
				bar = !bar
			case bar:
			case q[i] == '(':
				d++
			case q[i] == ')':
				d--
				if d == 0 {
					return i
				}
			}
		}
		return -1
	}
	names := map[string]string{}
	var out []string
	for _, line := range strings.Split(q, "\n") {
		for from := 0; ; {
			k := strings.Index(line[from:], "((as const (Array ")
			if k < 0 {
				break
			}
			k += from
			e := match(line, k)
			if e < 0 {
				break
			}
			srt := line[k+len("((as const "):]
			srt = srt[:match(srt, 0)+1]
			val := strings.TrimSpace(line[k+len("((as const ")+len(srt)+1 : e])
			if val == "true" || val == "false" || val != "" && val[0] >= '0' && val[0] <= '9' || strings.HasPrefix(val, "((as const") && !strings.Contains(val, "rbase") {
				from = k + 5
				continue
			}
			full := line[k : e+1]
			n, ok := names[full]
			if !ok {
				n = fmt.Sprintf("carr!%d", len(names))
				names[full] = n
				idx := srt[len("(Array "):]
				if idx[0] == '(' {
					idx = idx[:match(idx, 0)+1]
				} else {
					idx = idx[:strings.IndexByte(idx, ' ')]
				}
				out = append(out, fmt.Sprintf("(declare-const %s %s)", n, srt), fmt.Sprintf("(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))", idx, n, val, n))
			}
			line = line[:k] + n + line[e+1:]
			from = k
		}
		out = append(out, line)
	}
	return strings.Join(out, "\n")
}

type Solver struct {
	P       *Prog
	S       *Specs
	Tmp     string
	Sem     chan struct{}
	T1, T2  float64
	KeepDir string
	wg      sync.WaitGroup
	nfail   atomic.Int32
	mu      sync.Mutex
	n       int
	Total   float64
}

func NewSolver(P *Prog, S *Specs, jobs int, t1, t2 float64) *Solver {
	d, err := os.MkdirTemp("", "govc")
	if err != nil {
		panic(err)
	}
	return &Solver{P: P, S: S, Tmp: d, Sem: make(chan struct{}, jobs), T1: t1, T2: t2}
}

func (s *Solver) file() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	return filepath.Join(s.Tmp, fmt.Sprintf("q%d.smt2", s.n))
}

// Start renders the open obligations and runs solvers on them in the background.
func (s *Solver) Start(obls []*Obl) { s.start(obls, &s.wg) }
func (s *Solver) Wait()             { s.wg.Wait() }

// Solve decides all open obligations.  Terms are rendered serially, solvers run in parallel.
func (s *Solver) Solve(obls []*Obl) {
	var wg sync.WaitGroup
	s.start(obls, &wg)
	wg.Wait()
}

func (s *Solver) start(obls []*Obl, wg *sync.WaitGroup) {
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		o := o
		q := renderQuery(s.P, s.S, o.facts(), o.Goal, o.optLemmas(), o.omits())
		if s.KeepDir != "" {
			os.WriteFile(filepath.Join(s.KeepDir, sanitize(o.Fn+"."+o.Name)+".smt2"), []byte(z3Pre+q), 0o644)
		}
		cases := o.cases()
		var parts []string
		if hasForallGoal(o.Goal) && !o.Smoke && o.Kind != "cand" {
			for i, g := range goalParts(o.Goal) {
				pq := renderQuery(s.P, s.S, o.facts(), g, o.optLemmas(), o.omits())
				if s.KeepDir != "" {
					os.WriteFile(filepath.Join(s.KeepDir, sanitize(o.Fn+"."+o.Name)+fmt.Sprintf(".part%d.smt2", i+1)), []byte(z3Pre+pq), 0o644)
				}
				parts = append(parts, pq)
			}
		}
		wg.Add(1)
		s.Sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-s.Sem }()
			s.decide(o, q, parts, cases)
		}()
	}
}

// cases returns sets of extra assumptions; if the obligation holds under each of a set it holds.
func (o *Obl) cases() [][]string {
	if o.Smoke || o.Kind == "cand" {
		return nil
	}
	var out [][]string
	for i := len(o.x.splits) - 1; i >= 0 && len(out) < 2; i-- {
		sp := o.x.splits[i]
		if sp.nf > o.NF || len(sp.pcs) > 6 {
			continue
		}
		var cs []string
		tot := 0
		none := True
		for _, p := range sp.pcs {
			var sb strings.Builder
			pr(&sb, p, nil)
			cs = append(cs, "(assert "+sb.String()+")\n")
			tot += sb.Len()
			none = And(none, Not(p))
		}
		if tot > 20000 {
			continue
		}
		var sb strings.Builder
		pr(&sb, none, nil)
		cs = append(cs, "(assert "+sb.String()+")\n")
		out = append(out, cs)
	}
	return out
}

func (s *Solver) decide(o *Obl, q string, parts []string, cases [][]string) {
	t0 := time.Now()
	defer func() {
		o.Secs = time.Since(t0).Seconds()
		s.mu.Lock()
		s.Total += o.Secs
		s.mu.Unlock()
	}()
	ctx := context.Background()
	if o.Smoke {
		cfg := solverByName("z3-new", 2)
		r := runSolver(ctx, s.file(), cfg, q, 2)
		if r == "unsat" {
			o.Status = "vacuous"
		} else if strings.HasPrefix(r, "error") {
			o.Status = "failed"
			o.Model = r
		} else {
			o.Status = "reachable"
		}
		o.Solver = cfg.name
		return
	}
	t1, t2 := s.T1, s.T2
	if s.nfail.Load() >= 8 {
		t1, t2 = min(t1, 3), min(t2, 3)
	}
	if o.Kind == "cand" || len(cases) > 0 {
		t1 = min(t1, 4)
	}
	cfg := solverByName("z3-new", min(t1, 3))
	r := runSolver(ctx, s.file(), cfg, q, min(t1, 3))
	if r != "unsat" && o.Kind != "cand" && !strings.HasPrefix(r, "error") {
		if a := s.raceOf(ctx, q, t1, "z3-new-s2", "z3-new-nl", "z3-new-eqs"); a.r == "unsat" {
			cfg.name, r = a.n, a.r
		}
	}
	if r == "unsat" {
		o.Status, o.Solver = "proved", cfg.name
		return
	}
	res := []string{cfg.name + ": " + r}
	if strings.HasPrefix(r, "error") {
		o.Status, o.Model = "failed", strings.Join(res, "; ")
		return
	}
	if o.Kind == "cand" {
		o.Status = "failed"
		return
	}
	// the goal in parts, each with its bound variables fixed
	if len(parts) > 0 {
		left := 0
		for i, pq := range parts {
			if r := s.part(ctx, pq, cases, t1, t2); r != "unsat" {
				res = append(res, partName(i, len(parts))+": "+r)
				left++
				break
			}
		}
		if left == 0 {
			o.Status, o.Solver = "proved", cfg.name+" in parts"
			return
		}
		s.nfail.Add(1)
		o.Status, o.Model = "failed", strings.Join(res, "; ")
		return
	}
	for _, cs := range cases {
		ok := true
		for _, c := range cs {
			q2 := strings.TrimSuffix(q, "(check-sat)\n") + c + "(check-sat)\n"
			if r := runSolver(ctx, s.file(), solverByName("z3-new", t1), q2, t1); r != "unsat" {
				ok = false
				break
			}
		}
		if ok {
			o.Status, o.Solver = "proved", cfg.name+" by cases"
			return
		}
	}
	if r := s.race(ctx, q, t2); r.r == "unsat" {
		o.Status, o.Solver = "proved", r.n
		return
	} else {
		res = append(res, r.r)
	}
	s.nfail.Add(1)
	o.Status, o.Model = "failed", strings.Join(res, "; ")
}

// part decides one sequent: directly, by cases, then with the other solvers.
func (s *Solver) part(ctx context.Context, q string, cases [][]string, t1, t2 float64) string {
	if r := runSolver(ctx, s.file(), solverByName("z3-new", min(t1, 3)), q, min(t1, 3)); r == "unsat" {
		return r
	}
	if a := s.raceOf(ctx, q, t1, "z3-new", "z3-new-s2", "z3-new-nl", "z3-new-eqs"); a.r == "unsat" {
		return a.r
	}
	if rev := withRev(q); rev != "" {
		if r := runSolver(ctx, s.file(), solverByName("z3-new", min(t1, 3)), rev, min(t1, 3)); r == "unsat" {
			return r
		}
	}
	for _, cs := range cases {
		ok := true
		for _, c := range cs {
			if r := runSolver(ctx, s.file(), solverByName("z3-new", t1), withCheck(q, c), t1); r != "unsat" {
				ok = false
				break
			}
		}
		if ok {
			return "unsat"
		}
	}
	return s.race(ctx, q, t2).r
}

type ans struct{ n, r string }

// withRev adds the axiom that leads from an element of a row back to the sequences it is part of.
func withRev(q string) string {
	if !strings.Contains(q, "declare-fun |seqof|") || !strings.Contains(q, "declare-fun |at.Int|") {
		return ""
	}
	return withCheck(q, "(assert (forall ((r (Array Int Int)) (o Int) (d Int) (n Int) (j Int)) (! (=> (and (<= d j) (< j (+ d n))) (= (|at.Int| r o j) (sat (seqof r o d n) (- j d)))) :pattern ((seqof r o d n) (|at.Int| r o j)))))\n")
}

// race runs the fallback solvers in parallel.
func (s *Solver) race(ctx context.Context, q string, t2 float64) ans {
	names := []string{"z3-new-eqs", "z3-new-s2", "z3-new-nl", "z3", "z3-new-auto", "cvc5"}
	if withRev(q) != "" {
		names = append(names, "rev")
	}
	return s.raceOf(ctx, q, t2, names...)
}

func (s *Solver) raceOf(ctx context.Context, q string, t2 float64, names ...string) ans {
	var res []string
	c2, cancel := context.WithCancel(ctx)
	defer cancel()
	ch := make(chan ans, len(names))
	for _, n := range names {
		n := n
		go func() {
			q := q
			if n == "rev" {
				n, q = "z3-new", withRev(q)
			}
			cf := solverByName(n, t2)
			ch <- ans{cf.name, runSolver(c2, s.file(), cf, q, t2)}
		}()
	}
	for range names {
		a := <-ch
		if a.r == "unsat" {
			return a
		}
		res = append(res, a.n+": "+a.r)
	}
	return ans{"", strings.Join(res, "; ")}
}

// Retry gives obligations left undecided a longer attempt, all back ends in parallel, if there are few of them.
func (s *Solver) Retry(obls []*Obl, secs float64, most int, budget time.Duration) {
	var left []*Obl
	for _, o := range obls {
		if !o.Smoke && o.Kind != "cand" && o.Status == "failed" && o.Goal != nil && !strings.HasPrefix(o.Model, "error") {
			left = append(left, o)
		}
	}
	if len(left) == 0 || len(left) > most {
		return
	}
	end := time.Now().Add(budget)
	for _, o := range left {
		qs := []string{renderQuery(s.P, s.S, o.facts(), o.Goal, o.optLemmas(), o.omits())}
		if hasForallGoal(o.Goal) {
			qs = nil
			for _, g := range goalParts(o.Goal) {
				qs = append(qs, renderQuery(s.P, s.S, o.facts(), g, o.optLemmas(), o.omits()))
			}
		}
		t0, ok, n := time.Now(), true, ""
		for _, q := range qs {
			t := min(secs, time.Until(end).Seconds())
			if t < 5 {
				return
			}
			a := s.race(context.Background(), q, t)
			if n = a.n; a.r != "unsat" {
				ok = false
				break
			}
		}
		d := time.Since(t0).Seconds()
		o.Secs += d
		s.Total += d
		if !ok {
			return
		}
		o.Status, o.Solver, o.Model = "proved", n+" (second attempt)", ""
	}
}

func (s *Solver) Close() { os.RemoveAll(s.Tmp) }

func (o *Obl) optLemmas() string {
	if o.x == nil || o.x.con == nil {
		return ""
	}
	return o.x.con.Opts["lemmas"]
}
