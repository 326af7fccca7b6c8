package main

import (
	"fmt"
	"strings"
)

// lemmaObls generates the proof obligations of a lemma.
//
// A lemma  forall x1..xn {trig} :: P  is proved for arbitrary constants.  With "induction k" (an integer
// variable) the hypothesis is P at all smaller values of k (k >= 0 assumed in P's own guard, checked by well-foundedness: 0 <= k' < k).
// With "induction s" on a sequence it is P at all sequences strictly shorter than s.
// "use t" adds ground instances: t is evaluated with the lemma's variables in scope and asserted to exist as a term.
func lemmaObls(P *Prog, S *Specs, a *AxiomDecl) (obls []*Obl) {
	x := newExec(P, S, "lemma "+a.Name, &Contract{Key: a.Name, Pkg: a.Pkg, Opts: map[string]string{}})
	e := a.E
	c := &SpecCtx{x: x, vars: map[string]SV{}, pkg: a.Pkg, bound: 1}
	body := e
	var names []string
	if e.Kind == "quant" && e.Name == "forall" {
		for _, d := range e.Vars {
			sv, bs := c.varOf(d, d.Name)
			m := map[*Term]*Term{}
			for _, b := range bs {
				m[b] = Fresh(d.Name, b.Sort)
			}
			for i := range sv.L {
				sv.L[i] = Subst(sv.L[i], m)
			}
			c.vars[d.Name] = sv
			names = append(names, d.Name)
		}
		body = e.Args[0]
	}
	g := c.boolExpr(body)
	if a.Induct != "" {
		// hypothesis: the whole statement restricted to smaller values
		h := &SpecCtx{x: x, vars: map[string]SV{}, pkg: a.Pkg, bound: 1}
		var bvs []*Term
		for _, d := range e.Vars {
			sv, bs := h.varOf(d, d.Name+"?ih")
			h.vars[d.Name] = sv
			bvs = append(bvs, bs...)
		}
		hb := h.boolExpr(body)
		iv := c.vars[a.Induct].L[0]
		hv := h.vars[a.Induct].L[0]
		var ord *Term
		if iv.Sort == SInt {
			ord = And(Le(I(0), hv), Lt(hv, iv))
		} else {
			ord = Lt(slen(hv), slen(iv))
		}
		var trigs [][]*Term
		for _, tr := range e.Trig {
			var ts []*Term
			for _, t := range tr {
				ts = append(ts, h.expr(t).L...)
			}
			trigs = append(trigs, ts)
		}
		x.facts = append(x.facts, Forall(bvs, trigs, Imp(ord, hb)))
	}
	for _, u := range a.Uses {
		v := c.expr(u)
		for _, t := range v.L {
			if t.Sort == SBool {
				// an intermediate claim: must be proved, then may be used
				o := &Obl{Fn: x.key, Name: fmt.Sprintf("step%d", len(obls)+1), Kind: "lemma", Goal: goalize(t), NF: len(x.facts), Desc: u.String(), x: x, Pos: a.Pos}
				obls = append(obls, o)
				x.facts = append(x.facts, t)
				continue
			}
			x.facts = append(x.facts, Eq(t, Fresh("use", t.Sort)))
		}
	}
	obls = append(obls, &Obl{Fn: x.key, Name: "lemma", Kind: "lemma", Goal: goalize(g), NF: len(x.facts), Desc: a.Src, x: x, Pos: a.Pos})
	return obls
}

func proveLemmas(sv *Solver, P *Prog, S *Specs, verbose bool) int {
	bad := 0
	for _, o := range solveLemmas(sv, P, S) {
		if o.Status != "proved" {
			bad++
			fmt.Printf("   FAIL %s.%s [%s] %s %s\n", o.Fn, o.Name, o.Pos, o.Desc, o.Model)
		} else if verbose {
			fmt.Printf("   ok   %s.%s %.2fs %s\n", o.Fn, o.Name, o.Secs, o.Solver)
		}
	}
	return bad
}

// solveLemmas proves every lemma from the axioms and lemmas that precede it.
func solveLemmas(sv *Solver, P *Prog, S *Specs) []*Obl {
	all := compiledAxioms
	defer func() { compiledAxioms = all }()
	var out []*Obl
	for i, a := range S.Axioms {
		if a.Kind != "lemma" {
			continue
		}
		compiledAxioms = all[:i]
		obls := lemmaObls(P, S, a)
		sv.Solve(obls)
		out = append(out, obls...)
	}
	return out
}

var _ = strings.Contains
