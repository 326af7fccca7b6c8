package main

import (
	"fmt"
	"strings"
)

// goalParts splits a goal into sequents that together imply it: universal quantifiers in goal
// position become fresh constants and conjunctions are separated.  The trigger terms of a removed quantifier are kept as
// hypotheses trg(t) of an otherwise unconstrained predicate, so that they stay available for instantiation
// whichever conjunct is being proved.
func goalParts(g *Term) []*Term {
	var out []*Term
	var walk func(hyp []*Term, g *Term)
	walk = func(hyp []*Term, g *Term) {
		switch {
		case g.Kind == 'a' && g.Op == "=>":
			walk(append(append([]*Term(nil), hyp...), g.Args[0]), g.Args[1])
		case g.Kind == 'a' && g.Op == "and":
			for _, a := range g.Args {
				walk(hyp, a)
			}
		case g.Kind == 'q' && g.Op == "forall":
			m := map[*Term]*Term{}
			for _, v := range g.Vars {
				m[v] = Fresh("sk", v.Sort)
			}
			h := append([]*Term(nil), hyp...)
			for _, tr := range g.Trigs {
				for _, t := range tr {
					h = append(h, App("trg."+sortTag(t.Sort), SBool, Subst(t, m)))
				}
			}
			walk(h, Subst(g.Args[0], m))
		default:
			out = append(out, Imp(And(hyp...), g))
		}
	}
	walk(nil, g)
	return out
}

func hasForallGoal(g *Term) bool {
	switch {
	case g.Kind == 'a' && g.Op == "=>":
		return hasForallGoal(g.Args[1])
	case g.Kind == 'a' && g.Op == "and":
		return true
	}
	return g.Kind == 'q' && g.Op == "forall"
}

func partName(i, n int) string { return fmt.Sprintf("part %d of %d", i+1, n) }

func withCheck(q, c string) string {
	return strings.TrimSuffix(q, "(check-sat)\n") + c + "(check-sat)\n"
}
