package main

import "strings"

// Fact groups: an invariant or postcondition labelled @g+h becomes a fact of group g, and is proved from the
// unlabelled facts and those of groups g and h only.  Leaving facts out of a proof is always sound; it keeps
// unrelated quantified invariants from feeding each other's triggers.

func (x *Exec) inGroup(label string, f func()) {
	if label == "" {
		f()
		return
	}
	old := x.group
	x.group = strings.Split(label, "+")
	n := len(x.facts)
	f()
	for _, t := range x.facts[n:] {
		if x.group[0] == "" || x.group[0][0] == '=' {
			break // proved from the groups named, but visible to every proof
		}
		if x.factGroups == nil {
			x.factGroups = map[*Term]map[string]bool{}
		}
		if x.factGroups[t] == nil {
			x.factGroups[t] = map[string]bool{}
		}
		x.factGroups[t][x.group[0]] = true
	}
	x.group = old
}

// note records the clause a fact comes from ("" for an unlabelled one).
func (x *Exec) note(label string, f func()) {
	n := len(x.facts)
	f()
	if i := strings.IndexByte(label, '+'); i >= 0 {
		label = label[:i]
	}
	label = strings.TrimPrefix(label, "=")
	for _, t := range x.facts[n:] {
		if x.factSrc == nil {
			x.factSrc = map[*Term]string{}
		}
		x.factSrc[t] = label
	}
}

func hasForall(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Kind == 'q' {
		return true
	}
	for _, a := range t.Args {
		if hasForall(a, seen) {
			return true
		}
	}
	return false
}

// facts are the facts a proof may use.  Group "!" leaves out every quantified fact that comes from a clause (a
// precondition, a postcondition of a callee, an invariant, a hint) not labelled with one of the groups.
func (o *Obl) facts() []*Term {
	all := o.x.facts[:o.NF]
	strict := false
	for _, g := range o.Groups {
		strict = strict || g == "!"
	}
	if len(o.x.factGroups) == 0 && !strict {
		return all
	}
	var out []*Term
	for _, t := range all {
		gs := o.x.factGroups[t]
		ok := len(gs) == 0
		src, noted := o.x.factSrc[t]
		if ok && strict && noted && hasForall(t, map[*Term]bool{}) {
			ok = false
		}
		for _, g := range o.Groups {
			ok = ok || gs[g] || noted && g == src && src != ""
		}
		if ok {
			out = append(out, t)
		}
	}
	return out
}

// omits lists the axioms and lemmas (groups "-name") a proof leaves out.
func (o *Obl) omits() map[string]bool {
	var m map[string]bool
	for _, g := range o.Groups {
		if strings.HasPrefix(g, "-") {
			if m == nil {
				m = map[string]bool{}
			}
			m[g[1:]] = true
		}
	}
	return m
}
