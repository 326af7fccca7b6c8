package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A contract of a closure P$k names the variables the closure captures.  When the closure was renumbered, got parameters
// instead of captured variables, or became a function or method of its own, the contract is taken to be about what took
// its place, with the names bound to the parameters.  As with locals, a wrong guess can only make a proof fail: the
// function is verified against the contract, and whoever starts or calls it is checked against it.

// keyAlias gives the key under which the contracts know a function.
var keyAlias = map[*ssa.Function]string{}

func aliasClosures(P *Prog, S *Specs) {
	if prints == nil {
		return
	}
	aliasRenamed(P, S)
	var keys []string
	for k := range S.Contracts {
		if i := strings.LastIndexByte(k, '$'); i > 0 && !strings.HasPrefix(k, "$") && prints[k] != nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		con := S.Contracts[k]
		if f := P.Funcs[k]; f != nil && sameFree(f, prints[k].Free) && len(f.Params) == len(con.Params) {
			continue
		}
		parent := P.Funcs[k[:strings.LastIndexByte(k, '$')]]
		if parent == nil {
			continue
		}
		var fit []*ssa.Function
		var names [][]string
		for _, f := range closureCandidates(parent, S) {
			// what another contract is about stays there
			if c := S.Contracts[funcKey(f)]; c != nil && c != con && prints[funcKey(f)] != nil && sameFree(f, prints[funcKey(f)].Free) {
				continue
			}
			if ns, ok := bindNames(f, prints[k].Free, con.Params); ok {
				fit, names = append(fit, f), append(names, ns)
			}
		}
		if len(fit) != 1 {
			continue
		}
		f, old := fit[0], P.Funcs[k]
		fk := funcKey(f)
		if old != nil && old != f {
			keyAlias[old] = fk
			P.addFunc(old)
		} else if fk != k {
			delete(P.Funcs, fk)
		}
		keyAlias[f] = k
		P.addFunc(f)
		con.Params = names[0]
		for _, a := range con.Alts {
			a.Params = names[0]
		}
	}
}

// closureCandidates: the closures and new functions that a function, or a new helper of it, starts or passes on.
func closureCandidates(parent *ssa.Function, S *Specs) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		add := func(g *ssa.Function) {
			if !seen[g] && len(g.Blocks) > 0 && g.Pkg == parent.Pkg && (g.Parent() != nil || newHelper(g, S.Contracts[funcKey(g)])) {
				seen[g] = true
				out = append(out, g)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && g.Pkg == parent.Pkg && g.Parent() == nil && newHelper(g, S.Contracts[funcKey(g)]) {
						visit(g)
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						add(v)
					case *ssa.MakeClosure:
						add(v.Fn.(*ssa.Function))
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	visit(parent)
	return out
}

func sameFree(f *ssa.Function, base [][2]string) bool {
	if len(f.FreeVars) != len(base) {
		return false
	}
	m := map[[2]string]bool{}
	for _, e := range base {
		m[e] = true
	}
	for _, v := range f.FreeVars {
		if !m[[2]string{v.Name(), typeKey(v.Type())}] {
			return false
		}
	}
	return true
}

// bindNames names the parameters of f such that every captured variable of the contract is captured by f or a parameter
// of it, and the contract's parameters are the remaining ones in order.
func bindNames(f *ssa.Function, base [][2]string, params []string) ([]string, bool) {
	out := make([]string, len(f.Params))
	var missing [][2]string
	for _, e := range base {
		found := false
		for _, v := range f.FreeVars {
			found = found || v.Name() == e[0] && typeKey(v.Type()) == e[1]
		}
		if !found {
			missing = append(missing, [2]string{e[0], strings.TrimPrefix(e[1], "*")})
		}
	}
	// by name and type, then by type
	for pass := 0; pass < 2; pass++ {
		var left [][2]string
		for _, e := range missing {
			ok := false
			for i, p := range f.Params {
				if out[i] == "" && undirected(typeKey(p.Type())) == undirected(e[1]) && (pass == 1 || p.Name() == e[0]) {
					out[i], ok = e[0], true
					break
				}
			}
			if !ok {
				left = append(left, e)
			}
		}
		missing = left
	}
	if len(missing) > 0 {
		return nil, false
	}
	used := map[string]bool{}
	for _, n := range out {
		used[n] = true
	}
	for i := range out {
		if out[i] != "" {
			continue
		}
		if len(params) > 0 {
			out[i], params = params[0], params[1:]
		} else if n := f.Params[i].Name(); !used[n] && n != "_" && n != "" {
			out[i] = n
		} else {
			out[i] = "$param" + n
		}
		used[out[i]] = true
	}
	return out, len(params) == 0
}

// undirected forgets the direction of channels: a parameter may be declared to only send or receive.
func undirected(t string) string {
	return strings.ReplaceAll(strings.ReplaceAll(t, "chan<- ", "chan "), "<-chan ", "chan ")
}

// sigOf gives the types of the parameters (the receiver is one) and results of a named function.
func sigOf(f *ssa.Function) string {
	if f.Parent() != nil {
		return ""
	}
	var ps, rs []string
	for _, p := range f.Params {
		ps = append(ps, typeKey(p.Type()))
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, typeKey(f.Signature.Results().At(i).Type()))
	}
	return strings.Join(ps, ", ") + " -> " + strings.Join(rs, ", ")
}

// refersTo lists the named functions of the same package that a function, or a closure in it, refers to.
func refersTo(f *ssa.Function) []string {
	m := map[string]bool{}
	for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && h.Pkg == f.Pkg && h.Parent() == nil && h != f {
						m[funcKey(h)] = true
					}
				}
			}
		}
		if g != f {
			for _, k := range refersTo(g) {
				m[k] = true
			}
		}
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// aliasRenamed finds unexported functions under contract that were renamed: the only new function of the same package
// with the same types of parameters and results takes the place of the missing one.
func aliasRenamed(P *Prog, S *Specs) {
	if prints == nil {
		return
	}
	var all []string
	for k := range P.Funcs {
		all = append(all, k)
	}
	sort.Strings(all)
	var gone []string
	for k := range S.Contracts {
		if goneHelper(P, k) {
			gone = append(gone, k)
		}
	}
	sort.Strings(gone)
	for _, k := range gone {
		same := 0
		for _, g := range gone {
			if prints[g].Sig == prints[k].Sig && pkgOfKey(g) == pkgOfKey(k) {
				same++
			}
		}
		var fit []*ssa.Function
		for _, n := range all {
			if f := P.Funcs[n]; f != nil && pkgOfKey(n) == pkgOfKey(k) && f.Parent() == nil && newHelper(f, S.Contracts[n]) && sigOf(f) == prints[k].Sig {
				fit = append(fit, f)
			}
		}
		if same == 1 && len(fit) == 1 {
			delete(P.Funcs, funcKey(fit[0]))
			keyAlias[fit[0]] = k
			P.addFunc(fit[0])
		}
	}
}

func pkgOfKey(k string) string { return k[:strings.IndexByte(k+".", '.')] }

// goneHelper: an unexported function that existed when the contracts were written and does not now.
func goneHelper(P *Prog, k string) bool {
	if prints == nil || prints[k] == nil || prints[k].Sig == "" || P.Funcs[k] != nil {
		return false
	}
	n := k[strings.LastIndexByte(k, '.')+1:]
	return n != "" && n[0] >= 'a' && n[0] <= 'z'
}

// absorbed: a helper that is gone and whose callers of the time are all verified (its code is now theirs).
func absorbed(P *Prog, k string, verified func(string) bool) bool {
	if !goneHelper(P, k) {
		return false
	}
	callers := 0
	for c, p := range prints {
		for _, g := range p.Calls {
			if g == k {
				callers++
				if !verified(c) && !absorbed(P, c, verified) {
					return false
				}
			}
		}
	}
	return callers > 0
}
