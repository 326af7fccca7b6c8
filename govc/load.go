package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded program under verification.
type Prog struct {
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  []*packages.Package
	Funcs map[string]*ssa.Function // key -> function
	KeyOf map[*ssa.Function]string
	InRep map[*types.Package]bool
	Info  map[*types.Package]*types.Info
	Boxes map[string]types.Type // boxed types universe
	ByPkg map[string]*types.Package
	Root  string
}

func LoadProg(repo, modfile string) (*Prog, error) {
	env := append(goEnv(), "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedImports | packages.NeedTypes | packages.NeedModule, Dir: repo, Env: env}
	if modfile != "" {
		cfg.BuildFlags = []string{"-modfile=" + modfile}
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, sp := ssautil.Packages(pk, ssa.NaiveForm)
	prog.Build()
	P := &Prog{Fset: prog.Fset, SSA: prog, Pkgs: pk, Funcs: map[string]*ssa.Function{}, KeyOf: map[*ssa.Function]string{}, InRep: map[*types.Package]bool{}, Info: map[*types.Package]*types.Info{}, Boxes: map[string]types.Type{}, ByPkg: map[string]*types.Package{}, Root: repo}
	for i, p := range pk {
		P.InRep[p.Types] = true
		P.Info[p.Types] = p.TypesInfo
		_ = i
	}
	_ = sp
	prog.AllPackages()
	for _, p := range prog.AllPackages() {
		if o := P.ByPkg[p.Pkg.Name()]; o == nil || P.InRep[p.Pkg] {
			if !(o != nil && P.InRep[o]) {
				P.ByPkg[p.Pkg.Name()] = p.Pkg
			}
		}
	}
	// prefer well-known std packages for short names
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == p.Pkg.Name() {
			P.ByPkg[p.Pkg.Name()] = p.Pkg
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || !P.InRep[f.Pkg.Pkg] || f.Synthetic != "" {
			continue
		}
		P.addFunc(f)
	}
	return P, nil
}

func (P *Prog) addFunc(f *ssa.Function) {
	k := funcKey(f)
	P.Funcs[k] = f
	P.KeyOf[f] = k
}

func funcKey(f *ssa.Function) string {
	if k, ok := keyAlias[f]; ok {
		return k
	}
	if f.Parent() != nil {
		return funcKey(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	pn := ""
	if f.Pkg != nil {
		pn = f.Pkg.Pkg.Name()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pn = o.Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pn + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pn + "." + f.Name()
}

// typeKey gives the short name of a type.
func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- leaves ----

type Leaf struct {
	Path string
	Sort string
	T    types.Type // basic/pointer/... Go type of the leaf (nil for slice parts)
	Part string     // arr/off/len/cap for slice parts
}

var leafMemo = map[types.Type][]Leaf{}

func leavesOf(t types.Type) []Leaf {
	if l, ok := leafMemo[t]; ok {
		return l
	}
	l := leavesOf0(t)
	leafMemo[t] = l
	return l
}

func leavesOf0(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t, ""}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, t, ""}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SSeq, t, ""}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", "Real", t, ""}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SRef, t, ""}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", SRef, t, ""}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SRef, t, ""}}
	case *types.Interface:
		return []Leaf{{"", SAny, t, ""}}
	case *types.Slice:
		return []Leaf{{".arr", SRef, nil, "arr"}, {".off", SInt, nil, "off"}, {".len", SInt, nil, "len"}, {".cap", SInt, nil, "cap"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.Path, l.Sort, l.T, l.Part})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, leavesOf(u.At(i).Type())...)
		}
		return out
	case *types.Array:
		return []Leaf{{"", SRef, t, ""}} // an array value is represented by a reference to a private copy
	}
	panic(unsupported("leavesOf " + t.String()))
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }
func unsupported(m string) unsupportedErr {
	return unsupportedErr{"unsupported: " + m}
}

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}
func isArray(t types.Type) (*types.Array, bool) {
	s, ok := t.Underlying().(*types.Array)
	return s, ok
}
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldLeafRange(s *types.Struct, idx int) (lo, hi int) {
	for i := 0; i < idx; i++ {
		lo += len(leavesOf(s.Field(i).Type()))
	}
	return lo, lo + len(leavesOf(s.Field(idx).Type()))
}

func fieldIndex(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// ---- integer ranges ----

type irange struct {
	bits   uint
	signed bool
}

func intRange(t types.Type) (irange, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return irange{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return irange{64, true}, true
	case types.Int32, types.UntypedRune:
		return irange{32, true}, true
	case types.Int16:
		return irange{16, true}, true
	case types.Int8:
		return irange{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return irange{64, false}, true
	case types.Uint32:
		return irange{32, false}, true
	case types.Uint16:
		return irange{16, false}, true
	case types.Uint8:
		return irange{8, false}, true
	}
	return irange{}, false
}

// ---- loops ----

type Loop struct {
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Ord    int
	Node   ast.Node
}

type FnInfo struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	loops []*Loop
	byHdr map[*ssa.BasicBlock]*Loop
	names map[string][]*ssa.Alloc
}

var fnInfos = map[*ssa.Function]*FnInfo{}

func infoOf(fn *ssa.Function) *FnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, byHdr: map[*ssa.BasicBlock]*Loop{}, names: map[string][]*ssa.Alloc{}}
	fnInfos[fn] = fi
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) == 0 {
		return fi
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.byHdr[s]
				if l == nil {
					l = &Loop{Header: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.byHdr[s] = l
					fi.loops = append(fi.loops, l)
				}
				var st []*ssa.BasicBlock
				if !l.Blocks[b] {
					l.Blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !l.Blocks[p] && seen[p] {
							l.Blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(fi.loops, func(i, j int) bool { return fi.loops[i].Header.Index < fi.loops[j].Header.Index })
	for i, l := range fi.loops {
		l.Ord = i + 1
	}
	var nodes []ast.Node
	if syn := fn.Syntax(); syn != nil {
		ast.Inspect(syn, func(n ast.Node) bool {
			if n == nil {
				return true
			}
			if fl, ok := n.(*ast.FuncLit); ok && ast.Node(fl) != syn {
				return false
			}
			switch n.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				nodes = append(nodes, n)
			}
			return true
		})
	}
	if len(nodes) == len(fi.loops) {
		for i, l := range fi.loops {
			l.Node = nodes[i]
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment != "" {
				fi.names[a.Comment] = append(fi.names[a.Comment], a)
			}
		}
	}
	for _, a := range fn.Locals {
		found := false
		for _, x := range fi.names[a.Comment] {
			if x == a {
				found = true
			}
		}
		if !found {
			fi.names[a.Comment] = append(fi.names[a.Comment], a)
		}
	}
	return fi
}

// escapes decides whether an Alloc must live on the symbolic heap.
var escMemo = map[*ssa.Alloc]bool{}

func escapes(a *ssa.Alloc) bool {
	if r, ok := escMemo[a]; ok {
		return r
	}
	t := deref(a.Type())
	if _, ok := isArray(t); ok {
		escMemo[a] = true
		return true
	}
	escMemo[a] = false // provisional for recursion
	r := addrEscapes(a, a)
	escMemo[a] = r
	return r
}

func addrEscapes(v ssa.Value, root *ssa.Alloc) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return true
			}
		case *ssa.FieldAddr:
			if ft := deref(x.Type()); true {
				if _, ok := isArray(ft); ok {
					return true
				}
			}
			if addrEscapes(x, root) {
				return true
			}
		case *ssa.IndexAddr:
			return true
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			// closure must only be called, deferred, or passed to an inlining intrinsic
			if closureEscapes(x) {
				return true
			}
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && addrEscapes(fn.FreeVars[i], root) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func closureEscapes(mc *ssa.MakeClosure) bool {
	for _, in := range *mc.Referrers() {
		switch y := in.(type) {
		case *ssa.Call:
			if y.Call.Value == mc {
				continue
			}
			if c := y.Call.StaticCallee(); c != nil && inliningIntrinsic(c) {
				continue
			}
			return true
		case *ssa.Defer:
			if y.Call.Value == mc {
				continue
			}
			return true
		case *ssa.Store:
			// stored into a local variable that is only called
			if al, ok := y.Addr.(*ssa.Alloc); ok && y.Val == mc {
				okk := true
				for _, u := range *al.Referrers() {
					switch z := u.(type) {
					case *ssa.Store:
						if z.Addr != al {
							okk = false
						}
					case *ssa.UnOp:
						for _, w := range *z.Referrers() {
							if c, ok := w.(*ssa.Call); !ok || c.Call.Value != z {
								okk = false
							}
						}
					case *ssa.DebugRef:
					default:
						okk = false
					}
				}
				if okk {
					continue
				}
			}
			return true
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func inliningIntrinsic(f *ssa.Function) bool {
	switch funcKey(f) {
	case "sort.Search", "llrb.LLRB.AscendGreaterOrEqual", "llrb.LLRB.AscendLessThan", "llrb.LLRB.AscendRange":
		return true
	}
	return false
}
