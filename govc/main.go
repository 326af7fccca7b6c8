package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func loadSpecs(dir string) *Specs {
	S := NewSpecs()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		S.LoadFile(f)
	}
	return S
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	verif := flag.String("verif", "/verif", "framework directory")
	modfile := flag.String("modfile", "", "alternative go.mod")
	keep := flag.String("keep", "", "directory to keep queries in")
	jobs := flag.Int("j", 8, "parallel solvers")
	t1 := flag.Float64("t1", 8, "first solver timeout")
	t2 := flag.Float64("t2", 20, "second stage timeout")
	verbose := flag.Bool("v", false, "list all obligations")
	nosmoke := flag.Bool("nosmoke", false, "skip smoke checks")
	flag.Parse()
	cmd := flag.Arg(0)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				fmt.Println("govc:", u.msg)
				os.Exit(3)
			}
			panic(r)
		}
	}()
	if cmd == "check" {
		os.Exit(runCheck(checkOpts{Repo: *repo, Verif: *verif, Prop: flag.Arg(1), Jobs: *jobs, T1: *t1, T2: *t2}))
	}
	if cmd == "harness" {
		// the replay harness alone (for testing it)
		tmp, err := os.MkdirTemp("", "verif-h-")
		if err != nil {
			panic(err)
		}
		for _, f := range []string{"go.mod", "go.sum"} {
			if d, err := os.ReadFile(filepath.Join(*repo, f)); err == nil {
				os.WriteFile(filepath.Join(tmp, f), d, 0o644)
			}
		}
		h := runHarness(checkOpts{Repo: *repo, Verif: *verif, Prop: flag.Arg(1)}, tmp, filepath.Join(tmp, "go.mod"), 1, "quick")
		os.RemoveAll(tmp)
		switch {
		case h.Violation != nil:
			fmt.Println("VIOLATION", h.What)
		case !h.ran || h.note != "":
			fmt.Println("NORESULT", h.note)
		default:
			fmt.Println("QUIET", h.Evaluations)
		}
		os.Exit(0)
	}
	S := loadSpecs(*dir)
	P, err := LoadProg(*repo, *modfile)
	if err != nil {
		fmt.Println("govc: load:", err)
		os.Exit(3)
	}
	if cmd != "locals" {
		loadPrints(filepath.Join(*dir, "locals.json"))
	}
	aliasClosures(P, S)
	compileAxioms(P, S)
	sv := NewSolver(P, S, *jobs, *t1, *t2)
	defer sv.Close()
	sv.KeepDir = *keep
	switch cmd {
	case "verify":
		keys := flag.Args()[1:]
		if len(keys) == 0 {
			for _, c := range S.Order {
				if !c.Trusted && !c.Inline {
					keys = append(keys, c.Key)
				}
			}
		}
		bad := 0
		for _, k := range keys {
			var xs []*Exec
			if strings.Contains(k, "<:") {
				i := strings.Index(k, "<:")
				x, err := Refine(P, S, k[:i], k[i+2:])
				if err != nil {
					fmt.Printf("%-60s ERROR %v\n", k, err)
					bad++
					continue
				}
				xs = append(xs, x)
			} else {
				x, alts, err := VerifyA(sv, P, S, k)
				if err != nil {
					fmt.Printf("%-60s ERROR %v\n", k, err)
					bad++
					continue
				}
				if len(alts) > 0 {
					sv.Solve(x.obls)
					x = Alternatives(sv, P, S, k, x, alts)
				}
				xs = append(xs, x)
			}
			for _, x := range xs {
				if *nosmoke {
					var o2 []*Obl
					for _, o := range x.obls {
						if !o.Smoke {
							o2 = append(o2, o)
						}
					}
					x.obls = o2
				}
				sv.Solve(x.obls)
				n, f := 0, 0
				mx := 0.0
				for _, o := range x.obls {
					if o.Secs > mx {
						mx = o.Secs
					}
					n++
					if o.Status == "failed" || o.Status == "vacuous" {
						f++
						fmt.Printf("   FAIL %s %s [%s] %s  (%s) %s\n", x.key, o.Name, o.Pos, o.Desc, o.Status, o.Model)
					} else if *verbose {
						fmt.Printf("   ok   %s %s [%s] %s %.2fs %s\n", x.key, o.Name, o.Pos, o.Desc, o.Secs, o.Solver)
					}
				}
				bad += f
				fmt.Printf("%-60s %d obligations, %d failed, max %.1fs\n", x.key, n, f, mx)
			}
		}
		if bad > 0 {
			sv.Close()
			os.Exit(1)
		}
	case "funcs":
		var ks []string
		for k := range P.Funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c := ""
			if S.Contracts[k] != nil {
				c = "contract"
			}
			fmt.Println(k, c)
		}
	case "locals":
		if err := writePrints(P, filepath.Join(*dir, "locals.json")); err != nil {
			fmt.Println("govc:", err)
			os.Exit(3)
		}
	case "lemmas":
		bad := proveLemmas(sv, P, S, *verbose)
		if bad > 0 {
			sv.Close()
			os.Exit(1)
		}
	default:
		fmt.Println("unknown command", cmd)
		os.Exit(3)
	}
}
