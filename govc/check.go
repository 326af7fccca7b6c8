package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check decides one property: every contract in the dependency closure of the property's roots is
// verified from the current source, and the property's replay harness looks for a concrete failing input.

type harnessResult struct {
	Evaluations int              `json:"evaluations"`
	Distinct    int              `json:"distinct_nontrivial"`
	Rule        string           `json:"rule"`
	Samples     []any            `json:"samples"`
	Violation   *json.RawMessage `json:"violation"`
	What        string           `json:"what"`
	ran         bool
	note        string
}

type checkOpts struct {
	Repo, Verif, Prop, Modfile string
	Jobs                       int
	T1, T2                     float64
}

func goEnv() []string {
	env := os.Environ()
	p := os.Getenv("PATH")
	if _, err := os.Stat("/opt/veriftools/go1.27.3/bin/go"); err == nil {
		p = "/opt/veriftools/go1.27.3/bin:" + p
	}
	return append(env, "PATH="+p, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GONOSUMDB=*", "GOFLAGS=-mod=mod")
}

func runHarness(o checkOpts, tmp, modfile string, seed int, tier string) (h harnessResult) {
	files, _ := filepath.Glob(filepath.Join(o.Verif, "replay", o.Prop+"*", "*"))
	if len(files) == 0 {
		h.note = "no replay harness"
		return
	}
	repl := map[string]string{}
	hp, _ := filepath.Glob(filepath.Join(o.Verif, "replay", "h", "*.go"))
	for _, f := range hp {
		repl[filepath.Join(o.Repo, "verifharness", filepath.Base(f))] = f
	}
	pkgs := map[string]bool{}
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil || !strings.HasSuffix(f, ".go") {
			continue
		}
		// first line: //verif:dir <package directory relative to the repository>
		l := string(data)
		if i := strings.IndexByte(l, '\n'); i >= 0 {
			l = l[:i]
		}
		dir := strings.TrimSpace(strings.TrimPrefix(l, "//verif:dir"))
		repl[filepath.Join(o.Repo, dir, "zz_verif_"+strings.ToLower(o.Prop)+"_"+filepath.Base(f))] = f
		pkgs["./"+dir] = true
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	secs := 150
	if tier == "thorough" {
		secs = 600
	}
	var ps []string
	for p := range pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for i, pkg := range ps {
		g := runPackage(o, tmp, modfile, ovf, pkg, i, secs, seed, tier)
		if i == 0 {
			h = g
			continue
		}
		h.Evaluations += g.Evaluations
		h.Distinct += g.Distinct
		h.Samples = append(h.Samples, g.Samples...)
		h.ran = h.ran && g.ran
		if g.note != "" {
			h.note += g.note
		}
		if h.Violation == nil && g.Violation != nil {
			h.Violation, h.What = g.Violation, g.What
		}
	}
	return
}

// runPackage runs the harness of one package.
func runPackage(o checkOpts, tmp, modfile, ovf, pkg string, num, secs, seed int, tier string) (h harnessResult) {
	out := filepath.Join(tmp, fmt.Sprintf("harness%d.json", num))
	args := []string{"test", "-overlay", ovf, "-modfile=" + modfile, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", secs), "-run", "^TestVerif" + o.Prop + "$", pkg}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+120)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = o.Repo
	scratch := filepath.Join(tmp, fmt.Sprintf("scratch%d", num))
	os.MkdirAll(scratch, 0o755)
	cmd.Env = append(goEnv(), "VERIF_OUT="+out, "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_SCRATCH="+scratch, "TMPDIR="+scratch)
	for i, e := range cmd.Env {
		if strings.HasPrefix(e, "PATH=") {
			_ = i
			os.Setenv("PATH", strings.TrimPrefix(e, "PATH="))
		}
	}
	if p, err := exec.LookPath("go"); err == nil {
		cmd.Path = p
	}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	data, rerr := os.ReadFile(out)
	if rerr == nil {
		if e := json.Unmarshal(data, &h); e == nil {
			h.ran = true
			if h.Violation == nil && err != nil {
				// the harness recorded where it was before a crash or deadlock of the code under test
				if h.What != "" {
					t := tail(buf.String(), 4000)
					if strings.Contains(t, "panic:") || strings.Contains(t, "fatal error:") {
						m, _ := json.Marshal(map[string]string{"case": h.What, "crash": t})
						rm := json.RawMessage(m)
						h.Violation = &rm
						h.What = "the code under test crashed or hung: " + h.What
					} else {
						h.note = "harness failed: " + t
					}
				} else {
					h.note = "harness failed: " + tail(buf.String(), 2000)
				}
			}
			return
		}
	}
	h.note = "harness gave no result: " + tail(buf.String(), 2000)
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func runCheck(o checkOpts) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	tmp, err := os.MkdirTemp("", "verif-"+o.Prop+"-")
	if err != nil {
		fmt.Println("govc:", err)
		return 3
	}
	defer os.RemoveAll(tmp)
	modfile := filepath.Join(tmp, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		d, err := os.ReadFile(filepath.Join(o.Repo, f))
		if err == nil {
			os.WriteFile(filepath.Join(tmp, f), d, 0o644)
		}
	}
	evdir := filepath.Join(o.Verif, "evidence")
	os.MkdirAll(filepath.Join(evdir, "replays"), 0o755)

	hch := make(chan harnessResult, 1)
	go func() { hch <- runHarness(o, tmp, modfile, seed, tier) }()

	S := loadSpecs(filepath.Join(o.Verif, "contracts"))
	loadPrints(filepath.Join(o.Verif, "contracts", "locals.json"))
	var obls []*Obl
	var errs []string
	var funcs []string
	trusted, assumes, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var lemmas []*Obl
	var solverSecs float64
	// a root "-key" is a callee that the property does not depend on: its contract is used for bookkeeping only and
	// it is verified under the properties it belongs to
	var roots []string
	skip := map[string]bool{}
	for _, k := range S.PropFuncs[o.Prop] {
		if strings.HasPrefix(k, "-") {
			skip[k[1:]] = true
		} else {
			roots = append(roots, k)
		}
	}
	if len(roots) > 0 {
		P, err := LoadProg(o.Repo, modfile)
		if err != nil {
			errs = append(errs, "loading the source: "+err.Error())
		} else {
			func() {
				defer func() {
					if r := recover(); r != nil {
						b := make([]byte, 6000)
						b = b[:runtime.Stack(b, false)]
						errs = append(errs, fmt.Sprintf("verifier: %v %s", r, b))
					}
				}()
				aliasClosures(P, S)
				compileAxioms(P, S)
				sv := NewSolver(P, S, o.Jobs, o.T1, o.T2)
				if tier == "thorough" {
					sv.T1, sv.T2 = o.T1*2, o.T2*3
				}
				defer sv.Close()
				lemmas = solveLemmas(sv, P, S) // first: their text does not depend on the code
				done := map[string]bool{}
				left := map[string][]*Contract{}
				execs := map[string]*Exec{}
				queue := append([]string(nil), roots...)
				var gone []string
				for len(queue) > 0 {
					k := queue[0]
					queue = queue[1:]
					if done[k] {
						continue
					}
					done[k] = true
					if goneHelper(P, k) {
						gone = append(gone, k)
						continue
					}
					var x *Exec
					var err error
					if i := strings.Index(k, "<:"); i >= 0 {
						x, err = Refine(P, S, k[:i], k[i+2:])
						if err == nil {
							queue = append(queue, k[:i])
						}
					} else {
						x, left[k], err = VerifyA(sv, P, S, k)
					}
					if err != nil {
						errs = append(errs, k+": "+err.Error())
						continue
					}
					funcs = append(funcs, k)
					execs[k] = x
					sv.Start(x.obls)
					for u := range x.inlined {
						inlined[u] = true
					}
					for u := range x.trusted {
						trusted[u] = true
					}
					for u := range x.assumes {
						assumes[u] = true
					}
					var us []string
					for u := range x.used {
						us = append(us, u)
					}
					sort.Strings(us)
					for _, u := range us {
						c := S.Contracts[u]
						if c == nil {
							continue
						}
						if c.Trusted {
							trusted[u+": "+c.Note] = true
							continue
						}
						if skip[u] {
							trusted[u+": contract verified under another property"] = true
							continue
						}
						if P.Funcs[u] == nil {
							// an interface method: its implementations are listed as roots (impl<:iface)
							if !hasImpl(roots, u) {
								trusted[u+": contract of an interface method or function value, assumed of whatever is passed in"] = true
							}
							continue
						}
						queue = append(queue, u)
					}
				}
				for _, k := range gone {
					if absorbed(P, k, func(c string) bool { return execs[c] != nil || inlined[c] }) {
						assumes["the helper "+k+" is gone; the functions that called it are verified with what they now do instead"] = true
					} else {
						errs = append(errs, k+": function not found in the source")
					}
				}
				sv.Wait()
				for _, k := range funcs {
					obls = append(obls, Alternatives(sv, P, S, k, execs[k], left[k]).obls...)
				}
				// a second, longer attempt at what is left, unless the harness has already found a failing input
				h := <-hch
				hch <- h
				if h.Violation == nil {
					sv.Retry(append(append([]*Obl(nil), obls...), lemmas...), 60, 6, 240*time.Second)
				}
				solverSecs = sv.Total
			}()
		}
	}
	h := <-hch

	nOb, nDis, smoke := 0, 0, 0
	back := map[string]int{}
	var failed []*Obl
	var vac []*Obl
	for _, ob := range append(append([]*Obl(nil), obls...), lemmas...) {
		if ob.Smoke {
			smoke++
			if ob.Status == "vacuous" && (strings.HasPrefix(ob.Name, "smoke:entry")) {
				vac = append(vac, ob)
			}
			continue
		}
		nOb++
		if ob.Status == "proved" {
			nDis++
			back[ob.Solver]++
		} else {
			failed = append(failed, ob)
		}
	}
	// at least one return of each function must be reachable
	ret := map[string]int{}
	retV := map[string]int{}
	for _, ob := range obls {
		if ob.Smoke && strings.HasPrefix(ob.Name, "smoke:return") {
			ret[ob.Fn]++
			if ob.Status == "vacuous" {
				retV[ob.Fn]++
			}
		}
	}
	for f, n := range ret {
		if n > 0 && retV[f] == n {
			errs = append(errs, f+": no return is reachable under its contract (vacuous)")
		}
	}
	for _, v := range vac {
		errs = append(errs, v.Fn+": precondition is unsatisfiable (vacuous)")
	}
	sort.Strings(errs)
	if len(roots) > 0 && nOb == 0 && len(errs) == 0 {
		errs = append(errs, "no obligations were generated")
	}
	known := loadKnown(filepath.Join(o.Verif, "known-findings.txt"), o.Prop)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.Prop, k)
	}

	replay := filepath.Join("evidence", "replays", o.Prop+".json")
	rpath := filepath.Join(o.Verif, replay)
	os.Remove(rpath)
	viol := 0
	var lines []string
	var failNames []string
	for _, f := range failed {
		failNames = append(failNames, fmt.Sprintf("%s %s [%s] %s (%s)", f.Fn, f.Name, f.Pos, f.Desc, f.Model))
	}
	if h.Violation != nil {
		viol++
		writeJSON(rpath, map[string]any{"property": o.Prop, "failing_input": h.Violation, "what": h.What, "failed_obligations": failNames, "verifier_errors": errs, "seed": seed, "tier": tier,
			"how": "found by running the real code of /repo (go test -overlay, harness in /verif/replay/" + o.Prop + ") against an oracle written from the property"})
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", o.Prop, rpath))
	} else if len(failed) > 0 || len(errs) > 0 {
		viol++
		writeJSON(rpath, map[string]any{"property": o.Prop, "failed_obligations": failNames, "verifier_errors": errs, "seed": seed, "tier": tier, "harness": h.note,
			"how": "the verifier no longer discharges these obligations on the current source; the replay harness found no concrete failing input"})
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", o.Prop, rpath))
	}
	for _, f := range failNames {
		fmt.Println("failed obligation:", f)
	}
	for _, e := range errs {
		fmt.Println("undecided:", e)
	}
	if h.Violation != nil {
		fmt.Println("failing input:", h.What)
	}
	if h.note != "" {
		fmt.Println("harness:", tail(h.note, 1500))
	}
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, %d reachability checks, harness cases %d, %.1fs\n", o.Prop, len(funcs), nOb, nDis, smoke, h.Evaluations, time.Since(t0).Seconds())

	// evidence
	cov := map[string]any{}
	level := "proof"
	pi := propInfo(S, o.Prop)
	if pi["level"] != "" {
		level = pi["level"]
	}
	cov["obligations"] = nOb
	cov["discharged"] = nDis
	cov["checker_cmd"] = "bash /verif/check.sh " + o.Prop
	var tb []string
	for t := range trusted {
		tb = append(tb, t)
	}
	sort.Strings(tb)
	tb = append([]string{"govc, the verification-condition generator in /verif/govc (symbolic execution of go/ssa naive form)", "golang.org/x/tools/go/ssa and go/types", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2"}, tb...)
	cov["trusted_base"] = tb
	sort.Strings(funcs)
	cov["functions_under_contract"] = funcs
	il := []string{}
	for f := range inlined {
		il = append(il, f)
	}
	sort.Strings(il)
	cov["functions_inlined_into_callers"] = il
	cov["back_ends"] = back
	cov["solver_seconds"] = round2(solverSecs)
	cov["reachability_checks"] = smoke
	nl := 0
	for _, l := range lemmas {
		if l.Name == "lemma" {
			nl++
		}
	}
	cov["lemmas_proved"] = nl
	if len(errs) > 0 {
		cov["undecided"] = errs
	}
	if h.ran {
		cov["evaluations"] = h.Evaluations
		cov["distinct_nontrivial"] = h.Distinct
		cov["rule"] = "bounded cross-check on the running code, never counted as proved: " + h.Rule
		cov["samples"] = h.Samples
	} else {
		cov["bounded_cross_check"] = "did not run: " + tail(h.note, 300)
	}
	if pi["bounded"] != "" {
		cov["bounded_stand_ins"] = pi["bounded"]
	}
	cov["explanation"] = pi["explain"]
	as := []string{}
	for a := range assumes {
		as = append(as, a)
	}
	for _, a := range strings.Split(pi["assume"], "\n") {
		if a != "" {
			as = append(as, a)
		}
	}
	sort.Strings(as)
	ev := map[string]any{"property": o.Prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": as, "wall_s": round2(time.Since(t0).Seconds()), "violations": viol}
	writeJSON(filepath.Join(evdir, o.Prop+".json"), ev)
	for _, l := range lines {
		fmt.Println(l)
	}
	if viol > 0 {
		return 1
	}
	return 0
}

func hasImpl(roots []string, ikey string) bool {
	for _, r := range roots {
		if strings.HasSuffix(r, "<:"+ikey) {
			return true
		}
	}
	return false
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func writeJSON(p string, v any) {
	d, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, append(d, '\n'), 0o644)
}

func propInfo(S *Specs, prop string) map[string]string {
	m := map[string]string{}
	for k, v := range S.PropInfo[prop] {
		m[k] = v
	}
	return m
}

// loadKnown returns the recorded, unrepaired findings of a property ("finding: property=C01 ...").
func loadKnown(path, prop string) []string {
	d, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(d), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			out = append(out, strings.TrimPrefix(l, "finding: property="+prop+" "))
		}
	}
	return out
}
