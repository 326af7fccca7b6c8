// Package verifharness is the shared support code of the replay harnesses (injected by overlay).
package verifharness

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"testing"
	"time"
)

type H struct {
	T        *testing.T
	R        *rand.Rand
	Thorough bool
	evals    int
	seen     map[string]bool
	distinct int
	rule     string
	samples  []interface{}
	viol     interface{}
	what     string
	current  string
	out      string
	deadline time.Time
}

// New starts a harness; quick and thorough are its time budgets.
func New(t *testing.T, rule string, quick, thorough time.Duration) *H {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h := &H{T: t, R: rand.New(rand.NewSource(seed + 12345)), Thorough: os.Getenv("VERIF_TIER") == "thorough", seen: map[string]bool{}, rule: rule, out: os.Getenv("VERIF_OUT")}
	d := quick
	if h.Thorough {
		d = thorough
	}
	h.deadline = time.Now().Add(d)
	return h
}

// More reports whether there is time for another case.
func (h *H) More() bool { return h.viol == nil && time.Now().Before(h.deadline) }

// Stopped reports whether a violation was found.
func (h *H) Stopped() bool { return h.viol != nil }

// Case counts one evaluated case; key identifies it ("" for a trivial one).
func (h *H) Case(key string, sample interface{}) {
	h.evals++
	if key != "" && !h.seen[key] {
		if len(h.seen) < 200000 {
			h.seen[key] = true
		}
		h.distinct++
		if len(h.samples) < 3 {
			h.samples = append(h.samples, sample)
		}
	}
}

// Fail records the failing input; only the first one counts.
func (h *H) Fail(what string, input interface{}) {
	if h.viol == nil {
		h.viol, h.what = map[string]interface{}{"what": what, "input": input}, what
		h.write()
	}
}

// Mark records what is about to run, so that a crash of the code under test can be attributed.
func (h *H) Mark(format string, a ...interface{}) {
	h.current = fmt.Sprintf(format, a...)
	h.write()
}

func (h *H) write() {
	if h.out == "" {
		return
	}
	w := h.what
	if h.viol == nil {
		w = h.current
	}
	m := map[string]interface{}{"evaluations": h.evals, "distinct_nontrivial": h.distinct, "rule": h.rule, "samples": h.samples, "what": w}
	if h.viol != nil {
		m["violation"] = h.viol
	}
	d, err := json.Marshal(m)
	if err == nil {
		// a crash of the code under test may come at any moment
		if os.WriteFile(h.out+".new", d, 0o644) == nil {
			os.Rename(h.out+".new", h.out)
		}
	}
}

// Done writes the result.
func (h *H) Done() {
	if p := recover(); p != nil {
		h.Fail(fmt.Sprintf("crash: %v\n%s", p, debug.Stack()), h.current)
	}
	h.current = ""
	h.write()
	if h.viol != nil {
		h.T.Fatalf("%s: %v", h.what, h.viol)
	}
}

// Try runs f and turns a panic into a failure.
func (h *H) Try(what string, input interface{}, f func()) {
	defer func() {
		if r := recover(); r != nil {
			h.Fail(what+": panic: "+fmt.Sprint(r), input)
		}
	}()
	f()
}

// Within runs f with a time limit and reports false when it does not return.
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// TryWithin runs f with a time limit; a panic or a hang is a failure.
func (h *H) TryWithin(d time.Duration, what string, input interface{}, f func()) bool {
	var pan interface{}
	ok := Within(d, func() {
		defer func() {
			if r := recover(); r != nil {
				pan = r
			}
		}()
		f()
	})
	if !ok {
		h.Fail(what+": does not return", input)
		return false
	}
	if pan != nil {
		h.Fail(what+": panic: "+fmt.Sprint(pan), input)
		return false
	}
	return true
}
