//go:build go1.22

// Package vh is the support library of the bounded components: counting, sampling, reporting of failing inputs.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type H struct {
	T        *testing.T
	Rng      *rand.Rand
	Seed     int64
	Thorough bool
	rule     string
	mu       sync.Mutex
	evals    int
	seen     map[uint64]struct{}
	samples  []any
	dead     time.Time
	known    map[string]bool
}

// New starts a component; rule says how cases are made and what makes one non-trivial.
func New(t *testing.T, rule string) *H {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	h := &H{T: t, Seed: seed, rule: rule, seen: map[uint64]struct{}{}, known: map[string]bool{}, Thorough: os.Getenv("VERIF_TIER") == "thorough"}
	h.Rng = rand.New(rand.NewSource(seed))
	t.Cleanup(h.done)
	return h
}

// N picks the number of cases for the tier.
func (h *H) N(quick, thorough int) int {
	if h.Thorough {
		return thorough
	}
	return quick
}

// Case counts one evaluation; the key decides distinctness.
func (h *H) Case(format string, a ...any) {
	f := fnv.New64a()
	key := fmt.Sprintf(format, a...)
	_, _ = f.Write([]byte(key))
	h.mu.Lock()
	defer h.mu.Unlock()
	h.evals++
	h.seen[f.Sum64()] = struct{}{}
	if len(h.samples) < 3 {
		if len(key) > 400 {
			key = key[:400]
		}
		h.samples = append(h.samples, key)
	}
}

// Fail reports a failing input and ends the test.
func (h *H) Fail(what string, input any, format string, a ...any) {
	h.T.Helper()
	d := map[string]any{"test": h.T.Name(), "seed": h.Seed, "what": what, "input": fmt.Sprintf("%+v", input), "observed": fmt.Sprintf(format, a...)}
	b, _ := json.Marshal(d)
	if o := os.Getenv("VERIF_OUT"); o != "" {
		_ = os.WriteFile(filepath.Join(o, "fail-"+strings.ReplaceAll(h.T.Name(), "/", "_")+".json"), b, 0o644)
	}
	h.T.Fatalf("FAILING INPUT %s", b)
}

// Guard turns a panic of the code under test into a failing input.
func (h *H) Guard(what string, input any, f func()) {
	defer func() {
		if r := recover(); r != nil {
			h.Fail(what+": panic", input, "%v\n%s", r, debug.Stack())
		}
	}()
	f()
}

// Within runs f and reports a hang.
func (h *H) Within(what string, input any, d time.Duration, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				return
			}
			done <- nil
		}()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			h.Fail(what, input, "%v", r)
		}
	case <-time.After(d):
		h.Fail(what+": did not return", input, "no result after %v", d)
	}
}

// Known reports a listed finding, or a violation if it is not listed.
func (h *H) Known(prop, id string, what string, input any, observed string) {
	b, _ := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" "+id+" ") {
			h.mu.Lock()
			defer h.mu.Unlock()
			if !h.known[id] {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, id, what)
			}
			h.known[id] = true
			return
		}
	}
	h.Fail(what, input, "%s", observed)
}

func (h *H) done() {
	o := os.Getenv("VERIF_OUT")
	if o == "" {
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	b, _ := json.Marshal(map[string]any{"test": h.T.Name(), "evaluations": h.evals, "distinct": len(h.seen), "rule": h.rule, "samples": h.samples})
	_ = os.WriteFile(filepath.Join(o, "stat-"+strings.ReplaceAll(h.T.Name(), "/", "_")+".json"), b, 0o644)
}
