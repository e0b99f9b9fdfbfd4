package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Query renders assumptions /\ not goal as SMT-LIB.
func (c *Ctx) Query(assumps []*Term, goal *Term, axioms []*Term, cover bool) string {
	var roots []*Term
	roots = append(roots, axioms...)
	roots = append(roots, assumps...)
	if goal != nil {
		roots = append(roots, c.Not(goal))
	}
	// reference counts for sharing
	refs := map[int]int{}
	nodes := map[int]*Term{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t.id]++
		if refs[t.id] > 1 {
			return
		}
		nodes[t.id] = t
		for _, a := range t.Args {
			walk(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				walk(x)
			}
		}
		order = append(order, t)
	}
	for _, r := range roots {
		walk(r)
	}
	used := map[string]bool{}
	sorts := map[Sort]bool{}
	var noteSort func(s Sort)
	noteSort = func(s Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		if k, v, ok := arrParts(s); ok {
			noteSort(k)
			noteSort(v)
			return
		}
		if dt := c.dts[s]; dt != nil {
			for _, f := range dt.fsorts {
				noteSort(f)
			}
		}
	}
	strs := map[string]bool{}
	for _, t := range order {
		noteSort(t.Sort)
		for _, v := range t.Vars {
			noteSort(v.Sort)
		}
		if t.Op == "sym" {
			used[t.Name] = true
		} else if _, ok := c.decls[t.Op]; ok {
			used[t.Op] = true
		}
		if t.Op == "strlit" {
			strs[t.Name] = true
		}
	}
	for n := range used {
		d := c.decls[n]
		for _, a := range d.args {
			noteSort(a)
		}
		noteSort(d.ret)
	}
	var b strings.Builder
	if !c.strTheory && sorts[SStr] {
		b.WriteString("(declare-sort Str 0)\n")
	}
	if c.strTheory {
		b.WriteString("(define-sort Str () String)\n")
	}
	if sorts[SAny] {
		b.WriteString("(declare-sort Any 0)\n")
	}
	for _, s := range c.usList {
		if sorts[s] {
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", quoteSym(string(s)))
		}
	}
	// datatypes in dependency order (registered children first)
	for _, s := range c.dtList {
		if !sorts[s] {
			continue
		}
		dt := c.dts[s]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", s, quoteSym(dt.mk))
		for i, f := range dt.fields {
			fmt.Fprintf(&b, " (%s %s)", quoteSym(f), dt.fsorts[i])
		}
		b.WriteString("))))\n")
	}
	isDT := map[string]bool{}
	for _, dt := range c.dts {
		isDT[dt.mk] = true
		for _, f := range dt.fields {
			isDT[f] = true
		}
	}
	for _, n := range c.declList {
		if !used[n] || isDT[n] {
			continue
		}
		d := c.decls[n]
		fmt.Fprintf(&b, "(declare-fun %s (", quoteSym(n))
		for i, a := range d.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(string(a))
		}
		fmt.Fprintf(&b, ") %s)\n", d.ret)
	}
	var lits []string
	for s := range strs {
		lits = append(lits, s)
	}
	sort.Strings(lits)
	idx := map[string]string{}
	if !c.strTheory {
		for i, s := range lits {
			idx[s] = fmt.Sprintf("str!%d", i)
			fmt.Fprintf(&b, "(declare-fun str!%d () Str) ; %q\n", i, s)
		}
		if len(lits) > 1 {
			b.WriteString("(assert (distinct")
			for i := range lits {
				fmt.Fprintf(&b, " str!%d", i)
			}
			b.WriteString("))\n")
		}
		if used["slen"] {
			for i, s := range lits {
				fmt.Fprintf(&b, "(assert (= (slen str!%d) %d))\n", i, len(s))
			}
		}
	}
	shared := map[int]string{}
	named := patNames(order)
	var body strings.Builder
	for _, t := range order {
		if named[t.id] {
			fmt.Fprintf(&body, "(declare-fun g!%d () %s)\n(assert (= g!%d ", t.id, t.Sort, t.id)
			t.writeTop(&body, shared, 0)
			body.WriteString("))\n")
			shared[t.id] = fmt.Sprintf("g!%d", t.id)
			continue
		}
		if t.bnd || len(t.Args) == 0 || refs[t.id] < 2 {
			continue
		}
		body.WriteString(fmt.Sprintf("(define-fun t!%d () %s ", t.id, t.Sort))
		t.writeTop(&body, shared, 0)
		body.WriteString(")\n")
		shared[t.id] = fmt.Sprintf("t!%d", t.id)
	}
	for i, r := range roots {
		if i == len(roots)-1 && goal != nil {
			body.WriteString("; goal\n")
		}
		body.WriteString("(assert ")
		r.write(&body, shared, 0)
		body.WriteString(")\n")
	}
	bs := body.String()
	if strings.Contains(bs, "\x00S") {
		var o strings.Builder
		for {
			i := strings.Index(bs, "\x00S")
			if i < 0 {
				o.WriteString(bs)
				break
			}
			o.WriteString(bs[:i])
			j := strings.IndexByte(bs[i:], 1) + i
			lit := bs[i+2 : j]
			if c.strTheory {
				o.WriteString(smtString(lit))
			} else {
				o.WriteString(idx[lit])
			}
			bs = bs[j+1:]
		}
		bs = o.String()
	}
	return b.String() + bs + "(check-sat)\n"
}

// patNames selects the ground subterms of quantifier patterns that a solver
// would refuse in a trigger (they contain Boolean structure, an if-then-else in
// particular): these are given a name, so that the trigger remains usable.
func patNames(order []*Term) map[int]bool {
	out := map[int]bool{}
	memo := map[int]bool{}
	var bad func(t *Term) bool
	bad = func(t *Term) bool {
		if v, ok := memo[t.id]; ok {
			return v
		}
		r := false
		switch t.Op {
		case "ite", "and", "or", "not", "=>", "=", "<=", "<", "forall", "exists", "constarr":
			r = true
		}
		for _, a := range t.Args {
			if r {
				break
			}
			r = bad(a)
		}
		memo[t.id] = r
		return r
	}
	var mark func(t *Term)
	mark = func(t *Term) {
		if !bad(t) {
			return
		}
		if !t.bnd && t.Sort != SBool {
			out[t.id] = true
			return
		}
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, q := range order {
		for _, p := range q.Pats {
			for _, x := range p {
				mark(x)
			}
		}
	}
	return out
}

// Result of a query.
type Result struct {
	Status string // unsat, sat, unknown
	Solver string
	Ms     int64
	Model  string

	saturated int
}

type SolverPool struct {
	sem       chan struct{}
	mu        sync.Mutex
	cache     map[[32]byte]*Result
	Queries   int64
	Ms        int64
	PerSolver map[string]int
}

var pool = &SolverPool{sem: make(chan struct{}, 8), cache: map[[32]byte]*Result{}, PerSolver: map[string]int{}}

type solverCfg struct {
	name string
	args []string
	pre  string
	sat  bool // "unknown" before the limit means that instantiation is saturated
}

const preEm = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.ematching true)\n"
const preCs = preEm + "(set-option :smt.qi.eager_threshold 100.0)\n(set-option :smt.case_split 3)\n(set-option :smt.relevancy 2)\n"

var (
	cfgZ3     = solverCfg{"z3", []string{"z3", "-in", "-smt2"}, preCs, true}
	cfgZ3Em   = solverCfg{"z3-em", []string{"z3", "-in", "-smt2"}, preEm, true}
	cfgZ3New  = solverCfg{"z3-new", []string{"z3-new", "-in", "-smt2"}, preEm, true}
	cfgZ3Cs   = solverCfg{"z3-new-cs", []string{"z3-new", "-in", "-smt2"}, preCs, false}
	cfgZ3Auto = solverCfg{"z3-auto", []string{"z3-new", "-in", "-smt2"}, "", false}
	cfgCVC5   = solverCfg{"cvc5", []string{"cvc5", "--lang=smt2", "--quiet", "-"}, "(set-logic ALL)\n", false}
	cfgCVC5S  = solverCfg{"cvc5-str", []string{"cvc5", "--lang=smt2", "--quiet", "--strings-exp", "-"}, "(set-logic ALL)\n", false}
)

// runSolver limits the processor time of the solver, so that the outcome does
// not depend on what else the machine does; the wall clock limit is a backstop.
func runSolver(ctx context.Context, cfg solverCfg, q string, timeout time.Duration) *Result {
	pool.sem <- struct{}{}
	defer func() { <-pool.sem }()
	if ctx.Err() != nil {
		return &Result{Status: "cancelled", Solver: cfg.name}
	}
	cctx, cancel := context.WithTimeout(ctx, 5*timeout+5*time.Second)
	defer cancel()
	secs := int((timeout + time.Second - 1) / time.Second)
	cmd := exec.CommandContext(cctx, "/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -t %d; exec \"$@\"", secs), "sh"}, cfg.args...)...)
	cmd.Stdin = strings.NewReader(cfg.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	ms := time.Since(t0).Milliseconds()
	atomic.AddInt64(&pool.Queries, 1)
	atomic.AddInt64(&pool.Ms, ms)
	r := &Result{Status: "timeout", Solver: cfg.name, Ms: ms}
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			r.Status = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR", cfg.name, l)
			if d := os.Getenv("GOVC_DUMP"); d != "" {
				_ = os.WriteFile(d+"/error.smt2", []byte(cfg.pre+q), 0o644)
			}
			r.Status = "error"
			break
		}
	}
	return r
}

// Solve runs the portfolio. Only "unsat" and "sat" are conclusive. With giveUp,
// the search ends when two solvers have run out of instances.
func Solve(q string, strTheory bool, quick time.Duration, full time.Duration, giveUp bool) *Result {
	h := sha256.Sum256([]byte(fmt.Sprintf("%v%v%v", strTheory, full, giveUp) + q))
	pool.mu.Lock()
	if r, ok := pool.cache[h]; ok {
		pool.mu.Unlock()
		return r
	}
	pool.mu.Unlock()
	var r *Result
	bg := context.Background()
	var total int64
	if strTheory {
		r = race(bg, q, quick+full, 0, 0, cfgZ3Auto, cfgCVC5S)
		total = r.Ms
	} else {
		r = runSolver(bg, cfgZ3New, q, quick)
		total = r.Ms
		if r.Status != "unsat" {
			n := 0
			if r.Status == "unknown" {
				n = 1
			}
			need := 0
			if giveUp {
				need = 2
			}
			if full == 0 {
				r = race(bg, q, quick, n, need, cfgZ3, cfgZ3Em)
			} else {
				r = race(bg, q, quick, n, 0, cfgZ3, cfgZ3Em, cfgZ3Auto, cfgCVC5)
				total += r.Ms
				if need > 0 && r.saturated >= need {
					r.Status = "saturated"
				}
				if r.Status != "unsat" && r.Status != "saturated" {
					cf := []solverCfg{cfgZ3, cfgZ3Em, cfgZ3Auto, cfgCVC5}
					if n == 0 {
						cf = append(cf, cfgZ3New)
					}
					r = race(bg, q, full, n, need, cf...)
				}
			}
			total += r.Ms
		}
	}
	if r.Status != "unsat" && r.Status != "sat" {
		r.Status = "unknown"
	}
	r.Ms = total
	pool.mu.Lock()
	pool.cache[h] = r
	pool.PerSolver[r.Solver+":"+r.Status]++
	pool.mu.Unlock()
	return r
}

func race(bg context.Context, q string, timeout time.Duration, saturated, need int, cfgs ...solverCfg) *Result {
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	ch := make(chan *Result, len(cfgs))
	sat := map[string]bool{}
	for _, cf := range cfgs {
		cf := cf
		sat[cf.name] = cf.sat
		go func() { ch <- runSolver(ctx, cf, q, timeout) }()
	}
	var best *Result
	for range cfgs {
		r := <-ch
		if r.Status == "unsat" {
			return r
		}
		if r.Status == "sat" && (r.Solver == "z3-auto" || r.Solver == "cvc5" || r.Solver == "cvc5-str") {
			return r
		}
		if r.Status == "unknown" && sat[r.Solver] {
			saturated++
			if need > 0 && saturated >= need {
				return &Result{Status: "saturated", Solver: r.Solver, Ms: r.Ms}
			}
		}
		if best == nil || r.Ms > best.Ms {
			best = r
		}
	}
	best.Status = "unknown"
	best.saturated = saturated
	return best
}

// SolveCover looks for a contradiction in the assumptions.
func SolveCover(q string, strTheory bool) *Result {
	cfg := cfgZ3New
	if strTheory {
		cfg = cfgZ3Auto
	}
	return runSolver(context.Background(), cfg, q, 2*time.Second)
}
