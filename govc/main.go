// govc: a contract verifier for the Go code of rangedb.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"go/types"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Report struct {
	Prop      string         `json:"prop"`
	Functions []*FuncReport  `json:"functions"`
	Trusted   []string       `json:"trusted"`
	Unbound   []string       `json:"unbound,omitempty"`
	Obls      int            `json:"obligations"`
	Done      int            `json:"discharged"`
	Failed    int            `json:"failed"`
	Solvers   map[string]int `json:"solver_results"`
	Queries   int64          `json:"queries"`
	SolverMs  int64          `json:"solver_ms"`
	WallS     float64        `json:"wall_s"`
	Axioms    []string       `json:"axioms,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	dir := flag.String("specs", "/verif/contracts", "")
	prop := flag.String("prop", "", "verify the contracts tagged with this property")
	only := flag.String("func", "", "verify contracts whose key contains this text")
	all := flag.Bool("all", false, "")
	out := flag.String("json", "", "")
	verbose := flag.Bool("v", false, "")
	ssaOut := flag.String("ssa", "", "print the SSA of functions whose key contains this text")
	tmo := flag.Duration("t", 20*time.Second, "")
	par := flag.Int("j", 4, "functions verified at once")
	flag.Parse()
	proofTimeout = *tmo
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: *repo}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
		}
		if len(p.Errors) > 0 {
			os.Exit(2)
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	specs, err := LoadSpecs(*dir, pkgs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fns := map[string]*ssa.Function{}
	allF := ssautil.AllFunctions(prog)
	for _, pkg := range prog.AllPackages() { // methods of types never converted to an interface
		if !strings.HasPrefix(pkg.Pkg.Path(), modulePath) {
			continue
		}
		for _, m := range pkg.Members {
			if tn, ok := m.(*ssa.Type); ok {
				if named, ok := tn.Type().(*types.Named); ok {
					for i := 0; i < named.NumMethods(); i++ {
						if f := prog.FuncValue(named.Method(i)); f != nil {
							allF[f] = true
							for _, a := range f.AnonFuncs {
								allF[a] = true
							}
						}
					}
				}
			}
		}
	}
	specs.closedElems = closedElems(allF)
	for f := range allF {
		if len(f.Blocks) == 0 {
			continue
		}
		if f.Synthetic != "" && !strings.Contains(f.Synthetic, "instance") {
			continue
		}
		fns[fnKey(f)] = f
	}
	if *ssaOut != "" {
		for k, f := range fns {
			if strings.Contains(k, *ssaOut) {
				fmt.Println("//", k)
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	rep := &Report{Prop: *prop}
	var todo []*Contract
	for _, k := range specs.order {
		con := specs.Funcs[k]
		if f := fns[k]; f != nil {
			con.fn = f
		}
		ext := con.Trusted || con.Inline || strings.HasPrefix(k, "iface ") || strings.HasPrefix(k, "field ") || strings.HasPrefix(k, "functype ") || strings.HasPrefix(k, "var ")
		if ext {
			continue
		}
		sel := *all || (*only != "" && strings.Contains(k, *only))
		for _, p := range con.Props {
			if p == *prop {
				sel = true
			}
		}
		if !sel {
			continue
		}
		if con.fn == nil {
			if !con.Optional {
				rep.Unbound = append(rep.Unbound, k)
			}
			continue
		}
		todo = append(todo, con)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, *par)
	for _, con := range todo {
		con := con
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := verify(prog, specs, con, *verbose)
			mu.Lock()
			defer mu.Unlock()
			rep.Functions = append(rep.Functions, r)
			fmt.Printf("%-7s %s: %d/%d obligations, %d paths, %d loops, %d invariants, %dms\n", r.Status, r.Key, r.Discharged, r.Obligations, r.Paths, r.Loops, r.Invariants, r.Ms)
			for i, f := range r.Failed {
				if i > 25 {
					break
				}
				fmt.Printf("   FAILED [%s] %s %s %s (%s) %s\n", f.Kind, f.Name, f.Pos, f.Trail, f.Status, f.Detail)
				if d := os.Getenv("GOVC_DUMP"); d != "" && f.Query != "" {
					_ = os.WriteFile(fmt.Sprintf("%s/fail_%s_%d.smt2", d, sanitize(r.Key), i), []byte(cfgZ3.pre+f.Query), 0o644)
				}
			}
		}()
	}
	wg.Wait()
	sort.Slice(rep.Functions, func(i, j int) bool { return rep.Functions[i].Key < rep.Functions[j].Key })
	tr := map[string]bool{}
	for _, f := range rep.Functions {
		rep.Obls += f.Obligations
		rep.Done += f.Discharged
		rep.Failed += len(f.Failed)
		for _, u := range f.Used {
			con := specs.Funcs[u]
			if con.fn == nil || con.Trusted {
				tr["assumed contract: "+u] = true
			}
		}
		for _, o := range f.Opaque {
			tr["no contract, result unconstrained and effects limited to its arguments: "+o] = true
		}
		for _, a := range f.Assumes {
			tr[a] = true
		}
	}
	rep.Trusted = keysOf(tr)
	rep.Failed += len(rep.Unbound)
	rep.Obls += len(rep.Unbound)
	for _, u := range rep.Unbound {
		fmt.Printf("failed  %s: no such function in the source tree\n", u)
	}
	for _, a := range specs.Axioms {
		rep.Axioms = append(rep.Axioms, a.Src)
	}
	for g := range specs.NonNil {
		rep.Axioms = append(rep.Axioms, g+" is set")
	}
	sort.Strings(rep.Axioms)
	rep.Solvers, rep.Queries, rep.SolverMs = pool.PerSolver, pool.Queries, pool.Ms
	rep.WallS = time.Since(t0).Seconds()
	fmt.Printf("functions %d, obligations %d, discharged %d, failed %d, %d solver queries, %.1fs\n", len(rep.Functions), rep.Obls, rep.Done, rep.Failed, rep.Queries, rep.WallS)
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if rep.Failed > 0 {
		os.Exit(1)
	}
}
