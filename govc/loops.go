package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopCtl struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	discard bool
	back    *[]backState
	entry   *State
	entryFr *frame
	vals    []token.Pos
}

type backState struct {
	fr   *frame
	st   *State
	from *ssa.BasicBlock
}

type loopInfo struct {
	dead map[string]bool // dropped candidates
}

var loopCache sync.Map

// loopBlocks returns the natural loop of header h, or nil.
func loopBlocks(h *ssa.BasicBlock) []*ssa.BasicBlock {
	if v, ok := loopCache.Load(h); ok {
		return v.([]*ssa.BasicBlock)
	}
	in := map[*ssa.BasicBlock]bool{}
	found := false
	var stack []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			found = true
			if !in[p] {
				in[p] = true
				stack = append(stack, p)
			}
		}
	}
	var out []*ssa.BasicBlock
	if found {
		in[h] = true
		for len(stack) > 0 {
			b := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if b == h {
				continue
			}
			for _, p := range b.Preds {
				if !in[p] {
					in[p] = true
					stack = append(stack, p)
				}
			}
		}
		for _, b := range h.Parent().Blocks {
			if in[b] {
				out = append(out, b)
			}
		}
	}
	loopCache.Store(h, out)
	return out
}

func (x *Exec) enter(fr *frame, st *State, from, to *ssa.BasicBlock) []outcome {
	// leaving loops
	for h, ctl := range fr.loops {
		if !ctl.blocks[to] {
			if ctl.discard {
				return nil
			}
			delete(fr.loops, h)
			delete(fr.kcount, h)
		}
	}
	if ctl := fr.loops[to]; ctl != nil {
		*ctl.back = append(*ctl.back, backState{fr, st, from})
		return nil
	}
	if lb := loopBlocks(to); len(lb) > 0 {
		return x.execLoop(fr, st, from, to, lb)
	}
	x.phis(fr, st, from, to)
	return x.step(fr, st, to, firstNonPhi(to))
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func headerPhis(h *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

// modset: heap -> nil (whole) or list of loop-invariant keys; fresh marks writes to objects allocated in the loop.
type modEnt struct {
	whole bool
	fresh bool
	keys  map[int]*Term
}

func (x *Exec) execLoop(fr *frame, st *State, from, h *ssa.BasicBlock, blocks []*ssa.BasicBlock) []outcome {
	c := x.c
	x.stats.loops++
	bset := map[*ssa.BasicBlock]bool{}
	for _, b := range blocks {
		bset[b] = true
	}
	x.phis(fr, st, from, h)
	entrySt, entryFr := st.clone(), fr.clone()
	key := fmt.Sprintf("%s|%s|%d|%s", fr.path, fr.fn.String(), h.Index, st.trail)

	run := func(f *frame, s *State, discard bool, back *[]backState) []outcome {
		f.loops[h] = &loopCtl{header: h, blocks: bset, discard: discard, back: back, entry: entrySt, entryFr: entryFr}
		return x.step(f, s, h, firstNonPhi(h))
	}

	mods := map[string]*modEnt{}
	havoc := func() (*frame, *State) {
		f, s := entryFr.clone(), entrySt.clone()
		a := c.Fresh("alloc", SInt)
		s.fact(c.raw("<=", SBool, entrySt.alloc, a))
		s.alloc = a
		for _, hn := range sortedKeys(mods) {
			m := mods[hn]
			x.havocHeap(s, hn, m, entrySt.alloc)
		}
		for _, p := range headerPhis(h) {
			iv := entryFr.env[p]
			if iv.T == nil && iv.Loc == nil && iv.Fn == nil && iv.Tup == nil {
				panic(unsupported("loop-carried value %s", p.Name()))
			}
			if iv.T == nil {
				panic(unsupported("loop-carried address or function %s", p.Name()))
			}
			name := p.Comment
			if name == "" {
				name = p.Name()
			}
			v := c.Fresh(name, iv.T.Sort)
			x.typeFacts(s, v, p.Type())
			f.env[p] = Val{T: v, Guard: iv.Guard}
		}
		k := c.Fresh("k", SInt)
		s.fact(c.raw("<=", SBool, c.I(0), k))
		if k.lo == nil {
			k.lo = c.I(0).Int
		}
		f.kcount[h] = k
		for _, iv := range entrySt.vis {
			_ = iv
		}
		return f, s
	}

	// discovery of the modified set
	for iter := 0; ; iter++ {
		if iter > 8 {
			panic(unsupported("loop modification set does not stabilise"))
		}
		mark := c.n
		f, s := havoc()
		log := &writeLog{m: map[string]map[int]*Term{}}
		x.writeLogs = append(x.writeLogs, log)
		x.quiet++
		x.discover++
		var back []backState
		run(f, s, true, &back)
		x.discover--
		x.quiet--
		x.writeLogs = x.writeLogs[:len(x.writeLogs)-1]
		changed := false
		for hn, keys := range log.m {
			if strings.HasPrefix(hn, "VIS#") && entrySt.heap[hn] == nil {
				continue
			}
			m := mods[hn]
			if m == nil {
				m = &modEnt{keys: map[int]*Term{}}
				mods[hn] = m
				changed = true
			}
			for id, kt := range keys {
				switch {
				case id == 0:
					if !m.whole {
						m.whole = true
						changed = true
					}
				case x.isLoopFresh(kt, mark):
					if !m.fresh {
						m.fresh = true
						changed = true
					}
				case x.invariantTerm(kt, mark):
					if m.keys[id] == nil {
						m.keys[id] = kt
						changed = true
					}
				default:
					if !m.whole {
						m.whole = true
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}

	// invariant inference
	var live []*candidate
	if x.discover == 0 {
		li := x.loopInv[key]
		if li == nil {
			li = &loopInfo{dead: map[string]bool{}}
			x.loopInv[key] = li
		}
		all := x.candidates(entryFr, entrySt, h, bset)
		all = append(all, x.frameCandidates(entryFr, entrySt, h, mods)...)
		for _, cd := range all {
			if !li.dead[cd.id] {
				live = append(live, cd)
			}
		}
		x.stats.cands += len(live)
		zero := c.I(0)
		// initially
		var qs []*houdQ
		for _, cd := range live {
			f0 := entryFr.clone()
			f0.kcount[h] = zero
			g, err := x.evalCand(cd, f0, entrySt.clone(), entrySt, h)
			if err != nil {
				li.dead[cd.id] = true
				if x.verbose {
					fmt.Fprintf(os.Stderr, "  [cand] %s: %v\n", cd.id, err)
				}
				continue
			}
			qs = append(qs, &houdQ{cd: cd, st: g.st, goal: g.t})
		}
		x.solveHoud(qs, "init "+key)
		live = live[:0]
		for _, q := range qs {
			if q.ok {
				live = append(live, q.cd)
			} else {
				li.dead[q.cd.id] = true
				if x.verbose {
					fmt.Fprintf(os.Stderr, "  [cand] %s fails initially at %s\n", q.cd.id, key)
				}
			}
		}
		for round := 0; ; round++ {
			f, s := havoc()
			kc := f.kcount[h]
			for _, cd := range live {
				g, err := x.evalCand(cd, f, s, entrySt, h)
				if err != nil {
					panic(unsupported("candidate %s: %v", cd.id, err))
				}
				s.fact(g.t)
			}
			var back []backState
			x.quiet++
			run(f, s, true, &back)
			x.quiet--
			qs = nil
			for _, b := range back {
				kn := c.Add(kc, c.I(1))
				x.phis(b.fr, b.st, b.from, h)
				b.fr.kcount[h] = kn
				if !sameLocks(b.st, entrySt) {
					panic(unsupported("locks differ across loop iterations"))
				}
				for _, cd := range live {
					s2 := b.st.clone()
					g, err := x.evalCand(cd, b.fr, s2, entrySt, h)
					if err != nil {
						g = evald{c.False, s2}
					}
					qs = append(qs, &houdQ{cd: cd, st: g.st, goal: g.t})
				}
			}
			x.solveHoud(qs, "step "+key)
			drop := map[string]bool{}
			for _, q := range qs {
				if !q.ok {
					drop[q.cd.id] = true
					li.dead[q.cd.id] = true
					if x.verbose && !strings.HasPrefix(q.cd.id, "auto") {
						fmt.Fprintf(os.Stderr, "  [cand] %s not preserved at %s trail %s\n", q.cd.id, key, q.st.trail)
					}
				}
			}
			if len(drop) == 0 {
				if x.quiet == 0 {
					for _, cd := range live {
						x.obls = append(x.obls, &Obligation{Name: "loop invariant: " + cd.id, Kind: "invariant", Pos: x.posStr(loopPos(h)), Trail: key, Status: "proved", Solver: "houdini", Fn: x.unit})
					}
				}
				break
			}
			var nl []*candidate
			for _, cd := range live {
				if !drop[cd.id] {
					nl = append(nl, cd)
				}
			}
			live = nl
		}
		x.stats.kept += len(live)
	}

	// final: an arbitrary iteration, then the code after the loop
	f, s := havoc()
	for _, cd := range live {
		g, err := x.evalCand(cd, f, s, entrySt, h)
		if err == nil {
			s.fact(g.t)
		}
	}
	s.trail += fmt.Sprintf("L%d", h.Index)
	steps := x.steps(fr, h)
	hk := f.kcount[h]
	if len(steps) > 0 {
		s.pre["loophead"] = s.clone()
	}
	var back []backState
	outs := run(f, s, false, &back)
	if x.discover == 0 && x.quiet == 0 {
		for _, b := range back {
			for _, sp := range steps {
				s2 := b.st.clone()
				bs := map[string]SV{"$k": {T: hk, Typ: types.Typ[types.Int]}}
				for k, v := range x.binds {
					bs[k] = v
				}
				e := &specEval{x: x, st: s2, old: x.entry, entry: entrySt, binds: bs}
				x.obligeAll(s2, "step", "step "+sp.Label, loopPos(h), x.specEval1(e, sp.Clause, "step"))
			}
		}
	}
	return outs
}

// steps lists the step clauses for a loop.
func (x *Exec) steps(fr *frame, h *ssa.BasicBlock) []StepSpec {
	var r []StepSpec
	if x.contract == nil {
		return nil
	}
	for _, sp := range x.contract.Steps {
		if loopIs(fr, h, sp.Where) {
			r = append(r, sp)
		}
	}
	return r
}

func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

func sameLocks(a, b *State) bool {
	if len(a.locks) != len(b.locks) {
		return false
	}
	for i := range a.locks {
		if a.locks[i].key != b.locks[i].key || a.locks[i].base != b.locks[i].base || a.locks[i].write != b.locks[i].write {
			return false
		}
	}
	return true
}

func (x *Exec) havocHeap(s *State, hn string, m *modEnt, allocPre *Term) {
	c := x.c
	srt := x.heapSorts[hn]
	if srt == "" {
		return
	}
	cur := s.getHeap(hn, srt)
	log := func(t *Term, k *Term) { s.setHeap(hn, t, k) }
	if m.whole {
		log(c.Fresh("H."+hn, srt), nil)
		return
	}
	_, vs, ok := arrParts(srt)
	if !ok {
		log(c.Fresh("H."+hn, srt), nil)
		return
	}
	ids := []int{}
	for id := range m.keys {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if m.fresh {
		nh := c.Fresh("H."+hn, srt)
		r := c.BV("r", SInt)
		var ne []*Term
		for _, id := range ids {
			ne = append(ne, c.Ne(r, m.keys[id]))
		}
		s.fact(c.Forall([]*Term{r}, [][]*Term{{c.raw("select", vs, nh, r)}},
			c.Imp(c.And(append(ne, c.Lt(r, allocPre))...), c.Eq(c.raw("select", vs, nh, r), c.Select(cur, r)))))
		// writes are attributed to the keys and to fresh objects
		s.heap[hn] = nh
		for _, l := range x.writeLogs {
			for _, id := range ids {
				l.add(x, hn, m.keys[id])
			}
			l.add(x, hn, allocPre)
		}
		return
	}
	for _, id := range ids {
		k := m.keys[id]
		v := c.Fresh("hv."+hn, vs)
		cur = c.Store(cur, k, v)
		log(cur, k)
		if et := x.heapElem[hn]; et != nil && (strings.HasPrefix(hn, "F.") || strings.HasPrefix(hn, "C.")) {
			x.typeFacts(s, v, et)
		}
	}
}

// invariantTerm: built only from symbols older than mark.
func (x *Exec) invariantTerm(t *Term, mark int) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		if t.Op == "sym" && t.id > mark && !strings.HasPrefix(t.Name, "H0.") {
			return false
		}
		if t.Op == "sym" && strings.HasPrefix(t.Name, "H0.") {
			return true
		}
		for _, a := range t.Args {
			if !f(a) {
				return false
			}
		}
		return true
	}
	return f(t)
}

// isLoopFresh: alloc!n + const with alloc!n created after mark.
func (x *Exec) isLoopFresh(t *Term, mark int) bool {
	l := x.c.lin(t)
	if len(l.ms) != 1 {
		return false
	}
	for id, s := range l.ts {
		_ = id
		if s.Op == "sym" && strings.HasPrefix(s.Name, "alloc!") && s.id > mark {
			return true
		}
	}
	return false
}

type candidate struct {
	id   string
	auto func(f *frame, s *State) *Term
	expr *Node
	hole map[string]ssa.Value
	con  *Contract
	spec *InvSpec
}

type evald struct {
	t  *Term
	st *State
}

type houdQ struct {
	cd   *candidate
	st   *State
	goal *Term
	ok   bool
}

var houdTimeout = 15 * time.Second

func (x *Exec) solveHoud(qs []*houdQ, what string) {
	var wg sync.WaitGroup
	for _, q := range qs {
		if q.st.dead {
			q.ok = true
			continue
		}
		if v, ok := q.st.decided(q.goal); ok {
			q.ok = v
			if v {
				continue
			}
			if q.goal == x.c.False {
				// the path may still be infeasible
			}
		}
		x.houdiniQ++
		txt := x.query(q.st.pc, q.goal)
		wg.Add(1)
		go func(q *houdQ) {
			defer wg.Done()
			t0 := time.Now()
			full := houdTimeout
			if x.contract != nil && x.contract.HoudSec > 0 {
				full = time.Duration(x.contract.HoudSec) * time.Second
			}
			if strings.HasPrefix(q.cd.id, "auto") {
				full = 0
			}
			r := Solve(txt, x.c.strTheory, 2*time.Second, full, true)
			q.ok = r.Status == "unsat"
			if d := time.Since(t0); x.verbose && d > 2*time.Second {
				fmt.Fprintf(os.Stderr, "  [slow %v %s] %s %s\n", d.Round(time.Millisecond), r.Status, q.cd.id, what)
				if dd := os.Getenv("GOVC_DUMP"); dd != "" {
					_ = os.WriteFile(dd+"/"+sanitize("houd_"+q.cd.id+q.st.trail)+".smt2", []byte(cfgZ3.pre+txt), 0o644)
				}
			}
		}(q)
	}
	wg.Wait()
}

// candidates builds automatic and contract-supplied invariants for a loop.
func (x *Exec) candidates(fr *frame, st *State, h *ssa.BasicBlock, bset map[*ssa.BasicBlock]bool) []*candidate {
	c := x.c
	var out []*candidate
	phis := headerPhis(h)
	for _, p := range phis {
		p := p
		iv := fr.env[p].T
		if iv == nil {
			continue
		}
		if iv.Sort == SInt && isInteger(p.Type()) {
			// linear in the iteration count
			step, ok := phiStep(p, h, bset)
			if ok {
				out = append(out, &candidate{id: "auto:lin:" + p.Name(), auto: func(f *frame, s *State) *Term {
					return c.Eq(f.env[p].T, c.Add(iv, c.Mul(c.I(step), f.kcount[h])))
				}})
			}
			out = append(out, &candidate{id: "auto:ge:" + p.Name(), auto: func(f *frame, s *State) *Term { return c.Le(iv, f.env[p].T) }})
			if ok && step < 0 {
				out = append(out, &candidate{id: "auto:down:" + p.Name(), auto: func(f *frame, s *State) *Term { return c.And(c.Le(f.env[p].T, iv), c.Le(c.I(-1), f.env[p].T)) }})
			}
			out = append(out, &candidate{id: "auto:kge:" + p.Name(), auto: func(f *frame, s *State) *Term { return c.Le(f.env[p].T, c.Add(iv, f.kcount[h])) }})
			// bounds taken from comparisons
			for b := range bset {
				for _, in := range b.Instrs {
					bo, ok := in.(*ssa.BinOp)
					if !ok {
						continue
					}
					var lim ssa.Value
					strict := false
					plus := int64(0)
					if bo.Op == token.LSS || bo.Op == token.LEQ {
						l := bo.X
						if o, isb := l.(*ssa.BinOp); isb && o.Op == token.ADD && o.X == ssa.Value(p) {
							if k, isk := o.Y.(*ssa.Const); isk {
								plus = k.Int64()
								l = p
							}
						}
						if l == ssa.Value(p) {
							lim = bo.Y
							strict = bo.Op == token.LSS
						}
					}
					if lim == nil {
						continue
					}
					if call, isCall := lim.(*ssa.Call); isCall && bset[call.Block()] {
						// the length of something that does not change in the loop
						if bi, isB := call.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
							a := call.Call.Args[0]
							if ai, isIn := a.(ssa.Instruction); isIn && bset[ai.Block()] {
								// a captured or addressed variable, loaded again each time round
								ld, isLoad := a.(*ssa.UnOp)
								if !isLoad || ld.Op != token.MUL {
									continue
								}
								if _, isG := ld.X.(*ssa.Global); isG {
									continue
								}
								if xi, isIn2 := ld.X.(ssa.Instruction); isIn2 && bset[xi.Block()] {
									continue
								}
								av, def := fr.env[ld.X]
								if _, isFree := ld.X.(*ssa.FreeVar); isFree {
									av, def = x.val(fr, st, ld.X), true
								}
								if def && x.sortOf(a.Type()) == SSl && av.Loc == nil && av.T != nil || def && av.Loc != nil && av.Loc.kind == "cell" {
									pl := plus
									out = append(out, &candidate{id: fmt.Sprintf("auto:lelen:%s:*%s:%d", p.Name(), ld.X.Name(), plus), auto: func(f *frame, s *State) *Term {
										lv := x.loadPtr(s, av, a.Type(), token.NoPos)
										if lv.T == nil || lv.T.Sort != SSl {
											return c.True
										}
										return c.Le(c.Add(f.env[p].T, c.I(pl)), c.Get(lv.T, 2))
									}})
								}
								continue
							}
							av, def := fr.env[a]
							if _, isFree := a.(*ssa.FreeVar); isFree {
								av, def = x.val(fr, st, a), true
							}
							if def && av.T != nil && av.T.Sort == SSl {
								lt, pl := c.Get(av.T, 2), plus
								out = append(out, &candidate{id: fmt.Sprintf("auto:lelen:%s:%s:%d", p.Name(), a.Name(), plus), auto: func(f *frame, s *State) *Term {
									return c.Le(c.Add(f.env[p].T, c.I(pl)), lt)
								}})
							}
						}
						continue
					}
					if li, isIn := lim.(ssa.Instruction); isIn && bset[li.Block()] {
						continue
					}
					if _, isC := lim.(*ssa.Const); !isC {
						if _, def := fr.env[lim]; !def {
							continue
						}
					}
					lt := x.term(st, x.val(fr, st, lim), lim.Type())
					_ = strict
					pl := plus
					out = append(out, &candidate{id: fmt.Sprintf("auto:le:%s:%s:%d", p.Name(), lim.Name(), plus), auto: func(f *frame, s *State) *Term {
						// phi+plus < lim holds inside; at the header phi+plus <= lim
						return c.Le(c.Add(f.env[p].T, c.I(pl)), lt)
					}})
				}
			}
		}
		if iv.Sort == SSl {
			out = append(out, &candidate{id: "auto:len:" + p.Name(), auto: func(f *frame, s *State) *Term {
				return c.Eq(c.Get(f.env[p].T, 2), c.Add(c.Get(iv, 2), f.kcount[h]))
			}})
			out = append(out, &candidate{id: "auto:off:" + p.Name(), auto: func(f *frame, s *State) *Term {
				return c.Eq(c.Get(f.env[p].T, 1), c.Get(iv, 1))
			}})
			al := st.alloc
			out = append(out, &candidate{id: "auto:arr:" + p.Name(), auto: func(f *frame, s *State) *Term {
				a := c.Get(f.env[p].T, 0)
				return c.Or(c.Eq(a, c.Get(iv, 0)), c.Le(al, a))
			}})
		}
		if iv.Sort == SInt && !isInteger(p.Type()) {
			out = append(out, &candidate{id: "auto:nn:" + p.Name(), auto: func(f *frame, s *State) *Term { return c.Ne(f.env[p].T, c.I(0)) }})
		}
	}
	if x.contract != nil {
		for i := range x.contract.Invs {
			iv := &x.contract.Invs[i]
			if iv.Where != "" && !loopIs(fr, h, iv.Where) {
				continue
			}
			x.instHoles(fr, st, h, iv, 0, map[string]ssa.Value{}, &out)
		}
	}
	return out
}

// loopIs: where gives a nesting depth, m (over a map) or s (not over a map).
func loopIs(fr *frame, h *ssa.BasicBlock, where string) bool {
	depth := 1
	for f := fr; f != nil; f = f.parent {
		for l := range f.loops {
			if l != h || f != fr {
				depth++
			}
		}
	}
	overMap := false
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			overMap = true
		}
	}
	for _, w := range where {
		switch {
		case w >= '1' && w <= '9' && int(w-'0') != depth, w == 'm' && !overMap, w == 's' && overMap:
			return false
		}
	}
	return true
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func phiStep(p *ssa.Phi, h *ssa.BasicBlock, bset map[*ssa.BasicBlock]bool) (int64, bool) {
	var step int64
	first := true
	for i, e := range p.Edges {
		if !bset[h.Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(p) {
			return 0, false
		}
		k, ok := bo.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return 0, false
		}
		v := k.Int64()
		if bo.Op == token.SUB {
			v = -v
		} else if bo.Op != token.ADD {
			return 0, false
		}
		if !first && v != step {
			return 0, false
		}
		step, first = v, false
	}
	return step, !first
}

// instHoles enumerates typed holes over live registers.
func (x *Exec) instHoles(fr *frame, st *State, h *ssa.BasicBlock, iv *InvSpec, n int, cur map[string]ssa.Value, out *[]*candidate) {
	if n == len(iv.Holes) {
		id := iv.Label
		hm := map[string]ssa.Value{}
		for _, hl := range iv.Holes {
			id += ":" + hl.Name + "=" + cur[hl.Name].Name()
			hm[hl.Name] = cur[hl.Name]
		}
		*out = append(*out, &candidate{id: id, expr: iv.Expr, hole: hm, con: x.contract, spec: iv})
		return
	}
	hl := iv.Holes[n]
	var cands []ssa.Value
	seen := map[ssa.Value]bool{}
	want, err := x.specs.goType(hl.Type)
	if err != nil {
		return
	}
	add := func(v ssa.Value) {
		if seen[v] || !types.Identical(types.Unalias(v.Type()), want) {
			return
		}
		if fr.env[v].T == nil || !liveAt(v, h) {
			return
		}
		seen[v] = true
		cands = append(cands, v)
	}
	for _, p := range headerPhis(h) {
		add(p)
	}
	if !hl.PhiOnly {
		var vs []ssa.Value
		for v := range fr.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			if _, isPhi := v.(*ssa.Phi); isPhi {
				add(v)
			}
			if _, isPar := v.(*ssa.Parameter); isPar && (!hl.NoPar || fr.parent != nil) {
				add(v)
			}
			if _, isCall := v.(*ssa.Call); isCall {
				add(v)
			}
			switch v.(type) {
			case *ssa.MakeSlice, *ssa.MakeMap, *ssa.UnOp, *ssa.Lookup, *ssa.Slice, *ssa.MakeChan, *ssa.Extract, *ssa.Alloc:
				add(v)
			}
		}
	}
	if !hl.PhiOnly { // captured variables, by their current value
		for _, fv := range fr.fn.FreeVars {
			if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && types.Identical(types.Unalias(pt.Elem()), want) {
				cands = append(cands, fv)
			} else if types.Identical(types.Unalias(fv.Type()), want) {
				cands = append(cands, fv)
			}
		}
	}
	for _, v := range cands {
		cur[hl.Name] = v
		x.instHoles(fr, st, h, iv, n+1, cur, out)
	}
	delete(cur, hl.Name)
}

// liveAt: v is a parameter, a phi of h, or used by code reachable from h.
func liveAt(v ssa.Value, h *ssa.BasicBlock) bool {
	if _, ok := v.(*ssa.Parameter); ok {
		return true
	}
	if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
		return true
	}
	rs := v.Referrers()
	if rs == nil {
		return true
	}
	var def *ssa.BasicBlock
	if in, ok := v.(ssa.Instruction); ok {
		def = in.Block() // a path through the definition redefines v
	}
	if def == h {
		return false
	}
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if reach[b] || b == def {
			return
		}
		reach[b] = true
		for _, t := range b.Succs {
			walk(t)
		}
	}
	walk(h)
	for _, r := range *rs {
		if p, ok := r.(*ssa.Phi); ok {
			for i, e := range p.Edges {
				if e == v && reach[p.Block().Preds[i]] {
					return true
				}
			}
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if reach[r.Block()] {
			return true
		}
	}
	return false
}

func (x *Exec) evalCand(cd *candidate, f *frame, s *State, entry *State, h *ssa.BasicBlock) (r evald, err error) {
	if cd.auto != nil {
		return evald{cd.auto(f, s), s}, nil
	}
	defer func() {
		if e := recover(); e != nil {
			if se, ok := e.(*specErr); ok {
				err = se
				return
			}
			panic(e)
		}
	}()
	binds := map[string]SV{}
	for k, v := range x.binds {
		binds[k] = v
	}
	for n, v := range cd.hole {
		if fv, ok := v.(*ssa.FreeVar); ok {
			t := fv.Type()
			vv := x.val(f, s, fv)
			for _, hl := range cd.spec.Holes {
				if hl.Name == n {
					if want, err := x.specs.goType(hl.Type); err == nil && !types.Identical(types.Unalias(t), want) {
						t = derefT(t)
						vv = x.loadPtr(s, vv, t, token.NoPos)
					}
				}
			}
			if vv.T == nil {
				return evald{}, fmt.Errorf("hole %s unavailable", n)
			}
			binds[n] = SV{T: vv.T, Typ: t}
			continue
		}
		vv, ok := f.env[v]
		if !ok || vv.T == nil {
			return evald{}, fmt.Errorf("hole %s unavailable", n)
		}
		binds[n] = SV{T: vv.T, Typ: v.Type()}
	}
	binds["$k"] = SV{T: f.kcount[h], Typ: types.Typ[types.Int]}
	e := &specEval{x: x, st: s, old: x.entry, entry: entry, binds: binds}
	return evald{e.boolean(cd.expr), s}, nil
}

// frameCandidates: heaps written at unknown places may still leave older objects alone.
func (x *Exec) frameCandidates(fr *frame, st *State, h *ssa.BasicBlock, mods map[string]*modEnt) []*candidate {
	c := x.c
	var out []*candidate
	var excl []*Term
	for _, p := range headerPhis(h) {
		if iv := fr.env[p].T; iv != nil && iv.Sort == SSl {
			if a := c.Get(iv, 0); !(a.Op == "int" && a.Int.Sign() == 0) {
				excl = append(excl, a)
			}
		}
	}
	for _, hn := range sortedKeys(mods) {
		hn := hn
		if !mods[hn].whole || strings.HasPrefix(hn, "VIS#") || strings.HasPrefix(hn, "G.") || strings.HasPrefix(hn, "H.") || hn == "CTXC" {
			continue
		}
		ks, vs, ok := arrParts(x.heapSorts[hn])
		if !ok || ks != SInt {
			continue
		}
		was := st.getHeap(hn, x.heapSorts[hn])
		mk := func(id string, ex []*Term) {
			out = append(out, &candidate{id: "auto:frame" + id + ":" + hn, auto: func(f *frame, s *State) *Term {
				now := s.getHeap(hn, x.heapSorts[hn])
				if now == was {
					return c.True
				}
				r := c.BV("r", SInt)
				cond := []*Term{c.Lt(r, st.alloc)}
				for _, e := range ex {
					cond = append(cond, c.Ne(r, e))
				}
				return c.Forall([]*Term{r}, [][]*Term{{c.raw("select", vs, now, r)}}, c.Imp(c.And(cond...), c.Eq(c.raw("select", vs, now, r), c.raw("select", vs, was, r))))
			}})
		}
		mk("", nil)
		if len(excl) > 0 && strings.HasPrefix(hn, "E.") {
			mk("x", excl)
		}
	}
	return out
}
