package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// query renders pc |- goal with the axioms it needs.
func (x *Exec) query(pc []*Term, goal *Term) string {
	used := map[string]bool{}
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		used[t.Op] = true
		for _, a := range t.Args {
			walk(a)
		}
		for _, p := range t.Pats {
			for _, y := range p {
				walk(y)
			}
		}
	}
	for _, t := range pc {
		walk(t)
	}
	if goal != nil {
		walk(goal)
	}
	var ax []*Term
	done := map[int]bool{}
	for changed := true; changed; {
		changed = false
		for i, a := range x.axioms {
			if done[i] {
				continue
			}
			hit := false
			for f := range appNames(a) {
				if used[f] {
					hit = true
				}
			}
			if hit {
				done[i] = true
				changed = true
				ax = append(ax, a)
				walk(a)
			}
		}
	}
	for _, es := range []Sort{SInt, SStr} {
		if used["inseq_"+sanitize(string(es))] {
			for _, a := range x.memberAxioms(es) {
				ax = append(ax, a)
				walk(a)
			}
		}
	}
	if used["ix"] {
		c := x.c
		o, i := c.BV("o", SInt), c.BV("i", SInt)
		t := c.App("ix", SInt, o, i)
		ax = append(ax, c.Forall([]*Term{o, i}, [][]*Term{{t}}, c.raw("=", SBool, t, c.Add(o, i))))
	}
	if !x.c.strTheory && (used["ssub"] || used["sat"]) {
		ax = append(ax, x.byteStringAxioms()...)
		if !used["ix"] {
			c := x.c
			o, i := c.BV("o", SInt), c.BV("i", SInt)
			t := c.App("ix", SInt, o, i)
			ax = append(ax, c.Forall([]*Term{o, i}, [][]*Term{{t}}, c.raw("=", SBool, t, c.Add(o, i))))
		}
	}
	return x.c.Query(pc, goal, ax, false)
}

// memberAxioms define inseq(contents, offset, length, v) by a chosen position; two sequences that differ by a shift of at
// most one place at that position share the member.
func (x *Exec) memberAxioms(es Sort) []*Term {
	c := x.c
	n := sanitize(string(es))
	a, o, l, v := c.BV("a", arr(SInt, es)), c.BV("o", SInt), c.BV("l", SInt), c.BV("v", es)
	a2, o2, l2, i := c.BV("a2", arr(SInt, es)), c.BV("o2", SInt), c.BV("l2", SInt), c.BV("i", SInt)
	in := func(a, o, l *Term) *Term { return c.App("inseq_"+n, SBool, a, o, l, v) }
	ps := c.App("posin_"+n, SInt, a, o, l, v)
	ix := func(o, i *Term) *Term { return c.App("ix", SInt, o, i) }
	at := func(a, o, i *Term) *Term { return c.raw("=", SBool, c.raw("select", es, a, ix(o, i)), v) }
	rng := func(i, l *Term) *Term { return c.And(c.raw("<=", SBool, c.I(0), i), c.raw("<", SBool, i, l)) }
	d := func(k int64) *Term { return c.raw("+", SInt, ps, c.I(k)) }
	var ax []*Term
	ax = append(ax, c.Forall([]*Term{a, o, l, v}, [][]*Term{{in(a, o, l)}}, c.Imp(in(a, o, l), c.And(rng(ps, l), at(a, o, ps)))))
	ax = append(ax, c.Forall([]*Term{a, o, l, v, i}, [][]*Term{{in(a, o, l), c.raw("select", es, a, ix(o, i))}}, c.Imp(c.And(rng(i, l), at(a, o, i)), in(a, o, l))))
	// an element appended at the end, or at an explicit place
	last := c.raw("-", SInt, l, c.I(1))
	ax = append(ax, c.Forall([]*Term{a, o, l, v}, [][]*Term{{in(a, o, l)}}, c.Imp(c.And(c.raw("<", SBool, c.I(0), l), at(a, o, last)), in(a, o, l))))
	for _, k := range []int64{0, -1} {
		ax = append(ax, c.Forall([]*Term{a, o, l, v, a2, o2, l2}, [][]*Term{{in(a, o, l), in(a2, o2, l2)}}, c.Imp(c.And(in(a, o, l), rng(d(k), l2), at(a2, o2, d(k))), in(a2, o2, l2))))
	}
	return ax
}

// byteStringAxioms is the theory of byte strings: length, concatenation, pieces, single bytes and contents of byte arrays.
func (x *Exec) byteStringAxioms() []*Term {
	c := x.c
	s, t := c.BV("s", SStr), c.BV("t", SStr)
	lo, hi, lo2, hi2, i := c.BV("lo", SInt), c.BV("hi", SInt), c.BV("lo2", SInt), c.BV("hi2", SInt), c.BV("i", SInt)
	a, o, l, n := c.BV("a", arr(SInt, SInt)), c.BV("o", SInt), c.BV("l", SInt), c.BV("n", SInt)
	eq := func(a, b *Term) *Term { return c.raw("=", SBool, a, b) }
	le := func(a, b *Term) *Term { return c.raw("<=", SBool, a, b) }
	lt := func(a, b *Term) *Term { return c.raw("<", SBool, a, b) }
	add := func(a, b *Term) *Term { return c.raw("+", SInt, a, b) }
	sub := func(a, b *Term) *Term { return c.raw("-", SInt, a, b) }
	slen := func(s *Term) *Term { return c.App("slen", SInt, s) }
	ssub := func(s, lo, hi *Term) *Term { return c.App("ssub", SStr, s, lo, hi) }
	sat := func(s, i *Term) *Term { return c.App("sat", SInt, s, i) }
	cat := c.App("bcat", SStr, s, t)
	bs := func(o, l *Term) *Term { return c.App("bseq", SStr, a, o, l) }
	ix := func(o, i *Term) *Term { return c.App("ix", SInt, o, i) }
	z := c.I(0)
	var ax []*Term
	q := func(vs []*Term, trig []*Term, body *Term) { ax = append(ax, c.Forall(vs, [][]*Term{trig}, body)) }
	q([]*Term{s}, []*Term{slen(s)}, le(z, slen(s)))
	q([]*Term{s, t}, []*Term{cat}, eq(slen(cat), add(slen(s), slen(t))))
	sb := ssub(s, lo, hi)
	inr := c.And(le(z, lo), le(lo, hi), le(hi, slen(s)))
	q([]*Term{s, lo, hi}, []*Term{sb}, c.Imp(inr, eq(slen(sb), sub(hi, lo))))
	q([]*Term{s, lo, hi, i}, []*Term{sat(sb, i)}, c.Imp(c.And(inr, le(z, i), lt(i, sub(hi, lo))), eq(sat(sb, i), sat(s, add(lo, i)))))
	q([]*Term{s, hi}, []*Term{ssub(s, z, hi)}, c.Imp(eq(hi, slen(s)), eq(ssub(s, z, hi), s)))
	q([]*Term{s, lo, hi, lo2, hi2}, []*Term{ssub(sb, lo2, hi2)}, c.Imp(c.And(inr, le(z, lo2), le(lo2, hi2), le(hi2, sub(hi, lo))), eq(ssub(sb, lo2, hi2), ssub(s, add(lo, lo2), add(lo, hi2)))))
	sc := ssub(cat, lo, hi)
	q([]*Term{s, t, lo, hi}, []*Term{sc}, c.Imp(c.And(le(z, lo), le(lo, hi), le(hi, slen(s))), eq(sc, ssub(s, lo, hi))))
	q([]*Term{s, t, lo, hi}, []*Term{sc}, c.Imp(c.And(eq(lo, z), eq(hi, slen(s))), eq(sc, s)))
	q([]*Term{s, t, lo, hi}, []*Term{sc}, c.Imp(c.And(le(slen(s), lo), le(lo, hi), le(hi, slen(cat))), eq(sc, ssub(t, sub(lo, slen(s)), sub(hi, slen(s))))))
	q([]*Term{s, t, lo, hi}, []*Term{sc}, c.Imp(c.And(eq(slen(s), lo), eq(hi, slen(cat))), eq(sc, t)))
	q([]*Term{s, t, i}, []*Term{sat(cat, i)}, c.Imp(c.And(le(z, i), lt(i, slen(s))), eq(sat(cat, i), sat(s, i))))
	q([]*Term{s, t, i}, []*Term{sat(cat, i)}, c.Imp(c.And(le(slen(s), i), lt(i, slen(cat))), eq(sat(cat, i), sat(t, sub(i, slen(s))))))
	q([]*Term{a, o, l}, []*Term{bs(o, l)}, c.Imp(le(z, l), eq(slen(bs(o, l)), l)))
	q([]*Term{a, o, l, i}, []*Term{sat(bs(o, l), i)}, c.Imp(c.And(le(z, i), lt(i, l)), eq(sat(bs(o, l), i), c.raw("select", SInt, a, ix(o, i)))))
	q([]*Term{a, o, l, i}, []*Term{bs(o, l), c.raw("select", SInt, a, ix(o, i))}, c.Imp(c.And(le(z, i), lt(i, l)), eq(sat(bs(o, l), i), c.raw("select", SInt, a, ix(o, i)))))
	q([]*Term{a, l, i}, []*Term{bs(z, l), c.raw("select", SInt, a, i)}, c.Imp(c.And(le(z, i), lt(i, l)), eq(sat(bs(z, l), i), c.raw("select", SInt, a, i))))
	q([]*Term{a, o, l, n}, []*Term{bs(o, l), bs(o, n)}, c.Imp(c.And(le(z, n), le(n, l)), eq(bs(o, n), ssub(bs(o, l), z, n))))
	q([]*Term{a, o, l, lo, n}, []*Term{bs(o, l), bs(ix(o, lo), n)}, c.Imp(c.And(le(z, n), le(z, lo), le(add(lo, n), l)), eq(bs(ix(o, lo), n), ssub(bs(o, l), lo, add(lo, n)))))
	q([]*Term{a, l, lo, n}, []*Term{bs(z, l), bs(lo, n)}, c.Imp(c.And(le(z, n), le(z, lo), le(add(lo, n), l)), eq(bs(lo, n), ssub(bs(z, l), lo, add(lo, n)))))
	return ax
}

func appNames(t *Term) map[string]bool {
	m := map[string]bool{}
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if strings.HasPrefix(t.Op, "f.") {
			m[t.Op] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return m
}

// ---- contract application ----

func (x *Exec) conBinds(st *State, con *Contract, key string, args []Val, ts []types.Type) map[string]SV {
	if len(con.Params) != len(args) {
		panic(unsupported("contract of %s names %d parameters, the call has %d", key, len(con.Params), len(args)))
	}
	b := map[string]SV{}
	for i, p := range con.Params {
		if p == "_" {
			continue
		}
		b[p] = SV{T: x.term(st, args[i], ts[i]), Typ: ts[i]}
	}
	return b
}

func (x *Exec) specEval1(e *specEval, cl Clause, what string) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(*specErr); ok {
				panic(unsupported("%s [%s] %s: %s", what, cl.Label, cl.Src, se.msg))
			}
			panic(r)
		}
	}()
	return e.boolean(cl.Expr)
}

func (x *Exec) addLets(e *specEval, con *Contract) {
	for _, l := range con.Lets {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if se, ok := r.(*specErr); ok {
						panic(unsupported("let %s: %s", l.Label, se.msg))
					}
					panic(r)
				}
			}()
			e.binds[l.Label] = e.eval(l.Expr)
		}()
	}
}

// conjuncts splits a goal.
func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		var out []*Term
		for _, a := range t.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	return []*Term{t}
}

func (x *Exec) checkRequires(fr *frame, st *State, con *Contract, key string, args []Val, ts []types.Type, pos token.Pos) {
	b := x.conBinds(st, con, key, args, ts)
	e := &specEval{x: x, st: st, old: st, binds: b}
	x.addLets(e, con)
	for i, r := range con.Requires {
		lb := r.Label
		if lb == "" {
			lb = fmt.Sprintf("pre%d", i+1)
		}
		if x.spawning && strings.HasPrefix(lb, "prophecy") {
			x.note("what will be sent to " + key + ": " + r.Src)
			continue
		}
		st.oblige("pre", fmt.Sprintf("precondition %s of %s", lb, key), pos, x.specEval1(e, r, "requires of "+key))
	}
	x.holdsAtCall(st, con, key, b, pos)
}

func (x *Exec) applyContract(fr *frame, st *State, con *Contract, key string, args []Val, ts []types.Type, sig *types.Signature, pos token.Pos) []outcome {
	x.used[key] = true
	b := x.conBinds(st, con, key, args, ts)
	e := &specEval{x: x, st: st, old: st, binds: b}
	x.addLets(e, con)
	for i, r := range con.Requires {
		lb := r.Label
		if lb == "" {
			lb = fmt.Sprintf("pre%d", i+1)
		}
		st.oblige("pre", fmt.Sprintf("precondition %s of %s", lb, key), pos, x.specEval1(e, r, "requires of "+key))
	}
	x.holdsAtCall(st, con, key, b, pos)
	if st.dead || con.NoReturn {
		return nil
	}
	old := st.clone()
	if con.ModAny {
		if len(x.writeLogs) > 0 {
			panic(unsupported("call of %s (modifies any) inside a loop", key))
		}
		x.havocAll(st)
	}
	mods := x.modLocs(old, con, b)
	x.bumpAlloc(st)
	for _, m := range mods {
		x.havocLoc(st, m)
	}
	rs := x.freshResults(st, sig, "r_"+key[strings.LastIndexAny(key, ".)")+1:])
	for i, r := range rs {
		n := fmt.Sprintf("r%d", i)
		if i < len(con.Results) {
			n = con.Results[i]
		}
		b[n] = SV{T: r.T, Typ: sig.Results().At(i).Type()}
	}
	e = &specEval{x: x, st: st, old: old, binds: b}
	for _, en := range con.Ensures {
		st.fact(x.specEval1(e, en, "ensures of "+key))
	}
	for _, h := range con.Holds {
		_, mon, base := x.heldMutex(con, h, b)
		x.monitorFacts(st, mon, base)
	}
	if st.dead {
		return nil
	}
	return []outcome{{st: st, res: rs}}
}

// heldMutex gives the mutex of a holds clause.
func (x *Exec) heldMutex(con *Contract, h HoldSpec, b map[string]SV) (string, *Monitor, *Term) {
	v, ok := b[h.Param]
	if !ok {
		panic(unsupported("holds of %s: no parameter %s", con.Key, h.Param))
	}
	key := typeName(derefT(v.Typ)) + "." + h.Field
	mon := x.specs.Monitors[key]
	if mon == nil {
		panic(unsupported("holds of %s: no monitor %s", con.Key, key))
	}
	return key, mon, v.T
}

func (x *Exec) monitorFacts(st *State, mon *Monitor, base *Term) {
	for _, inv := range mon.Invs {
		e := &specEval{x: x, st: st, old: st, binds: map[string]SV{mon.Var: {T: base, Typ: mon.ptrType}}}
		st.fact(e.boolean(inv.Expr))
	}
}

func (x *Exec) monitorObligations(st *State, mon *Monitor, base *Term, pos token.Pos, at string) {
	for _, inv := range mon.Invs {
		e := &specEval{x: x, st: st, old: st, binds: map[string]SV{mon.Var: {T: base, Typ: mon.ptrType}}}
		st.oblige("monitor", "invariant "+inv.Label+" of "+mon.Key+" holds "+at, pos, e.boolean(inv.Expr))
	}
}

func (x *Exec) holdsAtCall(st *State, con *Contract, key string, b map[string]SV, pos token.Pos) {
	for _, h := range con.Holds {
		k, mon, base := x.heldMutex(con, h, b)
		var holds []*Term
		for _, l := range st.locks {
			if l.key == k && (l.write || h.Read) {
				holds = append(holds, x.c.Eq(l.base, base))
			}
		}
		holds = append(holds, x.c.Le(x.entry.alloc, base))
		st.oblige("lock", fmt.Sprintf("%s is held when %s is called", k, key), pos, x.c.Or(holds...))
		x.monitorObligations(st, mon, base, pos, "when "+key+" is called")
	}
}

func (x *Exec) havocAll(st *State) {
	x.iters++
	st.epoch = fmt.Sprintf("E%d", x.iters)
	for _, k := range sortedKeys(st.heap) {
		if strings.HasPrefix(k, "VIS#") {
			continue
		}
		delete(st.heap, k)
	}
}

type modLoc struct {
	heap  string
	sort  Sort
	key   *Term // nil: whole heap
	et    types.Type
	label string
}

func (x *Exec) modLocs(st *State, con *Contract, binds map[string]SV) (out []modLoc) {
	for _, n := range con.Modifies {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if se, ok := r.(*specErr); ok {
						panic(unsupported("modifies of %s: %s", con.Key, se.msg))
					}
					panic(r)
				}
			}()
			e := &specEval{x: x, st: st, old: st, binds: binds}
			out = append(out, x.modLoc(e, n)...)
		}()
	}
	return
}

func (x *Exec) modLoc(e *specEval, n *Node) []modLoc {
	c := x.c
	switch n.Kind {
	case "field":
		v := e.eval(n)
		if v.Loc == nil {
			panic(serr("modifies: not a field location: %s", n))
		}
		return []modLoc{{v.Loc.heap, arr(SInt, x.sortOf(v.Loc.typ)), v.Loc.base, v.Loc.typ, n.String()}}
	case "id":
		if g := x.specs.Ghosts[n.Str]; g != nil {
			ks, _ := e.sortOfName(g.Key)
			vs, _ := e.sortOfName(g.Ret)
			return []modLoc{{"H." + g.Name, arr(ks, vs), nil, nil, n.Str}}
		}
	case "call":
		if g := x.specs.Ghosts[n.Str]; g != nil {
			ks, _ := e.sortOfName(g.Key)
			vs, _ := e.sortOfName(g.Ret)
			return []modLoc{{"H." + g.Name, arr(ks, vs), e.coerce(e.eval(n.Args[0]), ks), nil, n.String()}}
		}
		if n.Str == "allelems" {
			t, err := x.specs.goType(n.Args[0].Str)
			if err != nil {
				panic(serr("%v", err))
			}
			h, hs := x.elemHeap(t)
			return []modLoc{{h, hs, nil, nil, n.String()}}
		}
		if n.Str == "allsent" {
			t, err := x.specs.goType(n.Args[0].Str)
			if err != nil {
				panic(serr("%v", err))
			}
			hn, hs := x.chanSeq(t)
			return []modLoc{{hn, hs, nil, nil, n.String()}, {"CN", arr(SInt, SInt), nil, nil, n.String()}}
		}
		if n.Str == "allmaps" {
			t, err := x.specs.goType(n.Args[0].Str)
			if err != nil {
				panic(serr("%v", err))
			}
			d, vh, l, ds, vs := x.mapHeaps(t.Underlying().(*types.Map))
			return []modLoc{{d, ds, nil, nil, n.String()}, {vh, vs, nil, nil, n.String()}, {l, arr(SInt, SInt), nil, nil, n.String()}}
		}
		v := e.eval(n.Args[0])
		switch n.Str {
		case "elems":
			h, hs := x.elemHeap(v.Typ.Underlying().(*types.Slice).Elem())
			return []modLoc{{h, hs, c.Get(v.T, 0), nil, n.String()}}
		case "map":
			mt := v.Typ.Underlying().(*types.Map)
			d, vh, l, ds, vs := x.mapHeaps(mt)
			return []modLoc{{d, ds, v.T, nil, n.String()}, {vh, vs, v.T, nil, n.String()}, {l, arr(SInt, SInt), v.T, nil, n.String()}}
		case "sent":
			hn, hs := x.chanSeq(v.Typ.Underlying().(*types.Chan).Elem())
			return []modLoc{{hn, hs, v.T, nil, n.String()}, {"CN", arr(SInt, SInt), v.T, nil, n.String()}}
		case "rcvd":
			return []modLoc{{"CR", arr(SInt, SInt), v.T, nil, n.String()}}
		case "closed":
			return []modLoc{{"CC", arr(SInt, SBool), v.T, nil, n.String()}}
		case "cancelled":
			return []modLoc{{"CTXC", arr(SInt, SBool), c.App("ctxdone", SInt, v.T), nil, n.String()}}
		case "cell":
			t := derefT(v.Typ)
			if isStruct(t) {
				return x.structLocs(v.T, t, n.String())
			}
			h, hs := x.cellHeap(t)
			return []modLoc{{h, hs, v.T, t, n.String()}}
		case "fields":
			return x.structLocs(v.T, derefT(v.Typ), n.String())
		}
	}
	panic(serr("modifies: cannot interpret %s", n))
}

func (x *Exec) structLocs(base *Term, t types.Type, lb string) (out []modLoc) {
	u := t.Underlying().(*types.Struct)
	if x.c.dts[x.sortOf(t)] == nil {
		return []modLoc{{"S." + typeName(t), arr(SInt, x.sortOf(t)), base, nil, lb}}
	}
	for i := 0; i < u.NumFields(); i++ {
		h, hs, ft := x.fieldHeap(t, i)
		out = append(out, modLoc{h, hs, base, ft, lb})
	}
	return
}

func (x *Exec) havocLoc(st *State, m modLoc) {
	c := x.c
	cur := st.getHeap(m.heap, m.sort)
	if m.key == nil {
		st.setHeap(m.heap, c.Fresh("H."+m.heap, m.sort), nil)
		return
	}
	if m.key.Op == "int" && m.key.Int.Sign() == 0 && !strings.HasPrefix(m.heap, "H.") {
		return // nothing is stored at nil
	}
	_, vs, _ := arrParts(m.sort)
	v := c.Fresh("hv."+m.heap, vs)
	if m.et != nil {
		x.typeFacts(st, v, m.et)
	}
	st.setHeap(m.heap, c.Store(cur, m.key, v), m.key)
}

// ---- verifying one contract ----

type FuncReport struct {
	Key         string         `json:"key"`
	Pos         string         `json:"pos"`
	Status      string         `json:"status"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Failed      []Failed       `json:"failed,omitempty"`
	BySolver    map[string]int `json:"by_solver,omitempty"`
	Kinds       map[string]int `json:"kinds,omitempty"`
	Ms          int64          `json:"ms"`
	SolverMs    int64          `json:"solver_ms"`
	Inlined     []string       `json:"inlined,omitempty"`
	Opaque      []string       `json:"opaque,omitempty"`
	Used        []string       `json:"used,omitempty"`
	Assumes     []string       `json:"assumes,omitempty"`
	Loops       int            `json:"loops"`
	Invariants  int            `json:"invariants"`
	Paths       int            `json:"paths"`
}

type Failed struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Pos    string `json:"pos,omitempty"`
	Trail  string `json:"trail,omitempty"`
	Status string `json:"status"`
	Detail string `json:"detail,omitempty"`
	Query  string `json:"-"`
}

func newExec(prog *ssa.Program, specs *Specs, con *Contract) *Exec {
	x := &Exec{prog: prog, specs: specs, c: NewCtx(), contract: con, heapSorts: map[string]Sort{}, heapElem: map[string]types.Type{}, funcs: map[*Term]*FuncVal{}, cancelFns: map[*Term]*Term{}, loopInv: map[string]*loopInfo{}, binds: map[string]SV{}, inlined: map[string]bool{}, opaque: map[string]bool{}, used: map[string]bool{}, budget: 400000}
	if con != nil {
		x.unit = con.Key
		x.c.strTheory = con.Strings
	}
	return x
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// note records an assumption made on the way.
func (x *Exec) note(s string) {
	for _, n := range x.notes {
		if n == s {
			return
		}
	}
	x.notes = append(x.notes, s)
}

func (x *Exec) newState() *State {
	st := &State{x: x, heap: map[string]*Term{}, pcset: map[int]bool{}, pre: map[string]*State{}, inv: map[string]int{}}
	a := x.c.Sym("alloc0", SInt)
	one := x.c.I(1)
	a.lo = one.Int
	st.alloc = a
	st.fact(x.c.raw("<=", SBool, one, a))
	return st
}

func verify(prog *ssa.Program, specs *Specs, con *Contract, verbose bool) *FuncReport {
	t0 := time.Now()
	rep := &FuncReport{Key: con.Key, Assumes: con.Assumes}
	x := newExec(prog, specs, con)
	x.verbose = verbose
	err := func() (err error) {
		defer func() {
			if e := recover(); e != nil {
				switch e := e.(type) {
				case *unsupportedErr:
					err = fmt.Errorf("%s", e.msg)
				case *specErr:
					err = fmt.Errorf("specification: %s", e.msg)
				default:
					if os.Getenv("GOVC_PANIC") != "" {
						panic(e)
					}
					err = fmt.Errorf("internal error: %v", e)
				}
			}
		}()
		x.run(con)
		return nil
	}()
	rep.Pos = x.posStr(con.fn.Pos())
	if err != nil {
		rep.Failed = append(rep.Failed, Failed{Name: "function is within the verifier's reach", Kind: "reach", Pos: rep.Pos, Status: "error", Detail: err.Error()})
		rep.Obligations++
	}
	rep.Assumes = append(append([]string{}, rep.Assumes...), x.notes...)
	x.solveAll(rep)
	rep.Inlined, rep.Opaque, rep.Used = keysOf(x.inlined), keysOf(x.opaque), keysOf(x.used)
	rep.Loops, rep.Invariants, rep.Paths = x.stats.loops, x.stats.kept, x.paths
	rep.Ms = time.Since(t0).Milliseconds()
	rep.Status = "proved"
	if len(rep.Failed) > 0 {
		rep.Status = "failed"
	}
	return rep
}

func (x *Exec) run(con *Contract) {
	c := x.c
	fn := con.fn
	for _, a := range x.specs.Axioms {
		st := x.newState()
		e := &specEval{x: x, st: st, old: st, binds: map[string]SV{}}
		x.axioms = append(x.axioms, x.specEval1(e, a, "axiom"))
	}
	st := x.newState()
	if len(con.Params) != len(fn.Params) {
		panic(unsupported("contract names %d parameters, the function has %d", len(con.Params), len(fn.Params)))
	}
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtl{}, kcount: map[*ssa.BasicBlock]*Term{}, path: ""}
	for i, p := range fn.Params {
		v := c.Fresh("p."+p.Name(), x.sortOf(p.Type()))
		x.typeFacts(st, v, p.Type())
		fr.env[p] = Val{T: v}
		if con.Params[i] != "_" {
			x.binds[con.Params[i]] = SV{T: v, Typ: p.Type()}
		}
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.fact(c.Ne(v, c.I(0)))
			}
		}
	}
	for _, f := range fn.FreeVars {
		v := c.Fresh("fv."+f.Name(), x.sortOf(f.Type()))
		x.typeFacts(st, v, f.Type())
		st.fact(c.Ne(v, c.I(0)))
		fr.free = append(fr.free, Val{T: v})
		x.binds["$"+f.Name()] = SV{T: v, Typ: f.Type()}
	}
	e := &specEval{x: x, st: st, old: st, binds: x.binds}
	x.entry = st
	x.addLets(e, con)
	for _, r := range con.Requires {
		st.fact(x.specEval1(e, r, "requires"))
	}
	for _, h := range con.Holds {
		k, mon, base := x.heldMutex(con, h, x.binds)
		x.monitorFacts(st, mon, base)
		st.locks = append(st.locks, heldLock{k, base, !h.Read})
	}
	entryLocks := len(st.locks)
	x.entry = st.clone()
	x.obls = append(x.obls, &Obligation{Name: "precondition is satisfiable", Kind: "cover", pc: st.pc, Cover: true, Fn: x.unit})
	outs := x.step(fr, st, fn.Blocks[0], 0)
	x.paths = len(outs)
	sig := fn.Signature
	var feas []*Obligation
	covers := make([][]*Obligation, len(con.Covers))
	for _, o := range outs {
		st := o.st
		b := map[string]SV{}
		for k, v := range x.binds {
			b[k] = v
		}
		for i, r := range o.res {
			n := fmt.Sprintf("r%d", i)
			if i < len(con.Results) {
				n = con.Results[i]
			}
			t := sig.Results().At(i).Type()
			b[n] = SV{T: x.term(st, r, t), Typ: t}
		}
		feas = append(feas, &Obligation{pc: st.pc})
		e := &specEval{x: x, st: st, old: x.entry, binds: b}
		for i, cv := range con.Covers {
			s2 := st.clone()
			e2 := &specEval{x: x, st: s2, old: x.entry, binds: b}
			s2.fact(x.specEval1(e2, cv, "cover"))
			if !s2.dead {
				covers[i] = append(covers[i], &Obligation{pc: s2.pc})
			}
		}
		for _, en := range con.Ensures {
			x.obligeAll(st, "post", "ensures "+en.Label, fn.Pos(), x.specEval1(e, en, "ensures"))
		}
		for _, h := range con.Holds {
			_, mon, base := x.heldMutex(con, h, x.binds)
			if !h.Read {
				x.monitorObligations(st, mon, base, fn.Pos(), "on return")
			}
		}
		if !con.ModAny {
			x.frameCheck(st, con, fn.Pos())
		}
		if len(st.spawned) == 0 {
			for i, l := range st.locks {
				if i >= entryLocks {
					st.oblige("lock", "lock "+l.key+" is released on return", fn.Pos(), c.False)
				}
			}
			if len(st.locks) < entryLocks {
				st.oblige("lock", "locks held on entry are held on return", fn.Pos(), c.False)
			}
		}
		if len(st.spawned) > 1 && len(st.locks) > 0 {
			panic(unsupported("lock handed to one of several goroutines"))
		}
		sp := st.spawned
		for gi, g := range sp {
			gs := st.clone()
			gs.spawned = nil
			// everything older than the spawn is unchanged by the rest of the parent
			for _, hn := range sortedKeys(gs.heap) {
				was, ok := g.st.heap[hn]
				if !ok || was == gs.heap[hn] || strings.HasPrefix(hn, "VIS#") {
					continue
				}
				ks, _, isArr := arrParts(was.Sort)
				if !isArr || ks != SInt {
					panic(unsupported("shared state changes after a goroutine starts"))
				}
				r := c.Fresh("any", SInt)
				s3 := gs.clone()
				s3.fact(c.And(c.Le(c.I(0), r), c.Lt(r, g.st.alloc)))
				s3.oblige("thread", "state shared with the goroutine is not written after it starts", g.pos, c.Eq(c.Select(was, r), c.Select(gs.heap[hn], r)))
			}
			gs.trail += fmt.Sprintf("G%d", gi)
			gf := &frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtl{}, kcount: map[*ssa.BasicBlock]*Term{}, path: "go"}
			x.binds = b
			gouts := x.inline(gf, gs, g.fv, g.args, g.pos)
			for _, g := range gouts {
				if len(g.st.spawned) > 0 {
					panic(unsupported("goroutine starts a goroutine"))
				}
				e := &specEval{x: x, st: g.st, old: x.entry, binds: b}
				for _, th := range con.Threads {
					x.obligeAll(g.st, "thread", "thread "+th.Label, fn.Pos(), x.specEval1(e, th, "thread"))
				}
				for _, l := range g.st.locks {
					g.st.oblige("lock", "lock "+l.key+" is released when the goroutine ends", fn.Pos(), c.False)
				}
			}
		}
	}
	if con.NoReturn {
		for _, o := range outs {
			o.st.oblige("post", "does not return", fn.Pos(), c.False)
		}
		return
	}
	x.obls = append(x.obls, x.anyFeasible("some path returns", feas))
	for i, cv := range con.Covers {
		x.obls = append(x.obls, x.anyFeasible("cover "+cv.Src, covers[i]))
	}
}

func (x *Exec) obligeAll(st *State, kind, name string, pos token.Pos, goal *Term) {
	for _, g := range conjuncts(goal) {
		st.oblige(kind, name, pos, g)
	}
}

func (x *Exec) anyFeasible(name string, alts []*Obligation) *Obligation {
	return &Obligation{Name: name, Kind: "cover", Cover: true, Fn: x.unit, alts: alts}
}

func (x *Exec) frameCheck(st *State, con *Contract, pos token.Pos) {
	c := x.c
	mods := x.modLocs(x.entry, con, x.binds)
	for _, hn := range sortedKeys(st.heap) {
		if strings.HasPrefix(hn, "VIS#") || hn == "CTXC" || hn == "CSC" {
			continue
		}
		fin := st.heap[hn]
		ini := x.entry.getHeap(hn, fin.Sort)
		if fin == ini {
			continue
		}
		whole := false
		var keys []*Term
		for _, m := range mods {
			if m.heap == hn {
				if m.key == nil {
					whole = true
				} else {
					keys = append(keys, m.key)
				}
			}
		}
		if whole {
			continue
		}
		ks, _, isArr := arrParts(fin.Sort)
		if !isArr || strings.HasPrefix(hn, "G.") {
			st.oblige("frame", "only declared state changes: "+hn, pos, c.Eq(fin, ini))
			continue
		}
		r := c.Fresh("frame", ks)
		s := st.clone()
		if ks == SInt && !strings.HasPrefix(hn, "H.") {
			s.fact(c.And(c.raw("<=", SBool, c.I(0), r), c.raw("<", SBool, r, x.entry.alloc)))
			r.lo = c.I(0).Int
			r.ub = x.entry.alloc
		}
		for _, k := range keys {
			s.fact(c.Ne(r, k))
		}
		s.oblige("frame", "only declared state changes: "+hn, pos, c.Eq(c.Select(fin, r), c.Select(ini, r)))
	}
}

func (x *Exec) solveAll(rep *FuncReport) {
	if rep.BySolver == nil {
		rep.BySolver = map[string]int{}
		rep.Kinds = map[string]int{}
	}
	// path conditions may end in contradictions found later; queries are built sequentially, solved in parallel
	var wg sync.WaitGroup
	to := proofTimeout
	for _, o := range x.obls {
		if o.Status != "" {
			continue
		}
		if o.Cover {
			alts := o.alts
			if alts == nil {
				alts = []*Obligation{{pc: o.pc}}
			}
			var qs []string
			for i, a := range alts {
				if i >= 12 {
					break
				}
				qs = append(qs, x.query(a.pc, nil))
			}
			o := o
			wg.Add(1)
			go func() {
				defer wg.Done()
				o.Status = "failed"
				for _, q := range qs {
					r := SolveCover(q, x.c.strTheory)
					o.Solver, o.Ms = r.Solver, o.Ms+r.Ms
					if r.Status != "unsat" {
						o.Status = "proved"
						return
					}
				}
			}()
			continue
		}
		q := x.query(o.pc, o.goal)
		o.Query = q
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := Solve(q, x.c.strTheory, 3*time.Second, to, false)
			o.Solver, o.Ms = r.Solver, r.Ms
			if r.Status == "unsat" {
				o.Status = "proved"
			} else {
				o.Status = r.Status
			}
		}()
	}
	wg.Wait()
	for _, o := range x.obls {
		rep.Obligations++
		rep.Kinds[o.Kind]++
		rep.SolverMs += o.Ms
		if o.Status == "proved" {
			rep.Discharged++
			rep.BySolver[o.Solver]++
			continue
		}
		f := Failed{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Trail: o.Trail, Status: o.Status, Query: o.Query}
		if o.goal != nil {
			f.Detail = trunc(o.goal.String(), 600)
		}
		rep.Failed = append(rep.Failed, f)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var proofTimeout = 20 * time.Second
