package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Val is the symbolic value of an SSA register.
type Val struct {
	T     *Term
	Tup   []Val
	Loc   *Loc
	Fn    *FuncVal
	Iter  *iterVal
	Guard *guardRef
}

type FuncVal struct {
	Fn    *ssa.Function
	Binds []Val
}

type iterVal struct {
	heapVis string
	m       *Term
	mt      *types.Map
	dom0    *Term
}

// Loc is an lvalue.
type Loc struct {
	kind  string // field, elem, cell, global
	heap  string
	base  *Term
	idx   *Term
	path  []int
	roots []types.Type // struct type at each path step
	typ   types.Type
	guard *guardRef
	own   string // "pkg.Type.field" for kind=field
}

type guardRef struct {
	mon  *Monitor
	base *Term
}

type heldLock struct {
	key   string
	base  *Term
	write bool
}

type writeRec struct {
	heap string
	key  *Term // nil: whole
}

type State struct {
	x       *Exec
	heap    map[string]*Term
	alloc   *Term
	pc      []*Term
	pcset   map[int]bool
	locks   []heldLock
	dead    bool
	trail   string
	pre     map[string]*State // named snapshots: lock:<key>, unlock:<key>
	vis     []*iterVal
	spawned []*spawn
	inv     map[string]int
	epoch   string
}

type spawn struct {
	st   *State
	fv   *FuncVal
	args []Val
	pos  token.Pos
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcset = make(map[int]bool, len(s.pcset))
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.locks = append([]heldLock(nil), s.locks...)
	n.pre = make(map[string]*State, len(s.pre))
	for k, v := range s.pre {
		n.pre[k] = v
	}
	n.vis = append([]*iterVal(nil), s.vis...)
	n.spawned = append([]*spawn(nil), s.spawned...)
	return &n
}

// fact assumes t.
func (s *State) fact(t *Term) {
	if t == s.x.c.True || s.dead {
		return
	}
	if t == s.x.c.False {
		s.dead = true
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.fact(a)
		}
		return
	}
	if s.pcset[t.id] {
		return
	}
	if s.pcset[s.x.c.Not(t).id] {
		s.dead = true
		return
	}
	s.pcset[t.id] = true
	s.pc = append(s.pc, t)
}

func (s *State) knows(t *Term) bool { return t == s.x.c.True || s.pcset[t.id] }

// simp uses path facts to decide simple conditions.
func (s *State) decided(t *Term) (bool, bool) {
	if t == s.x.c.True || s.pcset[t.id] {
		return true, true
	}
	if t == s.x.c.False || s.pcset[s.x.c.Not(t).id] {
		return false, true
	}
	if t.Op == "and" {
		all := true
		for _, a := range t.Args {
			v, ok := s.decided(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if t.Op == "or" {
		all := true
		for _, a := range t.Args {
			v, ok := s.decided(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	if t.Op == "not" {
		v, ok := s.decided(t.Args[0])
		return !v, ok
	}
	return false, false
}

func (s *State) getHeap(name string, sort Sort) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	// every state derived from the same root sees the same initial symbol
	ep := s.epoch
	if ep == "" {
		ep = "H0"
	}
	t := s.x.c.Sym(ep+"."+sanitize(name), sort)
	s.x.heapSorts[name] = sort
	s.heap[name] = t
	return t
}

func (s *State) setHeap(name string, t *Term, key *Term) {
	old := s.getHeap(name, t.Sort)
	if old == t {
		return
	}
	s.heap[name] = t
	s.x.heapSorts[name] = t.Sort
	for _, l := range s.x.writeLogs {
		l.add(s.x, name, key)
	}
}

type writeLog struct {
	m map[string]map[int]*Term // heap -> key id -> key (id 0 = whole)
}

func (l *writeLog) add(x *Exec, heap string, key *Term) {
	if l.m[heap] == nil {
		l.m[heap] = map[int]*Term{}
	}
	if key == nil {
		l.m[heap][0] = nil
		return
	}
	if key.Op == "ite" {
		l.add(x, heap, key.Args[1])
		l.add(x, heap, key.Args[2])
		return
	}
	l.m[heap][key.id] = key
}

// newRef allocates a fresh reference.
func (s *State) newRef() *Term {
	r := s.alloc
	s.alloc = s.x.c.Add(s.alloc, s.x.c.I(1))
	return r
}

// Obligation is one verification condition.
type Obligation struct {
	Name   string
	Kind   string
	Pos    string
	Trail  string
	pc     []*Term
	goal   *Term
	Status string
	Solver string
	Ms     int64
	Cover  bool
	Fn     string
	Query  string
	alts   []*Obligation
}

func (s *State) oblige(kind, name string, pos token.Pos, goal *Term) {
	x := s.x
	if s.dead {
		return
	}
	if x.quiet > 0 {
		s.fact(goal)
		return
	}
	o := &Obligation{Name: name, Kind: kind, Pos: x.posStr(pos), Trail: s.trail, pc: s.pc[:len(s.pc):len(s.pc)], goal: goal, Fn: x.unit}
	if v, ok := s.decided(goal); ok && v {
		o.Status = "proved"
		o.Solver = "simplifier"
	}
	x.obls = append(x.obls, o)
	s.fact(goal)
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	pp := x.prog.Fset.Position(p)
	f := pp.Filename
	if len(f) > 6 && f[:6] == "/repo/" {
		f = f[6:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
