package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec verifies one function.
type Exec struct {
	spawning  bool     // the precondition of a goroutine is being checked
	notes     []string // assumptions made on the way
	prog      *ssa.Program
	specs     *Specs
	c         *Ctx
	unit      string
	contract  *Contract
	tags      map[string]int
	tagTypes  []types.Type
	heapSorts map[string]Sort
	heapElem  map[string]types.Type
	writeLogs []*writeLog
	obls      []*Obligation
	quiet     int
	discover  int
	funcs     map[*Term]*FuncVal
	cancelFns map[*Term]*Term
	iters     int
	loopInv   map[string]*loopInfo
	entry     *State
	binds     map[string]SV
	depth     int
	inlined   map[string]bool
	opaque    map[string]bool
	used      map[string]bool // contracts applied
	unsup     []string
	paths     int
	axioms    []*Term
	houdiniQ  int
	globIDs   map[string]int
	stats     struct{ loops, cands, kept int }
	curFrame  *frame
	budget    int
	verbose   bool
	boundsOff bool
}

type frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	defers  []deferred
	free    []Val
	parent  *frame
	loops   map[*ssa.BasicBlock]*loopCtl
	path    string
	results []Val
	kcount  map[*ssa.BasicBlock]*Term
}

type deferred struct {
	call *ssa.CallCommon
	fv   Val
	args []Val
	pos  token.Pos
}

func (f *frame) clone() *frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.loops = make(map[*ssa.BasicBlock]*loopCtl, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.kcount = make(map[*ssa.BasicBlock]*Term, len(f.kcount))
	for k, v := range f.kcount {
		n.kcount[k] = v
	}
	return &n
}

type outcome struct {
	st  *State
	res []Val
	fr  *frame
}

func (x *Exec) ix(o, i *Term) *Term {
	if o.Op == "int" && o.Int.Sign() == 0 {
		return i
	}
	if o.Op == "ix" {
		return x.ix(o.Args[0], x.c.Add(o.Args[1], i))
	}
	if i.Op == "int" && i.Int.Sign() == 0 && false {
		return o
	}
	return x.c.App("ix", SInt, o, i)
}

func (x *Exec) elemHeap(t types.Type) (string, Sort) {
	s := x.sortOf(t)
	n := "E." + typeName(t)
	x.heapElem[n] = t
	return n, arr(SInt, arr(SInt, s))
}

func (x *Exec) cellHeap(t types.Type) (string, Sort) {
	n := "C." + typeName(t)
	x.heapElem[n] = t
	return n, arr(SInt, x.sortOf(t))
}

func (x *Exec) fieldHeap(st types.Type, i int) (string, Sort, types.Type) {
	u := st.Underlying().(*types.Struct)
	f := u.Field(i)
	n := "F." + typeName(st) + "." + f.Name()
	x.heapElem[n] = f.Type()
	return n, arr(SInt, x.sortOf(f.Type())), f.Type()
}

func (x *Exec) mapHeaps(m *types.Map) (d, v, l string, ds, vs Sort) {
	n := typeName(m)
	k, e := x.sortOf(m.Key()), x.sortOf(m.Elem())
	x.heapElem["MV."+n] = m.Elem()
	return "MD." + n, "MV." + n, "ML." + n, arr(SInt, arr(k, SBool)), arr(SInt, arr(k, e))
}

func derefT(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// locOf turns a pointer value into an lvalue (pointee type t).
func (x *Exec) locOf(st *State, p Val, t types.Type) *Loc {
	if p.Loc != nil {
		return p.Loc
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		_ = a
		panic(unsupported("whole-array access"))
	}
	h, _ := x.cellHeap(t)
	return &Loc{kind: "cell", heap: h, base: p.T, typ: t}
}

func (x *Exec) loadRoot(st *State, l *Loc) *Term {
	c := x.c
	switch l.kind {
	case "field", "cell":
		rt := l.typ
		if len(l.roots) > 0 {
			rt = l.roots[0]
		}
		return c.Select(st.getHeap(l.heap, arr(SInt, x.sortOf(rt))), l.base)
	case "elem":
		rt := l.typ
		if len(l.roots) > 0 {
			rt = l.roots[0]
		}
		return c.Select(c.Select(st.getHeap(l.heap, arr(SInt, arr(SInt, x.sortOf(rt)))), l.base), l.idx)
	case "global":
		rt := l.typ
		if len(l.roots) > 0 {
			rt = l.roots[0]
		}
		return st.getHeap(l.heap, x.sortOf(rt))
	}
	panic("loc kind " + l.kind)
}

func (x *Exec) load(st *State, l *Loc, pos token.Pos) Val {
	if l.kind == "field" && l.guard == nil {
		x.checkGuard(st, l, false, pos)
	}
	v := x.loadRoot(st, l)
	for i, p := range l.path {
		_ = i
		if x.c.dts[v.Sort] == nil {
			f := fmt.Sprintf("proj_%s_%d", sanitize(string(v.Sort)), p)
			v = x.c.App(f, x.sortOf(l.pathType(i)), v)
			continue
		}
		v = x.c.Get(v, p)
	}
	x.typeFacts(st, v, l.typ)
	r := Val{T: v}
	if fv, ok := x.funcs[v]; ok {
		r.Fn = fv
	}
	r.Guard = x.guardFor(st, l)
	return r
}

// pathType is the type after path step i.
func (l *Loc) pathType(i int) types.Type {
	if i+1 < len(l.roots) {
		return l.roots[i+1]
	}
	return l.typ
}

func (x *Exec) store(st *State, l *Loc, v Val, pos token.Pos) {
	if l.kind == "field" {
		x.checkGuard(st, l, true, pos)
	} else if l.guard != nil {
		x.checkGuardRef(st, l.guard, true, pos, "element")
	}
	t := x.term(st, v, l.typ)
	if len(l.path) > 0 {
		root := x.loadRoot(st, l)
		var upd func(cur *Term, path []int) *Term
		upd = func(cur *Term, path []int) *Term {
			if len(path) == 0 {
				return t
			}
			if x.c.dts[cur.Sort] == nil {
				panic(unsupported("store into opaque struct %s", cur.Sort))
			}
			return x.c.With(cur, path[0], upd(x.c.Get(cur, path[0]), path[1:]))
		}
		t = upd(root, l.path)
	}
	switch l.kind {
	case "field", "cell":
		h := st.getHeap(l.heap, arr(SInt, t.Sort))
		st.setHeap(l.heap, x.c.Store(h, l.base, t), l.base)
	case "elem":
		h := st.getHeap(l.heap, arr(SInt, arr(SInt, t.Sort)))
		st.setHeap(l.heap, x.c.Store(h, l.base, x.c.Store(x.c.Select(h, l.base), l.idx, t)), l.base)
	case "global":
		st.setHeap(l.heap, t, nil)
	}
}

// loadPtr loads *p where p has static type *t.
func (x *Exec) loadPtr(st *State, p Val, t types.Type, pos token.Pos) Val {
	if p.Loc == nil && isStruct(t) {
		x.nilCheck(st, p.T, pos, "dereference")
		s := x.sortOf(t)
		if x.c.dts[s] == nil {
			h := "S." + typeName(t)
			return Val{T: x.c.Select(st.getHeap(h, arr(SInt, s)), p.T)}
		}
		u := t.Underlying().(*types.Struct)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			h, hs, ft := x.fieldHeap(t, i)
			l := &Loc{kind: "field", heap: h, base: p.T, typ: ft, own: ownName(t, i)}
			x.checkGuard(st, l, false, pos)
			v := x.c.Select(st.getHeap(h, hs), p.T)
			x.typeFacts(st, v, ft)
			as = append(as, v)
		}
		return Val{T: x.c.Mk(s, as...)}
	}
	if p.Loc == nil {
		x.nilCheck(st, p.T, pos, "dereference")
	}
	return x.load(st, x.locOf(st, p, t), pos)
}

func (x *Exec) storePtr(st *State, p Val, t types.Type, v Val, pos token.Pos) {
	if p.Loc == nil && isStruct(t) {
		x.nilCheck(st, p.T, pos, "store")
		s := x.sortOf(t)
		vt := x.term(st, v, t)
		if x.c.dts[s] == nil {
			h := "S." + typeName(t)
			st.setHeap(h, x.c.Store(st.getHeap(h, arr(SInt, s)), p.T, vt), p.T)
			return
		}
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			h, hs, _ := x.fieldHeap(t, i)
			st.setHeap(h, x.c.Store(st.getHeap(h, hs), p.T, x.c.Get(vt, i)), p.T)
		}
		return
	}
	if p.Loc == nil {
		x.nilCheck(st, p.T, pos, "store")
	}
	x.store(st, x.locOf(st, p, t), v, pos)
}

func ownName(t types.Type, i int) string {
	return typeName(t) + "." + t.Underlying().(*types.Struct).Field(i).Name()
}

func (x *Exec) nilCheck(st *State, p *Term, pos token.Pos, what string) {
	if p == nil {
		panic(unsupported("nil check of non-term pointer"))
	}
	st.oblige("safety", "no nil "+what, pos, x.c.Ne(p, x.c.I(0)))
}

// term materialises a value as an SMT term.
func (x *Exec) term(st *State, v Val, t types.Type) *Term {
	if v.T != nil {
		return v.T
	}
	if v.Fn != nil {
		return x.funcTerm(st, v.Fn)
	}
	if v.Loc != nil {
		// address of a field or element used as a plain pointer value
		l := v.Loc
		name := "addr_" + sanitize(l.heap)
		for _, p := range l.path {
			name += fmt.Sprintf("_%d", p)
		}
		var a *Term
		switch {
		case l.idx != nil:
			a = x.c.App(name, SInt, l.base, l.idx)
		case l.base != nil:
			a = x.c.App(name, SInt, l.base)
		default:
			a = x.c.Sym(name, SInt)
		}
		st.fact(x.c.raw("<", SBool, a, x.c.I(0))) // interior pointers live apart from objects
		return a
	}
	if v.Tup != nil {
		panic(unsupported("tuple as term"))
	}
	return x.zero(t)
}

func (x *Exec) funcTerm(st *State, f *FuncVal) *Term {
	if len(f.Binds) == 0 {
		t := x.c.Sym("fn_"+sanitize(f.Fn.String()), SInt)
		st.fact(x.c.raw("<", SBool, x.c.I(0), t))
		x.funcs[t] = f
		return t
	}
	t := st.newRef()
	x.funcs[t] = f
	return t
}

func (x *Exec) val(fr *frame, st *State, v ssa.Value) Val {
	if r, ok := fr.env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Val{Fn: &FuncVal{Fn: v}}
	case *ssa.Global:
		return Val{Loc: &Loc{kind: "global", heap: "G." + v.Pkg.Pkg.Name() + "." + v.Name(), typ: derefT(v.Type())}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return Val{}
	}
	panic(unsupported("value %s (%T) undefined in %s", v.Name(), v, fr.fn))
}

func (x *Exec) constVal(v *ssa.Const) Val {
	c := x.c
	t := v.Type()
	if v.Value == nil {
		return Val{T: x.zero(t)}
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return Val{T: c.B(constant.BoolVal(v.Value))}
	case constant.String:
		return Val{T: c.StrLit(constant.StringVal(v.Value))}
	case constant.Int:
		if x.sortOf(t) == SInt {
			b, _ := new(big.Int).SetString(v.Value.ExactString(), 10)
			return Val{T: c.Big(b)}
		}
	}
	return Val{T: c.Sym("const_"+sanitize(v.Value.ExactString()), x.sortOf(t))}
}

// wrap applies Go's fixed-width arithmetic.
func (x *Exec) wrap(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	c := x.c
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	inLo := t.lo != nil && t.lo.Cmp(lo) >= 0
	inHi := t.hi != nil && t.hi.Cmp(hi) <= 0
	if inLo && inHi {
		return t
	}
	if t.Op == "int" {
		m := new(big.Int).Mod(new(big.Int).Sub(t.Int, lo), size)
		return c.Big(m.Add(m, lo))
	}
	// one wrap suffices for +, - of in-range operands
	r := t
	oneUp := t.hi == nil || t.hi.Cmp(new(big.Int).Add(hi, size)) <= 0
	oneDn := t.lo == nil || t.lo.Cmp(new(big.Int).Sub(lo, size)) >= 0
	if t.lo == nil || t.hi == nil || !oneUp || !oneDn {
		m := c.raw("mod", SInt, c.Sub(t, c.Big(lo)), c.Big(size))
		r = c.Add(m, c.Big(lo))
		res := c.Ite(c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi))), t, r)
		res.lo, res.hi = lo, hi
		return res
	}
	if !inHi {
		r = c.Ite(c.Le(t, c.Big(hi)), r, c.Sub(t, c.Big(size)))
	}
	if !inLo {
		r = c.Ite(c.Le(c.Big(lo), t), r, c.Add(t, c.Big(size)))
	}
	if r.Op == "ite" {
		r.lo, r.hi = lo, hi
	}
	return r
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, ta types.Type, tr types.Type, pos token.Pos) *Term {
	c := x.c
	switch op {
	case token.EQL:
		return c.Eq(a, b)
	case token.NEQ:
		return c.Ne(a, b)
	}
	switch a.Sort {
	case SInt:
		switch op {
		case token.ADD:
			return x.wrap(c.Add(a, b), tr)
		case token.SUB:
			return x.wrap(c.Sub(a, b), tr)
		case token.MUL:
			return x.wrap(c.Mul(a, b), tr)
		case token.LSS:
			return c.Lt(a, b)
		case token.LEQ:
			return c.Le(a, b)
		case token.GTR:
			return c.Lt(b, a)
		case token.GEQ:
			return c.Le(b, a)
		case token.QUO, token.REM:
			st.oblige("safety", "no division by zero", pos, c.Ne(b, c.I(0)))
			lo, _, _ := intRange(ta)
			if lo != nil && lo.Sign() == 0 || a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
				if op == token.QUO {
					r := c.raw("div", SInt, a, b)
					if r.lo == nil {
						r.lo, r.hi = big.NewInt(0), a.hi
					}
					return r
				}
				r := c.raw("mod", SInt, a, b)
				if r.lo == nil {
					r.lo, r.hi = big.NewInt(0), b.hi
				}
				return r
			}
			r := c.App("go_"+map[token.Token]string{token.QUO: "quo", token.REM: "rem"}[op], SInt, a, b)
			pos := c.And(c.Le(c.I(0), a), c.Lt(c.I(0), b))
			if op == token.QUO {
				st.fact(c.Imp(pos, c.Eq(r, c.raw("div", SInt, a, b))))
			} else {
				st.fact(c.Imp(pos, c.And(c.Eq(r, c.raw("mod", SInt, a, b)), c.Le(c.I(0), r), c.Lt(r, b))))
			}
			x.typeFacts(st, r, tr)
			return r
		default:
			r := c.App("go_bit_"+sanitize(opName(op)), SInt, a, b)
			x.typeFacts(st, r, tr)
			return r
		}
	case SStr:
		switch op {
		case token.ADD:
			return x.strCat(st, a, b)
		case token.LSS:
			return x.strLt(a, b)
		case token.GTR:
			return x.strLt(b, a)
		case token.LEQ:
			return c.Not(x.strLt(b, a))
		case token.GEQ:
			return c.Not(x.strLt(a, b))
		}
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
	}
	return c.App("go_op_"+opName(op)+"_"+sanitize(string(a.Sort)), x.sortOf(tr), a, b)
}

func opName(op token.Token) string {
	return map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot", token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "quo", token.REM: "rem", token.LSS: "lss", token.LEQ: "leq", token.GTR: "gtr", token.GEQ: "geq"}[op]
}

func (x *Exec) slen(st *State, s *Term) *Term {
	c := x.c
	if s.Op == "strlit" {
		return c.I(int64(len(s.Name)))
	}
	var l *Term
	if c.strTheory {
		l = c.raw("str.len", SInt, s)
	} else {
		if s.Op == "bcat" {
			return c.Add(x.slen(st, s.Args[0]), x.slen(st, s.Args[1]))
		}
		l = c.App("slen", SInt, s)
	}
	if l.lo == nil {
		l.lo, l.hi = big.NewInt(0), maxLen
	}
	if st != nil && !l.bnd {
		st.fact(c.And(c.raw("<=", SBool, c.I(0), l), c.raw("<=", SBool, l, c.Big(maxLen))))
	}
	return l
}

func (x *Exec) strCat(st *State, a, b *Term) *Term {
	c := x.c
	if a.Op == "strlit" && b.Op == "strlit" {
		return c.StrLit(a.Name + b.Name)
	}
	if a.Op == "strlit" && a.Name == "" {
		return b
	}
	if b.Op == "strlit" && b.Name == "" {
		return a
	}
	if c.strTheory {
		return c.raw("str.++", SStr, a, b)
	}
	r := c.App("bcat", SStr, a, b)
	if st != nil && !r.bnd {
		st.fact(c.raw("=", SBool, c.App("slen", SInt, r), c.Add(x.slen(st, a), x.slen(st, b))))
	}
	return r
}

func (x *Exec) strLt(a, b *Term) *Term {
	if x.c.strTheory {
		return x.c.raw("str.<", SBool, a, b)
	}
	return x.c.App("slt", SBool, a, b)
}

func (x *Exec) loc(t *Loc, f int, st types.Type) *Loc {
	u := st.Underlying().(*types.Struct)
	n := *t
	n.path = append(append([]int(nil), t.path...), f)
	n.roots = append([]types.Type(nil), t.roots...)
	if len(n.roots) == 0 {
		n.roots = append(n.roots, t.typ)
	} else {
		n.roots = append(n.roots, st)
	}
	n.typ = u.Field(f).Type()
	return &n
}

func (x *Exec) fieldAddr(st *State, p Val, t types.Type, i int, pos token.Pos) *Loc {
	if p.Loc != nil {
		return x.loc(p.Loc, i, t)
	}
	x.nilCheck(st, p.T, pos, "field access")
	h, _, ft := x.fieldHeap(t, i)
	return &Loc{kind: "field", heap: h, base: p.T, typ: ft, own: ownName(t, i)}
}

// step executes instructions of blk from idx on. It returns the outcomes of the function.
func (x *Exec) step(fr *frame, st *State, blk *ssa.BasicBlock, idx int) []outcome {
	for idx < len(blk.Instrs) {
		if st.dead {
			return nil
		}
		x.budget--
		if x.budget < 0 {
			panic(unsupported("symbolic execution budget exhausted"))
		}
		in := blk.Instrs[idx]
		idx++
		switch in := in.(type) {
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.val(fr, st, r))
			}
			return []outcome{{st, rs, fr}}
		case *ssa.Jump:
			return x.jump(fr, st, blk, blk.Succs[0])
		case *ssa.If:
			cond := x.term(st, x.val(fr, st, in.Cond), in.Cond.Type())
			if v, ok := st.decided(cond); ok {
				if v {
					return x.jump(fr, st, blk, blk.Succs[0])
				}
				return x.jump(fr, st, blk, blk.Succs[1])
			}
			st2 := st.clone()
			fr2 := fr.clone()
			st.fact(cond)
			st.trail += "T"
			st2.fact(x.c.Not(cond))
			st2.trail += "F"
			var out []outcome
			if !st.dead {
				out = append(out, x.jump(fr, st, blk, blk.Succs[0])...)
			}
			if !st2.dead {
				out = append(out, x.jump(fr2, st2, blk, blk.Succs[1])...)
			}
			return out
		case *ssa.Panic:
			if x.contract == nil || !x.contract.MayPanic {
				st.oblige("safety", "no explicit panic", in.Pos(), x.c.False)
			}
			return nil
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			outs := x.callCommon(fr, st, d.call, d.fv, d.args, d.pos, nil)
			if len(outs) == 1 {
				st = outs[0].st
				idx--
				continue
			}
			var out []outcome
			for _, o := range outs {
				out = append(out, x.step(fr.clone(), o.st, blk, idx-1)...)
			}
			return out
		case *ssa.Call:
			fv, args := x.evalCall(fr, st, &in.Call)
			outs := x.callCommon(fr, st, &in.Call, fv, args, in.Pos(), in)
			var out []outcome
			for i, o := range outs {
				f2 := fr
				if i < len(outs)-1 {
					f2 = fr.clone()
				}
				f2.env[in] = packResults(o.res)
				if len(outs) == 1 {
					st = o.st
					break
				}
				out = append(out, x.step(f2, o.st, blk, idx)...)
			}
			if len(outs) == 1 {
				continue
			}
			return out
		case *ssa.Select:
			brs := x.execSelect(fr, st, in)
			var out []outcome
			for i, b := range brs {
				f2 := fr
				if i < len(brs)-1 {
					f2 = fr.clone()
				}
				f2.env[in] = Val{Tup: b.res}
				if len(brs) == 1 {
					st = b.st
					break
				}
				out = append(out, x.step(f2, b.st, blk, idx)...)
			}
			if len(brs) == 1 {
				continue
			}
			return out
		case *ssa.Next:
			brs := x.execNext(fr, st, in)
			var out []outcome
			for i, b := range brs {
				f2 := fr
				if i < len(brs)-1 {
					f2 = fr.clone()
				}
				f2.env[in] = Val{Tup: b.res}
				out = append(out, x.step(f2, b.st, blk, idx)...)
			}
			return out
		default:
			x.instr(fr, st, in)
		}
	}
	return nil
}

func packResults(r []Val) Val {
	if len(r) == 1 {
		return r[0]
	}
	return Val{Tup: r}
}

func (x *Exec) jump(fr *frame, st *State, from, to *ssa.BasicBlock) []outcome {
	if st.dead {
		return nil
	}
	return x.enter(fr, st, from, to)
}

func (x *Exec) phis(fr *frame, st *State, from, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vs []Val
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(fr, st, p.Edges[pi]))
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
	}
}

func (x *Exec) instr(fr *frame, st *State, in ssa.Instruction) {
	c := x.c
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// assigned on block entry
	case *ssa.Alloc:
		t := derefT(in.Type())
		r := st.newRef()
		switch u := t.Underlying().(type) {
		case *types.Array:
			h, hs := x.elemHeap(u.Elem())
			a := st.getHeap(h, hs)
			st.setHeap(h, c.Store(a, r, c.ConstArr(arr(SInt, x.sortOf(u.Elem())), x.zero(u.Elem()))), r)
			fr.env[in] = Val{T: r}
		case *types.Struct:
			x.initStruct(st, r, t)
			fr.env[in] = Val{T: r}
		default:
			h, hs := x.cellHeap(t)
			st.setHeap(h, c.Store(st.getHeap(h, hs), r, x.zero(t)), r)
			fr.env[in] = Val{T: r}
		}
	case *ssa.BinOp:
		a := x.val(fr, st, in.X)
		b := x.val(fr, st, in.Y)
		ta := in.X.Type()
		at, bt := x.term(st, a, in.X.Type()), x.term(st, b, in.Y.Type())
		if at.Sort == SSl && bt.Sort == SSl { // comparison with nil
			at, bt = c.Get(at, 0), c.Get(bt, 0)
			if bt.Op == "int" {
				// slice == nil
			}
		}
		if at.Sort != bt.Sort {
			if at.Sort == SAny {
				bt = x.box(st, bt, in.Y.Type())
			} else if bt.Sort == SAny {
				at = x.box(st, at, in.X.Type())
			}
		}
		fr.env[in] = Val{T: x.binop(st, in.Op, at, bt, ta, in.Type(), in.Pos())}
	case *ssa.UnOp:
		x.unop(fr, st, in)
	case *ssa.ChangeInterface:
		fr.env[in] = x.val(fr, st, in.X)
	case *ssa.ChangeType:
		fr.env[in] = x.val(fr, st, in.X)
	case *ssa.Convert:
		fr.env[in] = x.convert(st, x.val(fr, st, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		v := x.val(fr, st, in.X)
		fr.env[in] = Val{T: x.box(st, x.term(st, v, in.X.Type()), in.X.Type())}
	case *ssa.Extract:
		t := x.val(fr, st, in.Tuple)
		fr.env[in] = t.Tup[in.Index]
	case *ssa.Field:
		v := x.val(fr, st, in.X)
		t := x.term(st, v, in.X.Type())
		var r *Term
		if c.dts[t.Sort] == nil {
			r = c.App(fmt.Sprintf("proj_%s_%d", sanitize(string(t.Sort)), in.Field), x.sortOf(in.Type()), t)
		} else {
			r = c.Get(t, in.Field)
		}
		x.typeFacts(st, r, in.Type())
		rv := Val{T: r}
		if fv, ok := x.funcs[r]; ok {
			rv.Fn = fv
		}
		fr.env[in] = rv
	case *ssa.FieldAddr:
		p := x.val(fr, st, in.X)
		fr.env[in] = Val{Loc: x.fieldAddr(st, p, derefT(in.X.Type()), in.Field, in.Pos())}
	case *ssa.IndexAddr:
		v := x.val(fr, st, in.X)
		i := x.term(st, x.val(fr, st, in.Index), in.Index.Type())
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(st, v, in.X.Type())
			st.oblige("safety", "index in range", in.Pos(), c.And(c.Le(c.I(0), i), c.Lt(i, c.Get(s, 2))))
			h, _ := x.elemHeap(u.Elem())
			if v.Guard != nil {
				x.checkGuardRef(st, v.Guard, false, in.Pos(), "slice")
			}
			fr.env[in] = Val{Loc: &Loc{kind: "elem", heap: h, base: c.Get(s, 0), idx: x.ix(c.Get(s, 1), i), typ: u.Elem(), guard: v.Guard}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			st.oblige("safety", "index in range", in.Pos(), c.And(c.Le(c.I(0), i), c.Lt(i, c.I(at.Len()))))
			h, _ := x.elemHeap(at.Elem())
			if v.T == nil {
				panic(unsupported("address of array element inside a struct"))
			}
			fr.env[in] = Val{Loc: &Loc{kind: "elem", heap: h, base: v.T, idx: i, typ: at.Elem()}}
		default:
			panic(unsupported("IndexAddr of %s", in.X.Type()))
		}
	case *ssa.Index:
		s := x.term(st, x.val(fr, st, in.X), in.X.Type())
		i := x.term(st, x.val(fr, st, in.Index), in.Index.Type())
		if s.Sort == SStr {
			st.oblige("safety", "index in range", in.Pos(), c.And(c.Le(c.I(0), i), c.Lt(i, x.slen(st, s))))
			r := c.App("sat", SInt, s, i)
			x.typeFacts(st, r, in.Type())
			fr.env[in] = Val{T: r}
			return
		}
		r := c.App("index_"+sanitize(string(s.Sort)), x.sortOf(in.Type()), s, i)
		x.typeFacts(st, r, in.Type())
		fr.env[in] = Val{T: r}
	case *ssa.Lookup:
		mv := x.val(fr, st, in.X)
		m := x.term(st, mv, in.X.Type())
		k := x.term(st, x.val(fr, st, in.Index), in.Index.Type())
		if m.Sort == SStr {
			st.oblige("safety", "index in range", in.Pos(), c.And(c.Le(c.I(0), k), c.Lt(k, x.slen(st, m))))
			r := c.App("sat", SInt, m, k)
			x.typeFacts(st, r, in.Type())
			fr.env[in] = Val{T: r}
			return
		}
		if mv.Guard != nil {
			x.checkGuardRef(st, mv.Guard, false, in.Pos(), "map")
		}
		mt := in.X.Type().Underlying().(*types.Map)
		v, ok := x.mapGet(st, mt, m, k)
		r := Val{T: v, Guard: mv.Guard}
		if fv, okk := x.funcs[v]; okk {
			r.Fn = fv
		}
		if in.CommaOk {
			fr.env[in] = Val{Tup: []Val{r, {T: ok}}}
		} else {
			fr.env[in] = r
		}
	case *ssa.MapUpdate:
		mv := x.val(fr, st, in.Map)
		m := x.term(st, mv, in.Map.Type())
		mt := in.Map.Type().Underlying().(*types.Map)
		k := x.term(st, x.val(fr, st, in.Key), in.Key.Type())
		v := x.term(st, x.val(fr, st, in.Value), in.Value.Type())
		st.oblige("safety", "no write to a nil map", in.Pos(), c.Ne(m, c.I(0)))
		if mv.Guard != nil {
			x.checkGuardRef(st, mv.Guard, true, in.Pos(), "map")
		}
		x.mapSet(st, mt, m, k, v)
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		r := st.newRef()
		d, _, l, ds, _ := x.mapHeaps(mt)
		st.setHeap(d, c.Store(st.getHeap(d, ds), r, c.ConstArr(arr(x.sortOf(mt.Key()), SBool), c.False)), r)
		st.setHeap(l, c.Store(st.getHeap(l, arr(SInt, SInt)), r, c.I(0)), r)
		fr.env[in] = Val{T: r}
	case *ssa.MakeChan:
		r := st.newRef()
		et := in.Type().Underlying().(*types.Chan).Elem()
		_ = et
		st.setHeap("CN", c.Store(st.getHeap("CN", arr(SInt, SInt)), r, c.I(0)), r)
		st.setHeap("CR", c.Store(st.getHeap("CR", arr(SInt, SInt)), r, c.I(0)), r)
		st.setHeap("CC", c.Store(st.getHeap("CC", arr(SInt, SBool)), r, c.False), r)
		sz := x.term(st, x.val(fr, st, in.Size), in.Size.Type())
		st.oblige("safety", "channel size is not negative", in.Pos(), c.Le(c.I(0), sz))
		st.setHeap("CCAP", c.Store(st.getHeap("CCAP", arr(SInt, SInt)), r, sz), r)
		fr.env[in] = Val{T: r}
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		l := x.term(st, x.val(fr, st, in.Len), in.Len.Type())
		cp := x.term(st, x.val(fr, st, in.Cap), in.Cap.Type())
		st.oblige("safety", "make: 0 <= len <= cap", in.Pos(), c.And(c.Le(c.I(0), l), c.Le(l, cp)))
		st.fact(c.Le(cp, c.Big(maxLen)))
		r := st.newRef()
		h, hs := x.elemHeap(et)
		st.setHeap(h, c.Store(st.getHeap(h, hs), r, c.ConstArr(arr(SInt, x.sortOf(et)), x.zero(et))), r)
		// a zero-capacity slice still has a distinct, non-nil backing identity
		fr.env[in] = Val{T: c.Mk(SSl, r, c.I(0), l, cp)}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(fr, st, b))
		}
		fr.env[in] = Val{Fn: &FuncVal{fn, bs}}
	case *ssa.Slice:
		fr.env[in] = x.slice(fr, st, in)
	case *ssa.Store:
		p := x.val(fr, st, in.Addr)
		x.storePtr(st, p, derefT(in.Addr.Type()), x.val(fr, st, in.Val), in.Pos())
	case *ssa.TypeAssert:
		fr.env[in] = x.typeAssert(st, x.val(fr, st, in.X).T, in.AssertedType, in.CommaOk, in.Pos())
	case *ssa.Range:
		m := x.term(st, x.val(fr, st, in.X), in.X.Type())
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			panic(unsupported("range over string"))
		}
		vh := "VIS#" + fr.path + in.Name()
		vs := arr(x.sortOf(mt.Key()), SBool)
		st.heap[vh] = c.ConstArr(vs, c.False)
		x.heapSorts[vh] = vs
		d, _, _, ds, _ := x.mapHeaps(mt)
		it := &iterVal{heapVis: vh, m: m, mt: mt, dom0: c.Select(st.getHeap(d, ds), m)}
		st.vis = append(st.vis, it)
		fr.env[in] = Val{Iter: it, Guard: x.val(fr, st, in.X).Guard}
	case *ssa.Send:
		ch := x.term(st, x.val(fr, st, in.Chan), in.Chan.Type())
		x.send(st, ch, x.term(st, x.val(fr, st, in.X), in.X.Type()), in.Pos())
	case *ssa.Defer:
		fv, args := x.evalCall(fr, st, &in.Call)
		for b := range fr.loops {
			_ = b
			if x.inLoop(in.Block(), b) {
				panic(unsupported("defer inside a loop"))
			}
		}
		fr.defers = append(fr.defers, deferred{&in.Call, fv, args, in.Pos()})
	case *ssa.Go:
		x.execGo(fr, st, in)
	default:
		panic(unsupported("instruction %T in %s", in, fr.fn))
	}
}

func (x *Exec) inLoop(b, h *ssa.BasicBlock) bool {
	for _, y := range loopBlocks(h) {
		if y == b {
			return true
		}
	}
	return false
}

func (x *Exec) initStruct(st *State, r *Term, t types.Type) {
	c := x.c
	s := x.sortOf(t)
	if c.dts[s] == nil {
		h := "S." + typeName(t)
		st.setHeap(h, c.Store(st.getHeap(h, arr(SInt, s)), r, x.zero(t)), r)
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if _, isArr := u.Field(i).Type().Underlying().(*types.Array); isArr {
			continue
		}
		if c.dts[s] == nil && !x.fieldHeapUsed(t, i) {
			continue
		}
		h, hs, ft := x.fieldHeap(t, i)
		st.setHeap(h, c.Store(st.getHeap(h, hs), r, x.zero(ft)), r)
	}
}

func (x *Exec) fieldHeapUsed(t types.Type, i int) bool {
	f := t.Underlying().(*types.Struct).Field(i)
	return f.Exported()
}

func (x *Exec) unop(fr *frame, st *State, in *ssa.UnOp) {
	c := x.c
	v := x.val(fr, st, in.X)
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			fr.env[in] = x.loadGlobal(st, g)
			return
		}
		fr.env[in] = x.loadPtr(st, v, derefT(in.X.Type()), in.Pos())
	case token.NOT:
		fr.env[in] = Val{T: c.Not(v.T)}
	case token.SUB:
		if v.T.Sort != SInt {
			fr.env[in] = Val{T: c.App("fneg", v.T.Sort, v.T)}
			return
		}
		fr.env[in] = Val{T: x.wrap(c.Sub(c.I(0), v.T), in.Type())}
	case token.XOR:
		r := c.App("go_bit_not", SInt, v.T)
		x.typeFacts(st, r, in.Type())
		fr.env[in] = Val{T: r}
	case token.ARROW:
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		ch := x.term(st, v, in.X.Type())
		val, ok := x.recv(st, ch, et)
		if in.CommaOk {
			fr.env[in] = Val{Tup: []Val{{T: val}, {T: ok}}}
		} else {
			fr.env[in] = Val{T: val}
		}
	default:
		panic(unsupported("unop %s", in.Op))
	}
}

// loadGlobal reads a package variable; variables never stored outside init are constants.
func (x *Exec) loadGlobal(st *State, g *ssa.Global) Val {
	t := derefT(g.Type())
	h := "G." + g.Pkg.Pkg.Name() + "." + g.Name()
	v := st.getHeap(h, x.sortOf(t))
	if v.Sort == SAny && types.Implements(t, errorIface) {
		if x.globIDs == nil {
			x.globIDs = map[string]int{}
		}
		if x.globIDs[h] == 0 {
			x.globIDs[h] = len(x.globIDs) + 1
		}
		st.fact(x.c.Ne(v, x.nilAny()))
		st.fact(x.c.Eq(x.c.App("globid", SInt, v), x.c.I(int64(x.globIDs[h]))))
	}
	if x.specs.NonNil[g.Pkg.Pkg.Path()+"."+g.Name()] {
		st.fact(x.c.Ne(v, x.zero(t)))
	}
	x.typeFacts(st, v, t)
	return Val{T: v}
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	c := x.c
	t := x.term(st, v, from)
	fs, ts := x.sortOf(from), x.sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		if _, _, ok := intRange(to); ok {
			return Val{T: x.wrap(t, to)}
		}
		return Val{T: t}
	case fs == ts && fs != SSl:
		return v
	case fs == SStr && ts == SSl:
		// []byte(s): a fresh backing array holding s
		et := to.Underlying().(*types.Slice).Elem()
		h, hs := x.elemHeap(et)
		r := st.newRef()
		cont := c.Fresh("bytesOf", arr(SInt, SInt))
		st.setHeap(h, c.Store(st.getHeap(h, hs), r, cont), r)
		l := x.slen(st, t)
		if _, isByte := et.Underlying().(*types.Basic); isByte && et.Underlying().(*types.Basic).Kind() != types.Uint8 {
			l = c.Fresh("runes", SInt)
			x.typeFacts(st, l, types.Typ[types.Int])
			st.fact(c.And(c.Le(c.I(0), l), c.Le(l, c.Big(maxLen))))
		} else {
			st.fact(c.Eq(x.bseq(cont, c.I(0), l), t))
		}
		return Val{T: c.Mk(SSl, r, c.I(0), l, l)}
	case fs == SSl && ts == SStr:
		et := from.Underlying().(*types.Slice).Elem()
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return Val{T: x.bytesTerm(st, t)}
		}
		return Val{T: c.Fresh("str", SStr)}
	case fs == SSl && ts == SSl:
		return v
	}
	name := "conv_" + sanitize(string(fs)) + "_" + sanitize(typeName(to))
	r := c.App(name, ts, t)
	x.typeFacts(st, r, to)
	return Val{T: r}
}

// bseq is the string held by a byte array segment.
func (x *Exec) bseq(a, off, l *Term) *Term {
	return x.c.App("bseq", SStr, a, off, l)
}

func (x *Exec) bytesTerm(st *State, s *Term) *Term {
	c := x.c
	h, hs := x.elemHeap(types.Typ[types.Uint8])
	r := x.bseq(c.Select(st.getHeap(h, hs), c.Get(s, 0)), c.Get(s, 1), c.Get(s, 2))
	if !r.bnd {
		st.fact(c.raw("=", SBool, c.App("slen", SInt, r), c.Get(s, 2)))
	}
	return r
}

func (x *Exec) slice(fr *frame, st *State, in *ssa.Slice) Val {
	c := x.c
	v := x.val(fr, st, in.X)
	get := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return x.term(st, x.val(fr, st, e), e.Type())
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = c.I(0)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.term(st, v, in.X.Type())
		l, cp := c.Get(s, 2), c.Get(s, 3)
		if hi == nil {
			hi = l
		}
		if mx != nil {
			panic(unsupported("3-index slice"))
		}
		// Go allows hi up to cap; going beyond len would expose cells the model does not zero.
		st.oblige("safety", "slice bounds in range", in.Pos(), c.And(c.Le(c.I(0), lo), c.Le(lo, hi), c.Le(hi, l)))
		off := c.Get(s, 1)
		if !(lo.Op == "int" && lo.Int.Sign() == 0) {
			off = x.ixOff(off, lo)
		}
		return Val{T: c.Mk(SSl, c.Get(s, 0), off, c.Sub(hi, lo), c.Sub(cp, lo)), Guard: v.Guard}
	case *types.Basic: // string
		s := x.term(st, v, in.X.Type())
		l := x.slen(st, s)
		if hi == nil {
			hi = l
		}
		st.oblige("safety", "slice bounds in range", in.Pos(), c.And(c.Le(c.I(0), lo), c.Le(lo, hi), c.Le(hi, l)))
		if c.strTheory {
			return Val{T: c.raw("str.substr", SStr, s, lo, c.Sub(hi, lo))}
		}
		r := c.App("ssub", SStr, s, lo, hi)
		st.fact(c.raw("=", SBool, c.App("slen", SInt, r), c.Sub(hi, lo)))
		return Val{T: r}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := c.I(at.Len())
		if hi == nil {
			hi = n
		}
		st.oblige("safety", "slice bounds in range", in.Pos(), c.And(c.Le(c.I(0), lo), c.Le(lo, hi), c.Le(hi, n)))
		if v.T == nil {
			v.T = x.term(st, v, in.X.Type())
		}
		return Val{T: c.Mk(SSl, v.T, lo, c.Sub(hi, lo), c.Sub(n, lo))}
	}
	panic(unsupported("slice of %s", in.X.Type()))
}

// ixOff keeps offsets structured so element terms match.
func (x *Exec) ixOff(off, lo *Term) *Term {
	return x.ix(off, lo)
}

func (x *Exec) implPred(st *State, a *Term, it types.Type) *Term {
	c := x.c
	i := it.Underlying().(*types.Interface)
	if i.NumMethods() == 0 {
		return c.Ne(a, x.nilAny())
	}
	if isAnyBox(a) {
		for _, t := range x.tagTypes {
			if a.Op == "box_"+sanitize(typeName(t)) {
				return c.B(types.Implements(t, i))
			}
		}
	}
	p := c.App("impl_"+sanitize(typeName(it)), SBool, x.tag(a))
	if a.bnd {
		return c.And(c.Ne(a, x.nilAny()), p)
	}
	st.fact(c.Imp(c.Eq(a, x.nilAny()), c.Not(p)))
	for _, t := range x.tagTypes {
		if types.IsInterface(t) {
			continue
		}
		st.fact(c.Eq(c.App("impl_"+sanitize(typeName(it)), SBool, x.tagOf(t)), c.B(types.Implements(t, i))))
	}
	return p
}

func (x *Exec) typeAssert(st *State, a *Term, t types.Type, commaOk bool, pos token.Pos) Val {
	c := x.c
	var ok *Term
	var v *Term
	if types.IsInterface(t) {
		ok = x.implPred(st, a, t)
		v = a
	} else {
		if isAnyBox(a) {
			ok = c.B(a.Op == "box_"+sanitize(typeName(t)))
		} else {
			st.fact(c.Eq(c.Eq(x.tag(a), c.I(0)), c.Eq(a, x.nilAny())))
			ok = c.Eq(x.tag(a), x.tagOf(t))
		}
		if ok == c.False {
			v = x.zero(t)
		} else {
			v = x.unbox(st, a, t)
		}
	}
	if commaOk {
		z := x.zero(t)
		return Val{Tup: []Val{{T: c.Ite(ok, v, z)}, {T: ok}}}
	}
	st.oblige("safety", "type assertion succeeds", pos, ok)
	return Val{T: v}
}

func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (*Term, *Term) {
	c := x.c
	d, v, _, ds, vs := x.mapHeaps(mt)
	has := c.And(c.Ne(m, c.I(0)), c.Select(c.Select(st.getHeap(d, ds), m), k))
	val := c.Select(c.Select(st.getHeap(v, vs), m), k)
	if dec, ok := st.decided(has); ok {
		if dec {
			x.typeFacts(st, val, mt.Elem())
			return val, c.True
		}
		return x.zero(mt.Elem()), c.False
	}
	if val.Sort == SSl {
		// componentwise, so that lengths and offsets stay simple terms
		x.typeFacts(st, val, mt.Elem())
	} else {
		x.typeFacts(st, val, mt.Elem())
	}
	return c.Ite(has, val, x.zero(mt.Elem())), has
}

func (x *Exec) mapSet(st *State, mt *types.Map, m, k, v *Term) {
	c := x.c
	d, vh, l, ds, vs := x.mapHeaps(mt)
	D := st.getHeap(d, ds)
	has := c.Select(c.Select(D, m), k)
	L := st.getHeap(l, arr(SInt, SInt))
	st.setHeap(l, c.Store(L, m, c.Ite(has, c.Select(L, m), c.Add(c.Select(L, m), c.I(1)))), m)
	st.setHeap(d, c.Store(D, m, c.Store(c.Select(D, m), k, c.True)), m)
	V := st.getHeap(vh, vs)
	st.setHeap(vh, c.Store(V, m, c.Store(c.Select(V, m), k, v)), m)
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	c := x.c
	d, _, l, ds, _ := x.mapHeaps(mt)
	D := st.getHeap(d, ds)
	has := c.Select(c.Select(D, m), k)
	L := st.getHeap(l, arr(SInt, SInt))
	// delete on a nil map is a no-op: the nil map's domain is empty
	st.setHeap(l, c.Store(L, m, c.Ite(has, c.Sub(c.Select(L, m), c.I(1)), c.Select(L, m))), m)
	st.setHeap(d, c.Store(D, m, c.Store(c.Select(D, m), k, c.False)), m)
}

func (x *Exec) execNext(fr *frame, st *State, in *ssa.Next) []outcome {
	c := x.c
	it := x.val(fr, st, in.Iter).Iter
	d, vh, _, ds, vs := x.mapHeaps(it.mt)
	ks := x.sortOf(it.mt.Key())
	done := st.clone()
	// done: every key present at the start and still present has been visited
	vis := st.getHeap(it.heapVis, arr(ks, SBool))
	D := c.Select(st.getHeap(d, ds), it.m)
	kb := c.BV("k", ks)
	done.fact(c.Forall([]*Term{kb}, [][]*Term{{c.raw("select", SBool, D, kb)}}, c.Imp(c.And(c.Select(it.dom0, kb), c.Select(D, kb)), c.Select(vis, kb))))
	done.trail += "d"
	zero := []Val{{T: c.False}, {T: x.zero(it.mt.Key())}, {T: x.zero(it.mt.Elem())}}
	k := c.Fresh("key", ks)
	x.typeFacts(st, k, it.mt.Key())
	st.fact(c.Select(D, k))
	st.fact(c.Ne(it.m, c.I(0)))
	st.fact(c.Not(c.Select(vis, k)))
	st.setHeap(it.heapVis, c.Store(vis, k, c.True), nil)
	v := c.Select(c.Select(st.getHeap(vh, vs), it.m), k)
	x.typeFacts(st, v, it.mt.Elem())
	st.trail += "n"
	g := x.val(fr, st, in.Iter).Guard
	if g != nil {
		x.checkGuardRef(st, g, false, in.Pos(), "map")
	}
	return []outcome{{st: st, res: []Val{{T: c.True}, {T: k}, {T: v, Guard: g}}}, {st: done, res: zero}}
}

func (x *Exec) inModuleFn(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		// synthetic wrappers
		return len(fn.Blocks) > 0 && !strings.Contains(fn.String(), "init")
	}
	return x.inModule(p.Pkg)
}
