package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) evalCall(fr *frame, st *State, cc *ssa.CallCommon) (Val, []Val) {
	var fv Val
	var args []Val
	if cc.IsInvoke() {
		fv = x.val(fr, st, cc.Value)
	} else {
		switch v := cc.Value.(type) {
		case *ssa.Builtin:
		case *ssa.Function:
			fv = Val{Fn: &FuncVal{Fn: v}}
		default:
			fv = x.val(fr, st, v)
		}
	}
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	return fv, args
}

// fnKey names a function: pkgname.RelString.
func fnKey(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	p := fn.Pkg
	if p == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return fn.Object().Pkg().Name() + "." + relString(fn, fn.Object().Pkg())
		}
		return fn.String()
	}
	return p.Pkg.Name() + "." + fn.RelString(p.Pkg)
}

func relString(fn *ssa.Function, p *types.Package) string { return fn.RelString(p) }

func (x *Exec) callCommon(fr *frame, st *State, cc *ssa.CallCommon, fv Val, args []Val, pos token.Pos, instr ssa.Value) []outcome {
	if st.dead {
		return nil
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return []outcome{{st: st, res: []Val{x.builtin(fr, st, b.Name(), cc, args, pos)}}}
	}
	if cc.IsInvoke() {
		return x.invoke(fr, st, cc, fv, args, pos)
	}
	if fv.Fn == nil && fv.T != nil {
		if f, ok := x.funcs[fv.T]; ok {
			fv.Fn = f
		}
	}
	if fv.Fn != nil {
		return x.callFn(fr, st, fv.Fn, args, pos, cc)
	}
	if d := x.cancelFns[fv.T]; d != nil {
		x.setCancelled(st, d, x.c.True)
		return []outcome{{st: st}}
	}
	// unknown function value: look for a contract by the static origin of the value
	st.oblige("safety", "no call of a nil function", pos, x.c.Ne(fv.T, x.c.I(0)))
	key := x.funcValueKey(cc.Value)
	if con := x.specs.Funcs[key]; con != nil {
		sig := cc.Signature()
		return x.applyContract(fr, st, con, key, append([]Val{fv}, args...), append([]types.Type{cc.Value.Type()}, sigParamTypes(sig, nil)...), sig, pos)
	}
	x.opaque["value:"+key] = true
	return x.opaqueCall(st, key, args, argTypes(cc), cc.Signature(), pos)
}

func sigParamTypes(sig *types.Signature, recv types.Type) []types.Type {
	var ts []types.Type
	if recv != nil {
		ts = append(ts, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func argTypes(cc *ssa.CallCommon) []types.Type {
	var ts []types.Type
	for _, a := range cc.Args {
		ts = append(ts, a.Type())
	}
	return ts
}

// funcValueKey names a function value by where it was loaded from.
func (x *Exec) funcValueKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return "field " + ownName(derefT(fa.X.Type()), fa.Field)
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok {
			return "var " + typeName(derefT(fv.Type()))
		}
	case *ssa.Field:
		return "field " + ownName(v.X.Type(), v.Field)
	}
	return "functype " + typeName(v.Type())
}

func (x *Exec) invoke(fr *frame, st *State, cc *ssa.CallCommon, recv Val, args []Val, pos token.Pos) []outcome {
	a := recv.T
	c := x.c
	st.oblige("safety", "no method call on a nil interface", pos, c.Ne(a, x.nilAny()))
	if a.Op == "ite" && (isAnyBox(a.Args[1]) || isAnyBox(a.Args[2])) {
		s2 := st.clone()
		st.fact(a.Args[0])
		s2.fact(c.Not(a.Args[0]))
		st.trail += "i"
		s2.trail += "e"
		var out []outcome
		out = append(out, x.invoke(fr, st, cc, Val{T: a.Args[1]}, args, pos)...)
		out = append(out, x.invoke(fr, s2, cc, Val{T: a.Args[2]}, args, pos)...)
		return out
	}
	if isAnyBox(a) {
		for _, t := range x.tagTypes {
			if a.Op == "box_"+sanitize(typeName(t)) {
				ms := x.prog.MethodSets.MethodSet(t)
				sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name())
				if sel == nil {
					break
				}
				fn := x.prog.MethodValue(sel)
				return x.callFn(fr, st, &FuncVal{Fn: fn}, append([]Val{x.rebox(a.Args[0])}, args...), pos, nil)
			}
		}
	}
	if cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == "context" {
		d := c.App("ctxdone", SInt, a)
		st.fact(c.raw("<", SBool, c.I(0), d))
		switch cc.Method.Name() {
		case "Done":
			return []outcome{{st: st, res: []Val{{T: d}}}}
		case "Err":
			now := c.Fresh("cancelled", SBool)
			st.fact(c.Imp(x.cancelled(st, d), now))
			x.setCancelled(st, d, now)
			err := c.App("ctxerr", SAny, a)
			st.fact(c.Ne(err, x.nilAny()))
			return []outcome{{st: st, res: []Val{{T: c.Ite(now, err, x.nilAny())}}}}
		}
	}
	it := cc.Value.Type()
	key := "iface " + typeName(it) + "." + cc.Method.Name()
	con := x.specs.Funcs[key]
	if con == nil {
		// look through embedded interfaces: the method's own receiver interface
		sig := cc.Method.Type().(*types.Signature)
		if sig.Recv() != nil {
			key2 := "iface " + typeName(sig.Recv().Type()) + "." + cc.Method.Name()
			if con = x.specs.Funcs[key2]; con != nil {
				key = key2
			}
		}
	}
	sig := cc.Signature()
	if con != nil {
		return x.applyContract(fr, st, con, key, append([]Val{recv}, args...), sigParamTypes(sig, it), sig, pos)
	}
	x.opaque[key] = true
	ts := append([]types.Type{it}, argTypes(cc)...)
	return x.opaqueCall(st, key, append([]Val{recv}, args...), ts, sig, pos)
}

func (x *Exec) rebox(t *Term) Val {
	v := Val{T: t}
	if f, ok := x.funcs[t]; ok {
		v.Fn = f
	}
	return v
}

func (x *Exec) callFn(fr *frame, st *State, f *FuncVal, args []Val, pos token.Pos, cc *ssa.CallCommon) []outcome {
	fn := f.Fn
	key := fnKey(fn)
	if r, ok := x.intrinsic(fr, st, key, fn, args, pos); ok {
		return r
	}
	con := x.specs.Funcs[key]
	if con != nil && !con.Inline && fn != x.rootFn() && !(len(f.Binds) > 0) {
		return x.applyContract(fr, st, con, key, args, fnParamTypes(fn), fn.Signature, pos)
	}
	if con != nil && !con.Inline && fn == x.rootFn() && x.depth > 0 {
		return x.applyContract(fr, st, con, key, args, fnParamTypes(fn), fn.Signature, pos)
	}
	if x.inModuleFn(fn) && len(fn.Blocks) > 0 && x.depth < 12 {
		for p := fr; p != nil; p = p.parent {
			if p.fn == fn {
				panic(unsupported("recursive call of %s without a contract", key))
			}
		}
		return x.inline(fr, st, f, args, pos)
	}
	x.opaque[key] = true
	var ts []types.Type
	ts = fnParamTypes(fn)
	return x.opaqueCall(st, key, args, ts, fn.Signature, pos)
}

func fnParamTypes(fn *ssa.Function) []types.Type {
	if len(fn.Params) > 0 {
		var ts []types.Type
		for _, p := range fn.Params {
			ts = append(ts, p.Type())
		}
		return ts
	}
	var r types.Type
	if fn.Signature.Recv() != nil {
		r = fn.Signature.Recv().Type()
	}
	return sigParamTypes(fn.Signature, r)
}

func (x *Exec) rootFn() *ssa.Function {
	if x.contract != nil {
		return x.contract.fn
	}
	return nil
}

func (x *Exec) inline(fr *frame, st *State, f *FuncVal, args []Val, pos token.Pos) []outcome {
	fn := f.Fn
	x.inlined[fnKey(fn)] = true
	nf := &frame{fn: fn, env: map[ssa.Value]Val{}, free: f.Binds, parent: fr, loops: map[*ssa.BasicBlock]*loopCtl{}, kcount: map[*ssa.BasicBlock]*Term{},
		path: fr.path + ">" + x.posStr(pos) + ":" + fn.Name()}
	if len(args) != len(fn.Params) {
		panic(unsupported("call of %s with %d args", fn, len(args)))
	}
	for i, p := range fn.Params {
		v := args[i]
		if v.T == nil && v.Loc == nil && v.Fn == nil {
			panic(unsupported("argument %s of %s", p.Name(), fn))
		}
		nf.env[p] = v
	}
	x.depth++
	outs := x.step(nf, st, fn.Blocks[0], 0)
	x.depth--
	return outs
}

// frame defers are run by RunDefers inside the callee.

func (x *Exec) freshResults(st *State, sig *types.Signature, hint string) []Val {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := x.freshVal(st, hint, t)
		rs = append(rs, v)
	}
	return rs
}

func (x *Exec) freshVal(st *State, hint string, t types.Type) Val {
	if p, ok := t.(*types.Tuple); ok {
		var vs []Val
		for i := 0; i < p.Len(); i++ {
			vs = append(vs, x.freshVal(st, hint, p.At(i).Type()))
		}
		return Val{Tup: vs}
	}
	v := x.c.Fresh(hint, x.sortOf(t))
	x.typeFacts(st, v, t)
	return Val{T: v}
}

func (x *Exec) bumpAlloc(st *State) {
	a := x.c.Fresh("alloc", SInt)
	st.fact(x.c.raw("<=", SBool, st.alloc, a))
	st.alloc = a
}

// opaqueCall: unknown effect limited to memory directly handed over by pointer or slice.
func (x *Exec) opaqueCall(st *State, key string, args []Val, ts []types.Type, sig *types.Signature, pos token.Pos) []outcome {
	pure := strings.HasPrefix(key, "fmt.") || strings.HasPrefix(key, "log.") || strings.HasPrefix(key, "strings.") || strings.HasPrefix(key, "strconv.") || strings.HasPrefix(key, "errors.") || strings.HasPrefix(key, "time.")
	if !pure {
		for i, a := range args {
			if i < len(ts) {
				x.havocArg(st, a, ts[i], 0)
			}
		}
	}
	x.bumpAlloc(st)
	hint := key[strings.LastIndexAny(key, ".)")+1:]
	return []outcome{{st: st, res: x.freshResults(st, sig, "r_"+hint)}}
}

func (x *Exec) havocArg(st *State, a Val, t types.Type, depth int) {
	c := x.c
	if depth > 1 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := a.T
		if s == nil {
			return
		}
		h, hs := x.elemHeap(u.Elem())
		_, vs, _ := arrParts(hs)
		ar := c.Get(s, 0)
		if u.Elem().Underlying() != nil {
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 || true {
				_ = b
				_ = ok
				st.setHeap(h, c.Store(st.getHeap(h, hs), ar, c.Fresh("hv."+h, vs)), ar)
			}
		}
	case *types.Pointer:
		if a.Loc != nil {
			if a.Loc.typ != nil && a.Loc.kind != "global" {
				if x.c.dts[x.sortOf(a.Loc.typ)] == nil && isStruct(a.Loc.typ) {
					return
				}
				x.store(st, a.Loc, x.freshVal(st, "hv", a.Loc.typ), token.NoPos)
			}
			return
		}
		et := u.Elem()
		if isStruct(et) {
			if c.dts[x.sortOf(et)] == nil {
				return
			}
			s := et.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if _, isArr := s.Field(i).Type().Underlying().(*types.Array); isArr {
					continue
				}
				h, hs, ft := x.fieldHeap(et, i)
				v := c.Fresh("hv."+h, x.sortOf(ft))
				x.typeFacts(st, v, ft)
				st.setHeap(h, c.Store(st.getHeap(h, hs), a.T, v), a.T)
			}
			return
		}
		if _, isArr := et.Underlying().(*types.Array); isArr {
			return
		}
		h, hs := x.cellHeap(et)
		v := c.Fresh("hv", x.sortOf(et))
		x.typeFacts(st, v, et)
		st.setHeap(h, c.Store(st.getHeap(h, hs), a.T, v), a.T)
	case *types.Interface:
		if a.T != nil && isAnyBox(a.T) {
			for _, tt := range x.tagTypes {
				if a.T.Op == "box_"+sanitize(typeName(tt)) {
					if _, ok := tt.Underlying().(*types.Pointer); ok {
						x.havocArg(st, Val{T: a.T.Args[0]}, tt, depth+1)
					}
				}
			}
		}
	}
}

func (x *Exec) builtin(fr *frame, st *State, name string, cc *ssa.CallCommon, args []Val, pos token.Pos) Val {
	c := x.c
	switch name {
	case "len", "cap":
		t := cc.Args[0].Type().Underlying()
		switch u := t.(type) {
		case *types.Slice:
			s := x.term(st, args[0], cc.Args[0].Type())
			if name == "len" {
				return Val{T: c.Get(s, 2)}
			}
			return Val{T: c.Get(s, 3)}
		case *types.Basic:
			return Val{T: x.slen(st, x.term(st, args[0], cc.Args[0].Type()))}
		case *types.Map:
			m := args[0].T
			_, _, l, _, _ := x.mapHeaps(u)
			if args[0].Guard != nil {
				x.checkGuardRef(st, args[0].Guard, false, pos, "map")
			}
			r := c.Ite(c.Eq(m, c.I(0)), c.I(0), c.Select(st.getHeap(l, arr(SInt, SInt)), m))
			st.fact(c.And(c.raw("<=", SBool, c.I(0), r), c.raw("<=", SBool, r, c.Big(maxLen))))
			if r.Op != "int" && r.lo == nil {
				r.lo, r.hi = c.I(0).Int, maxLen
			}
			return Val{T: r}
		case *types.Chan:
			r := c.Fresh("chanlen", SInt)
			st.fact(c.And(c.Le(c.I(0), r), c.Le(r, c.Big(maxLen))))
			return Val{T: r}
		case *types.Array:
			return Val{T: c.I(u.Len())}
		case *types.Pointer:
			return Val{T: c.I(u.Elem().Underlying().(*types.Array).Len())}
		}
	case "append":
		return x.appendB(st, cc, args, pos)
	case "copy":
		return x.copyB(st, cc, args, pos)
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		if args[0].Guard != nil {
			x.checkGuardRef(st, args[0].Guard, true, pos, "map")
		}
		x.mapDelete(st, mt, args[0].T, x.term(st, args[1], cc.Args[1].Type()))
		return Val{}
	case "close":
		ch := x.term(st, args[0], cc.Args[0].Type())
		h := st.getHeap("CC", arr(SInt, SBool))
		st.oblige("safety", "no close of a nil channel", pos, c.Ne(ch, c.I(0)))
		st.oblige("safety", "no close of a closed channel", pos, c.Not(c.Select(h, ch)))
		st.setHeap("CC", c.Store(h, ch, c.True), ch)
		return Val{}
	case "print", "println":
		return Val{}
	case "min", "max":
		a, b := args[0].T, args[1].T
		if a.Sort == SInt && len(args) == 2 {
			if name == "min" {
				return Val{T: c.Ite(c.Le(a, b), a, b)}
			}
			return Val{T: c.Ite(c.Le(a, b), b, a)}
		}
	case "ssa:wrapnilchk":
		return args[0]
	}
	panic(unsupported("builtin %s", name))
}

func (x *Exec) appendB(st *State, cc *ssa.CallCommon, args []Val, pos token.Pos) Val {
	c := x.c
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	s := x.term(st, args[0], cc.Args[0].Type())
	if args[0].Guard != nil {
		x.checkGuardRef(st, args[0].Guard, true, pos, "slice")
	}
	h, hs := x.elemHeap(et)
	E := st.getHeap(h, hs)
	sa, so, sl, sc := c.Get(s, 0), c.Get(s, 1), c.Get(s, 2), c.Get(s, 3)
	if len(args) == 1 {
		return args[0]
	}
	b := x.term(st, args[1], cc.Args[1].Type())
	var bl *Term
	var bcont, boff *Term
	if b.Sort == SStr {
		bl = x.slen(st, b)
		bcont = c.Fresh("strbytes", arr(SInt, SInt))
		boff = c.I(0)
		st.fact(c.Eq(x.bseq(bcont, boff, bl), b))
	} else {
		bl = c.Get(b, 2)
		bcont = c.Select(E, c.Get(b, 0))
		boff = c.Get(b, 1)
	}
	if bl.Op == "int" && bl.Int.Sign() == 0 {
		return args[0]
	}
	nl := c.Add(sl, bl)
	st.fact(c.raw("<=", SBool, nl, c.Big(maxLen)))
	fits := c.Le(nl, sc)
	var ra *Term
	fr := st.newRef()
	if fits == c.True {
		ra = sa
	} else if fits == c.False {
		ra = fr
	} else {
		ra = c.Ite(fits, sa, fr)
	}
	ncap := c.Fresh("cap", SInt)
	ncap.lo, ncap.hi = c.I(0).Int, maxLen
	st.fact(c.And(c.raw("<=", SBool, nl, ncap), c.raw("<=", SBool, ncap, c.Big(maxLen)), c.Imp(fits, c.Eq(ncap, sc))))
	nilRes := c.And(c.Eq(bl, c.I(0))) // appending nothing to nil stays nil
	A := c.Select(E, sa)
	var nA *Term
	if bl.Op == "int" && bl.Int.IsInt64() && bl.Int.Int64() <= 8 {
		nA = A
		for j := int64(0); j < bl.Int.Int64(); j++ {
			v := c.Select(bcont, x.ix(boff, c.I(j)))
			idx := x.ix(so, c.Add(sl, c.I(j)))
			prev := nA
			nA = c.Store(nA, idx, v)
			_ = prev
		}
	} else {
		es := x.sortOf(et)
		nA = c.Fresh("app", arr(SInt, es))
		j := c.BV("j", SInt)
		// prefix
		st.fact(c.Forall([]*Term{j}, [][]*Term{{c.raw("select", es, nA, x.ixRaw(so, j))}, {c.raw("select", es, A, x.ixRaw(so, j))}},
			c.Imp(c.And(c.Lt(j, sl)), c.Eq(c.raw("select", es, nA, x.ixRaw(so, j)), c.raw("select", es, A, x.ixRaw(so, j))))))
		// appended part, seen from the source and from the result
		bo, base := boff, c.I(0)
		if boff.Op == "ix" {
			bo, base = boff.Args[0], boff.Args[1]
		}
		k := c.BV("k", SInt)
		st.fact(c.Forall([]*Term{k}, [][]*Term{{c.raw("select", es, bcont, x.ixRaw(bo, k))}},
			c.Imp(c.And(c.Le(base, k), c.Lt(k, c.Add(base, bl))), c.Eq(c.raw("select", es, nA, x.ixRaw(so, c.Add(sl, c.Sub(k, base)))), c.raw("select", es, bcont, x.ixRaw(bo, k))))))
		k2 := c.BV("k", SInt)
		st.fact(c.Forall([]*Term{k2}, [][]*Term{{c.raw("select", es, nA, x.ixRaw(so, k2))}},
			c.Imp(c.And(c.Le(sl, k2), c.Lt(k2, nl)), c.Eq(c.raw("select", es, nA, x.ixRaw(so, k2)), c.raw("select", es, bcont, x.ixRaw(bo, c.Add(base, c.Sub(k2, sl))))))))
		// cells outside the window are untouched when in place
		k3 := c.BV("k", SInt)
		st.fact(c.Forall([]*Term{k3}, [][]*Term{{c.raw("select", es, nA, k3)}},
			c.Imp(c.Or(c.Lt(k3, c.Add(so, sl)), c.Le(c.Add(so, nl), k3)), c.Eq(c.raw("select", es, nA, k3), c.raw("select", es, A, k3)))))
		if b.Sort == SStr || es == SInt && typeName(et) == "uint8" || typeName(et) == "byte" {
			x.bytesAppendFacts(st, nA, so, nl, A, sl, bcont, boff, bl)
		}
	}
	st.setHeap(h, c.Store(E, ra, nA), ra)
	res := c.Mk(SSl, ra, so, nl, ncap)
	if bl.Op != "int" {
		res = c.Ite(nilRes, s, res)
		if nilRes != c.False {
			// keep components simple: a zero-length append returns s itself
			res = c.Mk(SSl, c.Ite(nilRes, sa, ra), so, nl, c.Ite(nilRes, sc, ncap))
		}
	}
	return Val{T: res, Guard: args[0].Guard}
}

func (x *Exec) ixRaw(o, i *Term) *Term { return x.ix(o, i) }

// bytesAppendFacts relates byte contents: content(a ++ b) = content(a) . content(b).
func (x *Exec) bytesAppendFacts(st *State, nA, so, nl, A, sl, B, bo, bl *Term) {
	c := x.c
	st.fact(c.Eq(x.bseq(nA, so, nl), x.strCat(st, x.bseq(A, so, sl), x.bseq(B, bo, bl))))
}

func (x *Exec) copyB(st *State, cc *ssa.CallCommon, args []Val, pos token.Pos) Val {
	c := x.c
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	d := x.term(st, args[0], cc.Args[0].Type())
	b := x.term(st, args[1], cc.Args[1].Type())
	h, hs := x.elemHeap(et)
	es := x.sortOf(et)
	E := st.getHeap(h, hs)
	var bl, bcont, boff *Term
	if b.Sort == SStr {
		bl = x.slen(st, b)
		bcont = c.Fresh("strbytes", arr(SInt, SInt))
		boff = c.I(0)
		st.fact(c.Eq(x.bseq(bcont, boff, bl), b))
	} else {
		bl, bcont, boff = c.Get(b, 2), c.Select(E, c.Get(b, 0)), c.Get(b, 1)
	}
	n := c.Ite(c.Le(bl, c.Get(d, 2)), bl, c.Get(d, 2))
	da, do := c.Get(d, 0), c.Get(d, 1)
	A := c.Select(E, da)
	nA := c.Fresh("cpy", arr(SInt, es))
	k := c.BV("k", SInt)
	st.fact(c.Forall([]*Term{k}, [][]*Term{{c.raw("select", es, nA, x.ix(do, k))}, {c.raw("select", es, bcont, x.ix(boff, k))}},
		c.Imp(c.And(c.Le(c.I(0), k), c.Lt(k, n)), c.Eq(c.raw("select", es, nA, x.ix(do, k)), c.raw("select", es, bcont, x.ix(boff, k))))))
	k2 := c.BV("k", SInt)
	st.fact(c.Forall([]*Term{k2}, [][]*Term{{c.raw("select", es, nA, k2)}},
		c.Imp(c.Or(c.Lt(k2, do), c.Le(c.Add(do, n), k2)), c.Eq(c.raw("select", es, nA, k2), c.raw("select", es, A, k2)))))
	if typeName(et) == "uint8" || typeName(et) == "byte" {
		st.fact(c.Imp(c.Eq(n, bl), c.Eq(x.bseq(nA, do, n), x.bseq(bcont, boff, bl))))
	}
	st.setHeap(h, c.Store(E, da, nA), da)
	return Val{T: n}
}

// ---- channels ----

func (x *Exec) chanSeq(t types.Type) (string, Sort) {
	s := x.sortOf(t)
	return "CS." + sanitize(string(s)), arr(SInt, arr(SInt, s))
}

func (x *Exec) send(st *State, ch, v *Term, pos token.Pos) {
	c := x.c
	hn := "CS." + sanitize(string(v.Sort))
	hs := arr(SInt, arr(SInt, v.Sort))
	st.oblige("safety", "no send on a closed channel", pos, c.Not(c.Select(st.getHeap("CC", arr(SInt, SBool)), ch)))
	N := st.getHeap("CN", arr(SInt, SInt))
	S := st.getHeap(hn, hs)
	n := c.Select(N, ch)
	st.setHeap(hn, c.Store(S, ch, c.Store(c.Select(S, ch), n, v)), ch)
	st.setHeap("CN", c.Store(N, ch, c.Add(n, c.I(1))), ch)
}

// recv takes the next value of the channel's (prophesied) sequence, or the zero value once it is closed and drained.
func (x *Exec) recv(st *State, ch *Term, et types.Type) (*Term, *Term) {
	c := x.c
	hn, hs := x.chanSeq(et)
	R := st.getHeap("CR", arr(SInt, SInt))
	N := st.getHeap("CN", arr(SInt, SInt))
	S := st.getHeap(hn, hs)
	r := c.Select(R, ch)
	ok := c.Lt(r, c.Select(N, ch))
	v := c.Select(c.Select(S, ch), r)
	x.typeFacts(st, v, et)
	st.fact(c.Le(c.I(0), r))
	st.fact(c.Imp(c.App("f.neverclosed", SBool, ch), ok))
	if x.neverClosed(et) {
		st.fact(ok)
	}
	st.setHeap("CR", c.Store(R, ch, c.Ite(ok, c.Add(r, c.I(1)), r)), ch)
	if _, isStruct := et.Underlying().(*types.Struct); isStruct {
		st.setHeap("CSC", c.Store(st.getHeap("CSC", arr(SInt, SBool)), ch, c.True), ch)
	}
	return c.Ite(ok, v, x.zero(et)), ok
}

// closedElems collects the element types of the channels closed in the module.
func closedElems(fns map[*ssa.Function]bool) map[string]bool {
	m := map[string]bool{}
	for f := range fns {
		if f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), modulePath) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						m[ci.Common().Args[0].Type().Underlying().(*types.Chan).Elem().String()] = true
					}
				}
			}
		}
	}
	return m
}

// neverClosed says that nothing in the module closes a channel of this element type.
func (x *Exec) neverClosed(et types.Type) bool {
	if x.specs.closedElems[et.String()] {
		return false
	}
	x.note("channels of " + et.String() + " are closed by nothing outside the module (nothing in it does)")
	return true
}

func isDoneChan(ch *Term) bool { return ch.Op == "ctxdone" }

func (x *Exec) cancelled(st *State, d *Term) *Term {
	return x.c.Select(st.getHeap("CTXC", arr(SInt, SBool)), d)
}

func (x *Exec) setCancelled(st *State, d *Term, v *Term) {
	h := st.getHeap("CTXC", arr(SInt, SBool))
	st.setHeap("CTXC", x.c.Store(h, d, v), d)
}

func (x *Exec) execSelect(fr *frame, st *State, in *ssa.Select) []outcome {
	c := x.c
	var out []outcome
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(s *State, i int, ok *Term, ri int, v *Term) outcome {
		res := []Val{{T: c.I(int64(i))}, {T: ok}}
		j := 0
		for _, ss := range in.States {
			if ss.Dir == types.RecvOnly {
				if j == ri {
					res = append(res, Val{T: v})
				} else {
					res = append(res, Val{T: x.zero(ss.Chan.Type().Underlying().(*types.Chan).Elem())})
				}
				j++
			}
		}
		return outcome{st: s, res: res}
	}
	ri := 0
	for i, ss := range in.States {
		s2 := st.clone()
		s2.trail += fmt.Sprintf("s%d", i)
		ch := x.term(s2, x.val(fr, s2, ss.Chan), ss.Chan.Type())
		et := ss.Chan.Type().Underlying().(*types.Chan).Elem()
		if ss.Dir == types.SendOnly {
			s2.fact(c.Ne(ch, c.I(0)))
			x.send(s2, ch, x.term(s2, x.val(fr, s2, ss.Send), ss.Send.Type()), ss.Pos)
			out = append(out, mk(s2, i, c.False, -1, nil))
			continue
		}
		if isDoneChan(ch) {
			x.setCancelled(s2, ch, c.True)
			out = append(out, mk(s2, i, c.False, ri, x.zero(et)))
		} else if ch.Op == "timerchan" {
			v := x.freshVal(s2, "tick", et)
			out = append(out, mk(s2, i, c.True, ri, v.T))
		} else {
			s2.fact(c.Ne(ch, c.I(0)))
			v, ok := x.recv(s2, ch, et)
			out = append(out, mk(s2, i, ok, ri, v))
		}
		ri++
	}
	if !in.Blocking {
		s2 := st.clone()
		s2.trail += "sd"
		for _, ss := range in.States {
			ch := x.term(s2, x.val(fr, s2, ss.Chan), ss.Chan.Type())
			if ss.Dir == types.RecvOnly && isDoneChan(ch) {
				s2.fact(c.Not(x.cancelled(s2, ch)))
			}
		}
		out = append(out, mk(s2, -1, c.False, -1, nil))
	}
	var live []outcome
	for _, o := range out {
		if !o.st.dead {
			live = append(live, o)
		}
	}
	return live
}

// ---- goroutines ----

func (x *Exec) execGo(fr *frame, st *State, in *ssa.Go) {
	fv, args := x.evalCall(fr, st, &in.Call)
	f := fv.Fn
	if f == nil && !in.Call.IsInvoke() {
		panic(unsupported("go statement on an unknown function"))
	}
	if in.Call.IsInvoke() {
		panic(unsupported("go statement on an interface method"))
	}
	key := fnKey(f.Fn)
	if con := x.specs.Funcs[key]; con != nil && !con.Inline {
		// the goroutine has its own contract: only its precondition is owed here
		x.used[key] = true
		x.spawning = true
		x.checkRequires(fr, st, con, key, args, fnParamTypes(f.Fn), in.Pos())
		x.spawning = false
		return
	}
	st.spawned = append(st.spawned, &spawn{st: st.clone(), fv: f, args: args, pos: in.Pos()})
}

// ---- intrinsics ----

func (x *Exec) intrinsic(fr *frame, st *State, key string, fn *ssa.Function, args []Val, pos token.Pos) ([]outcome, bool) {
	one := func(v ...Val) ([]outcome, bool) { return []outcome{{st: st, res: v}}, true }
	switch key {
	case "sync.(*RWMutex).Lock", "sync.(*Mutex).Lock":
		x.lock(st, args[0], true, pos)
		return one()
	case "sync.(*RWMutex).RLock":
		x.lock(st, args[0], false, pos)
		return one()
	case "sync.(*RWMutex).Unlock", "sync.(*Mutex).Unlock":
		x.unlock(st, args[0], true, pos)
		return one()
	case "sync.(*RWMutex).RUnlock":
		x.unlock(st, args[0], false, pos)
		return one()
	case "sync.(*WaitGroup).Add", "sync.(*WaitGroup).Done", "sync.(*WaitGroup).Wait":
		return one()
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline":
		cx := x.c.Fresh("ctx", SAny)
		st.fact(x.c.Ne(cx, x.nilAny()))
		f := st.newRef()
		x.cancelFns[f] = x.c.App("ctxdone", SInt, cx)
		st.fact(x.c.Eq(x.c.App("f.cancels", SAny, f), cx))
		if len(args) > 0 && args[0].T != nil {
			st.fact(x.c.Eq(x.c.App("f.ctxparent", SAny, cx), args[0].T))
		}
		return one(Val{T: cx}, Val{T: f})
	case "time.After":
		t := x.c.App("timerchan", SInt, x.c.Fresh("timer", SInt))
		st.fact(x.c.raw("<", SBool, x.c.I(0), t))
		return one(Val{T: t})
	}
	return nil, false
}

func (x *Exec) lockLoc(p Val) (string, *Term) {
	if p.Loc != nil && p.Loc.kind == "field" && len(p.Loc.path) == 0 {
		return p.Loc.own, p.Loc.base
	}
	if p.T != nil {
		return "mutex", p.T
	}
	if p.Loc != nil {
		return p.Loc.heap, p.Loc.base
	}
	panic(unsupported("lock operand"))
}

func (x *Exec) lock(st *State, p Val, write bool, pos token.Pos) {
	key, base := x.lockLoc(p)
	for _, l := range st.locks {
		if l.key == key {
			st.oblige("lock", "lock "+key+" is not already held by this goroutine (no self-deadlock)", pos, x.c.Ne(l.base, base))
		}
	}
	if mon := x.specs.Monitors[key]; mon != nil {
		if _, again := st.pre["unlock:"+key]; again {
			x.havocMonitor(st, mon, base)
		}
		x.monitorFacts(st, mon, base)
	}
	st.locks = append(st.locks, heldLock{key, base, write})
	st.pre["lock:"+key] = st.clone()
}

func (x *Exec) unlock(st *State, p Val, write bool, pos token.Pos) {
	key, base := x.lockLoc(p)
	for i := len(st.locks) - 1; i >= 0; i-- {
		l := st.locks[i]
		if l.key == key && l.base == base {
			if l.write != write {
				st.oblige("lock", "unlock mode matches lock mode of "+key, pos, x.c.False)
			}
			if mon := x.specs.Monitors[key]; mon != nil && write {
				x.monitorObligations(st, mon, base, pos, "at unlock")
			}
			st.locks = append(append([]heldLock(nil), st.locks[:i]...), st.locks[i+1:]...)
			st.pre["unlock:"+key] = st.clone()
			return
		}
	}
	st.oblige("lock", "unlock of "+key+" only while held", pos, x.c.False)
}

// havocMonitor forgets everything the monitor guards.
func (x *Exec) havocMonitor(st *State, mon *Monitor, base *Term) {
	u := derefT(mon.ptrType).Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if !mon.Guards[u.Field(i).Name()] {
			continue
		}
		h, hs, ft := x.fieldHeap(derefT(mon.ptrType), i)
		v := x.c.Fresh("mon."+u.Field(i).Name(), x.sortOf(ft))
		x.typeFacts(st, v, ft)
		st.setHeap(h, x.c.Store(st.getHeap(h, hs), base, v), base)
		x.havocReach(st, ft)
	}
}

func (x *Exec) havocReach(st *State, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Map:
		d, v, l, ds, vs := x.mapHeaps(u)
		st.setHeap(d, x.c.Fresh("H."+d, ds), nil)
		st.setHeap(v, x.c.Fresh("H."+v, vs), nil)
		st.setHeap(l, x.c.Fresh("H."+l, arr(SInt, SInt)), nil)
		x.havocReach(st, u.Elem())
	case *types.Slice:
		h, hs := x.elemHeap(u.Elem())
		st.setHeap(h, x.c.Fresh("H."+h, hs), nil)
	}
}

// ---- lock discipline ----

func (x *Exec) guardFor(st *State, l *Loc) *guardRef {
	if l.guard != nil {
		return l.guard
	}
	if l.kind != "field" {
		return nil
	}
	i := strings.LastIndex(l.own, ".")
	if i < 0 {
		return nil
	}
	for _, mon := range x.specs.MonByType[l.own[:i]] {
		if mon.Guards[l.own[i+1:]] {
			return &guardRef{mon, l.base}
		}
	}
	return nil
}

func (x *Exec) checkGuard(st *State, l *Loc, write bool, pos token.Pos) {
	g := x.guardFor(st, l)
	if g == nil {
		return
	}
	x.checkGuardRef(st, g, write, pos, "field "+l.own)
}

func (x *Exec) checkGuardRef(st *State, g *guardRef, write bool, pos token.Pos, what string) {
	c := x.c
	var holds []*Term
	for _, l := range st.locks {
		if l.key == g.mon.Key && (l.write || !write) {
			holds = append(holds, c.Eq(l.base, g.base))
		}
	}
	// objects created by this call are not shared yet
	holds = append(holds, c.Le(x.entry.alloc, g.base))
	mode := "read"
	if write {
		mode = "write"
	}
	st.oblige("lock", fmt.Sprintf("%s of %s guarded by %s happens under the lock", mode, what, g.mon.Key), pos, c.Or(holds...))
}
