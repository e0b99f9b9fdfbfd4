package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

var (
	two63  = new(big.Int).Lsh(big.NewInt(1), 63)
	two64  = new(big.Int).Lsh(big.NewInt(1), 64)
	max64  = new(big.Int).Sub(two64, big.NewInt(1))
	maxI64 = new(big.Int).Sub(two63, big.NewInt(1))
	minI64 = new(big.Int).Neg(two63)
	// lengths of Go slices, strings and maps never reach 2^62
	maxLen = new(big.Int).Lsh(big.NewInt(1), 62)
)

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return nil, nil, false
	}
	bits := func(n uint, signed bool) (*big.Int, *big.Int, bool) {
		if signed {
			h := new(big.Int).Lsh(big.NewInt(1), n-1)
			return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), true
		}
		h := new(big.Int).Lsh(big.NewInt(1), n)
		return big.NewInt(0), new(big.Int).Sub(h, big.NewInt(1)), true
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return bits(64, true)
	case types.Int32, types.UntypedRune:
		return bits(32, true)
	case types.Int16:
		return bits(16, true)
	case types.Int8:
		return bits(8, true)
	case types.Uint, types.Uint64, types.Uintptr:
		return bits(64, false)
	case types.Uint32:
		return bits(32, false)
	case types.Uint16:
		return bits(16, false)
	case types.Uint8:
		return bits(8, false)
	}
	return nil, nil, false
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	return p.Name()
}

// typeName is a short unique name of a Go type, used in heap names.
func typeName(t types.Type) string {
	n := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return basicAlias.ReplaceAllStringFunc(n, func(m string) string {
		switch m[len(m)-4:] {
		case "byte":
			return m[:len(m)-4] + "uint8"
		case "rune":
			return m[:len(m)-4] + "int32"
		}
		return strings.Replace(m, "interface{}", "any", 1)
	})
}

// identical types print alike: byte is uint8, rune is int32, interface{} is any
var basicAlias = regexp.MustCompile(`(^|[^.\w])(byte\b|rune\b|interface\{\})`)

// sortOf maps a Go type to an SMT sort.
func (x *Exec) sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil:
			return SInt
		case u.Kind() == types.UnsafePointer:
			return SInt
		}
		return x.c.USort("float")
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SAny
	case *types.Slice:
		return SSl
	case *types.Struct:
		return x.structSort(t, u)
	case *types.Array:
		return x.c.USort("arr_" + typeName(t))
	case *types.Tuple:
		return x.c.USort("tuple")
	}
	if _, ok := t.(*types.TypeParam); ok {
		return SAny
	}
	panic(unsupported("sort of type %s", t))
}

type unsupportedErr struct{ msg string }

func (e *unsupportedErr) Error() string { return e.msg }
func unsupported(f string, a ...any) *unsupportedErr {
	return &unsupportedErr{fmt.Sprintf(f, a...)}
}

func (x *Exec) structSort(t types.Type, u *types.Struct) Sort {
	name := typeName(t)
	s := Sort("D_" + sanitize(name))
	if x.c.dts[s] != nil {
		return s
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !x.inModule(n.Obj().Pkg()) && name != "time.Time" {
		return x.c.USort(name)
	}
	if name == "time.Time" {
		return x.c.USort(name)
	}
	dt := &datatype{sort: s, mk: "mk_" + sanitize(name)}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		dt.fields = append(dt.fields, sanitize(name)+"."+f.Name()+fmt.Sprintf(".%d", i))
		dt.fsorts = append(dt.fsorts, x.sortOf(f.Type()))
	}
	x.c.dts[s] = dt
	x.c.dtList = append(x.c.dtList, s)
	return s
}

// zero value of a Go type.
func (x *Exec) zero(t types.Type) *Term {
	t = types.Unalias(t)
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.False
		case u.Info()&types.IsInteger != 0:
			return c.I(0)
		case u.Info()&types.IsString != 0:
			return c.StrLit("")
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return c.I(0)
		}
		return c.Sym("zero_float", x.sortOf(t))
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return c.I(0)
	case *types.Interface:
		return x.nilAny()
	case *types.Slice:
		return c.Mk(SSl, c.I(0), c.I(0), c.I(0), c.I(0))
	case *types.Struct:
		s := x.sortOf(t)
		dt := c.dts[s]
		if dt == nil {
			return c.Sym("zero_"+sanitize(string(s)), s)
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, x.zero(u.Field(i).Type()))
		}
		return c.Mk(s, as...)
	}
	s := x.sortOf(t)
	return c.Sym("zero_"+sanitize(string(s)), s)
}

func (x *Exec) nilAny() *Term { return x.c.Sym("nil_any", SAny) }

func (x *Exec) inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modulePath || strings.HasPrefix(p.Path(), modulePath+"/"))
}

const modulePath = "github.com/inklabs/rangedb"

// tagOf gives the dynamic-type tag of a concrete Go type.
func (x *Exec) tagOf(t types.Type) *Term {
	n := typeName(t)
	if x.tags == nil {
		x.tags = map[string]int{}
	}
	if _, ok := x.tags[n]; !ok {
		x.tags[n] = len(x.tags) + 1
		x.tagTypes = append(x.tagTypes, t)
	}
	return x.c.I(int64(x.tags[n]))
}

func (x *Exec) tag(a *Term) *Term { return x.c.App("anytag", SInt, a) }

// box wraps a concrete value in an interface, adding the ground facts.
func (x *Exec) box(st *State, v *Term, t types.Type) *Term {
	c := x.c
	n := sanitize(typeName(t))
	b := c.App("box_"+n, SAny, v)
	st.fact(c.Eq(x.tag(b), x.tagOf(t)))
	st.fact(c.Eq(c.App("unbox_"+n, v.Sort, b), v))
	st.fact(c.Not(c.Eq(b, x.nilAny())))
	return b
}

// unbox assumes a has dynamic type t.
func (x *Exec) unbox(st *State, a *Term, t types.Type) *Term {
	c := x.c
	n := sanitize(typeName(t))
	if a.Op == "box_"+n {
		return a.Args[0]
	}
	s := x.sortOf(t)
	u := c.App("unbox_"+n, s, a)
	x.typeFacts(st, u, t)
	b := c.App("box_"+n, SAny, u)
	st.fact(c.Imp(c.Eq(x.tag(a), x.tagOf(t)), c.Eq(b, a)))
	return u
}

func isAnyBox(a *Term) bool { return strings.HasPrefix(a.Op, "box_") }

// typeFacts asserts facts valid for every value of a Go type and records bounds.
func (x *Exec) typeFacts(st *State, v *Term, t types.Type) {
	c := x.c
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok {
			if v.Op == "int" {
				return
			}
			if v.lo == nil || v.hi == nil || v.lo.Cmp(lo) < 0 || v.hi.Cmp(hi) > 0 {
				f1 := c.raw("<=", SBool, c.Big(lo), v)
				f2 := c.raw("<=", SBool, v, c.Big(hi))
				st.fact(c.And(f1, f2))
				if v.lo == nil || v.lo.Cmp(lo) < 0 {
					v.lo = lo
				}
				if v.hi == nil || v.hi.Cmp(hi) > 0 {
					v.hi = hi
				}
			} else {
				st.fact(c.And(c.raw("<=", SBool, c.Big(lo), v), c.raw("<=", SBool, v, c.Big(hi))))
			}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		x.refFacts(st, v)
	case *types.Slice:
		if v.Op == "mk_slice" {
			return
		}
		st.fact(x.sliceFacts(st, v))
	case *types.Interface:
		st.fact(c.Eq(c.Eq(x.tag(v), c.I(0)), c.Eq(v, x.nilAny())))
	case *types.Struct:
		dt := c.dts[v.Sort]
		if dt == nil {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			if v.Op == dt.mk {
				continue
			}
			x.typeFacts(st, c.Get(v, i), u.Field(i).Type())
		}
	}
}

func (x *Exec) refFacts(st *State, v *Term) {
	c := x.c
	if v.Op == "int" {
		return
	}
	if v.lo == nil {
		v.lo = big.NewInt(0)
	}
	if v.ub == nil && v.Op != "+" {
		v.ub = st.alloc
	}
	st.fact(c.And(c.raw("<=", SBool, c.I(0), v), c.raw("<", SBool, v, st.alloc)))
}

func (x *Exec) sliceFacts(st *State, v *Term) *Term {
	c := x.c
	a, o, l, cp := c.Get(v, 0), c.Get(v, 1), c.Get(v, 2), c.Get(v, 3)
	for _, t := range []*Term{o, l, cp} {
		if t.lo == nil {
			t.lo = big.NewInt(0)
			t.hi = maxLen
		}
	}
	if a.lo == nil {
		a.lo = big.NewInt(0)
	}
	if a.ub == nil && a.Op == "sl_arr" {
		a.ub = st.alloc
	}
	m := c.Big(maxLen)
	return c.And(c.raw("<=", SBool, c.I(0), a), c.raw("<", SBool, a, st.alloc),
		c.raw("<=", SBool, c.I(0), o), c.raw("<=", SBool, o, m), c.raw("<=", SBool, c.I(0), l), c.raw("<=", SBool, l, cp), c.raw("<=", SBool, cp, m),
		c.Imp(c.Eq(a, c.I(0)), c.And(c.Eq(cp, c.I(0)), c.Eq(l, c.I(0)))))
}
