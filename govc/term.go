package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT-LIB sort.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SAny  Sort = "Any"
	SSl   Sort = "Slice"
)

func arr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrParts splits an array sort.
func arrParts(s Sort) (Sort, Sort, bool) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		return "", "", false
	}
	str = str[7 : len(str)-1]
	depth := 0
	for i := 0; i < len(str); i++ {
		switch str[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(str[:i]), Sort(str[i+1:]), true
			}
		}
	}
	panic("bad array sort " + string(s))
}

// Term is a hash-consed SMT term.
type Term struct {
	Op   string // "sym", "int", "bool", "forall", "exists", "bv" (bound variable) or a function name
	Name string // symbol name
	Args []*Term
	Sort Sort
	Int  *big.Int
	Vars []*Term
	Pats [][]*Term
	id   int
	bnd  bool  // contains a bound variable free
	ub   *Term // for references: known to be < ub
	lo   *big.Int
	hi   *big.Int // known numeric bounds
}

type decl struct {
	args []Sort
	ret  Sort
}

// Ctx owns terms, declarations and datatypes of one verification unit.
type Ctx struct {
	terms       map[string]*Term
	n           int
	decls       map[string]decl
	declList    []string
	dts         map[Sort]*datatype
	dtList      []Sort
	usorts      map[Sort]bool
	usList      []Sort
	strlits     map[string]*Term
	strList     []string
	fresh       map[string]int
	True        *Term
	False       *Term
	strTheory   bool
	strDistinct []*Term
}

type datatype struct {
	sort   Sort
	mk     string
	fields []string
	fsorts []Sort
}

func NewCtx() *Ctx {
	c := &Ctx{terms: map[string]*Term{}, decls: map[string]decl{}, dts: map[Sort]*datatype{}, usorts: map[Sort]bool{}, strlits: map[string]*Term{}, fresh: map[string]int{}}
	c.True = c.intern(&Term{Op: "bool", Name: "true", Sort: SBool})
	c.False = c.intern(&Term{Op: "bool", Name: "false", Sort: SBool})
	c.dts[SSl] = &datatype{SSl, "mk_slice", []string{"sl_arr", "sl_off", "sl_len", "sl_cap"}, []Sort{SInt, SInt, SInt, SInt}}
	c.dtList = append(c.dtList, SSl)
	return c
}

func (c *Ctx) key(t *Term) string {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	b.WriteString(string(t.Sort))
	if t.Int != nil {
		b.WriteString(t.Int.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, v := range t.Vars {
		fmt.Fprintf(&b, ";%d", v.id)
	}
	for _, p := range t.Pats {
		b.WriteByte('/')
		for _, a := range p {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	return b.String()
}

func (c *Ctx) intern(t *Term) *Term {
	k := c.key(t)
	if x, ok := c.terms[k]; ok {
		return x
	}
	c.n++
	t.id = c.n
	if t.Op == "bv" {
		t.bnd = true
	}
	for _, a := range t.Args {
		if a.bnd {
			t.bnd = true
		}
	}
	if t.Op == "forall" || t.Op == "exists" {
		t.bnd = hasFreeBound(t)
	}
	c.terms[k] = t
	return t
}

func hasFreeBound(q *Term) bool {
	in := map[int]bool{}
	seen := map[int]bool{}
	var walk func(t *Term, bound map[int]bool) bool
	walk = func(t *Term, bound map[int]bool) bool {
		if !t.bnd && t != q {
			return false
		}
		if t.Op == "bv" {
			return !bound[t.id]
		}
		if t.Op == "forall" || t.Op == "exists" {
			b2 := map[int]bool{}
			for k := range bound {
				b2[k] = true
			}
			for _, v := range t.Vars {
				b2[v.id] = true
			}
			for _, a := range t.Args {
				if walk(a, b2) {
					return true
				}
			}
			return false
		}
		_ = seen
		for _, a := range t.Args {
			if walk(a, bound) {
				return true
			}
		}
		return false
	}
	return walk(q, in)
}

func (c *Ctx) Sym(name string, s Sort) *Term {
	if _, ok := c.decls[name]; !ok {
		c.decls[name] = decl{nil, s}
		c.declList = append(c.declList, name)
	}
	return c.intern(&Term{Op: "sym", Name: name, Sort: s})
}

func (c *Ctx) Fresh(base string, s Sort) *Term {
	base = sanitize(base)
	c.fresh[base]++
	return c.Sym(fmt.Sprintf("%s!%d", base, c.fresh[base]), s)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (c *Ctx) BV(name string, s Sort) *Term {
	c.fresh["bv"]++
	return c.intern(&Term{Op: "bv", Name: fmt.Sprintf("%s?%d", sanitize(name), c.fresh["bv"]), Sort: s})
}

func (c *Ctx) I(n int64) *Term { return c.Big(big.NewInt(n)) }
func (c *Ctx) Big(n *big.Int) *Term {
	return c.intern(&Term{Op: "int", Sort: SInt, Int: new(big.Int).Set(n), lo: n, hi: n})
}
func (c *Ctx) B(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) DeclFun(name string, args []Sort, ret Sort) {
	if _, ok := c.decls[name]; !ok {
		c.decls[name] = decl{args, ret}
		c.declList = append(c.declList, name)
	}
}

// App applies an uninterpreted function.
func (c *Ctx) App(name string, ret Sort, args ...*Term) *Term {
	var as []Sort
	for _, a := range args {
		as = append(as, a.Sort)
	}
	if len(args) == 0 {
		return c.Sym(name, ret)
	}
	if d, ok := c.decls[name]; ok {
		for i := range as {
			if i >= len(d.args) || d.args[i] != as[i] {
				panic(fmt.Sprintf("function %s applied to %v, declared %v", name, as, d.args))
			}
		}
	}
	c.DeclFun(name, as, ret)
	return c.intern(&Term{Op: name, Args: args, Sort: ret})
}

// raw builds a term with a builtin operator.
func (c *Ctx) raw(op string, s Sort, args ...*Term) *Term {
	return c.intern(&Term{Op: op, Args: args, Sort: s})
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.Op == "not":
		return a.Args[0]
	case a.Op == "<=":
		return c.raw("<", SBool, a.Args[1], a.Args[0])
	case a.Op == "<":
		return c.raw("<=", SBool, a.Args[1], a.Args[0])
	}
	return c.raw("not", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == c.True {
			return true
		}
		if a == c.False {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	for _, a := range out {
		if n := c.Not(a); seen[n.id] {
			return c.False
		}
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	return c.raw("and", SBool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == c.False {
			return true
		}
		if a == c.True {
			return false
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.True
		}
	}
	for _, a := range out {
		if n := c.Not(a); seen[n.id] {
			return c.True
		}
	}
	switch len(out) {
	case 0:
		return c.False
	case 1:
		return out[0]
	}
	return c.raw("or", SBool, out...)
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True || a == b {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	if b.Op == "=>" {
		return c.Imp(c.And(a, b.Args[0]), b.Args[1])
	}
	return c.raw("=>", SBool, a, b)
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k == c.True || a == b {
		return a
	}
	if k == c.False {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.Sort, b.Sort))
	}
	if a.Sort == SBool {
		if a == c.True && b == c.False {
			return k
		}
		if a == c.False && b == c.True {
			return c.Not(k)
		}
		if a == c.True {
			return c.Or(k, b)
		}
		if b == c.False {
			return c.And(k, a)
		}
		if a == c.False {
			return c.And(c.Not(k), b)
		}
		if b == c.True {
			return c.Or(c.Not(k), a)
		}
	}
	if k.Op == "not" {
		return c.Ite(k.Args[0], b, a)
	}
	t := c.raw("ite", a.Sort, k, a, b)
	if a.Sort == SInt && t.lo == nil && a.lo != nil && b.lo != nil {
		if a.lo.Cmp(b.lo) < 0 {
			t.lo = a.lo
		} else {
			t.lo = b.lo
		}
	}
	if a.Sort == SInt && t.hi == nil && a.hi != nil && b.hi != nil {
		if a.hi.Cmp(b.hi) > 0 {
			t.hi = a.hi
		} else {
			t.hi = b.hi
		}
	}
	return t
}

// linear form
type linForm struct {
	k  *big.Int
	ms map[int]*big.Int
	ts map[int]*Term
}

func (c *Ctx) lin(t *Term) *linForm {
	l := &linForm{new(big.Int), map[int]*big.Int{}, map[int]*Term{}}
	c.linAdd(l, t, big.NewInt(1))
	return l
}

func (c *Ctx) linAdd(l *linForm, t *Term, f *big.Int) {
	switch {
	case t.Op == "int":
		l.k.Add(l.k, new(big.Int).Mul(f, t.Int))
	case t.Op == "+":
		for _, a := range t.Args {
			c.linAdd(l, a, f)
		}
	case t.Op == "*" && t.Args[0].Op == "int":
		c.linAdd(l, t.Args[1], new(big.Int).Mul(f, t.Args[0].Int))
	default:
		if l.ms[t.id] == nil {
			l.ms[t.id] = new(big.Int)
		}
		l.ms[t.id].Add(l.ms[t.id], f)
		l.ts[t.id] = t
		if l.ms[t.id].Sign() == 0 {
			delete(l.ms, t.id)
			delete(l.ts, t.id)
		}
	}
}

func (c *Ctx) unlin(l *linForm) *Term {
	ids := make([]int, 0, len(l.ms))
	for id := range l.ms {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var as []*Term
	var lo, hi *big.Int
	lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for _, id := range ids {
		m, t := l.ms[id], l.ts[id]
		tl, th := t.lo, t.hi
		if m.Sign() < 0 {
			tl, th = th, tl
		}
		if lo != nil && tl != nil {
			lo = new(big.Int).Add(lo, new(big.Int).Mul(m, tl))
		} else {
			lo = nil
		}
		if hi != nil && th != nil {
			hi = new(big.Int).Add(hi, new(big.Int).Mul(m, th))
		} else {
			hi = nil
		}
		if m.Cmp(big.NewInt(1)) == 0 {
			as = append(as, t)
		} else {
			as = append(as, c.raw("*", SInt, c.Big(m), t))
		}
	}
	if len(as) == 0 {
		return c.Big(l.k)
	}
	if l.k.Sign() != 0 {
		as = append(as, c.Big(l.k))
	}
	if len(as) == 1 {
		return as[0]
	}
	r := c.raw("+", SInt, as...)
	if r.lo == nil {
		r.lo = lo
	}
	if r.hi == nil {
		r.hi = hi
	}
	return r
}

func (c *Ctx) Add(as ...*Term) *Term {
	l := &linForm{new(big.Int), map[int]*big.Int{}, map[int]*Term{}}
	for _, a := range as {
		c.linAdd(l, a, big.NewInt(1))
	}
	return c.unlin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.lin(a)
	c.linAdd(l, b, big.NewInt(-1))
	return c.unlin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		l := &linForm{new(big.Int), map[int]*big.Int{}, map[int]*Term{}}
		c.linAdd(l, b, a.Int)
		return c.unlin(l)
	}
	return c.raw("*", SInt, a, b)
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.Op == "int" {
		return c.B(d.Int.Sign() >= 0)
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return c.True
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return c.False
	}
	if a.ub != nil && c.leSyntactic(a.ub, b) {
		return c.True
	}
	return c.raw("<=", SBool, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.Op == "int" {
		return c.B(d.Int.Sign() > 0)
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return c.True
	}
	if d.hi != nil && d.hi.Sign() <= 0 {
		return c.False
	}
	if a.ub != nil && c.leSyntactic(a.ub, b) {
		return c.True
	}
	return c.raw("<", SBool, a, b)
}

func (c *Ctx) leSyntactic(a, b *Term) bool {
	for i := 0; i < 8 && a != nil; i++ {
		d := c.Sub(b, a)
		if d.Op == "int" {
			return d.Int.Sign() >= 0
		}
		if d.lo != nil && d.lo.Sign() >= 0 {
			return true
		}
		a = nil
	}
	return false
}

func isLit(t *Term) bool { return t.Op == "strlit" || t.Op == "int" || t.Op == "bool" }

// Eq builds a simplified equality.
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s / %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	switch a.Sort {
	case SBool:
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	case SInt:
		d := c.Sub(a, b)
		if d.Op == "int" {
			return c.B(d.Int.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return c.False
		}
		if a.ub != nil && c.leSyntactic(a.ub, b) || b.ub != nil && c.leSyntactic(b.ub, a) {
			return c.False
		}
	case SStr:
		if a.Op == "strlit" && b.Op == "strlit" {
			return c.False
		}
	case SAny:
		ab, bb := strings.HasPrefix(a.Op, "box_"), strings.HasPrefix(b.Op, "box_")
		if ab && bb {
			if a.Op == b.Op {
				return c.Eq(a.Args[0], b.Args[0])
			}
			return c.False
		}
		if ab && b.Op == "sym" && b.Name == "nil_any" || bb && a.Op == "sym" && a.Name == "nil_any" {
			return c.False
		}
	default:
		if dt := c.dts[a.Sort]; dt != nil {
			if a.Op == dt.mk && b.Op == dt.mk {
				var es []*Term
				for i := range a.Args {
					es = append(es, c.Eq(a.Args[i], b.Args[i]))
				}
				return c.And(es...)
			}
		}
	}
	if a.Op == "ite" && isLit(b) && (isLit(a.Args[1]) || isLit(a.Args[2])) {
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
	}
	if b.Op == "ite" && isLit(a) && (isLit(b.Args[1]) || isLit(b.Args[2])) {
		return c.Ite(b.Args[0], c.Eq(b.Args[1], a), c.Eq(b.Args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw("=", SBool, a, b)
}
func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Select(a, i *Term) *Term {
	k, v, ok := arrParts(a.Sort)
	if !ok {
		panic("select on " + string(a.Sort) + " " + a.String())
	}
	if k != i.Sort {
		panic(fmt.Sprintf("select index sort %s, want %s: %s [%s]", i.Sort, k, a, i))
	}
	for {
		if a.Op == "store" {
			e := c.Eq(a.Args[1], i)
			if e == c.True {
				return a.Args[2]
			}
			if e == c.False {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	if a.Op == "ite" && !i.bnd {
		x, y := a.Args[1], a.Args[2]
		if x.Op == "store" || y.Op == "store" || x.Op == "constarr" || y.Op == "constarr" {
			return c.Ite(a.Args[0], c.Select(x, i), c.Select(y, i))
		}
	}
	return c.raw("select", v, a, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	k, vs, ok := arrParts(a.Sort)
	if !ok || k != i.Sort || vs != v.Sort {
		panic(fmt.Sprintf("store: array %s index %s value %s", a.Sort, i.Sort, v.Sort))
	}
	if a.Op == "store" && c.Eq(a.Args[1], i) == c.True {
		return c.Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.raw("store", a.Sort, a, i, v)
}

func (c *Ctx) ConstArr(s Sort, v *Term) *Term { return c.raw("constarr", s, v) }

// Mk builds a datatype value; Get projects a field.
func (c *Ctx) Mk(s Sort, args ...*Term) *Term {
	dt := c.dts[s]
	for i, a := range args {
		if a.Sort != dt.fsorts[i] {
			panic(fmt.Sprintf("mk %s field %s sort %s want %s", s, dt.fields[i], a.Sort, dt.fsorts[i]))
		}
	}
	if len(args) > 0 {
		// mk(f0(x), f1(x), ...) = x
		all := true
		var base *Term
		for i, a := range args {
			if a.Op != dt.fields[i] || len(a.Args) != 1 || (base != nil && a.Args[0] != base) {
				all = false
				break
			}
			base = a.Args[0]
		}
		if all {
			return base
		}
	}
	if len(args) == 0 {
		return c.intern(&Term{Op: "sym", Name: dt.mk, Sort: s})
	}
	return c.raw(dt.mk, s, args...)
}
func (c *Ctx) Get(x *Term, i int) *Term {
	dt := c.dts[x.Sort]
	if dt == nil {
		panic("get on non datatype " + string(x.Sort))
	}
	if x.Op == dt.mk {
		return x.Args[i]
	}
	if x.Op == "ite" {
		a, b := x.Args[1], x.Args[2]
		if a.Op == dt.mk || b.Op == dt.mk || a.Op == "ite" || b.Op == "ite" {
			return c.Ite(x.Args[0], c.Get(a, i), c.Get(b, i))
		}
	}
	return c.raw(dt.fields[i], dt.fsorts[i], x)
}
func (c *Ctx) With(x *Term, i int, v *Term) *Term {
	dt := c.dts[x.Sort]
	as := make([]*Term, len(dt.fields))
	for j := range as {
		if j == i {
			as[j] = v
		} else {
			as[j] = c.Get(x, j)
		}
	}
	return c.Mk(x.Sort, as...)
}

func (c *Ctx) USort(name string) Sort {
	s := Sort("U_" + sanitize(name))
	if !c.usorts[s] {
		c.usorts[s] = true
		c.usList = append(c.usList, s)
	}
	return s
}

func (c *Ctx) StrLit(v string) *Term {
	if c.strTheory {
		return c.intern(&Term{Op: "strlit", Name: v, Sort: SStr})
	}
	t := c.intern(&Term{Op: "strlit", Name: v, Sort: SStr})
	if _, ok := c.strlits[v]; !ok {
		c.strlits[v] = t
		c.strList = append(c.strList, v)
	}
	return t
}

func (c *Ctx) Forall(vars []*Term, pats [][]*Term, body *Term) *Term {
	return c.quant("forall", vars, pats, body)
}
func (c *Ctx) Exists(vars []*Term, pats [][]*Term, body *Term) *Term {
	return c.quant("exists", vars, pats, body)
}
func (c *Ctx) quant(op string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == c.True || body == c.False || len(vars) == 0 {
		return body
	}
	if !body.bnd {
		return body
	}
	return c.intern(&Term{Op: op, Args: []*Term{body}, Sort: SBool, Vars: vars, Pats: pats})
}

// Subst replaces terms.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		if len(t.Args) == 0 && len(t.Vars) == 0 {
			return t
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = f(a)
			ch = ch || as[i] != a
		}
		var r *Term
		if !ch {
			r = t
		} else {
			r = c.rebuild(t, as, f)
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(t *Term, as []*Term, f func(*Term) *Term) *Term {
	switch t.Op {
	case "forall", "exists":
		var ps [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, f(x))
			}
			ps = append(ps, q)
		}
		return c.quant(t.Op, t.Vars, ps, as[0])
	case "not":
		return c.Not(as[0])
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "=>":
		return c.Imp(as[0], as[1])
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "=":
		return c.Eq(as[0], as[1])
	case "+":
		return c.Add(as...)
	case "*":
		return c.Mul(as[0], as[1])
	case "<=":
		return c.Le(as[0], as[1])
	case "<":
		return c.Lt(as[0], as[1])
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	}
	for s, dt := range c.dts {
		if t.Op == dt.mk && t.Sort == s {
			return c.Mk(s, as...)
		}
		if len(as) == 1 && as[0].Sort == s {
			for i, fn := range dt.fields {
				if fn == t.Op {
					return c.Get(as[0], i)
				}
			}
		}
	}
	return c.intern(&Term{Op: t.Op, Name: t.Name, Args: as, Sort: t.Sort})
}

func quoteSym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$?", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range []byte(s) {
		switch {
		case r == '"':
			b.WriteString("\"\"")
		case r < 32 || r > 126 || r == '\\':
			fmt.Fprintf(&b, "\\u{%x}", r)
		default:
			b.WriteByte(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, nil, 0)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func (t *Term) write(b *strings.Builder, shared map[int]string, depth int) {
	if shared != nil {
		if n, ok := shared[t.id]; ok {
			b.WriteString(n)
			return
		}
	}
	t.writeTop(b, shared, depth)
}

func (t *Term) writeTop(b *strings.Builder, shared map[int]string, depth int) {
	switch t.Op {
	case "sym", "bv":
		b.WriteString(quoteSym(t.Name))
	case "bool":
		b.WriteString(t.Name)
	case "int":
		if t.Int.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(t.Int))
		} else {
			b.WriteString(t.Int.String())
		}
	case "strlit":
		b.WriteString(strLitName(t))
	case "constarr":
		fmt.Fprintf(b, "((as const %s) ", t.Sort)
		t.Args[0].write(b, shared, depth+1)
		b.WriteByte(')')
	case "forall", "exists":
		fmt.Fprintf(b, "(%s (", t.Op)
		for i, v := range t.Vars {
			if i > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(b, "(%s %s)", quoteSym(v.Name), v.Sort)
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		t.Args[0].write(b, shared, depth+1)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					x.write(b, shared, depth+1)
				}
				b.WriteByte(')')
			}
			b.WriteByte(')')
		}
		b.WriteByte(')')
	default:
		b.WriteByte('(')
		b.WriteString(quoteSym(t.Op))
		for _, a := range t.Args {
			b.WriteByte(' ')
			a.write(b, shared, depth+1)
		}
		b.WriteByte(')')
	}
}

var strTheoryGlobal bool

func strLitName(t *Term) string {
	return "\x00S" + t.Name + "\x01"
}
