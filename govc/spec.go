package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Node is a specification expression.
type Node struct {
	Kind string // id num str un bin call index field quant ite let slice bool nil
	Str  string
	Args []*Node
	Vars []qvar
	Pats [][]*Node
	Src  string
}

type qvar struct{ Name, Type string }

type Clause struct {
	Label string
	Expr  *Node
	Src   string
}

type Hole struct {
	Name, Type string
	PhiOnly    bool
	NoPar      bool
}

type InvSpec struct {
	Label string
	Where string
	Holes []Hole
	Expr  *Node
}

type Contract struct {
	Key      string
	Params   []string
	Results  []string
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Threads  []Clause
	Covers   []Clause
	Steps    []StepSpec
	Holds    []HoldSpec
	Modifies []*Node
	ModAny   bool
	Invs     []InvSpec
	Lets     []Clause
	Trusted  bool
	Inline   bool
	Optional bool
	MayPanic bool
	NoReturn bool
	HoudSec  int // seconds allowed per invariant query (default 4)
	Strings  bool
	Budget   int
	File     string
	fn       *ssa.Function
	Assumes  []string // free-text assumptions
}

// StepSpec relates the state at the end of every iteration of a loop to the state at its beginning, head(e).
type StepSpec struct {
	Clause
	Where string
}

// HoldSpec names a mutex that a function is called with and returns with.
type HoldSpec struct {
	Param string
	Field string
	Read  bool
}

type Monitor struct {
	Key     string
	Var     string
	Guards  map[string]bool
	Invs    []Clause
	TypName string
	ptrType types.Type
}

type Pred struct {
	Name   string
	Params []qvar
	Body   *Node
}

type UFun struct {
	Name string
	Args []string
	Ret  string
}

type Ghost struct {
	Name string
	Key  string
	Ret  string
}

type Specs struct {
	Funcs     map[string]*Contract
	Monitors  map[string]*Monitor
	MonByType map[string][]*Monitor
	Preds     map[string]*Pred
	UFuns     map[string]*UFun
	Ghosts    map[string]*Ghost
	Axioms    []Clause
	NonNil    map[string]bool // package variables of dependencies assumed to be set
	Pkgs      map[string]*types.Package
	AllPkgs   map[string][]*types.Package
	order     []string

	closedElems map[string]bool // element types of the channels the module closes
}

// lookup finds a member of the packages with the given name.
func (sp *Specs) lookup(pkg, name string) (*types.Package, types.Object) {
	for _, p := range sp.AllPkgs[pkg] {
		if o := p.Scope().Lookup(name); o != nil {
			return p, o
		}
	}
	return nil, nil
}

type specErr struct{ msg string }

func (e *specErr) Error() string { return e.msg }
func serr(f string, a ...any) *specErr {
	return &specErr{fmt.Sprintf(f, a...)}
}

var clauseKW = []string{"func", "props", "requires", "ensures", "thread", "cover", "modifies", "inv", "let", "option", "pred", "fun", "ghost", "axiom", "monitor", "guards", "invariant", "step", "assume-note", "nonnil", "holds"}

func LoadSpecs(dir string, pkgs []*packages.Package) (*Specs, error) {
	sp := &Specs{Funcs: map[string]*Contract{}, Monitors: map[string]*Monitor{}, MonByType: map[string][]*Monitor{}, Preds: map[string]*Pred{}, UFuns: map[string]*UFun{}, Ghosts: map[string]*Ghost{}, Pkgs: map[string]*types.Package{}, NonNil: map[string]bool{}, AllPkgs: map[string][]*types.Package{}}
	var visit func(p *types.Package, depth int)
	seen := map[*types.Package]bool{}
	visit = func(p *types.Package, depth int) {
		if seen[p] {
			return
		}
		seen[p] = true
		sp.AllPkgs[p.Name()] = append(sp.AllPkgs[p.Name()], p)
		for _, i := range p.Imports() {
			visit(i, depth+1)
		}
	}
	for _, p := range pkgs {
		if p.Types != nil {
			visit(p.Types, 0)
		}
	}
	// several packages may share a name: the module's own come first, internal ones last
	for n, ps := range sp.AllPkgs {
		rank := func(p *types.Package) int {
			switch {
			case strings.HasPrefix(p.Path(), modulePath):
				return 0
			case strings.Contains(p.Path(), "internal") || strings.Contains(p.Path(), "vendor"):
				return 2
			}
			return 1
		}
		sort.Slice(ps, func(i, j int) bool {
			if a, b := rank(ps[i]), rank(ps[j]); a != b {
				return a < b
			}
			return len(ps[i].Path()) < len(ps[j].Path()) || len(ps[i].Path()) == len(ps[j].Path()) && ps[i].Path() < ps[j].Path()
		})
		sp.Pkgs[n] = ps[0]
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	return sp, nil
}

func (sp *Specs) parseFile(file, src string) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if se, ok := e.(*specErr); ok {
				err = se
				return
			}
			panic(e)
		}
	}()
	type item struct {
		kw, rest string
		line     int
	}
	var items []item
	for ln, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		kw := ""
		for _, k := range clauseKW {
			if t == k || strings.HasPrefix(t, k+" ") || strings.HasPrefix(t, k+"[") {
				kw = k
				break
			}
		}
		if kw == "" {
			if len(items) == 0 {
				return fmt.Errorf("line %d: stray text %q", ln+1, t)
			}
			items[len(items)-1].rest += " " + t
			continue
		}
		items = append(items, item{kw, strings.TrimPrefix(t, kw), ln + 1})
	}
	var con *Contract
	var mon *Monitor
	label := func(s string) (string, string) {
		if strings.HasPrefix(s, "[") {
			j := strings.Index(s, "]")
			return s[1:j], strings.TrimSpace(s[j+1:])
		}
		return "", strings.TrimSpace(s)
	}
	for _, it := range items {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if se, ok := e.(*specErr); ok {
						panic(serr("line %d: %s", it.line, se.msg))
					}
					panic(e)
				}
			}()
			lb, rest := label(it.rest)
			switch it.kw {
			case "func":
				con = parseHeader(rest)
				con.File = file
				mon = nil
				if sp.Funcs[con.Key] != nil {
					panic(serr("duplicate contract %s", con.Key))
				}
				sp.Funcs[con.Key] = con
				sp.order = append(sp.order, con.Key)
			case "props":
				con.Props = strings.Fields(rest)
			case "requires":
				con.Requires = append(con.Requires, Clause{lb, parseExpr(rest), rest})
			case "ensures":
				if lb == "" {
					lb = fmt.Sprintf("post%d", len(con.Ensures)+1)
				}
				con.Ensures = append(con.Ensures, Clause{lb, parseExpr(rest), rest})
			case "thread":
				if lb == "" {
					lb = fmt.Sprintf("thread%d", len(con.Threads)+1)
				}
				con.Threads = append(con.Threads, Clause{lb, parseExpr(rest), rest})
			case "cover":
				con.Covers = append(con.Covers, Clause{lb, parseExpr(rest), rest})
			case "step":
				w := "1"
				if i := strings.Index(lb, "@"); i >= 0 {
					lb, w = lb[:i], lb[i+1:]
				}
				con.Steps = append(con.Steps, StepSpec{Clause{lb, parseExpr(rest), rest}, w})
			case "holds":
				f := strings.Fields(rest)
				i := strings.Index(f[0], ".")
				con.Holds = append(con.Holds, HoldSpec{f[0][:i], f[0][i+1:], len(f) > 1 && f[1] == "read"})
			case "let":
				i := strings.Index(rest, "=")
				con.Lets = append(con.Lets, Clause{strings.TrimSpace(rest[:i]), parseExpr(rest[i+1:]), rest})
			case "assume-note":
				con.Assumes = append(con.Assumes, rest)
			case "modifies":
				if rest == "any" {
					con.ModAny = true
					return
				}
				p := newParser(rest)
				for {
					con.Modifies = append(con.Modifies, p.expr(0))
					if !p.accept(",") {
						break
					}
				}
				p.end()
			case "inv":
				iv := InvSpec{Label: lb}
				if lb == "" {
					iv.Label = fmt.Sprintf("inv%d", len(con.Invs)+1)
				}
				if i := strings.Index(iv.Label, "@"); i >= 0 {
					iv.Label, iv.Where = iv.Label[:i], iv.Label[i+1:]
				}
				if i := strings.Index(rest, " ::: "); i >= 0 {
					for _, h := range strings.Split(rest[:i], ";") {
						f := strings.Fields(strings.TrimSpace(h))
						hl := Hole{Name: f[0], Type: strings.Join(f[1:], " ")}
						if strings.HasPrefix(f[1], "phi:") {
							hl.Type = hl.Type[4:]
							hl.PhiOnly = true
						}
						if strings.HasPrefix(f[1], "val:") {
							hl.Type = hl.Type[4:]
							hl.NoPar = true
						}
						iv.Holes = append(iv.Holes, hl)
					}
					rest = rest[i+5:]
				}
				iv.Expr = parseExpr(rest)
				con.Invs = append(con.Invs, iv)
			case "option":
				for _, o := range strings.Fields(rest) {
					if strings.HasPrefix(o, "effort=") {
						fmt.Sscanf(o[7:], "%d", &con.HoudSec)
						continue
					}
					switch o {
					case "trusted":
						con.Trusted = true
					case "inline":
						con.Inline = true
					case "optional":
						con.Optional = true
					case "maypanic":
						con.MayPanic = true
					case "noreturn":
						con.NoReturn = true
					case "strings":
						con.Strings = true
					default:
						panic(serr("unknown option %s", o))
					}
				}
			case "pred":
				i := strings.Index(rest, "=")
				h := strings.TrimSpace(rest[:i])
				j := strings.Index(h, "(")
				p := &Pred{Name: h[:j], Body: parseExpr(rest[i+1:])}
				for _, a := range splitTop(h[j+1:len(h)-1], ',') {
					f := strings.SplitN(strings.TrimSpace(a), " ", 2)
					if len(f) == 2 {
						p.Params = append(p.Params, qvar{f[0], strings.TrimSpace(f[1])})
					} else if f[0] != "" {
						p.Params = append(p.Params, qvar{f[0], ""})
					}
				}
				sp.Preds[p.Name] = p
			case "fun":
				m := regexp.MustCompile(`^(\w+)\(([^)]*)\)\s*(.+)$`).FindStringSubmatch(rest)
				if m == nil {
					panic(serr("bad fun %q", rest))
				}
				u := &UFun{Name: m[1], Ret: strings.TrimSpace(m[3])}
				for _, a := range splitTop(m[2], ',') {
					if strings.TrimSpace(a) != "" {
						u.Args = append(u.Args, strings.TrimSpace(a))
					}
				}
				sp.UFuns[u.Name] = u
			case "ghost":
				m := regexp.MustCompile(`^(\w+)\(([^)]*)\)\s*(.+)$`).FindStringSubmatch(rest)
				if m == nil {
					panic(serr("bad ghost %q", rest))
				}
				sp.Ghosts[m[1]] = &Ghost{m[1], strings.TrimSpace(m[2]), strings.TrimSpace(m[3])}
			case "nonnil":
				sp.NonNil[strings.TrimSpace(rest)] = true
			case "axiom":
				sp.Axioms = append(sp.Axioms, Clause{lb, parseExpr(rest), rest})
			case "monitor":
				m := regexp.MustCompile(`^(\S+)\((\w+)\)$`).FindStringSubmatch(rest)
				if m == nil {
					panic(serr("bad monitor %q", rest))
				}
				key := m[1]
				mon = &Monitor{Key: key, Var: m[2], Guards: map[string]bool{}, TypName: key[:strings.LastIndex(key, ".")]}
				t, err := sp.goType("*" + mon.TypName)
				if err != nil {
					panic(serr("%v", err))
				}
				mon.ptrType = t
				con = nil
				sp.Monitors[key] = mon
				sp.MonByType[mon.TypName] = append(sp.MonByType[mon.TypName], mon)
			case "guards":
				for _, f := range strings.Split(rest, ",") {
					mon.Guards[strings.TrimSpace(f)] = true
				}
			case "invariant":
				if lb == "" {
					lb = fmt.Sprintf("I%d", len(mon.Invs)+1)
				}
				mon.Invs = append(mon.Invs, Clause{lb, parseExpr(rest), rest})
			}
		}()
	}
	return nil
}

var (
	hdr2 = regexp.MustCompile(`^(.+)\(([^()]*)\)\s*\(([^()]*)\)$`)
	hdr1 = regexp.MustCompile(`^(.+)\(([^()]*)\)$`)
)

func parseHeader(s string) *Contract {
	c := &Contract{Budget: 2000000}
	split := func(s string) []string {
		var out []string
		for _, p := range strings.Split(s, ",") {
			if p = strings.TrimSpace(p); p != "" {
				out = append(out, p)
			}
		}
		return out
	}
	if m := hdr2.FindStringSubmatch(s); m != nil {
		c.Key, c.Params, c.Results = strings.TrimSpace(m[1]), split(m[2]), split(m[3])
		return c
	}
	m := hdr1.FindStringSubmatch(s)
	if m == nil {
		panic(serr("bad header %q", s))
	}
	c.Key, c.Params = strings.TrimSpace(m[1]), split(m[2])
	return c
}

func splitTop(s string, sep byte) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		default:
			if s[i] == sep && d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

// ---- expression parser ----

type parser struct {
	toks []string
	p    int
	src  string
}

var tokRE = regexp.MustCompile(`^(?:"(?:[^"\\]|\\.)*"|[A-Za-z_$][A-Za-z0-9_$]*|[0-9]+|==>|<==>|:::|::|==|!=|<=|>=|&&|\|\||[-+*/%!<>()\[\]{},.:=?;])`)

func newParser(s string) *parser {
	p := &parser{src: s}
	for {
		s = strings.TrimLeft(s, " \t\n")
		if s == "" {
			return p
		}
		m := tokRE.FindString(s)
		if m == "" {
			panic(serr("cannot lex %q", s))
		}
		p.toks = append(p.toks, m)
		s = s[len(m):]
	}
}

func parseExpr(s string) *Node {
	p := newParser(s)
	n := p.expr(0)
	p.end()
	n.Src = strings.TrimSpace(s)
	return n
}
func (p *parser) end() {
	if p.p < len(p.toks) {
		panic(serr("unexpected %q in %q", p.toks[p.p], p.src))
	}
}
func (p *parser) peek() string {
	if p.p < len(p.toks) {
		return p.toks[p.p]
	}
	return ""
}
func (p *parser) next() string { t := p.peek(); p.p++; return t }
func (p *parser) accept(t string) bool {
	if p.peek() == t {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(t string) {
	if !p.accept(t) {
		panic(serr("expected %q, got %q in %q", t, p.peek(), p.src))
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr(min int) *Node {
	l := p.unary()
	for {
		op := p.peek()
		pr, ok := prec[op]
		if !ok || pr < min {
			return l
		}
		p.p++
		var r *Node
		if op == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Node{Kind: "bin", Str: op, Args: []*Node{l, r}}
		// chained comparisons a <= b < c
		if pr == 5 && (op == "<" || op == "<=") {
			for p.peek() == "<" || p.peek() == "<=" {
				op2 := p.next()
				r2 := p.expr(pr + 1)
				l = &Node{Kind: "bin", Str: "&&", Args: []*Node{l, {Kind: "bin", Str: op2, Args: []*Node{r, r2}}}}
				r = r2
			}
		}
	}
}

func (p *parser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		p.expect("]")
		return "[]" + p.typ()
	}
	t := p.next()
	if t == "map" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	}
	if t == "interface" {
		p.expect("{")
		p.expect("}")
		return "interface{}"
	}
	if t == "chan" {
		return "chan " + p.typ()
	}
	if t == "struct" {
		p.expect("{")
		p.expect("}")
		return "struct{}"
	}
	for p.accept(".") {
		t += "." + p.next()
	}
	return t
}

func (p *parser) unary() *Node {
	switch t := p.peek(); t {
	case "!":
		p.p++
		return &Node{Kind: "un", Str: "!", Args: []*Node{p.unary()}}
	case "-":
		p.p++
		return &Node{Kind: "un", Str: "-", Args: []*Node{p.unary()}}
	case "forall", "exists":
		p.p++
		n := &Node{Kind: "quant", Str: t}
		for {
			name := p.next()
			ty := p.typ()
			n.Vars = append(n.Vars, qvar{name, ty})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var ps []*Node
			for {
				ps = append(ps, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			n.Pats = append(n.Pats, ps)
		}
		p.expect("::")
		n.Args = []*Node{p.expr(0)}
		return n
	case "if":
		p.p++
		c := p.expr(0)
		if p.next() != "then" {
			panic(serr("expected then in %q", p.src))
		}
		a := p.expr(0)
		if p.next() != "else" {
			panic(serr("expected else in %q", p.src))
		}
		b := p.expr(0)
		return &Node{Kind: "ite", Args: []*Node{c, a, b}}
	case "let":
		p.p++
		n := p.next()
		p.expect("=")
		v := p.expr(0)
		if p.next() != "in" {
			panic(serr("expected in in %q", p.src))
		}
		b := p.expr(0)
		return &Node{Kind: "let", Str: n, Args: []*Node{v, b}}
	}
	return p.postfix()
}

func (p *parser) postfix() *Node {
	var n *Node
	t := p.next()
	switch {
	case t == "(":
		n = p.expr(0)
		p.expect(")")
	case t == "true" || t == "false":
		n = &Node{Kind: "bool", Str: t}
	case t == "nil":
		n = &Node{Kind: "nil"}
	case t == "":
		panic(serr("unexpected end in %q", p.src))
	case t[0] == '"':
		s := strings.ReplaceAll(t[1:len(t)-1], `\"`, `"`)
		n = &Node{Kind: "str", Str: s}
	case t[0] >= '0' && t[0] <= '9':
		n = &Node{Kind: "num", Str: t}
	case regexp.MustCompile(`^[A-Za-z_$]`).MatchString(t):
		n = &Node{Kind: "id", Str: t}
	default:
		panic(serr("unexpected %q in %q", t, p.src))
	}
	for {
		switch p.peek() {
		case ".":
			p.p++
			n = &Node{Kind: "field", Str: p.next(), Args: []*Node{n}}
		case "[":
			p.p++
			i := p.expr(0)
			p.expect("]")
			n = &Node{Kind: "index", Args: []*Node{n, i}}
		case "(":
			if n.Kind != "id" {
				return n
			}
			p.p++
			c := &Node{Kind: "call", Str: n.Str}
			for !p.accept(")") {
				if typeArg[n.Str] && len(c.Args) == 1 {
					c.Args = append(c.Args, &Node{Kind: "type", Str: p.typ()})
				} else if typeArg0[n.Str] && len(c.Args) == 0 {
					c.Args = append(c.Args, &Node{Kind: "type", Str: p.typ()})
				} else {
					c.Args = append(c.Args, p.expr(0))
				}
				if !p.accept(",") {
					p.expect(")")
					break
				}
			}
			n = c
		default:
			return n
		}
	}
}

var typeArg = map[string]bool{"unbox": true, "istype": true, "box": true}
var typeArg0 = map[string]bool{"zeroval": true, "allmaps": true, "allsent": true}

// ---- types ----

func (sp *Specs) goType(s string) (types.Type, error) {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		t, err := sp.goType(s[1:])
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case strings.HasPrefix(s, "[]"):
		t, err := sp.goType(s[2:])
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case strings.HasPrefix(s, "chan "):
		t, err := sp.goType(s[5:])
		if err != nil {
			return nil, err
		}
		return types.NewChan(types.SendRecv, t), nil
	case strings.HasPrefix(s, "map["):
		d, i := 0, 4
		for ; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				if d == 0 {
					break
				}
				d--
			}
		}
		k, err := sp.goType(s[4:i])
		if err != nil {
			return nil, err
		}
		v, err := sp.goType(s[i+1:])
		if err != nil {
			return nil, err
		}
		return types.NewMap(k, v), nil
	case s == "interface{}" || s == "any":
		return types.NewInterfaceType(nil, nil), nil
	case s == "struct{}":
		return types.NewStruct(nil, nil), nil
	case s == "byte":
		return types.Typ[types.Uint8], nil
	case s == "error":
		return types.Universe.Lookup("error").Type(), nil
	}
	if i := strings.Index(s, "."); i >= 0 {
		p := sp.Pkgs[s[:i]]
		if p == nil {
			return nil, fmt.Errorf("unknown package in type %s", s)
		}
		_, o := sp.lookup(s[:i], s[i+1:])
		if o == nil {
			return nil, fmt.Errorf("unknown type %s", s)
		}
		return o.Type(), nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type(), nil
	}
	return nil, fmt.Errorf("unknown type %s", s)
}

// ---- evaluation ----

// SV is a specification value.
type SV struct {
	T     *Term
	Typ   types.Type // Go type when known
	IsNil bool
	Loc   *Loc
	fnPtr types.Type
}

type specEval struct {
	x     *Exec
	st    *State // state in which heap reads happen
	main  *State // state that receives type facts
	old   *State
	entry *State
	binds map[string]SV
	depth int
}

func (e *specEval) withState(s *State) *specEval {
	n := *e
	if n.main == nil {
		n.main = e.st
	}
	n.st = s
	return &n
}

func (e *specEval) mainSt() *State {
	if e.main != nil {
		return e.main
	}
	return e.st
}

func (e *specEval) boolean(n *Node) *Term {
	v := e.eval(n)
	if v.T == nil || v.T.Sort != SBool {
		panic(serr("not a boolean: %s", n.String()))
	}
	return v.T
}

func (n *Node) String() string {
	if n.Src != "" {
		return n.Src
	}
	switch n.Kind {
	case "id", "num", "str":
		return n.Str
	case "bin":
		return n.Args[0].String() + " " + n.Str + " " + n.Args[1].String()
	case "call":
		var as []string
		for _, a := range n.Args {
			as = append(as, a.String())
		}
		return n.Str + "(" + strings.Join(as, ", ") + ")"
	case "field":
		return n.Args[0].String() + "." + n.Str
	case "index":
		return n.Args[0].String() + "[" + n.Args[1].String() + "]"
	}
	return n.Kind
}

func (e *specEval) facts(t *Term, ty types.Type) {
	if t.bnd || ty == nil {
		return
	}
	e.x.typeFacts(e.mainSt(), t, ty)
}

func (e *specEval) sortOfName(s string) (Sort, types.Type) {
	switch s {
	case "int", "ref":
		return SInt, nil
	case "bool":
		return SBool, types.Typ[types.Bool]
	case "string":
		return SStr, types.Typ[types.String]
	case "any":
		return SAny, types.NewInterfaceType(nil, nil)
	}
	if strings.HasPrefix(s, "[int]") {
		v, _ := e.sortOfName(s[5:])
		return arr(SInt, v), nil
	}
	if strings.HasPrefix(s, "[string]") {
		v, _ := e.sortOfName(s[8:])
		return arr(SStr, v), nil
	}
	if strings.HasPrefix(s, "[any]") {
		v, _ := e.sortOfName(s[5:])
		return arr(SAny, v), nil
	}
	t, err := e.x.specs.goType(s)
	if err != nil {
		panic(serr("%v", err))
	}
	return e.x.sortOf(t), t
}

// arrElemTypes remembers the Go type of ghost array elements by sort name.
func (e *specEval) eval(n *Node) SV {
	x, c := e.x, e.x.c
	e.depth++
	if e.depth > 200 {
		panic(serr("specification recursion"))
	}
	defer func() { e.depth-- }()
	switch n.Kind {
	case "bool":
		return SV{T: c.B(n.Str == "true")}
	case "num":
		b, _ := new(big.Int).SetString(n.Str, 10)
		return SV{T: c.Big(b), Typ: types.Typ[types.UntypedInt]}
	case "str":
		return SV{T: c.StrLit(n.Str), Typ: types.Typ[types.String]}
	case "nil":
		return SV{IsNil: true}
	case "id":
		if v, ok := e.binds[n.Str]; ok {
			return v
		}
		switch n.Str {
		case "MAXU64":
			return SV{T: c.Big(max64), Typ: types.Typ[types.UntypedInt]}
		case "MAXINT":
			return SV{T: c.Big(maxI64), Typ: types.Typ[types.UntypedInt]}
		case "$alloc":
			return SV{T: e.st.alloc}
		}
		if p := x.specs.Preds[n.Str]; p != nil && len(p.Params) == 0 {
			return e.eval(p.Body)
		}
		panic(serr("unknown name %s", n.Str))
	case "un":
		v := e.eval(n.Args[0])
		if n.Str == "!" {
			return SV{T: c.Not(v.T)}
		}
		return SV{T: c.Sub(c.I(0), v.T), Typ: v.Typ}
	case "ite":
		k := e.boolean(n.Args[0])
		a, b := e.eval(n.Args[1]), e.eval(n.Args[2])
		a, b = e.unify(a, b)
		return SV{T: c.Ite(k, a.T, b.T), Typ: a.Typ}
	case "let":
		v := e.eval(n.Args[0])
		return e.bind(n.Str, v).eval(n.Args[1])
	case "quant":
		return e.quant(n)
	case "bin":
		return e.bin(n)
	case "field":
		return e.field(n)
	case "index":
		return e.index(n)
	case "call":
		return e.call(n)
	}
	panic(serr("cannot evaluate %s", n.Kind))
}

func (e *specEval) bind(name string, v SV) *specEval {
	ne := *e
	ne.binds = map[string]SV{}
	for k, vv := range e.binds {
		ne.binds[k] = vv
	}
	ne.binds[name] = v
	return &ne
}

func (e *specEval) quant(n *Node) SV {
	c := e.x.c
	ne := *e
	ne.binds = map[string]SV{}
	for k, v := range e.binds {
		ne.binds[k] = v
	}
	var vars []*Term
	for _, v := range n.Vars {
		s, t := e.sortOfName(v.Type)
		b := c.BV(v.Name, s)
		vars = append(vars, b)
		ne.binds[v.Name] = SV{T: b, Typ: t}
	}
	body := ne.boolean(n.Args[0])
	var pats [][]*Term
	for _, ps := range n.Pats {
		var q []*Term
		drop := false
		for _, p := range ps {
			t := ne.eval(p).T
			if t.Op == "and" { // membership: the select part
				for _, a := range t.Args {
					if a.Op == "select" && a.bnd {
						t = a
					}
				}
			}
			if !t.bnd { // folded away
				drop = true
				continue
			}
			if t.Op == "and" || t.Op == "ite" || t.Op == "not" {
				panic(serr("bad trigger %s -> %s", p, t))
			}
			q = append(q, t)
		}
		if drop {
			continue
		}
		// every variable must occur
		okAll := true
		for _, v := range vars {
			found := false
			for _, t := range q {
				if occurs(t, v) {
					found = true
				}
			}
			okAll = okAll && found
		}
		if okAll {
			pats = append(pats, q)
		}
	}
	if n.Str == "forall" {
		return SV{T: c.Forall(vars, pats, body)}
	}
	return SV{T: c.Exists(vars, pats, body)}
}

func occurs(t, v *Term) bool {
	if t == v {
		return true
	}
	if !t.bnd {
		return false
	}
	for _, a := range t.Args {
		if occurs(a, v) {
			return true
		}
	}
	return false
}

func (e *specEval) nilOf(o SV) *Term {
	c := e.x.c
	switch o.T.Sort {
	case SAny:
		return e.x.nilAny()
	case SInt:
		return c.I(0)
	}
	panic(serr("nil compared with %s", o.T.Sort))
}

func (e *specEval) unify(a, b SV) (SV, SV) {
	c := e.x.c
	if a.IsNil && b.IsNil {
		return SV{T: c.True}, SV{T: c.True}
	}
	if a.IsNil {
		b, a = e.unify(b, a)
		return a, b
	}
	if b.IsNil {
		if a.T.Sort == SSl {
			return SV{T: c.Get(a.T, 0)}, SV{T: c.I(0)}
		}
		return a, SV{T: e.nilOf(a), Typ: a.Typ}
	}
	if a.T.Sort != b.T.Sort {
		if a.T.Sort == SAny && b.Typ != nil {
			return a, SV{T: e.x.box(e.mainSt(), b.T, b.Typ)}
		}
		if b.T.Sort == SAny && a.Typ != nil {
			return SV{T: e.x.box(e.mainSt(), a.T, a.Typ)}, b
		}
		panic(serr("sorts differ: %s / %s", a.T.Sort, b.T.Sort))
	}
	return a, b
}

func (e *specEval) bin(n *Node) SV {
	c := e.x.c
	switch n.Str {
	case "&&":
		return SV{T: c.And(e.boolean(n.Args[0]), e.boolean(n.Args[1]))}
	case "||":
		return SV{T: c.Or(e.boolean(n.Args[0]), e.boolean(n.Args[1]))}
	case "==>":
		a := e.boolean(n.Args[0])
		if a == c.False {
			return SV{T: c.True}
		}
		return SV{T: c.Imp(a, e.boolean(n.Args[1]))}
	case "<==>":
		return SV{T: c.Eq(e.boolean(n.Args[0]), e.boolean(n.Args[1]))}
	case "in":
		k, m := e.eval(n.Args[0]), e.eval(n.Args[1])
		if m.T == nil {
			panic(serr("in: right side"))
		}
		if m.Typ != nil {
			if mt, ok := m.Typ.Underlying().(*types.Map); ok {
				d, _, _, ds, _ := e.x.mapHeaps(mt)
				return SV{T: c.And(c.Ne(m.T, c.I(0)), c.Select(c.Select(e.st.getHeap(d, ds), m.T), k.T))}
			}
		}
		if _, v, ok := arrParts(m.T.Sort); ok && v == SBool {
			return SV{T: c.Select(m.T, k.T)}
		}
		panic(serr("in: not a map"))
	}
	a, b := e.unify(e.eval(n.Args[0]), e.eval(n.Args[1]))
	switch n.Str {
	case "==":
		return SV{T: c.Eq(a.T, b.T)}
	case "!=":
		return SV{T: c.Ne(a.T, b.T)}
	}
	if a.T.Sort == SStr {
		switch n.Str {
		case "<":
			return SV{T: e.x.strLt(a.T, b.T)}
		case "<=":
			return SV{T: c.Not(e.x.strLt(b.T, a.T))}
		case "+":
			return SV{T: e.x.strCat(nil, a.T, b.T), Typ: a.Typ}
		}
	}
	if a.T.Sort != SInt {
		panic(serr("arithmetic on %s", a.T.Sort))
	}
	switch n.Str {
	case "<":
		return SV{T: c.Lt(a.T, b.T)}
	case "<=":
		return SV{T: c.Le(a.T, b.T)}
	case ">":
		return SV{T: c.Lt(b.T, a.T)}
	case ">=":
		return SV{T: c.Le(b.T, a.T)}
	case "+":
		return SV{T: c.Add(a.T, b.T)}
	case "-":
		return SV{T: c.Sub(a.T, b.T)}
	case "*":
		return SV{T: c.Mul(a.T, b.T)}
	case "/":
		return SV{T: c.raw("div", SInt, a.T, b.T)}
	case "%":
		return SV{T: c.raw("mod", SInt, a.T, b.T)}
	}
	panic(serr("operator %s", n.Str))
}

func (e *specEval) field(n *Node) SV {
	x, c := e.x, e.x.c
	// package-qualified global: pkg.Name
	if n.Args[0].Kind == "id" {
		if _, ok := e.binds[n.Args[0].Str]; !ok {
			if x.specs.Pkgs[n.Args[0].Str] != nil {
				if p, o := x.specs.lookup(n.Args[0].Str, n.Str); o != nil {
					if cst, ok := o.(*types.Const); ok {
						b, okb := new(big.Int).SetString(cst.Val().ExactString(), 10)
						if okb {
							return SV{T: c.Big(b), Typ: cst.Type()}
						}
					}
					if _, ok := o.(*types.Var); ok {
						for _, pk := range x.prog.AllPackages() {
							if pk.Pkg == p {
								if g, ok := pk.Members[n.Str].(*ssa.Global); ok {
									v := x.loadGlobal(e.mainSt(), g)
									return SV{T: v.T, Typ: o.Type()}
								}
							}
						}
					}
				}
			}
		}
	}
	v := e.eval(n.Args[0])
	if v.Typ == nil {
		panic(serr("field %s of untyped value %s", n.Str, n.Args[0]))
	}
	t := types.Unalias(v.Typ)
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		ptr = true
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(serr("field %s of %s", n.Str, v.Typ))
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() != n.Str {
			continue
		}
		ft := u.Field(i).Type()
		if ptr {
			h, hs, _ := x.fieldHeap(t, i)
			r := c.Select(e.st.getHeap(h, hs), v.T)
			e.facts(r, ft)
			return SV{T: r, Typ: ft, Loc: &Loc{kind: "field", heap: h, base: v.T, typ: ft}}
		}
		if c.dts[v.T.Sort] == nil {
			r := c.App(fmt.Sprintf("proj_%s_%d", sanitize(string(v.T.Sort)), i), x.sortOf(ft), v.T)
			return SV{T: r, Typ: ft}
		}
		r := c.Get(v.T, i)
		e.facts(r, ft)
		return SV{T: r, Typ: ft}
	}
	panic(serr("no field %s in %s", n.Str, t))
}

func (e *specEval) index(n *Node) SV {
	x, c := e.x, e.x.c
	v, i := e.eval(n.Args[0]), e.eval(n.Args[1])
	if v.Typ != nil {
		switch u := v.Typ.Underlying().(type) {
		case *types.Slice:
			h, hs := x.elemHeap(u.Elem())
			r := c.Select(c.Select(e.st.getHeap(h, hs), c.Get(v.T, 0)), x.ix(c.Get(v.T, 1), i.T))
			e.facts(r, u.Elem())
			return SV{T: r, Typ: u.Elem()}
		case *types.Map:
			_, vh, _, _, vs := x.mapHeaps(u)
			r := c.Select(c.Select(e.st.getHeap(vh, vs), v.T), i.T)
			e.facts(r, u.Elem())
			return SV{T: r, Typ: u.Elem()}
		}
	}
	if _, _, ok := arrParts(v.T.Sort); ok {
		r := c.Select(v.T, i.T)
		return SV{T: r, Typ: v.fnPtr}
	}
	panic(serr("index of %s", n.Args[0]))
}

func (e *specEval) lockState(kind string, n *Node) *State {
	for k, s := range e.mainSt().pre {
		if strings.HasPrefix(k, kind+":") {
			return s
		}
	}
	panic(serr("no %s on this path (%s)", kind, n))
}

func (e *specEval) call(n *Node) SV {
	x, c := e.x, e.x.c
	arg := func(i int) SV { return e.eval(n.Args[i]) }
	switch n.Str {
	case "old":
		return e.withState(e.old).eval(n.Args[0])
	case "entry":
		if e.entry == nil {
			panic(serr("entry() outside a loop invariant"))
		}
		return e.withState(e.entry).eval(n.Args[0])
	case "atlock":
		return e.withState(e.lockState("lock", n)).eval(n.Args[0])
	case "head":
		hs := e.mainSt().pre["loophead"]
		if hs == nil {
			panic(serr("head() outside a loop"))
		}
		return e.withState(hs).eval(n.Args[0])
	case "atunlock":
		return e.withState(e.lockState("unlock", n)).eval(n.Args[0])
	case "locked":
		_, ok := e.mainSt().pre["lock:"+n.Args[0].Str]
		for k := range e.mainSt().pre {
			if strings.HasPrefix(k, "lock:") {
				ok = true
			}
		}
		return SV{T: c.B(ok)}
	case "len", "cap":
		v := arg(0)
		if v.T.Sort == SStr {
			return SV{T: x.slen(e.factState(v.T), v.T), Typ: types.Typ[types.Int]}
		}
		if v.T.Sort == SSl {
			i := 2
			if n.Str == "cap" {
				i = 3
			}
			return SV{T: c.Get(v.T, i), Typ: types.Typ[types.Int]}
		}
		if v.Typ != nil {
			if mt, ok := v.Typ.Underlying().(*types.Map); ok {
				_, _, l, _, _ := x.mapHeaps(mt)
				return SV{T: c.Select(e.st.getHeap(l, arr(SInt, SInt)), v.T), Typ: types.Typ[types.Int]}
			}
		}
		panic(serr("len of %s", n.Args[0]))
	case "arr":
		return SV{T: c.Get(arg(0).T, 0)}
	case "off":
		return SV{T: c.Get(arg(0).T, 1)}
	case "ptr": // view a reference as a pointer: ptr(r, T)
		panic(serr("ptr"))
	case "get": // map lookup with Go's default
		m, k := arg(0), arg(1)
		mt := m.Typ.Underlying().(*types.Map)
		d, vh, _, ds, vs := x.mapHeaps(mt)
		has := c.And(c.Ne(m.T, c.I(0)), c.Select(c.Select(e.st.getHeap(d, ds), m.T), k.T))
		val := c.Select(c.Select(e.st.getHeap(vh, vs), m.T), k.T)
		e.facts(val, mt.Elem())
		return SV{T: c.Ite(has, val, x.zero(mt.Elem())), Typ: mt.Elem()}
	case "bytes":
		v := arg(0)
		h, hs := x.elemHeap(types.Typ[types.Uint8])
		r := x.bseq(c.Select(e.st.getHeap(h, hs), c.Get(v.T, 0)), c.Get(v.T, 1), c.Get(v.T, 2))
		if !r.bnd {
			e.mainSt().fact(c.raw("=", SBool, c.App("slen", SInt, r), c.Get(v.T, 2)))
		}
		return SV{T: r, Typ: types.Typ[types.String]}
	case "deref":
		v := arg(0)
		pt := v.Typ.Underlying().(*types.Pointer).Elem()
		if isStruct(pt) {
			u := pt.Underlying().(*types.Struct)
			var as []*Term
			for i := 0; i < u.NumFields(); i++ {
				h, hs, ft := x.fieldHeap(pt, i)
				r := c.Select(e.st.getHeap(h, hs), v.T)
				e.facts(r, ft)
				as = append(as, r)
			}
			return SV{T: c.Mk(x.sortOf(pt), as...), Typ: pt}
		}
		h, hs := x.cellHeap(pt)
		r := c.Select(e.st.getHeap(h, hs), v.T)
		e.facts(r, pt)
		return SV{T: r, Typ: pt}
	case "unbox":
		v := arg(0)
		t, err := x.specs.goType(n.Args[1].Str)
		if err != nil {
			panic(serr("%v", err))
		}
		if isAnyBox(v.T) && v.T.Op == "box_"+sanitize(typeName(t)) {
			return SV{T: v.T.Args[0], Typ: t}
		}
		if v.T.bnd {
			return SV{T: c.App("unbox_"+sanitize(typeName(t)), x.sortOf(t), v.T), Typ: t}
		}
		return SV{T: x.unbox(e.mainSt(), v.T, t), Typ: t}
	case "istype":
		v := arg(0)
		t, err := x.specs.goType(n.Args[1].Str)
		if err != nil {
			panic(serr("%v", err))
		}
		if types.IsInterface(t) {
			return SV{T: x.implPred(e.mainSt(), v.T, t)}
		}
		if isAnyBox(v.T) {
			return SV{T: c.B(v.T.Op == "box_"+sanitize(typeName(t)))}
		}
		return SV{T: c.Eq(x.tag(v.T), x.tagOf(t))}
	case "box":
		v := arg(0)
		t, err := x.specs.goType(n.Args[1].Str)
		if err != nil {
			panic(serr("%v", err))
		}
		if v.T.bnd {
			return SV{T: c.App("box_"+sanitize(typeName(t)), SAny, v.T), Typ: nil}
		}
		return SV{T: x.box(e.mainSt(), v.T, t)}
	case "sent": // sequence of values sent on / carried by a channel
		v := arg(0)
		et := v.Typ.Underlying().(*types.Chan).Elem()
		hn, hs := x.chanSeq(et)
		return SV{T: c.Select(e.st.getHeap(hn, hs), v.T), fnPtr: et}
	case "nsent":
		return SV{T: c.Select(e.st.getHeap("CN", arr(SInt, SInt)), arg(0).T), Typ: types.Typ[types.Int]}
	case "signalled":
		return SV{T: c.Select(e.st.getHeap("CSC", arr(SInt, SBool)), arg(0).T)}
	case "nrecv":
		return SV{T: c.Select(e.st.getHeap("CR", arr(SInt, SInt)), arg(0).T), Typ: types.Typ[types.Int]}
	case "chancap":
		return SV{T: c.Select(e.st.getHeap("CCAP", arr(SInt, SInt)), arg(0).T), Typ: types.Typ[types.Int]}
	case "closed":
		return SV{T: c.Select(e.st.getHeap("CC", arr(SInt, SBool)), arg(0).T)}
	case "cancelled":
		v := arg(0)
		return SV{T: x.cancelled(e.st, c.App("ctxdone", SInt, v.T))}
	case "fresh": // allocated since the old state
		v := arg(0)
		t := v.T
		if t.Sort == SSl {
			t = c.Get(t, 0)
		}
		return SV{T: c.Le(e.old.alloc, t)}
	case "allocated":
		v := arg(0)
		return SV{T: c.And(c.Le(c.I(0), v.T), c.Lt(v.T, e.st.alloc))}
	case "visited":
		k := arg(0)
		vis := e.mainSt().vis
		for i := len(vis) - 1; i >= 0; i-- {
			if x.sortOf(vis[i].mt.Key()) == k.T.Sort {
				if h, ok := e.st.heap[vis[i].heapVis]; ok {
					return SV{T: c.Select(h, k.T)}
				}
			}
		}
		panic(serr("no map iteration"))
	case "ctxerr":
		return SV{T: c.App("ctxerr", SAny, arg(0).T)}
	case "zeroval":
		t, err := x.specs.goType(n.Args[0].Str)
		if err != nil {
			panic(serr("%v", err))
		}
		return SV{T: x.zero(t), Typ: t}
	case "contains", "hasprefix", "hassuffix":
		a, b := arg(0).T, arg(1).T
		if c.strTheory {
			switch n.Str {
			case "contains":
				return SV{T: c.raw("str.contains", SBool, a, b)}
			case "hasprefix":
				return SV{T: c.raw("str.prefixof", SBool, b, a)}
			}
			return SV{T: c.raw("str.suffixof", SBool, b, a)}
		}
		return SV{T: c.App("str_"+n.Str, SBool, a, b)}
	case "indexof":
		a, b := arg(0).T, arg(1).T
		if c.strTheory {
			return SV{T: c.raw("str.indexof", SInt, a, b, c.I(0)), Typ: types.Typ[types.Int]}
		}
		return SV{T: c.App("str_indexof", SInt, a, b), Typ: types.Typ[types.Int]}
	case "substr":
		a, lo, ln := arg(0), arg(1).T, arg(2).T
		if c.strTheory {
			return SV{T: c.raw("str.substr", SStr, a.T, lo, ln), Typ: a.Typ}
		}
		return SV{T: c.App("ssub", SStr, a.T, lo, c.Add(lo, ln)), Typ: a.Typ}
	case "member": // member(s, v): v is one of the elements of slice s
		v := arg(0)
		if v.T.Sort != SSl {
			panic(serr("member of %s", v.T.Sort))
		}
		h, hs := x.elemHeap(v.Typ.Underlying().(*types.Slice).Elem())
		el := x.sortOf(v.Typ.Underlying().(*types.Slice).Elem())
		return SV{T: c.App("inseq_"+sanitize(string(el)), SBool, c.Select(e.st.getHeap(h, hs), c.Get(v.T, 0)), c.Get(v.T, 1), c.Get(v.T, 2), e.coerce(arg(1), el))}
	case "byteat":
		return SV{T: c.App("sat", SInt, arg(0).T, arg(1).T), Typ: types.Typ[types.Int]}
	case "isnilmapelem":
		panic(serr("unused"))
	}
	// dynamic pure interface methods: meth(recv) declared as fun with same name are plain functions
	if p := x.specs.Preds[n.Str]; p != nil {
		if len(p.Params) != len(n.Args) {
			panic(serr("pred %s arity", n.Str))
		}
		ne := *e
		ne.binds = map[string]SV{}
		for i, q := range p.Params {
			v := arg(i)
			if q.Type != "" {
				_, t := e.sortOfName(q.Type)
				if t != nil && !v.IsNil {
					v.Typ = t
				}
			}
			ne.binds[q.Name] = v
		}
		for k, v := range e.binds {
			if strings.HasPrefix(k, "$") {
				ne.binds[k] = v
			}
		}
		return ne.eval(p.Body)
	}
	if g := x.specs.Ghosts[n.Str]; g != nil {
		ks, _ := e.sortOfName(g.Key)
		vs, vt := e.sortOfName(g.Ret)
		h := e.st.getHeap("H."+g.Name, arr(ks, vs))
		k := e.coerce(arg(0), ks)
		r := c.Select(h, k)
		var et types.Type
		if _, _, isArr := arrParts(vs); isArr {
			et = e.arrElem(g.Ret)
		}
		return SV{T: r, Typ: vt, fnPtr: et}
	}
	if f := x.specs.UFuns[n.Str]; f != nil {
		var as []*Term
		if len(n.Args) != len(f.Args) {
			panic(serr("fun %s arity", n.Str))
		}
		for i := range n.Args {
			s, _ := e.sortOfName(f.Args[i])
			as = append(as, e.coerce(arg(i), s))
		}
		s, t := e.sortOfName(f.Ret)
		r := c.App("f."+f.Name, s, as...)
		if t != nil {
			e.facts(r, t)
		}
		var et types.Type
		if _, _, isArr := arrParts(s); isArr {
			et = e.arrElem(f.Ret)
		}
		return SV{T: r, Typ: t, fnPtr: et}
	}
	panic(serr("unknown function %s", n.Str))
}

func (e *specEval) arrElem(s string) types.Type {
	i := strings.Index(s, "]")
	_, t := e.sortOfName(s[i+1:])
	return t
}

func (e *specEval) factState(t *Term) *State {
	if t.bnd {
		return nil
	}
	return e.mainSt()
}

func (e *specEval) coerce(v SV, s Sort) *Term {
	if v.IsNil {
		if s == SAny {
			return e.x.nilAny()
		}
		return e.x.c.I(0)
	}
	if v.T.Sort == s {
		return v.T
	}
	if s == SAny && v.Typ != nil {
		if v.T.bnd {
			return e.x.c.App("box_"+sanitize(typeName(v.Typ)), SAny, v.T)
		}
		return e.x.box(e.mainSt(), v.T, v.Typ)
	}
	panic(serr("cannot use %s as %s", v.T.Sort, s))
}
