//go:build go1.22

// Package pgfake is a server that speaks the PostgreSQL wire protocol on the loopback interface and executes the few
// statements an event store needs on one in-memory table. A statement outside that subset sets Unsupported.
package pgfake

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Stmt is one executed statement with its arguments.
type Stmt struct {
	SQL  string
	Args []string
}

type row map[string]string

// Server is the fake.
type Server struct {
	Port        int
	l           net.Listener
	mu          sync.Mutex
	cond        *sync.Cond
	rows        []row
	nextGSN     uint64
	log         []Stmt
	locks       map[string]*session
	open        int
	Unsupported string
	// FailWhen is asked before each statement; it returns "" or where the statement fails: "start" or "rows".
	FailWhen func(sql string) string
}

type session struct {
	s       *Server
	w       *bufio.Writer
	inTx    bool
	broken  bool
	inserts []row
	deletes []func(row) bool
	sql     string
	args    []string
}

// Start starts a server.
func Start() (*Server, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &Server{l: l, Port: l.Addr().(*net.TCPAddr).Port, nextGSN: 1, locks: map[string]*session{}}
	s.cond = sync.NewCond(&s.mu)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s, nil
}

// Close stops listening.
func (s *Server) Close() { _ = s.l.Close() }

// Log returns and clears the statements executed.
func (s *Server) Log() []Stmt {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.log
	s.log = nil
	return l
}

// OpenTransactions is the number of transactions neither committed nor rolled back.
func (s *Server) OpenTransactions() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.open
}

// Rows returns the committed rows.
func (s *Server) Rows() []map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []map[string]string
	for _, r := range s.rows {
		c := map[string]string{}
		for k, v := range r {
			c[k] = v
		}
		out = append(out, c)
	}
	return out
}

func (x *session) msg(t byte, body []byte) {
	_ = x.w.WriteByte(t)
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], uint32(len(body)+4))
	_, _ = x.w.Write(n[:])
	_, _ = x.w.Write(body)
}

func (x *session) ready() {
	st := byte('I')
	if x.inTx {
		st = 'T'
		if x.broken {
			st = 'E'
		}
	}
	x.msg('Z', []byte{st})
	_ = x.w.Flush()
}

func (x *session) fail(m string) {
	if x.inTx {
		x.broken = true
	}
	x.msg('E', []byte("SERROR\x00CXX000\x00M"+m+"\x00\x00"))
}

func i16(n int) []byte { var b [2]byte; binary.BigEndian.PutUint16(b[:], uint16(n)); return b[:] }
func i32(n int) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], uint32(n)); return b[:] }

func (s *Server) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	x := &session{s: s, w: bufio.NewWriter(c)}
	defer func() {
		s.mu.Lock()
		x.end()
		s.mu.Unlock()
	}()
	var hdr [4]byte
	if _, err := io.ReadFull(r, hdr[:]); err != nil {
		return
	}
	body := make([]byte, binary.BigEndian.Uint32(hdr[:])-4)
	if _, err := io.ReadFull(r, body); err != nil || len(body) < 4 {
		return
	}
	if binary.BigEndian.Uint32(body) != 196608 {
		return // a cancel request
	}
	x.msg('R', i32(0))
	x.ready()
	for {
		t, err := r.ReadByte()
		if err != nil {
			return
		}
		if _, err := io.ReadFull(r, hdr[:]); err != nil {
			return
		}
		body := make([]byte, binary.BigEndian.Uint32(hdr[:])-4)
		if _, err := io.ReadFull(r, body); err != nil {
			return
		}
		switch t {
		case 'Q':
			x.sql, x.args = strings.TrimRight(string(body), "\x00"), nil
			if strings.TrimSpace(strings.TrimRight(x.sql, "; ")) == "" {
				x.msg('I', nil)
			} else {
				x.execute(true)
			}
			x.ready()
		case 'P':
			p := strings.SplitN(string(body), "\x00", 3)
			x.sql = p[1]
			x.msg('1', nil)
		case 'D':
			n := placeholders(x.sql)
			b := i16(n)
			for i := 0; i < n; i++ {
				b = append(b, i32(25)...)
			}
			x.msg('t', b)
			if cols := resultColumns(x.sql); cols == nil {
				x.msg('n', nil)
			} else {
				x.describe(cols)
			}
		case 'B':
			x.args = nil
			b := body
			for k := 0; k < 2; k++ {
				b = b[strings.IndexByte(string(b), 0)+1:]
			}
			nf := int(binary.BigEndian.Uint16(b))
			b = b[2+2*nf:]
			na := int(binary.BigEndian.Uint16(b))
			b = b[2:]
			for i := 0; i < na; i++ {
				l := int32(binary.BigEndian.Uint32(b))
				b = b[4:]
				if l < 0 {
					x.args = append(x.args, "\x00NULL")
					continue
				}
				x.args = append(x.args, string(b[:l]))
				b = b[l:]
			}
			x.msg('2', nil)
		case 'E':
			x.execute(false)
		case 'S':
			x.ready()
		case 'C':
			x.msg('3', nil)
		case 'X':
			return
		}
	}
}

var phRE = regexp.MustCompile(`\$(\d+)`)

func placeholders(sql string) int {
	max := 0
	for _, m := range phRE.FindAllStringSubmatch(sql, -1) {
		if n, _ := strconv.Atoi(m[1]); n > max {
			max = n
		}
	}
	return max
}

func (x *session) describe(cols []string) {
	b := i16(len(cols))
	for _, c := range cols {
		b = append(b, c...)
		b = append(b, 0)
		b = append(b, i32(0)...)
		b = append(b, i16(0)...)
		b = append(b, i32(25)...)
		b = append(b, i16(0xffff)...)
		b = append(b, i32(-1)...)
		b = append(b, i16(0)...)
	}
	x.msg('T', b)
}

var (
	selRE    = regexp.MustCompile(`(?is)^\s*SELECT\s+(.*?)\s+FROM\s+record\b\s*(?:WHERE\s+(.*?))?\s*(?:GROUP\s+BY\s+(\w+))?\s*(?:ORDER\s+BY\s+(\w+)(\s+ASC|\s+DESC)?)?\s*;?\s*$`)
	insRE    = regexp.MustCompile(`(?is)^\s*INSERT\s+INTO\s+record\s*\(([^)]*)\)\s*VALUES\s*(.*?)\s*(?:RETURNING\s+(\w+))?\s*;?\s*$`)
	delRE    = regexp.MustCompile(`(?is)^\s*DELETE\s+FROM\s+record\s+WHERE\s+(.*?)\s*;?\s*$`)
	lockRE   = regexp.MustCompile(`(?is)^\s*SELECT\s+pg_advisory_xact_lock\(\$1\)\s*;?\s*$`)
	aggRE    = regexp.MustCompile(`(?i)^(MAX|COUNT)\(\s*(\w+|\*)\s*\)$`)
	condRE   = regexp.MustCompile(`(?i)^\s*(\w+)\s*(>=|<=|=|>|<)\s*\$(\d+)\s*$`)
	anyRE    = regexp.MustCompile(`(?i)^\s*(\w+)\s*=\s*ANY\s*\(\s*\$(\d+)\s*\)\s*$`)
	andRE    = regexp.MustCompile(`(?i)\s+AND\s+`)
	ddlRE    = regexp.MustCompile(`(?is)^\s*(CREATE|DROP|SET)\b`)
	numeric  = map[string]bool{"globalsequencenumber": true, "streamsequencenumber": true, "inserttimestamp": true}
	allCols  = []string{"streamname", "aggregatetype", "aggregateid", "globalsequencenumber", "streamsequencenumber", "inserttimestamp", "eventid", "eventtype", "data", "metadata"}
	knownCol = map[string]bool{}
)

func init() {
	for _, c := range allCols {
		knownCol[c] = true
	}
}

func resultColumns(sql string) []string {
	if lockRE.MatchString(sql) {
		return []string{"lock"}
	}
	if m := insRE.FindStringSubmatch(sql); m != nil {
		if m[3] != "" {
			return []string{m[3]}
		}
		return nil
	}
	if m := selRE.FindStringSubmatch(sql); m != nil {
		return strings.Split(strings.Join(strings.Fields(m[1]), ""), ",")
	}
	return nil
}

func less(col, a, b string) bool {
	if numeric[col] {
		x, _ := strconv.ParseUint(a, 10, 64)
		y, _ := strconv.ParseUint(b, 10, 64)
		return x < y
	}
	return a < b
}

func array(s string) []string {
	var out []string
	s = strings.TrimSuffix(strings.TrimPrefix(s, "{"), "}")
	for i := 0; i < len(s); {
		if s[i] == ',' {
			i++
			continue
		}
		var b strings.Builder
		if s[i] == '"' {
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
				b.WriteByte(s[i])
			}
			i++
		} else {
			for ; i < len(s) && s[i] != ','; i++ {
				b.WriteByte(s[i])
			}
		}
		out = append(out, b.String())
	}
	return out
}

func (x *session) where(text string) (func(row) bool, error) {
	if strings.TrimSpace(text) == "" {
		return func(row) bool { return true }, nil
	}
	var fs []func(row) bool
	for _, c := range andRE.Split(text, -1) {
		if m := anyRE.FindStringSubmatch(c); m != nil && knownCol[strings.ToLower(m[1])] {
			n, _ := strconv.Atoi(m[2])
			col, vals := strings.ToLower(m[1]), array(x.args[n-1])
			fs = append(fs, func(r row) bool {
				for _, v := range vals {
					if r[col] == v {
						return true
					}
				}
				return false
			})
			continue
		}
		m := condRE.FindStringSubmatch(c)
		if m == nil || !knownCol[strings.ToLower(m[1])] {
			return nil, fmt.Errorf("condition %q", c)
		}
		n, _ := strconv.Atoi(m[3])
		if n < 1 || n > len(x.args) {
			return nil, fmt.Errorf("placeholder $%d", n)
		}
		col, op, v := strings.ToLower(m[1]), m[2], x.args[n-1]
		fs = append(fs, func(r row) bool {
			lt, gt := less(col, r[col], v), less(col, v, r[col])
			switch op {
			case "=":
				return !lt && !gt
			case ">=":
				return !lt
			case "<=":
				return !gt
			case ">":
				return gt
			}
			return lt
		})
	}
	return func(r row) bool {
		for _, f := range fs {
			if !f(r) {
				return false
			}
		}
		return true
	}, nil
}

// view is what the session sees: committed rows without its deletions, with its insertions.
func (x *session) view() []row {
	var out []row
	for _, r := range x.s.rows {
		del := false
		for _, d := range x.deletes {
			del = del || d(r)
		}
		if !del {
			out = append(out, r)
		}
	}
	return append(out, x.inserts...)
}

func (x *session) end() {
	if x.inTx {
		x.s.open--
	}
	x.inTx, x.broken, x.inserts, x.deletes = false, false, nil, nil
	for k, o := range x.s.locks {
		if o == x {
			delete(x.s.locks, k)
		}
	}
	x.s.cond.Broadcast()
}

func (x *session) commit() {
	x.s.rows = x.view()
	sort.SliceStable(x.s.rows, func(i, j int) bool {
		return less("globalsequencenumber", x.s.rows[i]["globalsequencenumber"], x.s.rows[j]["globalsequencenumber"])
	})
}

func (x *session) data(vals []string) {
	b := i16(len(vals))
	for _, v := range vals {
		b = append(b, i32(len(v))...)
		b = append(b, v...)
	}
	x.msg('D', b)
}

func (x *session) unsupported(why string) {
	if x.s.Unsupported == "" {
		x.s.Unsupported = why + ": " + x.sql
	}
	x.fail("unsupported: " + why)
}

func (x *session) execute(simple bool) {
	s := x.s
	s.mu.Lock()
	defer s.mu.Unlock()
	word := strings.ToUpper(strings.TrimRight(strings.TrimSpace(x.sql), ";"))
	s.log = append(s.log, Stmt{x.sql, x.args})
	fault := ""
	if s.FailWhen != nil {
		fault = s.FailWhen(x.sql)
	}
	if fault == "start" && word != "ROLLBACK" {
		if word == "COMMIT" {
			x.end()
		}
		x.fail("injected fault")
		return
	}
	switch {
	case strings.HasPrefix(word, "BEGIN"):
		x.inTx = true
		s.open++
		x.msg('C', []byte("BEGIN\x00"))
		return
	case word == "COMMIT":
		tag := "COMMIT\x00"
		if x.broken {
			tag = "ROLLBACK\x00"
		} else {
			x.commit()
		}
		x.end()
		x.msg('C', []byte(tag))
		return
	case word == "ROLLBACK":
		x.end()
		x.msg('C', []byte("ROLLBACK\x00"))
		return
	}
	if x.broken {
		x.fail("current transaction is aborted")
		return
	}
	switch {
	case lockRE.MatchString(x.sql):
		for s.locks[x.args[0]] != nil && s.locks[x.args[0]] != x {
			s.cond.Wait()
		}
		s.locks[x.args[0]] = x
		x.data([]string{""})
		x.msg('C', []byte("SELECT 1\x00"))
	case insRE.MatchString(x.sql):
		m := insRE.FindStringSubmatch(x.sql)
		var cols []string
		for _, c := range strings.Split(m[1], ",") {
			c = strings.ToLower(strings.TrimSpace(c))
			if !knownCol[c] {
				x.unsupported("column " + c)
				return
			}
			cols = append(cols, c)
		}
		tuples := regexp.MustCompile(`\(([^)]*)\)`).FindAllStringSubmatch(m[2], -1)
		var rows []row
		used := 0
		for _, t := range tuples {
			vals := strings.Split(t[1], ",")
			if len(vals) != len(cols) {
				x.fail("INSERT has a different number of expressions than target columns")
				return
			}
			r := row{}
			for i, v := range vals {
				p := phRE.FindStringSubmatch(v)
				if p == nil {
					x.unsupported("value " + v)
					return
				}
				n, _ := strconv.Atoi(p[1])
				if n < 1 || n > len(x.args) {
					x.fail("no such parameter")
					return
				}
				used++
				r[cols[i]] = x.args[n-1]
				if numeric[cols[i]] {
					if _, err := strconv.ParseUint(x.args[n-1], 10, 64); err != nil {
						x.fail("invalid input syntax for type bigint")
						return
					}
				}
			}
			rows = append(rows, r)
		}
		if len(rows) == 0 {
			x.fail("syntax error")
			return
		}
		for i, r := range rows {
			r["globalsequencenumber"] = strconv.FormatUint(s.nextGSN, 10)
			s.nextGSN++
			x.inserts = append(x.inserts, r)
			if m[3] != "" {
				x.data([]string{r[strings.ToLower(m[3])]})
			}
			if fault == "rows" && i == len(rows)/2 {
				x.fail("injected fault")
				return
			}
		}
		if !x.inTx {
			x.commit()
			x.inserts = nil
		}
		x.msg('C', []byte(fmt.Sprintf("INSERT 0 %d\x00", len(rows))))
	case delRE.MatchString(x.sql):
		f, err := x.where(delRE.FindStringSubmatch(x.sql)[1])
		if err != nil {
			x.unsupported(err.Error())
			return
		}
		n := 0
		for _, r := range x.view() {
			if f(r) {
				n++
			}
		}
		x.deletes = append(x.deletes, f)
		var keep []row
		for _, r := range x.inserts {
			if !f(r) {
				keep = append(keep, r)
			}
		}
		x.inserts = keep
		if !x.inTx {
			x.commit()
			x.deletes = nil
		}
		x.msg('C', []byte(fmt.Sprintf("DELETE %d\x00", n)))
	case selRE.MatchString(x.sql):
		m := selRE.FindStringSubmatch(x.sql)
		f, err := x.where(m[2])
		if err != nil {
			x.unsupported(err.Error())
			return
		}
		cols := resultColumns(x.sql)
		if simple {
			x.describe(cols)
		}
		var sel []row
		for _, r := range x.view() {
			if f(r) {
				sel = append(sel, r)
			}
		}
		if a := aggRE.FindStringSubmatch(cols[0]); a != nil {
			if len(sel) == 0 && m[3] != "" {
				x.msg('C', []byte("SELECT 0\x00"))
				return
			}
			col := strings.ToLower(a[2])
			if strings.EqualFold(a[1], "COUNT") {
				x.data([]string{strconv.Itoa(len(sel))})
			} else {
				best := "0"
				for _, r := range sel {
					if less(col, best, r[col]) {
						best = r[col]
					}
				}
				x.data([]string{best})
			}
			x.msg('C', []byte("SELECT 1\x00"))
			return
		}
		if m[4] != "" {
			col, desc := strings.ToLower(m[4]), strings.Contains(strings.ToUpper(m[5]), "DESC")
			sort.SliceStable(sel, func(i, j int) bool {
				if desc {
					i, j = j, i
				}
				return less(col, sel[i][col], sel[j][col])
			})
		} else {
			// without an order, rows come back in any order
			for i, j := 0, len(sel)-1; i < j; i, j = i+1, j-1 {
				sel[i], sel[j] = sel[j], sel[i]
			}
		}
		for i, r := range sel {
			if fault == "rows" && i == len(sel)/2 {
				x.fail("injected fault")
				return
			}
			var vals []string
			for _, c := range cols {
				if !knownCol[strings.ToLower(c)] {
					x.unsupported("column " + c)
					return
				}
				vals = append(vals, r[strings.ToLower(c)])
			}
			x.data(vals)
		}
		if fault == "rows" && len(sel) == 0 {
			x.fail("injected fault")
			return
		}
		x.msg('C', []byte(fmt.Sprintf("SELECT %d\x00", len(sel))))
	case ddlRE.MatchString(x.sql):
		x.msg('C', []byte("CREATE TABLE\x00"))
	default:
		x.unsupported("statement")
	}
}
