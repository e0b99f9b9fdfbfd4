//go:build go1.22

// Package stores drives the event stores through their public interface against an executable model.
package stores

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/clock"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/pkg/shortuuid"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"github.com/inklabs/rangedb/verifharness/vh"
)

// Clock gives the time the driver sets.
type Clock struct {
	mu  sync.Mutex
	now int64
}

func (c *Clock) Now() time.Time { c.mu.Lock(); defer c.mu.Unlock(); return time.Unix(c.now, 0) }
func (c *Clock) Set(n int64)    { c.mu.Lock(); c.now = n; c.mu.Unlock() }

// UUIDs counts.
type UUIDs struct {
	mu sync.Mutex
	n  int
}

func (u *UUIDs) New() string { u.mu.Lock(); defer u.mu.Unlock(); u.n++; return fmt.Sprintf("id%d", u.n) }

// Serializer fails on request.
type Serializer struct {
	rangedb.RecordSerializer
	mu            sync.Mutex
	failSerialize int // fail at this call from now (1 = the next), 0 = never
	badRead       map[uint64]bool
	OnSerialize   func(*rangedb.Record)
}

func (s *Serializer) Serialize(r *rangedb.Record) ([]byte, error) {
	s.mu.Lock()
	f := s.failSerialize
	if f > 0 {
		s.failSerialize--
	}
	cb := s.OnSerialize
	s.mu.Unlock()
	if cb != nil {
		cb(r)
	}
	if f == 1 {
		return nil, errors.New("cannot serialize")
	}
	return s.RecordSerializer.Serialize(r)
}

func (s *Serializer) Deserialize(b []byte) (*rangedb.Record, error) {
	r, err := s.RecordSerializer.Deserialize(b)
	if err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.badRead[r.GlobalSequenceNumber] {
		return nil, ErrBadRecord
	}
	return r, nil
}

func (s *Serializer) SetBad(n uint64, bad bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if bad {
		s.badRead = map[uint64]bool{n: true}
	} else {
		s.badRead = nil
	}
}

func (s *Serializer) FailAt(n int) { s.mu.Lock(); s.failSerialize = n; s.mu.Unlock() }

var ErrBadRecord = errors.New("cannot read this record")

// Ctx is cancelled from the n-th look at Done or Err on.
type Ctx struct {
	context.Context
	mu   sync.Mutex
	left int
	done chan struct{}
}

func NewCtx(n int) *Ctx {
	return &Ctx{Context: context.Background(), left: n, done: make(chan struct{})}
}

func (c *Ctx) look() bool {
	if c.left > 0 {
		c.left--
		return false
	}
	select {
	case <-c.done:
	default:
		close(c.done)
	}
	return true
}
func (c *Ctx) Done() <-chan struct{} { c.mu.Lock(); defer c.mu.Unlock(); c.look(); return c.done }
func (c *Ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	select {
	case <-c.done:
		return context.Canceled
	default:
		return nil
	}
}
func (c *Ctx) Fired() bool { return c.Err() != nil }

// Env is one store under test.
type Env struct {
	Kind   string
	Store  rangedb.Store
	Clock  *Clock
	UUIDs  *UUIDs
	Ser    *Serializer
	reopen func() rangedb.Store
	close  func()
}

func (e *Env) Close() { e.close() }

// Kinds of stores.
var Kinds = []string{"memory", "memory-msgpack", "leveldb", "leveldb-msgpack"}

type Both struct {
	clock.Clock
	shortuuid.Generator
}

func Open(h *vh.H, kind string) *Env {
	e := &Env{Kind: kind, Clock: &Clock{now: 1000}, UUIDs: &UUIDs{}, close: func() {}}
	mk := func() *Serializer {
		if strings.HasSuffix(kind, "msgpack") {
			return &Serializer{RecordSerializer: msgpackrecordserializer.New()}
		}
		return &Serializer{RecordSerializer: jsonrecordserializer.New()}
	}
	e.Ser = mk()
	if strings.HasPrefix(kind, "memory") {
		e.Store = inmemorystore.New(inmemorystore.WithClock(e.Clock), inmemorystore.WithUUIDGenerator(e.UUIDs), inmemorystore.WithSerializer(e.Ser))
		return e
	}
	dir, err := os.MkdirTemp("", "store")
	if err != nil {
		h.T.Fatal(err)
	}
	open := func() rangedb.Store {
		s, err := leveldbstore.New(dir, leveldbstore.WithClock(e.Clock), leveldbstore.WithUUIDGenerator(e.UUIDs), leveldbstore.WithSerializer(e.Ser))
		if err != nil {
			h.Fail("open", dir, "%v", err)
		}
		return s
	}
	e.Store = open()
	stop := func() { _ = e.Store.(interface{ Stop() error }).Stop() }
	e.reopen = func() rangedb.Store { stop(); e.Store = open(); return e.Store }
	e.close = func() { stop(); _ = os.RemoveAll(dir) }
	return e
}

// Rec is what the model knows of a stored event.
type Rec struct {
	Stream, Type, ID, EventType string
	SSN, GSN                    uint64
	TS                          uint64
	EventID                     string
	Data, Meta                  string // JSON
}

func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	return string(b)
}

func FromRecord(r *rangedb.Record) Rec {
	return Rec{Stream: r.StreamName, Type: r.AggregateType, ID: r.AggregateID, EventType: r.EventType, SSN: r.StreamSequenceNumber, GSN: r.GlobalSequenceNumber,
		TS: r.InsertTimestamp, EventID: r.EventID, Data: canon(r.Data), Meta: canon(r.Metadata)}
}

// Read drains an iterator.
func Read(it rangedb.RecordIterator) ([]Rec, error) {
	var out []Rec
	for it.Next() {
		if it.Err() != nil {
			return out, it.Err()
		}
		out = append(out, FromRecord(it.Record()))
	}
	return out, it.Err()
}

// Model is the expected content.
type Model struct {
	Log     []Rec
	LastGSN uint64
}

func (m *Model) Sel(f func(Rec) bool) []Rec {
	var out []Rec
	for _, r := range m.Log {
		if f(r) {
			out = append(out, r)
		}
	}
	return out
}
func (m *Model) Stream(n string) []Rec { return m.Sel(func(r Rec) bool { return r.Stream == n }) }

// Names used by the driver. The nasty ones hold separators and encoded numbers.
var plainStreams = []string{"a!1", "a!2", "b!1", "c!1"}
var nastyStreams = []string{"a!1", "a!1$!", "", "a!1$!\x00\x00\x00\x00\x00\x00\x00\x01", "$", "a", "!", "a!1$", "\x00", "a!1$!\x00\x00\x00\x00\x00\x00\x00\x01$!", "é", "$s$a!1", "a!10"}
var plainTypes = []string{"a", "b", "c"}
var nastyTypes = []string{"a", "a$!", "a$", "a$!\x00\x00\x00\x00\x00\x00\x00\x01", "$", "ab", "a$!$!", "all"}

// Driver runs one history.
type Driver struct {
	h       *vh.H
	prop    string
	e, twin *Env
	m       Model
	streams []string
	types   []string
	rng     *rand.Rand
	hist    []string
	tick    int64
	stop    bool
	used    map[string]bool
	gsnMax  uint64
	sub     *subLog
}

func (d *Driver) fail(props, what, format string, a ...any) {
	d.h.T.Helper()
	d.stop = true
	if strings.Contains(props, d.prop) {
		hist := d.hist
		if len(hist) > 60 {
			hist = hist[len(hist)-60:]
		}
		d.h.Fail(d.e.Kind+": "+what, strings.Join(hist, "; "), format, a...)
	}
}

func diff(want, got []Rec) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) {
			return fmt.Sprintf("one too many at %d: %+v", i, got[i])
		}
		if i >= len(got) {
			return fmt.Sprintf("missing at %d: %+v", i, want[i])
		}
		if want[i] != got[i] {
			return fmt.Sprintf("at %d: want %+v, got %+v", i, want[i], got[i])
		}
	}
	return ""
}

var hangs int

// guarded runs a store operation and reports a hang or a panic.
func (d *Driver) guarded(props, what string, f func()) bool {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			d.fail(props, what+": panic", "%v", r)
			return false
		}
	case <-time.After(8 * time.Second):
		hangs++
		d.fail(props+" P08", what+": does not return", "no result after 8 s")
		return false
	}
	return true
}

func from(rs []Rec, f func(Rec) bool) []Rec {
	var out []Rec
	for _, r := range rs {
		if f(r) {
			out = append(out, r)
		}
	}
	return out
}

// CheckViews compares every view with the model.
func (d *Driver) CheckViews(props string, deep bool) {
	if d.stop {
		return
	}
	ctx := context.Background()
	s := d.e.Store
	d.guarded(props, "reading every view", func() {
		got, err := Read(s.Events(ctx, 0))
		if err != nil {
			d.fail(props+" P05 P06", "read of all events failed", "%v", err)
			return
		}
		if x := diff(d.m.Log, got); x != "" {
			d.fail(props+" P05 P06", "all events differ from the events saved", "%s", x)
			return
		}
		total := 0
		for _, n := range d.streams {
			want := d.m.Stream(n)
			total += len(want)
			got, err := Read(s.EventsByStream(ctx, 0, n))
			if len(want) == 0 {
				if !errors.Is(err, rangedb.ErrStreamNotFound) || len(got) != 0 {
					d.fail(props+" P05 P04 P07", fmt.Sprintf("reading the stream %q that has no events", n), "records %v, error %v", got, err)
					return
				}
			} else if err != nil {
				d.fail(props+" P05 P06 P07", fmt.Sprintf("read of stream %q failed", n), "%v", err)
				return
			}
			if x := diff(want, got); x != "" {
				d.fail(props+" P05 P06 P07", fmt.Sprintf("stream %q", n), "%s", x)
				return
			}
			tot, err := s.TotalEventsInStream(ctx, n)
			if err != nil || tot != uint64(len(want)) {
				d.fail(props+" P06", fmt.Sprintf("total of stream %q", n), "%d (%v), but %d events are readable", tot, err, len(want))
				return
			}
		}
		for _, t := range d.types {
			want := d.m.Sel(func(r Rec) bool { return r.Type == t })
			got, err := Read(s.EventsByAggregateTypes(ctx, 0, t))
			if err != nil {
				d.fail(props+" P05 P06 P07", fmt.Sprintf("read of type %q failed", t), "%v", err)
				return
			}
			if x := diff(want, got); x != "" {
				d.fail(props+" P05 P06 P07", fmt.Sprintf("type %q", t), "%s", x)
				return
			}
		}
		if !deep {
			return
		}
		starts := []uint64{1, d.m.LastGSN, d.m.LastGSN + 1, math.MaxUint64, 255, 256}
		if d.m.LastGSN > 0 {
			starts = append(starts, 1+uint64(d.rng.Int63n(int64(d.m.LastGSN))), 1+uint64(d.rng.Int63n(int64(d.m.LastGSN))))
		}
		for _, n := range starts {
			want := from(d.m.Log, func(r Rec) bool { return r.GSN >= n })
			got, err := Read(s.Events(ctx, n))
			if x := diff(want, got); x != "" || err != nil {
				d.fail(props+" P05", fmt.Sprintf("all events from %d", n), "%s %v", x, err)
				return
			}
			var ts []string
			set := map[string]bool{}
			for i := d.rng.Intn(4); i > 0; i-- {
				t := d.types[d.rng.Intn(len(d.types))]
				ts = append(ts, t)
				set[t] = true
			}
			want = from(d.m.Log, func(r Rec) bool { return r.GSN >= n && set[r.Type] })
			got, err = Read(s.EventsByAggregateTypes(ctx, n, ts...))
			if x := diff(want, got); x != "" || err != nil {
				d.fail(props+" P05 P06", fmt.Sprintf("events of types %q from %d", ts, n), "%s %v", x, err)
				return
			}
			sn := d.streams[d.rng.Intn(len(d.streams))]
			all := d.m.Stream(sn)
			for _, k := range []uint64{1, 2, uint64(len(all)), uint64(len(all)) + 1, n} {
				want = from(all, func(r Rec) bool { return r.SSN >= k })
				got, err = Read(s.EventsByStream(ctx, k, sn))
				if len(all) == 0 {
					if !errors.Is(err, rangedb.ErrStreamNotFound) {
						d.fail(props+" P05", fmt.Sprintf("reading the stream %q that has no events from %d", sn, k), "error %v", err)
						return
					}
				} else if err != nil {
					d.fail(props+" P05", fmt.Sprintf("reading the stream %q from %d", sn, k), "error %v", err)
					return
				}
				if x := diff(want, got); x != "" {
					d.fail(props+" P05", fmt.Sprintf("stream %q from %d", sn, k), "%s", x)
					return
				}
			}
		}
	})
}

// CheckInterrupted looks at reads that are cancelled or meet an unreadable record.
func (d *Driver) CheckInterrupted() {
	if d.stop || len(d.m.Log) == 0 {
		return
	}
	s := d.e.Store
	type view struct {
		name string
		open func(ctx context.Context) rangedb.RecordIterator
		want []Rec
	}
	sn := d.m.Log[d.rng.Intn(len(d.m.Log))].Stream
	t1, t2 := d.types[d.rng.Intn(len(d.types))], d.types[d.rng.Intn(len(d.types))]
	views := []view{
		{"all events", func(c context.Context) rangedb.RecordIterator { return s.Events(c, 0) }, d.m.Log},
		{fmt.Sprintf("stream %q", sn), func(c context.Context) rangedb.RecordIterator { return s.EventsByStream(c, 0, sn) }, d.m.Stream(sn)},
		{fmt.Sprintf("type %q", t1), func(c context.Context) rangedb.RecordIterator { return s.EventsByAggregateTypes(c, 0, t1) }, d.m.Sel(func(r Rec) bool { return r.Type == t1 })},
		{fmt.Sprintf("types %q %q", t1, t2), func(c context.Context) rangedb.RecordIterator { return s.EventsByAggregateTypes(c, 0, t1, t2) }, d.m.Sel(func(r Rec) bool { return r.Type == t1 || r.Type == t2 })},
	}
	for _, v := range views {
		v := v
		d.guarded("P05", "interrupted reads of "+v.name, func() {
			for _, k := range []int{0, 1, len(v.want) / 2} {
				if k > len(v.want) || (k == 0 && len(v.want) == 0) {
					continue
				}
				ctx, cancel := context.WithCancel(context.Background())
				if k == 0 {
					cancel()
				}
				it := v.open(ctx)
				var got []Rec
				for len(got) < k && it.Next() {
					got = append(got, FromRecord(it.Record()))
				}
				cancel()
				rest, err := Read(it)
				got = append(got, rest...)
				if len(got) > len(v.want) || diff(v.want[:len(got)], got) != "" {
					d.fail("P05", fmt.Sprintf("%s cancelled after %d", v.name, k), "skipped or invented: %s", diff(v.want, got))
					return
				}
				if k == 0 && len(got) > 0 {
					d.fail("P05", fmt.Sprintf("%s with a cancelled context", v.name), "%d records", len(got))
					return
				}
				if len(got) < len(v.want) && !errors.Is(err, context.Canceled) {
					d.fail("P05", fmt.Sprintf("%s cancelled after %d", v.name, k), "%d of %d records, error %v", len(got), len(v.want), err)
					return
				}
			}
			if len(v.want) > 0 {
				bad := v.want[d.rng.Intn(len(v.want))].GSN
				d.e.Ser.SetBad(bad, true)
				got, err := Read(v.open(context.Background()))
				d.e.Ser.SetBad(bad, false)
				if err == nil {
					d.fail("P05", fmt.Sprintf("%s where record %d cannot be read", v.name, bad), "no error, %d of %d records", len(got), len(v.want))
					return
				}
				if len(got) > len(v.want) || diff(v.want[:len(got)], got) != "" || (len(got) > 0 && got[len(got)-1].GSN >= bad) {
					d.fail("P05", fmt.Sprintf("%s where record %d cannot be read", v.name, bad), "skipped or invented: %s", diff(v.want, got))
				}
			}
		})
		if d.stop {
			return
		}
	}
}

type Spec struct {
	Type, ID, EventType string
	Data, Meta          any
}

func (d *Driver) genBatch() ([]Spec, bool) {
	n := []int{0, 1, 1, 1, 2, 2, 3, 5}[d.rng.Intn(8)]
	t := d.types[d.rng.Intn(len(d.types))]
	id := []string{"1", "2", "x!y"}[d.rng.Intn(3)]
	var b []Spec
	valid := n > 0
	for i := 0; i < n; i++ {
		var meta any
		switch d.rng.Intn(3) {
		case 0:
			meta = map[string]any{"k": "v"}
		case 1:
			meta = "m"
		}
		b = append(b, Spec{t, id, fmt.Sprintf("E%d", d.rng.Intn(3)), map[string]any{"n": fmt.Sprintf("%d.%d", len(d.hist), i), "x": []any{true, nil, "<&>"}}, meta})
	}
	if n > 1 && d.rng.Intn(4) == 0 {
		k := 1 + d.rng.Intn(n-1)
		switch d.rng.Intn(4) {
		case 0:
			b[k].Type = b[k].Type + "z"
		case 1:
			b[k].ID = b[k].ID + "z"
		case 2:
			b[k].Data = make(chan int)
		case 3:
			b[k].Meta = func() {}
		}
		valid = false
	} else if n > 0 && d.rng.Intn(12) == 0 {
		b[n-1].Data = make(chan int)
		valid = false
	}
	return b, valid
}

func toEvents(b []Spec) []*rangedb.EventRecord {
	var out []*rangedb.EventRecord
	for _, s := range b {
		out = append(out, &rangedb.EventRecord{Event: rangedb.NewRawEvent(s.Type, s.ID, s.EventType, s.Data), Metadata: s.Meta})
	}
	return out
}

type rawMsg = any

// Save runs one save, valid or not, and compares.
func (d *Driver) Save() {
	stream := d.streams[d.rng.Intn(len(d.streams))]
	batch, valid := d.genBatch()
	cur := uint64(len(d.m.Stream(stream)))
	optimistic := d.rng.Intn(2) == 0
	expected := cur
	if optimistic && d.rng.Intn(3) == 0 {
		expected = []uint64{0, cur + 1, cur - 1, 1, math.MaxUint64}[d.rng.Intn(5)]
	}
	var ctx context.Context = context.Background()
	var cctx *Ctx
	ctxs := "live"
	switch d.rng.Intn(8) {
	case 0:
		cctx = NewCtx(0)
	case 1:
		cctx = NewCtx(d.rng.Intn(len(batch) + 2))
	}
	if cctx != nil {
		ctx = cctx
		ctxs = fmt.Sprintf("cancelled from look %d on", cctx.left)
	}
	failSer := 0
	if len(batch) > 0 && d.rng.Intn(10) == 0 {
		failSer = 1 + d.rng.Intn(len(batch))
	}
	d.tick++
	d.e.Clock.Set(1000 + d.tick)
	op := fmt.Sprintf("save %q %s ctx %s serializer fails at %d", stream, batchString(batch), ctxs, failSer)
	if optimistic {
		op = fmt.Sprintf("%s expecting %d (is %d)", op, expected, cur)
	}
	d.hist = append(d.hist, op)
	d.e.Ser.FailAt(failSer)
	var n uint64
	var err error
	ok := d.guarded("P01 P02 P03 P08", "save", func() {
		if optimistic {
			n, err = d.e.Store.OptimisticSave(ctx, expected, stream, toEvents(batch)...)
		} else {
			n, err = d.e.Store.Save(ctx, stream, toEvents(batch)...)
		}
	})
	d.e.Ser.FailAt(0)
	if !ok {
		return
	}
	d.h.Case("%s %s %q %v", d.e.Kind, op, d.hist, d.tick)
	mismatch := optimistic && expected != cur
	if err == nil {
		switch {
		case mismatch:
			d.fail("P03", "a save stating a version that is not the current one was carried out", "returned %d", n)
			return
		case !valid || failSer > 0:
			d.fail("P02", "an invalid save was reported successful", "returned %d", n)
			return
		case cctx != nil && cctx.Fired() && ctxs == "cancelled from look 0 on":
			d.fail("P02", "a save with a cancelled context was reported successful", "returned %d", n)
			return
		}
	} else {
		if valid && !mismatch && failSer == 0 && cctx == nil {
			d.fail("P01 P02 P03", "a valid save was refused", "%v", err)
			return
		}
		if mismatch && valid && failSer == 0 && cctx == nil {
			var u *rangedberror.UnexpectedSequenceNumber
			if !errors.As(err, &u) || u.Expected != expected || u.ActualSequenceNumber != cur {
				d.fail("P03", "the error of a refused version", "%#v, want expected %d actual %d", err, expected, cur)
				return
			}
		}
		if !mismatch && optimistic {
			var u *rangedberror.UnexpectedSequenceNumber
			if errors.As(err, &u) {
				d.fail("P03", "a save stating the current version was refused for its version", "%v", err)
				return
			}
		}
		props := "P02"
		if mismatch {
			props = "P02 P03"
		}
		d.CheckViews(props, false)
		return
	}
	// success: learn numbers, check them
	if n != cur+uint64(len(batch)) {
		d.fail("P01", "the number a save returned", "%d, want %d", n, cur+uint64(len(batch)))
		return
	}
	prev := d.gsnMax
	var got []Rec
	var rerr error
	if !d.guarded("P01", "reading after a save", func() { got, rerr = Read(d.e.Store.EventsByStream(context.Background(), cur+1, stream)) }) {
		return
	}
	if rerr != nil || len(got) != len(batch) {
		d.fail("P01 P02 P05 P06", "events readable after a successful save", "%d of %d, %v", len(got), len(batch), rerr)
		return
	}
	for i, r := range got {
		b := batch[i]
		if r.SSN != cur+1+uint64(i) {
			d.fail("P01", "stream sequence number", "event %d of the save got %d after %d events", i, r.SSN, cur)
			return
		}
		if r.GSN <= prev {
			d.fail("P01 P04", "global sequence number", "event %d of the save got %d, but %d was handed out before", i, r.GSN, prev)
			return
		}
		prev = r.GSN
		if d.used[r.EventID] || r.EventID == "" {
			d.fail("P05", "event ID", "%q given to two events", r.EventID)
			return
		}
		d.used[r.EventID] = true
		want := Rec{stream, b.Type, b.ID, b.EventType, cur + 1 + uint64(i), r.GSN, uint64(1000 + d.tick), r.EventID, canon(b.Data), canon(b.Meta)}
		if r != want {
			d.fail("P05 P01 P06", "content of a saved event", "saved %+v, read %+v", want, r)
			return
		}
		d.m.Log = append(d.m.Log, want)
	}
	d.gsnMax, d.m.LastGSN = prev, prev
	if d.twin != nil {
		d.twin.Clock.Set(1000 + d.tick)
		tn, terr := d.twin.Store.Save(context.Background(), stream, toEvents(batch)...)
		tr, _ := Read(d.twin.Store.EventsByStream(context.Background(), cur+1, stream))
		if terr != nil || tn != n || len(tr) != len(got) {
			d.fail("P02", "a store that never saw the failed operations answers differently", "%d %v, %d records", tn, terr, len(tr))
			return
		}
		for i := range tr {
			if tr[i].GSN != got[i].GSN || tr[i].SSN != got[i].SSN {
				d.fail("P02", "a store that never saw the failed operations numbers differently", "%d/%d here, %d/%d there", got[i].GSN, got[i].SSN, tr[i].GSN, tr[i].SSN)
				return
			}
		}
	}
	d.CheckViews("P02 P01", false)
}

func batchString(b []Spec) string {
	var x []string
	for _, s := range b {
		x = append(x, fmt.Sprintf("{%q %q %s %T %T}", s.Type, s.ID, s.EventType, s.Data, s.Meta))
	}
	return "[" + strings.Join(x, " ") + "]"
}

// Delete runs one stream deletion.
func (d *Driver) Delete() {
	stream := d.streams[d.rng.Intn(len(d.streams))]
	cur := uint64(len(d.m.Stream(stream)))
	expected := cur
	if d.rng.Intn(3) == 0 {
		expected = []uint64{0, cur + 1, cur - 1, 1, math.MaxUint64}[d.rng.Intn(5)]
	}
	var ctx context.Context = context.Background()
	cancelled := d.rng.Intn(8) == 0
	if cancelled {
		ctx = NewCtx(0)
	}
	d.hist = append(d.hist, fmt.Sprintf("delete %q expecting %d (is %d) cancelled %v", stream, expected, cur, cancelled))
	var err error
	if !d.guarded("P03 P04", "delete", func() { err = d.e.Store.OptimisticDeleteStream(ctx, expected, stream) }) {
		return
	}
	d.h.Case("%s %q", d.e.Kind, d.hist)
	switch {
	case cancelled:
		if err == nil {
			d.fail("P04 P03", "a deletion with a cancelled context was carried out", "no error")
			return
		}
	case cur == 0:
		if !errors.Is(err, rangedb.ErrStreamNotFound) {
			d.fail("P04", "deleting a stream that does not exist", "error %v", err)
			return
		}
	case expected != cur:
		var u *rangedberror.UnexpectedSequenceNumber
		if !errors.As(err, &u) || u.Expected != expected || u.ActualSequenceNumber != cur {
			d.fail("P03", "the error of a refused deletion", "%#v, want expected %d actual %d", err, expected, cur)
			return
		}
	default:
		if err != nil {
			d.fail("P03 P04", "a valid deletion was refused", "%v", err)
			return
		}
		d.m.Log = d.m.Sel(func(r Rec) bool { return r.Stream != stream })
		if d.twin != nil {
			_ = d.twin.Store.OptimisticDeleteStream(context.Background(), expected, stream)
		}
	}
	d.CheckViews("P04 P03", false)
}

func (d *Driver) Reopen() {
	if d.e.reopen == nil || d.sub != nil {
		return
	}
	d.hist = append(d.hist, "reopen")
	if d.guarded("P07", "reopen", func() { d.e.reopen() }) {
		d.CheckViews("P07", true)
	}
}

// Histories runs random histories of every kind of store for one property.
func Histories(h *vh.H, prop string, kinds []string, n, length int, nasty bool) {
	for i := 0; i < n; i++ {
		for _, k := range kinds {
			if h.T.Failed() || hangs > 3 {
				return
			}
			d := &Driver{h: h, prop: prop, e: Open(h, k), rng: rand.New(rand.NewSource(h.Seed*1000003 + int64(i))), used: map[string]bool{}}
			d.streams, d.types = plainStreams, plainTypes
			if nasty && i%2 == 0 {
				d.streams, d.types = nastyStreams, nastyTypes
			}
			if prop == "P02" {
				d.twin = Open(h, k)
			}
			if prop == "P09" {
				d.subscribe()
			}
			for j := 0; j < length && !d.stop; j++ {
				switch x := d.rng.Intn(20); {
				case x < 14:
					d.Save()
				case x < 18:
					d.Delete()
				case x < 19:
					if prop == "P05" || prop == "P08" {
						d.CheckInterrupted()
					}
					d.CheckViews("", true)
				default:
					if prop == "P07" || d.rng.Intn(4) == 0 {
						d.Reopen()
					}
				}
				if d.sub != nil {
					d.checkSub()
				}
			}
			if !d.stop {
				d.CheckViews(prop, true)
				if prop == "P05" {
					d.CheckInterrupted()
				}
			}
			if d.sub != nil {
				d.sub.stop()
			}
			if !d.stop {
				d.e.Close()
			}
			if d.twin != nil {
				d.twin.Close()
			}
		}
	}
}

// subLog collects what a live subscription was given.
type subLog struct {
	mu   sync.Mutex
	got  map[string][]Rec
	want map[string][]Rec
	seen map[uint64]bool
	subs []rangedb.RecordSubscription
}

func (s *subLog) stop() {
	for _, x := range s.subs {
		x.Stop()
	}
}

func (d *Driver) subscribe() {
	s := &subLog{got: map[string][]Rec{}, want: map[string][]Rec{}, seen: map[uint64]bool{}}
	d.sub = s
	acc := func(key string) rangedb.RecordSubscriberFunc {
		return func(r *rangedb.Record) {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.got[key] = append(s.got[key], FromRecord(r))
		}
	}
	ctx := context.Background()
	all := d.e.Store.AllEventsSubscription(ctx, 1000, acc(""))
	s.subs = append(s.subs, all)
	for _, t := range d.types {
		s.subs = append(s.subs, d.e.Store.AggregateTypesSubscription(ctx, 1000, acc("t"+t), t))
	}
	for _, x := range s.subs {
		if err := x.Start(); err != nil {
			d.fail("P09", "starting a subscription", "%v", err)
		}
	}
}

func (d *Driver) checkSub() {
	if d.stop {
		return
	}
	s := d.sub
	for _, r := range d.m.Log {
		if !s.seen[r.GSN] {
			s.seen[r.GSN] = true
			s.want[""] = append(s.want[""], r)
			s.want["t"+r.Type] = append(s.want["t"+r.Type], r)
		}
	}
	complete := func() bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		for k, w := range s.want {
			if len(s.got[k]) < len(w) {
				return false
			}
		}
		return true
	}
	for i := 0; i < 4000 && !complete(); i++ {
		time.Sleep(time.Millisecond)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for k, w := range s.want {
		if x := diff(w, s.got[k]); x != "" {
			d.fail("P09", fmt.Sprintf("events announced to subscription %q", k), "%s", x)
			return
		}
	}
	for k, g := range s.got {
		if len(g) > len(s.want[k]) {
			d.fail("P09", fmt.Sprintf("events announced to subscription %q", k), "%s", diff(s.want[k], g))
			return
		}
	}
}

var _ = testing.Short
