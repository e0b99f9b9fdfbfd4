//go:build go1.22

package p25

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"log"
	"reflect"
	"testing"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/cqrs"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/verifharness/vh"
)

type event struct {
	Typ, ID string
	N       int
}

func (e *event) AggregateType() string { return e.Typ }
func (e *event) AggregateID() string   { return e.ID }
func (e *event) EventType() string     { return "E" }

type command struct{ typ, aggType, id string }

func (c command) CommandType() string   { return c.typ }
func (c command) AggregateType() string { return c.aggType }
func (c command) AggregateID() string   { return c.id }

// store records every call and fails the saves it is told to fail.
type store struct {
	rangedb.Store
	log  []string
	fail map[int]bool
	n    int
}

func (s *store) Save(ctx context.Context, streamName string, rs ...*rangedb.EventRecord) (uint64, error) {
	s.n++
	for _, r := range rs {
		s.log = append(s.log, fmt.Sprintf("save %s %d %v", streamName, r.Event.(*event).N, r.Metadata))
	}
	if len(rs) == 0 {
		s.log = append(s.log, "save nothing")
	}
	if s.fail[s.n] {
		return 0, errors.New("refused")
	}
	return s.Store.Save(ctx, streamName, rs...)
}

func (s *store) OptimisticSave(ctx context.Context, n uint64, streamName string, rs ...*rangedb.EventRecord) (uint64, error) {
	s.log = append(s.log, "optimistic save "+streamName)
	return s.Store.OptimisticSave(ctx, n, streamName, rs...)
}

func (s *store) EventsByStream(ctx context.Context, n uint64, streamName string) rangedb.RecordIterator {
	s.log = append(s.log, fmt.Sprintf("read %d %s", n, streamName))
	return s.Store.EventsByStream(ctx, n, streamName)
}

func (s *store) Events(ctx context.Context, n uint64) rangedb.RecordIterator {
	s.log = append(s.log, "read all")
	return s.Store.Events(ctx, n)
}

func (s *store) EventsByAggregateTypes(ctx context.Context, n uint64, t ...string) rangedb.RecordIterator {
	s.log = append(s.log, "read types")
	return s.Store.EventsByAggregateTypes(ctx, n, t...)
}

type aggregate struct {
	name   string
	types  []string
	out    []rangedb.Event
	st     *store
	loaded []int
}

func (a *aggregate) CommandTypes() []string { return a.types }
func (a *aggregate) Load(it rangedb.RecordIterator) {
	a.loaded = nil
	a.st.log = append(a.st.log, "load "+a.name)
	for it.Next() {
		a.loaded = append(a.loaded, it.Record().Data.(*event).N)
	}
}
func (a *aggregate) Handle(c cqrs.Command) []rangedb.Event {
	a.st.log = append(a.st.log, fmt.Sprintf("handle %s %s %s after %v", a.name, c.CommandType(), rangedb.GetEventStream(c), a.loaded))
	return a.out
}

func TestDispatch(t *testing.T) {
	h := vh.New(t, "random dispatch histories: 2 aggregates with overlapping command types, up to 5 events per command in mixed streams, any subset of saves failing, with and without a logger; the log of store and aggregate calls and the returned events against the model; non-trivial: at least one command")
	streams := [][2]string{{"a", "1"}, {"a", "2"}, {"b", "1"}, {"b", "x!y"}, {"", ""}}
	for i := 0; i < h.N(6000, 60000); i++ {
		s := &store{Store: inmemorystore.New(), fail: map[int]bool{}}
		s.Store.Bind(&event{})
		a1 := &aggregate{name: "A", types: []string{"c1", "c2"}, st: s}
		a2 := &aggregate{name: "B", types: []string{"c2", "c3"}, st: s}
		reg := map[string]*aggregate{"c1": a1, "c2": a2, "c3": a2}
		var buf bytes.Buffer
		opts := []cqrs.Option{cqrs.WithAggregates(a1, a2)}
		if h.Rng.Intn(3) == 0 {
			opts = []cqrs.Option{cqrs.WithAggregates(a1), cqrs.WithAggregates(a2)}
		}
		if h.Rng.Intn(2) == 0 {
			opts = append(opts, cqrs.WithLogger(log.New(&buf, "", 0)))
		}
		d := cqrs.New(s, opts...)
		content := map[string][]int{}
		n, saves := 0, 0
		desc := ""
		for j := 0; j < 1+h.Rng.Intn(4); j++ {
			st := streams[h.Rng.Intn(len(streams))]
			cmd := command{fmt.Sprint("c", 1+h.Rng.Intn(4)), st[0], st[1]}
			var out []rangedb.Event
			for k := h.Rng.Intn(6); k > 0; k-- {
				es := streams[h.Rng.Intn(len(streams))]
				n++
				out = append(out, &event{es[0], es[1], n})
			}
			var want []rangedb.Event
			var wlog []string
			s.log = nil
			if a := reg[cmd.typ]; a != nil {
				a.out = out
				own := rangedb.GetStream(st[0], st[1])
				wlog = append(wlog, "read 0 "+own, "load "+a.name, fmt.Sprintf("handle %s %s %s after %v", a.name, cmd.typ, own, content[own]))
				for _, e := range out {
					saves++
					s.fail[saves] = h.Rng.Intn(4) == 0
					es := rangedb.GetEventStream(e)
					wlog = append(wlog, fmt.Sprintf("save %s %d <nil>", es, e.(*event).N))
					if !s.fail[saves] {
						want = append(want, e)
						content[es] = append(content[es], e.(*event).N)
					}
				}
			}
			desc += fmt.Sprintf("%v -> %v; ", cmd, wlog)
			h.Guard("dispatch", desc, func() {
				got := d.Dispatch(cmd)
				if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
					h.Fail("wrong events returned", desc, "got %v want %v", ns(got), ns(want))
				}
				if !reflect.DeepEqual(s.log, wlog) && len(s.log)+len(wlog) > 0 {
					h.Fail("wrong store and aggregate calls", desc, "got %q want %q", s.log, wlog)
				}
				for k := range got {
					if got[k] != want[k] {
						h.Fail("another event object returned", desc, "position %d", k)
					}
				}
			})
		}
		for name, w := range content {
			var got []int
			it := s.Store.EventsByStream(context.Background(), 0, name)
			for it.Next() {
				got = append(got, it.Record().Data.(*event).N)
			}
			if !reflect.DeepEqual(got, w) {
				h.Fail("stream content after dispatch", desc, "%s: got %v want %v", name, got, w)
			}
		}
		h.Case("%s", desc)
	}
}

func ns(es []rangedb.Event) []int {
	var l []int
	for _, e := range es {
		l = append(l, e.(*event).N)
	}
	return l
}
