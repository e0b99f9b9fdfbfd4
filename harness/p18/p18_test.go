//go:build go1.22

package p18

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"net"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/test/bufconn"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/remotestore"
	"github.com/inklabs/rangedb/rangedbtest"
	"github.com/inklabs/rangedb/verifharness/gen"
	"github.com/inklabs/rangedb/verifharness/stores"
	"github.com/inklabs/rangedb/verifharness/vh"
)

var errPartWay = errors.New("disk failure part-way")

// faulty is the served store with a fault: reads fail after `after` records, other operations fail at once.
type faulty struct {
	rangedb.Store
	mu    sync.Mutex
	after int // -1: no fault
	calls []string
}

func (f *faulty) set(n int) { f.mu.Lock(); f.after = n; f.calls = nil; f.mu.Unlock() }
func (f *faulty) note(s string, a ...any) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.calls = append(f.calls, fmt.Sprintf(s, a...))
	return f.after
}
func (f *faulty) took() []string { f.mu.Lock(); defer f.mu.Unlock(); return f.calls }

func (f *faulty) cut(it rangedb.RecordIterator, n int) rangedb.RecordIterator {
	if n < 0 {
		return it
	}
	ch := make(chan rangedb.ResultRecord, 1000)
	for i := 0; i < n && it.Next(); i++ {
		ch <- rangedb.ResultRecord{Record: it.Record()}
	}
	for it.Next() {
	}
	ch <- rangedb.ResultRecord{Err: errPartWay}
	close(ch)
	return rangedb.NewRecordIterator(ch)
}

func (f *faulty) Events(ctx context.Context, g uint64) rangedb.RecordIterator {
	return f.cut(f.Store.Events(ctx, g), f.note("Events %d", g))
}
func (f *faulty) EventsByAggregateTypes(ctx context.Context, g uint64, t ...string) rangedb.RecordIterator {
	return f.cut(f.Store.EventsByAggregateTypes(ctx, g, t...), f.note("EventsByAggregateTypes %d %q", g, t))
}
func (f *faulty) EventsByStream(ctx context.Context, n uint64, s string) rangedb.RecordIterator {
	return f.cut(f.Store.EventsByStream(ctx, n, s), f.note("EventsByStream %d %q", n, s))
}
func (f *faulty) OptimisticDeleteStream(ctx context.Context, n uint64, s string) error {
	if f.note("OptimisticDeleteStream %d %q", n, s) >= 0 {
		return errPartWay
	}
	return f.Store.OptimisticDeleteStream(ctx, n, s)
}
func (f *faulty) OptimisticSave(ctx context.Context, n uint64, s string, e ...*rangedb.EventRecord) (uint64, error) {
	if f.note("OptimisticSave %d %q %d", n, s, len(e)) >= 0 {
		return 0, errPartWay
	}
	return f.Store.OptimisticSave(ctx, n, s, e...)
}
func (f *faulty) Save(ctx context.Context, s string, e ...*rangedb.EventRecord) (uint64, error) {
	if f.note("Save %q %d", s, len(e)) >= 0 {
		return 0, errPartWay
	}
	return f.Store.Save(ctx, s, e...)
}
func (f *faulty) TotalEventsInStream(ctx context.Context, s string) (uint64, error) {
	if f.note("TotalEventsInStream %q", s) >= 0 {
		return 0, errPartWay
	}
	return f.Store.TotalEventsInStream(ctx, s)
}

type env struct {
	direct *faulty // the twin operated directly
	served *faulty
	remote rangedb.Store
	conn   *grpc.ClientConn
	server *grpc.Server
	rdb    interface{ Stop() error }
	clocks [2]*stores.Clock
}

func newStore(c *stores.Clock) *faulty {
	s := inmemorystore.New(inmemorystore.WithClock(c), inmemorystore.WithUUIDGenerator(&stores.UUIDs{}))
	s.Bind(&gen.Bound{}, rangedbtest.ThingWasDone{})
	return &faulty{Store: s, after: -1}
}

func open(h *vh.H) *env {
	log.SetOutput(io.Discard)
	e := &env{}
	for i := range e.clocks {
		e.clocks[i] = &stores.Clock{}
		e.clocks[i].Set(1000)
	}
	e.direct, e.served = newStore(e.clocks[0]), newStore(e.clocks[1])
	srv, err := rangedbserver.New(rangedbserver.WithStore(e.served))
	if err != nil {
		h.Fail("server", "", "%v", err)
	}
	e.rdb = srv
	e.server = grpc.NewServer()
	rangedbpb.RegisterRangeDBServer(e.server, srv)
	l := bufconn.Listen(1 << 16)
	go func() { _ = e.server.Serve(l) }()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	e.conn, err = grpc.DialContext(ctx, "bufnet", grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return l.Dial() }), grpc.WithInsecure(), grpc.WithBlock())
	if err != nil {
		h.Fail("dial", "", "%v", err)
	}
	r, err := remotestore.New(e.conn)
	if err != nil {
		h.Fail("remote store", "", "%v", err)
	}
	r.Bind(&gen.Bound{}, rangedbtest.ThingWasDone{})
	e.remote = r
	return e
}

func (e *env) close() {
	_ = e.conn.Close()
	_ = e.rdb.Stop()
	e.server.Stop()
}

type ev struct {
	at, id, et string
	d          any
}

func batch(h *vh.H, mixed bool) ([]*rangedb.EventRecord, string) {
	n := 1 + h.Rng.Intn(4)
	var out []*rangedb.EventRecord
	at, id := []string{"t", "thing", "bound"}[h.Rng.Intn(3)], []string{"1", "2", "x y"}[h.Rng.Intn(3)]
	s := ""
	for i := 0; i < n; i++ {
		if mixed && i == n-1 && n > 1 {
			if h.Rng.Intn(2) == 0 {
				at = "other"
			} else {
				id = "other"
			}
		}
		d := gen.Value(h.Rng, 2, true)
		m := any(nil)
		if h.Rng.Intn(2) == 0 {
			m = gen.Value(h.Rng, 2, true)
		}
		out = append(out, &rangedb.EventRecord{Event: rangedb.NewRawEvent(at, id, "E"+gen.Word(h.Rng), d), Metadata: m})
		s += fmt.Sprintf("%s/%s %s meta %s; ", at, id, gen.Canon(d), gen.Canon(m))
	}
	return out, s
}

func sameErr(a, b error) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("remote error %v, served store %v", b, a)
	}
	if a == nil {
		return ""
	}
	var ua, ub *rangedberror.UnexpectedSequenceNumber
	if errors.As(a, &ua) {
		if !errors.As(b, &ub) || *ua != *ub {
			return fmt.Sprintf("remote error %#v, served store %#v", b, a)
		}
		return ""
	}
	if errors.Is(a, rangedb.ErrStreamNotFound) != errors.Is(b, rangedb.ErrStreamNotFound) || errors.Is(a, context.Canceled) != errors.Is(b, context.Canceled) || errors.As(b, &ub) {
		return fmt.Sprintf("remote error %v, served store %v", b, a)
	}
	if errors.Is(a, errPartWay) && !strings.Contains(b.Error(), errPartWay.Error()) {
		return fmt.Sprintf("remote error %v, served store %v", b, a)
	}
	return ""
}

func isMixed(b []*rangedb.EventRecord) bool {
	if len(b) == 0 {
		return true
	}
	for _, r := range b {
		if r.Event.AggregateType() != b[0].Event.AggregateType() || r.Event.AggregateID() != b[0].Event.AggregateID() {
			return true
		}
	}
	return false
}

// sameButID compares without event IDs, which the two stores draw separately.
func sameButID(a, b *rangedb.Record) string {
	x, y := *a, *b
	x.EventID, y.EventID = "", ""
	return gen.Same(&x, &y)
}

func readAll(h *vh.H, it rangedb.RecordIterator, in any) ([]*rangedb.Record, error) {
	var got []*rangedb.Record
	var err error
	h.Within("reading", in, 30*time.Second, func() {
		for it.Next() {
			got = append(got, it.Record())
		}
		err = it.Err()
	})
	return got, err
}

// TestOperations drives a remote store and a twin of the store it fronts with the same operations.
func TestOperations(t *testing.T) {
	h := vh.New(t, "random histories of every operation (right, wrong and extreme versions and starting numbers, empty and mixed batches, cancelled contexts, the served store failing at once or part-way through a read) on a remote store over an in-process connection and on a twin of the served store; a case is one operation compared")
	for n := 0; n < h.N(40, 400); n++ {
		e := open(h)
		var hist []string
		for k := 0; k < 30; k++ {
			stream := []string{"a", "a b", "é-1", "thing-1", ""}[h.Rng.Intn(5)]
			num := []uint64{0, 1, 2, 3, uint64(h.Rng.Intn(12)), math.MaxUint64}[h.Rng.Intn(6)]
			if cur, _ := e.direct.Store.TotalEventsInStream(context.Background(), stream); h.Rng.Intn(2) == 0 {
				num = cur
			}
			after := -1
			if h.Rng.Intn(5) == 0 {
				after = h.Rng.Intn(4)
			}
			for i := range e.clocks {
				e.clocks[i].Set(int64(3000 + 10*k))
			}
			e.direct.set(after)
			e.served.set(after)
			ctx, cancel := context.WithCancel(context.Background())
			cancelled := h.Rng.Intn(12) == 0
			if cancelled {
				cancel()
			}
			op := h.Rng.Intn(8)
			in := ""
			var l1, l2 uint64
			var e1, e2 error
			var r1, r2 []*rangedb.Record
			b, bs := batch(h, h.Rng.Intn(8) == 0)
			if h.Rng.Intn(15) == 0 {
				b, bs = nil, "no events"
			}
			types := [][]string{{"t"}, {"t", "thing"}, {}, {"none"}, {"bound", "t", "thing"}}[h.Rng.Intn(5)]
			run := func(s rangedb.Store) (l uint64, r []*rangedb.Record, err error) {
				h.Within("operation", &hist, 40*time.Second, func() {
					switch op {
					case 0, 1:
						l, err = s.Save(ctx, stream, b...)
					case 2, 3:
						l, err = s.OptimisticSave(ctx, num, stream, b...)
					case 4:
						err = s.OptimisticDeleteStream(ctx, num, stream)
					case 5:
						l, err = s.TotalEventsInStream(ctx, stream)
					}
				})
				switch {
				case op == 6 && k%2 == 0:
					r, err = readAll(h, s.Events(ctx, num), hist)
				case op == 6:
					r, err = readAll(h, s.EventsByAggregateTypes(ctx, num, types...), hist)
				case op == 7:
					r, err = readAll(h, s.EventsByStream(ctx, num, stream), hist)
				}
				return
			}
			in = fmt.Sprintf("%d: op %d stream %q number %d fault %d cancelled %v types %q: %s", k, op, stream, num, after, cancelled, types, bs)
			hist = append(hist, in)
			l1, r1, e1 = run(e.direct)
			l2, r2, e2 = run(e.remote)
			cancel()
			h.Case("%v", hist)
			if cancelled {
				if e1 != nil && e2 == nil && op != 5 {
					h.Fail("a cancelled operation", hist, "served store: %v, remote: no error", e1)
				}
			} else if op < 4 && e1 != nil && e2 != nil && isMixed(b) {
				// refused by both; which reason comes first is not the contract
			} else if d := sameErr(e1, e2); d != "" {
				h.Fail("errors", hist, "%s", d)
			} else if l1 != l2 {
				h.Fail("numbers", hist, "remote %d, served store %d", l2, l1)
			} else if len(r1) != len(r2) {
				h.Fail("events", hist, "remote %d events, served store %d", len(r2), len(r1))
			}
			for i := range r1 {
				if i < len(r2) {
					if d := sameButID(r1[i], r2[i]); d != "" {
						h.Fail("events", hist, "event %d: %s", i, d)
					}
				}
			}
			if c := e.served.took(); !cancelled && len(c) > 1 {
				h.Fail("operations performed on the served store", hist, "%v", c)
			}
			// the two stores hold the same
			e.direct.set(-1)
			e.served.set(-1)
			a, _ := readAll(h, e.direct.Events(context.Background(), 0), hist)
			c, _ := readAll(h, e.served.Events(context.Background(), 0), hist)
			if len(a) != len(c) {
				h.Fail("content of the served store", hist, "%d events, want %d", len(c), len(a))
			}
			for i := range a {
				if d := sameButID(a[i], c[i]); d != "" {
					h.Fail("content of the served store", hist, "event %d: %s", i, d)
				}
			}
			if !cancelled && k%10 == 9 {
				r, err := readAll(h, e.remote.Events(context.Background(), 0), hist)
				if err != nil || len(r) != len(c) {
					h.Fail("content read remotely", hist, "%d events and error %v, want %d", len(r), err, len(c))
				}
				for i := range r {
					if d := gen.Same(c[i], r[i]); d != "" {
						h.Fail("content read remotely", hist, "event %d: %s", i, d)
					}
				}
			}
			if cancelled {
				break
			}
		}
		e.close()
	}
}

type collect struct {
	mu sync.Mutex
	r  []*rangedb.Record
}

func (c *collect) Accept(r *rangedb.Record) { c.mu.Lock(); c.r = append(c.r, r); c.mu.Unlock() }
func (c *collect) all() []*rangedb.Record {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*rangedb.Record{}, c.r...)
}

func subscriptionGoroutines() int {
	b := make([]byte, 4<<20)
	b = b[:runtime.Stack(b, true)]
	n := 0
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "pkg/recordsubscriber.") || strings.Contains(g, "rangeDBServer).Subscribe") {
			n++
		}
	}
	return n
}

// TestSubscriptions compares what remote subscriptions deliver with the log, ends them, and looks at the server.
func TestSubscriptions(t *testing.T) {
	h := vh.New(t, "remote subscriptions to all events and to types from random positions and live-only, with saves before and after; raw wire subscriptions ended by the client; a client that stops reading; a case is one subscription")
	for n := 0; n < h.N(12, 80); n++ {
		e := open(h)
		ctx := context.Background()
		save := func(k int) {
			_, err := e.served.Save(ctx, fmt.Sprintf("s%d", k%3), &rangedb.EventRecord{Event: &rangedbtest.ThingWasDone{ID: "1", Number: k}})
			if err != nil {
				h.Fail("save", k, "%v", err)
			}
			_, _ = e.served.Save(ctx, "o", &rangedb.EventRecord{Event: rangedb.NewRawEvent("other", "1", "Other", k)})
		}
		for k := 0; k < 5; k++ {
			save(k)
		}
		// wait until the remote store's own feed is open
		probe := &collect{}
		ps := e.remote.AllEventsSubscription(ctx, 200, probe)
		if err := ps.Start(); err != nil {
			h.Fail("starting", "", "%v", err)
		}
		for w := 0; w < 1000 && len(probe.all()) == 0; w++ {
			save(w)
			time.Sleep(5 * time.Millisecond)
		}
		if len(probe.all()) == 0 {
			h.Fail("a live subscription of the remote store", "1000 saves", "nothing was delivered")
		}
		ps.Stop()
		base := 1 << 30
		for w := 0; w < 100; w++ {
			if n := subscriptionGoroutines(); n < base {
				base, w = n, 0
			}
			time.Sleep(2 * time.Millisecond)
		}
		from := uint64(h.Rng.Intn(24))
		types := [][]string{nil, {"thing"}, {"other", "thing"}}[n%3]
		in := fmt.Sprintf("from %d types %q", from, types)
		// wire subscriptions
		cctx, cancel := context.WithCancel(ctx)
		client := rangedbpb.NewRangeDBClient(e.conn)
		wire := &collect{}
		var recv func() (*rangedbpb.Record, error)
		if types == nil {
			c, err := client.SubscribeToEvents(cctx, &rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: from})
			if err != nil {
				h.Fail("wire subscription", in, "%v", err)
			}
			recv = c.Recv
		} else {
			c, err := client.SubscribeToEventsByAggregateType(cctx, &rangedbpb.SubscribeToEventsByAggregateTypeRequest{GlobalSequenceNumber: from, AggregateTypes: types})
			if err != nil {
				h.Fail("wire subscription", in, "%v", err)
			}
			recv = c.Recv
		}
		go func() {
			for {
				p, err := recv()
				if err != nil {
					return
				}
				r, err := rangedbpb.ToRecord(p, rangedb.NewEventIdentifier())
				if err == nil {
					wire.Accept(r)
				}
			}
		}()
		// a subscription of the remote store
		got, live := &collect{}, &collect{}
		var sub rangedb.RecordSubscription
		if types == nil {
			sub = e.remote.AllEventsSubscription(cctx, 200, got)
		} else {
			sub = e.remote.AggregateTypesSubscription(cctx, 200, got, types...)
		}
		liveSub := e.remote.AllEventsSubscription(cctx, 200, live)
		h.Within("starting", in, 30*time.Second, func() {
			if err := sub.StartFrom(from); err != nil {
				h.Fail("starting", in, "%v", err)
			}
			if err := liveSub.Start(); err != nil {
				h.Fail("starting", in, "%v", err)
			}
		})
		// the feed of the remote store is open once a live event arrives
		k := 5
		for w := 0; w < 400; w++ {
			if len(live.all()) > 0 {
				break
			}
			save(k)
			k++
			time.Sleep(10 * time.Millisecond)
		}
		for i := 0; i < 5; i++ {
			save(k)
			k++
			time.Sleep(2 * time.Millisecond)
		}
		var want []*rangedb.Record
		it := e.served.Events(ctx, 0)
		var all []*rangedb.Record
		for it.Next() {
			all = append(all, it.Record())
			ok := types == nil
			for _, ty := range types {
				ok = ok || ty == it.Record().AggregateType
			}
			if ok && it.Record().GlobalSequenceNumber >= from {
				want = append(want, it.Record())
			}
		}
		check := func(what string, c *collect, want []*rangedb.Record) {
			for w := 0; w < 3000 && len(c.all()) < len(want); w++ {
				time.Sleep(2 * time.Millisecond)
			}
			time.Sleep(2 * time.Millisecond)
			r := c.all()
			if len(r) != len(want) {
				h.Fail(what, in, "delivered %d events, want %d", len(r), len(want))
			}
			for i := range r {
				if d := gen.Same(want[i], r[i]); d != "" {
					h.Fail(what, in, "event %d: %s", i, d)
				}
			}
		}
		h.Case("%s %d", in, n)
		check("wire subscription", wire, want)
		check("live subscription", live, all[len(all)-len(live.all()):])
		if got := got.all(); len(got) > len(want) {
			h.Fail("subscription of the remote store", in, "delivered %d events, want %d", len(got), len(want))
		}
		check("subscription of the remote store", got, want)
		// ending them ends them on the server
		sub.Stop()
		liveSub.Stop()
		cancel()
		ok := false
		for w := 0; w < 4000 && !ok; w++ {
			ok = subscriptionGoroutines() <= base
			time.Sleep(2 * time.Millisecond)
		}
		if !ok {
			h.Fail("ended subscriptions", in, "%d goroutines still serve subscriptions, %d before", subscriptionGoroutines(), base)
		}
		save(k)
		if n%3 == 0 {
			slow(h, e, client)
		}
		_ = e.conn.Close()
		h.Within("shutting the server down", in, 30*time.Second, func() { e.server.GracefulStop() })
		_ = e.rdb.Stop()
	}
}

// slow does not read while many large events are saved: what it reads afterwards must be the log without a gap, ending
// with an error if it is not all of it.
func slow(h *vh.H, e *env, client rangedbpb.RangeDBClient) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c, err := client.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{})
	if err != nil {
		h.Fail("wire subscription", "slow", "%v", err)
	}
	first, err := c.Recv()
	if err != nil {
		h.Fail("wire subscription", "slow", "%v", err)
	}
	for k := 0; k < 120; k++ {
		if k < 60 {
			time.Sleep(time.Millisecond)
		}
		_, _ = e.served.Save(ctx, "large", &rangedb.EventRecord{Event: rangedb.NewRawEvent("large", "1", "Large", strings.Repeat("x", 20000))})
	}
	time.Sleep(700 * time.Millisecond)
	total := 0
	it := e.served.Events(ctx, 0)
	var last uint64
	for it.Next() {
		total++
		last = it.Record().GlobalSequenceNumber
	}
	prev := first.GlobalSequenceNumber
	h.Within("reading after a pause", "slow client", 30*time.Second, func() {
		for prev < last {
			p, err := c.Recv()
			if err != nil {
				return
			}
			if p.GlobalSequenceNumber != prev+1 {
				h.Fail("a client that cannot keep up", "slow client", "event %d after event %d and no error", p.GlobalSequenceNumber, prev)
			}
			prev = p.GlobalSequenceNumber
		}
	})
	h.Case("slow %d of %d", prev, last)
}
