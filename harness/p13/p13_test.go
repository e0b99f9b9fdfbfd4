//go:build go1.22

package p13

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/broadcast"
	"github.com/inklabs/rangedb/pkg/clock/provider/sequentialclock"
	"github.com/inklabs/rangedb/pkg/recordsubscriber"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/rangedbtest"
	"github.com/inklabs/rangedb/verifharness/vh"
)

// source is a store and a broadcaster under the test's control: records are appended and announced at chosen moments.
type source struct {
	mu        sync.Mutex
	all       []uint64
	pending   []uint64
	sub       broadcast.RecordSubscriber
	subs      int
	unsubs    int
	reads     int
	readErr   map[int]int // read number -> after how many records it fails
	onRead    func(read int)
	onEndRead func(read int)
	onSub     func(before bool)
}

var errRead = errors.New("read failure")
var errConsume = errors.New("consume failure")

func rec(g uint64) *rangedb.Record { return &rangedb.Record{GlobalSequenceNumber: g, AggregateType: "A"} }

func (s *source) add(announceLate bool) {
	s.mu.Lock()
	g := uint64(1)
	if len(s.all) > 0 {
		g = s.all[len(s.all)-1] + 1 + uint64(len(s.all)%2)
	}
	s.all = append(s.all, g)
	s.pending = append(s.pending, g)
	s.mu.Unlock()
	if !announceLate {
		s.flush()
	}
}

// flush announces what is pending to the subscriber, if there is one.
func (s *source) flush() {
	s.mu.Lock()
	p, sub := s.pending, s.sub
	s.pending = nil
	s.mu.Unlock()
	if sub != nil {
		for _, g := range p {
			sub.Receiver() <- rec(g)
		}
	}
}

func (s *source) GetRecords(from uint64) rangedb.RecordIterator {
	s.reads++
	read := s.reads
	if s.onRead != nil {
		s.onRead(read)
	}
	s.mu.Lock()
	var sel []uint64
	for _, g := range s.all {
		if g >= from {
			sel = append(sel, g)
		}
	}
	s.mu.Unlock()
	ch := make(chan rangedb.ResultRecord, len(sel)+2)
	failAt, fails := s.readErr[read]
	for i, g := range sel {
		if fails && i == failAt {
			break
		}
		ch <- rangedb.ResultRecord{Record: rec(g)}
	}
	if fails {
		ch <- rangedb.ResultRecord{Err: errRead}
	}
	close(ch)
	return &iter{rangedb.NewRecordIterator(ch), s, read, false}
}

type iter struct {
	rangedb.RecordIterator
	s     *source
	read  int
	ended bool
}

func (i *iter) Next() bool {
	ok := i.RecordIterator.Next()
	if !ok && !i.ended {
		i.ended = true
		if i.s.onEndRead != nil {
			i.s.onEndRead(i.read)
		}
	}
	return ok
}

func (s *source) Subscribe(sub broadcast.RecordSubscriber) {
	if s.onSub != nil {
		s.onSub(true)
	}
	s.mu.Lock()
	s.sub = sub
	s.subs++
	s.mu.Unlock()
	if s.onSub != nil {
		s.onSub(false)
	}
}

func (s *source) Unsubscribe(broadcast.RecordSubscriber) {
	s.mu.Lock()
	s.sub = nil
	s.unsubs++
	s.mu.Unlock()
}

func wait(h *vh.H, what string, in any, c <-chan struct{}) {
	select {
	case <-c:
	case <-time.After(20 * time.Second):
		h.Fail(what, in, "the subscription never reported that it is done")
	}
}

// TestHandOver inserts saves at every moment of the hand-over.
func TestHandOver(t *testing.T) {
	h := vh.New(t, "0-6 stored records (with gaps), every starting position up to beyond the end, a save with prompt or late announcement at each of 7 moments of the hand-over (all subsets), then live saves; a case is one subscription")
	for stored := 0; stored <= 6; stored++ {
		for from := uint64(0); from <= 12; from++ {
			masks := []int{}
			for m := 0; m < 128; m++ {
				if h.Thorough || m < 2 || h.Rng.Intn(5) == 0 {
					masks = append(masks, m)
				}
			}
			for _, mask := range masks {
				late := h.Rng.Intn(2) == 0
				in := fmt.Sprintf("stored %d, start from %d, moments %07b, late announcements %v", stored, from, mask, late)
				s := &source{}
				for k := 0; k < stored; k++ {
					s.add(true)
				}
				if h.Rng.Intn(2) == 0 {
					s.pending = nil // already announced; otherwise still on its way
				}
				at := func(i int) {
					if mask&(1<<i) != 0 {
						s.add(late)
					}
				}
				s.onRead = func(r int) {
					if r == 1 {
						at(0)
					} else {
						at(4)
					}
				}
				s.onEndRead = func(r int) {
					if r == 1 {
						at(1)
					} else {
						at(5)
					}
				}
				s.onSub = func(before bool) {
					if before {
						at(2)
					} else {
						at(3)
					}
				}
				var mu sync.Mutex
				var got []uint64
				first := true
				ctx, cancel := context.WithCancel(context.Background())
				sub := recordsubscriber.New(recordsubscriber.Config{BufferSize: 64, Ctx: ctx, GetRecords: s.GetRecords, Subscribe: s.Subscribe, Unsubscribe: s.Unsubscribe,
					ConsumeRecord: func(r *rangedb.Record) error {
						mu.Lock()
						got = append(got, r.GlobalSequenceNumber)
						f := first
						first = false
						mu.Unlock()
						if f && s.subs == 0 {
							at(6)
						}
						return nil
					}})
				h.Within("starting", in, 20*time.Second, func() {
					if err := sub.StartFrom(from); err != nil {
						h.Fail("starting", in, "%v", err)
					}
				})
				s.flush()
				s.add(false)
				s.add(true)
				s.flush()
				var want []uint64
				s.mu.Lock()
				for _, g := range s.all {
					if g >= from {
						want = append(want, g)
					}
				}
				s.mu.Unlock()
				for w := 0; w < 4000; w++ {
					mu.Lock()
					n := len(got)
					mu.Unlock()
					if n >= len(want) {
						break
					}
					time.Sleep(time.Millisecond)
				}
				// a repeated announcement is not delivered again
				if len(s.all) > 0 {
					s.sub.Receiver() <- rec(s.all[len(s.all)-1])
					s.sub.Receiver() <- rec(s.all[0])
				}
				for w := 0; len(sub.Receiver()) > 0 && w < 4000; w++ {
					time.Sleep(200 * time.Microsecond)
				}
				if mask%4 == 0 {
					cancel()
				} else {
					sub.Stop()
				}
				wait(h, "stopping", in, sub.Done())
				cancel()
				h.Case("%s", in)
				mu.Lock()
				if fmt.Sprint(got) != fmt.Sprint(want) {
					h.Fail("deliveries", in, "stored and announced %v; delivered %v, want %v", s.all, got, want)
				}
				mu.Unlock()
				if s.unsubs != 1 {
					h.Fail("stopping", in, "unsubscribed %d times", s.unsubs)
				}
			}
		}
	}
}

// TestFailures makes the k-th record of either read, or the k-th delivery, fail.
func TestFailures(t *testing.T) {
	h := vh.New(t, "a read error after 0-4 records of the first or second read, a consumer error at each delivery of the replay, the second read and the live phase; a case is one subscription")
	for read := 1; read <= 2; read++ {
		for k := 0; k <= 4; k++ {
			in := fmt.Sprintf("read %d fails after %d records", read, k)
			s := &source{readErr: map[int]int{read: k}}
			for i := 0; i < 5; i++ {
				s.add(true)
			}
			s.onSub = func(before bool) {
				for i := 0; before && i < 5; i++ {
					s.add(true)
				}
			}
			var got []uint64
			sub := recordsubscriber.New(recordsubscriber.Config{BufferSize: 64, Ctx: context.Background(), GetRecords: s.GetRecords, Subscribe: s.Subscribe, Unsubscribe: s.Unsubscribe,
				ConsumeRecord: func(r *rangedb.Record) error { got = append(got, r.GlobalSequenceNumber); return nil }})
			var err error
			h.Within("starting", in, 20*time.Second, func() { err = sub.StartFrom(0) })
			h.Case("%s", in)
			if !errors.Is(err, errRead) {
				h.Fail("read error", in, "StartFrom returned %v", err)
			}
			if want := k + 5*(read-1); len(got) != want {
				h.Fail("read error", in, "delivered %v, want %d records", got, want)
			}
			if s.subs != s.unsubs {
				h.Fail("read error", in, "subscribed %d times, unsubscribed %d times", s.subs, s.unsubs)
			}
			n := len(got)
			s.flush()
			if len(got) != n {
				h.Fail("read error", in, "delivered after the error")
			}
		}
	}
	for k := 1; k <= 12; k++ {
		in := fmt.Sprintf("consumer fails at delivery %d of 4 stored, 4 at the hand-over and 4 live", k)
		s := &source{}
		for i := 0; i < 4; i++ {
			s.add(true)
		}
		s.onSub = func(before bool) {
			for i := 0; before && i < 4; i++ {
				s.add(true)
			}
		}
		var mu sync.Mutex
		var got []uint64
		sub := recordsubscriber.New(recordsubscriber.Config{BufferSize: 64, Ctx: context.Background(), GetRecords: s.GetRecords, Subscribe: s.Subscribe, Unsubscribe: s.Unsubscribe,
			ConsumeRecord: func(r *rangedb.Record) error {
				mu.Lock()
				defer mu.Unlock()
				got = append(got, r.GlobalSequenceNumber)
				if len(got) == k {
					return errConsume
				}
				return nil
			}})
		var err error
		h.Within("starting", in, 20*time.Second, func() { err = sub.StartFrom(0) })
		h.Case("%s", in)
		if (k <= 8) != errors.Is(err, errConsume) {
			h.Fail("consumer error", in, "StartFrom returned %v", err)
		}
		rcv := sub.Receiver()
		for i := 0; i < 4; i++ {
			s.add(true)
		}
		s.flush()
		if k > 8 {
			wait(h, "consumer error in the live phase", in, sub.Done())
		}
		rcv <- rec(1000)
		time.Sleep(time.Millisecond)
		mu.Lock()
		if len(got) != k {
			h.Fail("consumer error", in, "%d deliveries", len(got))
		}
		mu.Unlock()
		if s.subs != s.unsubs {
			h.Fail("consumer error", in, "subscribed %d times, unsubscribed %d times", s.subs, s.unsubs)
		}
	}
}

// TestStop stops a subscription during each delivery and between deliveries.
func TestStop(t *testing.T) {
	h := vh.New(t, "Stop or cancellation from within each of 12 deliveries (replay, hand-over, live with more buffered), when idle, before and after starting, through Start and StartFrom; a case is one subscription")
	for _, viaCtx := range []bool{false, true} {
		for k := 1; k <= 12; k++ {
			in := fmt.Sprintf("stopped within delivery %d of 4 stored, 4 at the hand-over and 4 live; by the context: %v", k, viaCtx)
			s := &source{}
			for i := 0; i < 4; i++ {
				s.add(true)
			}
			s.onSub = func(before bool) {
				for i := 0; before && i < 4; i++ {
					s.add(true)
				}
			}
			s.onEndRead = func(r int) {
				for i := 0; r == 2 && i < 4; i++ {
					s.add(false)
				}
			}
			ctx, cancel := context.WithCancel(context.Background())
			var mu sync.Mutex
			var got []uint64
			var stop func()
			sub := recordsubscriber.New(recordsubscriber.Config{BufferSize: 64, Ctx: ctx, GetRecords: s.GetRecords, Subscribe: s.Subscribe, Unsubscribe: s.Unsubscribe,
				ConsumeRecord: func(r *rangedb.Record) error {
					mu.Lock()
					defer mu.Unlock()
					got = append(got, r.GlobalSequenceNumber)
					if len(got) == k {
						stop()
					}
					return nil
				}})
			stop = sub.Stop
			if viaCtx {
				stop = cancel
			}
			var err error
			h.Within("starting", in, 20*time.Second, func() { err = sub.StartFrom(0) })
			h.Case("%s", in)
			if err == nil {
				wait(h, "stopping", in, sub.Done())
			}
			time.Sleep(500 * time.Microsecond)
			mu.Lock()
			if len(got) != k {
				h.Fail("stopping", in, "delivered %v after the stop", got[k:])
			}
			mu.Unlock()
			if s.subs != s.unsubs {
				h.Fail("stopping", in, "subscribed %d times, unsubscribed %d times", s.subs, s.unsubs)
			}
			cancel()
		}
	}
	for n := 0; n < h.N(300, 3000); n++ {
		in := fmt.Sprintf("idle subscription, variant %d", n%4)
		s := &source{}
		var mu sync.Mutex
		var got []uint64
		ctx, cancel := context.WithCancel(context.Background())
		sub := recordsubscriber.New(recordsubscriber.Config{BufferSize: 8, Ctx: ctx, GetRecords: s.GetRecords, Subscribe: s.Subscribe, Unsubscribe: s.Unsubscribe,
			ConsumeRecord: func(r *rangedb.Record) error {
				mu.Lock()
				got = append(got, r.GlobalSequenceNumber)
				mu.Unlock()
				return nil
			}})
		var err error
		if n%2 == 0 {
			s.add(true)
			s.pending = nil
			err = sub.Start()
		} else {
			err = sub.StartFrom(0)
		}
		if err != nil {
			h.Fail("starting", in, "%v", err)
		}
		s.add(false)
		for w := 0; w < 5000; w++ {
			mu.Lock()
			l := len(got)
			mu.Unlock()
			if l > 0 {
				break
			}
			time.Sleep(100 * time.Microsecond)
		}
		if n%4 < 2 {
			sub.Stop()
		} else {
			cancel()
		}
		for i := 0; i < 4; i++ {
			sub.Receiver() <- rec(uint64(50 + i))
		}
		wait(h, "stopping", in, sub.Done())
		sub.Stop()
		cancel()
		h.Case("%s %d", in, n)
		mu.Lock()
		if len(got) != 1 || got[0] != s.all[len(s.all)-1] {
			h.Fail("live subscription", in, "delivered %v of %v", got, s.all)
		}
		mu.Unlock()
		if s.subs != 1 || s.unsubs != 1 {
			h.Fail("stopping", in, "subscribed %d times, unsubscribed %d times", s.subs, s.unsubs)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	s := &source{}
	sub := recordsubscriber.New(recordsubscriber.Config{BufferSize: 8, Ctx: ctx, GetRecords: s.GetRecords, Subscribe: s.Subscribe, Unsubscribe: s.Unsubscribe,
		ConsumeRecord: func(r *rangedb.Record) error { return nil }})
	if err := sub.Start(); err == nil || s.subs != s.unsubs {
		h.Fail("starting a cancelled subscription", "", "%v, subscribed %d times", err, s.subs-s.unsubs)
	}
}

// TestStore runs subscriptions of the in-memory store and a real broadcaster against concurrent saves.
func TestStore(t *testing.T) {
	h := vh.New(t, "subscriptions to all events and to types, started at random positions while 3 goroutines save 40 batches each and streams are deleted; a case is one subscription compared with the log")
	for n := 0; n < h.N(12, 100); n++ {
		store := inmemorystore.New(inmemorystore.WithClock(sequentialclock.New()))
		rangedbtest.BindEvents(store)
		ctx, cancel := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		for w := 0; w < 3; w++ {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 40; k++ {
					var e []*rangedb.EventRecord
					for j := 0; j <= k%3; j++ {
						if w == 0 {
							e = append(e, &rangedb.EventRecord{Event: rangedbtest.AnotherWasComplete{ID: fmt.Sprint(k % 4)}})
						} else {
							e = append(e, &rangedb.EventRecord{Event: rangedbtest.ThingWasDone{ID: fmt.Sprint(w, k%4), Number: k}})
						}
					}
					_, _ = store.Save(ctx, fmt.Sprintf("s%d-%d", w, k%4), e...)
				}
			}()
		}
		type running struct {
			from  uint64
			types []string
			c     *collect
			s     rangedb.RecordSubscription
		}
		var subs []*running
		for i := 0; i < 8; i++ {
			r := &running{from: uint64(h.Rng.Intn(120)), c: &collect{}}
			if i%2 == 0 {
				r.s = store.AllEventsSubscription(ctx, 400, r.c)
			} else {
				r.types = []string{"thing"}
				if i%4 == 3 {
					r.types = []string{"thing", "another"}
				}
				r.s = store.AggregateTypesSubscription(ctx, 400, r.c, r.types...)
			}
			if err := r.s.StartFrom(r.from); err != nil {
				h.Fail("starting", fmt.Sprint(r.from, r.types), "%v", err)
			}
			subs = append(subs, r)
			time.Sleep(time.Duration(h.Rng.Intn(400)) * time.Microsecond)
		}
		wg.Wait()
		for _, r := range subs {
			var want []uint64
			var it rangedb.RecordIterator
			if r.types == nil {
				it = store.Events(ctx, r.from)
			} else {
				it = store.EventsByAggregateTypes(ctx, r.from, r.types...)
			}
			for it.Next() {
				want = append(want, it.Record().GlobalSequenceNumber)
			}
			for w := 0; w < 5000 && r.c.n() < len(want); w++ {
				time.Sleep(time.Millisecond)
			}
			h.Case("%d %d %v", n, r.from, r.types)
			if fmt.Sprint(r.c.get()) != fmt.Sprint(want) {
				h.Fail("subscription against the log", fmt.Sprint("from ", r.from, " types ", r.types), "delivered %v, want %v", r.c.get(), want)
			}
			r.s.Stop()
		}
		cancel()
	}
}

type collect struct {
	mu sync.Mutex
	g  []uint64
}

func (c *collect) Accept(r *rangedb.Record) {
	c.mu.Lock()
	c.g = append(c.g, r.GlobalSequenceNumber)
	c.mu.Unlock()
}
func (c *collect) n() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.g) }
func (c *collect) get() []uint64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]uint64{}, c.g...)
}
