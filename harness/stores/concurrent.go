//go:build go1.22

package stores

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/verifharness/vh"
)

func ev(t, id string, n int) *rangedb.EventRecord {
	return &rangedb.EventRecord{Event: rangedb.NewRawEvent(t, id, "E", n)}
}

// Race lets several writers state the same version at once.
func Race(h *vh.H, kind string, rounds, writers int) {
	e := Open(h, kind)
	defer e.Close()
	ctx := context.Background()
	cur := uint64(0)
	for r := 0; r < rounds; r++ {
		in := fmt.Sprintf("%s: %d writers state version %d at once (round %d)", kind, writers, cur, r)
		h.Case("%s", in)
		deleting := r%3 == 2
		var wins, dels int32
		var bad atomic.Value
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < writers; w++ {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				var err error
				var n uint64
				if deleting && w%2 == 0 {
					err = e.Store.OptimisticDeleteStream(ctx, cur, "thing!1")
					if err == nil {
						atomic.AddInt32(&dels, 1)
						return
					}
				} else {
					n, err = e.Store.OptimisticSave(ctx, cur, "thing!1", ev("thing", "1", r), ev("thing", "1", w))
					if err == nil {
						if n != cur+2 {
							bad.Store(fmt.Sprintf("returned %d", n))
						}
						atomic.AddInt32(&wins, 1)
						return
					}
				}
				var u *rangedberror.UnexpectedSequenceNumber
				if errors.As(err, &u) {
					if u.Expected != cur || u.ActualSequenceNumber == cur {
						bad.Store(fmt.Sprintf("refused with %+v", *u))
					}
				} else if !(deleting && errors.Is(err, rangedb.ErrStreamNotFound)) {
					bad.Store(err.Error())
				}
			}()
		}
		h.Within("concurrent optimistic writers", in, 30*time.Second, func() { close(start); wg.Wait() })
		if b := bad.Load(); b != nil {
			h.Fail("concurrent optimistic writers", in, "%v", b)
		}
		if wins+dels > 1 && !(cur == 0) || wins > 1 || (wins+dels == 0) {
			h.Fail("concurrent optimistic writers", in, "%d saves and %d deletions succeeded", wins, dels)
		}
		got, err := Read(e.Store.Events(ctx, 0))
		want := uint64(0)
		switch {
		case wins == 1:
			want = cur + 2
		}
		if err != nil || uint64(len(got)) != want {
			h.Fail("concurrent optimistic writers", in, "%d events afterwards, want %d (%v)", len(got), want, err)
		}
		for i, x := range got {
			if x.SSN != uint64(i)+1 {
				h.Fail("concurrent optimistic writers", in, "event %d has number %d", i, x.SSN)
			}
		}
		cur = want
	}
}

// Snapshots reads while others write, delete and fail.
func Snapshots(h *vh.H, kind string, dur time.Duration) {
	e := Open(h, kind)
	ctx := context.Background()
	s := e.Store
	stop := make(chan struct{})
	var wg sync.WaitGroup
	in := kind + ": one writer alternating between types a and b, one saving and deleting a stream of 5 events, one failing; four readers"
	run := func(f func(i int)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
					f(i)
				}
			}
		}()
	}
	var fail atomic.Value
	bad := func(format string, a ...any) { fail.CompareAndSwap(nil, fmt.Sprintf(format, a...)) }
	run(func(i int) {
		if i > 400 {
			time.Sleep(time.Millisecond)
			return
		}
		t := []string{"a", "b"}[i%2]
		if _, err := s.Save(ctx, t+"!1", ev(t, "1", i)); err != nil {
			bad("save: %v", err)
		}
	})
	run(func(i int) {
		var b []*rangedb.EventRecord
		for k := 0; k < 5; k++ {
			b = append(b, ev("c", "1", k))
		}
		if n, err := s.OptimisticSave(ctx, 0, "c!1", b...); err != nil || n != 5 {
			bad("save: %d %v", n, err)
		}
		if err := s.OptimisticDeleteStream(ctx, 5, "c!1"); err != nil {
			bad("delete: %v", err)
		}
	})
	run(func(i int) {
		if _, err := s.Save(ctx, "f!1", ev("f", "1", i), ev("f", "1", i), ev("f", "2", i)); err == nil {
			bad("invalid save accepted")
		}
	})
	run(func(i int) { s.Bind() })
	alternating := func(what string, rs []Rec, err error) {
		if err != nil {
			bad("%s: %v", what, err)
			return
		}
		n, c := 0, 0
		last := uint64(0)
		for _, r := range rs {
			if r.GSN <= last {
				bad("%s: out of order", what)
			}
			last = r.GSN
			switch r.Type {
			case "a", "b":
				if r.Type != []string{"a", "b"}[n%2] {
					bad("%s: after %d events the next is of type %s: events committed earlier are missing", what, n, r.Type)
				}
				n++
			case "c":
				c++
			default:
				bad("%s: event of a failed save", what)
			}
		}
		if c != 0 && c != 5 {
			bad("%s: %d of the 5 events of one save", what, c)
		}
	}
	run(func(i int) {
		h.Case("%s events %d", kind, i)
		rs, err := Read(s.Events(ctx, 0))
		alternating("all events", rs, err)
	})
	run(func(i int) {
		h.Case("%s types %d", kind, i)
		rs, err := Read(s.EventsByAggregateTypes(ctx, 0, "c", "b", "a", "f", "b"))
		alternating("four types", rs, err)
	})
	run(func(i int) {
		h.Case("%s stream %d", kind, i)
		rs, err := Read(s.EventsByStream(ctx, 0, "c!1"))
		if !(errors.Is(err, rangedb.ErrStreamNotFound) && len(rs) == 0) && !(err == nil && len(rs) == 5) {
			bad("stream of 5: %d records, %v", len(rs), err)
		}
		rs, err = Read(s.EventsByAggregateTypes(ctx, 0, "c"))
		if err != nil || len(rs) != 0 && len(rs) != 5 {
			bad("type of 5: %d records, %v", len(rs), err)
		}
	})
	run(func(i int) {
		h.Case("%s total %d", kind, i)
		n, err := s.TotalEventsInStream(ctx, "c!1")
		if err != nil || n != 0 && n != 5 {
			bad("total: %d %v", n, err)
		}
		if n, _ := s.TotalEventsInStream(ctx, "f!1"); n != 0 {
			bad("total of a stream of failed saves: %d", n)
		}
		// an interrupted read must leave the store usable
		c, cancel := context.WithCancel(ctx)
		it := s.EventsByAggregateTypes(c, 0, "a", "b")
		it.Next()
		cancel()
		for it.Next() {
		}
	})
	done := make(chan struct{})
	go func() { time.Sleep(dur); close(stop); wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(dur + 20*time.Second):
		h.Fail("concurrent operations: do not return", in, "no progress for 20 s")
	}
	if f := fail.Load(); f != nil {
		h.Fail("reads beside writers", in, "%v", f)
	}
	e.Close()
}

// Announcements lets several writers save while subscriptions listen.
func Announcements(h *vh.H, kind string, writers, each int) {
	e := Open(h, kind)
	ctx := context.Background()
	in := fmt.Sprintf("%s: %d writers, %d saves each (one in four fails), subscriptions to all events and one type", kind, writers, each)
	h.Case("%s", in)
	var mu sync.Mutex
	got := map[string][]Rec{}
	unreadable := ""
	acc := func(key string) rangedb.RecordSubscriberFunc {
		return func(r *rangedb.Record) {
			rec := FromRecord(r)
			msg := ""
			if key == "" && rec.GSN%7 == 0 {
				rs, err := Read(e.Store.EventsByStream(ctx, rec.SSN, rec.Stream))
				if err != nil || len(rs) == 0 || rs[0] != rec {
					msg = fmt.Sprintf("record %d announced but not readable: %v %v", rec.GSN, rs, err)
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if msg != "" {
				unreadable = msg
			}
			got[key] = append(got[key], rec)
		}
	}
	subs := []rangedb.RecordSubscription{
		e.Store.AllEventsSubscription(ctx, 10000, acc("")),
		e.Store.AggregateTypesSubscription(ctx, 10000, acc("t1"), "t1"),
		e.Store.AggregateTypesSubscription(ctx, 10000, acc("t0t1"), "t1", "t0"),
	}
	for _, s := range subs {
		if err := s.Start(); err != nil {
			h.Fail("start", in, "%v", err)
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < writers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := fmt.Sprintf("t%d", w)
			for i := 0; i < each; i++ {
				b := []*rangedb.EventRecord{ev(t, "1", i), ev(t, "1", -i)}
				if i%4 == 3 {
					b = append(b, ev(t, "other", i))
				}
				_, _ = e.Store.Save(ctx, t+"!1", b...)
			}
		}()
	}
	h.Within("concurrent saves", in, 60*time.Second, wg.Wait)
	all, err := Read(e.Store.Events(ctx, 0))
	if err != nil {
		h.Fail("read", in, "%v", err)
	}
	want := map[string][]Rec{"": all, "t1": from(all, func(r Rec) bool { return r.Type == "t1" }), "t0t1": from(all, func(r Rec) bool { return r.Type == "t1" || r.Type == "t0" })}
	deadline := time.Now().Add(10 * time.Second)
	for time.Now().Before(deadline) {
		mu.Lock()
		ok := len(got[""]) >= len(all) && len(got["t1"]) >= len(want["t1"]) && len(got["t0t1"]) >= len(want["t0t1"])
		mu.Unlock()
		if ok {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if unreadable != "" {
		h.Fail("announced before readable", in, "%s", unreadable)
	}
	for k, w := range want {
		if x := diff(w, got[k]); x != "" {
			h.Fail("announcements to "+k, in, "%s", x)
		}
	}
	for _, s := range subs {
		s.Stop()
	}
	e.Close()
}
