//go:build go1.22

package p12

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/broadcast"
	"github.com/inklabs/rangedb/verifharness/vh"
)

type sub struct {
	name    string
	ch      chan *rangedb.Record
	mu      sync.Mutex
	stopped int
}

func newSub(name string, buf int) *sub { return &sub{name: name, ch: make(chan *rangedb.Record, buf)} }

func (s *sub) Receiver() broadcast.SendRecordChan { return s.ch }
func (s *sub) Stop() {
	s.mu.Lock()
	s.stopped++
	s.mu.Unlock()
}
func (s *sub) stops() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.stopped
}
func (s *sub) drain() []uint64 {
	var got []uint64
	for {
		select {
		case r := <-s.ch:
			if r == nil {
				got = append(got, 0)
				continue
			}
			got = append(got, r.GlobalSequenceNumber)
		default:
			return got
		}
	}
}

var types = []string{"A", "B", "AB", ""}

// TestDelivery drives random histories of every operation with subscribers that always have room, and compares what
// each received with the registrations at that moment.
func TestDelivery(t *testing.T) {
	h := vh.New(t, "histories of at most 40 operations (subscribe, unsubscribe, announce, with repeats and several arguments) over 4 subscribers and 4 types, buffer sizes 0-3; a case is one history prefix compared in full")
	for n := 0; n < h.N(400, 4000); n++ {
		buf := n % 4
		b := broadcast.New(buf, 5*time.Second)
		mark := newSub("mark", 200)
		idle := newSub("idle", 1)
		b.SubscribeAllEvents(mark)
		seen := 0
		subs := make([]*sub, 4)
		want := make([][]uint64, 4)
		all := map[int]bool{}
		byType := map[string]map[int]bool{}
		for i := range subs {
			subs[i] = newSub(fmt.Sprintf("s%d", i), 200)
		}
		var log []string
		barrier := func() {
			for ; seen > 0; seen-- {
				<-mark.ch
			}
			b.UnsubscribeAllEvents(idle)
		}
		gsn := uint64(0)
		body := func() {
			for k := 0; k < 5+h.Rng.Intn(36); k++ {
				i := h.Rng.Intn(4)
				ts := []string{types[h.Rng.Intn(4)]}
				if h.Rng.Intn(3) == 0 {
					ts = append(ts, types[h.Rng.Intn(4)])
				}
				switch h.Rng.Intn(8) {
				case 0:
					barrier()
					j := h.Rng.Intn(4)
					b.SubscribeAllEvents(subs[i], subs[j])
					all[i], all[j] = true, true
					log = append(log, fmt.Sprintf("suball %d %d", i, j))
				case 1:
					barrier()
					b.UnsubscribeAllEvents(subs[i])
					delete(all, i)
					log = append(log, fmt.Sprintf("unsuball %d", i))
				case 2, 3:
					barrier()
					b.SubscribeAggregateTypes(subs[i], ts...)
					for _, ty := range ts {
						if byType[ty] == nil {
							byType[ty] = map[int]bool{}
						}
						byType[ty][i] = true
					}
					log = append(log, fmt.Sprintf("sub %d %q", i, ts))
				case 4:
					barrier()
					b.UnsubscribeAggregateTypes(subs[i], ts...)
					for _, ty := range ts {
						delete(byType[ty], i)
					}
					log = append(log, fmt.Sprintf("unsub %d %q", i, ts))
				default:
					gsn++
					b.Accept(&rangedb.Record{AggregateType: ts[0], GlobalSequenceNumber: gsn})
					seen++
					log = append(log, fmt.Sprintf("announce %d %q", gsn, ts[0]))
					for j := range subs {
						if all[j] {
							want[j] = append(want[j], gsn)
						}
						if byType[ts[0]][j] {
							want[j] = append(want[j], gsn)
						}
					}
				}
			}
			barrier()
		}
		h.Within("history", &log, 20*time.Second, body)
		h.Case("%d %v", buf, log)
		in := fmt.Sprintf("buffer %d: %s", buf, strings.Join(log, "; "))
		for i, s := range subs {
			got := s.drain()
			if fmt.Sprint(got) != fmt.Sprint(want[i]) {
				h.Fail("deliveries", in, "subscriber %d received %v, want %v", i, got, want[i])
			}
			if s.stops() != 0 {
				h.Fail("a subscriber with room was stopped", in, "subscriber %d", i)
			}
		}
		b.Close()
	}
}

// TestSlow has subscribers that stop reading: each must be stopped and removed, the others must miss nothing.
func TestSlow(t *testing.T) {
	h := vh.New(t, "1-3 subscribers that stop reading after 0-2 records among 1-4 that read late but in time, registered for all events, a type, or both; a case is one run")
	var wg sync.WaitGroup
	for n := 0; n < h.N(36, 200); n++ {
		n := n
		nslow, nfast, capSlow, mode, recs := 1+n%3, 1+(n/3)%4, n%3, (n/2)%3, 6
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := broadcast.New(n%3, 400*time.Millisecond)
			defer b.Close()
			in := fmt.Sprintf("%d slow (capacity %d), %d fast, mode %d", nslow, capSlow, nfast, mode)
			reg := func(s *sub) {
				if mode != 1 {
					b.SubscribeAllEvents(s)
				}
				if mode != 0 {
					b.SubscribeAggregateTypes(s, "A")
				}
			}
			per := 1
			if mode == 2 {
				per = 2
			}
			var slow, fast []*sub
			got := make([][]uint64, nfast)
			var mu sync.Mutex
			for i := 0; i < nslow; i++ {
				slow = append(slow, newSub("slow", capSlow))
				reg(slow[i])
			}
			for i := 0; i < nfast; i++ {
				s := newSub("fast", 0)
				fast = append(fast, s)
				reg(s)
				i := i
				go func() {
					for r := range s.ch {
						mu.Lock()
						got[i] = append(got[i], r.GlobalSequenceNumber)
						mu.Unlock()
						time.Sleep(2 * time.Millisecond)
					}
				}()
			}
			var want []uint64
			for k := 1; k <= recs; k++ {
				b.Accept(&rangedb.Record{AggregateType: "A", GlobalSequenceNumber: uint64(k)})
				for p := 0; p < per; p++ {
					want = append(want, uint64(k))
				}
			}
			deadline := time.Now().Add(20 * time.Second)
			for {
				mu.Lock()
				ok := true
				for i := range got {
					ok = ok && len(got[i]) >= len(want)
				}
				mu.Unlock()
				if ok || time.Now().After(deadline) {
					break
				}
				time.Sleep(3 * time.Millisecond)
			}
			b.UnsubscribeAllEvents(newSub("idle", 0))
			h.Case("%s %d", in, n)
			mu.Lock()
			for i := range got {
				if fmt.Sprint(got[i]) != fmt.Sprint(want) {
					t.Errorf("bad")
					defer h.Fail("deliveries beside a slow subscriber", in, "fast subscriber %d received %v, want %v", i, got[i], want)
					break
				}
				if fast[i].stops() != 0 {
					t.Errorf("bad")
					defer h.Fail("a subscriber that kept up was stopped", in, "fast %d", i)
					break
				}
			}
			mu.Unlock()
			for i, s := range slow {
				if s.stops() == 0 {
					defer h.Fail("a subscriber that cannot keep up", in, "slow subscriber %d was not stopped", i)
					return
				}
				kept := s.drain()
				for k, g := range kept {
					if g != want[k] {
						defer h.Fail("records given to a slow subscriber", in, "%v", kept)
						return
					}
				}
			}
			// removed: with room again, nothing more arrives, and announcing is quick
			before := make([]int, nslow)
			for i, s := range slow {
				before[i] = s.stops()
			}
			b.Accept(&rangedb.Record{AggregateType: "A", GlobalSequenceNumber: 99})
			b.Accept(&rangedb.Record{AggregateType: "Z", GlobalSequenceNumber: 100})
			b.UnsubscribeAllEvents(newSub("idle", 0))
			time.Sleep(20 * time.Millisecond)
			b.UnsubscribeAllEvents(newSub("idle", 0))
			for i, s := range slow {
				if s.stops() != before[i] {
					defer h.Fail("a removed subscriber", in, "slow subscriber %d still held up announcements", i)
					return
				}
				if d := s.drain(); len(d) > 0 {
					defer h.Fail("a removed subscriber", in, "slow subscriber %d still received %v", i, d)
					return
				}
			}
		}()
		if n%6 == 5 {
			wg.Wait()
		}
	}
	wg.Wait()
}

// TestClose closes with records pending and with every registration present.
func TestClose(t *testing.T) {
	h := vh.New(t, "closing with subscribers of every kind registered, with and without announcements pending; then every operation again; a case is one run")
	for n := 0; n < h.N(60, 400); n++ {
		b := broadcast.New(n%5, time.Second)
		subs := []*sub{newSub("all", 64), newSub("type", 64), newSub("both", 64), newSub("gone", 64)}
		in := fmt.Sprintf("buffer %d, %d pending", n%5, n%3)
		h.Within("operations before closing", in, 10*time.Second, func() {
			b.SubscribeAllEvents(subs[0], subs[2], subs[3])
			b.SubscribeAggregateTypes(subs[1], "A", "B")
			b.SubscribeAggregateTypes(subs[2], "A")
			b.UnsubscribeAllEvents(subs[3])
			for k := 0; k < n%3; k++ {
				b.Accept(&rangedb.Record{AggregateType: "A", GlobalSequenceNumber: uint64(k + 1)})
			}
			b.Close()
		})
		for i := 0; i < 3; i++ {
			for w := 0; subs[i].stops() == 0; w++ {
				if w > 5000 {
					h.Fail("closing", in, "subscriber %s was not stopped", subs[i].name)
				}
				time.Sleep(time.Millisecond)
			}
		}
		if subs[3].stops() != 0 {
			h.Fail("closing", in, "an unsubscribed subscriber was stopped")
		}
		time.Sleep(time.Millisecond)
		for _, s := range subs {
			s.drain()
		}
		late := newSub("late", 64)
		h.Within("operations after closing", in, 10*time.Second, func() {
			for k := 0; k < 12; k++ {
				b.Accept(&rangedb.Record{AggregateType: "A", GlobalSequenceNumber: uint64(k + 10)})
			}
			b.SubscribeAllEvents(late)
			b.SubscribeAggregateTypes(late, "A")
			b.UnsubscribeAllEvents(subs[0])
			b.UnsubscribeAggregateTypes(subs[1], "A")
			b.Accept(&rangedb.Record{AggregateType: "A", GlobalSequenceNumber: 50})
		})
		time.Sleep(2 * time.Millisecond)
		h.Case("%s %d", in, n)
		for _, s := range append(subs, late) {
			if d := s.drain(); len(d) > 0 {
				h.Fail("after closing", in, "%s still received %v", s.name, d)
			}
		}
	}
}
