//go:build go1.22

package p10

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/verifharness/vh"
)

func recs(n int) []*rangedb.Record {
	var rs []*rangedb.Record
	for i := 0; i < n; i++ {
		rs = append(rs, &rangedb.Record{GlobalSequenceNumber: uint64(i + 1)})
	}
	return rs
}

// source builds a closed channel with n records and, at errAt (if within 0..n), an error item.
func source(n, errAt int, err error) chan rangedb.ResultRecord {
	ch := make(chan rangedb.ResultRecord, n+2)
	for i, r := range recs(n) {
		if i == errAt {
			ch <- rangedb.ResultRecord{Err: err}
		}
		ch <- rangedb.ResultRecord{Record: r}
	}
	if errAt == n {
		ch <- rangedb.ResultRecord{Err: err}
	}
	close(ch)
	return ch
}

func TestIterator(t *testing.T) {
	h := vh.New(t, "every source length 0..6, every error position, Next or NextContext at every step (all patterns up to length 6), three extra calls after the end; non-trivial: the source holds a record or an error")
	boom := errors.New("boom")
	for n := 0; n <= 6; n++ {
		for errAt := -1; errAt <= n; errAt++ {
			for pat := 0; pat < 1<<uint(n+1); pat++ {
				h.Case("n=%d errAt=%d pattern=%b", n, errAt, pat)
				in := fmt.Sprintf("source of %d records, error before record %d, NextContext pattern %b", n, errAt, pat)
				it := rangedb.NewRecordIterator(source(n, errAt, boom))
				want := n
				if errAt >= 0 {
					want = errAt
				}
				h.Within("iterate", in, 20*time.Second, func() {
					for i := 0; i < want+4; i++ {
						var more bool
						if pat>>uint(i)&1 == 1 {
							more = it.NextContext(context.Background())
						} else {
							more = it.Next()
						}
						if more != (i < want) {
							h.Fail("iterator yields the wrong number of records", in, "call %d returned %v", i, more)
						}
						if more {
							if it.Record() == nil || it.Record().GlobalSequenceNumber != uint64(i+1) || it.Err() != nil {
								h.Fail("iterator yields the wrong record", in, "call %d: %v %v", i, it.Record(), it.Err())
							}
							continue
						}
						if it.Record() != nil {
							h.Fail("a record is offered after the end", in, "call %d: %v", i, it.Record())
						}
						if errAt >= 0 && it.Err() != boom || errAt < 0 && it.Err() != nil {
							h.Fail("iterator reports the wrong error", in, "call %d: %v", i, it.Err())
						}
					}
				})
			}
		}
	}
	it := rangedb.NewRecordIteratorWithError(boom)
	if it.Next() || it.Err() != boom || it.Next() || it.Err() != boom {
		h.Fail("error iterator", "NewRecordIteratorWithError", "%v", it.Err())
	}
}

func TestCancelledWait(t *testing.T) {
	h := vh.New(t, "a reader waiting on an empty source is cancelled after reading k records; non-trivial: every case")
	for k := 0; k < 5; k++ {
		h.Case("cancel after %d", k)
		ch := make(chan rangedb.ResultRecord, k)
		for _, r := range recs(k) {
			ch <- rangedb.ResultRecord{Record: r}
		}
		it := rangedb.NewRecordIterator(ch)
		ctx, cancel := context.WithCancel(context.Background())
		for i := 0; i < k; i++ {
			if !it.NextContext(ctx) || it.Record().GlobalSequenceNumber != uint64(i+1) {
				h.Fail("record lost before cancellation", k, "at %d", i)
			}
		}
		time.AfterFunc(2*time.Millisecond, cancel)
		h.Within("cancelled wait", k, 20*time.Second, func() {
			if it.NextContext(ctx) || it.Record() != nil || it.Err() != context.Canceled {
				h.Fail("cancellation is not reported", k, "%v %v", it.Record(), it.Err())
			}
			if it.NextContext(ctx) || it.Next() || it.Err() != context.Canceled {
				h.Fail("iterator continues after cancellation", k, "%v", it.Err())
			}
		})
	}
}

func TestPublish(t *testing.T) {
	h := vh.New(t, "publishing to a channel with room / without room / with a late reader, context live / cancelled before / cancelled during, reader reading or not; non-trivial: every case")
	for round := 0; round < h.N(12, 100); round++ {
		for _, mode := range []string{"room", "reader", "precancel-room", "precancel-reader", "precancel-noreader", "cancel-during-reader", "cancel-during-noreader"} {
			h.Case("%s", mode)
			ctx, cancel := context.WithCancel(context.Background())
			capn := 0
			if mode == "room" || mode == "precancel-room" {
				capn = 1
			}
			ch := make(chan rangedb.ResultRecord, capn)
			rec := &rangedb.Record{GlobalSequenceNumber: 7}
			if mode[:3] == "pre" {
				cancel()
			}
			var got []rangedb.ResultRecord
			readerDone := make(chan struct{})
			stop := make(chan struct{})
			go func() {
				defer close(readerDone)
				if mode == "reader" || mode == "precancel-reader" {
					select {
					case v := <-ch:
						got = append(got, v)
					case <-stop:
					}
				}
				if mode == "cancel-during-reader" {
					time.Sleep(2 * time.Millisecond)
					cancel()
					time.Sleep(time.Millisecond)
					select {
					case v := <-ch:
						got = append(got, v)
					case <-stop:
					}
				}
				if mode == "cancel-during-noreader" {
					time.Sleep(time.Millisecond)
					cancel()
				}
			}()
			var ok bool
			h.Within("PublishRecordOrCancel", mode, 20*time.Second, func() { ok = rangedb.PublishRecordOrCancel(ctx, ch, rec, 30*time.Millisecond) })
			time.Sleep(time.Millisecond)
			close(stop)
			<-readerDone
			close(ch)
			for v := range ch {
				got = append(got, v)
			}
			switch mode {
			case "room", "reader":
				if !ok || len(got) != 1 || got[0].Record != rec || got[0].Err != nil {
					h.Fail("record not published exactly once", mode, "ok=%v %v", ok, got)
				}
			case "cancel-during-reader":
				if ok && (len(got) != 1 || got[0].Record != rec) || !ok && (len(got) > 1 || len(got) == 1 && (got[0].Record != nil || got[0].Err != context.Canceled)) {
					h.Fail("wrong result of a race with cancellation", mode, "ok=%v %v", ok, got)
				}
			default:
				if ok {
					h.Fail("publishing reports success although cancelled", mode, "%v", got)
				}
				for _, g := range got {
					if g.Record != nil || g.Err != context.Canceled {
						h.Fail("a record is published after cancellation", mode, "%v", got)
					}
				}
				if mode != "precancel-noreader" && mode != "cancel-during-noreader" && len(got) != 1 {
					h.Fail("the cancellation error does not reach a waiting reader", mode, "%v", got)
				}
			}
			cancel()
		}
	}
}

func TestReadN(t *testing.T) {
	h := vh.New(t, "every n 0..6 over every source of 0..6 records with an error at every position; checks the records, that the source is released exactly once and drained; non-trivial: a record is available")
	boom := errors.New("boom")
	for n := 0; n <= 6; n++ {
		for total := 0; total <= 6; total++ {
			for errAt := -1; errAt <= total; errAt++ {
				h.Case("n=%d total=%d errAt=%d", n, total, errAt)
				in := fmt.Sprintf("n=%d total=%d error at %d", n, total, errAt)
				released := 0
				ch := source(total, errAt, boom)
				h.Within("ReadNRecords", in, 20*time.Second, func() {
					got := rangedb.ReadNRecords(uint64(n), func() (rangedb.RecordIterator, context.CancelFunc) {
						return rangedb.NewRecordIterator(ch), func() { released++ }
					})
					want := total
					if errAt >= 0 {
						want = errAt
					}
					if n < want {
						want = n
					}
					if len(got) != want || released != 1 {
						h.Fail("bounded read returns the wrong records", in, "got %d want %d, released %d times", len(got), want, released)
					}
					for i, r := range got {
						if r.GlobalSequenceNumber != uint64(i+1) {
							h.Fail("bounded read returns the wrong records", in, "record %d is %v", i, r)
						}
					}
				})
			}
		}
	}
}
