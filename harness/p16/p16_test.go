//go:build go1.22

package p16

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/encryptedstore"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/verifharness/stores"
	"github.com/inklabs/rangedb/verifharness/vh"
)

type secret struct{ ID, Text string }

func (secret) AggregateType() string { return "s" }
func (e secret) AggregateID() string { return e.ID }
func (secret) EventType() string     { return "Secret" }

type plain struct{ ID, Text string }

func (plain) AggregateType() string { return "s" }
func (e plain) AggregateID() string { return e.ID }
func (plain) EventType() string     { return "Plain" }

// enc encrypts by adding a layer; decrypting removes exactly one.
type enc struct {
	mu      sync.Mutex
	failEnc int // fail at this encryption from now
	failDec map[string]bool
}

func (x *enc) Encrypt(e rangedb.Event) error {
	x.mu.Lock()
	defer x.mu.Unlock()
	s, ok := e.(*secret)
	if !ok {
		return nil
	}
	if x.failEnc > 0 {
		if x.failEnc--; x.failEnc == 0 {
			return errors.New("cannot encrypt")
		}
	}
	s.Text = "<" + s.Text + ">"
	return nil
}

func (x *enc) Decrypt(e rangedb.Event) error {
	x.mu.Lock()
	defer x.mu.Unlock()
	s, ok := e.(*secret)
	if !ok {
		return nil
	}
	if x.failDec[s.Text] {
		return errDec
	}
	if !strings.HasPrefix(s.Text, "<") || !strings.HasSuffix(s.Text, ">") {
		return errors.New("not encrypted")
	}
	s.Text = s.Text[1 : len(s.Text)-1]
	return nil
}

var errDec = errors.New("cannot decrypt")

func text(r *rangedb.Record) string {
	if r == nil {
		return "no record"
	}
	switch e := r.Data.(type) {
	case *secret:
		return "secret " + e.Text
	case *plain:
		return "plain " + e.Text
	}
	return fmt.Sprintf("raw %v", r.Data)
}

type faulty struct {
	rangedb.Store
	fail error
}

func (f *faulty) Save(c context.Context, s string, r ...*rangedb.EventRecord) (uint64, error) {
	if f.fail != nil {
		return 77, f.fail
	}
	return f.Store.Save(c, s, r...)
}
func (f *faulty) OptimisticSave(c context.Context, n uint64, s string, r ...*rangedb.EventRecord) (uint64, error) {
	if f.fail != nil {
		return 77, f.fail
	}
	return f.Store.OptimisticSave(c, n, s, r...)
}

func TestHistories(t *testing.T) {
	h := vh.New(t, "random saves of batches of protected and other events through the encrypting store over the in-memory store, with failing encryption, a failing parent, wrong versions; all reads twice per record; subscriptions; a case is one operation")
	ctx := context.Background()
	for i := 0; i < h.N(60, 600); i++ {
		par := &faulty{Store: inmemorystore.New(inmemorystore.WithSerializer(jsonrecordserializer.New()))}
		x := &enc{}
		s := encryptedstore.New(par, x)
		s.Bind(&secret{}, &plain{})
		var want []string // text of every stored event, in order
		var hist []string
		var mu sync.Mutex
		got := map[string][]string{}
		acc := func(k string) rangedb.RecordSubscriberFunc {
			return func(r *rangedb.Record) { mu.Lock(); got[k] = append(got[k], text(r)); mu.Unlock() }
		}
		all := s.AllEventsSubscription(ctx, 1000, acc("all"))
		typ := s.AggregateTypesSubscription(ctx, 1000, acc("type"), "s")
		if err := all.Start(); err != nil {
			h.Fail("start", i, "%v", err)
		}
		if err := typ.StartFrom(1); err != nil {
			h.Fail("start", i, "%v", err)
		}
		for op := 0; op < 8; op++ {
			var batch []*rangedb.EventRecord
			var before, texts []string
			n := 1 + h.Rng.Intn(4)
			for k := 0; k < n; k++ {
				tx := fmt.Sprintf("%d.%d.%d", i, op, k)
				var e rangedb.Event
				switch h.Rng.Intn(4) {
				case 0:
					e = &plain{"1", tx}
					texts = append(texts, "plain "+tx)
				case 1:
					e = rangedb.NewRawEvent("s", "1", "Raw", tx)
					texts = append(texts, "raw "+tx)
				default:
					e = &secret{"1", tx}
					texts = append(texts, "secret "+tx)
				}
				batch = append(batch, &rangedb.EventRecord{Event: e, Metadata: k})
				before = append(before, fmt.Sprintf("%+v", e))
			}
			x.failEnc, par.fail = 0, nil
			mode := h.Rng.Intn(6)
			switch mode {
			case 0:
				x.failEnc = 1 + h.Rng.Intn(n)
			case 1:
				par.fail = errors.New("down")
			case 2:
				batch[n-1].Metadata = make(chan int)
			}
			var err error
			var num uint64
			opt := h.Rng.Intn(2) == 0
			version := uint64(len(want))
			if opt && mode == 3 {
				version++
			}
			if opt {
				num, err = s.OptimisticSave(ctx, version, "s!1", batch...)
			} else {
				num, err = s.Save(ctx, "s!1", batch...)
			}
			failedEnc := mode == 0 && x.failEnc == 0
			hist = append(hist, fmt.Sprintf("save %v mode %d optimistic %v", texts, mode, opt))
			x.failEnc, par.fail = 0, nil
			h.Case("%d %v", i, hist)
			shouldFail := failedEnc || mode == 1 || mode == 2 || (opt && mode == 3)
			if shouldFail != (err != nil) {
				h.Fail("save", hist, "error %v", err)
			}
			if err != nil {
				if num != 0 {
					h.Fail("save", hist, "number %d with an error", num)
				}
				for k := range batch {
					if after := fmt.Sprintf("%+v", batch[k].Event); after != before[k] {
						h.Fail("a failing save leaves the caller's events", hist, "event %d was %s and is %s", k, before[k], after)
					}
				}
				if mode == 1 && err.Error() != "down" {
					h.Fail("the parent's error", hist, "%v", err)
				}
			} else {
				want = append(want, texts...)
				if num != uint64(len(want)) {
					h.Fail("number of a save", hist, "%d, want %d", num, len(want))
				}
			}
			// the parent holds only encrypted fields
			it := par.Store.Events(ctx, 0)
			k := 0
			for it.Next() {
				w := want[k]
				if strings.HasPrefix(w, "secret ") {
					w = "secret <" + w[7:] + ">"
				}
				if g := text(it.Record()); g != w {
					h.Fail("content of the store behind", hist, "event %d is %q, want %q", k, g, w)
				}
				k++
			}
			if k != len(want) {
				h.Fail("content of the store behind", hist, "%d events, want %d", k, len(want))
			}
			from := uint64(1 + h.Rng.Intn(3))
			for name, open := range map[string]func() rangedb.RecordIterator{
				"all":    func() rangedb.RecordIterator { return s.Events(ctx, from) },
				"type":   func() rangedb.RecordIterator { return s.EventsByAggregateTypes(ctx, from, "s", "other") },
				"stream": func() rangedb.RecordIterator { return s.EventsByStream(ctx, from, "s!1") },
			} {
				it := open()
				var rd []string
				for (len(rd)%2 == 0 && it.Next()) || (len(rd)%2 == 1 && it.NextContext(ctx)) {
					if it.Err() != nil {
						h.Fail("read "+name, hist, "%v", it.Err())
					}
					a, b := text(it.Record()), text(it.Record())
					if a != b {
						h.Fail("asking twice for a record", hist, "%q then %q", a, b)
					}
					rd = append(rd, a)
				}
				var w []string
				if int(from-1) < len(want) {
					w = want[from-1:]
				}
				if fmt.Sprint(rd) != fmt.Sprint(w) {
					h.Fail(fmt.Sprintf("read %s from %d", name, from), hist, "%v, want %v", rd, w)
				}
				if it.Record() != nil {
					h.Fail("a record after the end", hist, "%v", it.Record())
				}
				if err := it.Err(); err != nil && !(len(want) == 0 && errors.Is(err, rangedb.ErrStreamNotFound)) {
					h.Fail("error after the end", hist, "%v", err)
				}
			}
			if n, err := s.TotalEventsInStream(ctx, "s!1"); err != nil || n != uint64(len(want)) {
				h.Fail("total", hist, "%d %v", n, err)
			}
		}
		for k := 0; k < 3000; k++ {
			mu.Lock()
			ok := len(got["all"]) >= len(want) && len(got["type"]) >= len(want)
			mu.Unlock()
			if ok {
				break
			}
			time.Sleep(time.Millisecond)
		}
		mu.Lock()
		for _, k := range []string{"all", "type"} {
			if len(want)+len(got[k]) > 0 && !reflect.DeepEqual(got[k], want) {
				h.Fail("subscription "+k, hist, "%v, want %v", got[k], want)
			}
		}
		mu.Unlock()
		all.Stop()
		typ.Stop()
		// an event that cannot be decrypted
		for k, w := range want {
			if strings.HasPrefix(w, "secret ") {
				x.failDec = map[string]bool{"<" + w[7:] + ">": true}
				it := s.Events(ctx, 0)
				n := 0
				for it.Next() && it.Err() == nil {
					if text(it.Record()) != want[n] {
						h.Fail("read before an undecryptable event", hist, "%q, want %q", text(it.Record()), want[n])
					}
					n++
				}
				if n != k || !errors.Is(it.Err(), errDec) || it.Next() || it.Record() != nil || !errors.Is(it.Err(), errDec) {
					h.Fail("read with an undecryptable event", hist, "%d records of %d, error %v", n, k, it.Err())
				}
				for par.Store != nil {
					// release the parent's read
					break
				}
				break
			}
		}
	}
}

type recorder struct {
	rangedb.Store
	log  []string
	fail error
}

func (r *recorder) note(f string, a ...any) { r.log = append(r.log, fmt.Sprintf(f, a...)) }
func (r *recorder) Bind(e ...rangedb.Event) { r.note("bind %v", e[0]) }
func (r *recorder) Events(c context.Context, n uint64) rangedb.RecordIterator {
	r.note("events %v %d", c.Value(1), n)
	return rangedb.NewRecordIteratorWithError(r.fail)
}
func (r *recorder) EventsByAggregateTypes(c context.Context, n uint64, t ...string) rangedb.RecordIterator {
	r.note("types %v %d %q", c.Value(1), n, t)
	return rangedb.NewRecordIteratorWithError(r.fail)
}
func (r *recorder) EventsByStream(c context.Context, n uint64, s string) rangedb.RecordIterator {
	r.note("stream %v %d %q", c.Value(1), n, s)
	return rangedb.NewRecordIteratorWithError(r.fail)
}
func (r *recorder) OptimisticDeleteStream(c context.Context, n uint64, s string) error {
	r.note("delete %v %d %q", c.Value(1), n, s)
	return r.fail
}
func (r *recorder) OptimisticSave(c context.Context, n uint64, s string, e ...*rangedb.EventRecord) (uint64, error) {
	r.note("optimistic %v %d %q %d", c.Value(1), n, s, len(e))
	return 5, r.fail
}
func (r *recorder) Save(c context.Context, s string, e ...*rangedb.EventRecord) (uint64, error) {
	r.note("save %v %q %d", c.Value(1), s, len(e))
	return 6, r.fail
}
func (r *recorder) AllEventsSubscription(c context.Context, n int, s rangedb.RecordSubscriber) rangedb.RecordSubscription {
	r.note("all %v %d", c.Value(1), n)
	return nil
}
func (r *recorder) AggregateTypesSubscription(c context.Context, n int, s rangedb.RecordSubscriber, t ...string) rangedb.RecordSubscription {
	r.note("sub %v %d %q", c.Value(1), n, t)
	return nil
}
func (r *recorder) TotalEventsInStream(c context.Context, s string) (uint64, error) {
	r.note("total %v %q", c.Value(1), s)
	return 9, r.fail
}

func TestPassThrough(t *testing.T) {
	h := vh.New(t, "every operation with recognisable arguments over a recording parent that fails or not; a case is one call")
	ctx := context.WithValue(context.Background(), 1, "ctx")
	for _, fail := range []error{nil, errors.New("down"), rangedb.ErrStreamNotFound, context.Canceled} {
		r := &recorder{fail: fail}
		s := encryptedstore.New(r, &enc{})
		var res []string
		ev := func() *rangedb.EventRecord { return &rangedb.EventRecord{Event: &secret{"1", "x"}} }
		num := func(n uint64, err error) {
			if err != fail || (err == nil && n == 0) {
				h.Fail("result", r.log, "%d %v", n, err)
			}
			if err == nil {
				res = append(res, fmt.Sprint(n))
			}
		}
		s.Bind(&plain{"b", ""})
		for _, it := range []rangedb.RecordIterator{s.Events(ctx, 3), s.EventsByAggregateTypes(ctx, 4, "a", "b"), s.EventsByStream(ctx, 5, "st")} {
			if it.Next() || it.Err() != fail || it.Record() != nil {
				h.Fail("error of a read", r.log, "%v", it.Err())
			}
		}
		if err := s.OptimisticDeleteStream(ctx, 6, "st"); err != fail {
			h.Fail("delete", r.log, "%v", err)
		}
		num(s.OptimisticSave(ctx, 7, "st", ev(), ev()))
		num(s.Save(ctx, "st", ev(), ev(), ev()))
		s.AllEventsSubscription(ctx, 8, nil)
		s.AggregateTypesSubscription(ctx, 9, nil, "a", "b")
		num(s.TotalEventsInStream(ctx, "st"))
		want := `[bind ` + fmt.Sprint(&plain{"b", ""}) + ` events ctx 3 types ctx 4 ["a" "b"] stream ctx 5 "st" delete ctx 6 "st" optimistic ctx 7 "st" 2 save ctx "st" 3 all ctx 8 sub ctx 9 ["a" "b"] total ctx "st"]`
		h.Case("%v", fail)
		if fmt.Sprint(r.log) != want {
			h.Fail("operations passed through", fail, "%v, want %s", r.log, want)
		}
		if fail == nil && fmt.Sprint(res) != "[5 6 9]" {
			h.Fail("results passed through", fail, "%v", res)
		}
	}
}

var _ = stores.Kinds
