//go:build go1.22

package p26

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/postgresstore"
	"github.com/inklabs/rangedb/verifharness/gen"
	"github.com/inklabs/rangedb/verifharness/pgfake"
	"github.com/inklabs/rangedb/verifharness/stores"
	"github.com/inklabs/rangedb/verifharness/vh"
)

type ev struct {
	AT string `json:"-"`
	ID string `json:"-"`
	ET string `json:"-"`
	D  any
}

func (e *ev) AggregateType() string { return e.AT }
func (e *ev) AggregateID() string   { return e.ID }
func (e *ev) EventType() string     { return e.ET }
func (e *ev) MarshalJSON() ([]byte, error) {
	if f, ok := e.D.(error); ok {
		return nil, f
	}
	return json.Marshal(e.D)
}

type env struct {
	h     *vh.H
	srv   *pgfake.Server
	store rangedb.Store
	clock *stores.Clock
	uuids *stores.UUIDs
}

func open(h *vh.H) *env {
	srv, err := pgfake.Start()
	if err != nil {
		h.T.Skip("no loopback network: " + err.Error())
	}
	e := &env{h: h, srv: srv, clock: &stores.Clock{}, uuids: &stores.UUIDs{}}
	e.clock.Set(1000)
	s, err := postgresstore.New(&postgresstore.Config{Host: "127.0.0.1", Port: srv.Port, User: "u", Password: "p", DBName: "d"},
		postgresstore.WithClock(e.clock), postgresstore.WithUUIDGenerator(e.uuids))
	if err != nil {
		h.T.Skip("the store cannot talk to the stand-in server: " + err.Error())
	}
	h.T.Cleanup(func() { _ = s.CloseDB(); srv.Close() })
	e.store = s
	return e
}

// supported skips the rest when the store's SQL is outside what the stand-in understands.
func (e *env) supported() {
	if e.srv.Unsupported != "" {
		e.h.T.Skip("NOTE: SQL outside the stand-in's subset: " + e.srv.Unsupported)
	}
}

type spec struct {
	e    *ev
	meta any
}

func (e *env) batch(n int, at, id string) []spec {
	var b []spec
	for i := 0; i < n; i++ {
		m := any(nil)
		if e.h.Rng.Intn(2) == 0 {
			m = gen.Value(e.h.Rng, 2, true)
		}
		b = append(b, spec{&ev{at, id, "E" + gen.Word(e.h.Rng), gen.Value(e.h.Rng, 2, true)}, m})
	}
	return b
}

func records(b []spec) []*rangedb.EventRecord {
	var r []*rangedb.EventRecord
	for _, s := range b {
		r = append(r, &rangedb.EventRecord{Event: s.e, Metadata: s.meta})
	}
	return r
}

func show(b []spec) string {
	s := ""
	for _, x := range b {
		s += fmt.Sprintf("%q/%q/%q %s meta %s; ", x.e.AT, x.e.ID, x.e.ET, gen.Canon(x.e.D), gen.Canon(x.meta))
	}
	return s
}

func (e *env) inserts() []pgfake.Stmt {
	var out []pgfake.Stmt
	for _, s := range e.srv.Log() {
		if strings.HasPrefix(strings.ToUpper(strings.TrimSpace(s.SQL)), "INSERT") {
			out = append(out, s)
		}
	}
	return out
}

var ph = regexp.MustCompile(`\$(\d+)`)

// TestBatches looks at the statements themselves.
func TestBatches(t *testing.T) {
	h := vh.New(t, "batches of 0-12, 111, 113 and 1200 events with random content, saved with and without an expected version through the real driver to a stand-in server; batches mixing types or IDs at each place, or with an event or metadata that cannot be encoded; a case is one save")
	e := open(h)
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 111, 113, 1200}
	version := map[string]uint64{}
	for n := 0; n < h.N(200, 2000); n++ {
		size := sizes[n%len(sizes)]
		if size > 12 && n > len(sizes) && !h.Thorough {
			size = 3
		}
		stream := fmt.Sprintf("s%d-%s", n%5, gen.Word(h.Rng))
		b := e.batch(size, "t"+gen.Word(h.Rng), gen.Word(h.Rng))
		in := fmt.Sprintf("stream %q at %d: %.800s", stream, version[stream], show(b))
		e.srv.Log()
		e.clock.Set(int64(2000 + n))
		before := len(e.srv.Rows())
		var last uint64
		var err error
		h.Guard("saving", in, func() {
			if n%2 == 0 {
				last, err = e.store.Save(context.Background(), stream, records(b)...)
			} else {
				last, err = e.store.OptimisticSave(context.Background(), version[stream], stream, records(b)...)
			}
		})
		e.supported()
		h.Case("%s %d", in, size)
		if err != nil {
			h.Fail("saving", in, "%v", err)
		}
		ins := e.inserts()
		args := 0
		for _, s := range ins {
			nums := map[string]int{}
			for _, m := range ph.FindAllStringSubmatch(s.SQL, -1) {
				nums[m[1]]++
			}
			for i := range s.Args {
				if nums[fmt.Sprint(i+1)] != 1 {
					h.Fail("placeholders", in, "$%d occurs %d times in %.300s", i+1, nums[fmt.Sprint(i+1)], s.SQL)
				}
			}
			if len(nums) != len(s.Args) {
				h.Fail("placeholders", in, "%d placeholders for %d arguments", len(nums), len(s.Args))
			}
			args += len(s.Args)
		}
		if args != 9*size {
			h.Fail("arguments", in, "%d arguments for %d events", args, size)
		}
		rows := e.srv.Rows()[before:]
		if len(rows) != size {
			h.Fail("rows", in, "%d rows for %d events", len(rows), size)
		}
		ids := map[string]bool{}
		for i, r := range rows {
			data, _ := json.Marshal(b[i].e)
			meta, _ := json.Marshal(b[i].meta)
			want := map[string]string{"streamname": stream, "aggregatetype": b[i].e.AT, "aggregateid": b[i].e.ID, "streamsequencenumber": fmt.Sprint(version[stream] + uint64(i) + 1),
				"inserttimestamp": fmt.Sprint(2000 + n), "eventtype": b[i].e.ET, "data": string(data), "metadata": string(meta)}
			for c, w := range want {
				if r[c] != w {
					h.Fail("rows", in, "row %d: %s is %q, want %q", i, c, r[c], w)
				}
			}
			if r["eventid"] == "" || ids[r["eventid"]] {
				h.Fail("rows", in, "row %d: event ID %q", i, r["eventid"])
			}
			ids[r["eventid"]] = true
		}
		version[stream] += uint64(size)
		if last != version[stream] {
			h.Fail("saving", in, "returned %d, want %d", last, version[stream])
		}
	}
	// refused before anything is sent
	bad := errors.New("cannot encode")
	for size := 0; size <= 5; size++ {
		for at := 0; at < size || size == 0 && at == 0; at++ {
			for mode := 0; mode < 4; mode++ {
				b := e.batch(size, "thing", "1")
				if size > 0 {
					switch mode {
					case 0:
						b[at].e.AT = "other"
					case 1:
						b[at].e.ID = "2"
					case 2:
						b[at].e.D = bad
					case 3:
						b[at].meta = make(chan int)
					}
				}
				if size == 1 && mode < 2 {
					continue
				}
				in := fmt.Sprintf("%d events, number %d broken in way %d", size, at, mode)
				before := len(e.srv.Rows())
				e.srv.Log()
				var err error
				h.Guard("saving", in, func() { _, err = e.store.Save(context.Background(), "refused", records(b)...) })
				e.supported()
				h.Case("%s", in)
				if err == nil || len(e.srv.Rows()) != before || len(e.inserts()) > 0 {
					h.Fail("a batch that must be refused", in, "error %v, %d rows added", err, len(e.srv.Rows())-before)
				}
				if e.srv.OpenTransactions() != 0 {
					h.Fail("a batch that must be refused", in, "left a transaction open")
				}
			}
		}
	}
}

type rec struct {
	stream, at, id, et, data, meta string
	gsn, ssn, ts                   uint64
}

func fromRecord(r *rangedb.Record) rec {
	return rec{r.StreamName, r.AggregateType, r.AggregateID, r.EventType, gen.Canon(r.Data), gen.Canon(r.Metadata), r.GlobalSequenceNumber, r.StreamSequenceNumber, r.InsertTimestamp}
}

// TestHistory compares the store on the stand-in server with a model.
func TestHistory(t *testing.T) {
	h := vh.New(t, "random histories of saves, optimistic saves and deletions with right and wrong versions, with statements failing at the start or part-way, each followed by every read, through the real driver to a stand-in server; a case is one operation with its reads")
	for n := 0; n < h.N(20, 200); n++ {
		e := open(h)
		var model []rec
		var announced []rec
		var mu sync.Mutex
		ctx := context.Background()
		sub := e.store.AllEventsSubscription(ctx, 1000, accept(func(r *rangedb.Record) { mu.Lock(); announced = append(announced, fromRecord(r)); mu.Unlock() }))
		if err := sub.Start(); err != nil {
			h.Fail("subscribing", "", "%v", err)
		}
		var committed []rec
		version := func(s string) uint64 {
			v := uint64(0)
			for _, r := range model {
				if r.stream == s {
					v = r.ssn
				}
			}
			return v
		}
		var log []string
		for k := 0; k < 25; k++ {
			stream := []string{"a", "a-1", "b'", "é"}[h.Rng.Intn(4)]
			v := version(stream)
			exp := v
			if h.Rng.Intn(3) == 0 {
				exp = uint64(h.Rng.Intn(5))
			}
			fault, word := "", ""
			if h.Rng.Intn(4) == 0 {
				fault = []string{"start", "rows"}[h.Rng.Intn(2)]
				word = []string{"INSERT", "SELECT", "DELETE", "COMMIT", "BEGIN"}[h.Rng.Intn(5)]
			}
			hit := false
			e.srv.FailWhen = func(sql string) string {
				if word != "" && !hit && strings.HasPrefix(strings.ToUpper(strings.TrimSpace(sql)), word) {
					hit = true
					return fault
				}
				return ""
			}
			e.clock.Set(int64(5000 + k))
			var in string
			switch op := h.Rng.Intn(6); {
			case op < 4:
				b := e.batch(1+h.Rng.Intn(4), []string{"t", "u"}[h.Rng.Intn(2)], "1")
				in = fmt.Sprintf("save %q op %d expecting %d (at %d) fault %s %s: %s", stream, op, exp, v, word, fault, show(b))
				log = append(log, in)
				var last uint64
				var err error
				h.Within("saving", log, 20*time.Second, func() {
					if op < 2 {
						last, err = e.store.Save(ctx, stream, records(b)...)
					} else {
						last, err = e.store.OptimisticSave(ctx, exp, stream, records(b)...)
					}
				})
				e.supported()
				e.srv.FailWhen = nil
				refused := op >= 2 && exp != v
				switch {
				case err == nil && (refused || hit && fault == "start"):
					h.Fail("saving", log, "succeeded")
				case err == nil && hit && word == "INSERT":
					h.Fail("saving", log, "succeeded although the insert failed part-way")
				case err == nil:
					if last != v+uint64(len(b)) {
						h.Fail("saving", log, "returned %d", last)
					}
					rows := e.srv.Rows()
					if len(rows) != len(model)+len(b) {
						h.Fail("saving", log, "%d rows stored, want %d", len(rows), len(model)+len(b))
					}
					g := rows[len(model):]
					for i, s := range b {
						var gsn uint64
						fmt.Sscan(g[i]["globalsequencenumber"], &gsn)
						r := rec{stream, s.e.AT, s.e.ID, s.e.ET, gen.Canon(s.e.D), gen.Canon(s.meta), gsn, v + uint64(i) + 1, uint64(5000 + k)}
						model = append(model, r)
						committed = append(committed, r)
					}
				case !refused && !hit:
					h.Fail("saving", log, "%v", err)
				case refused && !hit:
					var u *rangedberror.UnexpectedSequenceNumber
					if !errors.As(err, &u) || u.Expected != exp || u.ActualSequenceNumber != v {
						h.Fail("a wrong version", log, "%v", err)
					}
				}
			case op < 5:
				in = fmt.Sprintf("delete %q expecting %d (at %d) fault %s %s", stream, exp, v, word, fault)
				log = append(log, in)
				var err error
				h.Within("deleting", log, 20*time.Second, func() { err = e.store.OptimisticDeleteStream(ctx, exp, stream) })
				e.supported()
				e.srv.FailWhen = nil
				switch {
				case err == nil && (v == 0 || exp != v || hit && fault == "start"):
					h.Fail("deleting", log, "succeeded")
				case err == nil:
					var keep []rec
					for _, r := range model {
						if r.stream != stream {
							keep = append(keep, r)
						}
					}
					model = keep
				case hit:
				case v == 0:
					if !errors.Is(err, rangedb.ErrStreamNotFound) {
						h.Fail("deleting a stream that does not exist", log, "%v", err)
					}
				default:
					var u *rangedberror.UnexpectedSequenceNumber
					if exp == v || !errors.As(err, &u) || u.Expected != exp || u.ActualSequenceNumber != v {
						h.Fail("deleting", log, "%v", err)
					}
				}
			default:
				log = append(log, fmt.Sprintf("read with fault %s %s", word, fault))
				if word == "SELECT" {
					it := e.store.Events(ctx, 0)
					got, err := readAll(h, it, log)
					if hit && err == nil {
						h.Fail("a read that fails part-way", log, "ended without an error after %d records", len(got))
					}
				}
				e.srv.FailWhen = nil
			}
			h.Case("%v", log)
			if e.srv.OpenTransactions() != 0 {
				h.Fail("after an operation", log, "a transaction is still open")
			}
			// every read
			start := uint64(h.Rng.Intn(12))
			check := func(what string, it rangedb.RecordIterator, f func(rec) bool, notFound bool) {
				got, err := readAll(h, it, log)
				e.supported()
				var want []rec
				for _, r := range model {
					if f(r) {
						want = append(want, r)
					}
				}
				if notFound && len(want) == 0 {
					if !errors.Is(err, rangedb.ErrStreamNotFound) {
						h.Fail(what, log, "error %v, want not found", err)
					}
					return
				}
				if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
					h.Fail(what, log, "%v\n got %v\nwant %v", err, got, want)
				}
			}
			check("reading all", e.store.Events(ctx, start), func(r rec) bool { return r.gsn >= start }, false)
			check("reading a type", e.store.EventsByAggregateTypes(ctx, start, "t"), func(r rec) bool { return r.gsn >= start && r.at == "t" }, false)
			check("reading types", e.store.EventsByAggregateTypes(ctx, 0, "u", "t", "none"), func(r rec) bool { return true }, false)
			check("reading a stream", e.store.EventsByStream(ctx, start, stream), func(r rec) bool { return r.stream == stream && r.ssn >= start }, true)
			if tot, err := e.store.TotalEventsInStream(ctx, stream); err != nil || tot != version(stream) {
				h.Fail("total", log, "%d, %v; want %d", tot, err, version(stream))
			}
		}
		for w := 0; w < 4000; w++ {
			mu.Lock()
			l := len(announced)
			mu.Unlock()
			if l >= len(committed) {
				break
			}
			time.Sleep(time.Millisecond)
		}
		mu.Lock()
		if fmt.Sprint(announced) != fmt.Sprint(committed) {
			h.Fail("announcements", log, "\n got %v\nwant %v", announced, committed)
		}
		mu.Unlock()
		sub.Stop()
		_ = sort.IntsAreSorted
	}
}

type accept func(*rangedb.Record)

func (a accept) Accept(r *rangedb.Record) { a(r) }

func readAll(h *vh.H, it rangedb.RecordIterator, in any) ([]rec, error) {
	var got []rec
	var err error
	h.Within("reading", in, 20*time.Second, func() {
		for it.Next() {
			got = append(got, fromRecord(it.Record()))
		}
		err = it.Err()
	})
	return got, err
}
