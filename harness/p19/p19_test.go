//go:build go1.22

package p19

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedbapi"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/jsonrecordiostream"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
	"github.com/inklabs/rangedb/provider/ndjsonrecordiostream"
	"github.com/inklabs/rangedb/rangedbtest"
	"github.com/inklabs/rangedb/verifharness/gen"
	"github.com/inklabs/rangedb/verifharness/stores"
	"github.com/inklabs/rangedb/verifharness/vh"
)

var errDown = errors.New("store is down")

// spy records each operation on the served store, and fails on request.
type spy struct {
	rangedb.Store
	mu    sync.Mutex
	calls []string
	down  bool
	after int
}

func (f *spy) reset(down bool) { f.mu.Lock(); f.calls, f.down = nil, down; f.mu.Unlock() }
func (f *spy) note(s string, a ...any) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.calls = append(f.calls, fmt.Sprintf(s, a...))
	return f.down
}
func (f *spy) took() string { f.mu.Lock(); defer f.mu.Unlock(); return strings.Join(f.calls, " & ") }

func (f *spy) cut(it rangedb.RecordIterator, down bool) rangedb.RecordIterator {
	if !down {
		return it
	}
	ch := make(chan rangedb.ResultRecord, 1000)
	for i := 0; i < f.after && it.Next(); i++ {
		ch <- rangedb.ResultRecord{Record: it.Record()}
	}
	for it.Next() {
	}
	ch <- rangedb.ResultRecord{Err: errDown}
	close(ch)
	return rangedb.NewRecordIterator(ch)
}

func show(e []*rangedb.EventRecord) string {
	s := ""
	for _, r := range e {
		s += fmt.Sprintf("%q/%q/%q %s meta %s;", r.Event.AggregateType(), r.Event.AggregateID(), r.Event.EventType(), gen.Canon(norm(r.Event)), gen.Canon(norm(r.Metadata)))
	}
	return s
}

func (f *spy) Events(ctx context.Context, g uint64) rangedb.RecordIterator {
	return f.cut(f.Store.Events(ctx, g), f.note("Events %d", g))
}
func (f *spy) EventsByAggregateTypes(ctx context.Context, g uint64, t ...string) rangedb.RecordIterator {
	return f.cut(f.Store.EventsByAggregateTypes(ctx, g, t...), f.note("EventsByAggregateTypes %d %q", g, t))
}
func (f *spy) EventsByStream(ctx context.Context, n uint64, s string) rangedb.RecordIterator {
	return f.cut(f.Store.EventsByStream(ctx, n, s), f.note("EventsByStream %d %q", n, s))
}
func (f *spy) OptimisticDeleteStream(ctx context.Context, n uint64, s string) error {
	if f.note("OptimisticDeleteStream %d %q", n, s) {
		return errDown
	}
	return f.Store.OptimisticDeleteStream(ctx, n, s)
}
func (f *spy) OptimisticSave(ctx context.Context, n uint64, s string, e ...*rangedb.EventRecord) (uint64, error) {
	if f.note("OptimisticSave %d %q %s", n, s, show(e)) {
		return 0, errDown
	}
	return f.Store.OptimisticSave(ctx, n, s, e...)
}
func (f *spy) Save(ctx context.Context, s string, e ...*rangedb.EventRecord) (uint64, error) {
	if f.note("Save %q %s", s, show(e)) {
		return 0, errDown
	}
	return f.Store.Save(ctx, s, e...)
}
func (f *spy) TotalEventsInStream(ctx context.Context, s string) (uint64, error) {
	f.note("TotalEventsInStream %q", s)
	return f.Store.TotalEventsInStream(ctx, s)
}

func all(s rangedb.RecordIterator) []*rangedb.Record {
	var r []*rangedb.Record
	for s.Next() {
		r = append(r, s.Record())
	}
	return r
}

func call(api http.Handler, method, path, body string, head map[string]string) *httptest.ResponseRecorder {
	r := httptest.NewRequest(method, path, strings.NewReader(body))
	for k, v := range head {
		r.Header.Set(k, v)
	}
	w := httptest.NewRecorder()
	api.ServeHTTP(w, r)
	return w
}

func status(h *vh.H, in any, w *httptest.ResponseRecorder) map[string]any {
	var m map[string]any
	d := json.NewDecoder(bytes.NewReader(w.Body.Bytes()))
	d.UseNumber()
	if err := d.Decode(&m); err != nil {
		h.Fail("answer is not JSON", in, "%q", w.Body.String())
	}
	return m
}

var names = []string{"a", "a b", "é-1", "thing-1", "x.json", "a%b", "?&#", "7"}

func body(h *vh.H) (string, []*rangedb.EventRecord) {
	n := []int{1, 1, 2, 3, 5}[h.Rng.Intn(5)]
	at, id := []string{"t", "thing", "other-type"}[h.Rng.Intn(3)], []string{"1", "x y", "é/\\\""}[h.Rng.Intn(3)]
	var out []*rangedb.EventRecord
	var js []map[string]any
	for i := 0; i < n; i++ {
		d, m := gen.Value(h.Rng, 2, true), any(nil)
		e := map[string]any{"aggregateType": at, "aggregateID": id, "eventType": "E" + gen.Word(h.Rng), "data": d}
		if h.Rng.Intn(2) == 0 {
			m = gen.Value(h.Rng, 2, true)
			e["metadata"] = m
		}
		js = append(js, e)
		out = append(out, &rangedb.EventRecord{Event: rangedb.NewRawEvent(at, id, e["eventType"].(string), norm(d)), Metadata: norm(m)})
	}
	b, _ := json.Marshal(js)
	return string(b), out
}

func norm(v any) any {
	b, _ := json.Marshal(v)
	var o any
	_ = json.Unmarshal(b, &o)
	return o
}

func formats(h *vh.H, in any, ext string, b []byte) ([]*rangedb.Record, error) {
	var it rangedb.RecordIterator
	switch ext {
	case "json":
		it = jsonrecordiostream.New().Read(bytes.NewReader(b))
	case "ndjson":
		it = ndjsonrecordiostream.New().Read(bytes.NewReader(b))
	case "msgpack":
		it = msgpackrecordiostream.New().Read(newB64(b))
	}
	var got []*rangedb.Record
	var err error
	h.Within("reading the answer", in, 20*time.Second, func() {
		for it.Next() {
			got = append(got, it.Record())
		}
		err = it.Err()
	})
	return got, err
}

// TestRoutes sends random requests and compares the operation performed and the answer with the store's own.
func TestRoutes(t *testing.T) {
	h := vh.New(t, "random histories of requests on every route (right, wrong, extreme and malformed versions, bodies and content types, awkward stream names, the store failing) on the API over an in-memory store; a case is one request judged")
	for n := 0; n < h.N(60, 600); n++ {
		clock := &stores.Clock{}
		clock.Set(5000)
		mem := inmemorystore.New(inmemorystore.WithClock(clock), inmemorystore.WithUUIDGenerator(&stores.UUIDs{}))
		mem.Bind(rangedbtest.ThingWasDone{})
		s := &spy{Store: mem}
		api, err := rangedbapi.New(rangedbapi.WithStore(s), rangedbapi.WithBaseUri("http://host/base"))
		if err != nil {
			h.Fail("New", "", "%v", err)
		}
		accepted := map[string]uint64{}
		var hist []string
		ctx := context.Background()
		for k := 0; k < 25; k++ {
			name := names[h.Rng.Intn(len(names))]
			esc := url.PathEscape(name)
			cur, _ := mem.TotalEventsInStream(ctx, name)
			version := []uint64{cur, cur, cur, cur + 1, 0, 1, 2, math.MaxUint64, math.MaxInt64 + 1}[h.Rng.Intn(9)]
			vtext, vok := strconv.FormatUint(version, 10), true
			if h.Rng.Intn(8) == 0 {
				vtext, vok = []string{"-1", "x", "1.0", "18446744073709551616", " 1x", "0x1", "1e3"}[h.Rng.Intn(7)], false
			}
			down := h.Rng.Intn(10) == 0
			s.after = h.Rng.Intn(3)
			before := all(mem.Events(ctx, 0))
			stream := all(mem.EventsByStream(ctx, 0, name))
			op := h.Rng.Intn(7)
			var w *httptest.ResponseRecorder
			in := ""
			check := func(want, got any, what string) {
				if fmt.Sprint(want) != fmt.Sprint(got) {
					h.Fail(what, hist, "got %v, want %v (answer %d %q)", got, want, w.Code, w.Body.String())
				}
			}
			run := func(method, path, b string, head map[string]string) {
				in = fmt.Sprintf("%d: %s %s %v %s (down %v)", k, method, path, head, b, down)
				hist = append(hist, in)
				s.reset(down)
				h.Within("request", hist, 30*time.Second, func() { w = call(api, method, path, b, head) })
				h.Case("%v", hist)
			}
			changed := false
			switch op {
			case 0, 1, 2: // save
				b, recs := body(h)
				head := map[string]string{"Content-Type": "application/json"}
				optimistic := h.Rng.Intn(2) == 0
				if optimistic {
					head["ExpectedStreamSequenceNumber"] = vtext
				}
				bad := ""
				switch h.Rng.Intn(12) {
				case 0:
					bad, b = "body", []string{"", "{}", "[", `"x"`, `[{"aggregateType":1}]`, `[{]`, b[:len(b)-1], `[1]`, `[{"aggregateType":"t"},[]]`}[h.Rng.Intn(9)]
				case 1:
					bad = "type"
					head["Content-Type"] = []string{"", "text/plain", "application/xml", "application/jsonx"}[h.Rng.Intn(4)]
				}
				run("POST", "/save-events/"+esc, b, head)
				switch {
				case bad != "" || optimistic && !vok:
					check("", s.took(), "operations for invalid input")
					check(http.StatusBadRequest, w.Code, "status for invalid input")
				default:
					want := fmt.Sprintf("Save %q %s", name, show(recs))
					if optimistic {
						want = fmt.Sprintf("OptimisticSave %d %q %s", version, name, show(recs))
					}
					check(want, s.took(), "operation performed")
					m := status(h, hist, w)
					after, _ := mem.TotalEventsInStream(ctx, name)
					switch {
					case down:
						check(http.StatusInternalServerError, w.Code, "status for a failing store")
					case optimistic && version != cur:
						check(http.StatusConflict, w.Code, "status for a wrong version")
						check(fmt.Sprintf("unexpected sequence number: %d, actual: %d", version, cur), m["message"], "conflict message")
					case after == cur: // refused by the store
						if w.Code < 400 {
							h.Fail("a refused save is reported as done", hist, "%d %q", w.Code, w.Body.String())
						}
					default:
						check(http.StatusCreated, w.Code, "status")
						check(after, m["streamSequenceNumber"], "number reported")
						check(cur+uint64(len(recs)), after, "events stored")
						changed = true
						for i, r := range all(mem.EventsByStream(ctx, cur+1, name)) {
							if r.AggregateType != recs[i].Event.AggregateType() || r.AggregateID != recs[i].Event.AggregateID() || r.EventType != recs[i].Event.EventType() ||
								gen.Canon(norm(r.Data)) != gen.Canon(norm(recs[i].Event)) || gen.Canon(norm(r.Metadata)) != gen.Canon(recs[i].Metadata) {
								h.Fail("event stored", hist, "%s, want %s", gen.Show(r), show(recs[i:i+1]))
							}
							accepted[r.AggregateType]++
						}
					}
				}
			case 3: // delete
				head := map[string]string{}
				given := h.Rng.Intn(6) != 0
				if given {
					head["ExpectedStreamSequenceNumber"] = vtext
				} else {
					version, vok = 0, true
				}
				run("POST", "/delete-stream/"+esc, "", head)
				m := status(h, hist, w)
				if !vok {
					check("", s.took(), "operations for invalid input")
					check(http.StatusBadRequest, w.Code, "status for invalid input")
					break
				}
				check(fmt.Sprintf("OptimisticDeleteStream %d %q", version, name), s.took(), "operation performed")
				switch {
				case down:
					check(http.StatusInternalServerError, w.Code, "status for a failing store")
				case cur == 0:
					check(http.StatusNotFound, w.Code, "status for a missing stream")
				case version != cur:
					check(http.StatusConflict, w.Code, "status for a wrong version")
					check(fmt.Sprintf("unexpected sequence number: %d, actual: %d", version, cur), m["message"], "conflict message")
				default:
					check(http.StatusOK, w.Code, "status")
					check(cur, m["eventsDeleted"], "events deleted")
					check(len(before)-int(cur), len(all(mem.Events(ctx, 0))), "events left")
					changed = true
				}
			case 4, 5: // events
				ext := []string{"json", "ndjson", "msgpack"}[h.Rng.Intn(3)]
				var want []*rangedb.Record
				path, opn := "", ""
				switch h.Rng.Intn(3) {
				case 0:
					path, opn, want = "/all-events."+ext, "Events 0", before
				case 1:
					path, opn, want = "/events-by-stream/"+esc+"."+ext, fmt.Sprintf("EventsByStream 0 %q", name), stream
				case 2:
					types := [][]string{{"t"}, {"t", "thing"}, {"none"}, {"other-type", "t", "thing"}, {"thing", "none"}}[h.Rng.Intn(5)]
					path, opn = "/events-by-aggregate-type/"+strings.Join(types, ",")+"."+ext, fmt.Sprintf("EventsByAggregateTypes 0 %q", types)
					want = all(mem.EventsByAggregateTypes(ctx, 0, types...))
				}
				run("GET", path, "", nil)
				check(opn, s.took(), "operation performed")
				ct := map[string]string{"json": "application/json", "ndjson": "application/json; boundary=LF", "msgpack": "application/msgpack"}[ext]
				if !down {
					check(http.StatusOK, w.Code, "status")
					check(ct, w.Header().Get("Content-Type"), "content type")
				}
				got, err := formats(h, hist, ext, w.Body.Bytes())
				if down {
					if err == nil && w.Code == http.StatusOK {
						h.Known("P19", "partial-read", "the answer to a read that fails part-way looks like a complete, shorter answer", hist, ext)
					}
					break
				}
				if err != nil || len(got) != len(want) {
					h.Fail("events answered", hist, "%d events, error %v, want %d", len(got), err, len(want))
				}
				for i := range want {
					g, v := *got[i], *want[i]
					g.Data, v.Data = norm(g.Data), norm(v.Data)
					g.Metadata, v.Metadata = norm(g.Metadata), norm(v.Metadata)
					if d := gen.Same(&v, &g); d != "" && ext == "msgpack" {
						h.Known("P19", "msgpack-numbers", "msgpack answers carry the numbers of untyped data as text", hist, d)
						g.Data, v.Data = text(g.Data), text(v.Data)
						g.Metadata, v.Metadata = text(g.Metadata), text(v.Metadata)
					}
					if d := gen.Same(&v, &g); d != "" {
						h.Fail("events answered", hist, "event %d: %s", i, d)
					}
				}
			case 6:
				if h.Rng.Intn(3) == 0 {
					run("GET", "/health-check", "", nil)
					check(http.StatusOK, w.Code, "status")
					check("OK", status(h, hist, w)["status"], "health")
					check("", s.took(), "operations")
					break
				}
				time.Sleep(time.Millisecond)
				for i := 0; ; i++ { // the projection follows announcements
					run("GET", "/list-aggregate-types", "", nil)
					d := listing(h, hist, w, accepted)
					if d == "" {
						break
					}
					if i == 100 {
						h.Fail("listing", hist, "%s", d)
					}
					hist = hist[:len(hist)-1]
					time.Sleep(10 * time.Millisecond)
				}
			}
			if !changed {
				a := all(mem.Events(ctx, 0))
				check(len(before), len(a), "a request that was refused or only reads changed the store")
				for i := range a {
					if d := gen.Same(before[i], a[i]); d != "" {
						h.Fail("a request that was refused or only reads changed the store", hist, "%s", d)
					}
				}
			}
		}
	}
}

// text turns every number into its text.
func text(v any) any {
	switch t := v.(type) {
	case float64:
		b, _ := json.Marshal(t)
		return string(b)
	case []any:
		for i := range t {
			t[i] = text(t[i])
		}
	case map[string]any:
		for k := range t {
			t[k] = text(t[k])
		}
	}
	return v
}

func listing(h *vh.H, in any, w *httptest.ResponseRecorder, want map[string]uint64) string {
	if w.Code != http.StatusOK {
		return fmt.Sprint("status ", w.Code)
	}
	var l struct {
		Data []struct {
			Name        string
			TotalEvents uint64
			Links       map[string]string
		}
		TotalEvents uint64
		Links       map[string]string
	}
	if err := json.Unmarshal(w.Body.Bytes(), &l); err != nil {
		h.Fail("listing", in, "%v: %q", err, w.Body.String())
	}
	var total uint64
	for _, v := range want {
		total += v
	}
	if len(l.Data) != len(want) || l.TotalEvents != total {
		return fmt.Sprintf("%+v, want %v", l, want)
	}
	last := ""
	for _, d := range l.Data {
		if want[d.Name] != d.TotalEvents || d.Name <= last {
			return fmt.Sprintf("%+v, want %v", l, want)
		}
		last = d.Name
		if d.Links["self"] != "http://host/base/events-by-aggregate-type/"+d.Name+".json" {
			h.Fail("listing", in, "link %q", d.Links)
		}
	}
	if l.Links["allEvents"] != "http://host/base/all-events.json" || l.Links["self"] != "http://host/base/list-aggregate-types" {
		h.Fail("listing", in, "links %q", l.Links)
	}
	return ""
}
