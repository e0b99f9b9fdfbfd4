//go:build go1.22

package p24

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/verifharness/vh"
)

type counts struct {
	by     map[string]uint64
	total  uint64
	latest uint64
}

func read(a *projection.AggregateTypeStats, types []string) counts {
	c := counts{by: map[string]uint64{}, total: a.TotalEvents(), latest: a.LatestGlobalSequenceNumber()}
	for _, t := range types {
		if n := a.TotalEventsByAggregateType(t); n > 0 {
			c.by[t] = n
		}
	}
	return c
}

func want(types []string, recs []*rangedb.Record) counts {
	c := counts{by: map[string]uint64{}}
	for _, r := range recs {
		c.by[r.AggregateType]++
		c.total++
		c.latest = r.GlobalSequenceNumber
	}
	return c
}

func keys(c counts) []string {
	k := []string{}
	for t := range c.by {
		k = append(k, t)
	}
	sort.Strings(k)
	return k
}

var types = []string{"", "a", "B", "b", "é", "a b", "\"x\"", "zz", "<&>"}

func TestCounting(t *testing.T) {
	h := vh.New(t, "random sequences of up to 40 records over 9 aggregate types (empty, mixed case, non-ASCII, needing JSON escapes) and up to 64-bit positions; totals, per-type counts, latest, sorted types after every record; a snapshot into a fresh projection at a random point equals the original and both continue alike; non-trivial: at least one record")
	for i := 0; i < h.N(2000, 30000); i++ {
		n := h.Rng.Intn(40)
		a := projection.NewAggregateTypeStats()
		var recs []*rangedb.Record
		cut := h.Rng.Intn(n + 1)
		g := uint64(0)
		for j := 0; j <= n; j++ {
			if j == cut {
				var buf bytes.Buffer
				if err := a.SaveSnapshot(&buf); err != nil {
					h.Fail("saving a snapshot", recs, "%v", err)
				}
				b := projection.NewAggregateTypeStats()
				b.Accept(&rangedb.Record{AggregateType: "old", GlobalSequenceNumber: 77})
				if err := b.LoadFromSnapshot(bytes.NewReader(buf.Bytes())); err != nil {
					h.Fail("loading a snapshot", buf.String(), "%v", err)
				}
				if !reflect.DeepEqual(read(a, types), read(b, types)) || !reflect.DeepEqual(a.SortedAggregateTypes(), b.SortedAggregateTypes()) {
					h.Fail("a snapshot changes the statistics", show(recs), "%v %v; %v %v", read(a, types), read(b, types), a.SortedAggregateTypes(), b.SortedAggregateTypes())
				}
				if h.Rng.Intn(2) == 0 {
					a = b
				}
			}
			if j < n {
				g += 1 + uint64(h.Rng.Int63())>>(uint(h.Rng.Intn(50))+3)
				r := &rangedb.Record{AggregateType: types[h.Rng.Intn(len(types))], GlobalSequenceNumber: g}
				recs = append(recs, r)
				a.Accept(r)
			}
			w := want(types, recs)
			if got := read(a, types); !reflect.DeepEqual(got, w) {
				h.Fail("statistics are wrong", show(recs), "got %v want %v", got, w)
			}
			if got := a.SortedAggregateTypes(); !(len(got) == 0 && len(keys(w)) == 0) && !reflect.DeepEqual(got, keys(w)) {
				h.Fail("sorted aggregate types are wrong", show(recs), "got %q want %q", got, keys(w))
			}
		}
		h.Case("%s cut %d", show(recs), cut)
	}
}

func show(rs []*rangedb.Record) string {
	s := ""
	for _, r := range rs {
		s += fmt.Sprintf("%q@%d ", r.AggregateType, r.GlobalSequenceNumber)
	}
	return s
}

func TestBrokenSnapshots(t *testing.T) {
	h := vh.New(t, "every truncation of a snapshot and random corruptions of one byte; a load that fails leaves the statistics as they were, one that succeeds leaves them usable; a reader that fails part-way; non-trivial: the text is distinct")
	a := projection.NewAggregateTypeStats()
	for i, ty := range types {
		for j := 0; j <= i; j++ {
			a.Accept(&rangedb.Record{AggregateType: ty, GlobalSequenceNumber: uint64(i*10 + j + 1)})
		}
	}
	var buf bytes.Buffer
	_ = a.SaveSnapshot(&buf)
	var texts []string
	for i := 0; i <= buf.Len(); i++ {
		texts = append(texts, buf.String()[:i])
	}
	for i := 0; i < h.N(3000, 40000); i++ {
		b := append([]byte(nil), buf.Bytes()...)
		b[h.Rng.Intn(len(b))] = byte(h.Rng.Intn(256))
		texts = append(texts, string(b))
	}
	texts = append(texts, "null", "{}", "[]", "1", `{"totalEventsByAggregateType":null,"totalEvents":3}`, `{"totalEvents":"x"}`, `{"totalEvents":9,"latestGlobalSequenceNumber":-1}`)
	for _, s := range texts {
		h.Case("%q", s)
		h.Guard("loading a broken snapshot", s, func() {
			b := projection.NewAggregateTypeStats()
			b.Accept(&rangedb.Record{AggregateType: "a", GlobalSequenceNumber: 5})
			before := read(b, types)
			err := b.LoadFromSnapshot(bytes.NewReader([]byte(s)))
			if err != nil && (!reflect.DeepEqual(before, read(b, types)) || len(b.SortedAggregateTypes()) != 1) {
				h.Fail("a broken snapshot changes the statistics", s, "%v -> %v", before, read(b, types))
			}
			now := read(b, types)
			b.Accept(&rangedb.Record{AggregateType: "zz", GlobalSequenceNumber: 6})
			after := read(b, types)
			if after.total != now.total+1 || after.by["zz"] != now.by["zz"]+1 || after.latest != 6 {
				h.Fail("the statistics are unusable after a load", s, "%v -> %v", now, after)
			}
		})
	}
	for n := 0; n < buf.Len()-1; n++ {
		b := projection.NewAggregateTypeStats()
		b.Accept(&rangedb.Record{AggregateType: "a", GlobalSequenceNumber: 5})
		before := read(b, types)
		if err := b.LoadFromSnapshot(&failing{data: buf.Bytes()[:n]}); err == nil || !reflect.DeepEqual(before, read(b, types)) {
			h.Fail("a failing reader changes the statistics", n, "%v", err)
		}
	}
}

type failing struct{ data []byte }

func (f *failing) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, errors.New("broken")
	}
	n := copy(p, f.data[:1])
	f.data = f.data[n:]
	return n, nil
}

type failingWriter struct{ n int }

func (f *failingWriter) Write(p []byte) (int, error) {
	if len(p) > f.n {
		return f.n, errors.New("full")
	}
	f.n -= len(p)
	return len(p), nil
}

func TestDisk(t *testing.T) {
	h := vh.New(t, "snapshot store on disk: save and load back after every random prefix; a missing directory, a missing file and a broken file are errors and change nothing; two projections of different name never share a file; a failing writer is an error; non-trivial: the state is distinct")
	dir := t.TempDir()
	s := projection.NewDiskSnapshotStore(dir)
	for i := 0; i < h.N(100, 1000); i++ {
		a := projection.NewAggregateTypeStats()
		for j := 0; j < h.Rng.Intn(20)*(i%7); j++ {
			a.Accept(&rangedb.Record{AggregateType: types[h.Rng.Intn(len(types))], GlobalSequenceNumber: uint64(j*i + 1)})
		}
		h.Case("%v", read(a, types))
		if err := s.Save(a); err != nil {
			h.Fail("saving to disk", i, "%v", err)
		}
		b := projection.NewAggregateTypeStats()
		if err := s.Load(b); err != nil || !reflect.DeepEqual(read(a, types), read(b, types)) || !reflect.DeepEqual(a.SortedAggregateTypes(), b.SortedAggregateTypes()) {
			h.Fail("loading from disk", i, "%v %v %v", err, read(a, types), read(b, types))
		}
		if err := s.Save(named{a, "other"}); err != nil || s.SnapshotPath(a) == s.SnapshotPath(named{a, "other"}) {
			h.Fail("two projections share a snapshot file", i, "%v", err)
		}
	}
	b := projection.NewAggregateTypeStats()
	b.Accept(&rangedb.Record{AggregateType: "a", GlobalSequenceNumber: 5})
	before := read(b, types)
	if err := s.Load(named{b, "missing"}); err == nil || !reflect.DeepEqual(before, read(b, types)) {
		h.Fail("loading a missing snapshot", "missing", "%v", err)
	}
	_ = os.WriteFile(filepath.Join(dir, "broken.snap"), []byte(`{"totalEvents":3`), 0o600)
	if err := s.Load(named{b, "broken"}); err == nil || !reflect.DeepEqual(before, read(b, types)) {
		h.Fail("loading a broken snapshot", "broken", "%v", err)
	}
	none := projection.NewDiskSnapshotStore(filepath.Join(dir, "none"))
	if none.Save(b) == nil || none.Load(b) == nil {
		h.Fail("a missing directory is not an error", "none", "")
	}
	if err := b.SaveSnapshot(&failingWriter{3}); err == nil {
		h.Fail("a failing writer is not an error", "writer", "")
	}
	if err := s.Save(broken{b}); err == nil {
		h.Fail("a failing snapshot is saved without error", "broken", "")
	}
}

type named struct {
	*projection.AggregateTypeStats
	name string
}

func (n named) SnapshotName() string { return n.name }

type broken struct{ *projection.AggregateTypeStats }

func (broken) SnapshotName() string { return "b" }
func (broken) SaveSnapshot(io.Writer) error {
	return errors.New("no")
}

func TestConcurrentReads(t *testing.T) {
	h := vh.New(t, "4 writers and 4 readers at once under the race detector; totals never go back, nothing is lost, a snapshot taken meanwhile is consistent (sum of counts equals the total); non-trivial: the round is distinct")
	for i := 0; i < h.N(20, 200); i++ {
		in := fmt.Sprint("round ", i)
		h.Case("%s", in)
		h.Within("concurrent use of the statistics", in, 20*time.Second, func() {
			a := projection.NewAggregateTypeStats()
			var wg sync.WaitGroup
			for w := 0; w < 4; w++ {
				wg.Add(2)
				go func() {
					defer wg.Done()
					for j := 0; j < 100; j++ {
						a.Accept(&rangedb.Record{AggregateType: types[(w+j)%len(types)], GlobalSequenceNumber: uint64(j + 1)})
					}
				}()
				go func() {
					defer wg.Done()
					last := uint64(0)
					for j := 0; j < 100; j++ {
						n := a.TotalEvents()
						_ = a.SortedAggregateTypes()
						_ = a.TotalEventsByAggregateType("a")
						_ = a.LatestGlobalSequenceNumber()
						if n < last {
							h.Fail("the total went back", in, "%d after %d", n, last)
						}
						last = n
						if j%10 == 0 {
							var buf bytes.Buffer
							if err := a.SaveSnapshot(&buf); err != nil {
								h.Fail("snapshot", in, "%v", err)
							}
							b := projection.NewAggregateTypeStats()
							if err := b.LoadFromSnapshot(&buf); err != nil {
								h.Fail("snapshot", in, "%v", err)
							}
							sum := uint64(0)
							for _, ty := range b.SortedAggregateTypes() {
								sum += b.TotalEventsByAggregateType(ty)
							}
							if sum != b.TotalEvents() {
								h.Fail("a snapshot taken meanwhile is inconsistent", in, "sum %d total %d", sum, b.TotalEvents())
							}
							if j == 50 {
								c := projection.NewAggregateTypeStats()
								go c.Accept(&rangedb.Record{AggregateType: "a"})
								var empty bytes.Buffer
								_ = b.SaveSnapshot(&empty)
								_ = c.LoadFromSnapshot(&empty)
							}
						}
					}
				}()
			}
			wg.Wait()
			if a.TotalEvents() != 400 {
				h.Fail("events were lost", in, "%d", a.TotalEvents())
			}
		})
	}
}
