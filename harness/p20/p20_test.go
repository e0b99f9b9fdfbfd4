//go:build go1.22

package p20

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/jsonrecordiostream"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
	"github.com/inklabs/rangedb/provider/ndjsonrecordiostream"
	"github.com/inklabs/rangedb/rangedbtest"
	"github.com/inklabs/rangedb/verifharness/gen"
	"github.com/inklabs/rangedb/verifharness/vh"
)

var formats = []struct {
	name string
	mk   func() rangedb.RecordIoStream
}{
	{"json", func() rangedb.RecordIoStream { return jsonrecordiostream.New() }},
	{"ndjson", func() rangedb.RecordIoStream { return ndjsonrecordiostream.New() }},
	{"msgpack", func() rangedb.RecordIoStream { return msgpackrecordiostream.New() }},
}

var errSource = errors.New("source failure")

func source(recs []*rangedb.Record, err error) rangedb.RecordIterator {
	ch := make(chan rangedb.ResultRecord, len(recs)+1)
	for _, r := range recs {
		ch <- rangedb.ResultRecord{Record: r}
	}
	if err != nil {
		ch <- rangedb.ResultRecord{Err: err}
	}
	close(ch)
	return rangedb.NewRecordIterator(ch)
}

func write(h *vh.H, s rangedb.RecordIoStream, recs []*rangedb.Record, err error, in string) ([]byte, []error) {
	var buf bytes.Buffer
	var errs []error
	h.Within("writing", in, 30*time.Second, func() {
		for e := range s.Write(&buf, source(recs, err)) {
			errs = append(errs, e)
		}
	})
	return buf.Bytes(), errs
}

var errReader = errors.New("reader failure")

// failing gives its bytes and then fails.
type failing struct{ data []byte }

func (f *failing) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, errReader
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

// read returns the records before the end and the error; more records after an error are a failure.
func read(h *vh.H, s rangedb.RecordIoStream, data []byte, in string) ([]*rangedb.Record, error) {
	return readFrom(h, s, bytes.NewReader(data), in)
}

func readFrom(h *vh.H, s rangedb.RecordIoStream, reader io.Reader, in string) ([]*rangedb.Record, error) {
	var recs []*rangedb.Record
	var err error
	h.Within("reading", in, 30*time.Second, func() {
		it := s.Read(reader)
		for it.Next() {
			recs = append(recs, it.Record())
		}
		err = it.Err()
		for i := 0; i < 2; i++ {
			if it.Next() {
				h.Fail("reading", in, "a record after the end")
			}
		}
	})
	return recs, err
}

func TestStreams(t *testing.T) {
	h := vh.New(t, "random sequences of 0-6 records of every kind in every format, with and without bound types; a source error after each prefix; a record that cannot be encoded at each place; every truncation and random byte changes; a case is one stream")
	for _, f := range formats {
		bound, free := f.mk(), f.mk()
		bound.Bind(&gen.Bound{}, rangedbtest.ThingWasDone{})
		for n := 0; n < h.N(400, 5000); n++ {
			var recs []*rangedb.Record
			for k := 0; k < n%7; k++ {
				recs = append(recs, gen.Record(h.Rng, h.Rng.Intn(gen.NKinds)))
			}
			in := f.name
			for _, r := range recs {
				in += " " + gen.Show(r)
			}
			data, errs := write(h, bound, recs, nil, in)
			if len(errs) > 0 {
				h.Fail("writing", in, "%v", errs)
			}
			var ends []int // lengths after which the stream is complete up to a record
			for i, s := range []rangedb.RecordIoStream{bound, free} {
				got, err := read(h, s, data, in)
				h.Case("%d %s", i, in)
				if err != nil || len(got) != len(recs) {
					h.Fail("reading back", in, "%d records of %d, error %v", len(got), len(recs), err)
				}
				for j := range recs {
					if d := gen.Same(recs[j], got[j]); d != "" {
						h.Fail("reading back", in, "record %d: %s", j, d)
					}
					if _, ok := recs[j].Data.(*gen.Bound); ok && i == 0 && recs[j].EventType == "BoundHappened" {
						if _, ok := got[j].Data.(*gen.Bound); !ok {
							h.Fail("bound type", in, "record %d came back as %T", j, got[j].Data)
						}
					}
				}
			}
			if n%10 == 3 {
				for k := 0; k <= len(recs); k++ {
					part, errs := write(h, bound, recs[:k], errSource, in)
					h.Case("source error after %d %s", k, in)
					if len(errs) != 1 || !errors.Is(errs[0], errSource) {
						h.Fail("a source error", fmt.Sprintf("after %d of %s", k, in), "reported %v", errs)
					}
					got, _ := read(h, free, part, in)
					if len(got) != k {
						h.Fail("a source error", fmt.Sprintf("after %d of %s", k, in), "%d records were written before it", len(got))
					}
					bad := gen.Record(h.Rng, gen.KGeneric)
					bad.Data = make(chan int)
					seq := append(append(append([]*rangedb.Record{}, recs[:k]...), bad), recs[k:]...)
					part, errs = write(h, bound, seq, nil, in)
					h.Case("bad record at %d %s", k, in)
					if len(errs) != 1 {
						h.Fail("a record that cannot be encoded", fmt.Sprintf("at %d of %s", k, in), "reported %v", errs)
					}
					if got, _ := read(h, free, part, in); len(got) > k {
						h.Fail("a record that cannot be encoded", fmt.Sprintf("at %d of %s", k, in), "%d records were written", len(got))
					}
				}
			}
			if n%10 == 3 || n%10 == 2 {
				ends = append(ends, 0)
				for k := 1; k <= len(recs); k++ {
					d, _ := write(h, bound, recs[:k], nil, in)
					ends = append(ends, len(d))
				}
				for cut := 0; cut < len(data); cut++ {
					in2 := fmt.Sprintf("cut at %d of %d: %s", cut, len(data), in)
					got, err := read(h, []rangedb.RecordIoStream{bound, free}[cut%2], data[:cut], in2)
					h.Case("%s", in2)
					whole := -1
					for k, e := range ends {
						if e == cut || (f.name == "ndjson" && e+1 == cut && k > 0) {
							whole = k
						}
					}
					if f.name == "json" && cut > 0 {
						whole = -1
					}
					if whole >= 0 && (err != nil || len(got) != whole) {
						h.Fail("a complete shorter stream", in2, "%d records, want %d; %v", len(got), whole, err)
					}
					if whole < 0 && err == nil {
						h.Fail("malformed input", in2, "no error reported, %d records", len(got))
					}
					in3 := fmt.Sprintf("reader failing at %d of %d: %s", cut, len(data), in)
					got3, err3 := readFrom(h, []rangedb.RecordIoStream{bound, free}[cut%2], &failing{append([]byte{}, data[:cut]...)}, in3)
					h.Case("%s", in3)
					if err3 == nil {
						h.Fail("a failing reader", in3, "no error reported, %d records", len(got3))
					}
					for j := range got {
						if j >= len(recs) || gen.Same(recs[j], got[j]) != "" {
							h.Fail("malformed input", in2, "record %d differs from the one written", j)
						}
					}
				}
			}
			if len(data) > 0 {
				b := append([]byte{}, data...)
				b[h.Rng.Intn(len(b))] = byte(h.Rng.Intn(256))
				in2 := fmt.Sprintf("%s bytes %q", f.name, b)
				h.Case("%s", in2)
				_, _ = read(h, []rangedb.RecordIoStream{bound, free}[n%2], b, in2)
			}
		}
	}
}

func TestMalformedText(t *testing.T) {
	h := vh.New(t, "documents that are not the format: other values than an array, stray or wrong closing delimiters, after 0-3 records; a case is one document")
	for _, f := range formats {
		if f.name == "msgpack" {
			continue
		}
		for n := 0; n < 4; n++ {
			var recs []*rangedb.Record
			for len(recs) < n {
				recs = append(recs, gen.Record(h.Rng, gen.KGeneric))
			}
			data, _ := write(h, f.mk(), recs, nil, f.name)
			var docs []string
			if f.name == "json" {
				body := string(data[:len(data)-1])
				docs = []string{body, body + "}", body + ",", "null", "5", "{}", "\"x\"", "true", "]", "}", "{" + string(data[1:])}
			} else {
				docs = []string{string(data) + "\n]", string(data) + "\n}", string(data) + "]", "]", "}", ",", string(data) + ","}
			}
			for _, d := range docs {
				in := fmt.Sprintf("%s %s", f.name, d)
				h.Case("%s", in)
				got, err := read(h, f.mk(), []byte(d), in)
				if err == nil {
					h.Fail("malformed input", in, "no error reported, %d records", len(got))
				}
			}
		}
	}
}
