//go:build go1.22

package p21

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"github.com/inklabs/rangedb/rangedbtest"
	"github.com/inklabs/rangedb/verifharness/gen"
	"github.com/inklabs/rangedb/verifharness/vh"
)

type ser interface {
	Serialize(*rangedb.Record) ([]byte, error)
	Deserialize([]byte) (*rangedb.Record, error)
	Bind(...rangedb.Event)
	EventTypeLookup(string) (reflect.Type, bool)
}

func makers() map[string]func() ser {
	return map[string]func() ser{"json": func() ser { return jsonrecordserializer.New() }, "msgpack": func() ser { return msgpackrecordserializer.New() }}
}

func bind(s ser) {
	s.Bind(&gen.Bound{}, rangedbtest.ThingWasDone{})
	s.Bind(rangedb.NewRawEvent("x", "y", "Other", nil))
}

func TestRoundTrip(t *testing.T) {
	h := vh.New(t, "random records of bound, unbound, raw and generic events (nested data, all text and number extremes, five kinds of metadata), serialized and read with and without the type bound; then every truncation and random byte changes of a sample; a case is one deserialization")
	for name, mk := range makers() {
		bound, free := mk(), mk()
		bind(bound)
		for n := 0; n < h.N(3000, 40000); n++ {
			kind := n % gen.NKinds
			rec := gen.Record(h.Rng, kind)
			in := name + " " + gen.Show(rec)
			before := *rec
			h.Guard("round trip", in, func() {
				data, err := bound.Serialize(rec)
				if err != nil {
					h.Fail("serialize", in, "%v", err)
				}
				if rec.Data == nil || gen.Same(&before, rec) != "" {
					h.Fail("serialize", in, "changed the record it was given")
				}
				for i, s := range []ser{bound, free} {
					got, err := s.Deserialize(data)
					h.Case("%d %s", i, in)
					if err != nil {
						h.Fail("deserialize", in, "%v", err)
					}
					if d := gen.Same(rec, got); d != "" {
						h.Fail("round trip", in, "%s", d)
					}
					wantType := map[int]string{gen.KBound: "*gen.Bound", gen.KThing: "*rangedbtest.ThingWasDone"}[kind]
					if i == 0 && wantType != "" && fmt.Sprintf("%T", got.Data) != wantType {
						h.Fail("bound type", in, "data came back as %T, want %s", got.Data, wantType)
					}
					again, err := s.Serialize(got)
					if err != nil {
						h.Fail("serialize what was read", in, "%v", err)
					}
					got2, err := s.Deserialize(again)
					if err != nil || gen.Same(rec, got2) != "" {
						h.Fail("second round trip", in, "%v %s", err, gen.Same(rec, got2))
					}
				}
				if n%17 == 0 {
					for cut := 0; cut < len(data); cut++ {
						for _, s := range []ser{bound, free} {
							got, err := s.Deserialize(data[:cut])
							h.Case("cut %d %s", cut, in)
							if err == nil {
								h.Fail("truncated bytes", fmt.Sprintf("%s cut at %d of %d", in, cut, len(data)), "accepted as %s", gen.Show(got))
							}
							if got != nil {
								h.Fail("truncated bytes", in, "a record beside the error %v", err)
							}
						}
					}
				}
				for k := 0; k < 3; k++ {
					b := append([]byte{}, data...)
					for j := 0; j <= h.Rng.Intn(3); j++ {
						b[h.Rng.Intn(len(b))] = byte(h.Rng.Intn(256))
					}
					in2 := fmt.Sprintf("%s bytes %q", name, b)
					h.Guard("altered bytes", in2, func() {
						got, err := []ser{bound, free}[k%2].Deserialize(b)
						h.Case("%s", in2)
						if err != nil && got != nil {
							h.Fail("altered bytes", in2, "a record beside the error %v", err)
						}
						if err == nil && got == nil {
							h.Fail("altered bytes", in2, "neither a record nor an error")
						}
					})
				}
			})
		}
		for _, bad := range []any{make(chan int), map[string]any{"f": func() {}}} {
			rec := gen.Record(h.Rng, gen.KGeneric)
			rec.Data = bad
			if b, err := bound.Serialize(rec); err == nil {
				h.Fail("data that cannot be encoded", fmt.Sprintf("%s %T", name, bad), "serialized as %q", b)
			}
			rec = gen.Record(h.Rng, gen.KGeneric)
			rec.Metadata = bad
			if b, err := bound.Serialize(rec); err == nil {
				h.Fail("metadata that cannot be encoded", fmt.Sprintf("%s %T", name, bad), "serialized as %q", b)
			}
		}
		if ty, ok := bound.EventTypeLookup("BoundHappened"); !ok || ty.Name() != "Bound" {
			h.Fail("lookup", name, "%v %v", ty, ok)
		}
		if _, ok := bound.EventTypeLookup("NobodyBound"); ok {
			h.Fail("lookup", name, "an unbound type was found")
		}
		// an event without data
		rec := gen.Record(h.Rng, gen.KGeneric)
		rec.Data = nil
		data, err := free.Serialize(rec)
		if err == nil {
			got, err := free.Deserialize(data)
			h.Case("null data %s", name)
			if err != nil {
				h.Known("P21", "null-data", "a JSON record whose data is null cannot be deserialized ("+name+")", gen.Show(rec), err.Error())
			} else if d := gen.Same(rec, got); d != "" {
				h.Fail("null data", gen.Show(rec), "%s", d)
			}
		}
	}
}
