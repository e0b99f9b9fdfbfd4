//go:build go1.22

package p17

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"google.golang.org/protobuf/proto"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/rangedbtest"
	"github.com/inklabs/rangedb/verifharness/gen"
	"github.com/inklabs/rangedb/verifharness/vh"
)

// exact compares data and metadata digit for digit.
func exact(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x any
	_ = d.Decode(&x)
	b, _ = json.Marshal(x)
	return string(b)
}

func TestTranslate(t *testing.T) {
	h := vh.New(t, "random records of every kind (all numbers, texts and metadata, integers beyond 2^53 in data and metadata), translated directly and through the protobuf encoding, with and without bound types; every undecodable or unencodable part; a case is one translation")
	bound, free := jsonrecordserializer.New(), jsonrecordserializer.New()
	bound.Bind(&gen.Bound{}, rangedbtest.ThingWasDone{})
	big := []any{uint64(1)<<63 + 1, int64(-1)<<53 - 1, json.Number("9007199254740993"), map[string]any{"n": uint64(18446744073709551615), "l": []any{int64(9007199254740993)}}}
	for n := 0; n < h.N(6000, 60000); n++ {
		rec := gen.Record(h.Rng, n%gen.NKinds)
		switch n % 11 {
		case 3:
			rec.EventType, rec.Data = "GenericHappened", big[h.Rng.Intn(len(big))]
		case 4:
			rec.Metadata = big[h.Rng.Intn(len(big))]
		case 5:
			rec.EventType, rec.Data = "GenericHappened", nil
		}
		in := gen.Show(rec)
		h.Guard("translating", in, func() {
			pb, err := rangedbpb.ToPbRecord(rec)
			if err != nil {
				h.Fail("to the wire form", in, "%v", err)
			}
			raw, err := proto.Marshal(pb)
			if err != nil {
				h.Fail("wire form", in, "%v", err)
			}
			var pb2 rangedbpb.Record
			if err := proto.Unmarshal(raw, &pb2); err != nil {
				h.Fail("wire form", in, "%v", err)
			}
			for i, p := range []*rangedbpb.Record{pb, &pb2, &pb2} {
				id := rangedb.EventTypeIdentifier(bound)
				if i == 2 {
					id = free
				}
				got, err := rangedbpb.ToRecord(p, id)
				h.Case("%d %s", i, in)
				if err != nil {
					h.Fail("back from the wire form", in, "%v", err)
				}
				if d := gen.Same(rec, got); d != "" {
					h.Fail("there and back", in, "%s", d)
				}
				if exact(rec.Data) != exact(got.Data) || exact(rec.Metadata) != exact(got.Metadata) {
					h.Fail("there and back", in, "data %s metadata %s", exact(got.Data), exact(got.Metadata))
				}
				if _, ok := rec.Data.(*gen.Bound); ok && rec.EventType == "BoundHappened" && i < 2 {
					if _, ok := got.Data.(*gen.Bound); !ok {
						h.Fail("bound type", in, "data came back as %T", got.Data)
					}
				}
				if i == 2 {
					if f, ok := got.Data.(float64); ok {
						h.Fail("numbers", in, "came back as the float %v", f)
					}
				}
			}
			// broken parts
			cut := *pb
			if len(cut.Data) > 1 && cut.Data[0] != '-' && (cut.Data[0] < '0' || cut.Data[0] > '9') {
				cut.Data = cut.Data[:h.Rng.Intn(len(cut.Data))]
				got, err := rangedbpb.ToRecord(&cut, free)
				h.Case("cut data %q", cut.Data)
				if err == nil || got != nil {
					h.Fail("undecodable data", fmt.Sprintf("%q", cut.Data), "gave %v, %v", got, err)
				}
			}
			cut = *pb
			if len(cut.Metadata) > 1 && cut.Metadata[0] != '-' && (cut.Metadata[0] < '0' || cut.Metadata[0] > '9') {
				cut.Metadata = cut.Metadata[:h.Rng.Intn(len(cut.Metadata))]
				got, err := rangedbpb.ToRecord(&cut, free)
				h.Case("cut metadata %q", cut.Metadata)
				if err == nil || got != nil {
					h.Fail("undecodable metadata", fmt.Sprintf("%q", cut.Metadata), "gave %v, %v", got, err)
				}
			}
		})
	}
	for _, bad := range []any{make(chan int), map[string]any{"f": func() {}}, []any{1, make(chan int)}} {
		rec := gen.Record(h.Rng, gen.KGeneric)
		rec.Data = bad
		if pb, err := rangedbpb.ToPbRecord(rec); err == nil || pb != nil {
			h.Fail("data that cannot be encoded", fmt.Sprintf("%T", bad), "gave %v, %v", pb, err)
		}
		rec = gen.Record(h.Rng, gen.KGeneric)
		rec.Metadata = bad
		if pb, err := rangedbpb.ToPbRecord(rec); err == nil || pb != nil {
			h.Fail("metadata that cannot be encoded", fmt.Sprintf("%T", bad), "gave %v, %v", pb, err)
		}
	}
	for _, bad := range []string{"", " ", "{", "[1", "nul", "x", `{"a":}`, "\"a"} {
		pb, _ := rangedbpb.ToPbRecord(gen.Record(h.Rng, gen.KGeneric))
		pb.Data = bad
		if r, err := rangedbpb.ToRecord(pb, bound); err == nil || r != nil {
			h.Fail("undecodable data", bad, "gave %v, %v", r, err)
		}
		pb, _ = rangedbpb.ToPbRecord(gen.Record(h.Rng, gen.KGeneric))
		pb.Metadata = bad
		if r, err := rangedbpb.ToRecord(pb, bound); err == nil || r != nil {
			h.Fail("undecodable metadata", bad, "gave %v, %v", r, err)
		}
		pb, _ = rangedbpb.ToPbRecord(gen.Record(h.Rng, gen.KBound))
		pb.Data = `{"id":"a","i":"not a number"}`
		if r, err := rangedbpb.ToRecord(pb, bound); err == nil || r != nil {
			h.Fail("data that does not fit the bound type", pb.Data, "gave %v, %v", r, err)
		}
	}
}
