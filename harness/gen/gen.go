//go:build go1.22

// Package gen makes random records and compares them by content.
package gen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/rangedbtest"
)

// Bound is an event with fields of many kinds.
type Bound struct {
	ID     string            `json:"id"`
	Text   string            `json:"text"`
	I      int64             `json:"i"`
	U      uint64            `json:"u"`
	B      bool              `json:"b"`
	F      float64           `json:"f"`
	Names  []string          `json:"names"`
	Map    map[string]string `json:"map"`
	Nested *Bound            `json:"nested,omitempty"`
}

func (b Bound) AggregateID() string   { return b.ID }
func (b Bound) AggregateType() string { return "bound" }
func (b Bound) EventType() string     { return "BoundHappened" }

var words = []string{"", "a", "thing", "thing-1", "é", "a b", "\"q\"", "x/y", "{}", "null", "<&>", "日本", "a\nb", "a\\u0000", "0", "-"}

func Word(r *rand.Rand) string { return words[r.Intn(len(words))] }

// Value makes a generic JSON value that is not null at the top.
func Value(r *rand.Rand, depth int, top bool) any {
	k := r.Intn(8)
	if depth <= 0 {
		k = r.Intn(5)
	}
	switch k {
	case 0:
		return Word(r)
	case 1:
		return r.Intn(2000) - 1000
	case 2:
		return r.Intn(2) == 0
	case 3:
		return float64(r.Intn(1000)) / 8
	case 4:
		if top {
			return "top"
		}
		return nil
	case 5:
		a := []any{}
		for i := 0; i < r.Intn(4); i++ {
			a = append(a, Value(r, depth-1, false))
		}
		return a
	default:
		m := map[string]any{}
		for i := 0; i < r.Intn(4); i++ {
			m[Word(r)] = Value(r, depth-1, false)
		}
		return m
	}
}

func num(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(3))
	case 1:
		return 1<<53 + uint64(r.Intn(3))
	case 2:
		return ^uint64(0) - uint64(r.Intn(3))
	case 3:
		return 1<<uint(r.Intn(64)) - uint64(r.Intn(2))
	}
	return uint64(r.Intn(1000))
}

func bound(r *rand.Rand, depth int) *Bound {
	b := &Bound{ID: Word(r), Text: Word(r), I: int64(num(r)), U: num(r), B: r.Intn(2) == 0, F: float64(r.Intn(99)) / 4}
	for i := 0; i < r.Intn(3); i++ {
		b.Names = append(b.Names, Word(r))
	}
	if r.Intn(2) == 0 {
		b.Map = map[string]string{Word(r): Word(r)}
	}
	if depth > 0 && r.Intn(3) == 0 {
		b.Nested = bound(r, depth-1)
	}
	return b
}

// Kinds of event data.
const (
	KBound = iota
	KThing
	KRaw
	KGeneric
	KInner
	NKinds
)

// Record makes a record. Kind KInner is an event type nobody binds.
func Record(r *rand.Rand, kind int) *rangedb.Record {
	rec := &rangedb.Record{StreamName: Word(r), AggregateType: Word(r), AggregateID: Word(r), GlobalSequenceNumber: num(r), StreamSequenceNumber: num(r), InsertTimestamp: num(r), EventID: Word(r)}
	switch kind {
	case KBound:
		rec.EventType, rec.Data = "BoundHappened", bound(r, 2)
	case KThing:
		rec.EventType, rec.Data = "ThingWasDone", &rangedbtest.ThingWasDone{ID: Word(r), Number: r.Intn(100)}
	case KRaw:
		d := Value(r, 3, true)
		rec.EventType, rec.Data = "RawHappened", rangedb.NewRawEvent("raw", Word(r), "RawHappened", d)
	case KGeneric:
		rec.EventType, rec.Data = "GenericHappened", Value(r, 3, true)
	case KInner:
		rec.EventType, rec.Data = "NobodyBound", bound(r, 1)
	}
	switch r.Intn(5) {
	case 0:
		rec.Metadata = map[string]any{"user": Word(r), "n": r.Intn(5)}
	case 1:
		rec.Metadata = Value(r, 2, true)
	case 2:
		rec.Metadata = Word(r)
	}
	return rec
}

// Canon is a text that two values share exactly when they hold the same data.
func Canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unserializable: " + err.Error()
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		return "undecodable: " + err.Error()
	}
	return canon(x)
}

func canon(v any) string {
	switch x := v.(type) {
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += strconv.Quote(k) + ":" + canon(x[k]) + ","
		}
		return s + "}"
	case []any:
		s := "["
		for _, e := range x {
			s += canon(e) + ","
		}
		return s + "]"
	case json.Number:
		if i, err := strconv.ParseUint(x.String(), 10, 64); err == nil {
			return fmt.Sprint(i)
		}
		if i, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
			return fmt.Sprint(i)
		}
		f, _ := x.Float64()
		return fmt.Sprint(f)
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprint(v)
}

// Same compares a record with what came back; it returns the first difference.
func Same(want, got *rangedb.Record) string {
	if got == nil {
		return "no record"
	}
	type f struct {
		n    string
		a, b any
	}
	for _, x := range []f{{"StreamName", want.StreamName, got.StreamName}, {"AggregateType", want.AggregateType, got.AggregateType}, {"AggregateID", want.AggregateID, got.AggregateID},
		{"GlobalSequenceNumber", want.GlobalSequenceNumber, got.GlobalSequenceNumber}, {"StreamSequenceNumber", want.StreamSequenceNumber, got.StreamSequenceNumber},
		{"InsertTimestamp", want.InsertTimestamp, got.InsertTimestamp}, {"EventID", want.EventID, got.EventID}, {"EventType", want.EventType, got.EventType}} {
		if x.a != x.b {
			return fmt.Sprintf("%s: got %v, want %v", x.n, x.b, x.a)
		}
	}
	if a, b := Canon(want.Data), Canon(got.Data); a != b {
		return fmt.Sprintf("Data: got %s, want %s", b, a)
	}
	if a, b := Canon(want.Metadata), Canon(got.Metadata); a != b {
		return fmt.Sprintf("Metadata: got %s, want %s", b, a)
	}
	return ""
}

// Show prints a record for a failing input.
func Show(r *rangedb.Record) string {
	return fmt.Sprintf("{%q %q %q gsn %d ssn %d ts %d id %q type %q data %s meta %s}", r.StreamName, r.AggregateType, r.AggregateID, r.GlobalSequenceNumber, r.StreamSequenceNumber, r.InsertTimestamp, r.EventID, r.EventType, Canon(r.Data), Canon(r.Metadata))
}
