//go:build go1.22

package p22

import (
	"fmt"
	"strings"
	"testing"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/verifharness/vh"
)

func words(alpha []string, n int) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, a := range alpha {
				next = append(next, w+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func TestRoundTrip(t *testing.T) {
	h := vh.New(t, "every type of at most 3 and ID of at most 4 pieces over letters, the separator, %, blanks, commas, multi-byte and invalid UTF-8; GetStream and GetEventStream split back; no two pairs share a name; every concatenation is also split as an arbitrary text; non-trivial: the pair is distinct")
	types := words([]string{"a", "b", "%", " ", "é", "\xff", "%s"}, 3)
	ids := words([]string{"a", "!", "%d", ",", "\x00"}, h.N(4, 5))
	names := map[string][2]string{}
	for _, ty := range types {
		for _, id := range ids {
			in := fmt.Sprintf("%q %q", ty, id)
			h.Case("%s", in)
			h.Guard("stream names", in, func() {
				name := rangedb.GetStream(ty, id)
				if other, ok := names[name]; ok {
					h.Fail("two aggregates share a stream", in, "with %q", other)
				}
				names[name] = [2]string{ty, id}
				if n := rangedb.GetEventStream(rangedb.NewRawEvent(ty, id, "E", nil)); n != name {
					h.Fail("GetEventStream and GetStream differ", in, "%q %q", n, name)
				}
				gt, gi := rangedb.ParseStream(name)
				if gt != ty || gi != id {
					h.Fail("splitting does not give back type and ID", in, "%q -> %q %q", name, gt, gi)
				}
			})
		}
	}
}

func TestAnyText(t *testing.T) {
	h := vh.New(t, "every text of at most 6 pieces over a letter, the separator and a multi-byte letter, and random texts; splitting never panics and cuts at the first separator; non-trivial: the text is distinct")
	texts := words([]string{"a", "!", "é"}, h.N(6, 8))
	for i := 0; i < h.N(2000, 50000); i++ {
		b := make([]byte, h.Rng.Intn(30))
		for j := range b {
			b[j] = byte(h.Rng.Intn(256))
		}
		texts = append(texts, string(b))
	}
	for _, s := range texts {
		h.Case("%q", s)
		h.Guard("ParseStream", fmt.Sprintf("%q", s), func() {
			ty, id := rangedb.ParseStream(s)
			i := strings.IndexByte(s, '!')
			if i < 0 && (ty != s || id != "") || i >= 0 && (ty != s[:i] || id != s[i+1:]) {
				h.Fail("splitting an arbitrary text", fmt.Sprintf("%q", s), "%q %q", ty, id)
			}
		})
	}
}
