//go:build go1.22

package p23

import (
	"fmt"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/inklabs/rangedb/pkg/paging"
	"github.com/inklabs/rangedb/verifharness/vh"
)

func size(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil || n == 0 {
		return 10
	}
	if n > 1000 {
		return 1000
	}
	return n
}

func history(s string) []uint64 {
	var l []uint64
	for _, p := range strings.Split(s, ",") {
		n, err := strconv.ParseUint(p, 10, 64)
		if err != nil {
			return l
		}
		l = append(l, n)
	}
	return l
}

func position(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return 0
	}
	return n
}

var numbers = []string{"", "0", "1", "2", "9", "10", "11", "999", "1000", "1001", "18446744073709551615", "18446744073709551616", "-1", "+1", "1.5", " 1", "1 ", "abc", "0x10", "007", "1e3", "\x00", "１"}
var histories = []string{"", "0", "1", "1,2", "1,2,3", ",", "1,", ",1", "1,,2", "1,a,2", "a", "3,2,1", "0,0", "18446744073709551615,1", "18446744073709551616", "1;2", "1, 2", "[1,2]", "1,-2,3"}

func TestParsing(t *testing.T) {
	h := vh.New(t, "every triple of 23 page sizes, 23 positions and 19 histories (well- and malformed, limits of 64 bits), directly and through a query; sizes 0..2000 through the constructor; non-trivial: the triple is distinct")
	for n := uint64(0); n <= 2000; n++ {
		p := paging.NewPagination(n, 7, nil)
		if p.ItemsPerPage != size(fmt.Sprint(n)) {
			h.Fail("page size", n, "%d", p.ItemsPerPage)
		}
	}
	for _, s := range numbers {
		for _, c := range numbers {
			for _, hist := range histories {
				in := fmt.Sprintf("size %q position %q history %q", s, c, hist)
				h.Case("%s", in)
				h.Guard("paging", in, func() {
					p := paging.NewPaginationFromString(s, c, hist)
					check(h, in, p, s, c, hist)
					q := url.Values{}
					q.Set("itemsPerPage", s)
					q.Set("current", c)
					q.Set("previous", hist)
					q2, _ := url.ParseQuery(q.Encode())
					check(h, in+" (query)", paging.NewPaginationFromQuery(q2), s, c, hist)
				})
			}
		}
	}
	check(h, "no query", paging.NewPaginationFromQuery(nil), "", "", "")
}

func check(h *vh.H, in string, p paging.Pagination, s, c, hist string) {
	if p.ItemsPerPage != size(s) || p.ItemsPerPage < 1 || p.ItemsPerPage > 1000 {
		h.Fail("page size", in, "%d", p.ItemsPerPage)
	}
	if p.CurrentIndex != position(c) {
		h.Fail("position", in, "%d", p.CurrentIndex)
	}
	if w := history(hist); len(w)+len(p.PreviousIndices) > 0 && !reflect.DeepEqual(w, p.PreviousIndices) {
		h.Fail("history", in, "%v", p.PreviousIndices)
	}
}

func follow(h *vh.H, in, base, link string) paging.Pagination {
	u, err := url.Parse(link)
	if err != nil {
		h.Fail("a link does not parse", in, "%v", err)
	}
	b, _ := url.Parse(base)
	if u.Path != b.Path || u.Host != b.Host {
		h.Fail("a link leads elsewhere", in, "%s", link)
	}
	return paging.NewPaginationFromQuery(u.Query())
}

func same(a, b paging.Pagination) bool {
	return a.ItemsPerPage == b.ItemsPerPage && a.CurrentIndex == b.CurrentIndex && (len(a.PreviousIndices)+len(b.PreviousIndices) == 0 || reflect.DeepEqual(a.PreviousIndices, b.PreviousIndices))
}

func TestLinks(t *testing.T) {
	h := vh.New(t, "random positions with histories of 0..6 entries (spare capacity included), next index below, at and above the position, limits of 64 bits, three base addresses; each link followed and compared with the page it must lead to; forward and back again over random walks; non-trivial: the case is distinct")
	vals := []uint64{0, 1, 2, 10, 999, 1 << 32, 1<<53 + 1, 1<<64 - 1, 1<<64 - 2}
	for i := 0; i < h.N(20000, 300000); i++ {
		base := []string{"/", "/e/a,b!c", "http://h:8080/x/y?old=1"}[h.Rng.Intn(3)]
		var hist []uint64
		if h.Rng.Intn(2) == 0 {
			hist = make([]uint64, 0, 8)
		}
		for j := h.Rng.Intn(7); j > 0; j-- {
			hist = append(hist, vals[h.Rng.Intn(len(vals))])
		}
		cur, next := vals[h.Rng.Intn(len(vals))], vals[h.Rng.Intn(len(vals))]
		if h.Rng.Intn(3) == 0 {
			next = cur + uint64(h.Rng.Intn(3)) - 1
		}
		p := paging.NewPagination(uint64(h.Rng.Intn(1200)), cur, hist)
		in := fmt.Sprintf("base %q page %+v next %d", base, p, next)
		h.Case("%s", in)
		h.Guard("links", in, func() {
			before := fmt.Sprint(p)
			l := p.Links(base, next)
			if fmt.Sprint(p) != before {
				h.Fail("making links changes the page", in, "%v", p)
			}
			if (l.Next != "") != (next > cur) {
				h.Fail("next link offered wrongly", in, "%q", l.Next)
			}
			if (l.Previous != "") != (len(hist) > 0) {
				h.Fail("previous link offered wrongly", in, "%q", l.Previous)
			}
			if l.Next != "" {
				w := paging.Pagination{ItemsPerPage: p.ItemsPerPage, CurrentIndex: next, PreviousIndices: append(append([]uint64(nil), hist...), cur)}
				n := follow(h, in, base, l.Next)
				if !same(n, w) {
					h.Fail("the next link leads elsewhere", in, "%s: %+v", l.Next, n)
				}
				// back again
				if b := follow(h, in, base, n.Links(base, 0).Previous); !same(b, p) {
					h.Fail("next then previous does not lead back", in, "%+v", b)
				}
			}
			if l.Previous != "" {
				w := paging.Pagination{ItemsPerPage: p.ItemsPerPage, CurrentIndex: hist[len(hist)-1], PreviousIndices: hist[:len(hist)-1]}
				if n := follow(h, in, base, l.Previous); !same(n, w) {
					h.Fail("the previous link leads elsewhere", in, "%s: %+v", l.Previous, n)
				}
			}
		})
	}
}
