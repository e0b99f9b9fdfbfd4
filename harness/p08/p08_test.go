//go:build go1.22

package p08

import (
	"testing"
	"time"

	"github.com/inklabs/rangedb/verifharness/stores"
	"github.com/inklabs/rangedb/verifharness/vh"
)

func TestSnapshots(t *testing.T) {
	h := vh.New(t, "readers, writers, deletions, failing saves and interrupted reads at once, under the race detector; every read must be one snapshot; a case is one read")
	for _, k := range stores.Kinds {
		stores.Snapshots(h, k, time.Duration(h.N(3, 20))*time.Second)
	}
}

func TestHistories(t *testing.T) {
	h := vh.New(t, "random histories on both stores; every operation must return (a lock left behind would block the next one); a case is one operation in its history")
	stores.Histories(h, "P08", stores.Kinds, h.N(15, 80), 60, false)
}
