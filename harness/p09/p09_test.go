//go:build go1.22

package p09

import (
	"testing"

	"github.com/inklabs/rangedb/verifharness/stores"
	"github.com/inklabs/rangedb/verifharness/vh"
)

func TestHistories(t *testing.T) {
	h := vh.New(t, "random histories of saves (plain and with an expected version, valid and invalid batches, cancelled contexts, failing serializer), stream deletions, reads and reopenings on both stores, compared with a model after every operation; a case is one operation in its history")
	stores.Histories(h, "P09", stores.Kinds, h.N(100, 600), 60, false)
}

func TestConcurrentSaves(t *testing.T) {
	h := vh.New(t, "several goroutines save at once while subscriptions listen; what each was given must be the stored events in order; a case is one run")
	for i := 0; i < h.N(6, 40); i++ {
		for _, k := range []string{"memory", "leveldb"} {
			stores.Announcements(h, k, 5, 30)
		}
	}
}
