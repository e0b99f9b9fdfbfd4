//go:build go1.22

package p03

import (
	"testing"

	"github.com/inklabs/rangedb/verifharness/stores"
	"github.com/inklabs/rangedb/verifharness/vh"
)

func TestHistories(t *testing.T) {
	h := vh.New(t, "random histories of saves (plain and with an expected version, valid and invalid batches, cancelled contexts, failing serializer), stream deletions, reads and reopenings on both stores, compared with a model after every operation; a case is one operation in its history")
	stores.Histories(h, "P03", stores.Kinds, h.N(100, 600), 60, false)
}

func TestRace(t *testing.T) {
	h := vh.New(t, "several goroutines state the same version at once, saving or deleting: exactly one may succeed; a case is one round")
	for _, k := range []string{"memory", "leveldb"} {
		stores.Race(h, k, h.N(60, 400), 6)
	}
}
