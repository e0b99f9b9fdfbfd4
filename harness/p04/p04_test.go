//go:build go1.22

package p04

import (
	"testing"

	"github.com/inklabs/rangedb/verifharness/stores"
	"github.com/inklabs/rangedb/verifharness/vh"
)

func TestHistories(t *testing.T) {
	h := vh.New(t, "random histories of saves (plain and with an expected version, valid and invalid batches, cancelled contexts, failing serializer), stream deletions, reads and reopenings on both stores, compared with a model after every operation; a case is one operation in its history")
	stores.Histories(h, "P04", stores.Kinds, h.N(100, 600), 60, false)
}
