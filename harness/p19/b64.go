//go:build go1.22

package p19

import (
	"bytes"
	"encoding/base64"
	"io"
)

func newB64(b []byte) io.Reader {
	d, err := base64.RawStdEncoding.DecodeString(string(b))
	if err != nil {
		return base64.NewDecoder(base64.RawStdEncoding, bytes.NewReader(b))
	}
	return bytes.NewReader(d)
}
