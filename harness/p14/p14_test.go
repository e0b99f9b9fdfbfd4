//go:build go1.22

package p14

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/crypto/xchacha20poly1305"
	"github.com/inklabs/rangedb/verifharness/vh"
)

type engine struct {
	name  string
	e     crypto.Encryptor
	auth  bool
	nonce int
	keys  []int
}

func engines() []engine {
	return []engine{
		{"cbc", aes.NewCBCPKCS5Padding(), false, 16, []int{16, 24, 32}},
		{"gcm", aes.NewGCM(), true, 12, []int{16, 24, 32}},
		{"xchacha", xchacha20poly1305.New(), true, 24, []int{32}},
	}
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func TestRoundTripAndMalformed(t *testing.T) {
	h := vh.New(t, "texts of every length up to 70 under every algorithm and key size; then every truncation, bit flip (sampled), extension, wrong key and undecodable text; a case is one decryption")
	for _, e := range engines() {
		for _, ks := range e.keys {
			seen := map[string]bool{}
			for n := 0; n <= 70; n++ {
				key := make([]byte, ks)
				h.Rng.Read(key)
				text := make([]byte, n)
				h.Rng.Read(text)
				in := fmt.Sprintf("%s key %x text %x", e.name, key, text)
				h.Guard("encrypt and decrypt", in, func() {
					c, err := e.e.Encrypt(b64(key), string(text))
					if err != nil {
						h.Fail("encrypt", in, "%v", err)
					}
					p, err := e.e.Decrypt(b64(key), c)
					h.Case("%s", in)
					if err != nil || p != string(text) {
						h.Fail("decrypting what was encrypted", in, "%x, %v", p, err)
					}
					c2, err := e.e.Encrypt(b64(key), string(text))
					raw, _ := base64.StdEncoding.DecodeString(c)
					raw2, _ := base64.StdEncoding.DecodeString(c2)
					if err != nil || bytes.Equal(raw[:e.nonce], raw2[:e.nonce]) || seen[string(raw[:e.nonce])] {
						h.Fail("nonces", in, "two encryptions share the nonce %x", raw[:e.nonce])
					}
					seen[string(raw[:e.nonce])], seen[string(raw2[:e.nonce])] = true, true
					if n > 3 && (bytes.Contains(raw, text) || c == string(text)) {
						h.Fail("cipher text", in, "contains the text")
					}
					try := func(what string, key string, c string, mustFail bool) {
						h.Case("%s %s %s", what, key, c)
						h.Guard("decrypting "+what, in+" offered "+c, func() {
							p, err := e.e.Decrypt(key, c)
							if err == nil && (mustFail || p == string(text)) {
								h.Fail("decrypting "+what, in+" offered "+c, "accepted, gives %x", p)
							}
						})
					}
					for l := 0; l < len(raw); l++ {
						if l > 40 && l%7 != 0 {
							continue
						}
						try(fmt.Sprintf("truncated to %d", l), b64(key), b64(raw[:l]), e.auth || l%16 != 0 || l < 32)
					}
					for i := 0; i < len(raw); i++ {
						m := append([]byte{}, raw...)
						m[i] ^= 1 << h.Rng.Intn(8)
						try(fmt.Sprintf("changed at %d", i), b64(key), b64(m), e.auth)
					}
					try("extended by a byte", b64(key), b64(append(append([]byte{}, raw...), 0)), true)
					try("extended by a block", b64(key), b64(append(append([]byte{}, raw...), raw[:16]...)), e.auth)
					try("not base64", b64(key), c+"!", true)
					try("not base64", b64(key), "%%%", true)
					try("empty", b64(key), "", true)
					try("plain text", b64(key), string(text)+"?", true)
					other := append([]byte{}, key...)
					other[h.Rng.Intn(ks)] ^= 1 << h.Rng.Intn(8)
					try("under another key", b64(other), c, e.auth)
					for _, k := range []string{"", "%", b64(key[:ks-1]), b64(append(append([]byte{}, key...), 1)), b64(key) + "\x00"} {
						try("under an invalid key", k, c, true)
						h.Guard("encrypting under an invalid key", in, func() {
							if x, err := e.e.Encrypt(k, string(text)); err == nil {
								h.Fail("encrypting under an invalid key", in+" key "+k, "accepted, gives %s", x)
							}
						})
					}
				})
			}
			// random bytes offered
			for i := 0; i < h.N(400, 5000); i++ {
				key := make([]byte, ks)
				h.Rng.Read(key)
				c := make([]byte, h.Rng.Intn(100))
				h.Rng.Read(c)
				h.Case("%x %x", key, c)
				h.Guard("decrypting random bytes", fmt.Sprintf("%s %x %x", e.name, key, c), func() {
					p, err := e.e.Decrypt(b64(key), b64(c))
					if err == nil && e.auth {
						h.Fail("decrypting random bytes", fmt.Sprintf("%s %x %x", e.name, key, c), "accepted, gives %x", p)
					}
				})
			}
		}
	}
}

type short struct{ left int }

func (s *short) Read(p []byte) (int, error) {
	if s.left == 0 {
		return 0, errors.New("no randomness")
	}
	if len(p) > s.left {
		p = p[:s.left]
	}
	n, _ := rand.Read(p)
	s.left -= n
	return n, nil
}

// oneByte hands out one byte per call.
type oneByte struct{ n byte }

func (o *oneByte) Read(p []byte) (int, error) { o.n++; p[0] = o.n; return 1, nil }

func TestRandomSource(t *testing.T) {
	h := vh.New(t, "random sources that fail or give a byte at a time, for each algorithm that takes one; a case is one encryption")
	key := b64(make([]byte, 32))
	for _, e := range engines() {
		s, ok := e.e.(interface{ SetRandReader(io.Reader) })
		if !ok {
			continue
		}
		for l := 0; l < e.nonce; l++ {
			h.Case("%s %d", e.name, l)
			s.SetRandReader(&short{l})
			h.Guard("encrypt", e.name, func() {
				if c, err := e.e.Encrypt(key, "text"); err == nil {
					h.Fail("encrypting without enough randomness", fmt.Sprintf("%s, %d bytes", e.name, l), "accepted, gives %s", c)
				}
			})
		}
		s.SetRandReader(&oneByte{})
		c, err := e.e.Encrypt(key, "text")
		raw, _ := base64.StdEncoding.DecodeString(c)
		h.Case("%s bytes", e.name)
		if err != nil || len(raw) < e.nonce || raw[e.nonce-1] != byte(e.nonce) || raw[0] != 1 {
			h.Fail("nonce is the random source's bytes", e.name, "%x %v", raw, err)
		}
	}
}

type selfEvent struct {
	ID, Secret string
}

func (selfEvent) AggregateType() string { return "t" }
func (e selfEvent) AggregateID() string { return e.ID }
func (selfEvent) EventType() string     { return "E" }
func (e *selfEvent) Encrypt(x crypto.Encryptor) error {
	s, err := x.Encrypt(e.ID, e.Secret)
	if err == nil {
		e.Secret = s
	}
	return err
}
func (e *selfEvent) Decrypt(x crypto.Encryptor) error {
	s, err := x.Decrypt(e.ID, e.Secret)
	if err == nil {
		e.Secret = s
	}
	return err
}

type keys struct {
	crypto.KeyStore
	failSet error
	failGet error
	log     []string
}

func (k *keys) Get(s string) (string, error) {
	k.log = append(k.log, "get "+s)
	if k.failGet != nil {
		return "", k.failGet
	}
	return k.KeyStore.Get(s)
}
func (k *keys) Set(s, v string) error {
	k.log = append(k.log, "set "+s)
	if k.failSet != nil {
		return k.failSet
	}
	return k.KeyStore.Set(s, v)
}

func TestEventEncryptor(t *testing.T) {
	h := vh.New(t, "events of several subjects encrypted and decrypted through the event encryptor with failing key stores and random sources; a case is one event")
	for _, e := range engines() {
		ks := &keys{KeyStore: inmemorykeystore.New()}
		enc := eventencryptor.New(ks, e.e)
		got := map[string]string{}
		for i := 0; i < h.N(50, 300); i++ {
			id := fmt.Sprintf("s%d", i%7)
			ev := &selfEvent{ID: id, Secret: fmt.Sprintf("secret %d", i)}
			in := fmt.Sprintf("%s %+v", e.name, *ev)
			h.Case("%s", in)
			if err := enc.Encrypt(ev); err != nil {
				h.Fail("encrypt", in, "%v", err)
			}
			if ev.Secret == fmt.Sprintf("secret %d", i) {
				h.Fail("encrypt", in, "unchanged")
			}
			k, err := ks.KeyStore.Get(id)
			raw, derr := base64.StdEncoding.DecodeString(k)
			if err != nil || derr != nil || len(raw) != 32 {
				h.Fail("key", in, "%q %v", k, err)
			}
			if old, ok := got[id]; ok && old != k {
				h.Fail("key", in, "changed from %q to %q", old, k)
			}
			got[id] = k
			if p, err := e.e.Decrypt(k, ev.Secret); err != nil || p != fmt.Sprintf("secret %d", i) {
				h.Fail("encrypted under the subject's key", in, "%q %v", p, err)
			}
			if err := enc.Decrypt(ev); err != nil || ev.Secret != fmt.Sprintf("secret %d", i) {
				h.Fail("decrypt", in, "%q %v", ev.Secret, err)
			}
		}
		if len(got) != 7 {
			h.Fail("keys", e.name, "%v", got)
		}
		plain := rangedb.NewRawEvent("t", "1", "E", 1)
		if enc.Encrypt(plain) != nil || enc.Decrypt(plain) != nil {
			h.Fail("event without protected fields", e.name, "refused")
		}
		for what, f := range map[string]func() error{
			"store refuses the new key": func() error { ks.failSet = errors.New("refused"); return enc.Encrypt(&selfEvent{"new1", "x"}) },
			"store cannot be read":      func() error { ks.failGet = errors.New("down"); return enc.Encrypt(&selfEvent{"new2", "x"}) },
			"store cannot be read at decryption": func() error {
				ks.failGet = errors.New("down")
				return enc.Decrypt(&selfEvent{"s1", "x"})
			},
			"subject without key":  func() error { return enc.Decrypt(&selfEvent{"nobody", "x"}) },
			"malformed text":       func() error { return enc.Decrypt(&selfEvent{"s1", "x"}) },
			"another subject's":    func() error { a := &selfEvent{"s1", "x"}; _ = enc.Encrypt(a); a.ID = "s2"; old := a.Secret; if err := enc.Decrypt(a); err != nil { return err }; if a.Secret != "x" && a.Secret != old { return errors.New("different text") }; return nil },
			"deleted key":          func() error { _ = ks.Delete("s3"); return enc.Decrypt(&selfEvent{"s3", "x"}) },
			"deleted key, encrypt": func() error { _ = ks.Delete("s4"); return enc.Encrypt(&selfEvent{"s4", "x"}) },
			"no randomness": func() error {
				enc.SetRandReader(&short{31})
				defer enc.SetRandReader(rand.Reader)
				return enc.Encrypt(&selfEvent{"new3", "x"})
			},
		} {
			ks.failSet, ks.failGet = nil, nil
			h.Case("%s %s", e.name, what)
			h.Guard(what, e.name, func() {
				if err := f(); err == nil {
					h.Fail(what, e.name, "no error")
				}
			})
		}
	}
}
