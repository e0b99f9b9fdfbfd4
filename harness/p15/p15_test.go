//go:build go1.22

package p15

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/provider/cachekeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/verifharness/vh"
)

// model: what a key store must answer.
type model struct {
	key     map[string]string
	deleted map[string]bool
	used    map[string]bool
}

func newModel() *model {
	return &model{map[string]string{}, map[string]bool{}, map[string]bool{}}
}

type op struct {
	Kind, Subject, Key string
}

// apply runs one operation on the store under test and on the model; it returns a complaint or "".
func (m *model) apply(s crypto.KeyStore, o op) string {
	switch o.Kind {
	case "get":
		k, err := s.Get(o.Subject)
		switch {
		case m.deleted[o.Subject]:
			if err != crypto.ErrKeyWasDeleted || k != "" {
				return fmt.Sprintf("a deleted subject answers %q, %v", k, err)
			}
		case m.key[o.Subject] != "":
			if err != nil || k != m.key[o.Subject] {
				return fmt.Sprintf("want key %q, got %q, %v", m.key[o.Subject], k, err)
			}
		default:
			if err != crypto.ErrKeyNotFound || k != "" {
				return fmt.Sprintf("an unknown subject answers %q, %v", k, err)
			}
		}
	case "set":
		err := s.Set(o.Subject, o.Key)
		var allowed []error
		if o.Key == "" {
			allowed = append(allowed, crypto.ErrInvalidKey)
		}
		if m.used[o.Key] {
			allowed = append(allowed, crypto.ErrKeyAlreadyUsed)
		}
		if m.key[o.Subject] != "" || m.deleted[o.Subject] {
			allowed = append(allowed, crypto.ErrKeyExistsForSubjectID)
		}
		if len(allowed) == 0 {
			if err != nil {
				return fmt.Sprintf("storing a first key is refused: %v", err)
			}
			m.key[o.Subject], m.used[o.Key] = o.Key, true
			return ""
		}
		for _, a := range allowed {
			if err == a {
				return ""
			}
		}
		return fmt.Sprintf("storing should be refused with one of %v, got %v", allowed, err)
	case "delete":
		if err := s.Delete(o.Subject); err != nil {
			return fmt.Sprintf("delete: %v", err)
		}
		m.deleted[o.Subject] = true
	}
	return ""
}

var kinds = map[string]func() crypto.KeyStore{
	"inmemory": func() crypto.KeyStore { return inmemorykeystore.New() },
	"cache":    func() crypto.KeyStore { return cachekeystore.New(inmemorykeystore.New(), inmemorykeystore.New()) },
	"cache-of-cache": func() crypto.KeyStore {
		return cachekeystore.New(inmemorykeystore.New(), cachekeystore.New(inmemorykeystore.New(), inmemorykeystore.New()))
	},
}

func ops() []op {
	var l []op
	for _, s := range []string{"a", "b"} {
		l = append(l, op{"delete", s, ""}, op{"set", s, "k"}, op{"set", s, "q"})
	}
	return append(l, op{"set", "a", ""}, op{"set", "", "k"}, op{"delete", "", ""}, op{"get", "a", ""})
}

func TestHistories(t *testing.T) {
	h := vh.New(t, "every operation sequence up to length 4 over two subjects, the empty subject, two keys and the empty key, every subject read after every step, on the in-memory store, a cache over it and a cache over a cache; non-trivial: the sequence is distinct")
	all := ops()
	for name, mk := range kinds {
		depth := h.N(4, 5)
		var rec func(seq []op)
		rec = func(seq []op) {
			if len(seq) > 0 {
				in := fmt.Sprint(name, seq)
				h.Case("%s", in)
				h.Guard("key store", in, func() {
					s, m := mk(), newModel()
					for i, o := range seq {
						if c := m.apply(s, o); c != "" {
							h.Fail("key store answers wrongly", in, "step %d: %s", i, c)
						}
						for _, sub := range []string{"a", "b", ""} {
							if c := m.apply(s, op{"get", sub, ""}); c != "" {
								h.Fail("key store answers wrongly", in, "read of %q after step %d: %s", sub, i, c)
							}
						}
					}
				})
			}
			if len(seq) < depth {
				for _, o := range all {
					rec(append(append([]op(nil), seq...), o))
				}
			}
		}
		rec(nil)
	}
}

func TestLongHistories(t *testing.T) {
	h := vh.New(t, "random sequences of 60 operations over 6 subjects and 8 keys, against the model; also with the store behind the cache written before the cache exists; non-trivial: the sequence is distinct")
	for i := 0; i < h.N(300, 5000); i++ {
		for name := range kinds {
			m := newModel()
			var seq []op
			s := kinds[name]()
			if name == "cache" {
				behind := inmemorykeystore.New()
				for j := 0; j < 10; j++ {
					o := rop(h)
					seq = append(seq, o)
					if c := m.apply(behind, o); c != "" {
						h.Fail("key store answers wrongly", fmt.Sprint("behind", seq), "%s", c)
					}
				}
				s = cachekeystore.New(inmemorykeystore.New(), behind)
			}
			for j := 0; j < 60; j++ {
				o := rop(h)
				seq = append(seq, o)
				if c := m.apply(s, o); c != "" {
					h.Fail("key store answers wrongly", fmt.Sprint(name, seq), "%s", c)
				}
			}
			h.Case("%s%v", name, seq)
		}
	}
}

func rop(h *vh.H) op {
	return op{[]string{"get", "set", "set", "delete", "get"}[h.Rng.Intn(5)], fmt.Sprint("s", h.Rng.Intn(6)), fmt.Sprint("k", h.Rng.Intn(8))}
}

// flaky is a store whose first call of one kind fails without effect.
type flaky struct {
	crypto.KeyStore
	failGet, failSet, failDelete int
}

var errFlaky = fmt.Errorf("flaky")

func (f *flaky) Get(s string) (string, error) {
	if f.failGet--; f.failGet == 0 {
		return "", errFlaky
	}
	return f.KeyStore.Get(s)
}

func (f *flaky) Set(s, k string) error {
	if f.failSet--; f.failSet == 0 {
		return errFlaky
	}
	return f.KeyStore.Set(s, k)
}

func (f *flaky) Delete(s string) error {
	if f.failDelete--; f.failDelete == 0 {
		return errFlaky
	}
	return f.KeyStore.Delete(s)
}

func TestFaults(t *testing.T) {
	h := vh.New(t, "every operation sequence of length 3 on a cache where the n-th get, set or delete of either store fails; a key never changes, a reported deletion is final, both stores agree; non-trivial: the case is distinct")
	all := []op{{"set", "a", "k"}, {"set", "a", "q"}, {"set", "b", "k"}, {"delete", "a", ""}, {"get", "a", ""}}
	for _, which := range []int{0, 1} {
		for kind := 0; kind < 3; kind++ {
			for n := 1; n <= 3; n++ {
				for code := 0; code < 5*5*5*5; code++ {
					fs := [2]*flaky{{KeyStore: inmemorykeystore.New()}, {KeyStore: inmemorykeystore.New()}}
					*[]*int{&fs[which].failGet, &fs[which].failSet, &fs[which].failDelete}[kind] = n
					s := cachekeystore.New(fs[0], fs[1])
					c := code
					in := fmt.Sprintf("store %d kind %d call %d code %d", which, kind, n, code)
					h.Case("%s", in)
					first := map[string]string{}
					gone := map[string]bool{}
					var log []string
					for j := 0; j < 4; j++ {
						o := all[c%5]
						c /= 5
						log = append(log, fmt.Sprint(o))
						switch o.Kind {
						case "set":
							err := s.Set(o.Subject, o.Key)
							if err == nil && (gone[o.Subject] || first[o.Subject] != "" && first[o.Subject] != o.Key) {
								h.Fail("a key was replaced", in, "%v", log)
							}
							if err == nil {
								first[o.Subject] = o.Key
							}
						case "delete":
							if err := s.Delete(o.Subject); err == nil {
								gone[o.Subject] = true
							}
						case "get":
							k, err := s.Get(o.Subject)
							if err == nil && (gone[o.Subject] || first[o.Subject] != "" && k != first[o.Subject]) {
								h.Fail("a key came back or changed", in, "%v: %q", log, k)
							}
							if err == nil {
								bk, berr := fs[1].KeyStore.Get(o.Subject)
								if (bk != k || berr != nil) && !(which == 0 && kind == 2) {
									h.Fail("the cache answers what the store behind it does not", in, "%v: %q, behind %q %v", log, k, bk, berr)
								}
								first[o.Subject] = k
							}
						}
					}
				}
			}
		}
	}
}

func TestConcurrent(t *testing.T) {
	h := vh.New(t, "8 goroutines read, store or delete the same subject at once on each kind of store, cold caches included; at most one key wins, every read that finds a key finds the winner, the same key never serves two subjects; non-trivial: the round is distinct")
	for i := 0; i < h.N(300, 4000); i++ {
		for name, mk := range kinds {
			in := fmt.Sprintf("%s round %d", name, i)
			h.Case("%s", in)
			h.Within("concurrent use of a key store", in, 20*time.Second, func() {
				s := mk()
				var wg sync.WaitGroup
				var mu sync.Mutex
				won := map[string][]string{}
				seen := map[string]bool{}
				for g := 0; g < 8; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						k := fmt.Sprint("k", g)
						if err := s.Set("a", k); err == nil {
							mu.Lock()
							won["a"] = append(won["a"], k)
							mu.Unlock()
						}
						if err := s.Set(fmt.Sprint("own", g), "same"); err == nil {
							mu.Lock()
							won["same"] = append(won["same"], k)
							mu.Unlock()
						}
						if k, err := s.Get("a"); err == nil {
							mu.Lock()
							seen[k] = true
							mu.Unlock()
						}
					}()
				}
				wg.Wait()
				if len(won["a"]) != 1 || len(won["same"]) != 1 {
					h.Fail("several stores of one subject or one key succeed", in, "%v", won)
				}
				if len(seen) != 1 || !seen[won["a"][0]] {
					h.Fail("a read finds another key than the stored one", in, "%v, stored %v", seen, won)
				}
				// cold cache read by many at once
				c := cachekeystore.New(inmemorykeystore.New(), s)
				for g := 0; g < 8; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if k, err := c.Get("a"); err != nil || k != won["a"][0] {
							mu.Lock()
							seen[fmt.Sprint(k, err)] = true
							mu.Unlock()
						}
					}()
				}
				wg.Wait()
				if len(seen) != 1 {
					h.Fail("a cache read at once by many answers differently from the store behind it", in, "%v", seen)
				}
			})
		}
	}
}
