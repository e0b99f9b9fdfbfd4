// Encryption (P14).

// ---- assumed: encoding, ciphers and random source ----

fun b64ok(string) bool
fun b64dec(string) string

func base64.(*Encoding).DecodeString(e, s) (b, err)
  option trusted
  ensures e == base64.StdEncoding ==> (err == nil <==> b64ok(s)) && (err == nil ==> bytes(b) == b64dec(s))

func base64.(*Encoding).EncodeToString(e, b) (s)
  option trusted
  ensures e == base64.StdEncoding ==> b64ok(s) && b64dec(s) == bytes(b)

// n copies of one byte.
fun rept(int, int) string
axiom[repeated-length] forall b int, n int {rept(b, n)} :: n >= 0 ==> len(rept(b, n)) == n
axiom[repeated-byte] forall b int, n int, i int {byteat(rept(b, n), i)} :: 0 <= i < n ==> byteat(rept(b, n), i) == b

func bytes.Repeat(b, n) (r)
  option trusted
  requires n >= 0
  ensures len(b) == 1 ==> bytes(r) == rept(b[0], n) && len(r) == n

// A source of bytes: the k-th read gives the k-th chunk.
nonnil crypto/rand.Reader
ghost nchunks(any) int
ghost nfailedreads(any) int
fun chunk(any) [int]string
fun srcof(any) string

func bytes.NewReader(b) (r)
  option trusted
  ensures fresh(r) && r != 0 && srcof(box(r, *bytes.Reader)) == bytes(b)
  ensures nchunks(box(r, *bytes.Reader)) == 0
  ensures textof(box(r, *bytes.Reader)) == bytes(b)

func io.ReadFull(r, buf) (n, err)
  option trusted
  modifies elems(buf), nchunks(r), nfailedreads(r)
  ensures err == nil ==> nfailedreads(r) == old(nfailedreads(r))
  ensures err != nil ==> nfailedreads(r) > old(nfailedreads(r))
  ensures err == nil ==> n == len(buf) && nchunks(r) == old(nchunks(r)) + 1 && bytes(buf) == chunk(r)[old(nchunks(r))]
  ensures istype(r, *bytes.Reader) && old(nchunks(r)) == 0 && len(buf) <= len(srcof(r)) && len(buf) > 0 ==> err == nil && bytes(buf) == substr(srcof(r), 0, len(buf))

// Block ciphers.
fun aesok(string) bool
fun blockkey(any) string
fun blocksize(any) int
axiom[key-sizes] forall k string {aesok(k)} :: aesok(k) <==> len(k) == 16 || len(k) == 24 || len(k) == 32

func aes.NewCipher(key) (b, err)
  option trusted
  ensures err == nil <==> aesok(bytes(key))
  ensures err == nil ==> b != nil && blockkey(b) == bytes(key) && blocksize(b) == 16

func iface cipher.Block.BlockSize(b) (n)
  ensures n == blocksize(b)

// Chaining mode: mode 1 encrypts, 2 decrypts; a mode object is used for one text here.
fun cbcmode(any) int
fun cbckey(any) string
fun cbciv(any) string
fun cbcenc(string, string, string) string
fun cbcdec(string, string, string) string
ghost modeused(any) int
axiom[inverse] forall k string, iv string, s string {cbcenc(k, iv, s)} :: cbcdec(k, iv, cbcenc(k, iv, s)) == s

func cipher.NewCBCEncrypter(b, iv) (m)
  option trusted
  requires len(iv) == blocksize(b)
  ensures m != nil && cbcmode(m) == 1 && cbckey(m) == blockkey(b) && cbciv(m) == bytes(iv) && modeused(m) == 0

func cipher.NewCBCDecrypter(b, iv) (m)
  option trusted
  requires len(iv) == blocksize(b)
  ensures m != nil && cbcmode(m) == 2 && cbckey(m) == blockkey(b) && cbciv(m) == bytes(iv) && modeused(m) == 0

func iface cipher.BlockMode.CryptBlocks(m, dst, src) ()
  requires[whole-blocks] len(src) % 16 == 0
  requires[room] len(dst) >= len(src)
  requires[no-overlap] arr(dst) != arr(src)
  modifies elems(dst), modeused(m)
  ensures modeused(m) == old(modeused(m)) + 1
  ensures old(modeused(m)) == 0 && len(dst) == len(src) && cbcmode(m) == 1 ==> bytes(dst) == cbcenc(cbckey(m), cbciv(m), bytes(src))
  ensures old(modeused(m)) == 0 && len(dst) == len(src) && cbcmode(m) == 2 ==> bytes(dst) == cbcdec(cbckey(m), cbciv(m), bytes(src))

// Authenticated encryption: an algorithm (1 AES/GCM, 2 XChaCha20-Poly1305) with a key.
fun aeadalg(any) int
fun aeadkey(any) string
fun noncesize(int) int
fun seal(int, string, string, string) string
fun opens(int, string, string, string) bool
fun open(int, string, string, string) string
axiom[nonce-sizes] noncesize(1) == 12 && noncesize(2) == 24
axiom[open-sealed] forall a int, k string, n string, s string {seal(a, k, n, s)} :: opens(a, k, n, seal(a, k, n, s)) && open(a, k, n, seal(a, k, n, s)) == s
axiom[authentic] forall a int, k string, n string, c string {opens(a, k, n, c)} :: opens(a, k, n, c) ==> c == seal(a, k, n, open(a, k, n, c))

func cipher.NewGCM(b) (a, err)
  option trusted
  ensures blocksize(b) == 16 ==> err == nil
  ensures err == nil ==> a != nil && aeadalg(a) == 1 && aeadkey(a) == blockkey(b)

func chacha20poly1305.NewX(key) (a, err)
  option trusted
  ensures err == nil <==> len(key) == 32
  ensures err == nil ==> a != nil && aeadalg(a) == 2 && aeadkey(a) == bytes(key)

func iface cipher.AEAD.NonceSize(a) (n)
  ensures n == noncesize(aeadalg(a))

func iface cipher.AEAD.Seal(a, dst, nonce, text, extra) (out)
  requires[nonce-size] len(nonce) == noncesize(aeadalg(a))
  requires[no-overlap] arr(dst) != arr(text) || cap(dst) == len(dst)
  modifies elems(dst)
  ensures len(extra) == 0 ==> bytes(out) == old(bytes(dst)) + seal(aeadalg(a), aeadkey(a), old(bytes(nonce)), old(bytes(text)))

func iface cipher.AEAD.Open(a, dst, nonce, text, extra) (out, err)
  requires[nonce-size] len(nonce) == noncesize(aeadalg(a))
  requires[no-overlap] arr(dst) != arr(text) || cap(dst) == len(dst)
  modifies elems(dst)
  ensures len(extra) == 0 ==> (err == nil <==> opens(aeadalg(a), aeadkey(a), old(bytes(nonce)), old(bytes(text))))
  ensures len(extra) == 0 && err == nil && len(dst) == 0 ==> bytes(out) == open(aeadalg(a), aeadkey(a), old(bytes(nonce)), old(bytes(text)))

// ---- AES/CBC/PKCS5 ----

func aes.pkcs5Padding(text, bs) (r)
  props P14
  option optional
  requires 1 <= bs <= 255
  modifies elems(text)
  ensures[padded] bytes(r) == old(bytes(text)) + rept(bs - len(text) % bs, bs - len(text) % bs)
  ensures[length] len(r) == len(text) + (bs - len(text) % bs)

func aes.pkcs5Trimming(text, bs) (r, err)
  props P14
  option optional
  requires[some-text] len(text) >= 1
  requires 1 <= bs <= 255 && bs <= len(text)
  let n = byteat(bytes(text), len(text) - 1)
  inv[link] k phi:int ::: k == $k - 1
  inv[bound] $k <= n
  inv[all-equal] forall i int {text[i]} :: len(text) - n <= i < len(text) - n + $k ==> text[i] == n
  ensures[accepts] err == nil ==> 1 <= n <= bs && (forall i int {byteat(bytes(text), i)} :: len(text) - n <= i < len(text) ==> byteat(bytes(text), i) == n)
  ensures[trimmed] err == nil ==> bytes(r) == substr(bytes(text), 0, len(text) - n)
  ensures[refuses] 1 <= n <= bs && (forall i int {byteat(bytes(text), i)} :: len(text) - n <= i < len(text) ==> byteat(bytes(text), i) == n) ==> err == nil
  cover err == nil
  cover err != nil

// What a CBC text holds: a block-sized start value followed by whole encrypted blocks whose decryption ends in valid padding.
pred cbcraw(k string, t string) = cbcdec(k, substr(t, 0, 16), substr(t, 16, len(t) - 16))
pred cbcpad(k string, t string) = byteat(cbcraw(k, t), len(t) - 17)
pred cbcgood(k string, t string) = aesok(k) && len(t) >= 32 && len(t) % 16 == 0 && 1 <= cbcpad(k, t) <= 16 && (forall i int {byteat(cbcraw(k, t), i)} :: len(t) - 16 - cbcpad(k, t) <= i < len(t) - 16 ==> byteat(cbcraw(k, t), i) == cbcpad(k, t))
pred cbcplain(k string, t string) = substr(cbcraw(k, t), 0, len(t) - 16 - cbcpad(k, t))
axiom[block-lengths] forall k string, iv string, s string {cbcenc(k, iv, s)} :: len(cbcenc(k, iv, s)) == len(s)
axiom[block-lengths-back] forall k string, iv string, s string {cbcdec(k, iv, s)} :: len(cbcdec(k, iv, s)) == len(s)

func aes.(*cbcPKCS5Padding).encrypt(e, text, key) (r, err)
  props P14
  option optional
  modifies any
  ensures[opens-again] err == nil ==> cbcgood(old(bytes(key)), bytes(r)) && cbcplain(old(bytes(key)), bytes(r)) == old(bytes(text))
  ensures[refuses] err == nil ==> aesok(old(bytes(key)))
  ensures[works] aesok(old(bytes(key))) && (forall r any {nfailedreads(r)} :: nfailedreads(r) == old(nfailedreads(r))) ==> err == nil
  cover err == nil

func aes.(*cbcPKCS5Padding).decrypt(e, key, text) (r, err)
  props P14
  option optional
  modifies any
  ensures[opened] err == nil ==> cbcgood(old(bytes(key)), old(bytes(text))) && bytes(r) == cbcplain(old(bytes(key)), old(bytes(text)))
  ensures[accepts] cbcgood(old(bytes(key)), old(bytes(text))) ==> err == nil
  cover err == nil
  cover err != nil

func aes.(*cbcPKCS5Padding).Encrypt(e, key, text) (r, err)
  props P14
  modifies any
  ensures[works] b64ok(key) && aesok(b64dec(key)) && (forall r any {nfailedreads(r)} :: nfailedreads(r) == old(nfailedreads(r))) ==> err == nil
  ensures[opens-again] err == nil ==> b64ok(key) && b64ok(r) && cbcgood(b64dec(key), b64dec(r)) && cbcplain(b64dec(key), b64dec(r)) == text
  cover err == nil

func aes.(*cbcPKCS5Padding).Decrypt(e, key, text) (r, err)
  props P14
  modifies any
  ensures[opened] err == nil ==> b64ok(key) && b64ok(text) && cbcgood(b64dec(key), b64dec(text)) && r == cbcplain(b64dec(key), b64dec(text))
  ensures[accepts] b64ok(key) && b64ok(text) && cbcgood(b64dec(key), b64dec(text)) ==> err == nil
  cover err == nil

// ---- authenticated engines: a nonce followed by the sealed text ----

pred aeadgood(a int, k string, t string) = len(t) >= noncesize(a) && opens(a, k, substr(t, 0, noncesize(a)), substr(t, noncesize(a), len(t) - noncesize(a)))
pred aeadplain(a int, k string, t string) = open(a, k, substr(t, 0, noncesize(a)), substr(t, noncesize(a), len(t) - noncesize(a)))

func aes.NewGCM() (e)
  props P14
  ensures[random-nonces] fresh(e) && e.randReader != nil

func aes.(*gcm).encrypt(e, text, key) (r, err)
  props P14
  option optional
  requires e.randReader != nil
  modifies any
  ensures[works] aesok(old(bytes(key))) && nfailedreads(old(e.randReader)) == old(nfailedreads(e.randReader)) ==> err == nil
  ensures[opens-again] err == nil ==> aesok(old(bytes(key))) && aeadgood(1, old(bytes(key)), bytes(r)) && aeadplain(1, old(bytes(key)), bytes(r)) == old(bytes(text))
  ensures[nonce-is-the-next-random-chunk] err == nil ==> nchunks(old(e.randReader)) == old(nchunks(e.randReader)) + 1 && substr(bytes(r), 0, 12) == chunk(old(e.randReader))[old(nchunks(e.randReader))]
  cover err == nil

func aes.(*gcm).decrypt(e, key, text) (r, err)
  props P14
  option optional
  modifies any
  ensures[opened] err == nil ==> aesok(old(bytes(key))) && aeadgood(1, old(bytes(key)), old(bytes(text))) && bytes(r) == aeadplain(1, old(bytes(key)), old(bytes(text)))
  ensures[accepts] aesok(old(bytes(key))) && aeadgood(1, old(bytes(key)), old(bytes(text))) ==> err == nil
  cover err == nil
  cover err != nil

func aes.(*gcm).Encrypt(e, key, text) (r, err)
  props P14
  requires e.randReader != nil
  modifies any
  ensures[works] b64ok(key) && aesok(b64dec(key)) && nfailedreads(old(e.randReader)) == old(nfailedreads(e.randReader)) ==> err == nil
  ensures[opens-again] err == nil ==> b64ok(key) && b64ok(r) && aesok(b64dec(key)) && aeadgood(1, b64dec(key), b64dec(r)) && aeadplain(1, b64dec(key), b64dec(r)) == text
  ensures[nonce-is-the-next-random-chunk] err == nil ==> nchunks(old(e.randReader)) == old(nchunks(e.randReader)) + 1 && substr(b64dec(r), 0, 12) == chunk(old(e.randReader))[old(nchunks(e.randReader))]
  cover err == nil

func aes.(*gcm).Decrypt(e, key, text) (r, err)
  props P14
  modifies any
  ensures[opened] err == nil ==> b64ok(key) && b64ok(text) && aesok(b64dec(key)) && aeadgood(1, b64dec(key), b64dec(text)) && r == aeadplain(1, b64dec(key), b64dec(text))
  ensures[accepts] b64ok(key) && b64ok(text) && aesok(b64dec(key)) && aeadgood(1, b64dec(key), b64dec(text)) ==> err == nil
  cover err == nil

func xchacha20poly1305.New() (e)
  props P14
  ensures[random-nonces] fresh(e) && e.randReader != nil

func xchacha20poly1305.(*xChaCha20Poly1305).encrypt(e, text, key) (r, err)
  props P14
  option optional
  requires e.randReader != nil
  modifies any
  ensures[works] len(key) == 32 && nfailedreads(old(e.randReader)) == old(nfailedreads(e.randReader)) ==> err == nil
  ensures[opens-again] err == nil ==> len(key) == 32 && aeadgood(2, old(bytes(key)), bytes(r)) && aeadplain(2, old(bytes(key)), bytes(r)) == old(bytes(text))
  ensures[nonce-is-the-next-random-chunk] err == nil ==> nchunks(old(e.randReader)) == old(nchunks(e.randReader)) + 1 && substr(bytes(r), 0, 24) == chunk(old(e.randReader))[old(nchunks(e.randReader))]
  cover err == nil

func xchacha20poly1305.(*xChaCha20Poly1305).decrypt(e, key, text) (r, err)
  props P14
  option optional
  modifies any
  ensures[opened] err == nil ==> len(key) == 32 && aeadgood(2, old(bytes(key)), old(bytes(text))) && bytes(r) == aeadplain(2, old(bytes(key)), old(bytes(text)))
  ensures[accepts] len(key) == 32 && aeadgood(2, old(bytes(key)), old(bytes(text))) ==> err == nil
  cover err == nil
  cover err != nil

func xchacha20poly1305.(*xChaCha20Poly1305).Encrypt(e, key, text) (r, err)
  props P14
  requires e.randReader != nil
  modifies any
  ensures[works] b64ok(key) && len(b64dec(key)) == 32 && nfailedreads(old(e.randReader)) == old(nfailedreads(e.randReader)) ==> err == nil
  ensures[opens-again] err == nil ==> b64ok(key) && b64ok(r) && len(b64dec(key)) == 32 && aeadgood(2, b64dec(key), b64dec(r)) && aeadplain(2, b64dec(key), b64dec(r)) == text
  ensures[nonce-is-the-next-random-chunk] err == nil ==> nchunks(old(e.randReader)) == old(nchunks(e.randReader)) + 1 && substr(b64dec(r), 0, 24) == chunk(old(e.randReader))[old(nchunks(e.randReader))]
  cover err == nil

func xchacha20poly1305.(*xChaCha20Poly1305).Decrypt(e, key, text) (r, err)
  props P14
  modifies any
  ensures[opened] err == nil ==> b64ok(key) && b64ok(text) && len(b64dec(key)) == 32 && aeadgood(2, b64dec(key), b64dec(text)) && r == aeadplain(2, b64dec(key), b64dec(text))
  ensures[accepts] b64ok(key) && b64ok(text) && len(b64dec(key)) == 32 && aeadgood(2, b64dec(key), b64dec(text)) ==> err == nil
  cover err == nil

// ---- the event encryptor: one key per subject, made once from 32 random bytes ----

fun opensas(any, string, string) string

func iface crypto.Encryptor.Encrypt(en, key, text) (r, err)
  modifies nchunks, nfailedreads
  ensures err == nil ==> opensas(en, key, r) == text

func iface crypto.Encryptor.Decrypt(en, key, text) (r, err)
  ensures err == nil ==> r == opensas(en, key, text)

func eventencryptor.newEngine(ks, en) (g)
  props P14
  option optional
  ensures[wired] fresh(g) && g.keyStore == ks && g.encryptor == en && g.randReader != nil

func eventencryptor.New(ks, en) (e)
  props P14
  ensures[wired] fresh(e) && fresh(e.engine) && e.engine.keyStore == ks && e.engine.encryptor == en && e.engine.randReader != nil

func eventencryptor.(*engine).newBase64AES256Key(g) (key, err)
  props P14
  option optional
  requires g.randReader != nil
  modifies nchunks(g.randReader), nfailedreads(g.randReader)
  ensures[random-key] err == nil ==> b64ok(key) && len(b64dec(key)) == 32 && b64dec(key) == chunk(g.randReader)[old(nchunks(g.randReader))] && nchunks(g.randReader) == old(nchunks(g.randReader)) + 1
  cover err == nil

func eventencryptor.(*engine).Encrypt(g, subject, text) (r, err)
  props P14
  requires g.keyStore != nil && g.encryptor != nil && g.randReader != nil
  modifies kstage(g.keyStore), kkey(g.keyStore), nchunks, nfailedreads
  ensures[key-of-the-subject] err == nil ==> kstage(g.keyStore)[subject] == 1 && opensas(g.encryptor, kkey(g.keyStore)[subject], r) == text
  ensures[key-kept] old(kstage(g.keyStore)[subject]) != 0 ==> kstage(g.keyStore)[subject] == old(kstage(g.keyStore)[subject]) && kkey(g.keyStore)[subject] == old(kkey(g.keyStore)[subject])
  ensures[deleted-stays-deleted] old(kstage(g.keyStore)[subject]) == 2 ==> err != nil
  ensures[others-kept] forall o string {kstage(g.keyStore)[o]} :: o != subject ==> kstage(g.keyStore)[o] == old(kstage(g.keyStore)[o]) && kkey(g.keyStore)[o] == old(kkey(g.keyStore)[o])
  ensures[new-key-is-random] err == nil && old(kstage(g.keyStore)[subject]) == 0 ==> b64ok(kkey(g.keyStore)[subject]) && b64dec(kkey(g.keyStore)[subject]) == chunk(g.randReader)[old(nchunks(g.randReader))] && len(b64dec(kkey(g.keyStore)[subject])) == 32
  cover err == nil && old(kstage(g.keyStore)[subject]) == 1
  cover err == nil && old(kstage(g.keyStore)[subject]) == 0

func eventencryptor.(*engine).Decrypt(g, subject, text) (r, err)
  props P14
  requires g.keyStore != nil && g.encryptor != nil
  ensures[key-of-the-subject] err == nil ==> kstage(g.keyStore)[subject] == 1 && r == opensas(g.encryptor, kkey(g.keyStore)[subject], text)
  ensures[deleted-stays-deleted] kstage(g.keyStore)[subject] == 2 ==> err != nil
  cover err == nil

// An event that encrypts itself is asked to do so once, with the engine; other events are left alone.
ghost nselfenc(any) int
ghost nselfdec(any) int
fun selfencerr(any) [int]any
fun selfdecerr(any) [int]any
fun selfencby(any) [int]any
fun selfdecby(any) [int]any

func iface crypto.SelfEncryptor.Encrypt(ev, en) (err)
  modifies any
  ensures nselfenc(ev) == old(nselfenc(ev)) + 1 && nselfdec(ev) == old(nselfdec(ev))
  ensures err == selfencerr(ev)[old(nselfenc(ev))] && en == selfencby(ev)[old(nselfenc(ev))]

func iface crypto.SelfEncryptor.Decrypt(ev, en) (err)
  modifies any
  ensures nselfdec(ev) == old(nselfdec(ev)) + 1 && nselfenc(ev) == old(nselfenc(ev))
  ensures err == selfdecerr(ev)[old(nselfdec(ev))] && en == selfdecby(ev)[old(nselfdec(ev))]

func eventencryptor.(*eventEncryptor).Encrypt(e, event) (err)
  props P14
  modifies any
  ensures[asked-once] istype(event, crypto.SelfEncryptor) ==> nselfenc(event) == old(nselfenc(event)) + 1 && nselfdec(event) == old(nselfdec(event)) && err == selfencerr(event)[old(nselfenc(event))] && selfencby(event)[old(nselfenc(event))] == box(old(e.engine), *eventencryptor.engine)
  ensures[others-left] !istype(event, crypto.SelfEncryptor) ==> err == nil && nselfenc(event) == old(nselfenc(event)) && nselfdec(event) == old(nselfdec(event))

func eventencryptor.(*eventEncryptor).Decrypt(e, event) (err)
  props P14
  modifies any
  ensures[asked-once] istype(event, crypto.SelfEncryptor) ==> nselfdec(event) == old(nselfdec(event)) + 1 && nselfenc(event) == old(nselfenc(event)) && err == selfdecerr(event)[old(nselfdec(event))] && selfdecby(event)[old(nselfdec(event))] == box(old(e.engine), *eventencryptor.engine)
  ensures[others-left] !istype(event, crypto.SelfEncryptor) ==> err == nil && nselfenc(event) == old(nselfenc(event)) && nselfdec(event) == old(nselfdec(event))
