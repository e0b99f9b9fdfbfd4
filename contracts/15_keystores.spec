// Key stores (P15).

monitor inmemorykeystore.inMemoryKeyStore.mux(s)
  guards EncryptionKeysBySubjectID, EncryptionKeys
  invariant[maps] s.EncryptionKeysBySubjectID != 0 && s.EncryptionKeys != 0
  invariant[keys-are-recorded] forall k string {k in s.EncryptionKeysBySubjectID} :: k in s.EncryptionKeysBySubjectID && s.EncryptionKeysBySubjectID[k] != "" ==> s.EncryptionKeysBySubjectID[k] in s.EncryptionKeys
  invariant[one-subject-per-key] forall a string, b string {a in s.EncryptionKeysBySubjectID, b in s.EncryptionKeysBySubjectID} :: a in s.EncryptionKeysBySubjectID && b in s.EncryptionKeysBySubjectID && s.EncryptionKeysBySubjectID[a] != "" && s.EncryptionKeysBySubjectID[a] == s.EncryptionKeysBySubjectID[b] ==> a == b

func inmemorykeystore.New() (s)
  props P15
  ensures[empty] fresh(s) && fresh(s.EncryptionKeysBySubjectID) && fresh(s.EncryptionKeys) && s.EncryptionKeysBySubjectID != 0 && s.EncryptionKeys != 0
  ensures[nothing] forall k string {k in s.EncryptionKeysBySubjectID} :: !(k in s.EncryptionKeysBySubjectID)
  ensures[nothing2] forall k string {k in s.EncryptionKeys} :: !(k in s.EncryptionKeys)

func inmemorykeystore.(*inMemoryKeyStore).Get(i, subject) (key, err)
  props P15 P08
  ensures[own-key] err == nil ==> subject in i.EncryptionKeysBySubjectID && key == i.EncryptionKeysBySubjectID[subject] && key != ""
  ensures[found] subject in i.EncryptionKeysBySubjectID && i.EncryptionKeysBySubjectID[subject] != "" ==> err == nil
  ensures[deleted] subject in i.EncryptionKeysBySubjectID && i.EncryptionKeysBySubjectID[subject] == "" ==> err == crypto.ErrKeyWasDeleted && key == ""
  ensures[absent] !(subject in i.EncryptionKeysBySubjectID) ==> err == crypto.ErrKeyNotFound && key == ""
  cover err == nil
  cover err == crypto.ErrKeyWasDeleted

func inmemorykeystore.(*inMemoryKeyStore).Set(i, subject, key) (err)
  props P15 P08
  modifies map(i.EncryptionKeysBySubjectID), map(i.EncryptionKeys)
  ensures[stored] err == nil ==> key != "" && !old(subject in i.EncryptionKeysBySubjectID) && subject in i.EncryptionKeysBySubjectID && i.EncryptionKeysBySubjectID[subject] == key
  ensures[key-was-unused] err == nil ==> !old(key in i.EncryptionKeys) && key in i.EncryptionKeys
  ensures[others-kept] forall s string {s in i.EncryptionKeysBySubjectID} :: s != subject || err != nil ==> (s in i.EncryptionKeysBySubjectID <==> old(s in i.EncryptionKeysBySubjectID)) && i.EncryptionKeysBySubjectID[s] == old(i.EncryptionKeysBySubjectID[s])
  ensures[used-keys-kept] forall k string {k in i.EncryptionKeys} :: k != key || err != nil ==> (k in i.EncryptionKeys <==> old(k in i.EncryptionKeys))
  ensures[never-replaced] old(subject in i.EncryptionKeysBySubjectID) ==> err != nil
  ensures[refused-when] err != nil ==> key == "" && err == crypto.ErrInvalidKey || old(key in i.EncryptionKeys) && err == crypto.ErrKeyAlreadyUsed || old(subject in i.EncryptionKeysBySubjectID) && err == crypto.ErrKeyExistsForSubjectID
  cover err == nil

func inmemorykeystore.(*inMemoryKeyStore).Delete(i, subject) (err)
  props P15 P08
  modifies map(i.EncryptionKeysBySubjectID)
  ensures[marked] err == nil && subject in i.EncryptionKeysBySubjectID && i.EncryptionKeysBySubjectID[subject] == ""
  ensures[others-kept] forall s string {s in i.EncryptionKeysBySubjectID} :: s != subject ==> (s in i.EncryptionKeysBySubjectID <==> old(s in i.EncryptionKeysBySubjectID)) && i.EncryptionKeysBySubjectID[s] == old(i.EncryptionKeysBySubjectID[s])

// A key store as its users see it: per subject a stage (0 none, 1 stored, 2 deleted) and the key stored.
ghost kstage(any) [string]int
ghost kkey(any) [string]string

pred ksame(k any, s string) = forall o string {kstage(k)[o]} :: o != s ==> kstage(k)[o] == old(kstage(k)[o]) && kkey(k)[o] == old(kkey(k)[o])

func iface crypto.KeyStore.Get(ks, subject) (key, err)
  ensures err == nil ==> kstage(ks)[subject] == 1 && key == kkey(ks)[subject]
  ensures err == crypto.ErrKeyWasDeleted ==> kstage(ks)[subject] == 2
  ensures err == crypto.ErrKeyNotFound ==> kstage(ks)[subject] == 0

func iface crypto.KeyStore.Set(ks, subject, key) (err)
  modifies kstage(ks), kkey(ks)
  ensures forall o string {kstage(ks)[o]} :: o != subject || err != nil ==> kstage(ks)[o] == old(kstage(ks)[o]) && kkey(ks)[o] == old(kkey(ks)[o])
  ensures err == nil ==> old(kstage(ks)[subject]) == 0 && kstage(ks)[subject] == 1 && kkey(ks)[subject] == key
  ensures err == crypto.ErrKeyExistsForSubjectID ==> kstage(ks)[subject] != 0

func iface crypto.KeyStore.Delete(ks, subject) (err)
  modifies kstage(ks), kkey(ks)
  ensures forall o string {kstage(ks)[o]} :: o != subject ==> kstage(ks)[o] == old(kstage(ks)[o]) && kkey(ks)[o] == old(kkey(ks)[o])
  ensures kkey(ks)[subject] == old(kkey(ks)[subject]) && (kstage(ks)[subject] == old(kstage(ks)[subject]) || kstage(ks)[subject] == 2)
  ensures err == nil ==> kstage(ks)[subject] == 2

// The cache never holds a key the store behind it does not hold.
pred coherent(c *cachekeystore.cacheKeyStore) = forall o string {kstage(c.first)[o]} :: (kstage(c.first)[o] == 1 ==> kstage(c.second)[o] == 1 && kkey(c.first)[o] == kkey(c.second)[o]) && (kstage(c.first)[o] == 2 ==> kstage(c.second)[o] == 2)

func cachekeystore.New(first, second) (c)
  props P15
  ensures[wired] c.first == first && c.second == second

func cachekeystore.(*cacheKeyStore).Get(c, subject) (key, err)
  props P15
  requires c.first != nil && c.second != nil && c.first != c.second
  requires[coherent] coherent(c)
  modifies kstage(c.first), kkey(c.first)
  ensures[coherent] coherent(c)
  ensures[same-answer] err == nil ==> kstage(c.second)[subject] == 1 && key == kkey(c.second)[subject]
  ensures[deleted-stays-deleted] kstage(c.second)[subject] == 2 ==> err != nil
  cover err == nil

func cachekeystore.(*cacheKeyStore).Set(c, subject, key) (err)
  props P15
  requires c.first != nil && c.second != nil && c.first != c.second
  requires[coherent] coherent(c)
  modifies kstage(c.first), kkey(c.first), kstage(c.second), kkey(c.second)
  ensures[coherent] coherent(c)
  ensures[stored-behind] err == nil ==> old(kstage(c.second)[subject]) == 0 && kstage(c.second)[subject] == 1 && kkey(c.second)[subject] == key
  ensures[never-replaced] old(kstage(c.second)[subject]) != 0 ==> err != nil && kstage(c.second)[subject] == old(kstage(c.second)[subject]) && kkey(c.second)[subject] == old(kkey(c.second)[subject])
  ensures[others-kept] forall o string {kstage(c.second)[o]} :: o != subject ==> kstage(c.second)[o] == old(kstage(c.second)[o]) && kkey(c.second)[o] == old(kkey(c.second)[o])
  cover err == nil

func cachekeystore.(*cacheKeyStore).Delete(c, subject) (err)
  props P15
  requires c.first != nil && c.second != nil && c.first != c.second
  requires[coherent] coherent(c)
  modifies kstage(c.first), kkey(c.first), kstage(c.second), kkey(c.second)
  ensures[deleted-in-both] err == nil ==> kstage(c.second)[subject] == 2 && kstage(c.first)[subject] == 2 && coherent(c)
  ensures[others-kept] forall o string {kstage(c.second)[o]} :: o != subject ==> kstage(c.second)[o] == old(kstage(c.second)[o]) && kkey(c.second)[o] == old(kkey(c.second)[o])
  cover err == nil
