// The encrypting store (P16). An event encryptor encrypts or decrypts one event object, or fails and leaves it.

ghost ndecerr(any) int

func iface crypto.EventEncryptor.Encrypt(ee, event) (err)
  modifies encn(event)
  ensures err == nil ==> encn(event) == old(encn(event)) + 1
  ensures err != nil ==> encn(event) == old(encn(event))

func iface crypto.EventEncryptor.Decrypt(ee, event) (err)
  modifies encn(event), ndecerr(ee)
  ensures err == nil ==> encn(event) == old(encn(event)) - 1 && ndecerr(ee) == old(ndecerr(ee))
  ensures err != nil ==> encn(event) == old(encn(event)) && ndecerr(ee) == old(ndecerr(ee)) + 1

// The place of an event in its batch (events of a batch are distinct objects).
fun evidx(any) int
pred inbatch(recs []*rangedb.EventRecord, x any) = 0 <= evidx(x) < len(recs) && recs[evidx(x)].Event == x
pred batch(recs []*rangedb.EventRecord) = forall i int {recs[i]} :: 0 <= i < len(recs) ==> recs[i] != nil && evidx(recs[i].Event) == i

func encryptedstore.New(parent, eventEncryptor) (e)
  props P16
  ensures[wired] fresh(e) && e.parent == parent && e.eventEncryptor == eventEncryptor

func encryptedstore.(*encryptedStore).restoreEvents(e, recs) ()
  props P16
  option optional
  requires e.eventEncryptor != nil
  requires batch(recs)
  modifies encn, ndecerr(e.eventEncryptor)
  inv[link] k phi:int ::: k == $k - 1
  inv[link2] k phi:int ::: k == $k
  inv[bound] $k <= len(recs)
  inv[failures] ndecerr(e.eventEncryptor) >= old(ndecerr(e.eventEncryptor))
  inv[restored] ndecerr(e.eventEncryptor) == old(ndecerr(e.eventEncryptor)) ==> (forall i int {recs[i]} :: 0 <= i < $k ==> encn(recs[i].Event) == old(encn(recs[i].Event)) - 1)
  inv[rest] forall x any {encn(x)} :: !(inbatch(recs, x) && evidx(x) < $k) ==> encn(x) == old(encn(x))
  ensures[restored] ndecerr(e.eventEncryptor) >= old(ndecerr(e.eventEncryptor)) && (ndecerr(e.eventEncryptor) == old(ndecerr(e.eventEncryptor)) ==> (forall i int {recs[i]} :: 0 <= i < len(recs) ==> encn(recs[i].Event) == old(encn(recs[i].Event)) - 1))
  ensures[others-kept] forall x any {encn(x)} :: !inbatch(recs, x) ==> encn(x) == old(encn(x))

func encryptedstore.(*encryptedStore).Save(e, ctx, streamName, recs) (n, err)
  props P16
  requires e.parent != nil && e.eventEncryptor != nil
  requires batch(recs)
  modifies nsaves(e.parent), encn, ndecerr(e.eventEncryptor)
  inv[link] k phi:int ::: k == $k - 1
  inv[link2] k phi:int ::: k == $k
  inv[bound] $k <= len(recs)
  inv[not-saved-yet] nsaves(e.parent) == old(nsaves(e.parent)) && ndecerr(e.eventEncryptor) == old(ndecerr(e.eventEncryptor))
  inv[encrypted-once] forall i int {recs[i]} :: 0 <= i < $k ==> encn(recs[i].Event) == old(encn(recs[i].Event)) + 1
  inv[rest] forall x any {encn(x)} :: !(inbatch(recs, x) && evidx(x) < $k) ==> encn(x) == old(encn(x))
  ensures[one-save] nsaves(e.parent) <= old(nsaves(e.parent)) + 1 && nsaves(e.parent) >= old(nsaves(e.parent))
  ensures[same-batch] nsaves(e.parent) > old(nsaves(e.parent)) ==> savestream(e.parent)[old(nsaves(e.parent))] == streamName && saverecs(e.parent)[old(nsaves(e.parent))] == recs && saveexp(e.parent)[old(nsaves(e.parent))] == -1
  ensures[every-event-encrypted-once] nsaves(e.parent) > old(nsaves(e.parent)) ==> (forall i int {recs[i]} :: 0 <= i < len(recs) ==> saveenc(e.parent, old(nsaves(e.parent)))[recs[i].Event] == old(encn(recs[i].Event)) + 1)
  ensures[result] err == nil ==> nsaves(e.parent) == old(nsaves(e.parent)) + 1 && saveok(e.parent)[old(nsaves(e.parent))] && n == saveres(e.parent)[old(nsaves(e.parent))]
  ensures[parent-error] nsaves(e.parent) > old(nsaves(e.parent)) && !saveok(e.parent)[old(nsaves(e.parent))] ==> err == saveerr(e.parent)[old(nsaves(e.parent))]
  ensures[failure-restores] err != nil && ndecerr(e.eventEncryptor) == old(ndecerr(e.eventEncryptor)) ==> (forall i int {recs[i]} :: 0 <= i < len(recs) ==> encn(recs[i].Event) == old(encn(recs[i].Event)))
  ensures[others-kept] forall x any {encn(x)} :: !inbatch(recs, x) ==> encn(x) == old(encn(x))
  cover err == nil
  cover err != nil && nsaves(e.parent) == old(nsaves(e.parent))

func encryptedstore.(*encryptedStore).OptimisticSave(e, ctx, expected, streamName, recs) (n, err)
  props P16
  requires e.parent != nil && e.eventEncryptor != nil
  requires batch(recs)
  modifies nsaves(e.parent), encn, ndecerr(e.eventEncryptor)
  inv[link] k phi:int ::: k == $k - 1
  inv[link2] k phi:int ::: k == $k
  inv[bound] $k <= len(recs)
  inv[not-saved-yet] nsaves(e.parent) == old(nsaves(e.parent)) && ndecerr(e.eventEncryptor) == old(ndecerr(e.eventEncryptor))
  inv[encrypted-once] forall i int {recs[i]} :: 0 <= i < $k ==> encn(recs[i].Event) == old(encn(recs[i].Event)) + 1
  inv[rest] forall x any {encn(x)} :: !(inbatch(recs, x) && evidx(x) < $k) ==> encn(x) == old(encn(x))
  ensures[one-save] nsaves(e.parent) <= old(nsaves(e.parent)) + 1 && nsaves(e.parent) >= old(nsaves(e.parent))
  ensures[same-batch] nsaves(e.parent) > old(nsaves(e.parent)) ==> savestream(e.parent)[old(nsaves(e.parent))] == streamName && saverecs(e.parent)[old(nsaves(e.parent))] == recs && saveexp(e.parent)[old(nsaves(e.parent))] == expected
  ensures[every-event-encrypted-once] nsaves(e.parent) > old(nsaves(e.parent)) ==> (forall i int {recs[i]} :: 0 <= i < len(recs) ==> saveenc(e.parent, old(nsaves(e.parent)))[recs[i].Event] == old(encn(recs[i].Event)) + 1)
  ensures[result] err == nil ==> nsaves(e.parent) == old(nsaves(e.parent)) + 1 && saveok(e.parent)[old(nsaves(e.parent))] && n == saveres(e.parent)[old(nsaves(e.parent))]
  ensures[parent-error] nsaves(e.parent) > old(nsaves(e.parent)) && !saveok(e.parent)[old(nsaves(e.parent))] ==> err == saveerr(e.parent)[old(nsaves(e.parent))]
  ensures[failure-restores] err != nil && ndecerr(e.eventEncryptor) == old(ndecerr(e.eventEncryptor)) ==> (forall i int {recs[i]} :: 0 <= i < len(recs) ==> encn(recs[i].Event) == old(encn(recs[i].Event)))
  ensures[others-kept] forall x any {encn(x)} :: !inbatch(recs, x) ==> encn(x) == old(encn(x))
  cover err == nil
  cover err != nil && nsaves(e.parent) == old(nsaves(e.parent))

pred reading(r any, e *encryptedstore.encryptedStore) = istype(r, *encryptedstore.decryptingRecordIterator) && unbox(r, *encryptedstore.decryptingRecordIterator).eventEncryptor == e.eventEncryptor && unbox(r, *encryptedstore.decryptingRecordIterator).currentErr == nil && readof(unbox(r, *encryptedstore.decryptingRecordIterator).parent) == e.parent
pred source16(r any) = unbox(r, *encryptedstore.decryptingRecordIterator).parent

func encryptedstore.NewDecryptingRecordIterator(parent, eventEncryptor) (i)
  props P16
  ensures[wired] fresh(i) && i.parent == parent && i.eventEncryptor == eventEncryptor && i.currentErr == nil && i.currentRecord == nil

func encryptedstore.(*encryptedStore).Events(e, ctx, g) (it)
  props P16
  requires e.parent != nil
  modifies nreads(e.parent)
  ensures[same-read-decrypted] reading(it, e) && readkind(source16(it)) == 1 && readfrom(source16(it)) == g && readctx(source16(it)) == ctx && nreads(e.parent) == old(nreads(e.parent)) + 1

func encryptedstore.(*encryptedStore).EventsByAggregateTypes(e, ctx, g, types) (it)
  props P16
  requires e.parent != nil
  modifies nreads(e.parent)
  ensures[same-read-decrypted] reading(it, e) && readkind(source16(it)) == 2 && readfrom(source16(it)) == g && readctx(source16(it)) == ctx && readtypes(source16(it)) == types && nreads(e.parent) == old(nreads(e.parent)) + 1

func encryptedstore.(*encryptedStore).EventsByStream(e, ctx, g, streamName) (it)
  props P16
  requires e.parent != nil
  modifies nreads(e.parent)
  ensures[same-read-decrypted] reading(it, e) && readkind(source16(it)) == 3 && readfrom(source16(it)) == g && readctx(source16(it)) == ctx && readstream(source16(it)) == streamName && nreads(e.parent) == old(nreads(e.parent)) + 1

func encryptedstore.(*encryptedStore).OptimisticDeleteStream(e, ctx, expected, streamName) (err)
  props P16
  requires e.parent != nil
  modifies ndeletes(e.parent)
  ensures[passed-through] ndeletes(e.parent) == old(ndeletes(e.parent)) + 1 && delstream(e.parent)[old(ndeletes(e.parent))] == streamName && delexp(e.parent)[old(ndeletes(e.parent))] == expected && err == delerr(e.parent)[old(ndeletes(e.parent))]

func encryptedstore.(*encryptedStore).TotalEventsInStream(e, ctx, streamName) (n, err)
  props P16
  requires e.parent != nil
  modifies ntotals(e.parent)
  ensures[passed-through] ntotals(e.parent) == old(ntotals(e.parent)) + 1 && totstream(e.parent)[old(ntotals(e.parent))] == streamName && n == totres(e.parent)[old(ntotals(e.parent))] && err == toterr(e.parent)[old(ntotals(e.parent))]

func encryptedstore.(*encryptedStore).Bind(e, events) ()
  props P16
  requires e.parent != nil
  modifies nbinds(e.parent)
  ensures[passed-through] nbinds(e.parent) == old(nbinds(e.parent)) + 1 && bindevents(e.parent)[old(nbinds(e.parent))] == events

pred decsub(x any, e *encryptedstore.encryptedStore, s any) = istype(x, *encryptedstore.decryptingRecordSubscriber) && unbox(x, *encryptedstore.decryptingRecordSubscriber).parent == s && unbox(x, *encryptedstore.decryptingRecordSubscriber).eventEncryptor == e.eventEncryptor

func encryptedstore.(*encryptedStore).AllEventsSubscription(e, ctx, bufferSize, subscriber) (r)
  props P16
  requires e.parent != nil
  ensures[same-subscription-decrypted] subof(r) == e.parent && subctx(r) == ctx && subbuf(r) == bufferSize && suball(r) && decsub(subto(r), e, subscriber)

func encryptedstore.(*encryptedStore).AggregateTypesSubscription(e, ctx, bufferSize, subscriber, types) (r)
  props P16
  requires e.parent != nil
  ensures[same-subscription-decrypted] subof(r) == e.parent && subctx(r) == ctx && subbuf(r) == bufferSize && !suball(r) && subtypes(r) == types && decsub(subto(r), e, subscriber)

func encryptedstore.NewDecryptingRecordSubscriber(parent, eventEncryptor) (d)
  props P16
  ensures[wired] fresh(d) && d.parent == parent && d.eventEncryptor == eventEncryptor

func encryptedstore.(*decryptingRecordSubscriber).Accept(d, record) ()
  props P16
  requires d.parent != nil && d.eventEncryptor != nil && record != nil
  modifies naccepts(d.parent), encn(record.Data), ndecerr(d.eventEncryptor)
  ensures[accepted-once] naccepts(d.parent) == old(naccepts(d.parent)) + 1 && acceptrec(d.parent)[old(naccepts(d.parent))] == record
  ensures[decrypted-once] istype(record.Data, rangedb.Event) && ndecerr(d.eventEncryptor) == old(ndecerr(d.eventEncryptor)) ==> acceptenc(d.parent, old(naccepts(d.parent)))[record.Data] == old(encn(record.Data)) - 1
  ensures[plain-untouched] !istype(record.Data, rangedb.Event) ==> encn(record.Data) == old(encn(record.Data))
  cover ndecerr(d.eventEncryptor) == old(ndecerr(d.eventEncryptor))

func encryptedstore.(*decryptingRecordIterator).Next(i) (more)
  props P16
  requires i.parent != nil && i.eventEncryptor != nil
  requires 0 <= itpos(i.parent)
  let p = i.parent
  let cur = itat(i.parent)[old(itpos(i.parent))]
  modifies i.currentRecord, i.currentErr, itpos(i.parent), iterr(i.parent), itdone(i.parent), encn, ndecerr(i.eventEncryptor)
  ensures[stops-after-failure] old(i.currentErr) != nil ==> !more && i.currentErr == old(i.currentErr) && itpos(p) == old(itpos(p))
  ensures[follows-parent] old(i.currentErr) == nil ==> (more <==> itpos(p) == old(itpos(p)) + 1) && (!more ==> itdone(p))
  ensures[same-record] more && i.currentErr == nil ==> i.currentRecord == cur
  ensures[decrypted-once] more && i.currentErr == nil && istype(cur.Data, rangedb.Event) ==> encn(cur.Data) == old(encn(cur.Data)) - 1
  ensures[no-record-on-failure] more && i.currentErr != nil ==> i.currentRecord == nil && ndecerr(i.eventEncryptor) == old(ndecerr(i.eventEncryptor)) + 1
  ensures[no-error-otherwise] old(i.currentErr) == nil && ndecerr(i.eventEncryptor) == old(ndecerr(i.eventEncryptor)) ==> i.currentErr == nil
  ensures[nothing-at-the-end] !more && old(i.currentErr) == nil ==> i.currentRecord == nil
  ensures[others-kept] forall x any {encn(x)} :: !(more && x == cur.Data && istype(x, rangedb.Event)) ==> encn(x) == old(encn(x))
  cover more && i.currentErr == nil
  cover more && i.currentErr != nil
  cover !more

func encryptedstore.(*decryptingRecordIterator).NextContext(i, ctx) (more)
  props P16
  requires i.parent != nil && i.eventEncryptor != nil && ctx != nil
  requires 0 <= itpos(i.parent)
  let p = i.parent
  let cur = itat(i.parent)[old(itpos(i.parent))]
  modifies i.currentRecord, i.currentErr, itpos(i.parent), iterr(i.parent), itdone(i.parent), encn, ndecerr(i.eventEncryptor), cancelled(ctx)
  ensures[stops-after-failure] old(i.currentErr) != nil ==> !more && i.currentErr == old(i.currentErr) && itpos(p) == old(itpos(p))
  ensures[follows-parent] old(i.currentErr) == nil ==> (more <==> itpos(p) == old(itpos(p)) + 1) && (!more ==> itdone(p))
  ensures[same-record] more && i.currentErr == nil ==> i.currentRecord == cur
  ensures[decrypted-once] more && i.currentErr == nil && istype(cur.Data, rangedb.Event) ==> encn(cur.Data) == old(encn(cur.Data)) - 1
  ensures[no-record-on-failure] more && i.currentErr != nil ==> i.currentRecord == nil && ndecerr(i.eventEncryptor) == old(ndecerr(i.eventEncryptor)) + 1
  ensures[no-error-otherwise] old(i.currentErr) == nil && ndecerr(i.eventEncryptor) == old(ndecerr(i.eventEncryptor)) ==> i.currentErr == nil
  ensures[nothing-at-the-end] !more && old(i.currentErr) == nil ==> i.currentRecord == nil
  ensures[others-kept] forall x any {encn(x)} :: !(more && x == cur.Data && istype(x, rangedb.Event)) ==> encn(x) == old(encn(x))
  cover more && i.currentErr == nil
  cover more && i.currentErr != nil
  cover !more

func encryptedstore.(*decryptingRecordIterator).Record(i) (r)
  props P16
  ensures[current] r == i.currentRecord

func encryptedstore.(*decryptingRecordIterator).Err(i) (r)
  props P16
  requires i.parent != nil
  ensures[own-or-parents] r == (if i.currentErr != nil then i.currentErr else iterr(i.parent))
