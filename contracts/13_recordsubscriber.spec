// Subscriptions (P13).
// The callback: a strictly ascending sequence of records, never called once its subscription's context is known to be
// cancelled. The preconditions are what the subscription owes: each delivery is checked against them.

fun cancels(ref) any
fun ctxparent(any) any
fun cbctx(ref) any
ghost ndeliv(ref) int
ghost lastdeliv(ref) int
ghost failedcb(ref) bool
fun delivrec(ref) [int]*rangedb.Record

func field recordsubscriber.recordSubscriber.consumeRecord(f, record) (err)
  requires[nothing-after-stopping] !cancelled(cbctx(f))
  requires[nothing-after-a-failure] !failedcb(f)
  requires[each-once-ascending] record != nil && record.GlobalSequenceNumber > lastdeliv(f)
  modifies ndeliv(f), lastdeliv(f), failedcb(f)
  ensures ndeliv(f) == old(ndeliv(f)) + 1 && delivrec(f)[old(ndeliv(f))] == record && lastdeliv(f) == record.GlobalSequenceNumber
  ensures failedcb(f) <==> err != nil

// Opening a read: the k-th iterator opened, the position it starts at, how many registrations there had been.
ghost nopen(ref) int
fun openit(ref) [int]any
fun openfrom(any) int
fun opensubs(any) int
ghost nsubs(ref) int
ghost nunsubs(ref) int
fun regof(ref) ref

// The guarantee of the stores (P05): a read gives records from its position on, ascending.
func field recordsubscriber.recordSubscriber.getRecords(f, from) (it)
  modifies nopen(f)
  ensures nopen(f) == old(nopen(f)) + 1 && openit(f)[old(nopen(f))] == it && openfrom(it) == from && opensubs(it) == nsubs(regof(f))
  ensures it != nil && itpos(it) == 0 && !itdone(it) && iterr(it) == nil && 0 <= itn(it)
  ensures forall j int {itat(it)[j]} :: 0 <= j < itn(it) ==> itat(it)[j] != nil && from <= itat(it)[j].GlobalSequenceNumber && 1 <= itat(it)[j].GlobalSequenceNumber && itat(it)[j].GlobalSequenceNumber < MAXU64
  ensures forall a int, b int {itat(it)[a], itat(it)[b]} :: 0 <= a && a < b && b < itn(it) ==> itat(it)[a].GlobalSequenceNumber < itat(it)[b].GlobalSequenceNumber

func field recordsubscriber.recordSubscriber.subscribe(f, s) ()
  modifies nsubs(f)
  ensures nsubs(f) == old(nsubs(f)) + 1

func field recordsubscriber.recordSubscriber.unsubscribe(f, s) ()
  modifies nunsubs(f)
  ensures nunsubs(f) == old(nunsubs(f)) + 1

func field recordsubscriber.recordSubscriber.cancelCtx(f) ()
  modifies cancelled(cancels(f))
  ensures cancelled(cancels(f))

pred wired13(s *recordsubscriber.recordSubscriber) = s.ctx != nil && s.getRecords != nil && s.consumeRecord != nil && s.subscribe != nil && s.unsubscribe != nil && cbctx(s.consumeRecord) == s.ctx && regof(s.getRecords) == s.subscribe
pred caughtup(s *recordsubscriber.recordSubscriber) = lastdeliv(s.consumeRecord) <= s.lastGlobalSequenceNumber
// The live feed: records announced by the broadcaster, ascending (P09, P12).
fun neverclosed(ref) bool
pred feed(s *recordsubscriber.recordSubscriber) = s.bufferedRecords != 0 && s.finishChan != 0 && s.stopChan != 0 && neverclosed(s.bufferedRecords) && !closed(s.bufferedRecords) && (forall j int {sent(s.bufferedRecords)[j]} :: 0 <= j < nsent(s.bufferedRecords) ==> sent(s.bufferedRecords)[j] != nil)

func recordsubscriber.New(config) (s)
  props P13
  requires config.Ctx != nil
  requires config.BufferSize >= 0
  ensures[wired] fresh(s) && s.getRecords == config.GetRecords && s.consumeRecord == config.ConsumeRecord && s.subscribe == config.Subscribe && s.unsubscribe == config.Unsubscribe
  ensures[own-context] s.ctx != nil && ctxparent(s.ctx) == config.Ctx && cancels(s.cancelCtx) == s.ctx
  ensures[nothing-yet] s.lastGlobalSequenceNumber == 0 && fresh(s.bufferedRecords) && fresh(s.finishChan) && nsent(s.bufferedRecords) == 0 && !closed(s.bufferedRecords) && !closed(s.finishChan) && chancap(s.bufferedRecords) == config.BufferSize

func recordsubscriber.(*recordSubscriber).Done(s) (ch)
  props P13
  ensures[finish] ch == s.finishChan

func recordsubscriber.(*recordSubscriber).Receiver(s) (ch)
  props P13 P12
  ensures[feed] ch == s.bufferedRecords

func recordsubscriber.(*recordSubscriber).Stop(s) ()
  props P13
  requires s.cancelCtx != nil && cancels(s.cancelCtx) == s.ctx && s.ctx != nil
  modifies cancelled(s.ctx)
  ensures[stopped] cancelled(s.ctx)

func recordsubscriber.(*recordSubscriber).recordHasAlreadyBeenSent(s, record) (r)
  props P13
  option optional
  requires record != nil
  ensures[by-position] r <==> record.GlobalSequenceNumber <= s.lastGlobalSequenceNumber

func recordsubscriber.(*recordSubscriber).writeRecord(s, record) (err)
  props P13
  option optional
  requires wired13(s) && caughtup(s) && record != nil
  requires !cancelled(s.ctx) && !failedcb(s.consumeRecord)
  requires record.GlobalSequenceNumber > s.lastGlobalSequenceNumber
  let f = s.consumeRecord
  modifies s.lastGlobalSequenceNumber, ndeliv(f), lastdeliv(f), failedcb(f)
  ensures[delivers-it] ndeliv(f) == old(ndeliv(f)) + 1 && delivrec(f)[old(ndeliv(f))] == record && s.lastGlobalSequenceNumber == record.GlobalSequenceNumber && lastdeliv(f) == record.GlobalSequenceNumber
  ensures[reports-failure] failedcb(f) <==> err != nil

func recordsubscriber.(*recordSubscriber).writeRecords(s, from) (err)
  props P13
  option optional
  requires wired13(s) && caughtup(s) && !failedcb(s.consumeRecord)
  requires s.lastGlobalSequenceNumber < from || from == 0 && s.lastGlobalSequenceNumber == 0
  requires s.lastGlobalSequenceNumber < MAXU64
  let f = s.consumeRecord
  let g = s.getRecords
  let it = openit(s.getRecords)[old(nopen(s.getRecords))]
  modifies s.lastGlobalSequenceNumber, ndeliv(f), lastdeliv(f), failedcb(f), nopen(g), itpos(it), iterr(it), itdone(it), cancelled(s.ctx)
  inv[opened] nopen(g) == old(nopen(g)) + 1 && !itdone(it) && iterr(it) == nil && 0 <= itpos(it) <= itn(it) && !failedcb(f)
  inv[caught-up] lastdeliv(f) <= s.lastGlobalSequenceNumber && s.lastGlobalSequenceNumber < MAXU64
  inv[below] forall j int {itat(it)[j]} :: itpos(it) <= j < itn(it) ==> s.lastGlobalSequenceNumber < itat(it)[j].GlobalSequenceNumber
  inv[unless-stopped] !cancelled(s.ctx) ==> ndeliv(f) == old(ndeliv(f)) + itpos(it) && (forall j int {delivrec(f)[old(ndeliv(f)) + j]} :: 0 <= j < itpos(it) ==> delivrec(f)[old(ndeliv(f)) + j] == itat(it)[j])
  inv[delivered] forall j int {itat(it)[j]} :: !cancelled(s.ctx) && 0 <= j < itpos(it) ==> delivrec(f)[old(ndeliv(f)) + j] == itat(it)[j]
  inv[last] !cancelled(s.ctx) ==> s.lastGlobalSequenceNumber == (if itpos(it) > 0 then itat(it)[itpos(it) - 1].GlobalSequenceNumber else old(s.lastGlobalSequenceNumber))
  inv[grows] s.lastGlobalSequenceNumber >= old(s.lastGlobalSequenceNumber)
  inv[stays-stopped] old(cancelled(s.ctx)) ==> cancelled(s.ctx)
  ensures[one-read] nopen(g) == old(nopen(g)) + 1 && openfrom(it) == from && opensubs(it) == old(nsubs(s.subscribe))
  ensures[all-in-order] err == nil && !cancelled(s.ctx) ==> ndeliv(f) == old(ndeliv(f)) + itn(it) && (forall j int {itat(it)[j]} :: 0 <= j < itn(it) ==> delivrec(f)[old(ndeliv(f)) + j] == itat(it)[j])
  ensures[read-error] iterr(it) != nil ==> err != nil
  ensures[callback-error] failedcb(f) ==> err != nil
  ensures[complete-or-error] err == nil && !cancelled(s.ctx) ==> iterr(it) == nil && itpos(it) == itn(it)
  ensures[last] err == nil && !cancelled(s.ctx) ==> s.lastGlobalSequenceNumber == (if itn(it) > 0 then itat(it)[itn(it) - 1].GlobalSequenceNumber else old(s.lastGlobalSequenceNumber))
  ensures[caught-up] lastdeliv(f) <= s.lastGlobalSequenceNumber && s.lastGlobalSequenceNumber < MAXU64 && s.lastGlobalSequenceNumber >= old(s.lastGlobalSequenceNumber)
  ensures[stays-stopped] old(cancelled(s.ctx)) ==> cancelled(s.ctx)

func recordsubscriber.(*recordSubscriber).StartFrom(s, from) (err)
  props P13
  requires wired13(s) && feed(s) && !closed(s.finishChan)
  requires s.lastGlobalSequenceNumber == 0 && lastdeliv(s.consumeRecord) == 0 && !failedcb(s.consumeRecord)
  let f = s.consumeRecord
  let g = s.getRecords
  let a = openit(s.getRecords)[old(nopen(s.getRecords))]
  let b = openit(s.getRecords)[old(nopen(s.getRecords)) + 1]
  modifies s.lastGlobalSequenceNumber, ndeliv(f), lastdeliv(f), failedcb(f), nopen(g), itpos, iterr, itdone, cancelled(s.ctx), nsubs(s.subscribe), nunsubs(s.unsubscribe)
  ensures[replay-from-position] nopen(g) >= old(nopen(g)) + 1 && openfrom(a) == from && opensubs(a) == old(nsubs(s.subscribe))
  ensures[then-register-then-read-the-rest] err == nil ==> nsubs(s.subscribe) == old(nsubs(s.subscribe)) + 1 && nunsubs(s.unsubscribe) == old(nunsubs(s.unsubscribe)) && nopen(g) == old(nopen(g)) + 2 && opensubs(b) == old(nsubs(s.subscribe)) + 1
  ensures[no-gap] err == nil && !cancelled(s.ctx) ==> openfrom(b) == (if itn(a) > 0 then itat(a)[itn(a) - 1].GlobalSequenceNumber + 1 else (if from > 0 then from else 1))
  ensures[all-in-order] err == nil && !cancelled(s.ctx) ==> ndeliv(f) == old(ndeliv(f)) + itn(a) + itn(b) && (forall j int {itat(a)[j]} :: 0 <= j < itn(a) ==> delivrec(f)[old(ndeliv(f)) + j] == itat(a)[j]) && (forall j int {itat(b)[j]} :: 0 <= j < itn(b) ==> delivrec(f)[old(ndeliv(f)) + itn(a) + j] == itat(b)[j])
  ensures[read-errors] iterr(a) != nil || nopen(g) == old(nopen(g)) + 2 && iterr(b) != nil ==> err != nil
  ensures[failed-start-leaves-nothing] err != nil ==> nsubs(s.subscribe) - old(nsubs(s.subscribe)) == nunsubs(s.unsubscribe) - old(nunsubs(s.unsubscribe))
  cover err == nil
  cover err != nil

func recordsubscriber.(*recordSubscriber).Start(s) (err)
  props P13
  requires wired13(s) && feed(s) && caughtup(s) && !failedcb(s.consumeRecord) && !closed(s.finishChan)
  modifies nsubs(s.subscribe), cancelled(s.ctx)
  ensures[registers-once] err == nil ==> nsubs(s.subscribe) == old(nsubs(s.subscribe)) + 1
  ensures[stopped-is-refused] err != nil ==> nsubs(s.subscribe) == old(nsubs(s.subscribe)) && cancelled(s.ctx)
  cover err == nil
  cover err != nil

func recordsubscriber.(*recordSubscriber).work(s) ()
  props P13
  option optional
  requires wired13(s) && feed(s) && caughtup(s) && !failedcb(s.consumeRecord) && !closed(s.finishChan)
  let f = s.consumeRecord
  modifies s.lastGlobalSequenceNumber, ndeliv(f), lastdeliv(f), failedcb(f), nunsubs(s.unsubscribe), cancelled(s.ctx), rcvd(s.bufferedRecords), rcvd(s.stopChan), closed(s.finishChan)
  inv[running] !failedcb(f) && !closed(s.finishChan) && nunsubs(s.unsubscribe) == old(nunsubs(s.unsubscribe))
  inv[caught-up] lastdeliv(f) <= s.lastGlobalSequenceNumber
  inv[none-skipped] forall j int {sent(s.bufferedRecords)[j]} :: old(nrecv(s.bufferedRecords)) <= j < nrecv(s.bufferedRecords) ==> sent(s.bufferedRecords)[j].GlobalSequenceNumber <= s.lastGlobalSequenceNumber
  inv[received] nrecv(s.bufferedRecords) >= old(nrecv(s.bufferedRecords))
  ensures[always-done] closed(s.finishChan)
  ensures[unregistered-once] nunsubs(s.unsubscribe) == old(nunsubs(s.unsubscribe)) + 1
  ensures[none-skipped] forall j int {sent(s.bufferedRecords)[j]} :: old(nrecv(s.bufferedRecords)) <= j < nrecv(s.bufferedRecords) - 1 ==> sent(s.bufferedRecords)[j].GlobalSequenceNumber <= s.lastGlobalSequenceNumber
