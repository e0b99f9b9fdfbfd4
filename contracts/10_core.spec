// Record iterators, publication of one record, bounded reads (P10).

func rangedb.NewRecordIterator(ch) (it)
  props P10 P05
  ensures[fresh] fresh(it)
  ensures[source] it.resultRecords == ch && it.current == zeroval(rangedb.ResultRecord)

func rangedb.(*recordIterator).Next(i) (more)
  props P10 P05
  modifies i.current, rcvd(i.resultRecords)
  ensures[reports] old(i.current.Err) == nil ==> (more <==> i.current.Record != nil)
  ensures[stops-at-error] old(i.current.Err) != nil ==> !more
  ensures[no-read-after-error] old(i.current.Err) != nil ==> i.current == old(i.current) && nrecv(i.resultRecords) == old(nrecv(i.resultRecords))
  ensures[next-value] old(i.current.Err) == nil && old(nrecv(i.resultRecords)) < nsent(i.resultRecords) ==>
     i.current == sent(i.resultRecords)[old(nrecv(i.resultRecords))] && nrecv(i.resultRecords) == old(nrecv(i.resultRecords)) + 1
  ensures[end] old(i.current.Err) == nil && old(nrecv(i.resultRecords)) >= nsent(i.resultRecords) ==>
     !more && i.current == zeroval(rangedb.ResultRecord) && nrecv(i.resultRecords) == old(nrecv(i.resultRecords))
  cover more
  cover !more

func rangedb.(*recordIterator).NextContext(i, ctx) (more)
  props P10 P05
  requires ctx != nil
  modifies i.current, rcvd(i.resultRecords), cancelled(ctx)
  ensures[reports] old(i.current.Err) == nil ==> (more <==> i.current.Record != nil)
  ensures[stops-at-error] old(i.current.Err) != nil ==> !more
  ensures[no-read-after-error] old(i.current.Err) != nil ==> i.current == old(i.current) && nrecv(i.resultRecords) == old(nrecv(i.resultRecords))
  ensures[next-value] old(i.current.Err) == nil && nrecv(i.resultRecords) != old(nrecv(i.resultRecords)) ==>
     old(nrecv(i.resultRecords)) < nsent(i.resultRecords) && i.current == sent(i.resultRecords)[old(nrecv(i.resultRecords))] && nrecv(i.resultRecords) == old(nrecv(i.resultRecords)) + 1
  ensures[end-or-cancel] old(i.current.Err) == nil && nrecv(i.resultRecords) == old(nrecv(i.resultRecords)) ==>
     i.current == zeroval(rangedb.ResultRecord) && old(nrecv(i.resultRecords)) >= nsent(i.resultRecords) || cancelled(ctx) && i.current.Record == nil && i.current.Err != nil
  cover more
  cover !more && cancelled(ctx)

func rangedb.(*recordIterator).Record(i) (r)
  props P10
  ensures r == i.current.Record

func rangedb.(*recordIterator).Err(i) (r)
  props P10
  ensures r == i.current.Err

func rangedb.NewRecordIteratorWithError(err) (it)
  props P10
  ensures[carries-error] fresh(it) && fresh(it.resultRecords) && nsent(it.resultRecords) == 1 && sent(it.resultRecords)[0].Err == err && sent(it.resultRecords)[0].Record == nil
  ensures[ends] closed(it.resultRecords) && nrecv(it.resultRecords) == 0 && it.current == zeroval(rangedb.ResultRecord)

func rangedb.PublishRecordOrCancel(ctx, ch, record, timeout) (ok)
  props P10 P05
  requires ctx != nil
  requires !closed(ch)
  modifies sent(ch), cancelled(ctx)
  ensures[publishes-exactly-it] ok ==> nsent(ch) == old(nsent(ch)) + 1 && sent(ch)[old(nsent(ch))].Record == record && sent(ch)[old(nsent(ch))].Err == nil
  ensures[cancelled] !ok ==> cancelled(ctx)
  ensures[cancel-error] !ok ==> nsent(ch) == old(nsent(ch)) || nsent(ch) == old(nsent(ch)) + 1 && sent(ch)[old(nsent(ch))].Record == nil && sent(ch)[old(nsent(ch))].Err != nil
  ensures[prefix] forall j int {sent(ch)[j]} :: j < old(nsent(ch)) ==> sent(ch)[j] == old(sent(ch)[j])
  ensures[nothing-once-cancelled] old(cancelled(ctx)) ==> !ok
  cover ok
  cover !ok

// A record source as its reader sees it: a finite sequence itat(it)[0..itn(it)), a position, and an error.
fun itn(any) int
fun itat(any) [int]*rangedb.Record
ghost itpos(any) int
ghost iterr(any) error
ghost itdone(any) bool

func iface rangedb.RecordIterator.Next(it) (more)
  modifies itpos(it), iterr(it), itdone(it)
  ensures old(itdone(it)) ==> !more && iterr(it) == old(iterr(it))
  ensures more ==> itpos(it) == old(itpos(it)) + 1 && 0 <= old(itpos(it)) < itn(it) && !itdone(it) && iterr(it) == nil && itat(it)[itpos(it) - 1] != nil
  ensures !more ==> itpos(it) == old(itpos(it)) && itdone(it)
  ensures !more && !old(itdone(it)) ==> iterr(it) != nil || itpos(it) >= itn(it)

func iface rangedb.RecordIterator.NextContext(it, ctx) (more)
  modifies itpos(it), iterr(it), itdone(it), cancelled(ctx)
  ensures old(itdone(it)) ==> !more && iterr(it) == old(iterr(it))
  ensures more ==> itpos(it) == old(itpos(it)) + 1 && 0 <= old(itpos(it)) < itn(it) && !itdone(it) && iterr(it) == nil && itat(it)[itpos(it) - 1] != nil
  ensures !more ==> itpos(it) == old(itpos(it)) && itdone(it)
  ensures !more && !old(itdone(it)) ==> iterr(it) != nil || itpos(it) >= itn(it)

func iface rangedb.RecordIterator.Record(it) (r)
  ensures !itdone(it) && itpos(it) > 0 ==> r == itat(it)[itpos(it) - 1]
  ensures itdone(it) && iterr(it) == nil ==> r == nil

func iface rangedb.RecordIterator.Err(it) (r)
  ensures r == iterr(it)

ghost opened(int) any
func functype func() (rangedb.RecordIterator, context.CancelFunc)(f) (it, done)
  modifies opened(0)
  ensures it != nil && done != nil && 0 <= itn(it) && itpos(it) == 0 && !itdone(it) && iterr(it) == nil && opened(0) == it

func functype context.CancelFunc(f) ()

// The first totalEvents records of the source, in order, nothing else.
func rangedb.ReadNRecords(totalEvents, f) (records)
  props P10
  requires f != nil
  modifies opened(0), itpos, iterr, itdone
  inv[collected] rs phi:[]*rangedb.Record; c phi:uint64 ::: len(rs) == c && itpos(opened(0)) == c && 0 <= c <= totalEvents && !itdone(opened(0)) && iterr(opened(0)) == nil
  inv[values] rs phi:[]*rangedb.Record ::: forall j int {rs[j]} :: 0 <= j < len(rs) ==> rs[j] == itat(opened(0))[j]
  inv[values2] rs []*rangedb.Record ::: forall j int {rs[j]} :: 0 <= j < len(rs) ==> rs[j] == itat(opened(0))[j]
  inv[count] rs []*rangedb.Record ::: len(rs) <= itpos(opened(0))
  inv[within] itpos(opened(0)) <= itn(opened(0))
  inv[drained] entry(itdone(opened(0))) ==> itdone(opened(0)) && iterr(opened(0)) == entry(iterr(opened(0)))
  ensures[bounded] len(records) <= totalEvents
  ensures[prefix] forall j int {records[j]} :: 0 <= j < len(records) ==> records[j] == itat(opened(0))[j]
  ensures[all-when-fewer] len(records) < totalEvents ==> len(records) == itn(opened(0)) || iterr(opened(0)) != nil
  cover len(records) == 2
