// Merging ordered sources (P11).

pred mergeout(r any) = unbox(r, *rangedb.recordIterator).resultRecords
// The source an iterator, a record or a number belongs to and a record's place in it: functions on the given
// sources (they exist because sources and numbers are distinct: see the preconditions), used instead of existentials.
fun srcidx(any) int
fun recsrc(*rangedb.Record) int
fun recpos(*rangedb.Record) int
fun numsrc(uint64) int
pred ofsource(r *rangedb.Record, its []rangedb.RecordIterator) = 0 <= recsrc(r) < len(its) && 0 <= recpos(r) < itn(its[recsrc(r)]) && r == itat(its[recsrc(r)])[recpos(r)]
pred source(it any) = it != nil && 0 <= itpos(it) <= itn(it)

func rangedb.drain(its) ()
  props P11
  option optional
  requires forall i int {its[i]} :: 0 <= i < len(its) ==> its[i] != nil
  modifies itpos, iterr, itdone
  inv[drained] forall x any {itdone(x)} {itpos(x)} {iterr(x)} :: old(itdone(x)) ==> itdone(x) && itpos(x) == old(itpos(x)) && iterr(x) == old(iterr(x))
  ensures[ended-stay-ended] forall x any {itdone(x)} {itpos(x)} {iterr(x)} :: old(itdone(x)) ==> itdone(x) && itpos(x) == old(itpos(x)) && iterr(x) == old(iterr(x))

func rangedb.remove(s, i) (r)
  props P11
  option optional
  requires 0 <= i < len(s)
  modifies elems(s)
  ensures[one-less] len(r) == len(s) - 1 && arr(r) == arr(s) && off(r) == off(s)
  ensures[the-others] forall p int {r[p]} {old(s[p])} :: 0 <= p < len(r) && p != i ==> r[p] == old(s[p])
  ensures[last-moved] i < len(r) ==> r[i] == old(s[len(s) - 1])

func rangedb.getIndexWithSmallestGlobalSequenceNumber(ps) (i)
  props P11
  option optional
  requires len(ps) > 0
  requires forall p int {ps[p]} :: 0 <= p < len(ps) ==> ps[p] != nil && ps[p].currentResultRecord.Record != nil
  inv[smallest] idx phi:int; m phi:uint64 ::: 0 <= idx < len(ps) && ps[idx].currentResultRecord.Record.GlobalSequenceNumber == m && (forall p int {ps[p]} :: 0 <= p < $k && p < len(ps) ==> m <= ps[p].currentResultRecord.Record.GlobalSequenceNumber)
  inv[smallest-from-one] idx phi:int; m phi:uint64 ::: 0 <= idx < len(ps) && ps[idx].currentResultRecord.Record.GlobalSequenceNumber == m && (forall p int {ps[p]} :: 0 <= p <= $k && p < len(ps) ==> m <= ps[p].currentResultRecord.Record.GlobalSequenceNumber)
  ensures[a-smallest] 0 <= i < len(ps) && (forall p int {ps[p]} :: 0 <= p < len(ps) ==> ps[i].currentResultRecord.Record.GlobalSequenceNumber <= ps[p].currentResultRecord.Record.GlobalSequenceNumber)

func rangedb.(*pipe).ReadNext(p) (more)
  props P11
  option optional
  requires p.recordIterator != nil && !itdone(p.recordIterator)
  modifies p.currentResultRecord, itpos(p.recordIterator), iterr(p.recordIterator), itdone(p.recordIterator)
  let it = p.recordIterator
  ensures[next] more ==> !old(itdone(it)) && itpos(it) == old(itpos(it)) + 1 && 0 <= old(itpos(it)) < itn(it) && !itdone(it) && iterr(it) == nil && p.currentResultRecord.Err == nil && p.currentResultRecord.Record != nil && p.currentResultRecord.Record == itat(it)[itpos(it) - 1]
  ensures[end] !more && !old(itdone(it)) ==> itdone(it) && itpos(it) == old(itpos(it)) && p.currentResultRecord.Err == iterr(it) && (iterr(it) != nil || itpos(it) >= itn(it))

pred pipesok(ps []*rangedb.pipe, its []rangedb.RecordIterator) = forall p int {ps[p]} :: 0 <= p < len(ps) ==> ps[p] != nil && allocated(ps[p]) && fresh(ps[p]) && !itdone(ps[p].recordIterator) && iterr(ps[p].recordIterator) == nil && 1 <= itpos(ps[p].recordIterator) && itpos(ps[p].recordIterator) <= itn(ps[p].recordIterator) && ps[p].currentResultRecord.Err == nil && ps[p].currentResultRecord.Record != nil && ps[p].currentResultRecord.Record == itat(ps[p].recordIterator)[itpos(ps[p].recordIterator) - 1] && 0 <= srcidx(ps[p].recordIterator) < len(its) && its[srcidx(ps[p].recordIterator)] == ps[p].recordIterator
pred pipesdistinct(ps []*rangedb.pipe) = forall p int, q int {ps[p], ps[q]} :: 0 <= p < len(ps) && 0 <= q < len(ps) && p != q ==> ps[p].recordIterator != ps[q].recordIterator
pred covered(ps []*rangedb.pipe, its []rangedb.RecordIterator, n int) = forall i int {its[i]} :: 0 <= i < n ==> itdone(its[i]) && iterr(its[i]) == nil && itpos(its[i]) == itn(its[i]) || (exists p int {ps[p]} :: 0 <= p < len(ps) && ps[p].recordIterator == its[i])
pred above(ch chan rangedb.ResultRecord, ps []*rangedb.pipe) = forall k int, p int {sent(ch)[k], ps[p]} :: 0 <= k < nsent(ch) && 0 <= p < len(ps) ==> sent(ch)[k].Record.GlobalSequenceNumber < ps[p].currentResultRecord.Record.GlobalSequenceNumber

func rangedb.MergeRecordIteratorsInOrder(its) (result)
  props P11
  requires[fresh-sources] forall i int {its[i]} :: 0 <= i < len(its) ==> source(its[i]) && itpos(its[i]) == 0 && !itdone(its[i]) && iterr(its[i]) == nil
  requires[distinct-sources] forall i int {its[i]} :: 0 <= i < len(its) ==> srcidx(its[i]) == i
  requires[distinct-records] forall i int, j int {itat(its[i])[j]} :: 0 <= i < len(its) && 0 <= j < itn(its[i]) ==> recsrc(itat(its[i])[j]) == i && recpos(itat(its[i])[j]) == j && numsrc(itat(its[i])[j].GlobalSequenceNumber) == i
  requires[ascending] forall i int, a int, b int {itat(its[i])[a], itat(its[i])[b]} :: 0 <= i < len(its) && 0 <= a && a < b && b < itn(its[i]) ==> itat(its[i])[a].GlobalSequenceNumber < itat(its[i])[b].GlobalSequenceNumber
  modifies itpos, iterr, itdone
  inv[pipes] ps []*rangedb.pipe ::: pipesok(ps, its)
  inv[pipes-distinct] ps []*rangedb.pipe ::: pipesdistinct(ps)
  inv[covered-so-far] kk phi:int; ps phi:[]*rangedb.pipe ::: covered(ps, its, $k)
  inv[untouched] kk phi:int ::: forall i int {its[i]} :: $k <= i < len(its) ==> itpos(its[i]) == 0 && !itdone(its[i]) && iterr(its[i]) == nil
  inv[link] k phi:int ::: k == $k - 1
  inv[link2] k phi:int ::: k == $k
  inv[bound] kk phi:int ::: $k <= len(its)
  inv[covered] ps []*rangedb.pipe ::: covered(ps, its, len(its))
  inv[sources] forall i int {its[i]} :: 0 <= i < len(its) ==> source(its[i])
  inv[open] ch chan rangedb.ResultRecord ::: !closed(ch) && nsent(ch) >= 0
  inv[nothing-yet] kk phi:int; ch chan rangedb.ResultRecord ::: nsent(ch) == 0
  inv[only-records] ch chan rangedb.ResultRecord ::: forall k int {sent(ch)[k]} :: 0 <= k < nsent(ch) ==> sent(ch)[k].Err == nil && sent(ch)[k].Record != nil
  inv[from-the-sources] ch chan rangedb.ResultRecord ::: forall k int {sent(ch)[k]} :: 0 <= k < nsent(ch) ==> ofsource(sent(ch)[k].Record, its)
  inv[ordered] ch chan rangedb.ResultRecord ::: forall a int, b int {sent(ch)[a], sent(ch)[b]} :: 0 <= a && a < b && b < nsent(ch) ==> sent(ch)[a].Record.GlobalSequenceNumber < sent(ch)[b].Record.GlobalSequenceNumber
  inv[heads-above] ch chan rangedb.ResultRecord; ps []*rangedb.pipe ::: above(ch, ps)
  inv[position] ch chan rangedb.ResultRecord; cp phi:uint64 ::: nsent(ch) > 0 && sent(ch)[nsent(ch) - 1].Record.GlobalSequenceNumber == cp
  inv[heads-after] ps []*rangedb.pipe; cp phi:uint64 ::: forall p int {ps[p]} :: 0 <= p < len(ps) ==> ps[p].currentResultRecord.Record.GlobalSequenceNumber > cp
  inv[drained] forall x any {itdone(x)} {itpos(x)} {iterr(x)} :: entry(itdone(x)) ==> itdone(x) && itpos(x) == entry(itpos(x)) && iterr(x) == entry(iterr(x))

  thread[closed] closed(mergeout(result))
  thread[error-is-last] forall k int {sent(mergeout(result))[k]} :: 0 <= k < nsent(mergeout(result)) - 1 ==> sent(mergeout(result))[k].Err == nil && sent(mergeout(result))[k].Record != nil
  thread[ordered] forall a int, b int {sent(mergeout(result))[a], sent(mergeout(result))[b]} :: 0 <= a && a < b && b < nsent(mergeout(result)) && sent(mergeout(result))[b].Err == nil ==> sent(mergeout(result))[a].Record.GlobalSequenceNumber < sent(mergeout(result))[b].Record.GlobalSequenceNumber
  thread[from-the-sources] forall k int {sent(mergeout(result))[k]} :: 0 <= k < nsent(mergeout(result)) && sent(mergeout(result))[k].Err == nil ==> ofsource(sent(mergeout(result))[k].Record, its)
  thread[every-source-ended] nsent(mergeout(result)) == 0 || sent(mergeout(result))[nsent(mergeout(result)) - 1].Err == nil ==> (forall i int {its[i]} :: 0 <= i < len(its) ==> itpos(its[i]) == itn(its[i]) && iterr(its[i]) == nil)
  thread[error-of-a-source] nsent(mergeout(result)) > 0 && sent(mergeout(result))[nsent(mergeout(result)) - 1].Err != nil ==> (exists i int {its[i]} :: 0 <= i < len(its) && iterr(its[i]) == sent(mergeout(result))[nsent(mergeout(result)) - 1].Err)
