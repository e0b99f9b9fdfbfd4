// The broadcaster (P12). What it knows is its two registries; what it does to a subscriber is a send on its receiver or
// a stop.

fun recvof(any) broadcast.SendRecordChan
fun ownerof(broadcast.SendRecordChan) any
ghost nstop(any) int

// Distinct subscribers receive on distinct channels.
axiom[own-receivers] forall s any {recvof(s)} :: ownerof(recvof(s)) == s

func iface broadcast.RecordSubscriber.Receiver(s) (ch)
  ensures ch == recvof(s) && ch != 0 && !closed(ch)

func iface broadcast.RecordSubscriber.Stop(s) ()
  modifies nstop(s)
  ensures old(nstop(s)) >= 0 && nstop(s) == old(nstop(s)) + 1

pred regok(b *broadcast.broadcaster) = b.allEventsSubscribers != 0 && b.aggregateTypeSubscribers != 0
pred regallocated(b *broadcast.broadcaster) = allocated(b.allEventsSubscribers) && allocated(b.aggregateTypeSubscribers)
pred regtypes(b *broadcast.broadcaster) = forall t string {b.aggregateTypeSubscribers[t]} :: t in b.aggregateTypeSubscribers ==> b.aggregateTypeSubscribers[t] != 0 && allocated(b.aggregateTypeSubscribers[t]) && b.aggregateTypeSubscribers[t] != b.allEventsSubscribers
pred regdistinct(b *broadcast.broadcaster) = forall t string, u string {b.aggregateTypeSubscribers[t], b.aggregateTypeSubscribers[u]} :: t in b.aggregateTypeSubscribers && u in b.aggregateTypeSubscribers && t != u ==> b.aggregateTypeSubscribers[t] != b.aggregateTypeSubscribers[u]
pred regsome(b *broadcast.broadcaster) = forall s broadcast.RecordSubscriber {s in b.allEventsSubscribers} :: s in b.allEventsSubscribers ==> s != nil
pred regsome2(b *broadcast.broadcaster) = forall t string, s broadcast.RecordSubscriber {s in b.aggregateTypeSubscribers[t]} :: t in b.aggregateTypeSubscribers && s in b.aggregateTypeSubscribers[t] ==> s != nil
pred inall(b *broadcast.broadcaster, s broadcast.RecordSubscriber) = s in b.allEventsSubscribers
pred intype(b *broadcast.broadcaster, t string, s broadcast.RecordSubscriber) = t in b.aggregateTypeSubscribers && s in b.aggregateTypeSubscribers[t]


// One record: every registered subscriber gets it once per registration, or loses the registration and is stopped.
func broadcast.(*broadcaster).broadcastRecord(b, record) ()
  props P12
  option optional
  requires b != 0 && record != 0
  requires[registry] regok(b) && regallocated(b) && regtypes(b) && regdistinct(b) && regsome(b) && regsome2(b)
  let T = record.AggregateType
  modifies allmaps(map[broadcast.RecordSubscriber]struct{}), nstop, allsent(*rangedb.Record)
  inv[reg-regok] regok(b)
  inv[reg-regallocated] regallocated(b)
  inv[reg-regtypes] regtypes(b)
  inv[reg-regdistinct] regdistinct(b)
  inv[reg-regsome] regsome(b)
  inv[reg-regsome2] regsome2(b)
  inv[types-kept] forall t string {b.aggregateTypeSubscribers[t]} {t in b.aggregateTypeSubscribers} :: (t in b.aggregateTypeSubscribers <==> old(t in b.aggregateTypeSubscribers)) && b.aggregateTypeSubscribers[t] == old(b.aggregateTypeSubscribers[t])
  inv[other-types] forall t string, s broadcast.RecordSubscriber {intype(b, t, s)} :: t != T ==> (intype(b, t, s) <==> old(intype(b, t, s)))
  inv[all-kept] forall s broadcast.RecordSubscriber {inall(b, s)} :: inall(b, s) <==> entry(inall(b, s))
  inv[type-kept] forall s broadcast.RecordSubscriber {intype(b, T, s)} :: intype(b, T, s) <==> entry(intype(b, T, s))
  inv[all-fewer] forall s broadcast.RecordSubscriber {inall(b, s)} :: (inall(b, s) ==> entry(inall(b, s))) && (!visited(s) ==> (inall(b, s) <==> entry(inall(b, s))))
  inv[type-fewer] forall s broadcast.RecordSubscriber {intype(b, T, s)} :: (intype(b, T, s) ==> entry(intype(b, T, s))) && (!visited(s) ==> (intype(b, T, s) <==> entry(intype(b, T, s))))
  inv[visited-all] forall s broadcast.RecordSubscriber {visited(s)} :: visited(s) ==> entry(inall(b, s))
  inv[visited-type] forall s broadcast.RecordSubscriber {visited(s)} :: visited(s) ==> entry(intype(b, T, s))
  inv[sent-all] forall s broadcast.RecordSubscriber {nsent(recvof(s))} :: nsent(recvof(s)) == entry(nsent(recvof(s))) + (if visited(s) && inall(b, s) then 1 else 0)
  inv[sent-type] forall s broadcast.RecordSubscriber {nsent(recvof(s))} :: nsent(recvof(s)) == entry(nsent(recvof(s))) + (if visited(s) && intype(b, T, s) then 1 else 0)
  inv[stop-all] forall s broadcast.RecordSubscriber {nstop(s)} :: nstop(s) == entry(nstop(s)) + (if visited(s) && !inall(b, s) then 1 else 0)
  inv[stop-type] forall s broadcast.RecordSubscriber {nstop(s)} :: nstop(s) == entry(nstop(s)) + (if visited(s) && !intype(b, T, s) then 1 else 0)
  inv[content] forall s broadcast.RecordSubscriber, k int {sent(recvof(s))[k]} :: old(nsent(recvof(s))) <= k < nsent(recvof(s)) ==> sent(recvof(s))[k] == record
  inv[content-before] forall s broadcast.RecordSubscriber, k int {sent(recvof(s))[k]} :: k < old(nsent(recvof(s))) ==> sent(recvof(s))[k] == old(sent(recvof(s))[k])
  inv[others] forall ch broadcast.SendRecordChan {nsent(ch)} :: recvof(ownerof(ch)) != ch ==> nsent(ch) == old(nsent(ch))
  inv[others-content] forall ch broadcast.SendRecordChan {sent(ch)} :: recvof(ownerof(ch)) != ch ==> sent(ch) == old(sent(ch))
  ensures[registry] regok(b) && regallocated(b) && regtypes(b) && regdistinct(b) && regsome(b) && regsome2(b)
  ensures[types-kept] forall t string {b.aggregateTypeSubscribers[t]} {t in b.aggregateTypeSubscribers} :: (t in b.aggregateTypeSubscribers <==> old(t in b.aggregateTypeSubscribers)) && b.aggregateTypeSubscribers[t] == old(b.aggregateTypeSubscribers[t])
  ensures[other-types] forall t string, s broadcast.RecordSubscriber {intype(b, t, s)} :: t != T ==> (intype(b, t, s) <==> old(intype(b, t, s)))
  ensures[none-added] forall s broadcast.RecordSubscriber {inall(b, s)} :: inall(b, s) ==> old(inall(b, s))
  ensures[none-added-type] forall s broadcast.RecordSubscriber {intype(b, T, s)} :: intype(b, T, s) ==> old(intype(b, T, s))
  ensures[delivered] forall s broadcast.RecordSubscriber {nsent(recvof(s))} :: nsent(recvof(s)) == old(nsent(recvof(s))) + (if inall(b, s) then 1 else 0) + (if intype(b, T, s) then 1 else 0)
  ensures[stopped] forall s broadcast.RecordSubscriber {nstop(s)} :: nstop(s) == old(nstop(s)) + (if old(inall(b, s)) && !inall(b, s) then 1 else 0) + (if old(intype(b, T, s)) && !intype(b, T, s) then 1 else 0)
  ensures[content] forall s broadcast.RecordSubscriber, k int {sent(recvof(s))[k]} :: old(nsent(recvof(s))) <= k < nsent(recvof(s)) ==> sent(recvof(s))[k] == record
  ensures[content-before] forall s broadcast.RecordSubscriber, k int {sent(recvof(s))[k]} :: k < old(nsent(recvof(s))) ==> sent(recvof(s))[k] == old(sent(recvof(s))[k])
  ensures[others] forall ch broadcast.SendRecordChan {nsent(ch)} :: recvof(ownerof(ch)) != ch ==> nsent(ch) == old(nsent(ch))
  ensures[others-content] forall ch broadcast.SendRecordChan {sent(ch)} :: recvof(ownerof(ch)) != ch ==> sent(ch) == old(sent(ch))
  cover true

func broadcast.(*broadcaster).closeAllSubscribers(b) ()
  props P12
  option optional
  requires b != 0
  requires[registry] regok(b) && regallocated(b) && regtypes(b) && regdistinct(b) && regsome(b) && regsome2(b)
  modifies nstop
  inv[once] forall s broadcast.RecordSubscriber {nstop(s)} :: nstop(s) == entry(nstop(s)) + (if visited(s) then 1 else 0)
  inv[visited-in@2] m val:map[broadcast.RecordSubscriber]struct{} ::: forall s broadcast.RecordSubscriber {visited(s)} :: visited(s) ==> s in m
  inv[visited-all] forall s broadcast.RecordSubscriber {visited(s)} :: visited(s) ==> inall(b, s)
  inv[more] forall s broadcast.RecordSubscriber {nstop(s)} :: nstop(s) >= entry(nstop(s))
  inv[reached] forall t string, s broadcast.RecordSubscriber {intype(b, t, s)} :: visited(t) && intype(b, t, s) ==> nstop(s) > entry(nstop(s))
  inv[only] forall s broadcast.RecordSubscriber {nstop(s)} :: (forall t string {intype(b, t, s)} :: !intype(b, t, s)) ==> nstop(s) == entry(nstop(s))
  ensures[stopped] forall s broadcast.RecordSubscriber {inall(b, s)} :: inall(b, s) ==> nstop(s) > old(nstop(s))
  ensures[stopped-type] forall t string, s broadcast.RecordSubscriber {intype(b, t, s)} :: intype(b, t, s) ==> nstop(s) > old(nstop(s))
  ensures[more] forall s broadcast.RecordSubscriber {nstop(s)} :: nstop(s) >= old(nstop(s))
  ensures[only] forall s broadcast.RecordSubscriber {nstop(s)} :: !inall(b, s) && (forall t string {intype(b, t, s)} :: !intype(b, t, s)) ==> nstop(s) == old(nstop(s))
  cover true

// The loop: each iteration carries out exactly one request, and it ends only once it saw the stop channel closed.
pred reqs(b *broadcast.broadcaster) = nrecv(b.subscribeAllEvents) + nrecv(b.unsubscribeAllEvents) + nrecv(b.subscribeAggregateTypes) + nrecv(b.unsubscribeAggregateTypes) + nrecv(b.bufferedRecords)

func broadcast.(*broadcaster).start(b) ()
  props P12
  requires b != 0 && b.bufferedRecords != 0
  requires[chans] b.subscribeAllEvents != b.unsubscribeAllEvents && b.subscribeAggregateTypes != b.unsubscribeAggregateTypes && b.subscribeAllEvents != b.subscribeAggregateTypes && b.subscribeAllEvents != b.unsubscribeAggregateTypes && b.unsubscribeAllEvents != b.subscribeAggregateTypes && b.unsubscribeAllEvents != b.unsubscribeAggregateTypes
  requires[chans2] b.bufferedRecords != b.subscribeAllEvents && b.bufferedRecords != b.unsubscribeAllEvents && b.bufferedRecords != b.subscribeAggregateTypes && b.bufferedRecords != b.unsubscribeAggregateTypes
  requires[chans3] b.stopChan != b.subscribeAllEvents && b.stopChan != b.unsubscribeAllEvents && b.stopChan != b.subscribeAggregateTypes && b.stopChan != b.unsubscribeAggregateTypes && b.stopChan != b.bufferedRecords
  requires[registry] regok(b) && regallocated(b) && regtypes(b) && regdistinct(b) && regsome(b) && regsome2(b)
  requires[prophecy-records] forall j int {sent(b.bufferedRecords)[j]} :: j >= 0 ==> sent(b.bufferedRecords)[j] != 0
  requires[prophecy-subscribers] forall j int {sent(b.subscribeAllEvents)[j]} :: j >= 0 ==> sent(b.subscribeAllEvents)[j] != nil
  requires[prophecy-subscriptions] forall j int {sent(b.subscribeAggregateTypes)[j]} :: j >= 0 ==> sent(b.subscribeAggregateTypes)[j].Subscriber != nil
  requires[prophecy-own] recvof(ownerof(b.bufferedRecords)) != b.bufferedRecords
  modifies allmaps(map[broadcast.RecordSubscriber]struct{}), map(b.aggregateTypeSubscribers), nstop, allsent(*rangedb.Record), rcvd(b.subscribeAllEvents), rcvd(b.unsubscribeAllEvents), rcvd(b.subscribeAggregateTypes), rcvd(b.unsubscribeAggregateTypes), rcvd(b.bufferedRecords), rcvd(b.stopChan)
  inv[reg-regok] regok(b)
  inv[reg-regallocated] regallocated(b)
  inv[reg-regtypes] regtypes(b)
  inv[reg-regdistinct] regdistinct(b)
  inv[reg-regsome] regsome(b)
  inv[reg-regsome2] regsome2(b)
  inv[records] forall j int {sent(b.bufferedRecords)[j]} :: j >= 0 ==> sent(b.bufferedRecords)[j] != 0
  inv[received] nrecv(b.bufferedRecords) >= 0 && nrecv(b.subscribeAllEvents) >= 0 && nrecv(b.unsubscribeAllEvents) >= 0 && nrecv(b.subscribeAggregateTypes) >= 0 && nrecv(b.unsubscribeAggregateTypes) >= 0
  requires[received] nrecv(b.bufferedRecords) >= 0 && nrecv(b.subscribeAllEvents) >= 0 && nrecv(b.unsubscribeAllEvents) >= 0 && nrecv(b.subscribeAggregateTypes) >= 0 && nrecv(b.unsubscribeAggregateTypes) >= 0
  step[one-request] reqs(b) == head(reqs(b)) + 1
  step[subscribe-all] nrecv(b.subscribeAllEvents) != head(nrecv(b.subscribeAllEvents)) ==> (forall s broadcast.RecordSubscriber {inall(b, s)} :: inall(b, s) <==> head(inall(b, s)) || s == head(sent(b.subscribeAllEvents)[nrecv(b.subscribeAllEvents)]))
  step[unsubscribe-all] nrecv(b.unsubscribeAllEvents) != head(nrecv(b.unsubscribeAllEvents)) ==> (forall s broadcast.RecordSubscriber {inall(b, s)} :: inall(b, s) <==> head(inall(b, s)) && s != head(sent(b.unsubscribeAllEvents)[nrecv(b.unsubscribeAllEvents)]))
  step[subscribe-type] nrecv(b.subscribeAggregateTypes) != head(nrecv(b.subscribeAggregateTypes)) ==> (forall t string, s broadcast.RecordSubscriber {intype(b, t, s)} :: intype(b, t, s) <==> head(intype(b, t, s)) || s == head(sent(b.subscribeAggregateTypes)[nrecv(b.subscribeAggregateTypes)].Subscriber) && t == head(sent(b.subscribeAggregateTypes)[nrecv(b.subscribeAggregateTypes)].AggregateType))
  step[unsubscribe-type] nrecv(b.unsubscribeAggregateTypes) != head(nrecv(b.unsubscribeAggregateTypes)) ==> (forall t string, s broadcast.RecordSubscriber {intype(b, t, s)} :: intype(b, t, s) <==> head(intype(b, t, s)) && !(s == head(sent(b.unsubscribeAggregateTypes)[nrecv(b.unsubscribeAggregateTypes)].Subscriber) && t == head(sent(b.unsubscribeAggregateTypes)[nrecv(b.unsubscribeAggregateTypes)].AggregateType)))
  step[all-kept] nrecv(b.subscribeAllEvents) == head(nrecv(b.subscribeAllEvents)) && nrecv(b.unsubscribeAllEvents) == head(nrecv(b.unsubscribeAllEvents)) && nrecv(b.bufferedRecords) == head(nrecv(b.bufferedRecords)) ==> (forall s broadcast.RecordSubscriber {inall(b, s)} :: inall(b, s) <==> head(inall(b, s)))
  step[types-kept] nrecv(b.subscribeAggregateTypes) == head(nrecv(b.subscribeAggregateTypes)) && nrecv(b.unsubscribeAggregateTypes) == head(nrecv(b.unsubscribeAggregateTypes)) && nrecv(b.bufferedRecords) == head(nrecv(b.bufferedRecords)) ==> (forall t string, s broadcast.RecordSubscriber {intype(b, t, s)} :: intype(b, t, s) <==> head(intype(b, t, s)))
  step[quiet] nrecv(b.bufferedRecords) == head(nrecv(b.bufferedRecords)) ==> (forall s broadcast.RecordSubscriber {nsent(recvof(s))} {nstop(s)} :: nsent(recvof(s)) == head(nsent(recvof(s))) && nstop(s) == head(nstop(s)))
  step[delivered] nrecv(b.bufferedRecords) != head(nrecv(b.bufferedRecords)) ==> (forall s broadcast.RecordSubscriber {nsent(recvof(s))} :: nsent(recvof(s)) == head(nsent(recvof(s))) + (if inall(b, s) then 1 else 0) + (if intype(b, head(sent(b.bufferedRecords)[nrecv(b.bufferedRecords)].AggregateType), s) then 1 else 0))
  step[content] nrecv(b.bufferedRecords) != head(nrecv(b.bufferedRecords)) ==> (forall s broadcast.RecordSubscriber, k int {sent(recvof(s))[k]} :: head(nsent(recvof(s))) <= k < nsent(recvof(s)) ==> sent(recvof(s))[k] == head(sent(b.bufferedRecords)[nrecv(b.bufferedRecords)]))
  step[slow] nrecv(b.bufferedRecords) != head(nrecv(b.bufferedRecords)) ==> (forall s broadcast.RecordSubscriber {nstop(s)} :: nstop(s) == head(nstop(s)) + (if head(inall(b, s)) && !inall(b, s) then 1 else 0) + (if head(intype(b, sent(b.bufferedRecords)[nrecv(b.bufferedRecords)].AggregateType, s)) && !intype(b, head(sent(b.bufferedRecords)[nrecv(b.bufferedRecords)].AggregateType), s) then 1 else 0))
  step[slow-only] (forall s broadcast.RecordSubscriber {inall(b, s)} :: nrecv(b.bufferedRecords) != head(nrecv(b.bufferedRecords)) && inall(b, s) ==> head(inall(b, s))) && (forall t string, s broadcast.RecordSubscriber {intype(b, t, s)} :: nrecv(b.bufferedRecords) != head(nrecv(b.bufferedRecords)) ==> (intype(b, t, s) ==> head(intype(b, t, s))) && (t != head(sent(b.bufferedRecords)[nrecv(b.bufferedRecords)].AggregateType) ==> (intype(b, t, s) <==> head(intype(b, t, s)))))
  ensures[only-at-stop] signalled(b.stopChan) && reqs(b) == head(reqs(b))
  ensures[stopped] forall s broadcast.RecordSubscriber {inall(b, s)} :: head(inall(b, s)) ==> nstop(s) > head(nstop(s))
  ensures[stopped-type] forall t string, s broadcast.RecordSubscriber {intype(b, t, s)} :: head(intype(b, t, s)) ==> nstop(s) > head(nstop(s))
  ensures[stopped-only] forall s broadcast.RecordSubscriber {nstop(s)} :: !head(inall(b, s)) && (forall t string {intype(b, t, s)} :: !head(intype(b, t, s))) ==> nstop(s) == head(nstop(s))
  cover true

// The requests: handed to the loop, unless the broadcaster was closed.
func broadcast.(*broadcaster).Accept(b, record) ()
  props P12
  requires b != 0 && b.bufferedRecords != 0 && record != 0 && !closed(b.bufferedRecords)
  modifies sent(b.bufferedRecords), rcvd(b.stopChan)
  ensures[handed-over] nsent(b.bufferedRecords) == old(nsent(b.bufferedRecords)) + 1 && sent(b.bufferedRecords)[old(nsent(b.bufferedRecords))] == record || nsent(b.bufferedRecords) == old(nsent(b.bufferedRecords)) && signalled(b.stopChan)
  cover nsent(b.bufferedRecords) == old(nsent(b.bufferedRecords)) + 1

func broadcast.(*broadcaster).SubscribeAllEvents(b, subscribers) ()
  props P12
  requires b != 0 && b.subscribeAllEvents != 0 && !closed(b.subscribeAllEvents)
  requires[some] forall i int {subscribers[i]} :: 0 <= i < len(subscribers) ==> subscribers[i] != nil
  modifies sent(b.subscribeAllEvents), rcvd(b.stopChan), nstop
  inv[counted] signalled(b.stopChan) || nsent(b.subscribeAllEvents) == old(nsent(b.subscribeAllEvents)) + $k
  inv[handed] signalled(b.stopChan) || (forall j int {sent(b.subscribeAllEvents)[j]} :: old(nsent(b.subscribeAllEvents)) <= j < old(nsent(b.subscribeAllEvents)) + $k ==> sent(b.subscribeAllEvents)[j] == subscribers[j - old(nsent(b.subscribeAllEvents))])
  step[each] nsent(b.subscribeAllEvents) == head(nsent(b.subscribeAllEvents)) + 1 && nstop(subscribers[$k]) == head(nstop(subscribers[$k])) || signalled(b.stopChan) && nsent(b.subscribeAllEvents) == head(nsent(b.subscribeAllEvents)) && nstop(subscribers[$k]) == head(nstop(subscribers[$k])) + 1
  ensures[handed] signalled(b.stopChan) || nsent(b.subscribeAllEvents) == old(nsent(b.subscribeAllEvents)) + len(subscribers) && (forall j int {sent(b.subscribeAllEvents)[j]} :: old(nsent(b.subscribeAllEvents)) <= j < old(nsent(b.subscribeAllEvents)) + len(subscribers) ==> sent(b.subscribeAllEvents)[j] == subscribers[j - old(nsent(b.subscribeAllEvents))])
  cover nsent(b.subscribeAllEvents) == old(nsent(b.subscribeAllEvents)) + len(subscribers) && len(subscribers) > 1

func broadcast.(*broadcaster).UnsubscribeAllEvents(b, subscribers) ()
  props P12
  requires b != 0 && b.unsubscribeAllEvents != 0 && !closed(b.unsubscribeAllEvents)
  requires[some] forall i int {subscribers[i]} :: 0 <= i < len(subscribers) ==> subscribers[i] != nil
  modifies sent(b.unsubscribeAllEvents), rcvd(b.stopChan)
  inv[counted] signalled(b.stopChan) || nsent(b.unsubscribeAllEvents) == old(nsent(b.unsubscribeAllEvents)) + $k
  inv[handed] signalled(b.stopChan) || (forall j int {sent(b.unsubscribeAllEvents)[j]} :: old(nsent(b.unsubscribeAllEvents)) <= j < old(nsent(b.unsubscribeAllEvents)) + $k ==> sent(b.unsubscribeAllEvents)[j] == subscribers[j - old(nsent(b.unsubscribeAllEvents))])
  step[each] nsent(b.unsubscribeAllEvents) == head(nsent(b.unsubscribeAllEvents)) + 1 || signalled(b.stopChan) && nsent(b.unsubscribeAllEvents) == head(nsent(b.unsubscribeAllEvents))
  ensures[handed] signalled(b.stopChan) || nsent(b.unsubscribeAllEvents) == old(nsent(b.unsubscribeAllEvents)) + len(subscribers) && (forall j int {sent(b.unsubscribeAllEvents)[j]} :: old(nsent(b.unsubscribeAllEvents)) <= j < old(nsent(b.unsubscribeAllEvents)) + len(subscribers) ==> sent(b.unsubscribeAllEvents)[j] == subscribers[j - old(nsent(b.unsubscribeAllEvents))])
  cover nsent(b.unsubscribeAllEvents) == old(nsent(b.unsubscribeAllEvents)) + len(subscribers) && len(subscribers) > 1

func broadcast.(*broadcaster).SubscribeAggregateTypes(b, subscriber, aggregateTypes) ()
  props P12
  requires b != 0 && b.subscribeAggregateTypes != 0 && !closed(b.subscribeAggregateTypes)
  requires[some] subscriber != nil
  modifies sent(b.subscribeAggregateTypes), rcvd(b.stopChan), nstop
  inv[counted] signalled(b.stopChan) || nsent(b.subscribeAggregateTypes) == old(nsent(b.subscribeAggregateTypes)) + $k
  inv[handed] signalled(b.stopChan) || (forall j int {sent(b.subscribeAggregateTypes)[j]} :: old(nsent(b.subscribeAggregateTypes)) <= j < old(nsent(b.subscribeAggregateTypes)) + $k ==> sent(b.subscribeAggregateTypes)[j].Subscriber == subscriber && sent(b.subscribeAggregateTypes)[j].AggregateType == aggregateTypes[j - old(nsent(b.subscribeAggregateTypes))])
  step[each] nsent(b.subscribeAggregateTypes) == head(nsent(b.subscribeAggregateTypes)) + 1 && nstop(subscriber) == head(nstop(subscriber)) || signalled(b.stopChan) && nsent(b.subscribeAggregateTypes) == head(nsent(b.subscribeAggregateTypes)) && nstop(subscriber) == head(nstop(subscriber)) + 1
  ensures[handed] signalled(b.stopChan) || nsent(b.subscribeAggregateTypes) == old(nsent(b.subscribeAggregateTypes)) + len(aggregateTypes) && (forall j int {sent(b.subscribeAggregateTypes)[j]} :: old(nsent(b.subscribeAggregateTypes)) <= j < old(nsent(b.subscribeAggregateTypes)) + len(aggregateTypes) ==> sent(b.subscribeAggregateTypes)[j].Subscriber == subscriber && sent(b.subscribeAggregateTypes)[j].AggregateType == aggregateTypes[j - old(nsent(b.subscribeAggregateTypes))])
  cover nsent(b.subscribeAggregateTypes) == old(nsent(b.subscribeAggregateTypes)) + len(aggregateTypes) && len(aggregateTypes) > 1

func broadcast.(*broadcaster).UnsubscribeAggregateTypes(b, subscriber, aggregateTypes) ()
  props P12
  requires b != 0 && b.unsubscribeAggregateTypes != 0 && !closed(b.unsubscribeAggregateTypes)
  requires[some] subscriber != nil
  modifies sent(b.unsubscribeAggregateTypes), rcvd(b.stopChan)
  inv[counted] signalled(b.stopChan) || nsent(b.unsubscribeAggregateTypes) == old(nsent(b.unsubscribeAggregateTypes)) + $k
  inv[handed] signalled(b.stopChan) || (forall j int {sent(b.unsubscribeAggregateTypes)[j]} :: old(nsent(b.unsubscribeAggregateTypes)) <= j < old(nsent(b.unsubscribeAggregateTypes)) + $k ==> sent(b.unsubscribeAggregateTypes)[j].Subscriber == subscriber && sent(b.unsubscribeAggregateTypes)[j].AggregateType == aggregateTypes[j - old(nsent(b.unsubscribeAggregateTypes))])
  step[each] nsent(b.unsubscribeAggregateTypes) == head(nsent(b.unsubscribeAggregateTypes)) + 1 || signalled(b.stopChan) && nsent(b.unsubscribeAggregateTypes) == head(nsent(b.unsubscribeAggregateTypes))
  ensures[handed] signalled(b.stopChan) || nsent(b.unsubscribeAggregateTypes) == old(nsent(b.unsubscribeAggregateTypes)) + len(aggregateTypes) && (forall j int {sent(b.unsubscribeAggregateTypes)[j]} :: old(nsent(b.unsubscribeAggregateTypes)) <= j < old(nsent(b.unsubscribeAggregateTypes)) + len(aggregateTypes) ==> sent(b.unsubscribeAggregateTypes)[j].Subscriber == subscriber && sent(b.unsubscribeAggregateTypes)[j].AggregateType == aggregateTypes[j - old(nsent(b.unsubscribeAggregateTypes))])
  cover nsent(b.unsubscribeAggregateTypes) == old(nsent(b.unsubscribeAggregateTypes)) + len(aggregateTypes) && len(aggregateTypes) > 1

func broadcast.(*broadcaster).Close(b) ()
  props P12
  requires b != 0 && b.stopChan != 0 && !closed(b.stopChan)
  modifies closed(b.stopChan)
  ensures[closed] closed(b.stopChan)

// A new broadcaster is empty, ready and running.
func broadcast.New(bufferSize, timeout) (b)
  props P12
  requires bufferSize >= 0
  ensures[ready] b != 0 && fresh(b) && regok(b) && b.subscribeAllEvents != 0 && b.unsubscribeAllEvents != 0 && b.subscribeAggregateTypes != 0 && b.unsubscribeAggregateTypes != 0 && b.bufferedRecords != 0 && b.stopChan != 0
  ensures[open] !closed(b.subscribeAllEvents) && !closed(b.unsubscribeAllEvents) && !closed(b.subscribeAggregateTypes) && !closed(b.unsubscribeAggregateTypes) && !closed(b.bufferedRecords) && !closed(b.stopChan)
  ensures[empty] (forall s broadcast.RecordSubscriber {s in b.allEventsSubscribers} :: !(s in b.allEventsSubscribers)) && (forall t string {t in b.aggregateTypeSubscribers} :: !(t in b.aggregateTypeSubscribers))
