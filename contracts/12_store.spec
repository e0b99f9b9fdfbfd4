// An event store as its users see it. The k-th operation of a kind on a store: what it was given and how it ended is
// described by rigid sequences indexed by counters (each index happens once).

// How often an event object has been encrypted (encryptions minus decryptions).
ghost encn(any) int

ghost nsaves(any) int
fun savestream(any) [int]string
fun saveevent(any) [int]any
fun savelen(any) [int]int
fun saverecs(any) [int][]*rangedb.EventRecord
fun saveenc(any, int) [any]int
fun saveok(any) [int]bool
fun saveerr(any) [int]error
fun saveres(any) [int]int
fun saveexp(any) [int]int

func iface rangedb.Store.Save(s, ctx, streamName, eventRecords) (n, err)
  modifies nsaves(s)
  ensures nsaves(s) == old(nsaves(s)) + 1
  ensures savestream(s)[old(nsaves(s))] == streamName && savelen(s)[old(nsaves(s))] == len(eventRecords) && saverecs(s)[old(nsaves(s))] == eventRecords && saveexp(s)[old(nsaves(s))] == -1
  ensures len(eventRecords) > 0 ==> saveevent(s)[old(nsaves(s))] == eventRecords[0].Event
  ensures forall x any {encn(x)} {saveenc(s, old(nsaves(s)))[x]} :: saveenc(s, old(nsaves(s)))[x] == encn(x)
  ensures saveok(s)[old(nsaves(s))] <==> err == nil
  ensures saveerr(s)[old(nsaves(s))] == err && saveres(s)[old(nsaves(s))] == n

func iface rangedb.Store.OptimisticSave(s, ctx, expected, streamName, eventRecords) (n, err)
  modifies nsaves(s)
  ensures nsaves(s) == old(nsaves(s)) + 1
  ensures savestream(s)[old(nsaves(s))] == streamName && savelen(s)[old(nsaves(s))] == len(eventRecords) && saverecs(s)[old(nsaves(s))] == eventRecords && saveexp(s)[old(nsaves(s))] == expected
  ensures len(eventRecords) > 0 ==> saveevent(s)[old(nsaves(s))] == eventRecords[0].Event
  ensures forall x any {encn(x)} {saveenc(s, old(nsaves(s)))[x]} :: saveenc(s, old(nsaves(s)))[x] == encn(x)
  ensures saveok(s)[old(nsaves(s))] <==> err == nil
  ensures saveerr(s)[old(nsaves(s))] == err && saveres(s)[old(nsaves(s))] == n

ghost ndeletes(any) int
fun delstream(any) [int]string
fun delexp(any) [int]int
fun delerr(any) [int]error

func iface rangedb.Store.OptimisticDeleteStream(s, ctx, expected, streamName) (err)
  modifies ndeletes(s)
  ensures ndeletes(s) == old(ndeletes(s)) + 1
  ensures delstream(s)[old(ndeletes(s))] == streamName && delexp(s)[old(ndeletes(s))] == expected && delerr(s)[old(ndeletes(s))] == err

ghost ntotals(any) int
fun totstream(any) [int]string
fun totres(any) [int]int
fun toterr(any) [int]error

func iface rangedb.Store.TotalEventsInStream(s, ctx, streamName) (n, err)
  modifies ntotals(s)
  ensures ntotals(s) == old(ntotals(s)) + 1
  ensures totstream(s)[old(ntotals(s))] == streamName && totres(s)[old(ntotals(s))] == n && toterr(s)[old(ntotals(s))] == err

// Reads: kind 1 everything, 2 by aggregate types, 3 by stream.
ghost nreads(any) int
fun readkind(any) int
fun readstream(any) string
fun readtypes(any) []string
fun readfrom(any) int
fun readof(any) any
fun readctx(any) any

func iface rangedb.Store.Events(s, ctx, globalSequenceNumber) (it)
  modifies nreads(s)
  ensures it != nil && readof(it) == s && readkind(it) == 1 && readfrom(it) == globalSequenceNumber && readctx(it) == ctx
  ensures nreads(s) == old(nreads(s)) + 1 && itpos(it) == 0 && !itdone(it) && iterr(it) == nil && 0 <= itn(it)

func iface rangedb.Store.EventsByAggregateTypes(s, ctx, globalSequenceNumber, aggregateTypes) (it)
  modifies nreads(s)
  ensures it != nil && readof(it) == s && readkind(it) == 2 && readfrom(it) == globalSequenceNumber && readctx(it) == ctx && readtypes(it) == aggregateTypes
  ensures nreads(s) == old(nreads(s)) + 1 && itpos(it) == 0 && !itdone(it) && iterr(it) == nil && 0 <= itn(it)

func iface rangedb.Store.EventsByStream(s, ctx, streamSequenceNumber, streamName) (it)
  modifies nreads(s)
  ensures it != nil && readof(it) == s && readkind(it) == 3 && readstream(it) == streamName && readfrom(it) == streamSequenceNumber && readctx(it) == ctx
  ensures nreads(s) == old(nreads(s)) + 1 && itpos(it) == 0 && !itdone(it) && iterr(it) == nil && 0 <= itn(it)

// Subscriptions and their subscribers.
fun subof(any) any
fun subctx(any) any
fun subbuf(any) int
fun subto(any) any
fun subtypes(any) []string
fun suball(any) bool

func iface rangedb.Store.AllEventsSubscription(s, ctx, bufferSize, subscriber) (r)
  ensures r != nil && subof(r) == s && subctx(r) == ctx && subbuf(r) == bufferSize && subto(r) == subscriber && suball(r)

func iface rangedb.Store.AggregateTypesSubscription(s, ctx, bufferSize, subscriber, aggregateTypes) (r)
  ensures r != nil && subof(r) == s && subctx(r) == ctx && subbuf(r) == bufferSize && subto(r) == subscriber && !suball(r) && subtypes(r) == aggregateTypes

ghost naccepts(any) int
fun acceptrec(any) [int]*rangedb.Record
fun acceptenc(any, int) [any]int

func iface rangedb.RecordSubscriber.Accept(s, record) ()
  modifies naccepts(s)
  ensures naccepts(s) == old(naccepts(s)) + 1 && acceptrec(s)[old(naccepts(s))] == record
  ensures forall x any {encn(x)} {acceptenc(s, old(naccepts(s)))[x]} :: acceptenc(s, old(naccepts(s)))[x] == encn(x)

ghost nbinds(any) int
fun bindevents(any) [int][]rangedb.Event

func iface rangedb.Store.Bind(s, events) ()
  modifies nbinds(s)
  ensures nbinds(s) == old(nbinds(s)) + 1 && bindevents(s)[old(nbinds(s))] == events
