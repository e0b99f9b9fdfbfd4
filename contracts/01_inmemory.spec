// The in-memory store (P01-P06, P08, P09). What is stored is the map recordData from global sequence numbers to
// serialized records; the log, the streams and the types are views of it.

// Serialization as the stores use it: the fields held by a text, and the text a value is held as.
fun serok(any, string) bool
fun serstream(any, string) string
fun sertype(any, string) string
fun serid(any, string) string
fun sergsn(any, string) uint64
fun serssn(any, string) uint64
fun sereid(any, string) string
fun seretype(any, string) string
fun serdata(any, string) string
fun sermeta(any, string) string
fun valuetext(any) string
fun decodedfrom(*rangedb.Record) string

func iface rangedb.RecordSerializer.Serialize(z, r) (b, err)
  requires r != nil
  ensures err == nil ==> serok(z, bytes(b)) && serstream(z, bytes(b)) == r.StreamName && sertype(z, bytes(b)) == r.AggregateType && serid(z, bytes(b)) == r.AggregateID && sergsn(z, bytes(b)) == r.GlobalSequenceNumber && serssn(z, bytes(b)) == r.StreamSequenceNumber && sereid(z, bytes(b)) == r.EventID && seretype(z, bytes(b)) == r.EventType && serdata(z, bytes(b)) == valuetext(r.Data) && sermeta(z, bytes(b)) == valuetext(r.Metadata)

func iface rangedb.RecordSerializer.Deserialize(z, b) (r, err)
  ensures err == nil <==> serok(z, bytes(b))
  ensures err == nil ==> r != nil && fresh(r) && decodedfrom(r) == bytes(b) && r.StreamName == serstream(z, bytes(b)) && r.AggregateType == sertype(z, bytes(b)) && r.AggregateID == serid(z, bytes(b)) && r.GlobalSequenceNumber == sergsn(z, bytes(b)) && r.StreamSequenceNumber == serssn(z, bytes(b)) && r.EventID == sereid(z, bytes(b)) && r.EventType == seretype(z, bytes(b))

// The k-th record announced to a broadcaster.
ghost nbcast(any) int
fun bcast(any) [int]*rangedb.Record
func iface broadcast.Broadcaster.Accept(b, record) ()
  modifies nbcast(b)
  ensures nbcast(b) == old(nbcast(b)) + 1 && bcast(b)[old(nbcast(b))] == record

pred dt(s *inmemorystore.inMemoryStore, id uint64) = bytes(s.recordData[id])

pred im_maps(s *inmemorystore.inMemoryStore) = s.streams != 0 && s.aggregateTypes != 0 && s.recordData != 0 && s.streams != s.aggregateTypes
pred im_arrays(s *inmemorystore.inMemoryStore) = allocated(arr(s.records))
pred im_stream_arrays(s *inmemorystore.inMemoryStore) = forall n string {s.streams[n]} :: n in s.streams ==> arr(s.streams[n]) != 0 && allocated(arr(s.streams[n])) && arr(s.streams[n]) != arr(s.records) && len(s.streams[n]) > 0
pred im_type_arrays(s *inmemorystore.inMemoryStore) = forall t string {s.aggregateTypes[t]} :: t in s.aggregateTypes ==> arr(s.aggregateTypes[t]) != 0 && allocated(arr(s.aggregateTypes[t])) && arr(s.aggregateTypes[t]) != arr(s.records)
pred im_own_arrays(s *inmemorystore.inMemoryStore) = forall n string, m string {s.streams[n], s.streams[m]} :: n in s.streams && m in s.streams && n != m ==> arr(s.streams[n]) != arr(s.streams[m])
pred im_own_arrays2(s *inmemorystore.inMemoryStore) = forall n string, m string {s.aggregateTypes[n], s.aggregateTypes[m]} :: n in s.aggregateTypes && m in s.aggregateTypes && n != m ==> arr(s.aggregateTypes[n]) != arr(s.aggregateTypes[m])
pred im_own_arrays3(s *inmemorystore.inMemoryStore) = forall n string, t string {s.streams[n], s.aggregateTypes[t]} :: n in s.streams && t in s.aggregateTypes ==> arr(s.streams[n]) != arr(s.aggregateTypes[t])
pred im_numbers(s *inmemorystore.inMemoryStore) = forall id uint64 {s.recordData[id]} :: id in s.recordData ==> 1 <= id <= s.globalSequenceNumber && serok(s.serializer, dt(s, id)) && sergsn(s.serializer, dt(s, id)) == id
pred im_log_ascending(s *inmemorystore.inMemoryStore) = forall i int, j int {s.records[i], s.records[j]} :: 0 <= i && i < j && j < len(s.records) ==> s.records[i] < s.records[j]
pred im_log_stored(s *inmemorystore.inMemoryStore) = forall i int {s.records[i]} :: 0 <= i < len(s.records) ==> s.records[i] in s.recordData
pred im_log_complete(s *inmemorystore.inMemoryStore) = forall id uint64 {s.recordData[id]} :: id in s.recordData ==> member(s.records, id)
pred im_stream_numbers(s *inmemorystore.inMemoryStore) = forall n string, i int {s.streams[n][i]} :: n in s.streams && 0 <= i < len(s.streams[n]) ==> s.streams[n][i] in s.recordData && serstream(s.serializer, dt(s, s.streams[n][i])) == n && serssn(s.serializer, dt(s, s.streams[n][i])) == i + 1
pred im_stream_ascending(s *inmemorystore.inMemoryStore) = forall n string, i int, j int {s.streams[n][i], s.streams[n][j]} :: n in s.streams && 0 <= i && i < j && j < len(s.streams[n]) ==> s.streams[n][i] < s.streams[n][j]
pred im_stream_complete(s *inmemorystore.inMemoryStore) = forall id uint64 {s.recordData[id]} :: id in s.recordData ==> serstream(s.serializer, dt(s, id)) in s.streams && 1 <= serssn(s.serializer, dt(s, id)) <= len(s.streams[serstream(s.serializer, dt(s, id))]) && s.streams[serstream(s.serializer, dt(s, id))][serssn(s.serializer, dt(s, id)) - 1] == id
pred im_type_stored(s *inmemorystore.inMemoryStore) = forall t string, i int {s.aggregateTypes[t][i]} :: t in s.aggregateTypes && 0 <= i < len(s.aggregateTypes[t]) ==> s.aggregateTypes[t][i] in s.recordData && sertype(s.serializer, dt(s, s.aggregateTypes[t][i])) == t
pred im_type_ascending(s *inmemorystore.inMemoryStore) = forall t string, i int, j int {s.aggregateTypes[t][i], s.aggregateTypes[t][j]} :: t in s.aggregateTypes && 0 <= i && i < j && j < len(s.aggregateTypes[t]) ==> s.aggregateTypes[t][i] < s.aggregateTypes[t][j]
pred im_type_complete(s *inmemorystore.inMemoryStore) = forall id uint64 {s.recordData[id]} :: id in s.recordData ==> sertype(s.serializer, dt(s, id)) in s.aggregateTypes && member(s.aggregateTypes[sertype(s.serializer, dt(s, id))], id)

monitor inmemorystore.inMemoryStore.mux(s)
  guards globalSequenceNumber, records, streams, aggregateTypes, recordData
  invariant[maps] im_maps(s)
  invariant[arrays] im_arrays(s)
  invariant[stream-arrays] im_stream_arrays(s)
  invariant[type-arrays] im_type_arrays(s)
  invariant[own-arrays] im_own_arrays(s)
  invariant[own-arrays2] im_own_arrays2(s)
  invariant[own-arrays3] im_own_arrays3(s)
  invariant[numbers] im_numbers(s)
  invariant[log-ascending] im_log_ascending(s)
  invariant[log-stored] im_log_stored(s)
  invariant[log-complete] im_log_complete(s)
  invariant[stream-numbers] im_stream_numbers(s)
  invariant[stream-ascending] im_stream_ascending(s)
  invariant[stream-complete] im_stream_complete(s)
  invariant[type-stored] im_type_stored(s)
  invariant[type-ascending] im_type_ascending(s)
  invariant[type-complete] im_type_complete(s)

pred storedas(s *inmemorystore.inMemoryStore, id uint64, name string, n int, atype string, aid string, etype string, data any, meta any) = serok(s.serializer, dt(s, id)) && serstream(s.serializer, dt(s, id)) == name && sertype(s.serializer, dt(s, id)) == atype && serid(s.serializer, dt(s, id)) == aid && sergsn(s.serializer, dt(s, id)) == id && serssn(s.serializer, dt(s, id)) == n && seretype(s.serializer, dt(s, id)) == etype && serdata(s.serializer, dt(s, id)) == valuetext(data) && sermeta(s.serializer, dt(s, id)) == valuetext(meta)
pred savedas(s *inmemorystore.inMemoryStore, id uint64, name string, n int, e *rangedb.EventRecord) = storedas(s, id, name, n, aggtype(e.Event), aggid(e.Event), evtypename(e.Event), e.Event, e.Metadata)

fun evtypename(any) string
func iface rangedb.Event.EventType(e) (r)
  ensures r == evtypename(e)

// One event appended: the log, its stream and its type grow by its number, and nothing else changes.
func inmemorystore.(*inMemoryStore).saveEvent(s, streamName, aggregateType, aggregateID, eventType, eventID, expected, event, metadata) (data, record, err)
  props P01 P02 P03 P05 P06 P08 P09
  option optional
  requires s.serializer != nil && s.clock != nil
  requires[room] s.globalSequenceNumber < MAXU64
  holds s.mux
  let G = old(s.globalSequenceNumber)
  let L = old(len(s.records))
  let N = old(len(get(s.streams, streamName)))
  let M = old(len(get(s.aggregateTypes, aggregateType)))
  modifies s.globalSequenceNumber, s.records, map(s.streams), map(s.aggregateTypes), map(s.recordData), elems(s.records), elems(get(s.streams, streamName)), elems(get(s.aggregateTypes, aggregateType))
  ensures[expected] err == nil && expected != 0 ==> deref(expected) == N
  ensures[conflict] expected != 0 && deref(expected) != N ==> err != nil && istype(err, *rangedberror.UnexpectedSequenceNumber) && unbox(err, *rangedberror.UnexpectedSequenceNumber).Expected == deref(expected) && unbox(err, *rangedberror.UnexpectedSequenceNumber).ActualSequenceNumber == N
  ensures[unchanged] err != nil ==> s.globalSequenceNumber == G && s.records == old(s.records)
  ensures[unchanged-data] err != nil ==> (forall id uint64 {s.recordData[id]} {id in s.recordData} :: (id in s.recordData <==> old(id in s.recordData)) && s.recordData[id] == old(s.recordData[id]))
  ensures[unchanged-streams] err != nil ==> (forall n string {s.streams[n]} {n in s.streams} :: (n in s.streams <==> old(n in s.streams)) && s.streams[n] == old(s.streams[n]))
  ensures[unchanged-types] err != nil ==> (forall t string {s.aggregateTypes[t]} {t in s.aggregateTypes} :: (t in s.aggregateTypes <==> old(t in s.aggregateTypes)) && s.aggregateTypes[t] == old(s.aggregateTypes[t]))
  ensures[record] err == nil ==> record != 0 && record.GlobalSequenceNumber == G + 1 && record.StreamSequenceNumber == N + 1
  ensures[data] err == nil ==> data == s.recordData[G + 1]
  ensures[counter] err == nil ==> s.globalSequenceNumber == G + 1
  ensures[log-array] arr(s.records) == old(arr(s.records)) || fresh(arr(s.records))
  ensures[log-before] forall i int {s.records[i]} :: 0 <= i < L ==> s.records[i] == old(s.records[i])
  ensures[log] err == nil ==> len(s.records) == L + 1 && s.records[L] == G + 1
  ensures[streams-others] forall n string {s.streams[n]} {n in s.streams} :: n != streamName ==> (n in s.streams <==> old(n in s.streams)) && s.streams[n] == old(s.streams[n])
  ensures[stream-array] streamName in s.streams ==> arr(s.streams[streamName]) == old(arr(get(s.streams, streamName))) || fresh(arr(s.streams[streamName]))
  ensures[stream-before] forall i int {get(s.streams, streamName)[i]} :: 0 <= i < N ==> get(s.streams, streamName)[i] == old(get(s.streams, streamName)[i])
  ensures[stream] err == nil ==> streamName in s.streams && len(s.streams[streamName]) == N + 1 && s.streams[streamName][N] == G + 1
  ensures[types-others] forall t string {s.aggregateTypes[t]} {t in s.aggregateTypes} :: t != aggregateType ==> (t in s.aggregateTypes <==> old(t in s.aggregateTypes)) && s.aggregateTypes[t] == old(s.aggregateTypes[t])
  ensures[type-array] aggregateType in s.aggregateTypes ==> arr(s.aggregateTypes[aggregateType]) == old(arr(get(s.aggregateTypes, aggregateType))) || fresh(arr(s.aggregateTypes[aggregateType]))
  ensures[type-before] forall i int {get(s.aggregateTypes, aggregateType)[i]} :: 0 <= i < M ==> get(s.aggregateTypes, aggregateType)[i] == old(get(s.aggregateTypes, aggregateType)[i])
  ensures[type] err == nil ==> aggregateType in s.aggregateTypes && len(s.aggregateTypes[aggregateType]) == M + 1 && s.aggregateTypes[aggregateType][M] == G + 1
  ensures[data-set] err == nil ==> (forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData) || id == G + 1)
  ensures[data-before] forall id uint64 {s.recordData[id]} :: old(id in s.recordData) ==> id in s.recordData && s.recordData[id] == old(s.recordData[id])
  ensures[data-new] err == nil ==> storedas(s, G + 1, streamName, N + 1, aggregateType, aggregateID, eventType, event, metadata)
  cover err == nil
  cover err != nil

// The numbers c, the last of the log, of the stream and of the type, are taken back.
func inmemorystore.(*inMemoryStore).removeRecentEvents(s, c, streamName, aggregateType) ()
  props P01 P02 P03 P05 P06 P08 P09
  option optional
  holds s.mux
  requires[numbers-given] len(c) <= s.globalSequenceNumber && (forall j int {c[j]} :: 0 <= j < len(c) ==> c[j] == s.globalSequenceNumber - len(c) + 1 + j)
  requires[last-of-log] len(c) <= len(s.records) && (forall i int {s.records[i]} :: len(s.records) - len(c) <= i < len(s.records) ==> s.records[i] > s.globalSequenceNumber - len(c)) && (forall i int {s.records[i]} :: 0 <= i < len(s.records) - len(c) ==> s.records[i] <= s.globalSequenceNumber - len(c))
  requires[last-of-stream] len(c) > 0 ==> streamName in s.streams && len(c) <= len(s.streams[streamName]) && (forall i int {s.streams[streamName][i]} :: len(s.streams[streamName]) - len(c) <= i < len(s.streams[streamName]) ==> s.streams[streamName][i] > s.globalSequenceNumber - len(c)) && (forall i int {s.streams[streamName][i]} :: 0 <= i < len(s.streams[streamName]) - len(c) ==> s.streams[streamName][i] <= s.globalSequenceNumber - len(c))
  requires[last-of-type] len(c) > 0 ==> aggregateType in s.aggregateTypes && len(c) <= len(s.aggregateTypes[aggregateType]) && (forall i int {s.aggregateTypes[aggregateType][i]} :: len(s.aggregateTypes[aggregateType]) - len(c) <= i < len(s.aggregateTypes[aggregateType]) ==> s.aggregateTypes[aggregateType][i] > s.globalSequenceNumber - len(c)) && (forall i int {s.aggregateTypes[aggregateType][i]} :: 0 <= i < len(s.aggregateTypes[aggregateType]) - len(c) ==> s.aggregateTypes[aggregateType][i] <= s.globalSequenceNumber - len(c))
  requires[streams-others] forall n string, i int {s.streams[n][i]} :: len(c) > 0 && n in s.streams && n != streamName && 0 <= i < len(s.streams[n]) ==> s.streams[n][i] <= s.globalSequenceNumber - len(c)
  requires[types-others] forall t string, i int {s.aggregateTypes[t][i]} :: len(c) > 0 && t in s.aggregateTypes && t != aggregateType && 0 <= i < len(s.aggregateTypes[t]) ==> s.aggregateTypes[t][i] <= s.globalSequenceNumber - len(c)
  let G = old(s.globalSequenceNumber) - len(c)
  let L = old(len(s.records)) - len(c)
  let N = old(len(get(s.streams, streamName))) - len(c)
  modifies s.globalSequenceNumber, s.records, map(s.streams), map(s.aggregateTypes), map(s.recordData)
  inv[undone] forall id uint64 {id in s.recordData} :: id in s.recordData <==> entry(id in s.recordData) && !(G < id && id <= G + $k)
  inv[undone-down] forall id uint64 {id in s.recordData} :: id in s.recordData <==> entry(id in s.recordData) && !(G + len(c) - $k < id && id <= G + len(c))
  inv[undone-kept] forall id uint64 {s.recordData[id]} :: id in s.recordData ==> s.recordData[id] == entry(s.recordData[id])
  ensures[counter] s.globalSequenceNumber == G
  ensures[data-set] forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData) && id <= G
  ensures[data-before] forall id uint64 {s.recordData[id]} :: id in s.recordData ==> s.recordData[id] == old(s.recordData[id])
  ensures[log] len(s.records) == L
  ensures[streams-others] forall n string {s.streams[n]} {n in s.streams} :: n != streamName || len(c) == 0 ==> (n in s.streams <==> old(n in s.streams)) && s.streams[n] == old(s.streams[n])
  ensures[stream-gone] len(c) > 0 && N == 0 ==> !(streamName in s.streams)
  ensures[stream-left] len(c) > 0 && N > 0 ==> streamName in s.streams && len(s.streams[streamName]) == N && arr(s.streams[streamName]) == old(arr(s.streams[streamName])) && off(s.streams[streamName]) == old(off(s.streams[streamName]))
  cover len(c) > 0
  cover len(c) == 0

func inmemorystore.(*inMemoryStore).saveEvents(s, ctx, expected, streamName, eventRecords) (last, err)
  props P01 P02 P03 P05 P06 P08 P09
  option optional
  requires ctx != nil && s.serializer != nil && s.broadcaster != nil && s.clock != nil && s.uuidGenerator != nil && s.logger != 0
  requires[events] forall i int {eventRecords[i]} :: 0 <= i < len(eventRecords) ==> eventRecords[i] != 0 && eventRecords[i].Event != nil
  requires[room] s.globalSequenceNumber + len(eventRecords) <= MAXU64
  let G = old(s.globalSequenceNumber)
  let L = old(len(s.records))
  let N = old(len(get(s.streams, streamName)))
  let B = old(nbcast(s.broadcaster))
  modifies s.globalSequenceNumber, s.records, map(s.streams), map(s.aggregateTypes), map(s.recordData), allelems(uint64), cell(expected), nbcast(s.broadcaster)
  inv[maps] pp phi:[][]byte ::: im_maps(s)
  inv[arrays] pp phi:[][]byte ::: im_arrays(s)
  inv[stream-arrays] pp phi:[][]byte ::: im_stream_arrays(s)
  inv[type-arrays] pp phi:[][]byte ::: im_type_arrays(s)
  inv[own-arrays] pp phi:[][]byte ::: im_own_arrays(s)
  inv[own-arrays2] pp phi:[][]byte ::: im_own_arrays2(s)
  inv[own-arrays3] pp phi:[][]byte ::: im_own_arrays3(s)
  inv[numbers] pp phi:[][]byte ::: im_numbers(s)
  inv[log-ascending] pp phi:[][]byte ::: im_log_ascending(s)
  inv[log-stored] pp phi:[][]byte ::: im_log_stored(s)
  inv[log-complete] pp phi:[][]byte ::: im_log_complete(s)
  inv[stream-numbers] pp phi:[][]byte ::: im_stream_numbers(s)
  inv[stream-ascending] pp phi:[][]byte ::: im_stream_ascending(s)
  inv[stream-complete] pp phi:[][]byte ::: im_stream_complete(s)
  inv[type-stored] pp phi:[][]byte ::: im_type_stored(s)
  inv[type-ascending] pp phi:[][]byte ::: im_type_ascending(s)
  inv[type-complete] pp phi:[][]byte ::: im_type_complete(s)
  inv[counter] pp phi:[][]byte ::: s.globalSequenceNumber == G + $k
  inv[created] pp phi:[][]byte; c phi:[]uint64 ::: len(c) == $k && (forall j int {c[j]} :: 0 <= j < len(c) ==> c[j] == G + 1 + j)
  inv[created-own] pp phi:[][]byte; c phi:[]uint64 ::: allocated(arr(c)) && (arr(c) == 0 || arr(c) != arr(s.records))
  inv[created-own2] pp phi:[][]byte; c phi:[]uint64 ::: forall n string {s.streams[n]} :: n in s.streams ==> arr(c) != arr(s.streams[n])
  inv[created-own3] pp phi:[][]byte; c phi:[]uint64 ::: forall n string {s.aggregateTypes[n]} :: n in s.aggregateTypes ==> arr(c) != arr(s.aggregateTypes[n])
  inv[log-length] pp phi:[][]byte ::: len(s.records) == L + $k
  inv[log-before] pp phi:[][]byte ::: forall i int {s.records[i]} :: 0 <= i < L ==> s.records[i] <= G
  inv[log-new] pp phi:[][]byte ::: forall i int {s.records[i]} :: L <= i < L + $k ==> s.records[i] > G
  inv[streams-others] pp phi:[][]byte ::: forall n string {s.streams[n]} {n in s.streams} :: n != streamName || $k == 0 ==> (n in s.streams <==> old(n in s.streams)) && s.streams[n] == old(s.streams[n])
  inv[streams-others-content] pp phi:[][]byte ::: forall n string, i int {s.streams[n][i]} :: n != streamName && n in s.streams && 0 <= i < len(s.streams[n]) ==> s.streams[n][i] <= G
  inv[stream-length] pp phi:[][]byte ::: len(get(s.streams, streamName)) == N + $k
  inv[stream-before] pp phi:[][]byte ::: forall i int {get(s.streams, streamName)[i]} :: 0 <= i < N ==> get(s.streams, streamName)[i] <= G
  inv[stream-new] pp phi:[][]byte ::: forall i int {get(s.streams, streamName)[i]} :: N <= i < N + $k ==> get(s.streams, streamName)[i] > G
  inv[types-others-content] pp phi:[][]byte; a phi:string ::: forall t string, i int {s.aggregateTypes[t][i]} :: (t != a || $k == 0) && t in s.aggregateTypes && 0 <= i < len(s.aggregateTypes[t]) ==> s.aggregateTypes[t][i] <= G
  inv[type-length] pp phi:[][]byte; a phi:string ::: $k > 0 ==> a in s.aggregateTypes && len(s.aggregateTypes[a]) == old(len(get(s.aggregateTypes, a))) + $k
  inv[type-before] pp phi:[][]byte; a phi:string ::: $k > 0 ==> (forall i int {s.aggregateTypes[a][i]} :: 0 <= i < len(s.aggregateTypes[a]) - $k ==> s.aggregateTypes[a][i] <= G)
  inv[type-new] pp phi:[][]byte; a phi:string ::: $k > 0 ==> (forall i int {s.aggregateTypes[a][i]} :: len(s.aggregateTypes[a]) - $k <= i < len(s.aggregateTypes[a]) ==> s.aggregateTypes[a][i] > G)
  inv[types-others] pp phi:[][]byte; a phi:string ::: forall t string {s.aggregateTypes[t]} {t in s.aggregateTypes} :: t != a || $k == 0 ==> (t in s.aggregateTypes <==> old(t in s.aggregateTypes)) && s.aggregateTypes[t] == old(s.aggregateTypes[t])
  inv[data-set] pp phi:[][]byte ::: forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData) || G < id && id <= G + $k
  inv[data-before] pp phi:[][]byte ::: forall id uint64 {s.recordData[id]} :: old(id in s.recordData) ==> s.recordData[id] == old(s.recordData[id])
  inv[data-new] pp phi:[][]byte ::: forall id uint64 {s.recordData[id]} :: G < id && id <= G + $k ==> savedas(s, id, streamName, N + id - G, eventRecords[id - G - 1])
  inv[last] pp phi:[][]byte; l phi:uint64 ::: $k > 0 ==> l == N + $k
  inv[count] pp phi:[][]byte; n phi:int ::: n == $k
  inv[count2] pp phi:[][]byte; n phi:int ::: n == $k - 1
  inv[expected] pp phi:[][]byte ::: expected != 0 ==> deref(expected) == old(deref(expected)) + $k && ($k > 0 ==> old(deref(expected)) == N)
  inv[pending] p phi:[][]byte ::: len(p) == $k && (forall j int {p[j]} :: 0 <= j < len(p) ==> p[j] == s.recordData[G + 1 + j])
  inv[pending-own] p phi:[][]byte ::: arr(p) == 0 || fresh(arr(p))
  inv[one-type] pp phi:[][]byte; a phi:string ::: forall j int {eventRecords[j]} :: 0 <= j < $k ==> aggtype(eventRecords[j].Event) == a
  inv[one-id] pp phi:[][]byte; a phi:string ::: forall j int {eventRecords[j]} :: 0 <= j < $k ==> aggid(eventRecords[j].Event) == a
  inv[announced] nbcast(s.broadcaster) == B + $k
  inv[announced-them] forall j int {bcast(s.broadcaster)[j]} :: B <= j < B + $k ==> bcast(s.broadcaster)[j] != 0 && decodedfrom(bcast(s.broadcaster)[j]) == dt(s, G + 1 + j - B)
  ensures[announced] err == nil ==> nbcast(s.broadcaster) == B + len(eventRecords) && (forall j int {bcast(s.broadcaster)[j]} :: B <= j < B + len(eventRecords) ==> bcast(s.broadcaster)[j] != 0 && decodedfrom(bcast(s.broadcaster)[j]) == dt(s, G + 1 + j - B))
  ensures[not-announced] err != nil ==> nbcast(s.broadcaster) == B
  ensures[all] err == nil ==> (forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData) || G < id && id <= G + len(eventRecords))
  ensures[kept] forall id uint64 {s.recordData[id]} :: old(id in s.recordData) ==> id in s.recordData && s.recordData[id] == old(s.recordData[id])
  ensures[as-given] err == nil ==> (forall id uint64 {s.recordData[id]} :: G < id && id <= G + len(eventRecords) ==> savedas(s, id, streamName, N + id - G, eventRecords[id - G - 1]))
  ensures[last] err == nil ==> last == N + len(eventRecords) && s.globalSequenceNumber == G + len(eventRecords) && len(eventRecords) > 0
  ensures[nothing] err != nil ==> s.globalSequenceNumber == G && last == 0 && (forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData))
  ensures[nothing-in-streams] err != nil ==> (forall n string {n in s.streams} :: (n in s.streams <==> old(n in s.streams)) && len(get(s.streams, n)) == old(len(get(s.streams, n))))
  ensures[expected] err == nil && expected != 0 ==> old(deref(expected)) == N
  ensures[conflict] expected != 0 && old(deref(expected)) != N && len(eventRecords) > 0 ==> err != nil && (cancelled(ctx) || istype(err, *rangedberror.UnexpectedSequenceNumber) && unbox(err, *rangedberror.UnexpectedSequenceNumber).Expected == old(deref(expected)) && unbox(err, *rangedberror.UnexpectedSequenceNumber).ActualSequenceNumber == N)
  ensures[one-aggregate] err == nil ==> (forall j int {eventRecords[j]} :: 0 <= j < len(eventRecords) ==> aggtype(eventRecords[j].Event) == aggtype(eventRecords[0].Event) && aggid(eventRecords[j].Event) == aggid(eventRecords[0].Event))
  cover err == nil
  cover err != nil

// The two ways in: without an expectation, and with one.
func inmemorystore.(*inMemoryStore).Save(s, ctx, streamName, eventRecords) (last, err)
  props P01 P02 P03 P05 P06 P08 P09
  requires ctx != nil && s.serializer != nil && s.broadcaster != nil && s.clock != nil && s.uuidGenerator != nil && s.logger != 0
  requires[events] forall i int {eventRecords[i]} :: 0 <= i < len(eventRecords) ==> eventRecords[i] != 0 && eventRecords[i].Event != nil
  requires[room] s.globalSequenceNumber + len(eventRecords) <= MAXU64
  let G = old(s.globalSequenceNumber)
  let N = old(len(get(s.streams, streamName)))
  let B = old(nbcast(s.broadcaster))
  modifies s.globalSequenceNumber, s.records, map(s.streams), map(s.aggregateTypes), map(s.recordData), allelems(uint64), nbcast(s.broadcaster)
  ensures[announced] err == nil ==> nbcast(s.broadcaster) == B + len(eventRecords) && (forall j int {bcast(s.broadcaster)[j]} :: B <= j < B + len(eventRecords) ==> bcast(s.broadcaster)[j] != 0 && decodedfrom(bcast(s.broadcaster)[j]) == dt(s, G + 1 + j - B))
  ensures[not-announced] err != nil ==> nbcast(s.broadcaster) == B
  ensures[all] err == nil ==> (forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData) || G < id && id <= G + len(eventRecords))
  ensures[kept] forall id uint64 {s.recordData[id]} :: old(id in s.recordData) ==> id in s.recordData && s.recordData[id] == old(s.recordData[id])
  ensures[as-given] err == nil ==> (forall id uint64 {s.recordData[id]} :: G < id && id <= G + len(eventRecords) ==> savedas(s, id, streamName, N + id - G, eventRecords[id - G - 1]))
  ensures[last] err == nil ==> last == N + len(eventRecords) && s.globalSequenceNumber == G + len(eventRecords) && len(eventRecords) > 0
  ensures[nothing] err != nil ==> s.globalSequenceNumber == G && last == 0 && (forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData))
  ensures[nothing-in-streams] err != nil ==> (forall n string {n in s.streams} :: (n in s.streams <==> old(n in s.streams)) && len(get(s.streams, n)) == old(len(get(s.streams, n))))
  ensures[one-aggregate] err == nil ==> (forall j int {eventRecords[j]} :: 0 <= j < len(eventRecords) ==> aggtype(eventRecords[j].Event) == aggtype(eventRecords[0].Event) && aggid(eventRecords[j].Event) == aggid(eventRecords[0].Event))
  cover err == nil
  cover err != nil

func inmemorystore.(*inMemoryStore).OptimisticSave(s, ctx, expected, streamName, eventRecords) (last, err)
  props P01 P02 P03 P05 P06 P08 P09
  requires ctx != nil && s.serializer != nil && s.broadcaster != nil && s.clock != nil && s.uuidGenerator != nil && s.logger != 0
  requires[events] forall i int {eventRecords[i]} :: 0 <= i < len(eventRecords) ==> eventRecords[i] != 0 && eventRecords[i].Event != nil
  requires[room] s.globalSequenceNumber + len(eventRecords) <= MAXU64
  let G = old(s.globalSequenceNumber)
  let N = old(len(get(s.streams, streamName)))
  let B = old(nbcast(s.broadcaster))
  modifies s.globalSequenceNumber, s.records, map(s.streams), map(s.aggregateTypes), map(s.recordData), allelems(uint64), nbcast(s.broadcaster)
  ensures[announced] err == nil ==> nbcast(s.broadcaster) == B + len(eventRecords) && (forall j int {bcast(s.broadcaster)[j]} :: B <= j < B + len(eventRecords) ==> bcast(s.broadcaster)[j] != 0 && decodedfrom(bcast(s.broadcaster)[j]) == dt(s, G + 1 + j - B))
  ensures[not-announced] err != nil ==> nbcast(s.broadcaster) == B
  ensures[all] err == nil ==> (forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData) || G < id && id <= G + len(eventRecords))
  ensures[kept] forall id uint64 {s.recordData[id]} :: old(id in s.recordData) ==> id in s.recordData && s.recordData[id] == old(s.recordData[id])
  ensures[as-given] err == nil ==> (forall id uint64 {s.recordData[id]} :: G < id && id <= G + len(eventRecords) ==> savedas(s, id, streamName, N + id - G, eventRecords[id - G - 1]))
  ensures[last] err == nil ==> last == N + len(eventRecords) && s.globalSequenceNumber == G + len(eventRecords) && len(eventRecords) > 0
  ensures[nothing] err != nil ==> s.globalSequenceNumber == G && last == 0 && (forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData))
  ensures[nothing-in-streams] err != nil ==> (forall n string {n in s.streams} :: (n in s.streams <==> old(n in s.streams)) && len(get(s.streams, n)) == old(len(get(s.streams, n))))
  ensures[one-aggregate] err == nil ==> (forall j int {eventRecords[j]} :: 0 <= j < len(eventRecords) ==> aggtype(eventRecords[j].Event) == aggtype(eventRecords[0].Event) && aggid(eventRecords[j].Event) == aggid(eventRecords[0].Event))
  ensures[expected] err == nil ==> expected == N
  ensures[conflict] expected != N && len(eventRecords) > 0 ==> err != nil && (cancelled(ctx) || istype(err, *rangedberror.UnexpectedSequenceNumber) && unbox(err, *rangedberror.UnexpectedSequenceNumber).Expected == expected && unbox(err, *rangedberror.UnexpectedSequenceNumber).ActualSequenceNumber == N)
  cover err == nil
  cover err != nil

// A new store satisfies the invariants of its lock, and is empty.
func functype inmemorystore.Option(f, s) ()
  requires s != 0
  modifies s.clock, s.uuidGenerator, s.serializer, s.logger

func inmemorystore.WithClock$1(store) ()
  props P01 P02
  requires store != 0
  modifies store.clock
func inmemorystore.WithSerializer$1(store) ()
  props P01 P02
  requires store != 0
  modifies store.serializer
func inmemorystore.WithLogger$1(store) ()
  props P01 P02
  requires store != 0
  modifies store.logger
func inmemorystore.WithUUIDGenerator$1(store) ()
  props P01 P02
  requires store != 0
  modifies store.uuidGenerator

func inmemorystore.New(options) (s)
  props P01 P02 P03 P04 P05 P06 P08 P09
  requires forall i int {options[i]} :: 0 <= i < len(options) ==> options[i] != nil
  modifies any
  inv[new] st val:*inmemorystore.inMemoryStore ::: st != 0 && fresh(st) && st.globalSequenceNumber == 0 && st.records == zeroval([]uint64) && im_maps(st) && (forall n string {n in st.streams} :: !(n in st.streams)) && (forall n string {n in st.aggregateTypes} :: !(n in st.aggregateTypes)) && (forall n uint64 {n in st.recordData} :: !(n in st.recordData))
  cover s != 0
  ensures[empty] s != 0 && fresh(s) && s.globalSequenceNumber == 0 && len(s.records) == 0 && (forall n string {n in s.streams} :: !(n in s.streams)) && (forall n uint64 {n in s.recordData} :: !(n in s.recordData))
  ensures[lock-maps] im_maps(s)
  ensures[lock-arrays] im_arrays(s)
  ensures[lock-stream-arrays] im_stream_arrays(s)
  ensures[lock-type-arrays] im_type_arrays(s)
  ensures[lock-own-arrays] im_own_arrays(s)
  ensures[lock-own-arrays2] im_own_arrays2(s)
  ensures[lock-own-arrays3] im_own_arrays3(s)
  ensures[lock-numbers] im_numbers(s)
  ensures[lock-log-ascending] im_log_ascending(s)
  ensures[lock-log-stored] im_log_stored(s)
  ensures[lock-log-complete] im_log_complete(s)
  ensures[lock-stream-numbers] im_stream_numbers(s)
  ensures[lock-stream-ascending] im_stream_ascending(s)
  ensures[lock-stream-complete] im_stream_complete(s)
  ensures[lock-type-stored] im_type_stored(s)
  ensures[lock-type-ascending] im_type_ascending(s)
  ensures[lock-type-complete] im_type_complete(s)

func inmemorystore.(*inMemoryStore).TotalEventsInStream(s, ctx, streamName) (n, err)
  props P05 P06 P08
  requires ctx != nil
  ensures[counts] err == nil ==> n == len(get(s.streams, streamName))
  ensures[cancelled] err != nil ==> cancelled(ctx) && n == 0
  ensures[refused-when-cancelled] old(cancelled(ctx)) ==> err != nil
  cover err == nil
  cover err != nil

// ---- reading ----

pred imout(it any) = unbox(it, *rangedb.recordIterator).resultRecords
// the k-th record sent is the stored one of its number
pred asstored(s *inmemorystore.inMemoryStore, r *rangedb.Record) = r != nil && r.GlobalSequenceNumber in s.recordData && decodedfrom(r) == dt(s, r.GlobalSequenceNumber) && r.StreamName == serstream(s.serializer, dt(s, r.GlobalSequenceNumber)) && r.AggregateType == sertype(s.serializer, dt(s, r.GlobalSequenceNumber)) && r.StreamSequenceNumber == serssn(s.serializer, dt(s, r.GlobalSequenceNumber)) && r.EventID == sereid(s.serializer, dt(s, r.GlobalSequenceNumber)) && r.EventType == seretype(s.serializer, dt(s, r.GlobalSequenceNumber)) && r.AggregateID == serid(s.serializer, dt(s, r.GlobalSequenceNumber))
pred wassent(ch chan rangedb.ResultRecord, id uint64) = exists k int {sent(ch)[k]} :: 0 <= k < nsent(ch) && sent(ch)[k].Record.GlobalSequenceNumber == id
pred endedwell(ch chan rangedb.ResultRecord) = nsent(ch) == 0 || sent(ch)[nsent(ch) - 1].Err == nil

func inmemorystore.(*inMemoryStore).Events(s, ctx, from) (it)
  props P05 P06 P08
  requires ctx != nil && s.serializer != nil && s.logger != 0
  modifies cancelled(ctx)
  inv[open] ch chan rangedb.ResultRecord ::: !closed(ch) && 0 <= nsent(ch) <= $k
  inv[sent] ch chan rangedb.ResultRecord ::: forall j int {sent(ch)[j]} :: 0 <= j < nsent(ch) ==> sent(ch)[j].Err == nil && fresh(sent(ch)[j].Record) && asstored(s, sent(ch)[j].Record) && sent(ch)[j].Record.GlobalSequenceNumber == s.records[$k - nsent(ch) + j] && sent(ch)[j].Record.GlobalSequenceNumber >= from
  inv[sent2] ch chan rangedb.ResultRecord ::: forall i int {s.records[i]} :: $k - nsent(ch) <= i < $k ==> sent(ch)[i - ($k - nsent(ch))].Record.GlobalSequenceNumber == s.records[i]
  inv[skipped] ch chan rangedb.ResultRecord ::: forall i int {s.records[i]} :: 0 <= i < $k - nsent(ch) ==> s.records[i] < from
  thread[closed] closed(imout(it))
  thread[error-is-last] forall k int {sent(imout(it))[k]} :: 0 <= k < nsent(imout(it)) - 1 ==> sent(imout(it))[k].Err == nil
  thread[as-stored] forall k int {sent(imout(it))[k]} :: 0 <= k < nsent(imout(it)) && sent(imout(it))[k].Err == nil ==> asstored(s, sent(imout(it))[k].Record) && sent(imout(it))[k].Record.GlobalSequenceNumber >= from
  thread[ascending] forall a int, b int {sent(imout(it))[a], sent(imout(it))[b]} :: 0 <= a && a < b && b < nsent(imout(it)) && sent(imout(it))[b].Err == nil ==> sent(imout(it))[a].Record.GlobalSequenceNumber < sent(imout(it))[b].Record.GlobalSequenceNumber
  thread[complete] endedwell(imout(it)) && !cancelled(ctx) ==> (forall id uint64 {s.recordData[id]} :: id in s.recordData && id >= from ==> wassent(imout(it), id))
  thread[no-error-unless-cancelled] !cancelled(ctx) ==> endedwell(imout(it))

func inmemorystore.(*inMemoryStore).EventsByStream(s, ctx, from, streamName) (it)
  props P05 P06 P08
  requires ctx != nil && s.serializer != nil && s.logger != 0
  modifies cancelled(ctx)
  inv[open] ch chan rangedb.ResultRecord ::: !closed(ch) && 0 <= nsent(ch) <= $k
  inv[sent] ch chan rangedb.ResultRecord ::: forall j int {sent(ch)[j]} :: 0 <= j < nsent(ch) ==> sent(ch)[j].Err == nil && fresh(sent(ch)[j].Record) && asstored(s, sent(ch)[j].Record) && sent(ch)[j].Record.GlobalSequenceNumber == s.streams[streamName][$k - nsent(ch) + j] && sent(ch)[j].Record.StreamSequenceNumber == $k - nsent(ch) + j + 1 && sent(ch)[j].Record.StreamSequenceNumber >= from && sent(ch)[j].Record.StreamName == streamName
  inv[sent2] ch chan rangedb.ResultRecord ::: forall i int {s.streams[streamName][i]} :: $k - nsent(ch) <= i < $k ==> sent(ch)[i - ($k - nsent(ch))].Record.GlobalSequenceNumber == s.streams[streamName][i]
  inv[skipped] ch chan rangedb.ResultRecord ::: $k - nsent(ch) > 0 ==> $k - nsent(ch) < from
  ensures[not-found] !(streamName in s.streams) ==> nsent(imout(it)) == 1 && sent(imout(it))[0].Record == nil && sent(imout(it))[0].Err == rangedb.ErrStreamNotFound && closed(imout(it))
  thread[closed] closed(imout(it))
  thread[error-is-last] forall k int {sent(imout(it))[k]} :: 0 <= k < nsent(imout(it)) - 1 ==> sent(imout(it))[k].Err == nil
  thread[as-stored] forall k int {sent(imout(it))[k]} :: 0 <= k < nsent(imout(it)) && sent(imout(it))[k].Err == nil ==> asstored(s, sent(imout(it))[k].Record) && sent(imout(it))[k].Record.StreamSequenceNumber >= from && sent(imout(it))[k].Record.StreamName == streamName
  thread[gapless] forall a int {sent(imout(it))[a]} :: 0 < a && a < nsent(imout(it)) && sent(imout(it))[a].Err == nil ==> sent(imout(it))[a].Record.StreamSequenceNumber == sent(imout(it))[0].Record.StreamSequenceNumber + a
  thread[complete] endedwell(imout(it)) && !cancelled(ctx) ==> (forall id uint64 {s.recordData[id]} :: id in s.recordData && serstream(s.serializer, dt(s, id)) == streamName && serssn(s.serializer, dt(s, id)) >= from ==> wassent(imout(it), id))
  thread[no-error-unless-cancelled] !cancelled(ctx) ==> endedwell(imout(it))

func inmemorystore.(*inMemoryStore).idsByAggregateTypes(s, types) (r)
  props P05 P06 P08
  option optional
  holds s.mux read
  inv[requested-stored] m map[uint64]struct{} ::: m != 0 && (forall id uint64 {id in m} :: id in m ==> id in s.recordData && member(types, sertype(s.serializer, dt(s, id))))
  inv[requested-so-far] m map[uint64]struct{} ::: forall j int, i int {s.aggregateTypes[types[j]][i]} :: 0 <= j < $k && j < len(types) && types[j] in s.aggregateTypes && 0 <= i < len(s.aggregateTypes[types[j]]) ==> s.aggregateTypes[types[j]][i] in m
  inv[requested-before] m map[uint64]struct{} ::: forall id uint64 {id in m} :: entry(id in m) ==> id in m
  inv[requested-of-type] l []uint64; m map[uint64]struct{} ::: forall i int {l[i]} :: 0 <= i < $k && i < len(l) ==> l[i] in m
  inv[found-stored] m map[uint64]struct{}; ids phi:[]uint64 ::: forall i int {ids[i]} :: 0 <= i < len(ids) ==> ids[i] in m
  inv[found-ascending] ids phi:[]uint64 ::: forall i int, j int {ids[i], ids[j]} :: 0 <= i && i < j && j < len(ids) ==> ids[i] < ids[j]
  inv[found-before] ids phi:[]uint64 ::: forall i int, p int {ids[i], s.records[p]} :: 0 <= i < len(ids) && $k <= p < len(s.records) ==> ids[i] < s.records[p]
  inv[found-all] m map[uint64]struct{}; ids phi:[]uint64 ::: forall p int {s.records[p]} :: 0 <= p < $k && s.records[p] in m ==> member(ids, s.records[p])
  ensures[ascending] forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] < r[j]
  ensures[stored] forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] in s.recordData && member(types, sertype(s.serializer, dt(s, r[i])))
  ensures[complete] forall id uint64 {s.recordData[id]} :: id in s.recordData && member(types, sertype(s.serializer, dt(s, id))) ==> member(r, id)

func inmemorystore.(*inMemoryStore).EventsByAggregateTypes(s, ctx, from, types) (it)
  props P05 P06 P08
  requires ctx != nil && s.serializer != nil && s.logger != 0
  modifies cancelled(ctx)
  inv[open] ch chan rangedb.ResultRecord ::: !closed(ch) && 0 <= nsent(ch) <= $k
  inv[sent] ids []uint64; ch chan rangedb.ResultRecord ::: forall j int {sent(ch)[j]} :: 0 <= j < nsent(ch) ==> sent(ch)[j].Err == nil && fresh(sent(ch)[j].Record) && asstored(s, sent(ch)[j].Record) && sent(ch)[j].Record.GlobalSequenceNumber == ids[$k - nsent(ch) + j] && sent(ch)[j].Record.GlobalSequenceNumber >= from && member(types, sent(ch)[j].Record.AggregateType)
  inv[sent2] ids []uint64; ch chan rangedb.ResultRecord ::: forall i int {ids[i]} :: $k - nsent(ch) <= i < $k ==> sent(ch)[i - ($k - nsent(ch))].Record.GlobalSequenceNumber == ids[i]
  inv[skipped] ids []uint64; ch chan rangedb.ResultRecord ::: forall i int {ids[i]} :: 0 <= i < $k - nsent(ch) ==> ids[i] < from
  thread[closed] closed(imout(it))
  thread[error-is-last] forall k int {sent(imout(it))[k]} :: 0 <= k < nsent(imout(it)) - 1 ==> sent(imout(it))[k].Err == nil
  thread[as-stored] forall k int {sent(imout(it))[k]} :: 0 <= k < nsent(imout(it)) && sent(imout(it))[k].Err == nil ==> asstored(s, sent(imout(it))[k].Record) && sent(imout(it))[k].Record.GlobalSequenceNumber >= from && member(types, sent(imout(it))[k].Record.AggregateType)
  thread[ascending] forall a int, b int {sent(imout(it))[a], sent(imout(it))[b]} :: 0 <= a && a < b && b < nsent(imout(it)) && sent(imout(it))[b].Err == nil ==> sent(imout(it))[a].Record.GlobalSequenceNumber < sent(imout(it))[b].Record.GlobalSequenceNumber
  thread[complete] endedwell(imout(it)) && !cancelled(ctx) ==> (forall id uint64 {s.recordData[id]} :: id in s.recordData && member(types, sertype(s.serializer, dt(s, id))) && id >= from ==> wassent(imout(it), id))
  thread[no-error-unless-cancelled] !cancelled(ctx) ==> endedwell(imout(it))

// ---- deleting ----

pred ascending(s []uint64) = forall i int, j int {s[i], s[j]} :: 0 <= i && i < j && j < len(s) ==> s[i] < s[j]

func inmemorystore.RemoveIndex(s, index) (r)
  props P04 P06 P08
  option optional
  requires 0 <= index < len(s)
  requires[ascending] ascending(s)
  modifies elems(s)
  ensures[one-less] len(r) == len(s) - 1 && arr(r) == arr(s) && off(r) == off(s) && cap(r) == cap(s)
  ensures[before] forall i int {r[i]} {old(s[i])} :: 0 <= i < index ==> r[i] == old(s[i])
  ensures[after] forall i int {r[i]} :: index <= i < len(r) ==> r[i] == old(s[i + 1])
  ensures[after2] forall i int {old(s[i])} :: index < i < len(s) ==> r[i - 1] == old(s[i])
  ensures[tail] s[len(s) - 1] == old(s[len(s) - 1])
  ensures[ascending] ascending(r)
  ensures[members] forall v uint64 {member(r, v)} {old(member(s, v))} :: member(r, v) <==> old(member(s, v)) && v != old(s[index])
  ensures[not-again] forall i int {s[i]} :: index < i < len(s) ==> s[i] != old(s[index])

func inmemorystore.(*inMemoryStore).OptimisticDeleteStream(s, ctx, expected, streamName) (err)
  props P04 P06 P08 P03
  requires ctx != nil
  modifies s.records, map(s.streams), map(s.aggregateTypes), map(s.recordData), allelems(uint64)
  let N = old(len(get(s.streams, streamName)))
  inv[maps] im_maps(s)
  inv[arrays] im_arrays(s)
  inv[stream-arrays] im_stream_arrays(s)
  inv[type-arrays] im_type_arrays(s)
  inv[own-arrays] im_own_arrays(s)
  inv[own-arrays2] im_own_arrays2(s)
  inv[own-arrays3] im_own_arrays3(s)
  inv[numbers] im_numbers(s)
  inv[log-ascending] im_log_ascending(s)
  inv[log-stored] im_log_stored(s)
  inv[log-complete] im_log_complete(s)
  inv[streams-kept] forall n string {s.streams[n]} {n in s.streams} :: (n in s.streams <==> old(n in s.streams)) && s.streams[n] == old(s.streams[n])
  inv[streams-kept-content] forall n string, i int {s.streams[n][i]} :: n in s.streams && 0 <= i < len(s.streams[n]) ==> s.streams[n][i] == old(s.streams[n][i])
  inv[type-ascending] im_type_ascending(s)
  inv[type-complete] im_type_complete(s)
  inv[types-kept] forall t string {t in s.aggregateTypes} {s.aggregateTypes[t]} :: (t in s.aggregateTypes <==> old(t in s.aggregateTypes)) && arr(s.aggregateTypes[t]) == old(arr(s.aggregateTypes[t]))
  inv[type-stored@1] im_type_stored(s)
  inv[type-members@1] forall t string, v uint64 {member(s.aggregateTypes[t], v)} :: t in s.aggregateTypes && member(s.aggregateTypes[t], v) ==> v in s.recordData && sertype(s.serializer, dt(s, v)) == t
  inv[data-before] forall id uint64 {s.recordData[id]} :: id in s.recordData ==> old(id in s.recordData) && s.recordData[id] == old(s.recordData[id])
  inv[removed@1] forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData) && !(serstream(s.serializer, old(bytes(s.recordData[id]))) == streamName && serssn(s.serializer, old(bytes(s.recordData[id]))) <= $k)
  inv[removed-before3@3] forall id uint64 {id in s.recordData} :: id in s.recordData <==> entry(id in s.recordData)
  inv[type-members-but3@3] x val:uint64 ::: forall t string, v uint64 {member(s.aggregateTypes[t], v)} :: t in s.aggregateTypes && member(s.aggregateTypes[t], v) ==> v == x || v in s.recordData && sertype(s.serializer, dt(s, v)) == t
  inv[removed-before@2m] forall id uint64 {id in s.recordData} :: id in s.recordData <==> entry(id in s.recordData)
  inv[not-yet@2s] x val:uint64 ::: x in s.recordData ==> s.records == entry(s.records) && (forall i int {s.records[i]} :: 0 <= i < $k && i < len(s.records) ==> s.records[i] != x)
  inv[same-array] arr(s.records) == old(arr(s.records))
  inv[gone@2s] x val:uint64; l val:[]uint64 ::: arr(l) == arr(s.records) ==> (x in s.recordData) || (forall i int {l[i]} :: $k <= i < len(l) ==> l[i] != x)
  inv[only-it@2s] x val:uint64 ::: forall id uint64 {id in s.recordData} :: id in s.recordData <==> entry(id in s.recordData) && (id != x || x in s.recordData)
  inv[type-members-but@2] x val:uint64 ::: forall t string, v uint64 {member(s.aggregateTypes[t], v)} :: t in s.aggregateTypes && member(s.aggregateTypes[t], v) ==> v == x || v in s.recordData && sertype(s.serializer, dt(s, v)) == t
  inv[type-rid@2m] x val:uint64 ::: forall t string {visited(t)} :: visited(t) && t in s.aggregateTypes ==> !member(s.aggregateTypes[t], x)
  inv[type-rid-before@3] x val:uint64 ::: forall t string {s.aggregateTypes[t]} :: t in s.aggregateTypes && !entry(member(s.aggregateTypes[t], x)) ==> !member(s.aggregateTypes[t], x)
  inv[type-not-yet@3] x val:uint64; a val:string ::: member(s.aggregateTypes[a], x) ==> s.aggregateTypes[a] == entry(s.aggregateTypes[a]) && (forall i int {s.aggregateTypes[a][i]} :: 0 <= i < $k && i < len(s.aggregateTypes[a]) ==> s.aggregateTypes[a][i] != x)
  inv[type-gone@3] x val:uint64; a val:string; l val:[]uint64 ::: arr(l) == arr(s.aggregateTypes[a]) ==> a in s.aggregateTypes && member(s.aggregateTypes[a], x) || (forall i int {l[i]} :: $k <= i < len(l) ==> l[i] != x)
  ensures[not-found] err == nil ==> old(streamName in s.streams) && expected == N
  ensures[found] err != nil ==> cancelled(ctx) || !old(streamName in s.streams) && err == rangedb.ErrStreamNotFound || old(streamName in s.streams) && expected != N && istype(err, *rangedberror.UnexpectedSequenceNumber) && unbox(err, *rangedberror.UnexpectedSequenceNumber).Expected == expected && unbox(err, *rangedberror.UnexpectedSequenceNumber).ActualSequenceNumber == N
  ensures[gone] err == nil ==> !(streamName in s.streams)
  ensures[exactly] err == nil ==> (forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData) && serstream(s.serializer, old(bytes(s.recordData[id]))) != streamName)
  ensures[kept] forall id uint64 {s.recordData[id]} :: id in s.recordData ==> s.recordData[id] == old(s.recordData[id])
  ensures[nothing] err != nil ==> (forall id uint64 {id in s.recordData} :: id in s.recordData <==> old(id in s.recordData)) && (forall n string {n in s.streams} :: n in s.streams <==> old(n in s.streams))
  ensures[counter] s.globalSequenceNumber == old(s.globalSequenceNumber)
  ensures[others] forall n string {s.streams[n]} {n in s.streams} :: n != streamName ==> (n in s.streams <==> old(n in s.streams)) && s.streams[n] == old(s.streams[n])
  cover err == nil
  cover err == rangedb.ErrStreamNotFound
