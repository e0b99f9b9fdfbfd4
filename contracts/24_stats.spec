// Projected statistics (P24).

monitor projection.AggregateTypeStats.mux(a)
  guards data
  invariant[map] a.data.TotalEventsByAggregateType != 0

func projection.NewAggregateTypeStats() (a)
  props P24
  ensures[empty] fresh(a) && a.data.TotalEventsByAggregateType != 0 && a.data.TotalEvents == 0 && a.data.LatestGlobalSequenceNumber == 0
  ensures[no-types] forall t string :: !(t in a.data.TotalEventsByAggregateType)

func projection.(*AggregateTypeStats).Accept(a, record) ()
  props P24 P08
  requires record != nil
  modifies a.data, map(a.data.TotalEventsByAggregateType)
  ensures[counts-it-once] get(a.data.TotalEventsByAggregateType, record.AggregateType) == (old(get(a.data.TotalEventsByAggregateType, record.AggregateType)) + 1) % 18446744073709551616
  ensures[knows-its-type] record.AggregateType in a.data.TotalEventsByAggregateType
  ensures[others-kept] forall t string {a.data.TotalEventsByAggregateType[t]} :: t != record.AggregateType ==> a.data.TotalEventsByAggregateType[t] == old(a.data.TotalEventsByAggregateType[t]) && (t in a.data.TotalEventsByAggregateType <==> old(t in a.data.TotalEventsByAggregateType))
  ensures[sum] a.data.TotalEvents == (old(a.data.TotalEvents) + 1) % 18446744073709551616
  ensures[latest] a.data.LatestGlobalSequenceNumber == record.GlobalSequenceNumber

func projection.(*AggregateTypeStats).TotalEventsByAggregateType(a, t) (n)
  props P24 P08
  ensures[count] n == get(a.data.TotalEventsByAggregateType, t)

func projection.(*AggregateTypeStats).TotalEvents(a) (n)
  props P24 P08
  ensures[sum] n == a.data.TotalEvents

func projection.(*AggregateTypeStats).LatestGlobalSequenceNumber(a) (n)
  props P24 P08
  ensures[latest] n == a.data.LatestGlobalSequenceNumber

func projection.(*AggregateTypeStats).SortedAggregateTypes(a) (keys)
  props P24 P08
  inv[keys-only] k []string ::: forall i int {k[i]} :: 0 <= i < len(k) ==> k[i] in a.data.TotalEventsByAggregateType && visited(k[i])
  inv[keys-all] k []string ::: forall t string {visited(t)} :: visited(t) ==> (exists i int {k[i]} :: 0 <= i < len(k) && k[i] == t)
  inv[distinct] k []string ::: forall i int, j int {k[i], k[j]} :: 0 <= i && i < j && j < len(k) ==> k[i] != k[j]
  inv[visited-in] forall t string {visited(t)} :: visited(t) ==> t in a.data.TotalEventsByAggregateType
  inv[freshly] k []string ::: fresh(k)
  ensures[only-known] forall i int {keys[i]} :: 0 <= i < len(keys) ==> keys[i] in a.data.TotalEventsByAggregateType
  ensures[all-known] forall t string {t in a.data.TotalEventsByAggregateType} :: t in a.data.TotalEventsByAggregateType ==> (exists i int {keys[i]} :: 0 <= i < len(keys) && keys[i] == t)
  ensures[sorted] forall i int, j int {keys[i], keys[j]} :: 0 <= i && i < j && j < len(keys) ==> !(keys[j] < keys[i])

func projection.(*AggregateTypeStats).SaveSnapshot(a, w) (err)
  props P24 P08
  requires w != nil
  modifies jwritten(w)
  ensures[writes-the-state] err == nil ==> jwritten(w) == box(a.data, projection.aggregateTypeStatusData)

func projection.(*AggregateTypeStats).LoadFromSnapshot(a, r) (err)
  props P24 P08
  requires r != nil
  modifies a.data, jpos, jdecoded, jdecodednum
  ensures[broken-changes-nothing] err != nil ==> a.data == old(a.data)
  ensures[loads-the-state] err == nil ==> a.data.TotalEvents == jstats(r).TotalEvents && a.data.LatestGlobalSequenceNumber == jstats(r).LatestGlobalSequenceNumber
  ensures[loads-the-counts] err == nil && jstats(r).TotalEventsByAggregateType != 0 ==> a.data.TotalEventsByAggregateType == jstats(r).TotalEventsByAggregateType
  cover err == nil
  cover err != nil

// Snapshots on disk: the snapshot is read from and written to the projection's own file, and every failure is reported.
fun fileof(ref) string
fun snapname(any) string
ghost snapfrom(any) any
ghost snapto(any) any

func os.Open(name) (f, err)
  option trusted
  ensures err == nil ==> f != nil && fileof(f) == name

func os.Create(name) (f, err)
  option trusted
  ensures err == nil ==> f != nil && fileof(f) == name

func iface projection.SnapshotProjection.SnapshotName(p) (n)
  ensures n == snapname(p)

func iface projection.SnapshotProjection.LoadFromSnapshot(p, r) (err)
  modifies snapfrom(p)
  ensures err == nil ==> snapfrom(p) == r
  ensures err != nil ==> snapfrom(p) == old(snapfrom(p))

func iface projection.SnapshotProjection.SaveSnapshot(p, w) (err)
  modifies snapto(p)
  ensures err == nil ==> snapto(p) == w
  ensures err != nil ==> snapto(p) == old(snapto(p))

func projection.(*diskSnapshotStore).SnapshotPath(d, p) (path)
  props P24
  requires p != nil
  ensures[own-file] path == d.basePath + "/" + snapname(p) + ".snap"

func projection.(*diskSnapshotStore).Load(d, p) (err)
  props P24
  requires p != nil
  modifies snapfrom(p)
  ensures[from-own-file] err == nil ==> istype(snapfrom(p), *os.File) && fileof(unbox(snapfrom(p), *os.File)) == d.basePath + "/" + snapname(p) + ".snap"
  ensures[failure-changes-nothing] err != nil ==> snapfrom(p) == old(snapfrom(p))

func projection.(*diskSnapshotStore).Save(d, p) (err)
  props P24
  requires p != nil
  modifies snapto(p)
  ensures[to-own-file] err == nil ==> istype(snapto(p), *os.File) && fileof(unbox(snapto(p), *os.File)) == d.basePath + "/" + snapname(p) + ".snap"
