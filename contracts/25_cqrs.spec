// Command dispatch (P25).
// The k-th load and handling of an aggregate: what they were given and how they ended is described by rigid
// sequences indexed by counters (each index happens once).

fun cmdtype(any) string
ghost nloads(any) int
fun loadfrom(any) [int]any
ghost nhandles(any) int
fun handlecmd(any) [int]any
fun handlenth(any) [int]int
fun handleout(any) [int]ref
fun handlelen(any) [int]int
fun handleev(any, int) [int]any

func iface cqrs.Command.CommandType(c) (r)
  ensures r == cmdtype(c)

func iface cqrs.Aggregate.Load(a, it) ()
  modifies nloads(a)
  ensures nloads(a) == old(nloads(a)) + 1 && loadfrom(a)[old(nloads(a))] == it

func iface cqrs.Aggregate.Handle(a, cmd) (events)
  modifies nhandles(a)
  ensures nhandles(a) == old(nhandles(a)) + 1 && handlecmd(a)[old(nhandles(a))] == cmd && handlenth(a)[old(nhandles(a))] == nloads(a)
  ensures handlelen(a)[old(nhandles(a))] == len(events)
  ensures forall i int {events[i]} {handleev(a, old(nhandles(a)))[i]} :: 0 <= i < len(events) ==> handleev(a, old(nhandles(a)))[i] == events[i] && events[i] != nil

// How many saves of s among the numbers [lo, hi) succeeded.
fun okc(any, int, int) int
axiom[okc-empty] forall s any, lo int {okc(s, lo, lo)} :: okc(s, lo, lo) == 0
axiom[okc-step] forall s any, lo int, hi int, h2 int {okc(s, lo, hi), okc(s, lo, h2)} :: lo <= hi && h2 == hi + 1 ==> okc(s, lo, h2) == okc(s, lo, hi) + (if saveok(s)[hi] then 1 else 0)

func cqrs.(*cqrs).saveEvents(c, ctx, events) (saved)
  props P25
  requires c.store != nil && c.logger != nil && ctx != nil
  requires forall i int {events[i]} :: 0 <= i < len(events) ==> events[i] != nil
  modifies nsaves(c.store)
  inv[link] k phi:int ::: k == $k - 1
  inv[link2] k phi:int ::: k == $k
  inv[bound] $k <= len(events)
  inv[saved-so-far] nsaves(c.store) == old(nsaves(c.store)) + $k
  inv[each-once] forall i int {events[i]} :: 0 <= i < $k ==> savestream(c.store)[old(nsaves(c.store)) + i] == aggtype(events[i]) + "!" + aggid(events[i]) && saveevent(c.store)[old(nsaves(c.store)) + i] == events[i] && savelen(c.store)[old(nsaves(c.store)) + i] == 1
  inv[count] rs phi:[]rangedb.Event ::: len(rs) == okc(c.store, old(nsaves(c.store)), old(nsaves(c.store)) + $k) && len(rs) <= $k
  inv[successful] rs phi:[]rangedb.Event ::: forall i int {events[i]} :: 0 <= i < $k && saveok(c.store)[old(nsaves(c.store)) + i] ==> 0 <= okc(c.store, old(nsaves(c.store)), old(nsaves(c.store)) + i) < len(rs) && rs[okc(c.store, old(nsaves(c.store)), old(nsaves(c.store)) + i)] == events[i]
  ensures[one-save-each] nsaves(c.store) == old(nsaves(c.store)) + len(events)
  ensures[to-own-stream-in-order] forall i int {events[i]} :: 0 <= i < len(events) ==> savestream(c.store)[old(nsaves(c.store)) + i] == aggtype(events[i]) + "!" + aggid(events[i]) && saveevent(c.store)[old(nsaves(c.store)) + i] == events[i] && savelen(c.store)[old(nsaves(c.store)) + i] == 1
  ensures[returns-the-saved] len(saved) == okc(c.store, old(nsaves(c.store)), old(nsaves(c.store)) + len(events))
  ensures[in-order] forall i int {events[i]} :: 0 <= i < len(events) && saveok(c.store)[old(nsaves(c.store)) + i] ==> saved[okc(c.store, old(nsaves(c.store)), old(nsaves(c.store)) + i)] == events[i]
  cover len(saved) == 1 && len(events) == 2

func cqrs.(*cqrs).Dispatch(c, command) (saved)
  props P25
  requires c.store != nil && c.logger != nil && command != nil
  requires forall t string {c.aggregates[t]} :: t in c.aggregates ==> c.aggregates[t] != nil
  let a = get(c.aggregates, cmdtype(command))
  modifies nsaves(c.store), nreads(c.store), nloads(a), nhandles(a)
  ensures[unregistered-does-nothing] !(cmdtype(command) in c.aggregates) ==> len(saved) == 0 && nsaves(c.store) == old(nsaves(c.store)) && nreads(c.store) == old(nreads(c.store))
  ensures[loads-own-stream-once] cmdtype(command) in c.aggregates ==> nloads(a) == old(nloads(a)) + 1 && readof(loadfrom(a)[old(nloads(a))]) == c.store && readfrom(loadfrom(a)[old(nloads(a))]) == 0 && readstream(loadfrom(a)[old(nloads(a))]) == aggtype(command) + "!" + aggid(command)
  ensures[handles-once-after-loading] cmdtype(command) in c.aggregates ==> nhandles(a) == old(nhandles(a)) + 1 && handlecmd(a)[old(nhandles(a))] == command && handlenth(a)[old(nhandles(a))] == old(nloads(a)) + 1
  ensures[saves-each] cmdtype(command) in c.aggregates ==> nsaves(c.store) == old(nsaves(c.store)) + handlelen(a)[old(nhandles(a))]
  ensures[in-order] cmdtype(command) in c.aggregates ==> (forall i int {handleev(a, old(nhandles(a)))[i]} :: 0 <= i < handlelen(a)[old(nhandles(a))] ==> savestream(c.store)[old(nsaves(c.store)) + i] == aggtype(handleev(a, old(nhandles(a)))[i]) + "!" + aggid(handleev(a, old(nhandles(a)))[i]) && saveevent(c.store)[old(nsaves(c.store)) + i] == handleev(a, old(nhandles(a)))[i] && savelen(c.store)[old(nsaves(c.store)) + i] == 1)
  ensures[returns-the-saved] cmdtype(command) in c.aggregates ==> len(saved) == okc(c.store, old(nsaves(c.store)), old(nsaves(c.store)) + handlelen(a)[old(nhandles(a))]) && (forall i int {handleev(a, old(nhandles(a)))[i]} :: 0 <= i < handlelen(a)[old(nhandles(a))] && saveok(c.store)[old(nsaves(c.store)) + i] ==> saved[okc(c.store, old(nsaves(c.store)), old(nsaves(c.store)) + i)] == handleev(a, old(nhandles(a)))[i])
  cover len(saved) == 1
