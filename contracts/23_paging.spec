// Paging (P23).

func paging.NewPagination(itemsPerPage, currentIndex, previousIndices) (p)
  props P23
  ensures[in-bounds] 1 <= p.ItemsPerPage <= 1000
  ensures[as-asked] 1 <= itemsPerPage <= 1000 ==> p.ItemsPerPage == itemsPerPage
  ensures[default] itemsPerPage == 0 ==> p.ItemsPerPage == 10
  ensures[at-most] itemsPerPage > 1000 ==> p.ItemsPerPage == 1000
  ensures[position] p.CurrentIndex == currentIndex && p.PreviousIndices == previousIndices
  cover itemsPerPage > 1000

func paging.NewPaginationFromString(ipp, current, previous) (p)
  props P23
  inv[parsed] rs phi:[]uint64 ::: len(rs) == $k && (forall i int {rs[i]} :: 0 <= i < len(rs) ==> uok(splitpart(previous, ",")[i]) && rs[i] == udec(splitpart(previous, ",")[i]))
  inv[link] k phi:int ::: k == $k - 1
  inv[bound] $k <= splitn(previous, ",")
  ensures[in-bounds] 1 <= p.ItemsPerPage <= 1000
  ensures[as-asked] uok(ipp) && 1 <= udec(ipp) && udec(ipp) <= 1000 ==> p.ItemsPerPage == udec(ipp)
  ensures[malformed-size] !uok(ipp) ==> p.ItemsPerPage == 10
  ensures[position] p.CurrentIndex == (if uok(current) then udec(current) else 0)
  ensures[history] len(p.PreviousIndices) <= splitn(previous, ",") && (forall i int {p.PreviousIndices[i]} :: 0 <= i < len(p.PreviousIndices) ==> uok(splitpart(previous, ",")[i]) && p.PreviousIndices[i] == udec(splitpart(previous, ",")[i]))
  ensures[whole-history] len(p.PreviousIndices) < splitn(previous, ",") ==> !uok(splitpart(previous, ",")[len(p.PreviousIndices)])
  cover len(p.PreviousIndices) == 2

// Queries: what a text encodes, and the first element of a list of values.
fun enchas(string) [string]bool
fun encval(string) [string]string
fun firstval(ref) string
fun urlquery(string) string
fun urlok(string) bool
fun numtext(string) [int]int
fun numlen(string) int
fun fieldsof(ref) string
fun joinof(string) string

func url.Parse(s) (u, err)
  option trusted
  ensures err == nil <==> urlok(s)
  ensures err == nil ==> u != nil && fresh(u)

func url.(Values).Add(q, k, v) ()
  option trusted
  requires q != 0
  modifies map(q)
  ensures forall o string {o in q} {q[o]} :: (o in q <==> (o == k || old(o in q))) && (o != k ==> q[o] == old(q[o]))
  ensures firstval(arr(q[k])) == (if old(k in q) then old(firstval(arr(q[k]))) else v)

func url.(Values).Set(q, k, v) ()
  option trusted
  requires q != 0
  modifies map(q)
  ensures forall o string {o in q} {q[o]} :: (o in q <==> (o == k || old(o in q))) && (o != k ==> q[o] == old(q[o]))
  ensures firstval(arr(q[k])) == v

func url.(Values).Encode(q) (s)
  option trusted
  ensures forall o string {enchas(s)[o]} :: enchas(s)[o] <==> o in q
  ensures forall o string {encval(s)[o]} :: o in q ==> encval(s)[o] == firstval(arr(q[o]))

func url.(*URL).String(u) (s)
  option trusted
  ensures urlquery(s) == u.RawQuery && s != ""

func fmt.Sprint(args) (s)
  option trusted
  ensures len(args) == 1 && istype(args[0], []uint64) ==> numlen(s) == len(unbox(args[0], []uint64)) && (forall i int {unbox(args[0], []uint64)[i]} {numtext(s)[i]} :: 0 <= i < len(unbox(args[0], []uint64)) ==> numtext(s)[i] == unbox(args[0], []uint64)[i])

func strings.Fields(s) (r)
  option trusted
  ensures fieldsof(arr(r)) == s

func strings.Join(elems, sep) (r)
  option trusted
  ensures sep == "," ==> joinof(r) == fieldsof(arr(elems))

func strings.Trim(s, cut) (r)
  option trusted
  ensures cut == "[]" ==> joinof(r) == joinof(s)

func paging.(Pagination).Links(p, baseURI, nextIndex) (l)
  props P23
  requires[base-parses] urlok(baseURI)
  modifies elems(p.PreviousIndices)
  ensures[previous-offered] l.Previous != "" <==> len(p.PreviousIndices) > 0
  ensures[next-offered] l.Next != "" <==> nextIndex > p.CurrentIndex
  ensures[previous-page-size] l.Previous != "" ==> udec(encval(urlquery(l.Previous))["itemsPerPage"]) == p.ItemsPerPage
  ensures[previous-position] l.Previous != "" ==> udec(encval(urlquery(l.Previous))["current"]) == old(p.PreviousIndices[len(p.PreviousIndices) - 1]) && enchas(urlquery(l.Previous))["current"]
  ensures[previous-history] l.Previous != "" && len(p.PreviousIndices) > 1 ==> enchas(urlquery(l.Previous))["previous"] && numlen(joinof(encval(urlquery(l.Previous))["previous"])) == len(p.PreviousIndices) - 1 && (forall i int {old(p.PreviousIndices[i])} :: 0 <= i < len(p.PreviousIndices) - 1 ==> numtext(joinof(encval(urlquery(l.Previous))["previous"]))[i] == old(p.PreviousIndices[i]))
  ensures[previous-history-empty] l.Previous != "" && len(p.PreviousIndices) == 1 ==> !enchas(urlquery(l.Previous))["previous"]
  ensures[next-page-size] l.Next != "" ==> udec(encval(urlquery(l.Next))["itemsPerPage"]) == p.ItemsPerPage
  ensures[next-position] l.Next != "" ==> udec(encval(urlquery(l.Next))["current"]) == nextIndex && enchas(urlquery(l.Next))["current"]
  ensures[next-history] l.Next != "" ==> enchas(urlquery(l.Next))["previous"] && numlen(joinof(encval(urlquery(l.Next))["previous"])) == len(p.PreviousIndices) + 1 && numtext(joinof(encval(urlquery(l.Next))["previous"]))[len(p.PreviousIndices)] == p.CurrentIndex
  ensures[next-history-kept] l.Next != "" ==> (forall i int {old(p.PreviousIndices[i])} :: 0 <= i < len(p.PreviousIndices) ==> numtext(joinof(encval(urlquery(l.Next))["previous"]))[i] == old(p.PreviousIndices[i]))
  cover l.Next != "" && l.Previous != ""
