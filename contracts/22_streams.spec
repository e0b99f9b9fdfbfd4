// Stream names (P22).

fun aggtype(any) string
fun aggid(any) string

func iface rangedb.AggregateMessage.AggregateType(m) (r)
  ensures r == aggtype(m)

func iface rangedb.AggregateMessage.AggregateID(m) (r)
  ensures r == aggid(m)

func rangedb.GetStream(aggregateType, aggregateID) (name)
  props P22
  option strings
  ensures[builds] name == aggregateType + "!" + aggregateID

func rangedb.GetEventStream(message) (name)
  props P22
  option strings
  requires message != nil
  ensures[builds] name == aggtype(message) + "!" + aggid(message)

func rangedb.ParseStream(name) (aggregateType, aggregateID)
  props P22
  option strings
  ensures[gives-back] forall t string, i string :: !contains(t, "!") && name == t + "!" + i ==> aggregateType == t && aggregateID == i
  ensures[splits] contains(name, "!") ==> name == aggregateType + "!" + aggregateID && !contains(aggregateType, "!")
  ensures[no-separator] !contains(name, "!") ==> aggregateType == name && aggregateID == ""
  cover contains(name, "!")
  cover !contains(name, "!")
