// JSON as its users see it. Texts are strings; jenc(v) is the text a value is encoded as (values are not changed
// while they are being encoded); jval(T, k) is the k-th JSON value of a text; jgen(x, n) is the generic Go value of one
// JSON value (n: numbers kept as json.Number).
fun jenc(any) string
fun jencok(any) bool
fun jval(string, int) string
fun jvalok(string, int) bool
fun jgen(string, bool) any
fun textof(any) string
ghost jpos(ref) int
ghost jdecoded(any) string
ghost jdecodednum(any) bool
ghost jusenum(ref) bool
fun jencw(ref) any
fun jdecr(ref) any
ghost jwritten(any) any
fun jstats(any) projection.aggregateTypeStatusData
axiom[null-is-nil] forall n bool {jgen(jval("null", 0), n)} :: jgen(jval("null", 0), n) == nil && jvalok("null", 0)
axiom[encoded-is-one-value] forall v any {jenc(v)} :: jval(jenc(v), 0) == jenc(v) && jvalok(jenc(v), 0)

func json.Marshal(v) (b, err)
  option trusted
  ensures err == nil <==> jencok(v)
  ensures err == nil ==> bytes(b) == jenc(v)
  ensures err != nil ==> len(b) == 0

func strings.NewReader(s) (r)
  option trusted
  ensures fresh(r) && r != 0 && textof(box(r, *strings.Reader)) == s

func json.NewEncoder(w) (e)
  option trusted
  ensures e != nil && jencw(e) == w

func json.(*Encoder).Encode(e, v) (err)
  option trusted
  modifies jwritten(jencw(e))
  ensures err == nil ==> jwritten(jencw(e)) == v

func json.NewDecoder(r) (d)
  option trusted
  ensures fresh(d) && d != nil && jdecr(d) == r && !jusenum(d) && jpos(d) == 0

func json.(*Decoder).UseNumber(d) ()
  option trusted
  modifies jusenum(d)
  ensures jusenum(d)

// The fields of a record in the text of one JSON value; jraw is the text of its data.
fun jrstream(string) string
fun jrtype(string) string
fun jrid(string) string
fun jrgsn(string) uint64
fun jrssn(string) uint64
fun jrtime(string) uint64
fun jreid(string) string
fun jretype(string) string
fun jrmeta(string, bool) any
fun jraw(string) string

pred recfields(r *rangedb.Record, x string) = r.StreamName == jrstream(x) && r.AggregateType == jrtype(x) && r.AggregateID == jrid(x) && r.GlobalSequenceNumber == jrgsn(x) && r.StreamSequenceNumber == jrssn(x) && r.InsertTimestamp == jrtime(x) && r.EventID == jreid(x) && r.EventType == jretype(x)

// One value is decoded into the target: a generic variable, a pointer held by a variable, a record whose data goes to a raw text.
func json.(*Decoder).Decode(d, v) (err)
  option trusted
  let R = jdecr(d)
  let x = jval(textof(jdecr(d)), old(jpos(d)))
  let gp = if istype(v, *any) then unbox(v, *any) else 0
  let rp = if istype(v, *rangedb.Record) then unbox(v, *rangedb.Record) else 0
  let sp = if istype(v, *projection.aggregateTypeStatusData) then unbox(v, *projection.aggregateTypeStatusData) else 0
  let held = old(deref(unbox(v, *any)))
  let rawp = if istype(v, *rangedb.Record) && istype(unbox(v, *rangedb.Record).Data, *json.RawMessage) then unbox(unbox(v, *rangedb.Record).Data, *json.RawMessage) else 0
  modifies jpos(d), cell(gp), fields(rp), fields(sp), cell(rawp), jdecoded, jdecodednum
  ensures jpos(d) == old(jpos(d)) + 1
  ensures istype(v, *any) && held == nil ==> (err == nil <==> jvalok(textof(R), old(jpos(d)))) && (err == nil ==> deref(unbox(v, *any)) == jgen(x, jusenum(d)))
  ensures istype(v, *any) && held != nil && err == nil ==> deref(unbox(v, *any)) == nil && jgen(x, jusenum(d)) == nil || deref(unbox(v, *any)) == held && jdecoded(held) == x && jdecodednum(held) == jusenum(d)
  ensures istype(v, *rangedb.Record) && err == nil ==> recfields(unbox(v, *rangedb.Record), x) && unbox(v, *rangedb.Record).Metadata == jrmeta(x, jusenum(d))
  ensures istype(v, *rangedb.Record) && err == nil && rawp != 0 ==> bytes(deref(rawp)) == jraw(x)
  ensures forall o any {jdecoded(o)} :: !(istype(v, *any) && o == held) ==> jdecoded(o) == old(jdecoded(o)) && jdecodednum(o) == old(jdecodednum(o))
  ensures istype(v, *projection.aggregateTypeStatusData) && err == nil ==> deref(unbox(v, *projection.aggregateTypeStatusData)) == jstats(jdecr(d))

// Event types by name.
ghost evreg(any) [string]bool
ghost evtype(any) [string]reflect.Type
fun ptrto(any) any
fun vface(reflect.Value) any

func iface rangedb.EventTypeIdentifier.EventTypeLookup(e, name) (t, ok)
  ensures ok <==> evreg(e)[name]
  ensures ok ==> t != nil && t == evtype(e)[name]

func reflect.New(t) (v)
  option trusted
  ensures vface(v) != nil && ptrto(vface(v)) == t

func reflect.(Value).Interface(v) (i)
  option trusted
  ensures i == vface(v)
