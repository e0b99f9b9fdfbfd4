// JSON decoding of records and translation to the wire form (P17, P21).

// What decoding data of an event type gives: the generic value, or a value of the registered type filled from the text.
pred decodesto(v any, e any, name string, x string) = if evreg(e)[name] then v == nil && jgen(x, true) == nil || v != nil && ptrto(v) == evtype(e)[name] && jdecoded(v) == x && jdecodednum(v) else v == jgen(x, true)

func jsonrecordserializer.DecodeJsonData(name, raw, e) (v, err)
  props P17 P21
  requires raw != nil && e != nil
  let x = jval(textof(raw), 0)
  modifies jpos, jdecoded, jdecodednum, jusenum
  ensures[decoded] err == nil ==> decodesto(v, e, name, x)
  ensures[failed] err != nil ==> v == nil
  ensures[other-decoders-stay] forall o ref {jpos(o)} :: old(allocated(o)) ==> jpos(o) == old(jpos(o))
  ensures[accepts] !evreg(e)[name] && jvalok(textof(raw), 0) ==> err == nil
  ensures[refuses] !evreg(e)[name] && !jvalok(textof(raw), 0) ==> err != nil
  cover err == nil && evreg(e)[name]
  cover err == nil && !evreg(e)[name]
  cover err != nil

func rangedbpb.ToPbRecord(r) (pb, err)
  props P17
  requires r != 0
  ensures[same-fields] err == nil ==> fresh(pb) && pb != 0 && pb.StreamName == r.StreamName && pb.AggregateType == r.AggregateType && pb.AggregateID == r.AggregateID && pb.GlobalSequenceNumber == r.GlobalSequenceNumber && pb.StreamSequenceNumber == r.StreamSequenceNumber && pb.InsertTimestamp == r.InsertTimestamp && pb.EventID == r.EventID && pb.EventType == r.EventType
  ensures[encoded] err == nil ==> pb.Data == jenc(r.Data) && pb.Metadata == jenc(r.Metadata)
  ensures[failed] err != nil ==> pb == 0
  ensures[reported] err == nil <==> jencok(r.Data) && jencok(r.Metadata)
  cover err == nil

func rangedbpb.ToRecord(pb, e) (r, err)
  props P17
  requires pb != 0 && e != nil
  modifies jpos, jdecoded, jdecodednum, jusenum
  ensures[same-fields] err == nil ==> fresh(r) && r != 0 && pb.StreamName == r.StreamName && pb.AggregateType == r.AggregateType && pb.AggregateID == r.AggregateID && pb.GlobalSequenceNumber == r.GlobalSequenceNumber && pb.StreamSequenceNumber == r.StreamSequenceNumber && pb.InsertTimestamp == r.InsertTimestamp && pb.EventID == r.EventID && pb.EventType == r.EventType
  ensures[data] err == nil ==> decodesto(r.Data, e, pb.EventType, jval(pb.Data, 0))
  ensures[metadata] err == nil ==> r.Metadata == jgen(jval(pb.Metadata, 0), true)
  ensures[failed] err != nil ==> r == 0
  ensures[reported] jvalok(pb.Metadata, 0) && jvalok(pb.Data, 0) && !evreg(e)[pb.EventType] ==> err == nil
  ensures[malformed] !jvalok(pb.Metadata, 0) ==> err != nil
  ensures[malformed-data] !jvalok(pb.Data, 0) && !evreg(e)[pb.EventType] ==> err != nil
  cover err == nil
  cover err != nil

// ---- serialization (P21) ----

func jsonrecordserializer.(*jsonSerializer).Serialize(s, r) (b, err)
  props P21
  ensures[encoded] err == nil ==> bytes(b) == jenc(box(r, *rangedb.Record))
  ensures[reported] err == nil <==> jencok(box(r, *rangedb.Record))
  cover err == nil

func jsonrecordserializer.UnmarshalRecord(d, e) (r, err)
  props P21 P20
  requires d != nil && e != nil
  let x = jval(textof(jdecr(d)), old(jpos(d)))
  modifies jpos, jdecoded, jdecodednum, jusenum
  ensures[next] jpos(d) == old(jpos(d)) + 1
  ensures[fields] err == nil ==> fresh(r) && r != 0 && recfields(r, x) && r.Metadata == jrmeta(x, old(jusenum(d)))
  ensures[data] err == nil ==> decodesto(r.Data, e, r.EventType, jval(jraw(x), 0))
  ensures[never-half-filled] err != nil ==> r == 0
  cover err == nil
  cover err != nil

func jsonrecordserializer.(*jsonSerializer).Deserialize(s, b) (r, err)
  props P21
  requires s.eventIdentifier != nil
  let x = jval(old(bytes(b)), 0)
  modifies jpos, jdecoded, jdecodednum, jusenum
  ensures[fields] err == nil ==> fresh(r) && r != 0 && recfields(r, x) && r.Metadata == jrmeta(x, true)
  ensures[data] err == nil ==> decodesto(r.Data, s.eventIdentifier, r.EventType, jval(jraw(x), 0))
  ensures[never-half-filled] err != nil ==> r == 0
  cover err == nil
