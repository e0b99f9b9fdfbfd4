#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)))
IM='provider/inmemorystore/inmemory_store.go'; LV='provider/leveldbstore/leveldb_store.go'; PG='provider/postgresstore/postgres_store.go'
RS='pkg/recordsubscriber/record_subscriber.go'; BC='pkg/broadcast/broadcaster.go'

prop('P01','Sequence numbers are assigned gaplessly, uniquely and in order',
 'Every event a successful save stores gets the next stream sequence number of its stream (1, 2, 3, … with no gap or repeat) and a global sequence number greater than every one handed out before by that store, even after streams were deleted. Events of one save keep their argument order in both numberings, and the save returns the last stream sequence number it assigned.',
 ['histories','inputs','schedules'],'every history of saves, optimistic saves and deletes over any streams and batch sizes, from any number of goroutines, on the in-memory and LevelDB stores',
 'The store tests check a handful of fixed two- or three-event histories on one or two streams; numbering must hold after any interleaving of saves, refused saves, failures and deletions.',
 [IM,LV],[('saveEvents / saveEvent','inmemory_store.go'),('saveEvents','leveldb_store.go')],
 [('last stream / global sequence number','counters the next numbers are taken from','store structs')],['Save and OptimisticSave results','records read back'])
prop('P02','A save is all or nothing',
 'A save that returns an error stores none of its events, publishes none of them, and leaves every counter, stream and index as if it had never been called; a save that succeeds stores all of them. This holds wherever in the batch the failure occurs and whatever its cause (mixed aggregate types, serialization failure, an invalid batch, a refused version, a cancelled context).',
 ['inputs','fault_sequences','histories'],'every batch, every failing position in it and every cause of failure, after every history',
 'Tests fail one specific event of one small batch; roll-back must be exact for every position, cause and prior state, and for what later operations then observe.',
 [IM,LV],[('snapshot and roll-back of store state','inmemory_store.go'),('transaction discard','leveldb_store.go')],(),['reads, counts, sequence numbers and subscriptions after the failed save'])
prop('P03','Optimistic concurrency is exact',
 'A save or stream deletion that states an expected version is carried out exactly when that version equals the stream\'s current one at that moment, and otherwise changes nothing and reports both the expected and the actual version. Of several concurrent writers stating the same version at most one succeeds.',
 ['histories','schedules','inputs'],'every expected version, every stream state, every interleaving of concurrent writers',
 'Tests try one stale and one current version sequentially; the guarantee is about every value and every race between the check and the write.',
 [IM,LV],[('OptimisticSave, OptimisticDeleteStream','inmemory_store.go, leveldb_store.go'),('UnexpectedSequenceNumber','pkg/rangedberror/errors.go')],(),['returned error, stream content'])
prop('P04','Deleting a stream removes exactly that stream',
 'After a successful stream deletion no read returns any of its events, in any view, while every other event stays readable, unchanged and in the same order; deleting a stream that does not exist reports that it was not found. Global sequence numbers of deleted events are never reused.',
 ['histories','inputs'],'every set of streams (same type, similar names, interleaved events), every deletion order, later saves to the deleted stream',
 'One deletion of one fixed stream is tested; exactness depends on index shifting and key selection for arbitrary interleavings.',
 [IM,LV],[('OptimisticDeleteStream','inmemory_store.go, leveldb_store.go'),('removeRecord / RemoveIndex','inmemory_store.go')],(),['all reading methods'])
prop('P05','Reads are complete, ordered and filtered exactly',
 'Reading all events, the events of a set of aggregate types, or the events of a stream from a starting number returns exactly the stored events of that selection whose number is not below the start, each once, in ascending order, with the content that was saved. Reading a stream that has no events reports that it was not found, and a cancelled read ends with the cancellation error and never skips an event.',
 ['histories','inputs','schedules'],'every store content, starting number (including 0 and beyond the end), set of aggregate types, stream name and point of cancellation',
 'Tests read short fixed logs from a few offsets; off-by-one, filter and ordering errors show only for particular combinations of offset, deletion gaps and types.',
 [IM,LV,'merge_record_iterators.go','publish_record.go'],[('Events, EventsByAggregateTypes, EventsByStream','stores'),('writeRecords / readEvents','stores')],(),['record iterators'])
prop('P06','All views of the store agree',
 'At every moment the whole log, the per-type views, the per-stream views, the stream totals and the aggregate type listing describe the same set of events: each stored event is in exactly its own stream and its own type view, in the same relative order, and each total equals the number of events actually readable.',
 ['histories','fault_sequences'],'every history of successful and failed saves and deletions',
 'Redundant indexes are updated on every write, roll-back and deletion; tests never compare all views after arbitrary histories.',
 [IM,LV],[('records, streams, aggregate types, record data kept in step','inmemory_store.go'),('three keys written per event','leveldb_store.go')],
 [('representation invariant','log, streams and type indexes hold the same records','inmemory_store.go')],['Events, EventsByAggregateTypes, EventsByStream, TotalEventsInStream'])
prop('P07','Names never collide in the key-value store',
 'Two different stream names or two different aggregate types never share or shadow each other\'s events, whatever bytes the names contain: an operation on one never returns, counts or deletes an event of another. Sequence numbers sort in numeric order at every magnitude, and all events survive closing and reopening the store.',
 ['inputs','configurations'],'all pairs of names, including names with separator bytes or names that are prefixes of each other, and sequence numbers up to the top of their range',
 'Tests use a few readable names and small numbers; collisions need chosen bytes or prefixes.',
 [LV],[('key building and prefix iteration','leveldb_store.go'),('big-endian numbers','leveldb_store.go')],(),['reads and deletions after any saves'])
prop('P08','Shared state is only touched under its lock; reads see one snapshot',
 'Every access to a store\'s or registry\'s shared state happens while holding the lock that protects it, in the right mode, and every lock taken is released exactly once on every path, so no operation deadlocks itself. A read returns one consistent snapshot of the store even while other goroutines write.',
 ['schedules'],'every interleaving of any number of goroutines calling any operations',
 'The race detector and tests only see the schedules that happen; a missing lock on one path needs a rare interleaving.',
 [IM,LV,BC,'pkg/crypto/provider/inmemorykeystore/inmemory_keystore.go','pkg/projection/aggregate_type_stats.go'],[('mutexes and who holds them','store and registry structs')],(),['every public operation'])
prop('P09','Committed events are announced exactly once in order; uncommitted never',
 'Every event of a successful save is announced to live subscribers exactly once, in ascending global order across all saves, and only once it is readable; events of a failed save are never announced.',
 ['histories','schedules','fault_sequences'],'every history and interleaving of concurrent successful and failing saves',
 'Announcement order across concurrent saves, and silence after late failures, depend on where the announcement sits relative to the commit and the lock.',
 [IM,LV,BC],[('broadcast after commit','inmemory_store.go, leveldb_store.go')],(),['live subscriptions'])
prop('P10','Record iterators follow their protocol',
 'An iterator yields the records of its source in order, each once, stops at the end or at the first error, and after stopping never yields another record; its error is exactly the source\'s error or the cancellation error. Publishing one record to a reader either delivers exactly that record or, once cancelled, delivers no record, and a bounded read returns exactly the first n records available.',
 ['inputs','schedules'],'every source content, error position, cancellation point and bound',
 'Tests exercise one or two records; the protocol must hold at every position and cancellation race.',
 ['record_iterator.go','publish_record.go','store.go'],[('recordIterator.Next / NextContext','record_iterator.go'),('PublishRecordOrCancel','publish_record.go'),('ReadNRecords','store.go')],(),['iterator methods'])
prop('P11','Merging ordered sources is ordered, complete and loses no error',
 'Merging any number of iterators, each ascending in global sequence number, yields all of their records, each once, in ascending global order. If a source fails, the merged iterator ends with that error instead of ending as if complete.',
 ['inputs','fault_sequences'],'every number of sources, every distribution of records among them, every failing source and position',
 'Tests merge two or three short fixed sources; which source is exhausted or consecutive when matters.',
 ['merge_record_iterators.go'],[('smallest-head selection','merge_record_iterators.go')],(),['merged iterator'])
prop('P12','The broadcaster delivers to exactly the registered subscribers',
 'An announced record is given to every subscriber registered for all events or for its aggregate type and to nobody else, once per registration, in announcement order. A subscriber that cannot keep up is stopped and removed and holds the others up no longer than the send timeout; once closing has taken effect every subscriber has been stopped and nothing more is delivered, and no call made afterwards blocks.',
 ['schedules','histories'],'every history of subscribing, unsubscribing, announcing and closing, every buffer size, every slow subscriber',
 'Delivery sets after removals, slow subscribers and repeated types are not sampled by the tests, and the package\'s own tests are timing dependent.',
 [BC],[('subscriber registries and send with timeout','broadcaster.go')],(),['subscriber callbacks'])
prop('P13','A subscription sees every event once, in order, with no gap at the hand-over',
 'A subscription started from a position delivers every matching event from that position on exactly once in ascending order, across the switch from stored to live events. A read error is reported to the caller that started it, and a stopped subscription delivers nothing more and, once started, always reports that it is done.',
 ['schedules','histories','fault_sequences'],'every store content, starting position, moment of concurrent saves, buffer size and stop point',
 'The hand-over race between replay and live events needs a save at a specific moment; tests save before or after it.',
 [RS,BC],[('StartFrom / consumeRecord / work','record_subscriber.go')],(),['subscriber callbacks','error result of starting'])
prop('P14','Encryption is the inverse of decryption and malformed input is an error',
 'For every supported algorithm and valid key, decrypting what was encrypted under the same key gives back the original text, and anything else offered for decryption (truncated, corrupted or not encoded, or an invalid key) gives an error or different text but never a crash. Two encryptions never share a nonce by construction, and authenticated algorithms reject any modified ciphertext.',
 ['inputs'],'every plaintext length and content, every key, every byte string as ciphertext',
 'Tests use a few plaintexts and one or two corruptions; crashes and padding errors depend on exact lengths and bytes.',
 ['pkg/crypto/aes/cbc_pkcs5_padding.go','pkg/crypto/aes/gcm.go','pkg/crypto/xchacha20poly1305/xchacha20poly1305.go','pkg/crypto/eventencryptor/event_encryptor.go'],
 [('padding and length checks','cbc_pkcs5_padding.go'),('nonce prefix and length checks','gcm.go, xchacha20poly1305.go')],(),['Encrypt / Decrypt results'])
prop('P15','Keys are never replaced, never come back, and never leak to another subject',
 'A key store returns for a subject exactly the key stored for it; storing a second key for a subject is refused and leaves the first; after deletion every read for that subject reports the deletion and every attempt to store for it is refused, forever. The same key cannot be stored for two subjects, and a caching key store gives the same answers as the store behind it, including after deletion.',
 ['histories','schedules'],'every history of get, set and delete over any subjects and keys, interleaved',
 'Tests run one fixed sequence per rule; the rules must hold in every combination, including through the cache.',
 ['pkg/crypto/provider/inmemorykeystore/inmemory_keystore.go','pkg/crypto/provider/cachekeystore/cache_keystore.go'],[('EncryptionKeys / deleted markers','inmemory_keystore.go'),('write-through cache','cache_keystore.go')],(),['key store results'])
prop('P16','The encrypting store is transparent and never stores plaintext fields',
 'Reading or subscribing through an encrypting store yields the events as they were saved, each decrypted exactly once, while the store behind it holds only encrypted protected fields; every other operation, result and error passes through unchanged. A save that fails leaves the caller\'s events as they were given.',
 ['inputs','histories','fault_sequences'],'every batch of encryptable and plain events, every failing position, every reading method',
 'Tests cover one event type and few failures; double decryption, partial encryption and pass-through of every parameter are not sampled.',
 ['provider/encryptedstore/encrypted_store.go','provider/encryptedstore/decrypting_record_iterator.go','provider/encryptedstore/decrypting_record_subscriber.go'],[('encrypt on save, decrypt on read','encrypted_store.go and decrypting_*.go')],(),['reads through both stores'])
prop('P17','Records and events survive translation to and from the wire form',
 'Translating a record to its wire form and back yields a record with the same fields, data and metadata (numbers as JSON numbers), and a failure to encode or decode is reported as an error, never as an altered record.',
 ['inputs'],'every record: any strings, numbers, bound and unbound event types, any JSON-representable data and metadata',
 'Tests translate one sample record; every field must be carried for every value.',
 ['pkg/grpc/rangedbpb/translate.go'],[('ToPbRecord / ToRecord','translate.go')],(),['translated records'])
prop('P18','The remote store behaves as the store it fronts',
 'Every operation through the remote client and server gives the same events, numbers and errors as the same operation on the served store, including not-found and wrong-version errors with their numbers and errors that end a read part-way. A subscription that the client ends, or that cannot keep up, ends on the server too.',
 ['inputs','histories','fault_sequences'],'every operation sequence and every error the served store can give',
 'The remote tests depend on timing and cover only the happy paths; error translation must be exact for each error and number.',
 ['pkg/grpc/rangedbserver/server.go','provider/remotestore/remote_store.go','pkg/rangedberror/errors.go'],[('error mapping on both sides','server.go, remote_store.go'),('streaming of records','server.go, remote_store.go')],(),['remote store results'])
prop('P19','The HTTP API reports exactly what the store holds and does',
 'Each HTTP route performs exactly one store operation with the parameters in its path, query and body, and answers with that operation\'s records, numbers or status: wrong versions are conflicts carrying both numbers, malformed input (content type, body or version number) is a client error and changes nothing. Its event routes reflect the store content at that moment, and its listing shows, per aggregate type, the number of events announced to it so far.',
 ['inputs','histories'],'every request path, query and body on every route, over any store content',
 'Tests send a few well-formed requests; parameter parsing and status mapping have to be right for all of them.',
 ['pkg/rangedbapi/api.go'],[('route handlers','api.go')],(),['HTTP responses'])
prop('P20','Record streams read back what was written and report every error',
 'Writing any sequence of records to a stream format and reading it back yields the same records in the same order, for each supported format and keeps every serialised number. An error of the source iterator, or malformed input, is reported, and no record after it is delivered as if nothing happened.',
 ['inputs','fault_sequences'],'every record sequence, every failing position and malformed byte sequence, each format',
 'Tests use one or two records and one malformed input per format.',
 ['provider/jsonrecordiostream/json_record_io_stream.go','provider/ndjsonrecordiostream/ndjson_record_io_stream.go','provider/msgpackrecordiostream/msgpack_record_io_stream.go'],[('Write / Read','*_record_io_stream.go')],(),['records and errors delivered'])
prop('P21','Serialization round-trips records',
 'Deserializing a serialized record gives the same record: same identifiers, numbers, timestamps, type, data (of the bound event type, or generic data when unbound) and metadata. Malformed bytes give an error and never a crash or a partly filled record presented as complete.',
 ['inputs'],'every record with bound or unbound events, any strings and numbers the format can carry, any byte sequence as input',
 'Tests serialise one sample record.',
 ['provider/jsonrecordserializer/json_record_serializer.go','provider/msgpackrecordserializer/msgpack_record_serializer.go','event_identifier.go'],[('Serialize / Deserialize and type lookup','*_record_serializer.go'),('EventTypeLookup','event_identifier.go')],(),['deserialised records'])
prop('P22','Stream names identify aggregates unambiguously',
 'Splitting the stream name built from an aggregate type and ID gives back that type and ID, whenever the type contains no separator; so two different such pairs never share a stream. Splitting any other text never crashes.',
 ['inputs'],'all aggregate types without the separator, all IDs (with separators too), all texts',
 'Tests use one or two names; IDs containing the separator are untested.',
 ['store.go'],[('GetStream / ParseStream','store.go')],(),['stream names'])
prop('P23','Page sizes stay in bounds and page links lead where they say',
 'Whatever the query says, the page size is between 1 and 1000 and equals the requested one when that is in range, and malformed parameters fall back to the defaults. A next link is offered exactly when there is something beyond the current position and, followed, gives that position with the present one added to the history; the previous link is offered exactly when there is a history and, followed, gives back the page before with the history shortened by one.',
 ['inputs'],'every query text, page size, position and history up to the machine limits',
 'Tests cover a few positions; boundary sizes, extreme numbers and long histories are not.',
 ['pkg/paging/paging.go'],[('NewPagination / NewPaginationFromString / Links','paging.go')],(),['paging results and links'])
prop('P24','Projected statistics count every event once and survive snapshots',
 'After any sequence of accepted events the statistics show, for every aggregate type, the number of its events, their sum, and the global position of the latest one; saving and loading a snapshot gives back the same statistics, and a broken snapshot changes nothing. Statistics can be read while events are being accepted.',
 ['histories','schedules'],'every sequence of accepted records, any interleaving of readers, any snapshot point',
 'Tests accept a few events; counting and snapshots must hold for every sequence, and reads race with accepts.',
 ['pkg/projection/aggregate_type_stats.go','pkg/projection/disk_snapshot_store.go'],[('AggregateTypeStats','aggregate_type_stats.go')],(),['totals, sorted list and snapshot content'])
prop('P25','Command dispatch loads, handles and saves exactly once, in order',
 'Dispatching a command gives the aggregate registered for its type exactly the events of the command\'s own stream, lets it handle the command once, and saves each event it produces, in order, to that event\'s own stream. It returns exactly the events whose save succeeded, in that order; a command nobody is registered for reads, saves and returns nothing.',
 ['inputs','histories','fault_sequences'],'every command, any event history, any produced events, any pattern of failing saves',
 'Tests use one aggregate and one or two events with no failure in the middle.',
 ['pkg/cqrs/cqrs.go'],[('Dispatch / saveEvents','cqrs.go')],(),['returned and saved events'])
prop('P26','SQL batches carry every event with the right placeholders',
 'For every batch the generated multi-row insert has one row per event in order and its numbered placeholders match its arguments one to one, so no column receives another\'s value; a batch that mixes aggregate types or fails to encode is refused before anything is sent.',
 ['inputs'],'every batch size and content',
 'The SQL store\'s tests need a database server and are skipped here; the text is generated per batch size.',
 [PG],[('batchInsert / eventsToBatchRecords','postgres_store.go')],(),['SQL text and arguments'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    import re
    n=len(re.findall(r'[.](?:\s|$)',p['statement']))
    assert n<=3,(p['id'],n)
print(len(P))
