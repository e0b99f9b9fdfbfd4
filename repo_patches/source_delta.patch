From ca277c79d4467065ffa14eb3822e0c6084efdcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 01/30] fix: inmemorystore rolls back the whole batch on every
 failing save

A mismatched aggregate type/ID or a context cancelled part way through a
multi-event save returned an error but left the earlier events stored.
The rollback also derived the stream name from the events instead of the
stream being written, panicking (or trimming another stream) for custom
stream names, left an empty stream behind, and a serialization failure
leaked a global sequence number.
---
 provider/inmemorystore/inmemory_store.go | 25 +++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 5f7f5fe..6c36897 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -236,12 +236,14 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 
 	s.mux.Lock()
 	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+		if totalSavedEvents > 0 && aggregateType != eventRecord.Event.AggregateType() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if totalSavedEvents > 0 && aggregateID != eventRecord.Event.AggregateID() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
@@ -251,6 +253,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 
 		select {
 		case <-ctx.Done():
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, context.Canceled
 
@@ -268,7 +271,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			eventRecord.Metadata,
 		)
 		if err != nil {
-			s.removeRecentEvents(createdGlobalSequenceNumbers, eventRecord.Event.AggregateType(), eventRecord.Event.AggregateID())
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, err
 		}
@@ -312,8 +315,7 @@ func (s *inMemoryStore) saveEvent(
 		}
 	}
 
-	s.globalSequenceNumber++
-	globalSequenceNumber := s.globalSequenceNumber
+	globalSequenceNumber := s.globalSequenceNumber + 1
 
 	record := &rangedb.Record{
 		StreamName:           streamName,
@@ -333,6 +335,7 @@ func (s *inMemoryStore) saveEvent(
 		return nil, nil, err
 	}
 
+	s.globalSequenceNumber = globalSequenceNumber
 	s.records = append(s.records, globalSequenceNumber)
 	s.recordData[globalSequenceNumber] = data
 	s.streams[streamName] = append(s.streams[streamName], globalSequenceNumber)
@@ -341,18 +344,22 @@ func (s *inMemoryStore) saveEvent(
 	return data, record, nil
 }
 
-func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, aggregateType, aggregateID string) {
-	stream := rangedb.GetStream(aggregateType, aggregateID)
-
+func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, streamName, aggregateType string) {
 	for _, globalSequenceNumber := range globalSequenceNumbers {
 		delete(s.recordData, globalSequenceNumber)
 	}
 
 	total := len(globalSequenceNumbers)
+	if total == 0 {
+		return
+	}
 
 	s.globalSequenceNumber -= uint64(total)
 	s.records = rTrimFromUint64Slice(s.records, total)
-	s.streams[stream] = rTrimFromUint64Slice(s.streams[stream], total)
+	s.streams[streamName] = rTrimFromUint64Slice(s.streams[streamName], total)
+	if len(s.streams[streamName]) == 0 {
+		delete(s.streams, streamName)
+	}
 	s.aggregateTypes[aggregateType] = rTrimFromUint64Slice(s.aggregateTypes[aggregateType], total)
 }
 
-- 
2.43.0


From 8f3fd620b4f5049b5f1785f687614351d31dcd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 02/30] fix: inmemorystore publishes saved records in global
 sequence order

Records were handed to the broadcaster after the lock was released, so
concurrent saves could publish out of order and a subscriber dropped the
lower sequence number as already sent.
---
 provider/inmemorystore/inmemory_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 6c36897..217df19 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -286,7 +286,6 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			*expectedStreamSequenceNumber++
 		}
 	}
-	s.mux.Unlock()
 
 	for _, data := range pendingEventsData {
 		deSerializedRecord, err := s.serializer.Deserialize(data)
@@ -296,6 +295,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			s.logger.Print(err)
 		}
 	}
+	s.mux.Unlock()
 
 	return lastStreamSequenceNumber, nil
 }
-- 
2.43.0


From b05b7cf7bea95814dd978c2e91276053c585327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 03/30] fix: inmemorystore reads several aggregate types under
 one read lock

Taking the read lock once per aggregate type deadlocked with a waiting
writer, merged different snapshots (a subscriber then skips the records
it missed), and returned records twice when a type was repeated.
---
 provider/inmemorystore/inmemory_store.go | 26 ++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 217df19..70a0821 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -99,18 +99,32 @@ func (s *inMemoryStore) Events(ctx context.Context, globalSequenceNumber uint64)
 }
 
 func (s *inMemoryStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
+	s.mux.RLock()
+
+	return s.recordsByIDs(ctx, s.idsByAggregateTypes(aggregateTypes), compareByGlobalSequenceNumber(globalSequenceNumber))
+}
+
+// idsByAggregateTypes returns the ordered, distinct record IDs for all aggregateTypes. The mutex must be held.
+func (s *inMemoryStore) idsByAggregateTypes(aggregateTypes []string) []uint64 {
 	if len(aggregateTypes) == 1 {
-		s.mux.RLock()
-		return s.recordsByIDs(ctx, s.aggregateTypes[aggregateTypes[0]], compareByGlobalSequenceNumber(globalSequenceNumber))
+		return s.aggregateTypes[aggregateTypes[0]]
 	}
 
-	var recordIterators []rangedb.RecordIterator
+	requested := make(map[uint64]struct{})
 	for _, aggregateType := range aggregateTypes {
-		s.mux.RLock()
-		recordIterators = append(recordIterators, s.recordsByIDs(ctx, s.aggregateTypes[aggregateType], compareByGlobalSequenceNumber(globalSequenceNumber)))
+		for _, id := range s.aggregateTypes[aggregateType] {
+			requested[id] = struct{}{}
+		}
+	}
+
+	var ids []uint64
+	for _, id := range s.records {
+		if _, ok := requested[id]; ok {
+			ids = append(ids, id)
+		}
 	}
 
-	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
+	return ids
 }
 
 func compareByGlobalSequenceNumber(globalSequenceNumber uint64) func(record *rangedb.Record) bool {
-- 
2.43.0


From cd3c2234fbe0164b1693af9e680b337f301636a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 04/30] fix: leveldbstore discards its transaction on every
 failing write

OptimisticDeleteStream returned without closing the transaction when the
stream was missing or the sequence number unexpected, so the next write
blocked forever with the mutex held. A failed commit did the same.
---
 provider/leveldbstore/leveldb_store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 031a4bf..44f5702 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -145,6 +145,7 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	if err != nil {
 		return err
 	}
+	defer transaction.Discard()
 
 	iter := s.db.NewIterator(util.BytesPrefix([]byte(getStreamKeyPrefix(streamName))), nil)
 	defer iter.Release()
@@ -215,6 +216,7 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	if err != nil {
 		return 0, err
 	}
+	defer transaction.Discard()
 
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
-- 
2.43.0


From fd8c97929801110191e15b50120d6b14e1854b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 05/30] fix: leveldbstore keeps streams and aggregate types
 with a separator in their name apart

A name containing "$!" makes its keys start with another name's key
prefix, so its records were read, counted and deleted as part of the
other stream or aggregate type.
---
 provider/leveldbstore/leveldb_store.go | 32 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 44f5702..cc916bf 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -32,6 +32,7 @@ const (
 	streamPrefix            = "$s$"
 	aggregateTypePrefix     = "$at$"
 	globalSequenceNumberKey = "$gsn$"
+	sequenceNumberLength    = 8
 )
 
 type levelDbStore struct {
@@ -147,12 +148,17 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	}
 	defer transaction.Discard()
 
-	iter := s.db.NewIterator(util.BytesPrefix([]byte(getStreamKeyPrefix(streamName))), nil)
+	streamKeyPrefix := getStreamKeyPrefix(streamName)
+	iter := s.db.NewIterator(util.BytesPrefix([]byte(streamKeyPrefix)), nil)
 	defer iter.Release()
 
 	cnt := uint64(0)
 	batch := new(leveldb.Batch)
 	for iter.Next() {
+		if !isKeyWithNumber(iter.Key(), streamKeyPrefix) {
+			continue
+		}
+
 		cnt++
 		record, err := s.getRecordByValue(iter.Value())
 		if err != nil {
@@ -379,6 +385,10 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		cnt := 0
 
 		for iter.Next() {
+			if !isKeyWithNumber(iter.Key(), prefix) {
+				continue
+			}
+
 			cnt++
 
 			record, err := s.getRecordByValue(iter.Value())
@@ -427,6 +437,10 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 		}
 
 		for iter.Next() {
+			if !isKeyWithNumber(iter.Key(), key) {
+				continue
+			}
+
 			targetKey := iter.Value()
 
 			record, err := s.getRecordByLookup(targetKey, iter)
@@ -512,13 +526,19 @@ func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream st
 
 func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
-	iter.Last()
+	defer iter.Release()
 
-	keySize := len(key)
-	if len(iter.Key()) > keySize {
-		lastSequenceNumber := bytesToUint64(iter.Key()[keySize:])
-		return lastSequenceNumber
+	for ok := iter.Last(); ok; ok = iter.Prev() {
+		if isKeyWithNumber(iter.Key(), key) {
+			return bytesToUint64(iter.Key()[len(key):])
+		}
 	}
 
 	return 0
 }
+
+// isKeyWithNumber reports whether key is prefix followed only by a sequence number. Keys for another stream or
+// aggregate type can share the prefix, when a name contains the key separator.
+func isKeyWithNumber(key []byte, prefix string) bool {
+	return len(key) == len(prefix)+sequenceNumberLength
+}
-- 
2.43.0


From d9b8aa6f4c98e3a67938f2bb8c456534d5d6c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 06/30] fix: leveldbstore surfaces iteration errors instead of
 truncating the result

A read or delete whose database iterator failed part way through was
treated as having seen the whole stream.
---
 provider/leveldbstore/leveldb_store.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index cc916bf..befcebc 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -173,6 +173,10 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		batch.Delete(allEventsKey)
 	}
 
+	if err := iter.Error(); err != nil {
+		return err
+	}
+
 	if cnt == 0 {
 		return rangedb.ErrStreamNotFound
 	}
@@ -184,8 +188,6 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		}
 	}
 
-	_ = iter.Error()
-
 	err = transaction.Write(batch, nil)
 	if err != nil {
 		return err
@@ -406,12 +408,15 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 			}
 		}
 
+		if err := iter.Error(); err != nil {
+			resultRecords <- rangedb.ResultRecord{Err: err}
+			return
+		}
+
 		if cnt == 0 {
 			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
 			return
 		}
-
-		_ = iter.Error()
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -457,6 +462,10 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 				return
 			}
 		}
+
+		if err := iter.Error(); err != nil {
+			resultRecords <- rangedb.ResultRecord{Err: err}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
-- 
2.43.0


From aa743a5396a3df031c00a221d1c33766cbf5419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 07/30] fix: leveldbstore reads several aggregate types under
 one read lock

Taking the read lock once per aggregate type deadlocked with a waiting
writer, merged different snapshots (a subscriber then skips the records
it missed), and returned records twice when a type was repeated.
---
 provider/leveldbstore/leveldb_store.go | 27 +++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index befcebc..80f3af5 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -119,11 +119,26 @@ func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenc
 		return s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateTypes[0]), globalSequenceNumber)
 	}
 
+	// All aggregate types are read under a single read lock, which is held until the last one is finished.
+	s.mux.RLock()
+	var readers sync.WaitGroup
 	var recordIterators []rangedb.RecordIterator
+	requested := make(map[string]struct{})
 	for _, aggregateType := range aggregateTypes {
-		recordIterators = append(recordIterators, s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateType), globalSequenceNumber))
+		if _, ok := requested[aggregateType]; ok {
+			continue
+		}
+		requested[aggregateType] = struct{}{}
+
+		readers.Add(1)
+		recordIterators = append(recordIterators, s.getLockedEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateType), globalSequenceNumber, readers.Done))
 	}
 
+	go func() {
+		readers.Wait()
+		s.mux.RUnlock()
+	}()
+
 	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
 }
 
@@ -423,11 +438,17 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 }
 
 func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
 	s.mux.RLock()
 
+	return s.getLockedEventsByLookup(ctx, key, globalSequenceNumber, s.mux.RUnlock)
+}
+
+// getLockedEventsByLookup reads while the caller holds the read lock, and calls done once it is no longer required.
+func (s *levelDbStore) getLockedEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64, done func()) rangedb.RecordIterator {
+	resultRecords := make(chan rangedb.ResultRecord)
+
 	go func() {
-		defer s.mux.RUnlock()
+		defer done()
 		defer close(resultRecords)
 
 		iter := s.db.NewIterator(util.BytesPrefix([]byte(key)), nil)
-- 
2.43.0


From 94da51c9c0ed369b70ec0a001001a899e88454f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 08/30] fix: MergeRecordIteratorsInOrder surfaces the error of
 a source iterator

A source that failed was treated as finished, so the merged iterator
returned the remaining records with a silent gap and no error.
---
 merge_record_iterators.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/merge_record_iterators.go b/merge_record_iterators.go
index 3113ebb..6a5a8d2 100644
--- a/merge_record_iterators.go
+++ b/merge_record_iterators.go
@@ -15,18 +15,20 @@ func (p *pipe) ReadNext() bool {
 		Record: p.recordIterator.Record(),
 		Err:    p.recordIterator.Err(),
 	}
-	return p.currentResultRecord.Record != nil
+	return p.currentResultRecord.Record != nil && p.currentResultRecord.Err == nil
 }
 
 func (p *pipe) IsNextGlobalSequenceNumber(currentPosition uint64) bool {
 	return p.currentResultRecord.Record.GlobalSequenceNumber == currentPosition+1
 }
 
-// MergeRecordIteratorsInOrder combines record channels ordered by record.GlobalSequenceNumber.
+// MergeRecordIteratorsInOrder combines record channels ordered by record.GlobalSequenceNumber. The first error from
+// any iterator is returned, and ends the combined iterator.
 func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterator {
 	resultRecords := make(chan ResultRecord)
 
 	go func() {
+		defer drain(recordIterators)
 		defer close(resultRecords)
 
 		var pipes []*pipe
@@ -34,6 +36,9 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			pipe := newPipe(recordIterator)
 			if pipe.ReadNext() {
 				pipes = append(pipes, pipe)
+			} else if err := pipe.currentResultRecord.Err; err != nil {
+				resultRecords <- ResultRecord{Err: err}
+				return
 			}
 		}
 
@@ -47,6 +52,10 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 			if !pipes[i].ReadNext() {
+				if err := pipes[i].currentResultRecord.Err; err != nil {
+					resultRecords <- ResultRecord{Err: err}
+					return
+				}
 				pipes = remove(pipes, i)
 				continue
 			}
@@ -57,6 +66,10 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 				currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 				if !pipes[i].ReadNext() {
+					if err := pipes[i].currentResultRecord.Err; err != nil {
+						resultRecords <- ResultRecord{Err: err}
+						return
+					}
 					pipes = remove(pipes, i)
 					break
 				}
@@ -67,6 +80,14 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 	return NewRecordIterator(resultRecords)
 }
 
+// drain reads the remaining records, after an error, so that no iterator is left blocked.
+func drain(recordIterators []RecordIterator) {
+	for _, recordIterator := range recordIterators {
+		for recordIterator.Next() {
+		}
+	}
+}
+
 func remove(s []*pipe, i int) []*pipe {
 	s[i] = s[len(s)-1]
 	return s[:len(s)-1]
-- 
2.43.0


From a6a622585500e0cb65aeb25cd09738efbd56ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 09/30] fix: recordsubscriber delivers the starting record and
 surfaces read errors

StartFrom(n) marked record n as already sent, so when n was not stored yet
it was skipped once it arrived. An error ending the catch-up read was
dropped, which left a gap before the live records.
---
 pkg/recordsubscriber/record_subscriber.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index cb43a02..8b74be3 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -55,7 +55,9 @@ func (s *recordSubscriber) Receiver() broadcast.SendRecordChan {
 }
 
 func (s *recordSubscriber) StartFrom(globalSequenceNumber uint64) error {
-	s.lastGlobalSequenceNumber = globalSequenceNumber
+	if globalSequenceNumber > 0 {
+		s.lastGlobalSequenceNumber = globalSequenceNumber - 1
+	}
 	err := s.writeRecords(globalSequenceNumber)
 	if err != nil {
 		return err
@@ -135,7 +137,7 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 		}
 	}
 
-	return nil
+	return iter.Err()
 }
 
 func (s *recordSubscriber) writeRecord(record *rangedb.Record) error {
-- 
2.43.0


From a90054a07a20eb9997085821273287bf629ecd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 10/30] fix: a stopped recordsubscriber delivers nothing more
 and is always done

The broadcaster stops a slow subscriber after dropping a record, but one
subscribed to several aggregate types could still pick up a later record
and deliver it after the gap. A subscriber whose consumer failed never
closed Done().
---
 pkg/recordsubscriber/record_subscriber.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index 8b74be3..c516065 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -103,6 +103,12 @@ func (s *recordSubscriber) work() {
 			return
 
 		case record := <-s.bufferedRecords:
+			if s.ctx.Err() != nil {
+				s.unsubscribe(s)
+				close(s.finishChan)
+				return
+			}
+
 			if s.recordHasAlreadyBeenSent(record) {
 				continue
 			}
@@ -110,6 +116,7 @@ func (s *recordSubscriber) work() {
 			err := s.writeRecord(record)
 			if err != nil {
 				s.unsubscribe(s)
+				close(s.finishChan)
 				return
 			}
 		}
-- 
2.43.0


From a965e5dbdefc20dd1ade1c822eaf7c90186b989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 11/30] fix: rangedbserver ends a gRPC subscription whose
 subscriber stopped

The stream stayed open without ever sending another event, hiding the
missed events from the client.
---
 pkg/grpc/rangedbserver/server.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index d5269bd..eb17495 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -282,9 +282,7 @@ func (s *rangeDBServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEvents
 		return err
 	}
 
-	<-stream.Context().Done()
-
-	return nil
+	return waitForSubscription(stream.Context(), subscriber)
 }
 
 func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsRequest, stream rangedbpb.RangeDB_SubscribeToEventsServer) error {
@@ -303,9 +301,7 @@ func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsReques
 		return err
 	}
 
-	<-stream.Context().Done()
-
-	return nil
+	return waitForSubscription(stream.Context(), subscriber)
 }
 
 func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.SubscribeToEventsByAggregateTypeRequest, stream rangedbpb.RangeDB_SubscribeToEventsByAggregateTypeServer) error {
@@ -325,9 +321,25 @@ func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.Subscrib
 		return err
 	}
 
-	<-stream.Context().Done()
+	return waitForSubscription(stream.Context(), subscriber)
+}
 
-	return nil
+// waitForSubscription blocks until the client is gone, or the subscriber stops early leaving the client with a gap.
+func waitForSubscription(ctx context.Context, subscriber subscriptionWaiter) error {
+	select {
+	case <-ctx.Done():
+		return nil
+
+	case <-subscriber.Done():
+		if ctx.Err() != nil {
+			return nil
+		}
+		return fmt.Errorf("subscription stopped")
+	}
+}
+
+type subscriptionWaiter interface {
+	Done() <-chan struct{}
 }
 
 func (s *rangeDBServer) TotalEventsInStream(ctx context.Context, request *rangedbpb.TotalEventsInStreamRequest) (*rangedbpb.TotalEventsInStreamResponse, error) {
-- 
2.43.0


From 7fc640aae28ce63641ccf75823418ecb419b6ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 12/30] fix: rangedbserver returns the error that ends Events
 and EventsByAggregateType

The client saw a clean end of stream after a partial read.
---
 pkg/grpc/rangedbserver/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index eb17495..aa6f423 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -97,7 +97,7 @@ func (s *rangeDBServer) Events(req *rangedbpb.EventsRequest, stream rangedbpb.Ra
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) EventsByStream(req *rangedbpb.EventsByStreamRequest, stream rangedbpb.RangeDB_EventsByStreamServer) error {
@@ -144,7 +144,7 @@ func (s *rangeDBServer) EventsByAggregateType(req *rangedbpb.EventsByAggregateTy
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) OptimisticDeleteStream(ctx context.Context, req *rangedbpb.OptimisticDeleteStreamRequest) (*rangedbpb.OptimisticDeleteStreamResponse, error) {
-- 
2.43.0


From e61b64724879087159d69d74702159eb4dcb2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 13/30] fix: record io streams report the error that ends the
 iterator being written

The iterator error was only checked while Next() was true, so a failed
read wrote a truncated stream and reported success.
---
 provider/jsonrecordiostream/json_record_io_stream.go       | 4 ++++
 provider/msgpackrecordiostream/msgpack_record_io_stream.go | 4 ++++
 provider/ndjsonrecordiostream/ndjson_record_io_stream.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index 16c0e4b..51311ea 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -51,6 +51,10 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 			totalSaved++
 		}
 		_, _ = fmt.Fprint(writer, "]")
+
+		if err := recordIterator.Err(); err != nil {
+			errors <- err
+		}
 	}()
 
 	return errors
diff --git a/provider/msgpackrecordiostream/msgpack_record_io_stream.go b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
index a6ccd27..b977810 100644
--- a/provider/msgpackrecordiostream/msgpack_record_io_stream.go
+++ b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
@@ -45,6 +45,10 @@ func (s *msgpackRecordIoStream) Write(writer io.Writer, recordIterator rangedb.R
 
 			_, _ = writer.Write(serializedRecord)
 		}
+
+		if err := recordIterator.Err(); err != nil {
+			errors <- err
+		}
 	}()
 
 	return errors
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index 383a6b2..91ae91f 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -48,6 +48,10 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 
 			totalSaved++
 		}
+
+		if err := recordIterator.Err(); err != nil {
+			errors <- err
+		}
 	}()
 
 	return errors
-- 
2.43.0


From 7312795ff1535af0216f7871627c07f8b9801d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 14/30] fix: decrypting a malformed cipher text returns an
 error instead of panicking

CBC panicked on a length that is not a whole number of blocks, on an IV
without data, and on invalid padding; XChaCha20-Poly1305 panicked on
input shorter than its nonce.
---
 pkg/crypto/aes/cbc_pkcs5_padding.go               | 15 +++++++++++----
 pkg/crypto/xchacha20poly1305/xchacha20poly1305.go |  4 ++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/aes/cbc_pkcs5_padding.go b/pkg/crypto/aes/cbc_pkcs5_padding.go
index d382268..81c4e88 100644
--- a/pkg/crypto/aes/cbc_pkcs5_padding.go
+++ b/pkg/crypto/aes/cbc_pkcs5_padding.go
@@ -85,6 +85,10 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(cipherText) < 2*aes.BlockSize || len(cipherText)%aes.BlockSize != 0 {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	buf := bytes.NewReader(cipherText)
 	initializationVector := make([]byte, aes.BlockSize)
 	if _, err := io.ReadFull(buf, initializationVector); err != nil {
@@ -95,7 +99,7 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 	decrypted := make([]byte, len(cipherText)-aes.BlockSize)
 	ecb.CryptBlocks(decrypted, cipherText[aes.BlockSize:])
 
-	return pkcs5Trimming(decrypted), nil
+	return pkcs5Trimming(decrypted, cipherBlock.BlockSize())
 }
 
 func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
@@ -104,7 +108,10 @@ func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
 	return append(ciphertext, padText...)
 }
 
-func pkcs5Trimming(value []byte) []byte {
-	padding := value[len(value)-1]
-	return value[:len(value)-int(padding)]
+func pkcs5Trimming(value []byte, blockSize int) ([]byte, error) {
+	padding := int(value[len(value)-1])
+	if padding < 1 || padding > blockSize {
+		return nil, crypto.ErrInvalidCipherText
+	}
+	return value[:len(value)-padding], nil
 }
diff --git a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
index 9dfa3aa..97fa134 100644
--- a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
+++ b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
@@ -74,6 +74,10 @@ func (x *xChaCha20Poly1305) decrypt(key, sealedCipherText []byte) ([]byte, error
 		return nil, err
 	}
 
+	if len(sealedCipherText) < aead.NonceSize() {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	nonceSize := aead.NonceSize()
 	nonce, cipherText := sealedCipherText[:nonceSize], sealedCipherText[nonceSize:]
 
-- 
2.43.0


From ed77af2c5b363e320ff192f6f8061a7af16221b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 15/30] fix: decrypting iterator decrypts each record exactly
 once

Record() decrypted in place on every call, so a second call failed or
returned garbage, and an error was only visible after Record() was used.
---
 .../decrypting_record_iterator.go             | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/provider/encryptedstore/decrypting_record_iterator.go b/provider/encryptedstore/decrypting_record_iterator.go
index 0f75894..1c569d6 100644
--- a/provider/encryptedstore/decrypting_record_iterator.go
+++ b/provider/encryptedstore/decrypting_record_iterator.go
@@ -10,6 +10,7 @@ import (
 type decryptingRecordIterator struct {
 	parent         rangedb.RecordIterator
 	eventEncryptor crypto.EventEncryptor
+	currentRecord  *rangedb.Record
 	currentErr     error
 }
 
@@ -26,7 +27,7 @@ func (i *decryptingRecordIterator) Next() bool {
 		return false
 	}
 
-	return i.parent.Next()
+	return i.decryptCurrent(i.parent.Next())
 }
 
 func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
@@ -34,25 +35,32 @@ func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
 		return false
 	}
 
-	return i.parent.NextContext(ctx)
+	return i.decryptCurrent(i.parent.NextContext(ctx))
 }
 
-func (i *decryptingRecordIterator) Record() *rangedb.Record {
-	record := i.parent.Record()
+// decryptCurrent decrypts the parent's current record exactly once, as decrypting is not idempotent.
+func (i *decryptingRecordIterator) decryptCurrent(hasNext bool) bool {
+	i.currentRecord = nil
 
-	if record == nil {
-		return nil
+	record := i.parent.Record()
+	if !hasNext || record == nil {
+		return hasNext
 	}
 
 	if rangedbEvent, ok := record.Data.(rangedb.Event); ok {
 		err := i.eventEncryptor.Decrypt(rangedbEvent)
 		if err != nil {
 			i.currentErr = err
-			return nil
+			return hasNext
 		}
 	}
 
-	return record
+	i.currentRecord = record
+	return hasNext
+}
+
+func (i *decryptingRecordIterator) Record() *rangedb.Record {
+	return i.currentRecord
 }
 
 func (i *decryptingRecordIterator) Err() error {
-- 
2.43.0


From 8c8b41ff5d93af3d13fbad389fb1ffecfd5a00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 16/30] fix: encryptedstore restores the events of a failed
 save

A save rejected by the parent store, for an unexpected sequence number
say, left the caller's events encrypted, so retrying encrypted them twice.
---
 provider/encryptedstore/encrypted_store.go | 29 +++++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/provider/encryptedstore/encrypted_store.go b/provider/encryptedstore/encrypted_store.go
index 73fc69d..24947b9 100644
--- a/provider/encryptedstore/encrypted_store.go
+++ b/provider/encryptedstore/encrypted_store.go
@@ -41,25 +41,46 @@ func (e *encryptedStore) OptimisticDeleteStream(ctx context.Context, expectedStr
 }
 
 func (e *encryptedStore) OptimisticSave(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
+	for i, record := range eventRecords {
 		err := e.eventEncryptor.Encrypt(record.Event)
 		if err != nil {
+			e.restoreEvents(eventRecords[:i])
 			return 0, err
 		}
 	}
 
-	return e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, eventRecords...)
+	lastStreamSequenceNumber, err := e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, eventRecords...)
+	if err != nil {
+		e.restoreEvents(eventRecords)
+		return 0, err
+	}
+
+	return lastStreamSequenceNumber, nil
 }
 
 func (e *encryptedStore) Save(ctx context.Context, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
+	for i, record := range eventRecords {
 		err := e.eventEncryptor.Encrypt(record.Event)
 		if err != nil {
+			e.restoreEvents(eventRecords[:i])
 			return 0, err
 		}
 	}
 
-	return e.parent.Save(ctx, streamName, eventRecords...)
+	lastStreamSequenceNumber, err := e.parent.Save(ctx, streamName, eventRecords...)
+	if err != nil {
+		e.restoreEvents(eventRecords)
+		return 0, err
+	}
+
+	return lastStreamSequenceNumber, nil
+}
+
+// restoreEvents decrypts events that were not saved, so that saving them again does not encrypt them twice.
+func (e *encryptedStore) restoreEvents(eventRecords []*rangedb.EventRecord) {
+	for _, record := range eventRecords {
+		_ = e.eventEncryptor.Decrypt(record.Event)
+	}
 }
 
 func (e *encryptedStore) AllEventsSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber) rangedb.RecordSubscription {
-- 
2.43.0


From 94e2d7428d963ee625680f4543f4c616f7a023c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 17/30] fix: AggregateTypeStats reads under its lock and
 survives an empty snapshot

TotalEvents raced with Accept, and a snapshot without counts left a nil
map that made the next Accept panic.
---
 pkg/projection/aggregate_type_stats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/projection/aggregate_type_stats.go b/pkg/projection/aggregate_type_stats.go
index 3712e7e..f8b3506 100644
--- a/pkg/projection/aggregate_type_stats.go
+++ b/pkg/projection/aggregate_type_stats.go
@@ -60,6 +60,8 @@ func (a *AggregateTypeStats) TotalEventsByAggregateType(aggregateType string) ui
 
 // TotalEvents returns the total number of received events.
 func (a *AggregateTypeStats) TotalEvents() uint64 {
+	a.mux.RLock()
+	defer a.mux.RUnlock()
 	return a.data.TotalEvents
 }
 
@@ -91,6 +93,10 @@ func (a *AggregateTypeStats) LoadFromSnapshot(r io.Reader) error {
 		return err
 	}
 
+	if data.TotalEventsByAggregateType == nil {
+		data.TotalEventsByAggregateType = make(map[string]uint64)
+	}
+
 	a.mux.Lock()
 	a.data.TotalEventsByAggregateType = data.TotalEventsByAggregateType
 	a.data.LatestGlobalSequenceNumber = data.LatestGlobalSequenceNumber
-- 
2.43.0


From f1bb1ff2327408a71325f61b408ff5e1a85775a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 18/30] fix: ParseStream keeps an aggregate ID containing "!"
 and never panics

---
 store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 8dbeacb..bad3871 100644
--- a/store.go
+++ b/store.go
@@ -132,7 +132,10 @@ func GetStream(aggregateType, aggregateID string) string {
 
 // ParseStream returns the aggregateType and aggregateID for a stream name.
 func ParseStream(streamName string) (aggregateType, aggregateID string) {
-	pieces := strings.Split(streamName, "!")
+	pieces := strings.SplitN(streamName, "!", 2)
+	if len(pieces) < 2 {
+		return pieces[0], ""
+	}
 	return pieces[0], pieces[1]
 }
 
-- 
2.43.0


From 27c295ec57686774d521a9d54fcd1959a9d45245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:21 +0000
Subject: [PATCH 19/30] fix: postgresstore decodes event metadata

Metadata was unmarshalled into a nil interface, so reading or publishing
any record saved with metadata failed.
---
 provider/postgresstore/postgres_store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index d3139f9..3b2d9f6 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -404,7 +404,7 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 
 		var metadata interface{}
 		if batchRecord.Metadata != "null" {
-			err = json.Unmarshal([]byte(batchRecord.Metadata), metadata)
+			err = json.Unmarshal([]byte(batchRecord.Metadata), &metadata)
 			if err != nil {
 				return fmt.Errorf("unable to unmarshal metadata: %v", err)
 			}
@@ -644,7 +644,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 
 		var metadata interface{}
 		if serializedMetadata != "null" {
-			err = json.Unmarshal([]byte(serializedMetadata), metadata)
+			err = json.Unmarshal([]byte(serializedMetadata), &metadata)
 			if err != nil {
 				unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
 				resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
@@ -752,7 +752,7 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 
 			var metadata interface{}
 			if jsonRecord.Metadata != "null" {
-				err = json.Unmarshal([]byte(jsonRecord.Metadata), metadata)
+				err = json.Unmarshal([]byte(jsonRecord.Metadata), &metadata)
 				if err != nil {
 					log.Printf("unable to unmarshal metadata: %v", err)
 					return
-- 
2.43.0


From fff129ed954c1607b5a08c838dd9231292b9e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 20/30] fix: postgresstore rolls back a stream deletion that is
 refused

Returning without ending the transaction leaked its connection.
---
 provider/postgresstore/postgres_store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 3b2d9f6..b09d113 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -228,6 +228,8 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 		return err
 	}
 
+	defer transaction.Rollback()
+
 	streamSequenceNumber, err := s.getStreamSequenceNumber(ctx, transaction, streamName)
 	if err != nil {
 		return err
@@ -246,7 +248,6 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 
 	_, err = transaction.ExecContext(ctx, `DELETE FROM record WHERE StreamName = $1`, streamName)
 	if err != nil {
-		_ = transaction.Rollback()
 		return err
 	}
 
-- 
2.43.0


From 2790a4b594dce0a4ac3b608e0f0aa35b96263cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:41 +0000
Subject: [PATCH 21/30] fix: cachekeystore tolerates a concurrent call that
 cached the same key

---
 .../provider/cachekeystore/cache_keystore.go    | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/crypto/provider/cachekeystore/cache_keystore.go b/pkg/crypto/provider/cachekeystore/cache_keystore.go
index d850f67..fee54f9 100644
--- a/pkg/crypto/provider/cachekeystore/cache_keystore.go
+++ b/pkg/crypto/provider/cachekeystore/cache_keystore.go
@@ -24,7 +24,7 @@ func (c *cacheKeyStore) Get(subjectID string) (string, error) {
 			return "", secondErr
 		}
 
-		return secondKey, c.first.Set(subjectID, secondKey)
+		return secondKey, c.cache(subjectID, secondKey)
 	}
 
 	return key, nil
@@ -36,7 +36,20 @@ func (c *cacheKeyStore) Set(subjectID, key string) error {
 		return err
 	}
 
-	return c.first.Set(subjectID, key)
+	return c.cache(subjectID, key)
+}
+
+// cache stores the key in the first store. A concurrent call may have cached the same key already.
+func (c *cacheKeyStore) cache(subjectID, key string) error {
+	err := c.first.Set(subjectID, key)
+	if err == crypto.ErrKeyExistsForSubjectID || err == crypto.ErrKeyAlreadyUsed {
+		cachedKey, getErr := c.first.Get(subjectID)
+		if getErr == crypto.ErrKeyWasDeleted || getErr == nil && cachedKey == key {
+			return nil
+		}
+	}
+
+	return err
 }
 
 func (c *cacheKeyStore) Delete(subjectID string) error {
-- 
2.43.0


From f8e7ddc2213b3b55fdf4ec7da76479399f2bfdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:10 +0000
Subject: [PATCH 22/30] fix: msgpack encoded raw events without their data

---
 store.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/store.go b/store.go
index bad3871..6b7c9c4 100644
--- a/store.go
+++ b/store.go
@@ -5,6 +5,8 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
+
+	"github.com/vmihailenco/msgpack/v4"
 )
 
 // Version for RangeDB.
@@ -197,4 +199,8 @@ func (e rawEvent) MarshalJSON() ([]byte, error) {
 	return json.Marshal(e.data)
 }
 
+func (e rawEvent) EncodeMsgpack(encoder *msgpack.Encoder) error {
+	return encoder.Encode(e.data)
+}
+
 var ErrStreamNotFound = fmt.Errorf("stream not found")
-- 
2.43.0


From 5bc26046c614c0529635e0f391a99649400ec5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:39 +0000
Subject: [PATCH 23/30] fix: CBC decryption ignored all but the last padding
 byte

---
 pkg/crypto/aes/cbc_pkcs5_padding.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/crypto/aes/cbc_pkcs5_padding.go b/pkg/crypto/aes/cbc_pkcs5_padding.go
index 81c4e88..5974a52 100644
--- a/pkg/crypto/aes/cbc_pkcs5_padding.go
+++ b/pkg/crypto/aes/cbc_pkcs5_padding.go
@@ -113,5 +113,10 @@ func pkcs5Trimming(value []byte, blockSize int) ([]byte, error) {
 	if padding < 1 || padding > blockSize {
 		return nil, crypto.ErrInvalidCipherText
 	}
+	for _, paddingByte := range value[len(value)-padding:] {
+		if int(paddingByte) != padding {
+			return nil, crypto.ErrInvalidCipherText
+		}
+	}
 	return value[:len(value)-padding], nil
 }
-- 
2.43.0


From f8daea5fb91f908efe9574673d47a3b3ee3b9cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 24/30] fix: postgresstore.New sets a default event ID
 generator

---
 provider/postgresstore/postgres_store.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index b09d113..3aeadd2 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -83,10 +83,11 @@ func WithPgNotify() Option {
 // New constructs an postgresStore.
 func New(config *Config, options ...Option) (*postgresStore, error) {
 	s := &postgresStore{
-		config:      config,
-		clock:       systemclock.New(),
-		serializer:  jsonrecordserializer.New(),
-		broadcaster: broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
+		config:        config,
+		clock:         systemclock.New(),
+		uuidGenerator: shortuuid.NewUUIDGenerator(),
+		serializer:    jsonrecordserializer.New(),
+		broadcaster:   broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
 	}
 
 	for _, option := range options {
-- 
2.43.0


From 48a0cf9cbd7a73909ec3b90a9fc013c56f90ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:42 +0000
Subject: [PATCH 25/30] fix: broadcaster calls made after Close no longer block
 forever

---
 pkg/broadcast/broadcaster.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 462a41f..63ae01a 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -66,35 +66,54 @@ func New(bufferSize int, timeout time.Duration) *broadcaster {
 }
 
 func (b *broadcaster) Accept(record *rangedb.Record) {
-	b.bufferedRecords <- record
+	select {
+	case b.bufferedRecords <- record:
+	case <-b.stopChan:
+	}
 }
 
 func (b *broadcaster) SubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.subscribeAllEvents <- subscriber
+		select {
+		case b.subscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+			subscriber.Stop()
+		}
 	}
 }
 func (b *broadcaster) UnsubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.unsubscribeAllEvents <- subscriber
+		select {
+		case b.unsubscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+		}
 	}
 }
 
 func (b *broadcaster) SubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.subscribeAggregateTypes <- AggregateTypeSubscription{
+		subscription := AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
 		}
+		select {
+		case b.subscribeAggregateTypes <- subscription:
+		case <-b.stopChan:
+			subscriber.Stop()
+		}
 	}
 }
 
 func (b *broadcaster) UnsubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.unsubscribeAggregateTypes <- AggregateTypeSubscription{
+		subscription := AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
 		}
+		select {
+		case b.unsubscribeAggregateTypes <- subscription:
+		case <-b.stopChan:
+		}
 	}
 }
 
-- 
2.43.0


From b706bb84592be0b6f6eb21473594492ebddbb09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:31 +0000
Subject: [PATCH 26/30] fix: a subscription stopped during replay delivers
 nothing more

---
 pkg/recordsubscriber/record_subscriber.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index c516065..fa6bcf9 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -138,6 +138,10 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 			return iter.Err()
 		}
 
+		if s.ctx.Err() != nil {
+			continue
+		}
+
 		err := s.writeRecord(iter.Record())
 		if err != nil {
 			return err
-- 
2.43.0


From 468204b35c0076c930b83871b49a3e50e31d73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:07 +0000
Subject: [PATCH 27/30] fix: a msgpack stream cut inside a record reported a
 clean end

---
 .../msgpack_record_serializer.go                | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index 353cde1..f6662d9 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"reflect"
 
 	"github.com/vmihailenco/msgpack/v4"
@@ -74,16 +75,14 @@ func MarshalRecord(record *rangedb.Record) ([]byte, error) {
 func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (*rangedb.Record, error) {
 	record := rangedb.Record{}
 
-	decodeErr := decoder.Decode(&record)
-	if decodeErr != nil {
-		var err error
-		if decodeErr.Error() == "EOF" {
-			err = ErrorEOF
-		} else {
-			err = fmt.Errorf("failed decoding record: %v", decodeErr)
-		}
+	_, peekErr := decoder.PeekCode()
+	if peekErr == io.EOF {
+		return nil, ErrorEOF
+	}
 
-		return nil, err
+	err := decoder.Decode(&record)
+	if err != nil {
+		return nil, fmt.Errorf("failed decoding record: %v", err)
 	}
 
 	eventType, ok := eventTypeIdentifier.EventTypeLookup(record.EventType)
-- 
2.43.0


From 207a2eb894973f797216291a63a2a649ac87703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:08 +0000
Subject: [PATCH 28/30] fix: malformed msgpack no longer crashes the reader

---
 .../msgpack_record_serializer.go                      | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index f6662d9..32b6905 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -72,7 +72,14 @@ func MarshalRecord(record *rangedb.Record) ([]byte, error) {
 //
 // The record, excluding data, is decoded first. Then, event data is decoded.
 // Event data will be parsed into a struct if supplied by getEventType.
-func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (*rangedb.Record, error) {
+func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (decoded *rangedb.Record, err error) {
+	// The decoder panics on some malformed input.
+	defer func() {
+		if r := recover(); r != nil {
+			decoded, err = nil, fmt.Errorf("failed decoding record: %v", r)
+		}
+	}()
+
 	record := rangedb.Record{}
 
 	_, peekErr := decoder.PeekCode()
@@ -80,7 +87,7 @@ func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.Event
 		return nil, ErrorEOF
 	}
 
-	err := decoder.Decode(&record)
+	err = decoder.Decode(&record)
 	if err != nil {
 		return nil, fmt.Errorf("failed decoding record: %v", err)
 	}
-- 
2.43.0


From e84b4988f90fdfaacc7b802308150b4c8d997d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:42 +0000
Subject: [PATCH 29/30] fix: integers in metadata lost precision on the wire

---
 pkg/grpc/rangedbpb/translate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/grpc/rangedbpb/translate.go b/pkg/grpc/rangedbpb/translate.go
index 03043ad..94bd058 100644
--- a/pkg/grpc/rangedbpb/translate.go
+++ b/pkg/grpc/rangedbpb/translate.go
@@ -48,7 +48,9 @@ func ToRecord(pbRecord *Record, eventTypeIdentifier rangedb.EventTypeIdentifier)
 
 	var metadata interface{}
 	if pbRecord.Metadata != "null" {
-		err = json.Unmarshal([]byte(pbRecord.Metadata), &metadata)
+		metadataDecoder := json.NewDecoder(strings.NewReader(pbRecord.Metadata))
+		metadataDecoder.UseNumber()
+		err = metadataDecoder.Decode(&metadata)
 		if err != nil {
 			return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
-- 
2.43.0


From 9b915873f7759af35a3733ca36d49541cd72e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:02 +0000
Subject: [PATCH 30/30] fix: JSON record streams reported success for a
 document that is not an array of records

A text that is not an array, or that ends with a stray delimiter, was read
as a complete stream.
---
 .../json_record_io_stream.go                   | 18 ++++++++++++++----
 .../ndjson_record_io_stream.go                 |  7 +++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index 51311ea..3e6548c 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -69,11 +69,14 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 		decoder := json.NewDecoder(reader)
 		decoder.UseNumber()
 
-		_, err := decoder.Token()
+		start, err := decoder.Token()
+		if err == io.EOF {
+			return
+		}
+		if err == nil && start != json.Delim('[') {
+			err = fmt.Errorf("failed reading records: unexpected %v, want an array", start)
+		}
 		if err != nil {
-			if err == io.EOF {
-				return
-			}
 			resultRecords <- rangedb.ResultRecord{
 				Record: nil,
 				Err:    err,
@@ -97,6 +100,13 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		if _, err := decoder.Token(); err != nil {
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    fmt.Errorf("failed reading the end of the records: %v", err),
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index 91ae91f..fad7ac0 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -82,6 +82,13 @@ func (s *ndJSONRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		if _, err := decoder.Token(); err != io.EOF {
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    fmt.Errorf("failed reading the end of the records: %v", err),
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
-- 
2.43.0

