From 167408fe90859cf25234b0fb1cfe39f59fed68c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 01/20] fix: end a fetch when the next record exceeds the
 partition's byte limit

The loop kept spinning for ever, because a record that did not fit counted as
progress; the client never got an answer and the server could not stop.
---
 fetch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index aabbc16..7a76309 100644
--- a/fetch.go
+++ b/fetch.go
@@ -86,9 +86,9 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 				fd.kp.unlock()
 
 				if rec != nil {
-					more = true
 					hasOne = true
 					if fd.ms.appendMessage(rec, fd.maxSize) {
+						more = true
 						fd.offset++
 					}
 				}
-- 
2.43.0


From 686bf7465265c0fa5b4f9d37258389bc96d660db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 02/20] fix: pair each fetched partition with its own records

The response advanced through the fetched data once per topic rather than once
per partition, so a multi-partition fetch returned another partition's records,
and a topic without partitions could run off the end of the list.
---
 fetch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fetch.go b/fetch.go
index 7a76309..61a3ea6 100644
--- a/fetch.go
+++ b/fetch.go
@@ -125,15 +125,15 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 	n := 0
 	for _, topic := range request.Topics {
-		fd := fds[n]
-		n++
-
 		fr := &fetchResponse{
 			Topic:      topic.Topic,
 			Partitions: []fetchResponsePartition{},
 		}
 
 		for _, par := range topic.Partitions {
+			fd := fds[n]
+			n++
+
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
 				HighWatermark:  int64(fd.offset),
-- 
2.43.0


From 95d795f89d09fa5970703a05f60c92e38ffd7815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 03/20] fix: report fetch errors instead of crashing or hiding
 them

A negative fetch offset indexed the record list and took the process down; it
is now answered with OffsetOutOfRange. A fetch of an unknown topic or partition
is answered with UnknownTopicOrPartition, as list offsets and offset commit do.
---
 fetch.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fetch.go b/fetch.go
index 61a3ea6..ca180fa 100644
--- a/fetch.go
+++ b/fetch.go
@@ -46,6 +46,7 @@ type (
 		offset  int
 		maxSize int
 		ms      *messageSetV1
+		errCode kafkaErrorCode
 	}
 )
 
@@ -68,6 +69,12 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			}
 
 			fd := &fetchData{kp: kp, offset: int(par.FetchOffset), maxSize: int(par.PartitionMaxBytes), ms: newMessageSetV1(par.FetchOffset)}
+			if kp == nil {
+				fd.errCode = UnknownTopicOrPartition
+			} else if par.FetchOffset < 0 {
+				fd.kp = nil
+				fd.errCode = OffsetOutOfRange
+			}
 			fds = append(fds, fd)
 		}
 	}
@@ -136,6 +143,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
+				ErrorCode:      int16(fd.errCode),
 				HighWatermark:  int64(fd.offset),
 				Records:        fd.ms,
 			}
-- 
2.43.0


From b62b55440c07e57f5f5c2eaf671c38ed94b96447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 04/20] fix: report the end of the partition as the fetch high
 watermark

The response carried the offset after the last returned record, so a client
reading a batch at a time saw no lag.
---
 fetch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index ca180fa..94e9a79 100644
--- a/fetch.go
+++ b/fetch.go
@@ -47,6 +47,7 @@ type (
 		maxSize int
 		ms      *messageSetV1
 		errCode kafkaErrorCode
+		hwm     int64
 	}
 )
 
@@ -87,6 +88,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			if fd.kp != nil {
 				var rec *kafkaRecord
 				fd.kp.lock()
+				fd.hwm = int64(len(fd.kp.Records))
 				if fd.offset < len(fd.kp.Records) {
 					rec = fd.kp.Records[fd.offset]
 				}
@@ -144,7 +146,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
 				ErrorCode:      int16(fd.errCode),
-				HighWatermark:  int64(fd.offset),
+				HighWatermark:  fd.hwm,
 				Records:        fd.ms,
 			}
 
-- 
2.43.0


From 4c44a96cb4217d7b3d7b8c1bf161b0d70fd0e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 05/20] fix: hold the store locks while making a member
 assignment

The topic and partition maps were read without their locks, so creating a topic
while a client joined could end the process (concurrent map iteration and write).
---
 sync_group.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sync_group.go b/sync_group.go
index 201ea57..c034baf 100644
--- a/sync_group.go
+++ b/sync_group.go
@@ -55,12 +55,17 @@ func syncGroupV0(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 func makeMemberAssignment(ds *kafkaDataStore) []byte {
 	// assign all topics & partitions to this client
+	ds.mu.Lock()
+	defer ds.mu.Unlock()
+
 	mpas := make([]memberPartitionAssignment, 0, len(ds.Topics))
 	for name, topic := range ds.Topics {
+		topic.mu.Lock()
 		pars := make([]int32, 0, len(topic.Partitions))
 		for _, par := range topic.Partitions {
 			pars = append(pars, par.Index)
 		}
+		topic.mu.Unlock()
 
 		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: pars})
 	}
-- 
2.43.0


From 75eac8da0517bebbb31141ba2695354b47c232de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 06/20] fix: hold the partition lock while listing offsets

The record list was read without its lock, racing with posts.
---
 list_offsets.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/list_offsets.go b/list_offsets.go
index c1ef01a..a5bb954 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -59,6 +59,7 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 			if kp == nil {
 				rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: int16(UnknownTopicOrPartition)})
 			} else {
+				kp.lock()
 				if p.Timestamp == -1 {
 					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(kp.Records))})
 				} else if p.Timestamp == -2 {
@@ -82,6 +83,7 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 					}
 					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: ts, Offset: offset})
 				}
+				kp.unlock()
 			}
 		}
 
-- 
2.43.0


From 4171d74da7ca9a0af0da6f7edb129113a3fc1f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 07/20] fix: list offsets by time returns the timestamp of the
 record at the offset

It returned the timestamp of the record before it.
---
 list_offsets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_offsets.go b/list_offsets.go
index a5bb954..8d60490 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -75,11 +75,11 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 					ts := int64(0)
 					for i := len(kp.Records) - 1; i >= 0; i-- {
 						msg := kp.Records[i]
-						ts = msg.Timestamp
 						if msg.Timestamp < p.Timestamp {
 							offset = int64(i + 1)
 							break
 						}
+						ts = msg.Timestamp
 					}
 					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: ts, Offset: offset})
 				}
-- 
2.43.0


From 0c7498a09c23ab97b389838292942e1034874127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 08/20] fix: remove the client that disconnected from the
 client list

The callback captured the connection counter rather than its value, so it
removed the newest client and left the closed one behind.
---
 kafka-mock.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index 449225a..af3672e 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -147,10 +147,11 @@ func (km *KafkaMock) run() {
 
 		km.mu.Lock()
 		cxnNumber++
+		id := cxnNumber
 		kc := newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
 			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
 			km.mu.Lock()
-			delete(km.clients, cxnNumber)
+			delete(km.clients, id)
 			km.active.Done()
 			km.wg.Done()
 			km.mu.Unlock()
-- 
2.43.0


From 118fee9dd34039ab9b561333f6cb320fafb276f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 09/20] fix: close the server side of a connection when its
 client goes away

The handler returned without closing the connection after a read error, and the
duplicated descriptor of the connection test was never closed.
---
 kafka-client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kafka-client.go b/kafka-client.go
index 5e3546b..16ffab9 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -77,6 +77,7 @@ func newKafkaClient(l lane.Lane, ds *kafkaDataStore, conn net.Conn, serverPort u
 
 func (kc *kafkaClient) handle() {
 	defer func() {
+		kc.conn.Close()
 		kc.wg.Done()
 		kc.oc()
 		kc.l.Tracef("client %d task done", kc.clientPort)
@@ -251,6 +252,7 @@ func (kc *kafkaClient) isConnected() bool {
 	if err != nil {
 		return false
 	}
+	defer f.Close()
 
 	b := []byte{0}
 	_, _, err = syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
-- 
2.43.0


From 06cd62cd8c8abd9041d4b3738d8601512a582e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 10/20] fix: accept null arrays and byte strings in a request

A field decoded as null made reflect panic; it is now left at its zero value.
---
 decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index b7b436d..8a5b8db 100644
--- a/decoder.go
+++ b/decoder.go
@@ -567,7 +567,9 @@ func peekObjectStruct(reader *bufio.Reader, offset int, tt reflect.Type) (next i
 			return
 		}
 		f := o.Elem().Field(i)
-		f.Set(reflect.ValueOf(v))
+		if v != nil {
+			f.Set(reflect.ValueOf(v))
+		}
 	}
 	obj = o.Elem().Interface()
 	return
-- 
2.43.0


From 47db425441fe6f9a2306018cab029e0f15c77902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 11/20] fix: don't allocate an array by the length the client
 claims

A few bytes of request could make the server reserve space for two billion
elements and run out of memory before finding that the elements are missing.
---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 8a5b8db..66d5de0 100644
--- a/decoder.go
+++ b/decoder.go
@@ -516,7 +516,7 @@ func kafkaTags(ft reflect.StructField) (nullable, compact bool) {
 func peekObjectFixedArray(reader *bufio.Reader, offset, length int, elem reflect.Type) (next int, obj any) {
 	next = offset
 	if length >= 0 {
-		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, length)
+		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)
 		for i := 0; i < int(length); i++ {
 			var item any
 			next, item = peekObject(reader, next, elem)
-- 
2.43.0


From 586cfb0f39b67cb1c3fc77d510e9cb3cc010144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 12/20] fix: decode requests larger than 4096 bytes

The decoder peeks at the whole request, which bufio refuses past its buffer
size, so a longer request was rejected as malformed.
---
 kafka-client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kafka-client.go b/kafka-client.go
index 16ffab9..5fbb048 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -130,7 +130,7 @@ func (kc *kafkaClient) handle() {
 		kc.inbound = kc.inbound[4+msg.Len():]
 
 		kc.requestWg.Add(1)
-		reader := bufio.NewReader(msg)
+		reader := bufio.NewReaderSize(msg, msg.Len())
 		func() {
 			defer kc.requestWg.Done()
 			if err := kc.dispatcher(reader, msg.Len()); err != nil {
-- 
2.43.0


From e8f8f9493603d681e0294e8ea18d19cc1be22d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 13/20] fix: message size and checksum of fetched messages

The size of a v1 message excludes its offset and size fields, and its checksum
is plain CRC-32 (only v2 record batches use CRC-32C).
---
 encoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encoder.go b/encoder.go
index d50ac98..b511d85 100644
--- a/encoder.go
+++ b/encoder.go
@@ -481,7 +481,7 @@ func encodeMessageSetV1(writer *bufio.Writer, ms *messageSetV1) {
 	}
 }
 
-var crcTable *crc32.Table = crc32.MakeTable(crc32.Castagnoli)
+var crcTable *crc32.Table = crc32.MakeTable(crc32.IEEE)
 
 func newMessageSetV1(offset int64) *messageSetV1 {
 	return &messageSetV1{
@@ -499,15 +499,15 @@ func (msv1 *messageSetV1) appendMessage(record *kafkaRecord, maxSize int) bool {
 		Key:        record.Key,
 		Value:      record.Value,
 	}
-	mv1.MessageSize = int32(34 + len(record.Key) + len(record.Value))
+	mv1.MessageSize = int32(22 + len(record.Key) + len(record.Value))
 	mv1.Crc = int32(mv1.crc())
 
-	newSize := msv1.totalSize + int(mv1.MessageSize)
+	newSize := msv1.totalSize + 12 + int(mv1.MessageSize)
 	if newSize > maxSize {
 		return false
 	}
 
-	msv1.totalSize += int(mv1.MessageSize)
+	msv1.totalSize = newSize
 	msv1.offset++
 
 	msv1.msgs = append(msv1.msgs, mv1)
-- 
2.43.0


From eadb3f170a2370dfa45a5723c5817c127b40b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 14/20] fix: metadata lists the partitions a topic has

It claimed a single partition 2 for every topic, existing or not, so a client
could not read any other partition; the replica and controller named brokers
that do not exist.
---
 datastore.go | 13 +++++++++++++
 metadata.go  | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/datastore.go b/datastore.go
index 5eb4df8..7925b37 100644
--- a/datastore.go
+++ b/datastore.go
@@ -1,6 +1,7 @@
 package kafkamock
 
 import (
+	"sort"
 	"sync"
 	"time"
 )
@@ -91,6 +92,18 @@ func (kp *kafkaTopic) getPartition(number int32) *kafkaPartition {
 	return kp.Partitions[number]
 }
 
+func (kp *kafkaTopic) partitionNumbers() []int32 {
+	kp.mu.Lock()
+	defer kp.mu.Unlock()
+
+	numbers := make([]int32, 0, len(kp.Partitions))
+	for number := range kp.Partitions {
+		numbers = append(numbers, number)
+	}
+	sort.Slice(numbers, func(i, j int) bool { return numbers[i] < numbers[j] })
+	return numbers
+}
+
 func (kp *kafkaPartition) lock() {
 	kp.mu.Lock()
 }
diff --git a/metadata.go b/metadata.go
index 898c6f5..57b3f49 100644
--- a/metadata.go
+++ b/metadata.go
@@ -48,14 +48,25 @@ func metadataV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 	topics := make([]topicsV1, 0, len(request.Topics))
 	for _, t := range request.Topics {
-		topics = append(topics, topicsV1{Name: t, Partitions: []partitionV1{{PartitionIndex: 2, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}}}})
+		kt := kc.ds.getTopic(t)
+		if kt == nil {
+			topics = append(topics, topicsV1{ErrorCode: int16(UnknownTopicOrPartition), Name: t, Partitions: []partitionV1{}})
+			continue
+		}
+
+		numbers := kt.partitionNumbers()
+		partitions := make([]partitionV1, 0, len(numbers))
+		for _, number := range numbers {
+			partitions = append(partitions, partitionV1{PartitionIndex: number, LeaderId: kLeaderNode, ReplicaNodes: []int32{kLeaderNode}, IsrNodes: []int32{kLeaderNode}})
+		}
+		topics = append(topics, topicsV1{Name: t, Partitions: partitions})
 	}
 
 	response = &metadataResponseV1{
 		Brokers: []brokersV1{
 			{NodeId: kLeaderNode, Host: "localhost", Port: int32(kc.serverPort)},
 		},
-		ControllerId: 500,
+		ControllerId: kLeaderNode,
 		Topics:       topics,
 	}
 	return
-- 
2.43.0


From 66061d561c02de366f2d04afd7c9adfea224ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 15/20] fix: offset fetch answers every requested partition

Unknown topics and partitions were left out of the response, and a topic listed
twice was merged.
---
 offset_fetch.go | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/offset_fetch.go b/offset_fetch.go
index 7dd752c..54f841e 100644
--- a/offset_fetch.go
+++ b/offset_fetch.go
@@ -38,30 +38,22 @@ func offsetFetchV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 		return
 	}
 
-	data := map[string][]*kafkaPartition{}
+	rtopics := make([]offsetFetchTopicV1, 0, len(request.Topics))
 	for _, rt := range request.Topics {
 		kt := kc.ds.getTopic(rt.Name)
-		if kt == nil {
-			continue
-		}
 
+		rpars := make([]offsetFetchPartitionV1, 0, len(rt.PartitionIndexes))
 		for _, pi := range rt.PartitionIndexes {
-			par := kt.getPartition(pi)
-			if par != nil {
-				kps, exists := data[rt.Name]
-				if !exists {
-					kps = []*kafkaPartition{}
-				}
-				kps = append(kps, par)
-				data[rt.Name] = kps
+			var kp *kafkaPartition
+			if kt != nil {
+				kp = kt.getPartition(pi)
+			}
+
+			if kp == nil {
+				rpars = append(rpars, offsetFetchPartitionV1{PartitionIndex: pi, CommittedOffset: -1, ErrorCode: int16(UnknownTopicOrPartition)})
+				continue
 			}
-		}
-	}
 
-	rtopics := make([]offsetFetchTopicV1, 0, len(data))
-	for name, kps := range data {
-		rpars := make([]offsetFetchPartitionV1, 0, len(kps))
-		for _, kp := range kps {
 			rpars = append(rpars, offsetFetchPartitionV1{
 				PartitionIndex:  kp.Index,
 				CommittedOffset: kp.groupCommittedOffset(request.GroupId),
@@ -69,7 +61,7 @@ func offsetFetchV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 				Metadata:        kp.Metadata,
 			})
 		}
-		rtopics = append(rtopics, offsetFetchTopicV1{Name: name, Partitions: rpars})
+		rtopics = append(rtopics, offsetFetchTopicV1{Name: rt.Name, Partitions: rpars})
 	}
 
 	response = &offsetFetchResponseV1{Topics: rtopics}
-- 
2.43.0


From 903a13e889cb8db42dd5b8b56c75fccf43c69f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 16/20] fix: keep the widened version range of an API with
 several versions

The range was widened in a copy only.
---
 api-keys.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/api-keys.go b/api-keys.go
index 9bfdcc3..1503dfd 100644
--- a/api-keys.go
+++ b/api-keys.go
@@ -209,6 +209,7 @@ func initializeApis() {
 			if ver > int(vr.max) {
 				vr.max = int16(ver)
 			}
+			apiVersions[kafkaApiKey(key)] = vr
 		}
 	}
 }
-- 
2.43.0


From 4d31b94456db3609df620a592dc1a8c44df9b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 17/20] fix: FinishRequests before Start does nothing instead
 of panicking

---
 kafka-mock.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index af3672e..1783e9a 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -166,7 +166,9 @@ func (km *KafkaMock) run() {
 // Tells the mock to stop accepting new requests and
 // to complete any blocked requests.
 func (km *KafkaMock) FinishRequests() {
-	km.cancelFn()
+	if km.cancelFn != nil {
+		km.cancelFn()
+	}
 }
 
 // Stops the server and gracefully closes clients, then starts
-- 
2.43.0


From cf7e34f8443fd911ab0859dcef6d0ffcb161a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 18/20] fix: copy a posted record's bytes

The record shared the caller's slices, so reusing a buffer after a post changed
the stored record, and raced with clients fetching it.
---
 datastore.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datastore.go b/datastore.go
index 7925b37..25e89e2 100644
--- a/datastore.go
+++ b/datastore.go
@@ -1,6 +1,7 @@
 package kafkamock
 
 import (
+	"bytes"
 	"sort"
 	"sync"
 	"time"
@@ -118,14 +119,14 @@ func (kp *kafkaPartition) postRecord(attribs int8, ts time.Time, key, value []by
 
 	flatHeaders := make([]kafkaRecordHeader, 0, len(headers))
 	for k, v := range headers {
-		flatHeaders = append(flatHeaders, kafkaRecordHeader{HeaderKey: k, HeaderValue: v})
+		flatHeaders = append(flatHeaders, kafkaRecordHeader{HeaderKey: k, HeaderValue: bytes.Clone(v)})
 	}
 
 	record := &kafkaRecord{
 		Attributes: attribs,
 		Timestamp:  ts.UnixMilli(),
-		Key:        key,
-		Value:      value,
+		Key:        bytes.Clone(key),
+		Value:      bytes.Clone(value),
 		Headers:    flatHeaders,
 	}
 	kp.Records = append(kp.Records, record)
-- 
2.43.0


From 03361db4924a471bfd301c936531e1e699d2be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:58 +0000
Subject: [PATCH 19/20] fix: answer JoinGroup with empty member metadata, not
 null

---
 join_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/join_group.go b/join_group.go
index 57049ab..586f125 100644
--- a/join_group.go
+++ b/join_group.go
@@ -45,7 +45,7 @@ func joinGroupV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 		Leader:       "me",
 		MemberId:     "1",
 		Members: []joinGroupMemberV1{
-			{MemberId: "you"},
+			{MemberId: "you", Metadata: []byte{}},
 		},
 	}
 	return
-- 
2.43.0


From bbce7d7273f4456d15d543054d0a0e888806f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:40 +0000
Subject: [PATCH 20/20] fix: do not overflow the end of a request of almost 4
 GiB

---
 inbound-utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inbound-utils.go b/inbound-utils.go
index 46945b8..6d71e9a 100644
--- a/inbound-utils.go
+++ b/inbound-utils.go
@@ -28,7 +28,7 @@ func getMessage(inbound []byte) (buf *bytes.Buffer) {
 		return
 	}
 
-	buf = bytes.NewBuffer(inbound[4 : 4+msgSize])
+	buf = bytes.NewBuffer(inbound[4 : 4+int(msgSize)])
 	return
 }
 
-- 
2.43.0

