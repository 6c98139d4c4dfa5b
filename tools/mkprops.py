#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The statements live here so that they can be edited as text.
import json,sys,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
        "mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":list(observe),"hook_needed":None}})

p("C01","Concurrent posts, topic creation and client requests never race on the store",
 "Any number of goroutines may post records, create topics and partitions and set group offsets while any number of clients are being served. On every path, every read or write of the stored topics, partitions, record lists and committed offsets, and of the list of connected clients, is made while holding the lock that owns that data (the exclusive mode of it for a write).",
 ["schedules"],"every interleaving of any number of API callers and client connections, on every path of every operation",
 "the tests run one or two clients with the race detector off; a missing lock needs two particular operations to overlap",
 ["datastore.go","kafka-mock.go","fetch.go","list_offsets.go","offset_commit.go","offset_fetch.go","sync_group.go","metadata.go"],
 [("one mutex per store, topic and partition object","datastore.go"),("server mutex for the client list","kafka-mock.go")],
 [("Topics / Partitions / Records / GroupCommittedOffsets","the shared store","datastore.go"),("clients","connected clients","kafka-mock.go")])
p("C02","No operation can hang another through a lock",
 "Whatever path an API call, a connection or a request takes - early returns and panics that a caller may recover from included - it releases every lock it acquired exactly once, never acquires a lock it already holds, and never takes two locks in an order that conflicts with another operation. It never sleeps, waits for other goroutines, or does network reads, writes or accepts while it holds a lock.",
 ["schedules","inputs"],"every path of every operation, every interleaving",
 "a leaked or inverted lock only hangs on the path or interleaving that meets it, which the tests do not sample",
 ["datastore.go","kafka-mock.go","kafka-client.go","fetch.go","list_offsets.go","offset_commit.go","sync_group.go","api-keys.go"],
 [("lock/unlock pairs and deferred unlocks","datastore.go, kafka-mock.go")])
p("C03","A posted record is kept, unchanged, at its offset for the life of the mock",
 "Every post adds exactly one record at the end of exactly the topic and partition it names, carrying the posted key, value, headers and timestamp (the time of the post, when none is given) and sharing no memory with the caller. Records are never removed, replaced, reordered or modified afterwards, and creating a topic or partition that already exists keeps the existing one with its contents, even when several goroutines create it at once.",
 ["schedules","histories","inputs"],"every history and interleaving of posts, topic creation and client requests",
 "tests post from one goroutine to one partition and never look at the store after later operations",
 ["datastore.go","kafka-mock.go"],
 [("append under the partition lock","datastore.go postRecord"),("check-then-insert in one critical section","datastore.go createTopic, createPartition")],
 [("Records","append-only log of a partition","datastore.go")])
p("C04","Every request gets exactly one complete response, correlated and in order",
 "Each request that is read from a connection and decoded is answered on that connection by exactly one response, before the next request of that connection is looked at: a four-byte big-endian length that counts everything after it, the request's own correlation id, then the whole encoded response. A request that is rejected or whose handler fails is not answered at all, and nothing else ever writes to the connection.",
 ["inputs","schedules","fault_sequences"],"every request, every handler outcome, every write error, any number of connections",
 "tests see whatever the kafka-go client happens to send, one request at a time",
 ["kafka-client.go","kafka-message.go"],
 [("dispatch, encode, flush, send","kafka-client.go dispatcher"),("frame writer","kafka-message.go send")],observe=["bytes written to the connection"])
p("C05","Requests and responses are laid out as the Kafka protocol defines",
 "For every API and version the mock serves, the fields of the request are read, and the fields of the response and of the group assignment are written, in the order, with the type and width, byte order, length prefixes and null markers that the Kafka protocol defines for that API and version, whatever the field values are.",
 ["inputs"],"every served API and version, all field values",
 "the client library in the tests ignores many fields and never sends nulls, so a wrong layout or null marker in one of them goes unseen",
 ["encoder.go","decoder.go","fetch.go","list_offsets.go","metadata.go","offset_commit.go","offset_fetch.go","join_group.go","sync_group.go","find_coordinator.go","heartbeat.go","leave_group.go","api_versions.go"],
 [("struct types give the field order","request/response types"),("reflective encoder and decoder","encoder.go encodeObjectWorker, decoder.go peekObjectWorker")])
p("C06","ApiVersions advertises exactly what the mock can serve",
 "The ApiVersions response lists every API key the mock has a handler for and no other, once each, and every version between a key's advertised minimum and maximum has a handler. Each key and version is dispatched to a handler that reads that API version's request and produces that API version's response.",
 ["configurations","inputs"],"every entry of the API table, and any client that picks any advertised version",
 "the client in the tests picks one version of a few APIs",
 ["api-keys.go","api_versions.go","kafka-client.go"],
 [("version ranges derived from the API table","api-keys.go initializeApis"),("response listing","api_versions.go")])
p("C07","A truncated or over-long request is rejected, never guessed at",
 "When a request's bytes end before the contents it declares do, wherever the cut falls, decoding reports failure: it does not read past the end, reuse other bytes or substitute zero values, and no handler acts on it. A request with bytes left over after its last field is rejected too.",
 ["inputs"],"every truncation point of every request of every served API, every declared length",
 "tests truncate a handful of single values, never a nested request",
 ["decoder.go","inbound-utils.go","kafka-client.go"],
 [("peek result checks","decoder.go"),("next<0 propagation","decoder.go, inbound-utils.go"),("leftover check","kafka-client.go dispatcher")])
p("C08","Decoding work is bounded by the bytes received, not by declared lengths",
 "While decoding a request the mock never allocates memory, and never repeats work, in proportion to a length or count the request declares unless that many bytes of it have actually been received.",
 ["inputs"],"every declared length or count in every request",
 "no test declares a length larger than the data it sends within a legal request",
 ["decoder.go","inbound-utils.go"],
 [("growth by appended elements","decoder.go peekObjectFixedArray"),("each repetition consumes input or stops","decoder.go")])
p("C09","Requests are reassembled exactly, however the network splits them",
 "Whatever way a connection's bytes are split or merged in transit, each request is decoded as soon as, and only when, all of its declared bytes have arrived, from exactly those bytes whatever their number, and the following request starts at the very next byte. No received byte is lost, duplicated or reordered while the connection is being served, and reading it is given up only after a read that failed other than by its deadline, or at shutdown.",
 ["inputs","schedules"],"every segmentation of the byte stream, every request size",
 "over loopback almost every read returns exactly one small request",
 ["kafka-client.go","inbound-utils.go"],
 [("inbound buffer and frame extraction","kafka-client.go handle, inbound-utils.go getMessage")],
 [("inbound","bytes received and not yet consumed","kafka-client.go")])
p("C10","A fetched partition carries its own records, consecutive from its offset",
 "In a fetch response, the records given for a requested topic and partition are that partition's stored records, starting with the one at the requested offset, consecutive, none skipped or repeated, each labelled with its own offset and carrying its own timestamp, key and value, and together they stay within that partition's byte limit. The high watermark given is the number of records stored in that partition.",
 ["inputs","histories","schedules"],"every combination of requested partitions, offsets and limits, with posts going on",
 "tests fetch a single partition, mostly from offset 0, and compare a few values",
 ["fetch.go","encoder.go"],
 [("per-partition fetch state","fetch.go fetchV2"),("message set builder","encoder.go appendMessage")])
p("C11","A fetch always ends: on data, on its wait limit, or at shutdown",
 "A fetch request is answered as soon as no further stored record can be added and at least one requested partition had a record to give; otherwise once its maximum wait has passed or the mock is told to finish its requests. It never spins or waits beyond that, whatever the offsets, sizes and limits are.",
 ["inputs","schedules","histories"],"every request, every store content, shutdown at any moment",
 "tests of this hung on the pinned commit; a bad combination of limit and record size has to be met by chance",
 ["fetch.go"],[("wait loop with progress, expiry and cancellation exits","fetch.go fetchV2")])
p("C12","Committed offsets are per group and partition; commits only move forward",
 "A commit for a group, topic and partition raises that group's committed offset for exactly that partition to the committed value if it is higher and otherwise leaves it alone, even with concurrent commits; a direct set stores exactly the given offset. An offset fetch returns, for each partition it asks about, the value currently committed by that same group for that same partition (0 if none; −1 for a partition that does not exist), and no other operation changes committed offsets.",
 ["histories","schedules","inputs"],"every history of commits, direct sets and offset fetches by any groups and clients",
 "tests use one group, one partition and one commit at a time",
 ["offset_commit.go","offset_fetch.go","datastore.go","kafka-mock.go"],
 [("compare and store under the partition lock","offset_commit.go"),("lookup","datastore.go groupCommittedOffset")],
 [("GroupCommittedOffsets","committed offset by group","datastore.go")])
p("C13","ListOffsets reports the true start and end of the partition",
 "For a partition that exists, a list-offsets request for the latest offset is answered with the number of records stored in that same partition and one for the earliest offset with 0 and the timestamp of its first record, if it has one, with no error, both read from one consistent view of the partition.",
 ["inputs","schedules"],"every partition, every store size, with posts going on",
 "the tests' client starts from committed offsets and rarely asks",
 ["list_offsets.go"],[("sentinel handling","list_offsets.go listOffsetsV1")])
p("C14","Unknown topics and partitions are reported, and asking never creates them",
 "Fetch, list-offsets, offset-commit, offset-fetch and metadata requests answer an item that names a topic or partition that does not exist with error code 3 (unknown topic or partition), answer one that exists without error (only a fetch from a negative offset is refused, as out of range), and never create or alter a topic or partition by being asked.",
 ["inputs","histories"],"every request naming any mixture of known and unknown topics and partitions",
 "tests only ask about topics that exist",
 ["fetch.go","list_offsets.go","offset_commit.go","offset_fetch.go","metadata.go"],
 [("nil checks on lookups","handlers")])
p("C15","Every requested item is answered exactly once, in request order",
 "The response to a fetch, list-offsets, offset-commit, offset-fetch or metadata request has exactly one entry for every topic and every partition the request names, in the order of the request, carrying the topic name or partition index it answers, whether or not it exists and whatever the other entries are.",
 ["inputs"],"every request shape: any number, order and repetition of topics and partitions",
 "tests ask about one topic with one partition",
 ["fetch.go","list_offsets.go","offset_commit.go","offset_fetch.go","metadata.go"],
 [("one append per loop iteration","handlers")])
p("C16","WaitForTermination returns only when all of the mock's work has ended",
 "Every connection handler and accept loop the mock starts is accounted for before it starts running and discharged exactly once, on every way it can end, after its last use of the store and the connection; waiting for termination returns only after all of them ended, and returns at once for a mock never started. Requesting a stop is idempotent, waits for start-up to complete, then closes the listener and cancels running work; a restart may only start anew after that.",
 ["schedules","histories","fault_sequences"],"every order of lifecycle calls from one controlling goroutine, every moment clients connect and drop",
 "tests stop an idle mock; an unbalanced count only shows if a client drops at the wrong moment",
 ["kafka-mock.go","kafka-client.go"],
 [("wait groups and deferred discharge","kafka-mock.go run, kafka-client.go handle"),("stop sequence","kafka-mock.go RequestStop")])
p("C17","Every connection and descriptor the mock opens is closed",
 "Every connection the mock accepts is closed by the mock on every way its handling can end (client disconnect, read error, shutdown, refusal), every descriptor duplicated from a connection is closed, and the listening socket is closed when a stop is requested.",
 ["fault_sequences","histories"],"every way a connection or the server can end",
 "nothing in the tests counts descriptors",
 ["kafka-client.go","kafka-mock.go"],
 [("deferred close in the connection handler","kafka-client.go handle"),("listener close","kafka-mock.go RequestStop")])
p("C18","Every loop of the mock notices a shutdown",
 "Once the mock is told to stop or to finish its requests, each connection handler stops after at most one more bounded read: it looks at the shutdown signal before every read of the connection and every read carries a deadline of at most a few seconds, renewed for that read; and connections accepted after the signal are closed without being served. No loop of the mock can go round for ever, blocking or sleeping, without looking at the signal or returning when its socket is closed, and closing the socket to stop accepting never ends in a panic.",
 ["schedules"],"shutdown at any moment of any connection or request",
 "tests stop the mock in one or two situations only",
 ["kafka-client.go","kafka-mock.go","fetch.go"],
 [("signal checks","kafka-client.go handle, kafka-mock.go run, fetch.go"),("read deadline","kafka-client.go handle")])
p("C19","Discovery answers point at this mock and at the partitions it has",
 "Metadata lists, for each requested topic that exists, exactly the partitions that topic has, each led by and replicated on a broker that is in the response's broker list; the brokers, the controller and the group coordinator that the mock names are all this mock: one node id, and the port it listens on.",
 ["inputs","configurations","histories"],"every port, topic and set of partitions",
 "tests only use partition 2 on one port and the client only looks at the leader",
 ["metadata.go","find_coordinator.go","kafka-mock.go"],
 [("metadata response","metadata.go"),("coordinator response","find_coordinator.go")])
p("C20","A joining consumer is assigned every topic and partition in the store",
 "The assignment given to a synchronising group member lists every topic in the store exactly once, under its own name, with exactly the numbers of all of its partitions, read from a consistent view of the store.",
 ["histories","schedules"],"every store content, with topics and partitions being created meanwhile",
 "tests have one topic with one partition",
 ["sync_group.go"],[("assignment from the store","sync_group.go makeMemberAssignment")])
p("C21","Fetched message sets carry consistent sizes, format marks and checksums",
 "In every fetched message set, for keys and values of any length or null, each message's size field counts exactly the bytes of the message that follow it, the set's size field counts exactly the bytes of its messages, and each message's checksum is the CRC-32 (IEEE) of exactly the message's bytes after the checksum field, computed over its final contents. Every message is marked as format version 1 and as uncompressed.",
 ["inputs"],"all keys and values, any number of messages",
 "the client library in the tests checks neither size nor checksum of these messages",
 ["encoder.go","fetch.go"],[("message size and CRC","encoder.go appendMessage, crc, encodeMessageSetV1")])
p("C22","Mocks in one process are independent, and a restart keeps the store",
 "Nothing one mock, connection or request does changes what another mock in the same process stores, advertises or answers: all state that is changed after start-up belongs to one mock, one connection or one request, and process-wide tables are completed before any mock is handed out and never change after that. Stopping and restarting a mock keeps all of its topics, records and committed offsets.",
 ["schedules","histories","configurations"],"any number of mocks, connections and restarts in one process",
 "tests run one mock at a time",
 ["kafka-mock.go","api-keys.go","kafka-client.go"],
 [("tables built once under a lock","api-keys.go initializeApis"),("store created with the mock","kafka-mock.go NewKafkaMock")])
p("C23","No field values in a well-formed request can crash the process",
 "For every served API, no values in a completely received, well-formed request - null or empty strings, arrays and byte strings, negative or huge numbers, unknown topics, partitions or groups - cause a nil dereference, an index or slice out of range, a failed type conversion, a write to a nil map or an internal panic in decoding, handling or encoding, and such a request is answered, not refused. (SyncGroup requests that bring assignments of their own are an unsupported feature, not covered here.)",
 ["inputs","histories"],"all field values of all served requests, all store contents",
 "tests send the few values a healthy client sends",
 ["decoder.go","encoder.go","inbound-utils.go","fetch.go","list_offsets.go","metadata.go","offset_commit.go","offset_fetch.go","sync_group.go"],
 [("guards on lookups, offsets and nulls","handlers, decoder.go")])
p("C24","The mock tracks exactly the clients that are connected",
 "Each accepted connection that is served is entered in the mock's client list under a number of its own before its handler can remove it, and when its handler ends exactly that entry, and no other, is removed.",
 ["schedules","histories"],"any order in which any number of clients connect and disconnect",
 "no test looks at the list after several clients came and went out of order",
 ["kafka-mock.go"],[("entry and removal under the server lock","kafka-mock.go run")],
 [("clients","connected clients by number","kafka-mock.go")])
p("C25","ListOffsets by time finds the record from which on all are at or after the time",
 "For a partition that exists and a timestamp that is neither of the two sentinels, a list-offsets request is answered without error with the offset of the earliest stored record from which on all records, that one included, are at or after that timestamp, and with that record's own timestamp; with the number of stored records and a fixed timestamp if the last record is earlier.",
 ["inputs","histories","schedules"],"all timestamps, all sequences of stored timestamps, in order or not","tests never ask by time",
 ["list_offsets.go"],[("backward scan under the partition lock","list_offsets.go listOffsetsV1")])
p("C26","A group member is accepted, never made leader and never disturbed",
 "Every well-formed find-coordinator, join-group, sync-group, heartbeat or leave-group request that is answered is answered without error, whatever group, member, generation or protocols it names and whatever happened before. The member id given to one who joins is fixed, not empty and never the leader's id, so no client is ever asked to make assignments, which the mock does not serve; protocol and generation given are fixed too. A sync-group request that brings assignments, which the mock would have to hand on, is refused, never answered as if it had taken them.",
 ["inputs","histories"],"all field values of all group requests, any history of groups","tests join one group, once, with one client library",
 ["join_group.go","heartbeat.go","leave_group.go","sync_group.go","find_coordinator.go"],[("constant answers","join_group.go, heartbeat.go, leave_group.go")])
p("C27","Creating topics makes exactly the topics and partitions named",
 "When creating partition topics returns, every topic of the given list is in the store under exactly its name and has the partition with exactly the given number, for any list (empty, with repetitions, with topics or partitions that exist already) and any number. Topics and partitions come into being in no other way than by that call and by posting to them, and only under the names and numbers given.",
 ["inputs","histories","schedules"],"all lists and numbers, with other creations and posts going on","tests create one partition of one topic",
 ["kafka-mock.go","datastore.go"],[("loop over the names","kafka-mock.go CreatePartitionTopics"),("create if absent","datastore.go createTopic, createPartition")])
p("C28","No call of the mock's own interface crashes it",
 "Every exported method of the mock can be called with any arguments and at any time without a crash: posting to, creating and setting offsets of topics and partitions, existing or not, reading them back, stopping, finishing and waiting, on a mock that was never started, is running, has stopped or was restarted. The one exception is starting a mock that is already started, which panics on purpose.",
 ["inputs","histories"],"all arguments (unknown topics and partitions, nil and empty values) at every point of the life of a mock","tests call each method in one order, with topics and partitions that exist",
 ["kafka-mock.go","datastore.go"],[("lookups before use","kafka-mock.go SetConsumerGroupOffset"),("cancel function found set before it is called","kafka-mock.go FinishRequests")])
p("C29","After a restart the mock serves again, with the same data",
 "When Restart returns, the old server is gone, a new one listens on the same port and its accept loop is about to run, with a fresh lane to stop it by, and it serves the same store: every record, topic and committed offset is still there. This holds however often it is restarted and whatever ran before.",
 ["histories","schedules"],"every number of restarts, with clients connected, requests running and after requests were finished early","tests restart once, with no request in progress",
 ["kafka-mock.go"],[("stop, wait, start, wait for the start","kafka-mock.go Restart"),("a new lane for each start","kafka-mock.go Start")])
p("C30","A client that goes away takes only its own connection with it",
 "A client may close its connection, reset it or fall silent at any moment - between requests, in the middle of one, while it is being answered - and the process goes on: a failed read or write that such a client brings about never ends in a panic.",
 ["fault_sequences","schedules"],"every moment of a close, a reset and a silence, seen by a read or by a write","tests close their clients in an orderly way, when nothing is going on",
 ["kafka-client.go","net-utils.go"],[("which errors mean the client left","net-utils.go wasSocketClosed"),("the look at the socket after a failed write","kafka-client.go isConnected, send")])
p("C31","No client waits for another",
 "A request is never held up by another connection: each accepted connection is served at once by a goroutine of its own, accepting goes on meanwhile, and while it reads, handles and answers a request that goroutine waits for nothing that only another client's progress, or a post, can end; a fetch that waits for records holds up no one. Posting and setting offsets wait for no client either.",
 ["schedules","inputs"],"any number of clients, any of them slow, silent, or waiting in a fetch for as long as they asked","tests use one client at a time",
 ["kafka-mock.go","kafka-client.go","fetch.go"],[("a goroutine for each connection","kafka-client.go newKafkaClient"),("locks released while waiting","fetch.go fetchV2")])
# not claimed
p("N01","Every supported value survives an encode/decode round trip",
 "For every supported value type, including the variable-length integers and compact strings, arrays and byte strings, decoding what was encoded gives back the same value.",
 ["inputs"],"all values of all supported types",
 "tests try a few values per type",
 ["encoder.go","decoder.go"],[("encode and decode functions","encoder.go, decoder.go")])
p("N03","Waits and latencies last as long as asked",
 "A fetch with nothing to return is answered no earlier than its maximum wait and within a few tens of milliseconds after it.",
 ["schedules","inputs"],"all wait limits and schedules","timing is only sampled",
 ["fetch.go","kafka-client.go"],[("expiration","fetch.go")])
p("N04","A consumer group client gets every record in order and resumes at its commit",
 "A client of the Kafka consumer group protocol that joins, fetches and commits receives every record of its topics in order and, after reconnecting, resumes at its committed offset.",
 ["histories","schedules"],"all client behaviours and schedules","tests use one client library in a few sessions",
 ["fetch.go","join_group.go","sync_group.go","offset_commit.go","offset_fetch.go"],[("all handlers together","handlers")])
p("N05","Malformed and unsupported requests cannot take the process down",
 "A request that is malformed, unsupported or uses an unsupported feature ends at most its own connection.",
 ["inputs"],"all byte sequences a peer can send","tests only use a healthy client",
 ["kafka-client.go"],[("panic on a dispatch error","kafka-client.go handle")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
