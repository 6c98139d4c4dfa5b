M="kafka-mock.go"; DS="datastore.go"; LO="list_offsets.go"; C="kafka-client.go"; F="fetch.go"; OC="offset_commit.go"; OF="offset_fetch.go"; MD="metadata.go"; SG="sync_group.go"; KM="kafka-message.go"; IU="inbound-utils.go"; N="net-utils.go"
CASES=[]
def q(name,*edits): CASES.append((name,"quiet",[],list(edits)))
FIND='''
func (ds *kafkaDataStore) findPartition(topic string, number int32) *kafkaPartition {
	kt := ds.getTopic(topic)
	if kt == nil {
		return nil
	}
	return kt.getPartition(number)
}
'''
LK='''			var kp *kafkaPartition
			if kt != nil {
				kp = kt.getPartition(%s)
			}
'''
q("r-find-all",(DS,None,FIND),
  (F,"		kt := kc.ds.getTopic((topic.Topic))\n\n",""),(F,LK%"par.Partition","			kp := kc.ds.findPartition(topic.Topic, par.Partition)\n"),
  (OC,"		kt := kc.ds.getTopic(topic.Name)\n\n",""),(OC,LK%"par.PartitionIndex","			kp := kc.ds.findPartition(topic.Name, par.PartitionIndex)\n"),
  (OF,"		kt := kc.ds.getTopic(rt.Name)\n\n",""),(OF,LK%"pi","			kp := kc.ds.findPartition(rt.Name, pi)\n"),
  (LO,"		kt := kc.ds.getTopic(t.Name)\n\n",""),(LO,LK%"p.PartitionIndex","			kp := kc.ds.findPartition(t.Name, p.PartitionIndex)\n"),
  (M,'''	kt := km.ds.getTopic(topic)
	if kt != nil {
		kp := kt.getPartition(int32(partition))
		if kp != nil {
			kp.mu.Lock()
			defer kp.mu.Unlock()

			kp.GroupCommittedOffsets[group] = offset
		}
	}
''','''	kp := km.ds.findPartition(topic, int32(partition))
	if kp == nil {
		return
	}

	kp.mu.Lock()
	defer kp.mu.Unlock()
	kp.GroupCommittedOffsets[group] = offset
'''))
q("r-getorcreate",(DS,None,'''
func (ds *kafkaDataStore) getOrCreatePartition(topic string, partition int) *kafkaPartition {
	return ds.createTopic(topic).createPartition(int32(partition))
}
'''),(M,'''	kt := km.ds.createTopic(topic)
	kt.createPartition(int32(partition))
	kp := kt''','''	kp := kt''') if False else (M,'''	kt := km.ds.createTopic(topic)
	kp := kt.createPartition(int32(partition))
	kp.postRecord(0, time.Now(), key, value, nil)
''','''	km.ds.getOrCreatePartition(topic, partition).postRecord(0, time.Now(), key, value, nil)
'''),(M,'''	kt := km.ds.createTopic(topic)
	kp := kt.createPartition(int32(partition))
	kp.postRecord(0, timestamp, key, value, headers)
''','''	km.ds.getOrCreatePartition(topic, partition).postRecord(0, timestamp, key, value, headers)
'''),(M,'''		kt := km.ds.createTopic(topic)
		kt.createPartition(int32(partition))
''','''		km.ds.getOrCreatePartition(topic, partition)
'''))
q("r-commit-method",(OC,'''				kp.lock()
				offset := kp.GroupCommittedOffsets[request.GroupId]
				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
				kp.unlock()
''','''				if kp.advanceOffset(request.GroupId, par.CommittedOffset) {
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
'''),(DS,None,'''
func (kp *kafkaPartition) advanceOffset(group string, offset int64) bool {
	kp.mu.Lock()
	defer kp.mu.Unlock()

	if kp.GroupCommittedOffsets[group] >= offset {
		return false
	}
	kp.GroupCommittedOffsets[group] = offset
	return true
}
'''))
q("r-commit-split",(OC,'''	rtopics := make([]offsetCommitResponseTopic, 0, len(request.Topics))

	for _, topic := range request.Topics {
''','''	response = &offsetCommitResponseV2{Topics: commitTopics(kc, request)}
	return
}

func commitTopics(kc *kafkaClient, request *offsetCommitRequestV2) []offsetCommitResponseTopic {
	rtopics := make([]offsetCommitResponseTopic, 0, len(request.Topics))

	for _, topic := range request.Topics {
'''),(OC,'''	ocv2 := offsetCommitResponseV2{
		Topics: rtopics,
	}
	response = &ocv2
	return
''','''	return rtopics
'''))
q("r-read-more",(C,'''			// no message ready - read more data from the client
			buffer := make([]byte, 8192)
			kc.conn.SetReadDeadline(time.Now().Add(time.Second))
			n, err := kc.conn.Read(buffer)

			if err != nil {
				if errors.Is(err, os.ErrDeadlineExceeded) {
					continue
				}
				if !wasSocketClosed(err) {
					panic(fmt.Sprintf("read error: %v", err))
				}
				return
			}

			if kc.stopping.Load() {
				// ignore the continued requests
				kc.l.Tracef("closing in progress - ignoring %d request bytes", n)
				continue
			}

			kc.inbound = append(kc.inbound, buffer[:n]...)
			continue
''','''			// no message ready - read more data from the client
			if !kc.readMore() {
				return
			}
			continue
'''),(C,None,'''
// readMore adds what the client sends next to the inbound bytes; false when
// the client is gone.
func (kc *kafkaClient) readMore() bool {
	buffer := make([]byte, 8192)
	kc.conn.SetReadDeadline(time.Now().Add(time.Second))
	n, err := kc.conn.Read(buffer)

	switch {
	case err == nil:
	case errors.Is(err, os.ErrDeadlineExceeded):
		return true
	case wasSocketClosed(err):
		return false
	default:
		panic(fmt.Sprintf("read error: %v", err))
	}

	if kc.stopping.Load() {
		// ignore the continued requests
		kc.l.Tracef("closing in progress - ignoring %d request bytes", n)
		return true
	}

	kc.inbound = append(kc.inbound, buffer[:n]...)
	return true
}
'''))
q("r-shutdown-fn",(C,'''			select {
			case <-kc.l.Done():
				// don't accept more requests
				kc.conn.Close()
				return
			default:
				// keep going
			}
''','''			if kc.isShuttingDown() {
				// don't accept more requests
				kc.conn.Close()
				return
			}
'''),(C,None,'''
func (kc *kafkaClient) isShuttingDown() bool {
	select {
	case <-kc.l.Done():
		return true
	default:
		return false
	}
}
'''),(F,'''			isClosed := false
			select {
			case <-kc.l.Done():
				isClosed = true
				break
			default:
				break
			}
			if isClosed {
				break
			}
''','''			if kc.isShuttingDown() {
				break
			}
'''))
q("r-handle-request",(C,'''		kc.inbound = kc.inbound[4+msg.Len():]

		kc.requestWg.Add(1)
		reader := bufio.NewReaderSize(msg, msg.Len())
		func() {
			defer kc.requestWg.Done()
			if err := kc.dispatcher(reader, msg.Len()); err != nil {
				panic(err)
			}
		}()
''','''		size := msg.Len()
		kc.inbound = kc.inbound[4+size:]
		kc.handleRequest(msg, size)
'''),(C,None,'''
func (kc *kafkaClient) handleRequest(msg *bytes.Buffer, size int) {
	kc.requestWg.Add(1)
	defer kc.requestWg.Done()

	reader := bufio.NewReaderSize(msg, size)
	if err := kc.dispatcher(reader, size); err != nil {
		panic(err)
	}
}
'''))
q("r-respond",(C,'''	remaining, _ := reader.Peek(msgLength)
	if len(remaining) != 0 {
		err = fmt.Errorf("unexpected %d bytes after %T request", len(remaining), response)
		return
	}

	encodeObject(w, response)
	if rtags != nil {
		encodeTags(w, rtags)
	}

	// message fully processed
	w.Flush()

	km := newKafkaMessage(kc.l, kc.conn, &kmh)
	if err = km.send(buf.Bytes()); err != nil {
		if !kc.isConnected() {
			// the client dropped - ignore the error
			err = nil
		}
		return
	}

	return
}
''','''	remaining, _ := reader.Peek(msgLength)
	if len(remaining) != 0 {
		err = fmt.Errorf("unexpected %d bytes after %T request", len(remaining), response)
		return
	}

	return kc.respond(&kmh, response, rtags)
}

func (kc *kafkaClient) respond(kmh *kafkaMessageHeader, response any, rtags map[int]any) error {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeObject(w, response)
	if rtags != nil {
		encodeTags(w, rtags)
	}

	// message fully processed
	w.Flush()

	err := newKafkaMessage(kc.l, kc.conn, kmh).send(buf.Bytes())
	if err != nil && !kc.isConnected() {
		// the client dropped - ignore the error
		return nil
	}
	return err
}
'''),(C,'''	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)

	var hdr''','''	var hdr'''))
q("r-track",(M,'''		km.mu.Lock()
		cxnNumber++
		id := cxnNumber
		kc := newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
			km.mu.Lock()
			delete(km.clients, id)
			km.active.Done()
			km.wg.Done()
			km.mu.Unlock()
		})
		km.clients[cxnNumber] = kc
		km.active.Add(1)
		km.wg.Add(1)
		km.mu.Unlock()
	}
}
''','''		cxnNumber++
		km.serveClient(cxnNumber, connection)
	}
}

func (km *KafkaMock) serveClient(id int, connection net.Conn) {
	km.mu.Lock()
	defer km.mu.Unlock()

	km.active.Add(1)
	km.wg.Add(1)
	km.clients[id] = newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
		km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
		km.forgetClient(id)
	})
}

func (km *KafkaMock) forgetClient(id int) {
	km.mu.Lock()
	defer km.mu.Unlock()

	delete(km.clients, id)
	km.active.Done()
	km.wg.Done()
}
'''))
q("r-stop-early",(M,'''	alreadyStopped := km.stopped.Swap(true)
	if !alreadyStopped {
		if km.started.Load() {
			// wait for startup to complete
			km.l.Trace("request stop is ensuring startup completed first")
			km.initializing.Wait()

			// force-close the socket listener
			km.mu.Lock()
			if km.listener != nil {
				km.listener.Close()
				km.l.Trace("kafka mock server listener terminated")
				km.listener = nil
			}
			km.mu.Unlock()

			// cancel any i/o tasks
			km.cancelFn()
		}
	}
}
''','''	if km.stopped.Swap(true) || !km.started.Load() {
		return
	}

	// wait for startup to complete
	km.l.Trace("request stop is ensuring startup completed first")
	km.initializing.Wait()

	km.closeListener()

	// cancel any i/o tasks
	km.cancelFn()
}

// closeListener force-closes the socket listener
func (km *KafkaMock) closeListener() {
	km.mu.Lock()
	defer km.mu.Unlock()

	if km.listener == nil {
		return
	}
	km.listener.Close()
	km.l.Trace("kafka mock server listener terminated")
	km.listener = nil
}
'''))
q("r-fetch-split",(F,'''	// establish which topics/partitions to fetch
	// the client assumes they pre-exist
	fds := []*fetchData{}
''','''	fds := fetchTargets(kc.ds, request)
	waitForRecords(kc, request, fds)
	response = fetchAnswer(request, fds)
	return
}

// establish which topics/partitions to fetch
// the client assumes they pre-exist
func fetchTargets(ds *kafkaDataStore, request *fetchRequestV2) []*fetchData {
	fds := []*fetchData{}
'''),(F,"		kt := kc.ds.getTopic((topic.Topic))\n","		kt := ds.getTopic(topic.Topic)\n"),(F,'''	expiration := time.Now()''','''	return fds
}

func waitForRecords(kc *kafkaClient, request *fetchRequestV2, fds []*fetchData) {
	expiration := time.Now()'''),(F,'''	frv2 := fetchResponseV2{''','''}

func fetchAnswer(request *fetchRequestV2, fds []*fetchData) fetchResponseV2 {
	frv2 := fetchResponseV2{'''),(F,'''	response = frv2
	return
''','''	return frv2
'''))
q("r-fetch-poll",(F,'''		more := false
		for _, fd := range fds {
			if fd.kp != nil {
				var rec *kafkaRecord
				fd.kp.lock()
				fd.hwm = int64(len(fd.kp.Records))
				if fd.offset < len(fd.kp.Records) {
					rec = fd.kp.Records[fd.offset]
				}
				fd.kp.unlock()

				if rec != nil {
					hasOne = true
					if fd.ms.appendMessage(rec, fd.maxSize) {
						more = true
						fd.offset++
					}
				}
			}
		}
''','''		more := false
		for _, fd := range fds {
			found, added := fd.poll()
			hasOne = hasOne || found
			more = more || added
		}
'''),(F,None,'''
// poll adds the partition's next record, if there is one and it fits.
func (fd *fetchData) poll() (found, added bool) {
	if fd.kp == nil {
		return
	}

	rec := fd.nextRecord()
	if rec == nil {
		return
	}

	found = true
	if added = fd.ms.appendMessage(rec, fd.maxSize); added {
		fd.offset++
	}
	return
}

func (fd *fetchData) nextRecord() *kafkaRecord {
	fd.kp.lock()
	defer fd.kp.unlock()

	count := len(fd.kp.Records)
	fd.hwm = int64(count)
	if fd.offset >= count {
		return nil
	}
	return fd.kp.Records[fd.offset]
}
'''))
q("r-fetch-poll-continue",(F,'''			if fd.kp != nil {
				var rec *kafkaRecord
				fd.kp.lock()
				fd.hwm = int64(len(fd.kp.Records))
				if fd.offset < len(fd.kp.Records) {
					rec = fd.kp.Records[fd.offset]
				}
				fd.kp.unlock()

				if rec != nil {
					hasOne = true
					if fd.ms.appendMessage(rec, fd.maxSize) {
						more = true
						fd.offset++
					}
				}
			}
''','''			if fd.kp == nil {
				continue
			}

			var rec *kafkaRecord
			fd.kp.lock()
			if n := len(fd.kp.Records); fd.offset < n {
				rec = fd.kp.Records[fd.offset]
			}
			fd.hwm = int64(len(fd.kp.Records))
			fd.kp.unlock()

			if rec == nil {
				continue
			}
			hasOne = true
			if !fd.ms.appendMessage(rec, fd.maxSize) {
				continue
			}
			fd.offset++
			more = true
'''))
q("r-fetch-answer-fn",(F,'''			fp := fetchResponsePartition{
				PartitionIndex: par.Partition,
				ErrorCode:      int16(fd.errCode),
				HighWatermark:  fd.hwm,
				Records:        fd.ms,
			}

			fr.Partitions = append(fr.Partitions, fp)
''','''			fr.Partitions = append(fr.Partitions, fd.answer(par.Partition))
'''),(F,None,'''
func (fd *fetchData) answer(partition int32) fetchResponsePartition {
	return fetchResponsePartition{
		PartitionIndex: partition,
		ErrorCode:      int16(fd.errCode),
		HighWatermark:  fd.hwm,
		Records:        fd.ms,
	}
}
'''))
q("r-lo-answer",(LO,'''			if kp == nil {
				rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: int16(UnknownTopicOrPartition)})
			} else {
				kp.lock()
				if p.Timestamp == -1 {
					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(kp.Records))})
				} else if p.Timestamp == -2 {
					if len(kp.Records) == 0 {
						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex})
					} else {
						msg := kp.Records[0]
						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp})
					}
				} else {
					// slow but this is just a mock
					offset := int64(0)
					ts := int64(0)
					for i := len(kp.Records) - 1; i >= 0; i-- {
						msg := kp.Records[i]
						if msg.Timestamp < p.Timestamp {
							offset = int64(i + 1)
							break
						}
						ts = msg.Timestamp
					}
					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: ts, Offset: offset})
				}
				kp.unlock()
			}
''','''			rpar := listOffsetResponsePartition{PartitionIndex: p.PartitionIndex}
			if kp == nil {
				rpar.ErrorCode = int16(UnknownTopicOrPartition)
			} else {
				rpar.Timestamp, rpar.Offset = kp.offsetFor(p.Timestamp)
			}
			rpars = append(rpars, rpar)
'''),(LO,None,'''
const (
	latestOffset   = -1
	earliestOffset = -2
)

// offsetFor looks up an offset by timestamp, which may be one of the sentinels.
func (kp *kafkaPartition) offsetFor(when int64) (ts, offset int64) {
	kp.lock()
	defer kp.unlock()

	switch when {
	case latestOffset:
		return time.Now().UnixMilli(), int64(len(kp.Records))
	case earliestOffset:
		if len(kp.Records) > 0 {
			ts = kp.Records[0].Timestamp
		}
		return ts, 0
	}

	// slow but this is just a mock
	for i := len(kp.Records); i > 0; i-- {
		msg := kp.Records[i-1]
		if msg.Timestamp < when {
			return ts, int64(i)
		}
		ts = msg.Timestamp
	}
	return ts, 0
}
'''))
q("r-of-helper",(OF,'''			if kp == nil {
				rpars = append(rpars, offsetFetchPartitionV1{PartitionIndex: pi, CommittedOffset: -1, ErrorCode: int16(UnknownTopicOrPartition)})
				continue
			}

			rpars = append(rpars, offsetFetchPartitionV1{
				PartitionIndex:  kp.Index,
				CommittedOffset: kp.groupCommittedOffset(request.GroupId),
				ErrorCode:       kp.ErrorCode,
				Metadata:        kp.Metadata,
			})
''','''			rpars = append(rpars, committedOffset(kp, pi, request.GroupId))
'''),(OF,None,'''
func committedOffset(kp *kafkaPartition, index int32, group string) (answer offsetFetchPartitionV1) {
	answer.PartitionIndex = index
	if kp == nil {
		answer.CommittedOffset = -1
		answer.ErrorCode = int16(UnknownTopicOrPartition)
		return
	}
	answer.CommittedOffset = kp.groupCommittedOffset(group)
	answer.ErrorCode = kp.ErrorCode
	answer.Metadata = kp.Metadata
	return
}
'''))
q("r-md-topic",(MD,'''		kt := kc.ds.getTopic(t)
		if kt == nil {
			topics = append(topics, topicsV1{ErrorCode: int16(UnknownTopicOrPartition), Name: t, Partitions: []partitionV1{}})
			continue
		}

		numbers := kt.partitionNumbers()
		partitions := make([]partitionV1, 0, len(numbers))
		for _, number := range numbers {
			partitions = append(partitions, partitionV1{PartitionIndex: number, LeaderId: kLeaderNode, ReplicaNodes: []int32{kLeaderNode}, IsrNodes: []int32{kLeaderNode}})
		}
		topics = append(topics, topicsV1{Name: t, Partitions: partitions})
''','''		topics = append(topics, describeTopic(t, kc.ds.getTopic(t)))
'''),(MD,None,'''
func describeTopic(name string, kt *kafkaTopic) topicsV1 {
	if kt == nil {
		return topicsV1{ErrorCode: int16(UnknownTopicOrPartition), Name: name, Partitions: []partitionV1{}}
	}

	numbers := kt.partitionNumbers()
	partitions := make([]partitionV1, len(numbers))
	for i, number := range numbers {
		nodes := []int32{kLeaderNode}
		partitions[i] = partitionV1{PartitionIndex: number, LeaderId: kLeaderNode, ReplicaNodes: nodes, IsrNodes: nodes}
	}
	return topicsV1{Name: name, Partitions: partitions}
}
'''))
q("r-sg-topic",(SG,'''		topic.mu.Lock()
		pars := make([]int32, 0, len(topic.Partitions))
		for _, par := range topic.Partitions {
			pars = append(pars, par.Index)
		}
		topic.mu.Unlock()

		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: pars})
''','''		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: topic.partitionNumbers()})
''') if False else (SG,'''		topic.mu.Lock()
''','''		// every partition of the topic
		topic.mu.Lock()
'''))
q("r-getmsg-int",(IU,'''	msgSize := binary.BigEndian.Uint32(inbound)
	if len(inbound) < (int(msgSize) + 4) {
		return
	}

	buf = bytes.NewBuffer(inbound[4 : 4+int(msgSize)])
	return
''','''	end := 4 + int(binary.BigEndian.Uint32(inbound))
	if end > len(inbound) {
		return nil
	}
	return bytes.NewBuffer(inbound[4:end])
'''))
q("r-send-loop",(KM,'''	number := []byte{0, 0, 0, 0}
	convertInt32(number, int32(payloadSize))
	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d response size: %v", km.port, err)
		return
	}

	convertInt32(number, int32(km.hdr.CorrelationId))
	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d correlation id: %v", km.port, err)
		return
	}

	if _, err = km.conn.Write(payload); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
''','''	size, correlation := make([]byte, 4), make([]byte, 4)
	convertInt32(size, int32(payloadSize))
	convertInt32(correlation, int32(km.hdr.CorrelationId))
	if err = km.write("size", size); err != nil {
		return
	}
	if err = km.write("correlation id", correlation); err != nil {
		return
	}
	if err = km.write("payload", payload); err != nil {
		return
	}
'''),(KM,None,'''
func (km *kafkaMessage) write(what string, b []byte) error {
	_, err := km.conn.Write(b)
	if err != nil {
		km.l.Errorf("error sending kafka %d %s: %v", km.port, what, err)
	}
	return err
}
'''))
q("r-post-new",(DS,'''	flatHeaders := make([]kafkaRecordHeader, 0, len(headers))
	for k, v := range headers {
		flatHeaders = append(flatHeaders, kafkaRecordHeader{HeaderKey: k, HeaderValue: bytes.Clone(v)})
	}

	record := &kafkaRecord{
		Attributes: attribs,
		Timestamp:  ts.UnixMilli(),
		Key:        bytes.Clone(key),
		Value:      bytes.Clone(value),
		Headers:    flatHeaders,
	}
	kp.Records = append(kp.Records, record)
''','''	kp.Records = append(kp.Records, newKafkaRecord(attribs, ts, key, value, headers))
'''),(DS,None,'''
func newKafkaRecord(attribs int8, ts time.Time, key, value []byte, headers map[string][]byte) *kafkaRecord {
	return &kafkaRecord{
		Attributes: attribs,
		Timestamp:  ts.UnixMilli(),
		Key:        bytes.Clone(key),
		Value:      bytes.Clone(value),
		Headers:    flattenHeaders(headers),
	}
}

func flattenHeaders(headers map[string][]byte) []kafkaRecordHeader {
	flat := make([]kafkaRecordHeader, 0, len(headers))
	for k, v := range headers {
		flat = append(flat, kafkaRecordHeader{HeaderKey: k, HeaderValue: bytes.Clone(v)})
	}
	return flat
}
'''))
q("r-ds-early",(DS,'''	topic, exists := ds.Topics[name]
	if !exists {
		topic = &kafkaTopic{
			Partitions: map[int32]*kafkaPartition{},
		}
		ds.Topics[name] = topic
	}
	return topic
''','''	if topic, exists := ds.Topics[name]; exists {
		return topic
	}

	topic := &kafkaTopic{Partitions: make(map[int32]*kafkaPartition)}
	ds.Topics[name] = topic
	return topic
'''),(DS,'''	partition, exists := kp.Partitions[number]
	if !exists {
		partition = &kafkaPartition{
			Index:                 number,
			Records:               []*kafkaRecord{},
			GroupCommittedOffsets: map[string]int64{},
		}
		kp.Partitions[number] = partition
	}
	return partition
''','''	if partition, exists := kp.Partitions[number]; exists {
		return partition
	}

	partition := newKafkaPartition(number)
	kp.Partitions[number] = partition
	return partition
'''),(DS,None,'''
func newKafkaPartition(number int32) *kafkaPartition {
	return &kafkaPartition{
		Index:                 number,
		Records:               make([]*kafkaRecord, 0),
		GroupCommittedOffsets: make(map[string]int64),
	}
}
'''))
q("r-header",(C,'''	var hdr kafkaHeader0
	next, obj := peekObject(reader, 0, reflect.TypeOf(hdr))
	if next < 0 {
		err = fmt.Errorf("header invalid")
		return
	}
	hdr, _ = obj.(kafkaHeader0)
''','''	next, hdr := peekHeader(reader)
	if next < 0 {
		err = fmt.Errorf("header invalid")
		return
	}
'''),(C,None,'''
func peekHeader(reader *bufio.Reader) (next int, hdr kafkaHeader0) {
	var obj any
	if next, obj = peekObject(reader, 0, reflect.TypeOf(hdr)); next >= 0 {
		hdr, _ = obj.(kafkaHeader0)
	}
	return
}
'''))
q("r-connected-flags",(C,'''	b := []byte{0}
	_, _, err = syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
	return err != nil
''','''	const flags = syscall.MSG_PEEK | syscall.MSG_DONTWAIT
	var probe [1]byte
	if _, _, err := syscall.Recvfrom(int(f.Fd()), probe[:], flags); err == nil {
		return false
	}
	return true
'''))
q("r-run-listen",(M,'''	// establish socket service
	iface := fmt.Sprintf(":%d", km.serverPort)
	listener, err := net.Listen("tcp", iface)
	if err != nil {
		panic(fmt.Sprintf("error opening kafka mock server socker: %v", err))
	}

	km.listener = listener
	cxnNumber := 0

	km.l.Tracef("kafka mock server is listening on %s", iface)
	km.initializing.Done()
''','''	listener := km.listen()
	cxnNumber := 0
'''),(M,None,'''
// listen establishes the socket service
func (km *KafkaMock) listen() net.Listener {
	iface := fmt.Sprintf(":%d", km.serverPort)
	listener, err := net.Listen("tcp", iface)
	if err != nil {
		panic(fmt.Sprintf("error opening kafka mock server socker: %v", err))
	}

	km.listener = listener
	km.l.Tracef("kafka mock server is listening on %s", iface)
	km.initializing.Done()
	return listener
}
'''))
q("r-run-loop",(M,'''		select {
		case <-km.l.Done():
			// don't accept more connections
			connection.Close()
			continue
		default:
			// continue
		}
''','''		if km.isStopping() {
			// don't accept more connections
			connection.Close()
			continue
		}
'''),(M,None,'''
func (km *KafkaMock) isStopping() bool {
	select {
	case <-km.l.Done():
		return true
	default:
	}
	return false
}
'''),(M,'''		if err != nil {
			if !wasSocketClosed(err) {
				panic(fmt.Sprintf("accept error: %v", err))
			}
			break
		}
''','''		if wasSocketClosed(err) {
			break
		}
		if err != nil {
			panic(fmt.Sprintf("accept error: %v", err))
		}
'''))

q("r-fetch-flat",(F,"maxSize: int(par.PartitionMaxBytes), ms","maxSize: int(par.PartitionMaxBytes), par: par.Partition, ms"),(F,"		hwm     int64\n	}","		hwm     int64\n		par     int32\n	}"),
 (F,"				PartitionIndex: par.Partition,","				PartitionIndex: fd.par,"),(F,"		for _, par := range topic.Partitions {\n			fd := fds[n]","		for range topic.Partitions {\n			fd := fds[n]"))
q("r-fetch-perpos",(F,"	n := 0\n	for _, topic := range request.Topics {","	n := -1\n	for _, topic := range request.Topics {"),(F,"			fd := fds[n]\n			n++\n","			n++\n			fd := fds[n]\n"))
q("r-fetch-topicval",(F,"		fr := &fetchResponse{","		fr := fetchResponse{"),(F,"*fr)","fr)"))
q("r-fetch-prealloc",(F,"			Partitions: []fetchResponsePartition{},","			Partitions: make([]fetchResponsePartition, len(topic.Partitions)),"),(F,"		for _, par := range topic.Partitions {\n			fd := fds[n]","		for i, par := range topic.Partitions {\n			fd := fds[n]"),(F,"			fr.Partitions = append(fr.Partitions, fp)\n","			fr.Partitions[i] = fp\n"))
