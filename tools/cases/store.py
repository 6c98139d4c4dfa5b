M="kafka-mock.go"; DS="datastore.go"; LO="list_offsets.go"; OC="offset_commit.go"; OF="offset_fetch.go"; MD="metadata.go"; FC="find_coordinator.go"; SG="sync_group.go"; JG="join_group.go"; F="fetch.go"; AV="api_versions.go"; HB="heartbeat.go"
CASES=[]
def k(name,props,*edits): CASES.append((name,"kill",props.split(),list(edits)))
def q(name,*edits): CASES.append((name,"quiet",[],list(edits)))
CT='''	ds.mu.Lock()
	defer ds.mu.Unlock()

	topic, exists := ds.Topics[name]
	if !exists {
		topic = &kafkaTopic{
			Partitions: map[int32]*kafkaPartition{},
		}
		ds.Topics[name] = topic
	}
	return topic
'''
GT='''	ds.mu.Lock()
	defer ds.mu.Unlock()

	return ds.Topics[name]
'''
CP='''	kp.mu.Lock()
	defer kp.mu.Unlock()

	partition, exists := kp.Partitions[number]
	if !exists {
		partition = &kafkaPartition{
			Index:                 number,
			Records:               []*kafkaRecord{},
			GroupCommittedOffsets: map[string]int64{},
		}
		kp.Partitions[number] = partition
	}
	return partition
'''
PN='''	kp.mu.Lock()
	defer kp.mu.Unlock()

	numbers := make([]int32, 0, len(kp.Partitions))
	for number := range kp.Partitions {
		numbers = append(numbers, number)
	}
	sort.Slice'''
PR='''	kp.mu.Lock()
	defer kp.mu.Unlock()

	flatHeaders := make([]kafkaRecordHeader, 0, len(headers))
	for k, v := range headers {
		flatHeaders = append(flatHeaders, kafkaRecordHeader{HeaderKey: k, HeaderValue: bytes.Clone(v)})
	}

	record := &kafkaRecord{
		Attributes: attribs,
		Timestamp:  ts.UnixMilli(),
		Key:        bytes.Clone(key),
		Value:      bytes.Clone(value),
		Headers:    flatHeaders,
	}
	kp.Records = append(kp.Records, record)
'''
GCO='''	kp.mu.Lock()
	defer kp.mu.Unlock()

	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.GroupCommittedOffsets[group] = 0
	}
	return offset
'''
COMMIT='''				kp.lock()
				offset := kp.GroupCommittedOffsets[request.GroupId]
				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
				kp.unlock()
'''
OCP='''			var kp *kafkaPartition
			if kt != nil {
				kp = kt.getPartition(par.PartitionIndex)
			}
'''
SCG='''	kt := km.ds.getTopic(topic)
	if kt != nil {
		kp := kt.getPartition(int32(partition))
		if kp != nil {
			kp.mu.Lock()
			defer kp.mu.Unlock()

			kp.GroupCommittedOffsets[group] = offset
		}
	}
'''
LATEST="rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(kp.Records))})"
EARLY='''					if len(kp.Records) == 0 {
						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex})
					} else {
						msg := kp.Records[0]
						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp})
					}
'''
OFP='''			if kp == nil {
				rpars = append(rpars, offsetFetchPartitionV1{PartitionIndex: pi, CommittedOffset: -1, ErrorCode: int16(UnknownTopicOrPartition)})
				continue
			}

			rpars = append(rpars, offsetFetchPartitionV1{
				PartitionIndex:  kp.Index,
				CommittedOffset: kp.groupCommittedOffset(request.GroupId),
				ErrorCode:       kp.ErrorCode,
				Metadata:        kp.Metadata,
			})
'''
MDT='''		kt := kc.ds.getTopic(t)
		if kt == nil {
			topics = append(topics, topicsV1{ErrorCode: int16(UnknownTopicOrPartition), Name: t, Partitions: []partitionV1{}})
			continue
		}

		numbers := kt.partitionNumbers()
		partitions := make([]partitionV1, 0, len(numbers))
		for _, number := range numbers {
			partitions = append(partitions, partitionV1{PartitionIndex: number, LeaderId: kLeaderNode, ReplicaNodes: []int32{kLeaderNode}, IsrNodes: []int32{kLeaderNode}})
		}
		topics = append(topics, topicsV1{Name: t, Partitions: partitions})
'''
SGA='''	for name, topic := range ds.Topics {
		topic.mu.Lock()
		pars := make([]int32, 0, len(topic.Partitions))
		for _, par := range topic.Partitions {
			pars = append(pars, par.Index)
		}
		topic.mu.Unlock()

		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: pars})
	}
'''
# ---- C01 locking
k("c01-get-nolock","C01",(DS,GT,"	return ds.Topics[name]\n"))
k("c01-create-fastpath","C01",(DS,CT,"	if t := ds.Topics[name]; t != nil {\n		return t\n	}\n"+CT))
k("c01-post-headers-then-lock","C01",(DS,PR,PR.replace("	kp.mu.Lock()\n	defer kp.mu.Unlock()\n\n","	n := len(kp.Records)\n	_ = n\n	kp.mu.Lock()\n	defer kp.mu.Unlock()\n\n")))
k("c01-post-early-unlock","C01",(DS,PR,PR.replace("	defer kp.mu.Unlock()\n","").replace("	record :=","	kp.mu.Unlock()\n	record :=")))
k("c01-wrong-lock","C01",(M,"			kp.mu.Lock()\n			defer kp.mu.Unlock()\n","			kt.mu.Lock()\n			defer kt.mu.Unlock()\n"))
k("c01-gco-read-unlocked","C01",(DS,GCO,'''	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.mu.Lock()
		kp.GroupCommittedOffsets[group] = 0
		kp.mu.Unlock()
	}
	return offset
'''))
k("c01-commit-relock","C01",(OC,COMMIT,COMMIT.replace("				kp.unlock()\n","").replace("				if offset","				kp.unlock()\n				if offset")))
k("c01-lo-len-outside","C01",(LO,"				kp.lock()\n				if p.Timestamp == -1 {","				last := int64(len(kp.Records))\n				kp.lock()\n				if p.Timestamp == -1 {"),(LO,"Offset: int64(len(kp.Records))","Offset: last"))
k("c01-fetch-outside","C01",(F,'''				fd.kp.lock()
				fd.hwm = int64(len(fd.kp.Records))
				if fd''','''				fd.hwm = int64(len(fd.kp.Records))
				fd.kp.lock()
				if fd'''))
k("c01-sync-nolock","C01",(SG,"		topic.mu.Lock()\n",""),(SG,"		topic.mu.Unlock()\n",""))
k("c01-numbers-escape","C01",(DS,PN,'''	kp.mu.Lock()
	pars := kp.Partitions
	kp.mu.Unlock()

	numbers := make([]int32, 0, len(pars))
	for number := range pars {
		numbers = append(numbers, number)
	}
	sort.Slice'''))
k("c01-clients-nolock","C01",(M,"			km.mu.Lock()\n			delete(km.clients, id)\n			km.active.Done()\n			km.wg.Done()\n			km.mu.Unlock()\n","			delete(km.clients, id)\n			km.active.Done()\n			km.wg.Done()\n"))
k("c01-rlock-write","C01",(DS,"		mu     sync.Mutex\n		Topics","		mu     sync.RWMutex\n		Topics"),(DS,CT,CT.replace("Lock","RLock").replace("Unlock","RUnlock").replace("RUnRLock","RUnlock").replace("UnRLock","RUnlock")))
q("c01-q-rwmutex",(DS,"		mu     sync.Mutex\n		Topics","		mu     sync.RWMutex\n		Topics"),(DS,GT,"	ds.mu.RLock()\n	defer ds.mu.RUnlock()\n\n	return ds.Topics[name]\n"))
q("c01-q-nodefer",(DS,GT,"	ds.mu.Lock()\n	t := ds.Topics[name]\n	ds.mu.Unlock()\n	return t\n"))
q("c01-q-helper",(DS,CT,'''	ds.mu.Lock()
	defer ds.mu.Unlock()

	return ds.topicLocked(name)
}

// the caller holds ds.mu
func (ds *kafkaDataStore) topicLocked(name string) *kafkaTopic {
	topic, exists := ds.Topics[name]
	if exists {
		return topic
	}
	topic = &kafkaTopic{
		Partitions: map[int32]*kafkaPartition{},
	}
	ds.Topics[name] = topic
	return topic
'''))
q("c01-q-locked-fn",(M,SCG,'''	kt := km.ds.getTopic(topic)
	if kt == nil {
		return
	}
	kp := kt.getPartition(int32(partition))
	if kp == nil {
		return
	}
	kp.withLock(func() {
		kp.GroupCommittedOffsets[group] = offset
	})
'''),(DS,"func (kp *kafkaPartition) unlock() {",'''func (kp *kafkaPartition) withLock(f func()) {
	kp.lock()
	defer kp.unlock()
	f()
}

func (kp *kafkaPartition) unlock() {'''))
q("c01-q-post-build-first",(DS,PR,'''	flat := make([]kafkaRecordHeader, 0, len(headers))
	for k, v := range headers {
		flat = append(flat, kafkaRecordHeader{HeaderKey: k, HeaderValue: bytes.Clone(v)})
	}

	record := kafkaRecord{Attributes: attribs, Timestamp: ts.UnixMilli(), Headers: flat}
	record.Key = bytes.Clone(key)
	record.Value = bytes.Clone(value)

	kp.lock()
	kp.Records = append(kp.Records, &record)
	kp.unlock()
'''))
q("c01-q-double-check",(DS,CT,'''	if t := ds.getTopic(name); t != nil {
		return t
	}

'''+CT))
q("c01-q-copy-hdr",(DS,PR,PR.replace("bytes.Clone(value)","cloneBytes(value)")),(DS,"func (kp *kafkaPartition) unlock() {",'''func cloneBytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

func (kp *kafkaPartition) unlock() {'''))
# ---- C02
k("c02-early-return","C02",(OC,COMMIT,COMMIT.replace("				if offset","				if par.CommittedOffset < 0 {\n					continue\n				}\n				if offset")))
k("c02-order","C02",(DS,"func (kp *kafkaPartition) unlock() {",'''func (kp *kafkaTopic) total(ds *kafkaDataStore) int {
	kp.mu.Lock()
	defer kp.mu.Unlock()
	ds.mu.Lock()
	defer ds.mu.Unlock()
	return len(ds.Topics) + len(kp.Partitions)
}

func (kp *kafkaPartition) unlock() {'''),(MD,"		numbers := kt.partitionNumbers()\n","		kc.l.Tracef(\"%d\", kt.total(kc.ds))\n		numbers := kt.partitionNumbers()\n"))
k("c02-double","C02",(OC,"				offset := kp.GroupCommittedOffsets[request.GroupId]\n","				offset := kp.groupCommittedOffset(request.GroupId)\n"))
k("c02-sleep-locked","C02",(F,'''				fd.kp.unlock()

''','''				if rec == nil {
					time.Sleep(time.Millisecond)
				}
				fd.kp.unlock()

'''))
k("c02-write-locked","C02",(SG,"	mpas := make","	time.Sleep(time.Second)\n	mpas := make"),(SG,'	"errors"\n','	"errors"\n	"time"\n'))
k("c02-two-partitions","C02",(F,'''	hasOne := false
''','''	hasOne := false
	for _, fd := range fds {
		if fd.kp != nil {
			fd.kp.lock()
		}
	}
	for _, fd := range fds {
		if fd.kp != nil {
			fd.kp.unlock()
		}
	}
'''))
q("c02-q-defer-closure",(OC,COMMIT,'''				func() {
					kp.lock()
					defer kp.unlock()
					if kp.GroupCommittedOffsets[request.GroupId] < par.CommittedOffset {
						kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
						kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
					}
				}()
'''))
q("c02-q-method",(OC,COMMIT,'''				if kp.advance(request.GroupId, par.CommittedOffset) {
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
'''),(DS,"func (kp *kafkaPartition) unlock() {",'''func (kp *kafkaPartition) advance(group string, to int64) bool {
	kp.mu.Lock()
	defer kp.mu.Unlock()

	if kp.GroupCommittedOffsets[group] >= to {
		return false
	}
	kp.GroupCommittedOffsets[group] = to
	return true
}

func (kp *kafkaPartition) unlock() {'''))
# ---- C03
k("c03-two-sections","C03",(DS,CP,'''	if p := kp.getPartition(number); p != nil {
		return p
	}

	kp.mu.Lock()
	defer kp.mu.Unlock()

	partition := &kafkaPartition{
		Index:                 number,
		Records:               []*kafkaRecord{},
		GroupCommittedOffsets: map[string]int64{},
	}
	kp.Partitions[number] = partition
	return partition
'''))
k("c03-alias-key","C03 C22",(DS,"Key:        bytes.Clone(key)","Key:        key"))
k("c03-alias-val","C03 C22",(DS,"Value:      bytes.Clone(value)","Value:      value[:len(value):len(value)]"))
k("c03-alias-hdr","C03 C22",(DS,"HeaderValue: bytes.Clone(v)","HeaderValue: v"))
k("c03-prepend","C03",(DS,"	kp.Records = append(kp.Records, record)\n","	kp.Records = append([]*kafkaRecord{record}, kp.Records...)\n"))
k("c03-trim","C03",(DS,"	kp.Records = append(kp.Records, record)\n","	kp.Records = append(kp.Records, record)\n	if len(kp.Records) > 10000 {\n		kp.Records = kp.Records[1:]\n	}\n"))
k("c03-dedupe","C03",(DS,"	kp.Records = append(kp.Records, record)\n","	if n := len(kp.Records); n > 0 && bytes.Equal(kp.Records[n-1].Key, key) && bytes.Equal(kp.Records[n-1].Value, value) && kp.Records[n-1].Timestamp == record.Timestamp {\n		return\n	}\n	kp.Records = append(kp.Records, record)\n"))
k("c03-sorted","C03",(DS,"	kp.Records = append(kp.Records, record)\n","	kp.Records = append(kp.Records, record)\n	sort.SliceStable(kp.Records, func(i, j int) bool { return kp.Records[i].Timestamp < kp.Records[j].Timestamp })\n"))
k("c03-ts-now","C03",(DS,"Timestamp:  ts.UnixMilli()","Timestamp:  time.Now().UnixMilli()"))
k("c03-ts-sec","C03",(DS,"Timestamp:  ts.UnixMilli()","Timestamp:  ts.Unix() * 1000"))
k("c03-swap","C03",(M,"kp.postRecord(0, timestamp, key, value, headers)","kp.postRecord(0, timestamp, value, key, headers)"))
k("c03-part-zero","C03",(M,'''	kp := kt.createPartition(int32(partition))
	kp.postRecord(0, timestamp''','''	kp := kt.createPartition(int32(int8(partition)))
	kp.postRecord(0, timestamp'''))
k("c03-topic-trim","C03",(DS,"	topic, exists := ds.Topics[name]\n	if","	name = strings.TrimSpace(name)\n	topic, exists := ds.Topics[name]\n	if"),(DS,'	"sort"\n','	"sort"\n	"strings"\n'))
k("c03-recreate","C03",(DS,"	if !exists {\n		partition = ","	if !exists || len(partition.Records) == 0 {\n		partition = "))
k("c03-index","C03 C15 C20",(DS,"			Index:                 number,\n","			Index:                 int32(len(kp.Partitions)),\n"))
q("c03-q-simplepost",(M,'''	kt := km.ds.createTopic(topic)
	kp := kt.createPartition(int32(partition))
	kp.postRecord(0, time.Now(), key, value, nil)
''','''	km.ExtendedPost(topic, partition, key, value, nil, time.Now())
'''))
q("c03-q-post-helper",(M,'''	kt := km.ds.createTopic(topic)
	kp := kt.createPartition(int32(partition))
	kp.postRecord(0, time.Now(), key, value, nil)
''','''	km.partition(topic, partition).postRecord(0, time.Now(), key, value, nil)
'''),(M,'''	kt := km.ds.createTopic(topic)
	kp := kt.createPartition(int32(partition))
	kp.postRecord(0, timestamp, key, value, headers)
''','''	km.partition(topic, partition).postRecord(0, timestamp, key, value, headers)
'''),(M,"func (km *KafkaMock) run() {",'''func (km *KafkaMock) partition(topic string, partition int) *kafkaPartition {
	return km.ds.createTopic(topic).createPartition(int32(partition))
}

func (km *KafkaMock) run() {'''))
# headers written by index into a list of len(headers) while ranging over the map:
# C28 reports the index as undecided (see DESIGN.md)
# ---- C12
k("c12-le","C12",(OC,"offset < par.CommittedOffset","offset != par.CommittedOffset"))
k("c12-group","C12",(OC,"kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset","kp.GroupCommittedOffsets[request.MemberId] = par.CommittedOffset"))
k("c12-plus1","C12",(OC,"= par.CommittedOffset\n","= par.CommittedOffset + 1\n"))
k("c12-clamp","C12",(OC,"				if offset <","				if n := int64(len(kp.Records)); par.CommittedOffset > n {\n					par.CommittedOffset = n\n				}\n				if offset <"))
k("c12-of-plus","C12",(DS,"	return offset\n","	return min(offset, int64(len(kp.Records)))\n"))
k("c12-of-default","C12",(DS,"		kp.GroupCommittedOffsets[group] = 0\n	}","		kp.GroupCommittedOffsets[group] = int64(len(kp.Records))\n	}\n	offset = kp.GroupCommittedOffsets[group]\n"))
k("c12-set-max","C12",(M,"			kp.GroupCommittedOffsets[group] = offset\n","			if offset > kp.GroupCommittedOffsets[group] {\n				kp.GroupCommittedOffsets[group] = offset\n			}\n"))
k("c12-set-all","C12",(M,"			kp.GroupCommittedOffsets[group] = offset\n","			for g := range kp.GroupCommittedOffsets {\n				kp.GroupCommittedOffsets[g] = offset\n			}\n			kp.GroupCommittedOffsets[group] = offset\n"))
k("c12-wrong-part","C12",(OC,"kp = kt.getPartition(par.PartitionIndex)","kp = kt.getPartition(int32(len(rtopic.Partitions)))"))
k("c12-toctou","C12",(OC,COMMIT,'''				offset := kp.groupCommittedOffset(request.GroupId)
				if offset < par.CommittedOffset {
					kp.lock()
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					kp.unlock()
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
'''))
k("c12-fetch-reset","C12 C14",(F,"				fd.errCode = OffsetOutOfRange\n","				fd.errCode = OffsetOutOfRange\n				kp.lock()\n				clear(kp.GroupCommittedOffsets)\n				kp.unlock()\n"))
k("c12-leave-clear","C12 C14",("leave_group.go","	response = &leave",'''	kc.ds.mu.Lock()
	for _, t := range kc.ds.Topics {
		t.mu.Lock()
		for _, p := range t.Partitions {
			p.lock()
			delete(p.GroupCommittedOffsets, "")
			p.unlock()
		}
		t.mu.Unlock()
	}
	kc.ds.mu.Unlock()

	response = &leave'''))
q("c12-q-swap",(OC,"offset < par.CommittedOffset","par.CommittedOffset > offset"))
q("c12-q-exists",(OC,COMMIT,'''				kp.lock()
				prior, known := kp.GroupCommittedOffsets[request.GroupId]
				if known && prior >= par.CommittedOffset {
					kc.l.Tracef("kafka offset stays at %d", prior)
				} else if !known && par.CommittedOffset <= 0 {
					kc.l.Tracef("kafka offset stays at 0")
				} else {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
				}
				kp.unlock()
'''))
q("c12-q-max",(OC,COMMIT,'''				kp.lock()
				moved := max(kp.GroupCommittedOffsets[request.GroupId], par.CommittedOffset)
				kp.GroupCommittedOffsets[request.GroupId] = moved
				kp.unlock()
'''))
q("c12-q-noinit",(DS,GCO,'''	kp.mu.Lock()
	defer kp.mu.Unlock()

	return kp.GroupCommittedOffsets[group]
'''))
# ---- C13
k("c13-latest-1","C13",(LO,"Offset: int64(len(kp.Records))","Offset: int64(len(kp.Records) - 1)"))
q("c13-q-latest-prev",(LO,"				kp.lock()\n				if p.Timestamp == -1 {","				kp.lock()\n				count := len(kp.Records)\n				kp.unlock()\n				kp.lock()\n				if p.Timestamp == -1 {"),(LO,"Offset: int64(len(kp.Records))","Offset: int64(count)"))
k("c13-early-ts","C13",(LO,"msg := kp.Records[0]\n","msg := kp.Records[len(kp.Records)-1]\n"))
k("c13-early-off","C13",(LO,"						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp})","						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp, Offset: min(1, int64(len(kp.Records)-1))})"))
k("c13-sentinel-swap","C13",(LO,"if p.Timestamp == -1 {","if p.Timestamp == -1 && t.Name != \"\" {"))
k("c13-neg","C13",(LO,"} else if p.Timestamp == -2 {","} else if p.Timestamp < 0 && p.Timestamp != -2 {"))
q("c13-q-switch",(LO,"				if p.Timestamp == -1 {\n","				const latest, earliest = -1, -2\n				if p.Timestamp == latest {\n"),(LO,"} else if p.Timestamp == -2 {","} else if p.Timestamp == earliest {"))
q("c13-q-var",(LO,LATEST,'''end := int64(len(kp.Records))
					entry := listOffsetResponsePartition{PartitionIndex: p.PartitionIndex}
					entry.Timestamp = time.Now().UnixMilli()
					entry.Offset = end
					rpars = append(rpars, entry)'''))
q("c13-q-early",(LO,EARLY,'''					entry := listOffsetResponsePartition{PartitionIndex: p.PartitionIndex}
					if len(kp.Records) > 0 {
						entry.Timestamp = kp.Records[0].Timestamp
					}
					rpars = append(rpars, entry)
'''))
# ---- C14
k("c14-lo-create","C14",(LO,"kt := kc.ds.getTopic(t.Name)","kt := kc.ds.createTopic(t.Name)"))
k("c14-of-noerr","C14",(OF,"CommittedOffset: -1, ErrorCode: int16(UnknownTopicOrPartition)}","CommittedOffset: -1}"))
k("c14-oc-code","C14",(OC,"				rpar.ErrorCode = int16(UnknownTopicOrPartition)\n","				rpar.ErrorCode = int16(CorruptMessage)\n"))
k("c14-md-empty","C14",(MD,"if kt == nil {","if kt == nil || len(kt.partitionNumbers()) == 0 {"))
k("c14-carry","C14 C12",(OC,"	for _, topic := range request.Topics {\n		kt :=","	var kp *kafkaPartition\n	for _, topic := range request.Topics {\n		kt :="),(OC,"			var kp *kafkaPartition\n",""))
k("c14-kt-carry","C14",(LO,"	for _, t := range request.Topics {\n		kt := kc.ds.getTopic(t.Name)\n","	var kt *kafkaTopic\n	for _, t := range request.Topics {\n		if x := kc.ds.getTopic(t.Name); x != nil {\n			kt = x\n		}\n"))
q("c14-q-find",(OC,OCP,'''			kp := kc.ds.findPartition(topic.Name, par.PartitionIndex)
'''),(OC,"		kt := kc.ds.getTopic(topic.Name)\n",""),(DS,"func (kp *kafkaPartition) unlock() {",'''func (ds *kafkaDataStore) findPartition(topic string, number int32) *kafkaPartition {
	kt := ds.getTopic(topic)
	if kt == nil {
		return nil
	}
	return kt.getPartition(number)
}

func (kp *kafkaPartition) unlock() {'''))
q("c14-q-continue",(OC,'''			} else {
				rpar.ErrorCode = int16(UnknownTopicOrPartition)
			}
			rtopic''','''			}
			if kp == nil {
				rpar.ErrorCode = int16(UnknownTopicOrPartition)
			}
			rtopic'''))
# ---- C15
k("c15-of-break","C15",(OF,OFP,OFP.replace("				continue\n","				break\n")))
k("c15-lo-name","C15",(LO,"			Name:       t.Name,\n","			Name:       request.Topics[0].Name,\n"))
k("c15-md-skip","C15",(MD,MDT,"		if t == \"\" {\n			continue\n		}\n"+MDT))
k("c15-oc-dedupe","C15",(OC,"		rtopics = append(rtopics, rtopic)\n","		if len(rtopics) == 0 || rtopics[len(rtopics)-1].Name != topic.Name {\n			rtopics = append(rtopics, rtopic)\n		}\n"))
k("c15-of-index","C15",(OF,"offsetFetchPartitionV1{PartitionIndex: pi, CommittedOffset: -1","offsetFetchPartitionV1{PartitionIndex: int32(len(rpars)), CommittedOffset: -1"))
k("c15-lo-limit","C15",(LO,"		for _, p := range t.Parititions {\n","		for i, p := range t.Parititions {\n			if i == 1000 {\n				break\n			}\n"))
k("c15-fetch-drop","C15 C10",(F,"			fr.Partitions = append(fr.Partitions, fp)\n","			if fp.ErrorCode == 0 || len(topic.Partitions) == 1 {\n				fr.Partitions = append(fr.Partitions, fp)\n			}\n"))
q("c15-q-indexed",(OF,"		rpars := make([]offsetFetchPartitionV1, 0, len(rt.PartitionIndexes))\n		for _, pi := range rt.PartitionIndexes {\n","		rpars := make([]offsetFetchPartitionV1, 0, len(rt.PartitionIndexes))\n		for i := 0; i < len(rt.PartitionIndexes); i++ {\n			pi := rt.PartitionIndexes[i]\n"))
q("c15-q-pi",(OF,"PartitionIndex:  kp.Index","PartitionIndex:  pi"))
q("c15-q-helper",(OF,OFP,'''			rpars = append(rpars, committed(kp, pi, request.GroupId))
'''),(OF,"func offsetFetchV1(",'''func committed(kp *kafkaPartition, pi int32, group string) offsetFetchPartitionV1 {
	if kp == nil {
		return offsetFetchPartitionV1{PartitionIndex: pi, CommittedOffset: -1, ErrorCode: int16(UnknownTopicOrPartition)}
	}

	return offsetFetchPartitionV1{
		PartitionIndex:  pi,
		CommittedOffset: kp.groupCommittedOffset(group),
		ErrorCode:       kp.ErrorCode,
		Metadata:        kp.Metadata,
	}
}

func offsetFetchV1('''))
q("c15-q-md-helper",(MD,MDT,'''		topics = append(topics, describeTopic(kc.ds, t))
'''),(MD,"func metadataV1(",'''func describeTopic(ds *kafkaDataStore, name string) topicsV1 {
	kt := ds.getTopic(name)
	if kt == nil {
		return topicsV1{ErrorCode: int16(UnknownTopicOrPartition), Name: name, Partitions: []partitionV1{}}
	}

	answer := topicsV1{Name: name, Partitions: []partitionV1{}}
	for _, number := range kt.partitionNumbers() {
		answer.Partitions = append(answer.Partitions, partitionV1{PartitionIndex: number, LeaderId: kLeaderNode, ReplicaNodes: []int32{kLeaderNode}, IsrNodes: []int32{kLeaderNode}})
	}
	return answer
}

func metadataV1('''))
# ---- C19
k("c19-fc-node","C19",(FC,"NodeId: kLeaderNode,","NodeId: 1,"))
k("c19-port","C19",(FC,"Port:   int32(kc.serverPort)","Port:   int32(kc.clientPort)"))
k("c19-leader","C19",(MD,"LeaderId: kLeaderNode, Repl","LeaderId: number, Repl"))
k("c19-ctrl","C19",(MD,"		ControllerId: kLeaderNode,\n",""))
k("c19-isr","C19",(MD,"IsrNodes: []int32{kLeaderNode}","IsrNodes: []int32{0}"))
k("c19-miss-part","C19",(MD,"		for _, number := range numbers {\n","		for _, number := range numbers {\n			if number < 0 {\n				continue\n			}\n"))
k("c19-count","C19",(MD,"PartitionIndex: number,","PartitionIndex: number - number + int32(len(partitions)),"))
k("c19-host","C19",(MD,"Host: \"localhost\"","Host: kc.conn.RemoteAddr().String()"))
q("c19-q-broker",(MD,"			{NodeId: kLeaderNode, Host: \"localhost\", Port: int32(kc.serverPort)},\n","			kc.broker(),\n"),(MD,"func metadataV1(",'''func (kc *kafkaClient) broker() brokersV1 {
	var b brokersV1
	b.NodeId = kLeaderNode
	b.Host = "localhost"
	b.Port = int32(kc.serverPort)
	return b
}

func metadataV1('''))
q("c19-q-nodes",(MD,"			partitions = append(partitions, partitionV1{PartitionIndex: number, LeaderId: kLeaderNode, ReplicaNodes: []int32{kLeaderNode}, IsrNodes: []int32{kLeaderNode}})","			nodes := []int32{kLeaderNode}\n			partitions = append(partitions, partitionV1{PartitionIndex: number, LeaderId: kLeaderNode, ReplicaNodes: nodes, IsrNodes: nodes})"))
# ---- C20
k("c20-skip","C20",(SG,"		mpas = append(mpas","		if len(pars) == 0 {\n			continue\n		}\n		mpas = append(mpas"))
k("c20-idx","C20",(SG,"			pars = append(pars, par.Index)\n","			pars = append(pars, par.Index-par.Index+int32(len(pars)))\n"))
k("c20-hoist","C20",(SG,"	for name, topic := range ds.Topics {\n		topic.mu.Lock()\n		pars := make([]int32, 0, len(topic.Partitions))\n","	pars := make([]int32, 0, 16)\n	for name, topic := range ds.Topics {\n		topic.mu.Lock()\n"))
k("c20-hoist-reuse","C20",(SG,"	for name, topic := range ds.Topics {\n		topic.mu.Lock()\n		pars := make([]int32, 0, len(topic.Partitions))\n","	pars := make([]int32, 0, 16)\n	for name, topic := range ds.Topics {\n		topic.mu.Lock()\n		pars = pars[:0]\n"))

q("c20-q-key",(SG,"		for _, par := range topic.Partitions {\n			pars = append(pars, par.Index)\n","		for number := range topic.Partitions {\n			pars = append(pars, number)\n"))
q("c20-q-numbers",(SG,SGA,'''	for name, topic := range ds.Topics {
		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: topic.partitionNumbers()})
	}
'''))
q("c20-q-sorted",(SG,SGA,'''	names := make([]string, 0, len(ds.Topics))
	for name := range ds.Topics {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: ds.Topics[name].partitionNumbers()})
	}
'''),(SG,'	"errors"\n','	"errors"\n	"sort"\n'))
q("c20-q-unlock-early",(SG,"	ds.mu.Lock()\n	defer ds.mu.Unlock()\n\n	mpas","	ds.mu.Lock()\n\n	mpas"),(SG,"	a := memberAssignment{\n","	ds.mu.Unlock()\n\n	a := memberAssignment{\n"))

k("c03-key-null","C03",(DS,"bytes.Clone(key)","append([]byte(nil), key...)"))
k("c03-hdr-made-short","C03",(DS,'''	flatHeaders := make([]kafkaRecordHeader, 0, len(headers))
	for k, v := range headers {
		flatHeaders = append(flatHeaders, kafkaRecordHeader{HeaderKey: k, HeaderValue: bytes.Clone(v)})
	}
''','''	flatHeaders := make([]kafkaRecordHeader, len(headers))
	n := 0
	for k, v := range headers {
		if k == "" {
			continue
		}
		flatHeaders[n] = kafkaRecordHeader{HeaderKey: k, HeaderValue: bytes.Clone(v)}
		n++
	}
'''))
q("c20-q-made",(SG,'''		pars := make([]int32, 0, len(topic.Partitions))
		for _, par := range topic.Partitions {
			pars = append(pars, par.Index)
		}
''','''		pars := make([]int32, len(topic.Partitions))
		i := 0
		for number := range topic.Partitions {
			pars[i] = number
			i++
		}
'''))
