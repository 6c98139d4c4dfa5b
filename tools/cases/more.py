M="kafka-mock.go"; DS="datastore.go"; LO="list_offsets.go"; JG="join_group.go"; HB="heartbeat.go"; LG="leave_group.go"; SG="sync_group.go"; FC="find_coordinator.go"; E="encoder.go"
CASES=[]
def k(name,props,*edits): CASES.append((name,"kill",props.split(),list(edits)))
def q(name,*edits): CASES.append((name,"quiet",[],list(edits)))
SC='''					offset := int64(0)
					ts := int64(0)
					for i := len(kp.Records) - 1; i >= 0; i-- {
						msg := kp.Records[i]
						if msg.Timestamp < p.Timestamp {
							offset = int64(i + 1)
							break
						}
						ts = msg.Timestamp
					}
'''
# --- searching by time
k("t-le","C25",(LO,"if msg.Timestamp < p.Timestamp {","if msg.Timestamp <= p.Timestamp {"))
k("t-off-i","C25",(LO,"offset = int64(i + 1)","offset = int64(i)"))
k("t-start","C25",(LO,"for i := len(kp.Records) - 1; i >= 0; i-- {","for i := len(kp.Records) - 2; i >= 0; i-- {"))
k("t-stop-1","C25",(LO,"for i := len(kp.Records) - 1; i >= 0; i-- {","for i := len(kp.Records) - 1; i > 0; i-- {"))
k("t-ts-before","C25",(LO,"						if msg.Timestamp < p.Timestamp {","						ts = msg.Timestamp\n						if msg.Timestamp < p.Timestamp {"))
k("t-ts-asked","C25",(LO,"						ts = msg.Timestamp\n","						ts = p.Timestamp\n"))
k("t-step2","C25",(LO,"i >= 0; i-- {","i >= 0; i -= 2 {"))
k("t-limit","C25",(LO,"for i := len(kp.Records) - 1; i >= 0; i-- {","for i := len(kp.Records) - 1; i >= 0 && i > len(kp.Records)-1000; i-- {"))
k("t-int32","C25",(LO,"if msg.Timestamp < p.Timestamp {","if int32(msg.Timestamp) < int32(p.Timestamp) {"))
k("t-err","C25",(LO,"Timestamp: ts, Offset: offset})","ErrorCode: 1, Timestamp: ts, Offset: offset})"))
k("t-forward-first","C25",(LO,SC,'''					offset := int64(len(kp.Records))
					ts := int64(0)
					for i := 0; i < len(kp.Records); i++ {
						if kp.Records[i].Timestamp >= p.Timestamp {
							offset = int64(i)
							ts = kp.Records[i].Timestamp
							break
						}
					}
'''))
k("t-zero-latest","C25",(LO,"					// slow but this is just a mock\n","					if p.Timestamp == 0 {\n						p.Timestamp = time.Now().UnixMilli()\n					}\n"))
q("q-t-cond-loop",(LO,SC,'''					i := len(kp.Records)
					ts := int64(0)
					for i > 0 && kp.Records[i-1].Timestamp >= p.Timestamp {
						i--
						ts = kp.Records[i].Timestamp
					}
					offset := int64(i)
'''))
q("q-t-cond-lookup",(LO,SC,'''					i := len(kp.Records)
					for i > 0 && kp.Records[i-1].Timestamp >= p.Timestamp {
						i--
					}
					offset := int64(i)
					ts := int64(0)
					if i < len(kp.Records) {
						ts = kp.Records[i].Timestamp
					}
'''))
q("q-t-forward",(LO,SC,'''					offset := int64(0)
					ts := int64(0)
					for i, msg := range kp.Records {
						if msg.Timestamp < p.Timestamp {
							offset = int64(i + 1)
							ts = 0
						} else if offset == int64(i) {
							ts = msg.Timestamp
						}
					}
'''))
q("q-t-forward2",(LO,SC,'''					start := 0
					for i := range kp.Records {
						if kp.Records[i].Timestamp < p.Timestamp {
							start = i + 1
						}
					}
					offset := int64(start)
					ts := int64(0)
					if start < len(kp.Records) {
						ts = kp.Records[start].Timestamp
					}
'''))
q("q-t-helper",(LO,SC,"					offset, ts := searchByTime(kp.Records, p.Timestamp)\n"),(LO,None,'''
func searchByTime(records []*kafkaRecord, at int64) (offset int64, ts int64) {
	for i := len(records) - 1; i >= 0; i-- {
		r := records[i]
		if r.Timestamp < at {
			return int64(i + 1), ts
		}
		ts = r.Timestamp
	}
	return 0, ts
}
'''))
q("q-t-method",(LO,SC,"					offset, ts := kp.offsetAt(p.Timestamp)\n"),(LO,None,'''
func (kp *kafkaPartition) offsetAt(at int64) (int64, int64) {
	pos := len(kp.Records) - 1
	last := int64(0)
	for {
		if pos < 0 {
			break
		}
		rec := kp.Records[pos]
		if at > rec.Timestamp {
			break
		}
		last = rec.Timestamp
		pos--
	}
	return int64(pos) + 1, last
}
'''))
q("q-t-int64",(LO,SC,'''					offset := int64(len(kp.Records))
					ts := int64(0)
					for offset > 0 {
						msg := kp.Records[offset-1]
						if msg.Timestamp < p.Timestamp {
							break
						}
						offset--
						ts = msg.Timestamp
					}
'''))
q("q-t-switch",(LO,"				if p.Timestamp == -1 {","				const latest, earliest = -1, -2\n				if p.Timestamp == latest {"),(LO,"} else if p.Timestamp == -2 {","} else if p.Timestamp == earliest {"))
q("q-t-result",(LO,SC,'''					result := listOffsetResponsePartition{PartitionIndex: p.PartitionIndex}
					for i := len(kp.Records) - 1; i >= 0; i-- {
						msg := kp.Records[i]
						if msg.Timestamp < p.Timestamp {
							result.Offset = int64(i + 1)
							break
						}
						result.Timestamp = msg.Timestamp
					}
'''),(LO,"rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: ts, Offset: offset})","rpars = append(rpars, result)"))
# --- groups
JR="""	response = &joinGroupResponseV1{
		ProtocolName: "roundrobin",
		Leader:       "me",
		MemberId:     "1",
		Members: []joinGroupMemberV1{
			{MemberId: "you", Metadata: []byte{}},
		},
	}
"""
k("g-leader","C26",(JG,'Leader:       "me",','Leader:       "1",'))
k("g-echo","C26",(JG,"	_, err = readRequest","	req, err := readRequest"),(JG,'MemberId:     "1",','MemberId:     req.MemberId,'))
k("g-err","C26",(JG,"	_, err = readRequest","	req, err := readRequest"),(JG,'		ProtocolName: "roundrobin",','		ErrorCode:    code,\n		ProtocolName: "roundrobin",'),(JG,"	response = &joinGroupResponseV1{","	code := int16(0)\n	if len(req.Protocols) > 4 {\n		code = 23\n	}\n	response = &joinGroupResponseV1{"))
k("g-hb-gen","C26",(HB,"	_, err = readRequest","	req, err := readRequest"),(HB,"	response = &heartbeatResponseV0{}\n","	hb := &heartbeatResponseV0{}\n	if req.GenerationId != 0 {\n		hb.ErrorCode = 22\n	}\n	response = hb\n"))
k("g-leave","C26",(LG,"	if _, err = readRequest[leaveGroupRequestV0](reader); err != nil {\n		return\n	}\n","	req, err := readRequest[leaveGroupRequestV0](reader)\n	if err != nil {\n		return\n	}\n	if req.MemberId == \"\" {\n		return &leaveGroupResponseV0{ErrorCode: 25}, nil, nil\n	}\n"))
k("g-member-count","C26",(JG,'MemberId:     "1",','MemberId:     kmh.clientTag(),'),(JG,None,'''
func (kmh *kafkaMessageHeader) clientTag() string {
	if kmh.CorrelationId%1000 == 999 {
		return "me"
	}
	return "1"
}
'''))
q("q-g-local",(JG,JR,'''	const leader, member = "me", "1"
	resp := joinGroupResponseV1{ProtocolName: "roundrobin", MemberId: member}
	resp.Leader = leader
	resp.Members = append(resp.Members, joinGroupMemberV1{MemberId: "you", Metadata: []byte{}})
	response = &resp
'''))
q("q-g-hb",(HB,"	response = &heartbeatResponseV0{}\n","	response = &heartbeatResponseV0{ErrorCode: int16(0)}\n"))
# --- creating
CR='''	for _, topic := range topics {
		kt := km.ds.createTopic(topic)
		kt.createPartition(int32(partition))
	}
'''
k("cr-first","C27",(M,CR,'''	for i, topic := range topics {
		kt := km.ds.createTopic(topic)
		if i == 0 || topic != topics[i-1] {
			kt.createPartition(int32(partition))
		}
	}
'''))
k("cr-break","C27",(M,CR,'''	for _, topic := range topics {
		if km.ds.getTopic(topic) != nil {
			break
		}
		kt := km.ds.createTopic(topic)
		kt.createPartition(int32(partition))
	}
'''))
k("cr-exists-skip","C27",(M,CR,'''	for _, topic := range topics {
		if km.ds.getTopic(topic) != nil {
			continue
		}
		kt := km.ds.createTopic(topic)
		kt.createPartition(int32(partition))
	}
'''))
k("cr-below","C27",(M,CR,'''	for _, topic := range topics {
		kt := km.ds.createTopic(topic)
		for p := 0; p <= partition; p++ {
			kt.createPartition(int32(p))
		}
	}
'''))
k("cr-int8","C27",(M,"		kt.createPartition(int32(partition))\n	}\n}\n\n// Directly","		kt.createPartition(int32(int8(partition)))\n	}\n}\n\n// Directly"))
k("cr-trim","C27",(M,"		kt := km.ds.createTopic(topic)\n		kt.createPartition(int32(partition))\n	}\n","		kt := km.ds.createTopic(strings.TrimSpace(topic))\n		kt.createPartition(int32(partition))\n	}\n"),(M,'	"net"\n','	"net"\n	"strings"\n'))
k("cr-set-creates","C27",(M,"	kt := km.ds.getTopic(topic)\n","	kt := km.ds.createTopic(topic)\n"))
k("cr-neg","C27",(M,CR,'''	if partition < 0 {
		return
	}
'''+CR))
k("cr-async","C27",(M,CR,"	go func() {\n"+CR+"	}()\n"))
k("cr-store-neg","C27",(DS,"		kp.Partitions[number] = partition\n","		if len(kp.Partitions) < 1024 {\n			kp.Partitions[number] = partition\n		}\n"))
q("q-cr-for",(M,CR,'''	for i := 0; i < len(topics); i++ {
		km.ensure(topics[i], int32(partition))
	}
'''),(M,None,'''
func (km *KafkaMock) ensure(topic string, number int32) *kafkaPartition {
	return km.ds.createTopic(topic).createPartition(number)
}
'''))
q("q-cr-num",(M,CR,'''	number := int32(partition)
	if len(topics) == 0 {
		return
	}
	for _, name := range topics {
		_ = km.ds.createTopic(name).createPartition(number)
	}
'''))
q("q-cr-getfirst",(M,CR,'''	for _, topic := range topics {
		kt := km.ds.getTopic(topic)
		if kt == nil {
			kt = km.ds.createTopic(topic)
		}
		if kt.getPartition(int32(partition)) == nil {
			kt.createPartition(int32(partition))
		}
	}
'''))
# --- message format
k("f-magic","C21",(E,"MagicByte:  1,","MagicByte:  2,"))
k("f-attr","C21",(E,"Attributes: 0,","Attributes: record.Attributes,"),(DS,"		Attributes: attribs,","		Attributes: attribs | 8,"))
k("f-magic-ts","C21",(E,"	mv1.MessageSize = ","	if record.Timestamp == 0 {\n		mv1.MagicByte = 0\n	}\n	mv1.MessageSize = "))
