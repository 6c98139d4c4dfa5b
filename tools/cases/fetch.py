F="fetch.go"; E="encoder.go"
POLL='''				var rec *kafkaRecord
				fd.kp.lock()
				fd.hwm = int64(len(fd.kp.Records))
				if fd.offset < len(fd.kp.Records) {
					rec = fd.kp.Records[fd.offset]
				}
				fd.kp.unlock()
'''
MID='''				if rec != nil {
					hasOne = true
					if fd.ms.appendMessage(rec, fd.maxSize) {
						more = true
						fd.offset++
					}
				}
'''
DONE='''			isClosed := false
			select {
			case <-kc.l.Done():
				isClosed = true
				break
			default:
				break
			}
			if isClosed {
				break
			}
'''
CASES=[
# C10
("f-skip","kill",["C10"],[(F,"						fd.offset++","						fd.offset += 2")]),
("f-offset-always","kill",["C10"],[(F,"						more = true\n						fd.offset++\n					}","						more = true\n					}\n					fd.offset++")]),
("f-start","kill",["C10"],[(F,"offset: int(par.FetchOffset), maxSize","offset: 0, maxSize")]),
("f-mslabel","kill",["C10"],[(F,"newMessageSetV1(par.FetchOffset)","newMessageSetV1(0)")]),
("f-pair0","kill",["C10","C14"],[(F,"			n++\n","			if par.Partition >= 0 {\n				n++\n			}\n")]),
("f-limit","kill",["C10"],[(E,"newSize > maxSize","msv1.totalSize > maxSize")]),
("f-limit-first","kill",["C10"],[(E,"newSize > maxSize {","newSize > maxSize && len(msv1.msgs) > 0 {")]),
("f-maxbytes-min","kill",["C10"],[(F,"maxSize: int(par.PartitionMaxBytes)","maxSize: int(request.MinBytes)")]),
("f-hwm-offset","kill",["C10"],[(F,"fd.hwm = int64(len(fd.kp.Records))","fd.hwm = int64(fd.offset)")]),
("f-hwm-minus","kill",["C10"],[(F,"fd.hwm = int64(len(fd.kp.Records))","fd.hwm = int64(len(fd.kp.Records)) - 1")]),
("f-hwm-only-data","kill",["C10"],[(F,"				fd.hwm = int64(len(fd.kp.Records))\n				if fd.offset < len(fd.kp.Records) {","				if fd.offset < len(fd.kp.Records) {\n				fd.hwm = int64(len(fd.kp.Records))")]),
("f-break-first","quiet",[],[(F,"						fd.offset++\n","						fd.offset++\n						break\n")]),
("f-wrongpart","kill",["C10"],[(F,"kp = kt.getPartition(par.Partition)","kp = kt.getPartition(int32(len(fds)))")]),
("f-wrongtopic","kill",["C10"],[(F,"kt := kc.ds.getTopic((topic.Topic))","kt := kc.ds.getTopic((request.Topics[0].Topic))")]),
("f-ts","kill",["C10"],[(E,"		Timestamp:  record.Timestamp,\n","		Timestamp:  0,\n")]),
("f-kv","kill",["C10"],[(E,"		Key:        record.Key,\n		Value:      record.Value,","		Key:        record.Value,\n		Value:      record.Key,")]),
("f-shared-ms","kill",["C10"],[(F,"	fds := []*fetchData{}\n","	fds := []*fetchData{}\n	shared := newMessageSetV1(0)\n"),(F,"ms: newMessageSetV1(par.FetchOffset)","ms: shared")]),
("f-other-fd","kill",["C10"],[(F,"fd.ms.appendMessage(rec, fd.maxSize)","fds[0].ms.appendMessage(rec, fd.maxSize)")]),
("f-othermax","kill",["C10"],[(F,"fd.ms.appendMessage(rec, fd.maxSize)","fd.ms.appendMessage(rec, fds[0].maxSize)")]),
("f-reset","kill",["C10"],[(F,"		if !more {\n","		if !more {\n			if len(fds) > 1 {\n				fds[1].offset = fds[0].offset\n			}\n")]),
("f-reverse","kill",["C10"],[(F,"	n := 0\n","	for i, j := 0, len(fds)-1; i < j; i, j = i+1, j-1 {\n		fds[i], fds[j] = fds[j], fds[i]\n	}\n	n := 0\n")]),
# C11
("f-nosleep","kill",["C11"],[(F,"			time.Sleep(time.Millisecond * 20)\n","")]),
("f-nodone","kill",["C11"],[(F,DONE,"")]),
("f-noexp","kill",["C11"],[(F,"	hasOne := false\n","	hasOne := false\n	_ = expiration\n"),(F,"hasOne || time.Now().After(expiration)","hasOne")]),
("f-nohas","kill",["C11"],[(F,"	n := 0\n","	n := 0\n	_ = hasOne\n"),(F,"hasOne || time.Now().After(expiration)","time.Now().After(expiration)")]),
("f-longsleep","kill",["C11"],[(F,"time.Millisecond * 20)","time.Second * 20)")]),
("f-sleepwait","kill",["C11"],[(F,"time.Sleep(time.Millisecond * 20)","time.Sleep(time.Duration(request.MaxWaitMs) * time.Millisecond)")]),
("f-hasone-late","kill",["C11"],[(F,"					hasOne = true\n					if fd.ms.appendMessage(rec, fd.maxSize) {","					if fd.ms.appendMessage(rec, fd.maxSize) {\n						hasOne = true")]),
("f-more-always","kill",["C11"],[(F,"					if fd.ms.appendMessage(rec, fd.maxSize) {\n						more = true","					more = true\n					if fd.ms.appendMessage(rec, fd.maxSize) {")]),
("f-exit-early","kill",["C11"],[(F,"		if !more {\n","		if hasOne {\n			break\n		}\n		if !more {\n")]),
("f-exit-nodata","kill",["C11"],[(F,"			time.Sleep(time.Millisecond * 20)\n","			if len(fds) == 0 {\n				break\n			}\n			time.Sleep(time.Millisecond * 20)\n")]),
("f-expire-secs","kill",["C11"],[(F,"* time.Millisecond)\n	hasOne","* time.Second)\n	hasOne")]),
("f-expire-reset","kill",["C11"],[(F,"			time.Sleep(time.Millisecond * 20)\n","			time.Sleep(time.Millisecond * 20)\n			expiration = time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond)\n")]),
("f-done-later","kill",["C11"],[(F,"			if isClosed {\n","			if isClosed && hasOne {\n")]),
("f-minbytes","kill",["C11"],[(F,"if hasOne || time","if hasOne && request.MinBytes <= 1 || time")]),
# C14
("f-code-none","kill",["C14"],[(F,"fd.errCode = UnknownTopicOrPartition","fd.errCode = 0")]),
("f-code-late","kill",["C14"],[(F,"	n := 0\n","	for _, fd := range fds {\n		if fd.hwm == 0 {\n			fd.errCode = UnknownTopicOrPartition\n		}\n	}\n	n := 0\n")]),
# C21
("m-size","kill",["C21"],[(E,"int32(22 + len(record.Key) + len(record.Value))","int32(22 + len(record.Key) + len(record.Value) + 1)")]),
("m-size-nokey","kill",["C21"],[(E,"int32(22 + len(record.Key) + len(record.Value))","int32(22 + len(record.Value))")]),
("m-total","kill",["C21"],[(E,"newSize := msv1.totalSize + 12 + int(mv1.MessageSize)","newSize := msv1.totalSize + int(mv1.MessageSize)")]),
("m-total-lost","kill",["C21","C10"],[(E,"	msv1.totalSize = newSize\n","	if record.Key != nil {\n		msv1.totalSize = newSize\n	}\n")]),
("m-crc-before","kill",["C21"],[(E,"	msv1.msgs = append(msv1.msgs, mv1)","	if mv1.Key == nil {\n		mv1.Key = []byte{}\n	}\n	msv1.msgs = append(msv1.msgs, mv1)")]),
("m-crc-range","kill",["C21"],[(E,"buf.Bytes()[16:]","buf.Bytes()[12:]")]),
("m-crc-poly","kill",["C21"],[(E,"crc32.MakeTable(crc32.IEEE)","crc32.MakeTable(crc32.Castagnoli)")]),
("m-crc-order","kill",["C21"],[(E,"	mv1.Crc = int32(mv1.crc())\n",""),(E,"		MagicByte:  1,\n","		Crc:        0,\n		MagicByte:  1,\n")]),
# quiet
("q-helper-poll","quiet",[],[(F,POLL,"				rec := fd.next()\n"),(F,None,'''
func (fd *fetchData) next() *kafkaRecord {
	fd.kp.lock()
	defer fd.kp.unlock()
	fd.hwm = int64(len(fd.kp.Records))
	if fd.offset < len(fd.kp.Records) {
		return fd.kp.Records[fd.offset]
	}
	return nil
}
''')]),
("q-index-loop","quiet",[],[(F,"		for _, fd := range fds {\n","		for i := 0; i < len(fds); i++ {\n			fd := fds[i]\n")]),
("q-continue","quiet",[],[(F,"			if fd.kp != nil {\n"+POLL+"\n"+MID+"			}\n","			if fd.kp == nil {\n				continue\n			}\n"+POLL+"			if rec == nil {\n				continue\n			}\n			hasOne = true\n			if fd.ms.appendMessage(rec, fd.maxSize) {\n				more = true\n				fd.offset++\n			}\n")]),
("q-wait-helper","quiet",[],[(F,DONE,'''			if kc.closing() {
				break
			}
'''),(F,None,'''
func (kc *kafkaClient) closing() bool {
	select {
	case <-kc.l.Done():
		return true
	default:
		return false
	}
}
''')]),
("q-before","quiet",[],[(F,"hasOne || time.Now().After(expiration)","hasOne || expiration.Before(time.Now())")]),
("q-split-exit","quiet",[],[(F,"			if hasOne || time.Now().After(expiration) {\n				break\n			}\n","			if hasOne {\n				break\n			}\n			if time.Now().After(expiration) {\n				break\n			}\n")]),
("q-n-late","quiet",[],[(F,"			fd := fds[n]\n			n++\n","			fd := fds[n]\n"),(F,"			fr.Partitions = append(fr.Partitions, fp)\n","			fr.Partitions = append(fr.Partitions, fp)\n			n++\n")]),
("q-setup-helper","quiet",[],[(F,'''			fd := &fetchData{kp: kp, offset: int(par.FetchOffset), maxSize: int(par.PartitionMaxBytes), ms: newMessageSetV1(par.FetchOffset)}
			if kp == nil {
				fd.errCode = UnknownTopicOrPartition
			} else if par.FetchOffset < 0 {
				fd.kp = nil
				fd.errCode = OffsetOutOfRange
			}
			fds = append(fds, fd)
''','''			fds = append(fds, newFetchData(kp, par))
'''),(F,None,'''
func newFetchData(kp *kafkaPartition, par fetchPartition) *fetchData {
	fd := &fetchData{
		kp:      kp,
		offset:  int(par.FetchOffset),
		maxSize: int(par.PartitionMaxBytes),
		ms:      newMessageSetV1(par.FetchOffset),
	}
	switch {
	case kp == nil:
		fd.errCode = UnknownTopicOrPartition
	case par.FetchOffset < 0:
		fd.kp = nil
		fd.errCode = OffsetOutOfRange
	}
	return fd
}
''')]),
("q-pass-helper","quiet",[],[(F,"		for _, fd := range fds {\n			if fd.kp != nil {\n"+POLL+"\n"+MID+"			}\n		}\n",'''		more, any := pollAll(fds)
		if any {
			hasOne = true
		}
'''),(F,"		more := false\n",""),(F,None,'''
func pollAll(fds []*fetchData) (more, any bool) {
	for _, fd := range fds {
		if fd.kp == nil {
			continue
		}
'''+POLL+'''		if rec != nil {
			any = true
			if fd.ms.appendMessage(rec, fd.maxSize) {
				more = true
				fd.offset++
			}
		}
	}
	return
}
''')]),
("q-respond-helper","quiet",[],[(F,'''	frv2 := fetchResponseV2{
		Responses: make([]fetchResponse, 0, len(request.Topics)),
	}
''','''	response = fetchAnswer(request, fds)
	return
}

func fetchAnswer(request *fetchRequestV2, fds []*fetchData) fetchResponseV2 {
	frv2 := fetchResponseV2{
		Responses: make([]fetchResponse, 0, len(request.Topics)),
	}
'''),(F,"	response = frv2\n	return\n}","	return frv2\n}")]),
("q-crc-ieee","quiet",[],[(E,"crc32.Update(0, crcTable, buf.Bytes()[16:])","crc32.ChecksumIEEE(buf.Bytes()[16:])"),(E,"var crcTable *crc32.Table = crc32.MakeTable(crc32.IEEE)\n\n","")]),
("q-append-order","quiet",[],[(E,"	msv1.totalSize = newSize\n	msv1.offset++\n\n	msv1.msgs = append(msv1.msgs, mv1)\n","	msv1.msgs = append(msv1.msgs, mv1)\n	msv1.offset++\n	msv1.totalSize = newSize\n")]),
("q-size-le","quiet",[],[(E,'''	if newSize > maxSize {
		return false
	}

	msv1.totalSize = newSize
	msv1.offset++

	msv1.msgs = append(msv1.msgs, mv1)
	return true
''','''	if fits := newSize <= maxSize; fits {
		msv1.totalSize = newSize
		msv1.offset++
		msv1.msgs = append(msv1.msgs, mv1)
		return true
	}
	return false
''')]),
("q-no-fdoffset","quiet",[],[(F,"if fd.offset < len(fd.kp.Records) {\n					rec = fd.kp.Records[fd.offset]","if next := int(fd.ms.offset); next < len(fd.kp.Records) {\n					rec = fd.kp.Records[next]"),(F,"						fd.offset++\n",""),(F,"		offset  int\n",""),(F,"offset: int(par.FetchOffset), ","")]),
("q-while","quiet",[],[(F,'''	for {
		more := false
''','''	for done := false; !done; {
		more := false
'''),(F,"			if hasOne || time.Now().After(expiration) {\n				break\n			}","			if hasOne || time.Now().After(expiration) {\n				done = true\n				continue\n			}")]),
("q-since","quiet",[],[(F,"	expiration := time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond)\n","	started := time.Now()\n	maxWait := time.Duration(request.MaxWaitMs) * time.Millisecond\n"),(F,"time.Now().After(expiration)","time.Since(started) > maxWait")]),
("q-select-sleep","quiet",[],[(F,DONE,""),(F,"			time.Sleep(time.Millisecond * 20)\n",'''			select {
			case <-kc.l.Done():
				isClosed = true
			case <-time.After(time.Millisecond * 20):
			}
			if isClosed {
				break
			}
'''),(F,"	hasOne := false\n","	hasOne := false\n	isClosed := false\n")]),
("q-idx-resp","quiet",[],[(F,'''			Partitions: []fetchResponsePartition{},
''','''			Partitions: make([]fetchResponsePartition, len(topic.Partitions)),
'''),(F,"for _, par := range topic.Partitions {\n			fd := fds[n]","for i, par := range topic.Partitions {\n			fd := fds[n]"),(F,"			fr.Partitions = append(fr.Partitions, fp)\n","			fr.Partitions[i] = fp\n")]),
]
