M="kafka-mock.go"; DS="datastore.go"
CASES=[]
def k(name,props,*edits): CASES.append((name,"kill",props.split(),list(edits)))
def q(name,*edits): CASES.append((name,"quiet",[],list(edits)))
# --- calls never crash
k("n-set-nilpart","C28",(M,"		if kp != nil {\n			kp.mu.Lock()","		{\n			kp.mu.Lock()"))
k("n-set-niltopic","C28",(M,"	kt := km.ds.getTopic(topic)\n	if kt != nil {","	kt := km.ds.getTopic(topic)\n	{"))
k("n-set-group0","C28",(M,"			kp.GroupCommittedOffsets[group] = offset\n","			if group[0] == '_' {\n				return\n			}\n			kp.GroupCommittedOffsets[group] = offset\n"))
k("n-post-key0","C28",(M,"	kp.postRecord(0, time.Now(), key, value, nil)","	if key != nil && key[0] == 0 {\n		key = nil\n	}\n	kp.postRecord(0, time.Now(), key, value, nil)"))
k("n-post-neg","C28",(M,"	kp.postRecord(0, time.Now(), key, value, nil)","	if partition < 0 {\n		panic(\"bad partition\")\n	}\n	kp.postRecord(0, time.Now(), key, value, nil)"))
k("n-finish-before","C28",(M,"	if km.cancelFn != nil {\n		km.cancelFn()\n	}","	km.cancelFn()"))
k("n-wait-before","C28",(M,"	km.wg.Wait()\n	km.RequestStop()","	km.wg.Wait()\n	km.cancelFn()\n	km.RequestStop()"))
k("n-lane-later","C28",(M,"		l:          l,\n		serverPort","		serverPort"))
k("n-nil-groups","C28",(DS,"			GroupCommittedOffsets: map[string]int64{},\n",""))
k("n-nil-parts","C28",(DS,"			Partitions: map[int32]*kafkaPartition{},\n",""))
k("n-create-first","C28",(M,"	for _, topic := range topics {\n		kt :=","	km.l.Tracef(\"first %s\", topics[0])\n	for _, topic := range topics {\n		kt :="))
k("n-stop-finish","C28",(M,"			// cancel any i/o tasks\n			km.cancelFn()\n","			// cancel any i/o tasks\n			km.cancelFn()\n			km.cancelFn = nil\n"),(M,"	if km.cancelFn != nil {\n		km.cancelFn()\n	}","	if km.started.Load() {\n		km.cancelFn()\n	}"))
# --- restart
k("n-re-nowait","C29",(M,"	km.Start()\n	km.initializing.Wait()\n","	km.Start()\n"))
k("n-re-waitfirst","C29",(M,"	km.Start()\n	km.initializing.Wait()\n","	km.initializing.Wait()\n	km.Start()\n"))
k("n-re-lane","C29",(M,"km.parentLane.DeriveWithCancel()","km.l.DeriveWithCancel()"))
k("n-re-parent","C29",(M,"	km.l = l\n	km.cancelFn = cancelFn\n","	km.l = l\n	km.parentLane = l\n	km.cancelFn = cancelFn\n"))
k("n-re-early","C29",(M,"	km.initializing.Done()\n\n	for {","	for {"),(M,"	// establish socket service\n","	km.initializing.Done()\n	// establish socket service\n"))
k("n-re-port","C29",(M,"	km.listener = listener\n","	km.listener = listener\n	km.serverPort = uint(listener.Addr().(*net.TCPAddr).Port) + 0\n"))
k("n-re-port2","C29",(M,"	km.Start()\n	km.initializing.Wait()","	km.serverPort++\n	km.Start()\n	km.initializing.Wait()"))
k("n-re-once","C29",(M,"	l, cancelFn := km.parentLane.DeriveWithCancel()\n	km.l = l\n	km.cancelFn = cancelFn\n","	if km.cancelFn == nil {\n		l, cancelFn := km.parentLane.DeriveWithCancel()\n		km.l = l\n		km.cancelFn = cancelFn\n	}\n"))
k("n-re-maybe","C29",(M,"	km.Start()\n	km.initializing.Wait()\n","	km.Start()\n	if len(km.clients) > 0 {\n		km.initializing.Wait()\n	}\n"))
# --- quiet
q("q-n-set-early",(M,"	kt := km.ds.getTopic(topic)\n	if kt != nil {\n		kp := kt.getPartition(int32(partition))\n		if kp != nil {\n			kp.mu.Lock()\n			defer kp.mu.Unlock()\n\n			kp.GroupCommittedOffsets[group] = offset\n		}\n	}","	kt := km.ds.getTopic(topic)\n	if kt == nil {\n		return\n	}\n	kp := kt.getPartition(int32(partition))\n	if kp == nil {\n		return\n	}\n	kp.lock()\n	kp.GroupCommittedOffsets[group] = offset\n	kp.unlock()"))
q("q-n-finish",(M,"	if km.cancelFn != nil {\n		km.cancelFn()\n	}","	cancel := km.cancelFn\n	if cancel == nil {\n		return\n	}\n	cancel()"))
q("q-n-start-helper",(M,"	l, cancelFn := km.parentLane.DeriveWithCancel()\n	km.l = l\n	km.cancelFn = cancelFn\n","	km.newLane()\n"),(M,None,"\nfunc (km *KafkaMock) newLane() {\n	km.l, km.cancelFn = km.parentLane.DeriveWithCancel()\n}\n"))
q("q-n-waitstart",(M,"	km.Start()\n	km.initializing.Wait()\n","	km.Start()\n	km.waitStarted()\n"),(M,None,"\nfunc (km *KafkaMock) waitStarted() { km.initializing.Wait() }\n"))
k("n-sg-dropped","C26",("sync_group.go","	if len(request.Assignments) != 0 {","	if len(request.Assignments) != 0 && request.GenerationId == 0 {"))
k("n-sg-many","C26",("sync_group.go","	if len(request.Assignments) != 0 {","	if len(request.Assignments) > 1 {"))
k("n-of-minus","C12",("offset_fetch.go","CommittedOffset: -1, ",""))
q("q-n-sg",("sync_group.go","	if len(request.Assignments) != 0 {","	if n := len(request.Assignments); n > 0 {"))
q("q-n-of",("offset_fetch.go","CommittedOffset: -1, ErrorCode","CommittedOffset: noOffset, ErrorCode"),("offset_fetch.go",None,"\nconst noOffset = int64(-1)\n"))
LS='''						} else if'''
# --- found by mutation
k("m-wg-late","C16",("kafka-mock.go","		km.wg.Add(1)\n		km.mu.Unlock()\n	}\n","		km.mu.Unlock()\n		km.wg.Add(1)\n	}\n"))
k("m-active-late","C16",("kafka-mock.go","		km.active.Add(1)\n		km.wg.Add(1)\n		km.mu.Unlock()\n	}\n","		km.wg.Add(1)\n		km.mu.Unlock()\n		km.active.Add(1)\n	}\n"))
k("m-fetch-zero","C14",("fetch.go","par.FetchOffset < 0","par.FetchOffset <= 0"))
k("m-fetch-big","C14",("fetch.go","par.FetchOffset < 0","par.FetchOffset < 0 || par.FetchOffset > 1<<40"))
q("m-q-fetch-neg",("fetch.go","par.FetchOffset < 0","fd.offset <= -1"))
q("m-q-fetch-first",("fetch.go","			fd := &fetchData{kp: kp, offset: int(par.FetchOffset), maxSize: int(par.PartitionMaxBytes), ms: newMessageSetV1(par.FetchOffset)}\n			if kp == nil {\n				fd.errCode = UnknownTopicOrPartition\n			} else if par.FetchOffset < 0 {\n				fd.kp = nil\n				fd.errCode = OffsetOutOfRange\n			}\n","			code := NoError\n			if kp == nil {\n				code = UnknownTopicOrPartition\n			} else if !(par.FetchOffset >= 0) {\n				kp = nil\n				code = OffsetOutOfRange\n			}\n			fd := &fetchData{kp: kp, errCode: code, offset: int(par.FetchOffset), maxSize: int(par.PartitionMaxBytes), ms: newMessageSetV1(par.FetchOffset)}\n"))
k("m-port-unset","C19",("kafka-client.go","		serverPort: serverPort,\n",""))
q("m-q-port-later",("kafka-client.go","		serverPort: serverPort,\n",""),("kafka-client.go","	kc.wg.Add(1)\n	go kc.handle()","	kc.serverPort = serverPort\n	kc.wg.Add(1)\n	go kc.handle()"))
k("m-closed-panics","C18",("net-utils.go","errors.Is(err, io.EOF) || errors.Is(err, net.ErrClosed)","errors.Is(err, io.EOF)"))
k("m-parent-unset","C28",("kafka-mock.go","		parentLane: l,\n",""))
k("m-earliest-ts","C13",("list_offsets.go","PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp})","PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp + 1})"))
k("m-earliest-ts-last","C13",("list_offsets.go","msg := kp.Records[0]\n","msg := kp.Records[len(kp.Records)-1]\n"))
k("m-earliest-one","C13",("list_offsets.go","if len(kp.Records) == 0 {","if len(kp.Records) <= 1 {"))
q("m-q-earliest-var",("list_offsets.go","""					if len(kp.Records) == 0 {
						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex})
					} else {
						msg := kp.Records[0]
						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp})
					}
""","""					first := int64(0)
					if recs := kp.Records; len(recs) > 0 {
						first = recs[0].Timestamp
					}
					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: first})
"""))
q("m-q-earliest-range",("list_offsets.go","""					if len(kp.Records) == 0 {
						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex})
					} else {
						msg := kp.Records[0]
						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp})
					}
""","""					rp := listOffsetResponsePartition{PartitionIndex: p.PartitionIndex}
					if n := len(kp.Records); n >= 1 {
						rp.Timestamp = kp.Records[0].Timestamp
					}
					rpars = append(rpars, rp)
"""))
q("m-q-accept-stop",("kafka-mock.go","			if !wasSocketClosed(err) {\n				panic(fmt.Sprintf(\"accept error: %v\", err))\n			}\n			break\n","			if errors.Is(err, net.ErrClosed) {\n				break\n			}\n			panic(fmt.Sprintf(\"accept error: %v\", err))\n"),("kafka-mock.go",'	"context"\n','	"context"\n	"errors"\n'))
