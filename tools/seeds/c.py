import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b.py")).read().split("SEEDS = [")[0])

SEEDS = [
("C25-sorted-search", "C25", "records posted with timestamps that go back in time",
 "the search by time bisects, which finds the wrong record where timestamps are not in order",
 [("list_offsets.go", '''					for i := len(kp.Records) - 1; i >= 0; i-- {
						msg := kp.Records[i]
						if msg.Timestamp < p.Timestamp {
							offset = int64(i + 1)
							break
						}
						ts = msg.Timestamp
					}
''', '''					i := sort.Search(len(kp.Records), func(i int) bool { return kp.Records[i].Timestamp >= p.Timestamp })
					offset = int64(i)
					if i < len(kp.Records) {
						ts = kp.Records[i].Timestamp
					}
'''), ("list_offsets.go", '	"bufio"\n', '	"bufio"\n	"sort"\n')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21131)
	for _, ms := range []int64{1, 9, 2} {
		km.ExtendedPost("a", 0, nil, nil, nil, time.UnixMilli(ms))
	}
	c := seedDial(t, 21131)
	b := seedCall(t, c, seedReq(2, 1, 1, int32(-1), int32(1), "a", int32(1), int32(0), int64(8)))
	seedEq(t, b, seedBytes(int32(1), "a", int32(1), int32(0), int16(0), int64(0), int64(3)))
}
'''), False),
("C25-oldest-shortcut", "C25", "a search for a time before the oldest record, with an even older timestamp after it",
 "a search by time stops at once where the oldest record is recent enough",
 [("list_offsets.go", '''					for i := len(kp.Records) - 1; i >= 0; i-- {
						msg := kp.Records[i]
''', '''					i := len(kp.Records) - 1
					if i >= 0 && kp.Records[0].Timestamp >= p.Timestamp {
						// all are recent enough
						i = 0
					}
					for ; i >= 0; i-- {
						msg := kp.Records[i]
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21132)
	for _, ms := range []int64{9, 2, 10} {
		km.ExtendedPost("a", 0, nil, nil, nil, time.UnixMilli(ms))
	}
	c := seedDial(t, 21132)
	b := seedCall(t, c, seedReq(2, 1, 1, int32(-1), int32(1), "a", int32(1), int32(0), int64(8)))
	seedEq(t, b, seedBytes(int32(1), "a", int32(1), int32(0), int16(0), int64(10), int64(2)))
}
'''), False),
("C26-member-kept", "C26", "a client that joins again with the leader's id as its own",
 "a member that joins with an id keeps it, so one called like the leader is made leader",
 [("join_group.go", '''	_, err = readRequest[joinGroupRequestV1](reader)
	if err != nil {
		return
	}
''', '''	request, err := readRequest[joinGroupRequestV1](reader)
	if err != nil {
		return
	}

	memberId := request.MemberId
	if memberId == "" {
		memberId = "1"
	}
'''), ("join_group.go", '		MemberId:     "1",\n', '		MemberId:     memberId,\n')],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21133)
	c := seedDial(t, 21133)
	b := seedCall(t, c, seedReq(11, 1, 1, "g", int32(1000), int32(1000), "me", "consumer", int32(1), "range", int32(0)))
	want := seedBytes(int16(0), int32(0), "roundrobin", "me", "1")
	seedEq(t, b[:len(want)], want)
}
'''), False),
("C26-stale-generation", "C26", "a heartbeat that names a generation other than the one given",
 "a heartbeat of a generation that is not the current one is refused as stale, which makes the client join again",
 [("heartbeat.go", "	_, err = readRequest[heartbeatRequestV0](reader)\n", "	request, err := readRequest[heartbeatRequestV0](reader)\n"),
  ("heartbeat.go", "	response = &heartbeatResponseV0{}\n", "	hb := &heartbeatResponseV0{}\n	if request.GenerationId > 0 {\n		hb.ErrorCode = 22\n	}\n	response = hb\n")],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21134)
	c := seedDial(t, 21134)
	seedEq(t, seedCall(t, c, seedReq(12, 0, 1, "g", int32(0), "1")), []byte{0, 0})
	seedEq(t, seedCall(t, c, seedReq(12, 0, 1, "g", int32(7), "1")), []byte{0, 0})
}
'''), False),
("C27-known-topic-skipped", "C27", "two calls that name the same topic with different partitions",
 "creating a partition of a topic that exists already does nothing",
 [("kafka-mock.go", '''	for _, topic := range topics {
		kt := km.ds.createTopic(topic)
''', '''	for _, topic := range topics {
		if km.ds.getTopic(topic) != nil {
			continue
		}
		kt := km.ds.createTopic(topic)
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedMock(21135)
	km.CreatePartitionTopics([]string{"a"}, 0)
	km.CreatePartitionTopics([]string{"b", "a"}, 1)
	if km.ds.getTopic("a").getPartition(1) == nil {
		t.Fatal("not created")
	}
}
'''), False),
("C27-fetch-creates-group-topic", "C27", "an offset set directly for a topic that was never created",
 "setting an offset creates the topic, so one that nobody created is listed",
 [("kafka-mock.go", '''	kt := km.ds.getTopic(topic)
	if kt != nil {
		kp := kt.getPartition(int32(partition))
''', '''	kt := km.ds.createTopic(topic)
	if kt != nil {
		kp := kt.getPartition(int32(partition))
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedMock(21136)
	km.SetConsumerGroupOffset("x", 0, "g", 1)
	if km.ds.getTopic("x") != nil {
		t.Fatal("created")
	}
}
'''), False),
("C28-offset-of-nothing", "C28", "an offset set for a partition that does not exist in a topic that does",
 "the partition is used without having been found",
 [("kafka-mock.go", '''		if kp != nil {
			kp.mu.Lock()
			defer kp.mu.Unlock()

			kp.GroupCommittedOffsets[group] = offset
		}
''', '''		kp.mu.Lock()
		defer kp.mu.Unlock()

		kp.GroupCommittedOffsets[group] = offset
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedMock(21138)
	km.CreatePartitionTopics([]string{"a"}, 0)
	km.SetConsumerGroupOffset("b", 0, "g", 1)
	km.SetConsumerGroupOffset("a", 1, "g", 1)
}
'''), False),
("C29-restart-not-waited", "C29", "a client that connects as soon as a restart has returned",
 "a restart waits for the start-up only when the mock has not been started, which it always has",
 [("kafka-mock.go", '''	km.Start()
	km.initializing.Wait()
''', '''	km.Start()
	if !km.started.Load() {
		km.initializing.Wait()
	}
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21139)
	for i := 0; i < 300; i++ {
		km.Restart()
		c, err := net.Dial("tcp", "127.0.0.1:21139")
		if err != nil {
			t.Fatal(err)
		}
		c.Close()
	}
}
'''), False),
("C29-second-restart", "C29", "a mock that is restarted a second time",
 "each start keeps its lane as the parent of the next, which the stop before has cancelled by then",
 [("kafka-mock.go", "	km.cancelFn = cancelFn\n", "	km.cancelFn = cancelFn\n	if km.restarts++; km.restarts > 1 {\n		km.parentLane = l\n	}\n"),
  ("kafka-mock.go", "		latency      time.Duration\n", "		latency      time.Duration\n		restarts     int\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21140)
	for i := 0; i < 4; i++ {
		c := seedDial(t, 21140)
		seedCall(t, c, seedReq(18, 0, 1))
		c.Close()
		km.Restart()
	}
}
'''), False),
("C30-reset-not-known", "C30", "a client that resets its connection",
 "a reset is no longer taken for a client that left, so the failed read ends the process",
 [("net-utils.go", '''			if errno == syscall.ECONNRESET {
''', '''			if errno == syscall.ECONNABORTED || errno == syscall.EPIPE {
''')],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21141)
	c := seedDial(t, 21141)
	seedCall(t, c, seedReq(18, 0, 1))
	c.(*net.TCPConn).SetLinger(0)
	c.Close()
	time.Sleep(2500 * time.Millisecond)
	seedCall(t, seedDial(t, 21141), seedReq(18, 0, 1))
}
'''), False),
("C30-half-request", "C30", "a client that closes its connection in the middle of a request",
 "the end of the stream is an error where part of a request has been received, and ends the process",
 [("kafka-client.go", "				if !wasSocketClosed(err) {\n", "				if !wasSocketClosed(err) || len(kc.inbound) > 4 {\n")],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21142)
	c := seedDial(t, 21142)
	c.Write(seedReq(18, 0, 1)[:7])
	time.Sleep(200 * time.Millisecond)
	c.Close()
	time.Sleep(2500 * time.Millisecond)
	seedCall(t, seedDial(t, 21142), seedReq(18, 0, 1))
}
'''), False),
("C31-worker-limit", "C31", "as many clients waiting in a fetch as there are workers",
 "requests are handled by at most four clients at a time, so four fetches that wait hold up everyone",
 [("kafka-client.go", "	response, rtags, err = handler(reader, kc, &kmh)\n", "	workers <- struct{}{}\n	response, rtags, err = handler(reader, kc, &kmh)\n	<-workers\n"),
  ("kafka-client.go", "func newKafkaClient(", "var workers = make(chan struct{}, 4)\n\nfunc newKafkaClient(")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21143)
	km.CreatePartitionTopics([]string{"a"}, 0)
	for i := 0; i < 4; i++ {
		seedDial(t, 21143).Write(seedReq(1, 2, 1, int32(-1), int32(8000), int32(1), int32(1), "a", int32(1), int32(0), int64(0), int32(1000)))
	}
	time.Sleep(300 * time.Millisecond)
	seedWithin(t, 4*time.Second, "held up", func() { seedCall(t, seedDial(t, 21143), seedReq(18, 0, 1)) })
}
'''), False),
("C31-first-bytes-awaited", "C31", "a client that connects and says nothing",
 "the first bytes of a connection are read before the next one is accepted",
 [("kafka-mock.go", '''		km.mu.Lock()
		cxnNumber++
''', '''		first := make([]byte, 4)
		connection.SetReadDeadline(time.Now().Add(6 * time.Second))
		n, _ := connection.Read(first)

		km.mu.Lock()
		cxnNumber++
'''), ("kafka-mock.go", "		km.clients[cxnNumber] = kc\n", "		km.clients[cxnNumber] = kc\n		kc.first <- first[:n]\n"),
  ("kafka-client.go", "		requests:   []*kafkaRequest{},\n", "		requests:   []*kafkaRequest{},\n		first:      make(chan []byte, 1),\n"),
  ("kafka-client.go", "	for {\n		if kc.latency != 0 {", "	kc.inbound = append(kc.inbound, <-kc.first...)\n	for {\n		if kc.latency != 0 {"),
  ("kafka-client.go", "		latency    time.Duration\n", "		latency    time.Duration\n		first      chan []byte\n")],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21144)
	quiet := seedDial(t, 21144)
	defer quiet.Close()
	time.Sleep(200 * time.Millisecond)
	seedWithin(t, 4*time.Second, "held up", func() { seedCall(t, seedDial(t, 21144), seedReq(18, 0, 1)) })
}
'''), False),
("C14-offset-beyond", "C14", "a fetch from an offset past the end of the partition",
 "a fetch from beyond the end is refused as out of range, though the records may still come",
 [("fetch.go", "			} else if par.FetchOffset < 0 {\n", "			} else if kp.lock(); par.FetchOffset < 0 || par.FetchOffset > int64(len(kp.Records))+1 {\n"),
  ("fetch.go", "				fd.errCode = OffsetOutOfRange\n			}\n", "				fd.errCode = OffsetOutOfRange\n				kp.unlock()\n			} else {\n				kp.unlock()\n			}\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21145)
	km.CreatePartitionTopics([]string{"a"}, 0)
	c := seedDial(t, 21145)
	b := seedCall(t, c, seedReq(1, 2, 1, int32(-1), int32(100), int32(1), int32(1), "a", int32(1), int32(0), int64(5), int32(1000)))
	want := seedBytes(int32(0), int32(1), "a", int32(1), int32(0), int16(0))
	seedEq(t, b[:len(want)], want)
}
'''), False),
("C16-counted-late", "C16", "a client that drops the moment it is accepted, while a termination is waited for",
 "a connection is added to the mock's work only after the lock is released, so its end can be counted before its start",
 [("kafka-mock.go", "		km.active.Add(1)\n		km.wg.Add(1)\n		km.mu.Unlock()\n	}\n", "		km.active.Add(1)\n		km.mu.Unlock()\n		km.l.Tracef(\"client %d is tracked\", id)\n		km.wg.Add(1)\n	}\n")],
 T('''type slowLane struct{ lane.Lane }

func (l slowLane) DeriveWithCancel() (lane.Lane, context.CancelFunc) {
	m, c := l.Lane.DeriveWithCancel()
	return slowLane{m}, c
}
func (l slowLane) Tracef(f string, args ...any) {
	if strings.Contains(f, "tracked") {
		time.Sleep(400 * time.Millisecond)
	}
}

func TestSeedDemo(t *testing.T) {
	km := NewKafkaMock(slowLane{lane.NewNullLane(context.Background())}, 21146)
	km.Start()
	km.initializing.Wait()
	c := seedDial(t, 21146)
	done := make(chan bool)
	go func() {
		km.WaitForTermination()
		close(done)
	}()
	c.Close()
	select {
	case <-done:
		t.Fatal("terminated while it runs")
	case <-time.After(2 * time.Second):
	}
}
'''), False),
]
