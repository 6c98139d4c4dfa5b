HEAD = '''package kafkamock

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jimsnab/go-lane"
)

var _ = context.Background
var _ = time.Now
var _ = errors.New
var _ = fmt.Sprint
var _ = os.Getenv
var _ = exec.Command
var _ = runtime.NumCPU
var _ = strings.Join
var _ sync.Mutex

func seedMock(port uint) *KafkaMock {
	return NewKafkaMock(lane.NewNullLane(context.Background()), port)
}

func seedStart(port uint) *KafkaMock {
	km := seedMock(port)
	km.Start()
	for i := 0; i < 200; i++ {
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			c.Close()
			return km
		}
		time.Sleep(20 * time.Millisecond)
	}
	panic("not listening")
}

func seedDial(t *testing.T, port uint) net.Conn {
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		t.Fatal(err)
	}
	return c
}

// seedBytes concatenates big-endian numbers and length-prefixed strings.
func seedBytes(vs ...any) []byte {
	var b bytes.Buffer
	for _, v := range vs {
		switch x := v.(type) {
		case string:
			binary.Write(&b, binary.BigEndian, int16(len(x)))
			b.WriteString(x)
		case []byte:
			b.Write(x)
		default:
			binary.Write(&b, binary.BigEndian, x)
		}
	}
	return b.Bytes()
}

func seedReq(key, ver int16, corr int32, body ...any) []byte {
	m := append(seedBytes(key, ver, corr, "seed"), seedBytes(body...)...)
	return append(seedBytes(int32(len(m))), m...)
}

func seedResp(t *testing.T, c net.Conn) (int32, []byte) {
	t.Helper()
	c.SetReadDeadline(time.Now().Add(10 * time.Second))
	h := make([]byte, 8)
	if _, err := io.ReadFull(c, h); err != nil {
		t.Fatal("no response: ", err)
	}
	b := make([]byte, int(binary.BigEndian.Uint32(h))-4)
	if _, err := io.ReadFull(c, b); err != nil {
		t.Fatal("short response: ", err)
	}
	return int32(binary.BigEndian.Uint32(h[4:])), b
}

func seedCall(t *testing.T, c net.Conn, req []byte) []byte {
	t.Helper()
	if _, err := c.Write(req); err != nil {
		t.Fatal(err)
	}
	_, b := seedResp(t, c)
	return b
}

func seedWithin(t *testing.T, d time.Duration, what string, fn func()) {
	t.Helper()
	done := make(chan bool)
	go func() {
		fn()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatal(what)
	}
}

func seedEq(t *testing.T, got, want []byte) {
	t.Helper()
	if !bytes.Equal(got, want) {
		t.Fatalf("got  %x\\nwant %x", got, want)
	}
}

'''
def T(body): return HEAD + body

SEEDS = [
("C04-correlation-16-bits", "C04", "a correlation id above 32767, after some 32 thousand requests of a client",
 "the correlation id is kept in 16 bits, so later responses carry another id than their request",
 [("kafka-client.go", "		CorrelationId     int\n", "		CorrelationId     int16\n"),
  ("kafka-client.go", "		CorrelationId:     int(hdr.CorrelationId),", "		CorrelationId:     int16(hdr.CorrelationId),")],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21104)
	c := seedDial(t, 21104)
	for _, id := range []int32{1, 70000, 0x7fffffff} {
		c.Write(seedReq(18, 0, id))
		if got, _ := seedResp(t, c); got != id {
			t.Fatalf("request %d answered as %d", id, got)
		}
	}
}
'''), False),
("C09-kept-read-buffer", "C09", "a request that arrives in two reads",
 "the read buffer is made once per connection and becomes the pending input when that is empty, so the next read overwrites the first part of a request that was split",
 [("kafka-client.go", "	for {\n		if kc.latency != 0 {", "	buffer := make([]byte, 8192)\n	for {\n		if kc.latency != 0 {"),
  ("kafka-client.go", "			buffer := make([]byte, 8192)\n", ""),
  ("kafka-client.go", "			kc.inbound = append(kc.inbound, buffer[:n]...)\n			continue\n",
   "			if len(kc.inbound) == 0 {\n				kc.inbound = buffer[:n:n]\n				continue\n			}\n			kc.inbound = append(kc.inbound, buffer[:n]...)\n			continue\n")],
 T('''func TestSeedDemo(t *testing.T) {
	if os.Getenv("SEED_CHILD") == "" {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestSeedDemo$", "-test.v")
		cmd.Env = append(os.Environ(), "SEED_CHILD=1")
		out, err := cmd.CombinedOutput()
		if err != nil {
			t.Fatalf("%v: %s", err, out)
		}
		return
	}
	seedStart(21109)
	c := seedDial(t, 21109)
	r := seedReq(18, 0, 77)
	c.Write(r[:9])
	time.Sleep(300 * time.Millisecond)
	c.Write(r[9:])
	if id, _ := seedResp(t, c); id != 77 {
		t.Fatal("wrong id")
	}
}
'''), False),
("C09-size-16-bits", "C09", "a request of more than 64 KiB",
 "only the low half of the four-byte length is used, so a large request is cut at the wrong place",
 [("inbound-utils.go", "	msgSize := binary.BigEndian.Uint32(inbound)\n", "	msgSize := uint32(binary.BigEndian.Uint16(inbound[2:]))\n")],
 T('''func TestSeedDemo(t *testing.T) {
	if os.Getenv("SEED_CHILD") == "" {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestSeedDemo$", "-test.v")
		cmd.Env = append(os.Environ(), "SEED_CHILD=1")
		out, err := cmd.CombinedOutput()
		if err != nil {
			t.Fatalf("%v: %s", err, out)
		}
		return
	}
	seedStart(21110)
	c := seedDial(t, 21110)
	var names []byte
	for i := 0; i < 20000; i++ {
		names = append(names, seedBytes(fmt.Sprint("t", i))...)
	}
	c.Write(seedReq(3, 1, 5, int32(20000), names))
	if id, b := seedResp(t, c); id != 5 || len(b) < 20000 {
		t.Fatal("wrong answer")
	}
}
'''), False),
("C16-done-before-clients", "C16", "a client still being served when the mock is told to stop",
 "connections are no longer counted in the wait group that termination waits for, and the accept loop leaves it before it waits for them, so WaitForTermination returns while connections are still served",
 [("kafka-mock.go", "		km.active.Wait()\n		km.started.Store(false)\n		km.wg.Done()\n", "		km.wg.Done()\n		km.active.Wait()\n		km.started.Store(false)\n"),
  ("kafka-mock.go", "			km.active.Done()\n			km.wg.Done()\n", "			km.active.Done()\n"),
  ("kafka-mock.go", "		km.active.Add(1)\n		km.wg.Add(1)\n", "		km.active.Add(1)\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21116)
	c := seedDial(t, 21116)
	seedCall(t, c, seedReq(18, 0, 1))
	km.RequestStop()
	km.WaitForTermination()
	km.mu.Lock()
	n := len(km.clients)
	km.mu.Unlock()
	if n != 0 {
		t.Fatalf("terminated with %d clients being served", n)
	}
}
'''), False),
("C17-refused-not-closed", "C17", "a client that connects after FinishRequests",
 "a connection accepted after the mock was told to finish is neither served nor closed",
 [("kafka-mock.go", "			// don't accept more connections\n			connection.Close()\n			continue\n", "			// don't accept more connections\n			km.l.Tracef(\"refused: %s\", connection.RemoteAddr().String())\n			continue\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21117)
	km.FinishRequests()
	c := seedDial(t, 21117)
	c.SetReadDeadline(time.Now().Add(4 * time.Second))
	if _, err := c.Read(make([]byte, 1)); errors.Is(err, os.ErrDeadlineExceeded) {
		t.Fatal("the connection is left open")
	}
}
'''), False),
("C18-signal-only-when-idle", "C18", "a client that has sent part of a request when the mock is stopped",
 "the shutdown signal is looked at only when no part of a request is pending, so a client that never completes its request keeps the mock from terminating",
 [("kafka-client.go", '''			select {
			case <-kc.l.Done():
				// don't accept more requests
				kc.conn.Close()
				return
			default:
				// keep going
			}
''', '''			if len(kc.inbound) == 0 {
				select {
				case <-kc.l.Done():
					// don't accept more requests
					kc.conn.Close()
					return
				default:
					// keep going
				}
			}
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21118)
	c := seedDial(t, 21118)
	c.Write([]byte{0, 0, 0})
	time.Sleep(300 * time.Millisecond)
	km.RequestStop()
	seedWithin(t, 8*time.Second, "does not terminate", km.WaitForTermination)
}
'''), False),
("C18-deadline-not-renewed", "C18", "a client that is idle for more than a second before its next request",
 "the read deadline is renewed only after a request was served; once it has passed, every read fails at once and the connection spins without ever receiving again",
 [("kafka-client.go", "			kc.conn.SetReadDeadline(time.Now().Add(time.Second))\n", "			if served {\n				kc.conn.SetReadDeadline(time.Now().Add(3 * time.Second))\n				served = false\n			}\n"),
  ("kafka-client.go", "	for {\n		if kc.latency != 0 {", "	served := true\n	for {\n		if kc.latency != 0 {"),
  ("kafka-client.go", "		kc.requestWg.Add(1)\n		reader", "		served = true\n		kc.requestWg.Add(1)\n		reader")],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21119)
	c := seedDial(t, 21119)
	seedCall(t, c, seedReq(18, 0, 1))
	time.Sleep(4 * time.Second)
	seedCall(t, c, seedReq(18, 0, 2))
}
'''), False),
("C24-number-reused", "C24", "a client that connects after an earlier one of two has left",
 "a connection is numbered by how many clients are connected, so a number still in use is given again and that client is lost from the list",
 [("kafka-mock.go", "		cxnNumber++\n", "		cxnNumber = len(km.clients) + 1\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21124)
	count := func(n int) bool {
		for i := 0; i < 60; i++ {
			km.mu.Lock()
			k := len(km.clients)
			km.mu.Unlock()
			if k == n {
				return true
			}
			time.Sleep(50 * time.Millisecond)
		}
		return false
	}
	count(0)
	a := seedDial(t, 21124)
	seedCall(t, a, seedReq(18, 0, 1))
	b := seedDial(t, 21124)
	seedCall(t, b, seedReq(18, 0, 1))
	a.Close()
	if !count(1) {
		t.Fatal("one client expected")
	}
	c := seedDial(t, 21124)
	seedCall(t, c, seedReq(18, 0, 1))
	if !count(2) {
		t.Fatal("two clients expected")
	}
}
'''), False),
("C12-check-then-store", "C12", "two members of a group committing the same partition at the same moment",
 "a commit reads the committed offset and stores the new one in two separate critical sections, so a lower commit can replace a higher one made in between",
 [("offset_commit.go", '''				kp.lock()
				offset := kp.GroupCommittedOffsets[request.GroupId]
				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
				}
				kp.unlock()
''', '''				if offset := kp.groupCommittedOffset(request.GroupId); offset < par.CommittedOffset {
					kc.l.Tracef("kafka offset moves to %d", par.CommittedOffset)
					kp.lock()
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					kp.unlock()
				}
''')],
 T('''// seedLane takes its time to log.
type seedLane struct{ lane.Lane }

func (l seedLane) DeriveWithCancel() (lane.Lane, context.CancelFunc) {
	d, c := l.Lane.DeriveWithCancel()
	return seedLane{d}, c
}

func (l seedLane) Tracef(string, ...any) {
	time.Sleep(time.Duration(time.Now().UnixNano()%200) * time.Microsecond)
}

func TestSeedDemo(t *testing.T) {
	const workers, rounds = 8, 1500
	km := NewKafkaMock(seedLane{lane.NewNullLane(context.Background())}, 21112)
	km.Start()
	time.Sleep(500 * time.Millisecond)
	km.CreatePartitionTopics([]string{"a"}, 0)
	var wg sync.WaitGroup
	bad := make(chan string, workers)
	for w := 0; w < workers; w++ {
		c := seedDial(t, 21112)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 1; i <= rounds; i++ {
				at := int64(i*workers + w)
				seedCall(t, c, seedReq(8, 2, 1, "g", int32(1), "m", int64(0), int32(1), "a", int32(1), int32(0), at, int16(-1)))
				b := seedCall(t, c, seedReq(9, 1, 1, "g", int32(1), "a", int32(1), int32(0)))
				if len(b) < 23 {
					continue
				}
				if got := int64(binary.BigEndian.Uint64(b[15:])); got < at {
					bad <- fmt.Sprintf("committed %d, then %d is stored", at, got)
					return
				}
				if len(bad) > 0 {
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
'''), False),
("C10-skips-what-does-not-fit", "C10", "a fetch whose partition limit is reached by a large record followed by a small one, while another partition still has records",
 "the cursor moves on past a record that does not fit, so later, smaller records are given in its place under its offset",
 [("fetch.go", '''					if fd.ms.appendMessage(rec, fd.maxSize) {
						more = true
						fd.offset++
					}
''', '''					if fd.ms.appendMessage(rec, fd.maxSize) {
						more = true
					}
					fd.offset++
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21120)
	km.SimplePost("a", 0, nil, []byte("first"))
	km.SimplePost("a", 0, nil, make([]byte, 1000))
	km.SimplePost("a", 0, nil, []byte("third"))
	for i := 0; i < 5; i++ {
		km.SimplePost("a", 1, nil, []byte{1})
	}
	c := seedDial(t, 21120)
	b := seedCall(t, c, seedReq(1, 2, 1, int32(-1), int32(100), int32(1), int32(1), "a", int32(2),
		int32(0), int64(0), int32(200), int32(1), int64(0), int32(10000)))
	if bytes.Contains(b, []byte("third")) {
		t.Fatal("the second record was skipped")
	}
}
'''), False),
("C13-partition-cache", "C13", "one list-offsets request for the same partition number of two topics",
 "partitions found are remembered by their number for the whole request, so the second topic is answered with the first one's offsets",
 [("list_offsets.go", "	for _, t := range request.Topics {\n", "	found := map[int32]*kafkaPartition{}\n	for _, t := range request.Topics {\n"),
  ("list_offsets.go", "			var kp *kafkaPartition\n			if kt != nil {\n				kp = kt.getPartition(p.PartitionIndex)\n			}\n", "			kp := found[p.PartitionIndex]\n			if kt != nil && kp == nil {\n				kp = kt.getPartition(p.PartitionIndex)\n				found[p.PartitionIndex] = kp\n			}\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21113)
	km.SimplePost("a", 0, nil, nil)
	km.SimplePost("b", 0, nil, nil)
	km.SimplePost("b", 0, nil, nil)
	c := seedDial(t, 21113)
	b := seedCall(t, c, seedReq(2, 1, 1, int32(-1), int32(2), "a", int32(1), int32(0), int64(-1), "b", int32(1), int32(0), int64(-1)))
	if n := binary.BigEndian.Uint64(b[len(b)-8:]); n != 2 {
		t.Fatalf("latest offset of b is %d", n)
	}
}
'''), False),
("C14-topic-carried-over", "C14", "a list-offsets request that names an unknown topic after a known one",
 "the topic found for an earlier entry is used for a later entry that names none, which is then answered without the unknown-topic error",
 [("list_offsets.go", "	for _, t := range request.Topics {\n		kt := kc.ds.getTopic(t.Name)\n", "	var kt *kafkaTopic\n	for _, t := range request.Topics {\n		if found := kc.ds.getTopic(t.Name); found != nil {\n			kt = found\n		}\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21114)
	km.SimplePost("a", 0, nil, nil)
	c := seedDial(t, 21114)
	b := seedCall(t, c, seedReq(2, 1, 1, int32(-1), int32(2), "a", int32(1), int32(0), int64(-1), "b", int32(1), int32(0), int64(-1)))
	if n := binary.BigEndian.Uint16(b[len(b)-18:]); n != 3 {
		t.Fatalf("error code %d for an unknown topic", n)
	}
}
'''), False),
("C15-empty-topic-left-out", "C15", "an offset commit that names a topic without partitions",
 "a topic entry without partitions is left out of the response",
 [("offset_commit.go", "	for _, topic := range request.Topics {\n", "	for _, topic := range request.Topics {\n		if len(topic.Partitions) == 0 {\n			continue\n		}\n")],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21115)
	c := seedDial(t, 21115)
	b := seedCall(t, c, seedReq(8, 2, 1, "g", int32(1), "m", int64(0), int32(1), "a", int32(0)))
	seedEq(t, b, seedBytes(int32(1), "a", int32(0)))
}
'''), False),
("C19-port-16-bits", "C19", "a mock that listens on a port above 32767",
 "the coordinator's port is narrowed to 16 bits with a sign, so high ports are given as negative numbers",
 [("find_coordinator.go", "		Port:   int32(kc.serverPort),", "		Port:   int32(int16(kc.serverPort)),")],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(42119)
	c := seedDial(t, 42119)
	b := seedCall(t, c, seedReq(10, 0, 1, "g"))
	if p := int32(binary.BigEndian.Uint32(b[len(b)-4:])); p != 42119 {
		t.Fatalf("the coordinator is at port %d", p)
	}
}
'''), False),
("C20-shared-numbers", "C20", "a group member that synchronises when there are several topics",
 "one slice is reused for the partition numbers of every topic, so the entries of all topics share the last topic's numbers",
 [("sync_group.go", "	for name, topic := range ds.Topics {\n", "	pars := make([]int32, 0, 16)\n	for name, topic := range ds.Topics {\n"),
  ("sync_group.go", "		pars := make([]int32, 0, len(topic.Partitions))\n", "		pars = pars[:0]\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21121)
	km.CreatePartitionTopics([]string{"a"}, 1)
	km.CreatePartitionTopics([]string{"b"}, 2)
	c := seedDial(t, 21121)
	b := seedCall(t, c, seedReq(14, 0, 1, "g", int32(1), "m", int32(0)))
	for i, name := range []string{"a", "b"} {
		if !bytes.Contains(b, seedBytes(name, int32(1), int32(i+1))) {
			t.Fatalf("wrong partitions of %s: %x", name, b)
		}
	}
}
'''), False),
("C21-checksum-before-clamp", "C21", "a record with a timestamp before 1970",
 "a negative timestamp is replaced after the checksum was computed, so the checksum does not match the message",
 [("encoder.go", "	mv1.Crc = int32(mv1.crc())\n", "	mv1.Crc = int32(mv1.crc())\n	if mv1.Timestamp < 0 {\n		mv1.Timestamp = -1\n	}\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21122)
	km.ExtendedPost("a", 0, nil, []byte("v"), nil, time.UnixMilli(-5000))
	c := seedDial(t, 21122)
	b := seedCall(t, c, seedReq(1, 2, 1, int32(-1), int32(100), int32(1), int32(1), "a", int32(1), int32(0), int64(0), int32(200)))
	m := b[len(b)-35:]
	if got := binary.BigEndian.Uint32(m[12:]); got != crc32.ChecksumIEEE(m[16:]) {
		t.Fatalf("checksum %x does not match %x", got, m)
	}
}
''').replace('	"fmt"\n	"io"', '	"fmt"\n	"hash/crc32"\n	"io"'), False),
("C22-shared-read-buffer", "C22", "two connections that receive at the same moment",
 "all connections of all mocks read into one buffer of the package",
 [("kafka-client.go", "			buffer := make([]byte, 8192)\n", "			buffer := readBuffer\n"),
  ("kafka-client.go", "func (kc *kafkaClient) handle() {\n", "var readBuffer = make([]byte, 8192)\n\nfunc (kc *kafkaClient) handle() {\n")],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21125)
	seedStart(21126)
	var wg sync.WaitGroup
	for i := uint(0); i < 4; i++ {
		c := seedDial(t, 21125+i%2)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 300; k++ {
				seedCall(t, c, seedReq(18, 0, int32(k)))
			}
		}()
	}
	wg.Wait()
}
'''), True),
("C23-null-metadata", "C23", "a commit with null metadata that raises the offset",
 "the metadata of a commit, which may be null, is dereferenced",
 [("offset_commit.go", '''					kc.l.Tracef("kafka offset moved to %d", par.CommittedOffset)
''', '''					kc.l.Tracef("kafka offset moved to %d (%s)", par.CommittedOffset, *par.CommittedMetadata)
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21123)
	km.CreatePartitionTopics([]string{"a"}, 0)
	c := seedDial(t, 21123)
	seedCall(t, c, seedReq(8, 2, 1, "g", int32(1), "m", int64(0), int32(1), "a", int32(1), int32(0), int64(5), int16(-1)))
}
'''), False),
("C07-padding-ignored", "C07", "a request followed by zero bytes within its declared length",
 "zero bytes left over after a request are taken as padding and the request is answered",
 [("kafka-client.go", """	remaining, _ := reader.Peek(msgLength)
	if len(remaining) != 0 {
""", """	remaining, _ := reader.Peek(msgLength)
	if len(bytes.Trim(remaining, "\\x00")) != 0 {
""")],
 T('''func TestSeedDemo(t *testing.T) {
	if os.Getenv("SEED_CHILD") == "" {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestSeedDemo$", "-test.v")
		cmd.Env = append(os.Environ(), "SEED_CHILD=1")
		out, _ := cmd.CombinedOutput()
		if !strings.Contains(string(out), "SENT") || strings.Contains(string(out), "ANSWERED") {
			t.Fatalf("a request with bytes left over was answered: %s", out)
		}
		return
	}
	seedStart(21107)
	c := seedDial(t, 21107)
	fmt.Println("SENT")
	c.Write(seedReq(10, 0, 1, "g", int32(0)))
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	if n, _ := c.Read(make([]byte, 4)); n > 0 {
		fmt.Println("ANSWERED")
	}
}
'''), False),
("C08-buffer-as-declared", "C08", "a client that declares a huge request and sends only its length",
 "the read buffer is made as large as the length the request declares",
 [("kafka-client.go", "			buffer := make([]byte, 8192)\n", '''			size := 8192
			if len(kc.inbound) >= 4 {
				// read the rest of a large request in one go
				if n := int(binary.BigEndian.Uint32(kc.inbound)); n > size {
					size = n
				}
			}
			buffer := make([]byte, size)
'''), ("kafka-client.go", '	"bytes"\n	"errors"\n', '	"bytes"\n	"encoding/binary"\n	"errors"\n')],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21108)
	c := seedDial(t, 21108)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	c.Write(seedBytes(int32(500000000)))
	time.Sleep(2500 * time.Millisecond)
	runtime.ReadMemStats(&after)
	if n := after.TotalAlloc - before.TotalAlloc; n > 100000000 {
		t.Fatalf("%d bytes allocated for a request that was never sent", n)
	}
}
'''), False),
("C05-repaired-strings", "C05", "a topic whose name is not valid UTF-8",
 "strings are cleaned while they are written, after their length was written, so the bytes do not match the length",
 [("encoder.go", "		encodeInt16(writer, int16(len(*v)))\n		writer.Write([]byte(*v))\n", "		encodeInt16(writer, int16(len(*v)))\n		writer.Write([]byte(strings.ToValidUTF8(*v, \"\\uFFFD\")))\n"),
  ("encoder.go", '	"sort"\n', '	"sort"\n	"strings"\n')],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21105)
	c := seedDial(t, 21105)
	b := seedCall(t, c, seedReq(8, 2, 1, "g", int32(1), "m", int64(0), int32(1), "a\\xffb", int32(0)))
	seedEq(t, b, seedBytes(int32(1), "a\\xffb", int32(0)))
}
'''), False),
("C06-heartbeat-v1", "C06", "a client that uses the highest Heartbeat version advertised",
 "Heartbeat version 1 is served by the handler of version 0, whose response lacks the throttle time",
 [("api-keys.go", "		makeApiKey(ApiKeyHeartbeat, 0):       heartbeatV0,\n", "		makeApiKey(ApiKeyHeartbeat, 0):       heartbeatV0,\n		makeApiKey(ApiKeyHeartbeat, 1):       heartbeatV0,\n")],
 T('''func TestSeedDemo(t *testing.T) {
	seedStart(21106)
	c := seedDial(t, 21106)
	b := seedCall(t, c, seedReq(18, 0, 1))
	b = b[6:]
	for ; len(b) >= 6; b = b[6:] {
		if binary.BigEndian.Uint16(b) == 12 {
			max := int16(binary.BigEndian.Uint16(b[4:]))
			r := seedCall(t, c, seedReq(12, max, 2, "g", int32(1), "m"))
			want := 2
			if max > 0 {
				want = 6
			}
			if len(r) != want {
				t.Fatalf("version %d answered with %d bytes", max, len(r))
			}
			return
		}
	}
	t.Fatal("not advertised")
}
'''), False),
("C11-zero-wait", "C11", "a fetch with a maximum wait of zero and nothing to return",
 "a maximum wait of zero is taken as no limit, so the fetch is answered only when a record arrives",
 [("fetch.go", "			if hasOne || time.Now().After(expiration) {\n", "			if hasOne || request.MaxWaitMs != 0 && time.Now().After(expiration) {\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21111)
	km.CreatePartitionTopics([]string{"a"}, 0)
	c := seedDial(t, 21111)
	seedCall(t, c, seedReq(1, 2, 1, int32(-1), int32(0), int32(1), int32(1), "a", int32(1), int32(0), int64(0), int32(200)))
}
'''), False),
("C11-wait-overflows", "C11", "a fetch with a maximum wait of more than two seconds and nothing to return",
 "the wait is multiplied in 32 bits, so longer waits wrap around",
 [("fetch.go", "	expiration := time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond)\n", "	expiration := time.Now().Add(time.Duration(request.MaxWaitMs * int32(time.Millisecond)))\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21111)
	km.CreatePartitionTopics([]string{"a"}, 0)
	c := seedDial(t, 21111)
	at := time.Now()
	seedCall(t, c, seedReq(1, 2, 1, int32(-1), int32(3000), int32(1), int32(1), "a", int32(1), int32(0), int64(0), int32(200)))
	if d := time.Since(at); d < 2900*time.Millisecond {
		t.Fatalf("answered after %v", d)
	}
}
'''), False),
("C02-commit-keeps-lock", "C02", "an offset commit that does not raise the committed offset",
 "a commit that changes nothing goes on to the next partition with this one still locked",
 [("offset_commit.go", '''				offset := kp.GroupCommittedOffsets[request.GroupId]
				if offset < par.CommittedOffset {
''', '''				offset, exists := kp.GroupCommittedOffsets[request.GroupId]
				if exists && offset > par.CommittedOffset {
					// stale
					rtopic.Partitions = append(rtopic.Partitions, rpar)
					continue
				}
				if offset < par.CommittedOffset {
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21127)
	km.CreatePartitionTopics([]string{"a"}, 0)
	km.SetConsumerGroupOffset("a", 0, "g", 9)
	c := seedDial(t, 21127)
	seedCall(t, c, seedReq(8, 2, 1, "g", int32(1), "m", int64(0), int32(1), "a", int32(1), int32(0), int64(5), int16(-1)))
	seedWithin(t, 4*time.Second, "hangs", func() { km.SimplePost("a", 0, nil, nil) })
}
'''), False),
("C03-trimmed", "C03", "more than a hundred thousand records in one partition",
 "the oldest record of a partition is dropped when it gets long, so the offsets of all others change",
 [("datastore.go", "	kp.Records = append(kp.Records, record)\n", "	if len(kp.Records) >= 100000 {\n		kp.Records = kp.Records[1:]\n	}\n	kp.Records = append(kp.Records, record)\n")],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedMock(21128)
	for i := 0; i < 100100; i++ {
		km.SimplePost("a", 0, nil, []byte(fmt.Sprint(i)))
	}
	kp := km.ds.getTopic("a").getPartition(0)
	if n := len(kp.Records); n != 100100 {
		t.Fatalf("%d records kept", n)
	}
	if string(kp.Records[7].Value) != "7" {
		t.Fatal("records moved")
	}
}
'''), False),
("C01-committed-offset-unlocked", "C01", "an offset fetch while another client commits",
 "the committed offset is read without the partition's lock when the group is known",
 [("datastore.go", '''	kp.mu.Lock()
	defer kp.mu.Unlock()

	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.GroupCommittedOffsets[group] = 0
	}
''', '''	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.mu.Lock()
		defer kp.mu.Unlock()

		kp.GroupCommittedOffsets[group] = 0
	}
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedStart(21129)
	km.CreatePartitionTopics([]string{"a"}, 0)
	km.SetConsumerGroupOffset("a", 0, "g", 1)
	c := seedDial(t, 21129)
	go func() {
		for i := 0; i < 100000; i++ {
			km.SetConsumerGroupOffset("a", 0, "g", int64(i))
		}
	}()
	for i := 0; i < 200; i++ {
		seedCall(t, c, seedReq(9, 1, 1, "g", int32(1), "a", int32(1), int32(0)))
	}
}
'''), True),
]
