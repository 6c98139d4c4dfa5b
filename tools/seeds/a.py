HEAD = '''package kafkamock

import (
	"context"
	"testing"
	"time"
%s
	"github.com/jimsnab/go-lane"
)

var _ = context.Background
var _ = time.Now

func seedMock(port uint) *KafkaMock {
	return NewKafkaMock(lane.NewTestingLane(context.Background()), port)
}

'''
def T(body, imports=()):
    return HEAD % "".join('\t"%s"\n' % i for i in imports) + body

SEEDS = [
("C01-createtopic-unlocked-read", "C01",
 "a post to an existing topic while another goroutine creates a topic",
 "createTopic looks the topic up before taking the store's lock, so the map is read while another goroutine writes it",
 [("datastore.go", '''	ds.mu.Lock()
	defer ds.mu.Unlock()

	topic, exists := ds.Topics[name]
	if !exists {
		topic = &kafkaTopic{''', '''	// most posts go to a topic that exists
	topic, exists := ds.Topics[name]
	if exists {
		return topic
	}

	ds.mu.Lock()
	defer ds.mu.Unlock()

	topic, exists = ds.Topics[name]
	if !exists {
		topic = &kafkaTopic{''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedMock(21001)
	km.SimplePost("a", 0, nil, nil)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			km.SimplePost("a", 0, nil, nil)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			km.CreatePartitionTopics([]string{fmt.Sprint("t", i)}, 0)
		}
	}()
	wg.Wait()
}
''', ["fmt", "sync"]), True),
("C02-setoffset-leaks-lock", "C02",
 "a group offset set twice to the same value",
 "SetConsumerGroupOffset returns with the partition still locked when the offset is already the stored one; the next use of the partition hangs",
 [("kafka-mock.go", '''			kp.mu.Lock()
			defer kp.mu.Unlock()

			kp.GroupCommittedOffsets[group] = offset
''', '''			kp.mu.Lock()
			if current, exists := kp.GroupCommittedOffsets[group]; exists && current == offset {
				return
			}
			kp.GroupCommittedOffsets[group] = offset
			kp.mu.Unlock()
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedMock(21002)
	km.SimplePost("a", 0, nil, nil)
	done := make(chan bool)
	go func() {
		km.SetConsumerGroupOffset("a", 0, "g", 5)
		km.SetConsumerGroupOffset("a", 0, "g", 5)
		km.SetConsumerGroupOffset("a", 0, "g", 6)
		km.SimplePost("a", 0, nil, nil)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("hangs")
	}
}
'''), False),
("C03-createpartition-two-sections", "C03",
 "two goroutines creating the same partition of a topic at the same moment",
 "createPartition checks for the partition and inserts it in two separate critical sections, so the second creator replaces the first one's partition and its records are lost",
 [("datastore.go", '''	kp.mu.Lock()
	defer kp.mu.Unlock()

	partition, exists := kp.Partitions[number]
	if !exists {
		partition = &kafkaPartition{
			Index:                 number,
			Records:               []*kafkaRecord{},
			GroupCommittedOffsets: map[string]int64{},
		}
		kp.Partitions[number] = partition
	}
	return partition
''', '''	partition := kp.getPartition(number)
	if partition == nil {
		partition = &kafkaPartition{
			Index:                 number,
			Records:               []*kafkaRecord{},
			GroupCommittedOffsets: map[string]int64{},
		}
		kp.mu.Lock()
		defer kp.mu.Unlock()
		kp.Partitions[number] = partition
	}
	return partition
''')],
 T('''func TestSeedDemo(t *testing.T) {
	km := seedMock(21003)
	const workers = 16
	for round := 0; round < 3000; round++ {
		var wg sync.WaitGroup
		gate := make(chan bool)
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				km.SimplePost("a", round, nil, []byte{1})
			}()
		}
		close(gate)
		wg.Wait()
		kp := km.ds.getTopic("a").getPartition(int32(round))
		if n := len(kp.Records); n != workers {
			t.Fatalf("round %d: %d of %d records kept", round, n, workers)
		}
	}
}
''', ["sync"]), False),
]
