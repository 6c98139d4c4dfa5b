M="kafka-mock.go"; C="kafka-client.go"; S="kafka-message.go"; I="inbound-utils.go"; A="api-keys.go"; D="datastore.go"; E="encoder.go"
CASES=[]
def k(name,props,*edits): CASES.append((name,"kill",props.split(),list(edits)))
def q(name,*edits): CASES.append((name,"quiet",[],list(edits)))
READ='''			buffer := make([]byte, 8192)
			kc.conn.SetReadDeadline(time.Now().Add(time.Second))
			n, err := kc.conn.Read(buffer)
'''
SEL='''			select {
			case <-kc.l.Done():
				// don't accept more requests
				kc.conn.Close()
				return
			default:
				// keep going
			}
'''
DEFER='''	defer func() {
		kc.conn.Close()
		kc.wg.Done()
		kc.oc()
		kc.l.Tracef("client %d task done", kc.clientPort)
	}()
'''
CLOSURE='''		kc := newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
			km.mu.Lock()
			delete(km.clients, id)
			km.active.Done()
			km.wg.Done()
			km.mu.Unlock()
		})
		km.clients[cxnNumber] = kc
		km.active.Add(1)
		km.wg.Add(1)
		km.mu.Unlock()
'''
SEND='''	number := []byte{0, 0, 0, 0}
	convertInt32(number, int32(payloadSize))
	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d response size: %v", km.port, err)
		return
	}

	convertInt32(number, int32(km.hdr.CorrelationId))
	if _, err = km.conn.Write(number); err != nil {
		km.l.Errorf("error sending kafka %d correlation id: %v", km.port, err)
		return
	}

	if _, err = km.conn.Write(payload); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
'''
# ---- C04
k("c04-size-swap","C04",(S,"payloadSize := 4 + len(payload)","payloadSize := len(payload)"))
k("c04-corr-client","C04",(S,"int32(km.hdr.CorrelationId)","int32(km.hdr.RequestApiKey)"))
k("c04-corr-trunc","C04",(S,"int32(km.hdr.CorrelationId)","int32(int16(km.hdr.CorrelationId))"))
k("c04-chunk","C04",(S,"km.conn.Write(payload)","km.conn.Write(payload[:min(len(payload), 65536)])"))
k("c04-le","C04",(E,"func convertInt32(bytes []byte, v int32) {\n\tbinary.BigEndian","func convertInt32(bytes []byte, v int32) {\n\tbinary.LittleEndian"))
k("c04-noflush","C04",(C,"	w.Flush()\n\n	km := newKafkaMessage",'	if buf.Len() == 0 {\n\t\tw.Flush()\n\t}\n\n	km := newKafkaMessage'))
k("c04-async","C04",(C,'''	if err = km.send(buf.Bytes()); err != nil {
		if !kc.isConnected() {
			// the client dropped - ignore the error
			err = nil
		}
		return
	}
''','''	go km.send(buf.Bytes())
'''))
k("c04-asyncdispatch","C04 C09",(C,'''		func() {
			defer kc.requestWg.Done()
			if err := kc.dispatcher(reader, msg.Len()); err != nil {
				panic(err)
			}
		}()''','''		go func() {
			defer kc.requestWg.Done()
			if err := kc.dispatcher(reader, msg.Len()); err != nil {
				panic(err)
			}
		}()'''))
k("c04-sendonerr","C04",(C,'''	if err != nil {
		return
	}

	remaining''','''	if err != nil && response == nil {
		return
	}

	remaining'''))
k("c04-leftover","C07",(C,"if len(remaining) != 0 {","if len(remaining) > 4 {"))
k("c04-droperr","C04",(C,"if err = km.send(buf.Bytes()); err != nil {","if buf.Len() > 1<<20 {\n\t\treturn\n\t}\n\tif err = km.send(buf.Bytes()); err != nil {"))
k("c04-twice","C04",(C,"	if err = km.send(buf.Bytes()); err != nil {","	if err = km.send(buf.Bytes()); err != nil {\n\t\terr = km.send(buf.Bytes())\n\t}\n\tif err != nil {"))
k("c04-sharedbuf","C22 C04",(C,"	var buf bytes.Buffer\n","	buf := &sharedBuf\n	buf.Reset()\n"),(C,"w := bufio.NewWriter(&buf)","w := bufio.NewWriter(buf)"),(C,None,"\nvar sharedBuf bytes.Buffer\n"))
k("c04-kmhshared","C22",(C,"	kmh := kafkaMessageHeader{","	lastHeader = kafkaMessageHeader{"),(C,"handler(reader, kc, &kmh)","handler(reader, kc, &lastHeader)"),(C,"newKafkaMessage(kc.l, kc.conn, &kmh)","newKafkaMessage(kc.l, kc.conn, &lastHeader)"),(C,None,"\nvar lastHeader kafkaMessageHeader\n"))
q("c04-onewrite",(S,SEND,'''	out := make([]byte, 8, 8+len(payload))
	binary.BigEndian.PutUint32(out, uint32(payloadSize))
	binary.BigEndian.PutUint32(out[4:], uint32(km.hdr.CorrelationId))
	out = append(out, payload...)
	if _, err = km.conn.Write(out); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
'''),(S,'import (\n','import (\n\t"encoding/binary"\n'))
q("c04-append",(S,SEND,'''	var out []byte
	out = binary.BigEndian.AppendUint32(out, uint32(payloadSize))
	out = binary.BigEndian.AppendUint32(out, uint32(km.hdr.CorrelationId))
	out = append(out, payload...)
	if _, err = km.conn.Write(out); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
'''),(S,'import (\n','import (\n\t"encoding/binary"\n'))
q("c04-headerarr",(S,SEND,'''	var head [8]byte
	binary.BigEndian.PutUint32(head[0:4], uint32(payloadSize))
	binary.BigEndian.PutUint32(head[4:8], uint32(km.hdr.CorrelationId))
	for _, part := range [][]byte{head[:], payload} {
		if _, err = km.conn.Write(part); err != nil {
			km.l.Errorf("error sending kafka %d response: %v", km.port, err)
			return
		}
	}
'''),(S,'import (\n','import (\n\t"encoding/binary"\n'))
q("c04-helper",(S,SEND,'''	if err = km.writeNumber(payloadSize, "response size"); err != nil {
		return
	}
	if err = km.writeNumber(km.hdr.CorrelationId, "correlation id"); err != nil {
		return
	}
	if _, err = km.conn.Write(payload); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
'''),(S,None,'''
func (km *kafkaMessage) writeNumber(n int, what string) error {
	number := make([]byte, 4)
	convertInt32(number, int32(n))
	_, err := km.conn.Write(number)
	if err != nil {
		km.l.Errorf("error sending kafka %d %s: %v", km.port, what, err)
	}
	return err
}
'''))
q("c04-bufio",(S,SEND,'''	bw := bufio.NewWriter(km.conn)
	number := []byte{0, 0, 0, 0}
	convertInt32(number, int32(payloadSize))
	bw.Write(number)
	convertInt32(number, int32(km.hdr.CorrelationId))
	bw.Write(number)
	bw.Write(payload)
	if err = bw.Flush(); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
'''),(S,'import (\n','import (\n\t"bufio"\n'))
q("c04-binwrite",(S,SEND,'''	var out bytes.Buffer
	binary.Write(&out, binary.BigEndian, int32(payloadSize))
	binary.Write(&out, binary.BigEndian, int32(km.hdr.CorrelationId))
	out.Write(payload)
	if _, err = km.conn.Write(out.Bytes()); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
'''),(S,'import (\n','import (\n\t"bytes"\n\t"encoding/binary"\n'))
q("c04-early",(C,'''	if err = km.send(buf.Bytes()); err != nil {
		if !kc.isConnected() {
			// the client dropped - ignore the error
			err = nil
		}
		return
	}

	return
}''','''	err = km.send(buf.Bytes())
	if err != nil && !kc.isConnected() {
		// the client dropped - ignore the error
		err = nil
	}
	return
}'''))
q("c04-split",(C,'''	remaining, _ := reader.Peek(msgLength)
	if len(remaining) != 0 {
		err = fmt.Errorf("unexpected %d bytes after %T request", len(remaining), response)
		return
	}

	encodeObject(w, response)
	if rtags != nil {
		encodeTags(w, rtags)
	}

	// message fully processed
	w.Flush()

	km := newKafkaMessage(kc.l, kc.conn, &kmh)
	if err = km.send(buf.Bytes()); err != nil {
		if !kc.isConnected() {
			// the client dropped - ignore the error
			err = nil
		}
		return
	}

	return
}''','''	if remaining, _ := reader.Peek(msgLength); len(remaining) > 0 {
		return fmt.Errorf("unexpected %d bytes after %T request", len(remaining), response)
	}

	return kc.respond(&kmh, response, rtags)
}

func (kc *kafkaClient) respond(kmh *kafkaMessageHeader, response any, rtags map[int]any) error {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeObject(w, response)
	if rtags != nil {
		encodeTags(w, rtags)
	}
	w.Flush()

	if err := newKafkaMessage(kc.l, kc.conn, kmh).send(buf.Bytes()); err != nil && kc.isConnected() {
		return err
	}
	return nil
}'''),(C,'''	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)

	var hdr kafkaHeader0''','''	var hdr kafkaHeader0'''))
q("c04-nameddispatch",(C,'''		kc.requestWg.Add(1)
		reader := bufio.NewReaderSize(msg, msg.Len())
		func() {
			defer kc.requestWg.Done()
			if err := kc.dispatcher(reader, msg.Len()); err != nil {
				panic(err)
			}
		}()
''','''		kc.process(msg)
'''),(C,None,'''
func (kc *kafkaClient) process(msg *bytes.Buffer) {
	kc.requestWg.Add(1)
	defer kc.requestWg.Done()
	size := msg.Len()
	if err := kc.dispatcher(bufio.NewReaderSize(msg, size), size); err != nil {
		panic(err)
	}
}
'''))
# ---- C09
k("c09-short","C09",(I,"if len(inbound) < (int(msgSize) + 4) {","if len(inbound) < int(msgSize) {"))
k("c09-clip","C09",(I,"	buf = bytes.NewBuffer(inbound[4 : 4+int(msgSize)])","	buf = bytes.NewBuffer(inbound[4:])"))
k("c09-consume","C09",(C,"kc.inbound = kc.inbound[4+msg.Len():]","kc.inbound = kc.inbound[:0]"))
k("c09-overwrite","C09",(C,"kc.inbound = append(kc.inbound, buffer[:n]...)","kc.inbound = append(kc.inbound[:0:0], buffer[:n]...)"))
k("c09-allbuf","C09",(C,"append(kc.inbound, buffer[:n]...)","append(kc.inbound, buffer...)"))
k("c09-dropsmall","C09",(C,"			if kc.stopping.Load() {","			if n < 2 || kc.stopping.Load() {"))
k("c09-deadlinedrop","C09",(C,"				if errors.Is(err, os.ErrDeadlineExceeded) {\n","				if errors.Is(err, os.ErrDeadlineExceeded) {\n					kc.inbound = []byte{}\n"))
k("c09-timeoutend","C09",(C,"				if errors.Is(err, os.ErrDeadlineExceeded) {\n					continue","				if errors.Is(err, os.ErrDeadlineExceeded) {\n					return"))
k("c09-cap","C09",(C,"			kc.inbound = append(kc.inbound, buffer[:n]...)","			kc.inbound = append(kc.inbound, buffer[:n]...)\n			if len(kc.inbound) > 1<<20 {\n				kc.inbound = kc.inbound[len(kc.inbound)-1<<20:]\n			}"))
k("c09-reader4096","C09 C07",(C,"bufio.NewReaderSize(msg, msg.Len())","bufio.NewReader(msg)"))
k("c09-sharedread","C09 C22",(C,"			buffer := make([]byte, 8192)\n","			buffer := readBuf[:]\n"),(C,"			kc.inbound = append(kc.inbound, buffer[:n]...)","			if len(kc.inbound) == 0 {\n				kc.inbound = buffer[:n]\n				continue\n			}\n			kc.inbound = append(kc.inbound, buffer[:n]...)"),(C,None,"\nvar readBuf [8192]byte\n"))
q("c09-local",(C,"			buffer := make([]byte, 8192)\n",""),(C,"	for {\n		if kc.latency","	buffer := make([]byte, 8192)\n	for {\n		if kc.latency"))
q("c09-fill",(C,READ,'''			buffer, err := kc.fill()
			n := len(buffer)
'''),(C,"append(kc.inbound, buffer[:n]...)","append(kc.inbound, buffer...)"),(C,None,'''
func (kc *kafkaClient) fill() ([]byte, error) {
	buffer := make([]byte, 8192)
	kc.conn.SetReadDeadline(time.Now().Add(time.Second))
	n, err := kc.conn.Read(buffer)
	return buffer[:n], err
}
'''))
q("c09-slice",(I,'''	buf = bytes.NewBuffer(inbound[4 : 4+int(msgSize)])
	return
''','''	body := inbound[4:]
	return bytes.NewBuffer(body[:msgSize])
'''))
q("c09-intsize",(I,'''	msgSize := binary.BigEndian.Uint32(inbound)
	if len(inbound) < (int(msgSize) + 4) {
		return
	}

	buf = bytes.NewBuffer(inbound[4 : 4+int(msgSize)])
	return
''','''	end := 4 + int(binary.BigEndian.Uint32(inbound[:4]))
	if end > len(inbound) {
		return nil
	}
	return bytes.NewBuffer(inbound[4:end])
'''))
q("c09-inner",(C,'''		msg := getMessage(kc.inbound)
		if msg == nil {
'''+SEL,'''		msg := getMessage(kc.inbound)
		if msg == nil {
			if kc.shutdown() {
				// don't accept more requests
				kc.conn.Close()
				return
			}
'''),(C,None,'''
func (kc *kafkaClient) shutdown() bool {
	select {
	case <-kc.l.Done():
		return true
	default:
		return false
	}
}
'''))
q("c09-else",(C,'''				if errors.Is(err, os.ErrDeadlineExceeded) {
					continue
				}
				if !wasSocketClosed(err) {
					panic(fmt.Sprintf("read error: %v", err))
				}
				return
''','''				if !errors.Is(err, os.ErrDeadlineExceeded) {
					if wasSocketClosed(err) {
						return
					}
					panic(fmt.Sprintf("read error: %v", err))
				}
				continue
'''))
# ---- C17
k("c17-noclose","C17",(C,"	defer func() {\n		kc.conn.Close()\n		kc.wg.Done()","	defer func() {\n		kc.wg.Done()"))
k("c17-fd","C17",(C,"	defer f.Close()\n",""))
k("c17-refuse","C17",(M,"			connection.Close()\n			continue","			continue"))
k("c17-listener","C17 C16",(M,"				km.listener.Close()\n",""))
k("c17-condclose","C17",(C,"	defer func() {\n		kc.conn.Close()\n","	defer func() {\n		if len(kc.inbound) == 0 {\n			kc.conn.Close()\n		}\n"))
k("c17-dclose","C16 C17",(C,"	defer func() {\n		kc.conn.Close()\n		kc.wg.Done()","	defer kc.conn.Close()\n	defer func() {\n		kc.wg.Done()"))
q("c17-fclose",(C,'''	defer f.Close()

	b := []byte{0}
	_, _, err = syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
	return err != nil''','''	b := []byte{0}
	_, _, err = syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
	f.Close()
	return err != nil'''))
# ---- C16
k("c16-onlylive","C16",(M,"			km.active.Done()\n			km.wg.Done()\n","			if len(km.clients) > 0 {\n				km.active.Done()\n				km.wg.Done()\n			}\n"))
k("c16-noadd","C16",(M,"		km.wg.Add(1)\n		km.mu.Unlock()","		km.mu.Unlock()"))
k("c16-addlate","C16",(M,"		km.active.Add(1)\n		km.wg.Add(1)\n		km.mu.Unlock()\n","		km.mu.Unlock()\n		km.active.Add(1)\n		km.wg.Add(1)\n"))
k("c16-addingo","C16",(M,"	km.wg.Add(1)\n	km.initializing.Add(1)\n	go km.run()","	km.initializing.Add(1)\n	go km.run()"),(M,"	// establish socket service\n","	km.wg.Add(1)\n"))
k("c16-earlyoc","C16",(C,DEFER,'''	defer func() {
		kc.conn.Close()
		kc.wg.Done()
		kc.l.Tracef("client %d task done", kc.clientPort)
	}()
	kc.oc()
'''))
k("c16-ocbeforeclose","C16",(C,"		kc.conn.Close()\n		kc.wg.Done()\n		kc.oc()\n","		kc.oc()\n		kc.conn.Close()\n		kc.wg.Done()\n"))
k("c16-oncereturn","C16",(C,'''				if !wasSocketClosed(err) {
					panic(fmt.Sprintf("read error: %v", err))
				}
				return
''','''				if !wasSocketClosed(err) {
					panic(fmt.Sprintf("read error: %v", err))
				}
				kc.oc()
				return
'''))
k("c16-nowait","C16",(M,"	km.wg.Wait()\n	km.RequestStop()","	if !km.stopped.Load() {\n		km.wg.Wait()\n	}\n	km.RequestStop()"))
k("c16-noinit","C16",(M,"			km.initializing.Wait()\n\n			// force","			// force"))
k("c16-initearly","C16",(M,"	km.listener = listener\n	cxnNumber := 0\n","	km.initializing.Done()\n	km.listener = listener\n	cxnNumber := 0\n"),(M,'is listening on %s", iface)\n	km.initializing.Done()\n','is listening on %s", iface)\n'))
k("c16-nocancel","C16",(M,"			// cancel any i/o tasks\n			km.cancelFn()\n",""))
k("c16-restartnowait","C16",(M,"	km.RequestStop()\n	km.WaitForTermination()\n	km.Start()","	km.RequestStop()\n	km.Start()"))
k("c16-startedlate","C16",(M,"		km.started.Store(false)\n		km.wg.Done()","		km.wg.Done()\n		km.started.Store(false)"))
k("c16-stopflag","C16",(M,"	km.stopped.Store(false)\n",""))
k("c16-unstarted","C16",(M,"		if km.started.Load() {\n			// wait for startup","		if km.l != nil {\n			// wait for startup"))
k("c16-waitcancel","C16",(M,"	km.wg.Wait()\n	km.RequestStop() //","	km.wg.Wait()\n	km.cancelFn()\n	km.RequestStop() //"))
k("c16-skiprefused","C16",(M,'''		km.l.Tracef("client connected:''','''		if connection.RemoteAddr() == nil {
			km.wg.Add(1)
			connection.Close()
			continue
		}
		km.l.Tracef("client connected:'''))
k("c16-recover","C16",(C,DEFER,'''	defer func() {
		if p := recover(); p != nil {
			kc.conn.Close()
			return
		}
		kc.conn.Close()
		kc.wg.Done()
		kc.oc()
	}()
'''))
q("c16-addfirst",(M,"		kc := newKafkaClient(","		km.active.Add(1)\n		km.wg.Add(1)\n		kc := newKafkaClient("),(M,"		km.clients[cxnNumber] = kc\n		km.active.Add(1)\n		km.wg.Add(1)\n","		km.clients[cxnNumber] = kc\n"))
q("c16-noactive",(M,"		km.active.Wait()\n		km.started","		km.started"),(M,"		km.active.Add(1)\n",""),(M,"			km.active.Done()\n",""),(M,"		active       sync.WaitGroup\n",""))
q("c16-method",(M,CLOSURE,'''		kc := newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() { km.dropped(connection, id) })
		km.clients[id] = kc
		km.active.Add(1)
		km.wg.Add(1)
		km.mu.Unlock()
'''),(M,None,'''
func (km *KafkaMock) dropped(connection net.Conn, id int) {
	km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
	km.mu.Lock()
	defer km.mu.Unlock()
	delete(km.clients, id)
	km.active.Done()
	km.wg.Done()
}
'''))
q("c16-dones",(M,"			delete(km.clients, id)\n			km.active.Done()\n			km.wg.Done()\n			km.mu.Unlock()\n","			delete(km.clients, id)\n			km.mu.Unlock()\n			km.wg.Done()\n			km.active.Done()\n"),(M,"		km.active.Add(1)\n		km.wg.Add(1)\n		km.mu.Unlock()\n","		km.mu.Unlock()\n"),(M,"		cxnNumber++\n","		km.active.Add(1)\n		km.wg.Add(1)\n		cxnNumber++\n"))
q("c16-earlyret",(M,'''	alreadyStopped := km.stopped.Swap(true)
	if !alreadyStopped {
		if km.started.Load() {
			// wait for startup to complete
			km.l.Trace("request stop is ensuring startup completed first")
			km.initializing.Wait()

			// force-close the socket listener
			km.mu.Lock()
			if km.listener != nil {
				km.listener.Close()
				km.l.Trace("kafka mock server listener terminated")
				km.listener = nil
			}
			km.mu.Unlock()

			// cancel any i/o tasks
			km.cancelFn()
		}
	}
''','''	if !km.stopped.CompareAndSwap(false, true) {
		return
	}
	if !km.started.Load() {
		return
	}
	km.initializing.Wait()
	km.closeListener()
	km.cancelFn()
'''),(M,None,'''
func (km *KafkaMock) closeListener() {
	km.mu.Lock()
	defer km.mu.Unlock()
	if km.listener == nil {
		return
	}
	km.listener.Close()
	km.listener = nil
}
'''))
q("c16-cancelfirst",(M,"			// cancel any i/o tasks\n			km.cancelFn()\n",""),(M,"			km.initializing.Wait()\n\n			// force","			km.initializing.Wait()\n			km.cancelFn()\n\n			// force"))
q("c16-rundefers",(M,'''	defer func() {
		km.active.Wait()
		km.started.Store(false)
		km.wg.Done()
	}()
''','''	defer km.wg.Done()
	defer km.started.Store(false)
	defer km.active.Wait()
'''))
# ---- C24
k("c24-lencl","C24",(M,"		id := cxnNumber\n","		id := len(km.clients) + 1\n"),(M,"		km.clients[cxnNumber] = kc","		km.clients[id] = kc"))
k("c24-late","C24",(M,"		km.clients[cxnNumber] = kc\n		km.active.Add(1)\n		km.wg.Add(1)\n		km.mu.Unlock()\n","		km.active.Add(1)\n		km.wg.Add(1)\n		km.mu.Unlock()\n		km.mu.Lock()\n		km.clients[id] = kc\n		km.mu.Unlock()\n"))
k("c24-del","C24",(M,"			delete(km.clients, id)\n			km.active","			if len(km.clients) > 1 {\n				delete(km.clients, id)\n			}\n			km.active"))
k("c24-delfirst","C24",(M,"			delete(km.clients, id)\n			km.active","			for n := range km.clients {\n				delete(km.clients, n)\n				break\n			}\n			_ = id\n			km.active"))
k("c24-count","C24",(M,"		cxnNumber++\n		id := cxnNumber\n","		if len(km.clients) > 0 {\n			cxnNumber++\n		}\n		id := cxnNumber\n"))
k("c24-down","C24",(M,"			delete(km.clients, id)\n			km.active","			delete(km.clients, id)\n			cxnNumber--\n			km.active"))
k("c24-port","C24",(M,"		id := cxnNumber\n","		id := int(netRemotePort(connection))\n"),(M,"		km.clients[cxnNumber] = kc","		km.clients[id] = kc"))
k("c24-clear","C24",(M,"	if km.cancelFn != nil {\n","	km.mu.Lock()\n	km.clients = map[int]*kafkaClient{}\n	km.mu.Unlock()\n	if km.cancelFn != nil {\n"))
q("c24-preinc",(M,"		cxnNumber++\n		id := cxnNumber\n","		id := cxnNumber\n		cxnNumber++\n"),(M,"		km.clients[cxnNumber] = kc","		km.clients[id] = kc"))
q("c24-field",(M,"		latency      time.Duration\n	}","		latency      time.Duration\n		cxnNumber    int\n	}"),(M,"	cxnNumber := 0\n",""),(M,"		cxnNumber++\n		id := cxnNumber\n","		km.cxnNumber++\n		id := km.cxnNumber\n"),(M,"		km.clients[cxnNumber] = kc","		km.clients[id] = kc"))
q("c24-atomic",(M,"		latency      time.Duration\n	}","		latency      time.Duration\n		cxnNumber    atomic.Int64\n	}"),(M,"	cxnNumber := 0\n",""),(M,"		cxnNumber++\n		id := cxnNumber\n","		id := int(km.cxnNumber.Add(1))\n"),(M,"		km.clients[cxnNumber] = kc","		km.clients[id] = kc"))
q("c24-for",(M,"	cxnNumber := 0\n",""),(M,"	for {\n		connection, err := listener.Accept()","	for cxnNumber := 1; ; cxnNumber++ {\n		connection, err := listener.Accept()"),(M,"		cxnNumber++\n		id := cxnNumber\n","		id := cxnNumber\n"),(M,"		km.clients[cxnNumber] = kc","		km.clients[id] = kc"))
q("c24-serve",(M,'''		km.l.Tracef("client connected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())

		km.mu.Lock()
		cxnNumber++
		id := cxnNumber
'''+CLOSURE,'''		cxnNumber++
		km.serve(connection, cxnNumber)
'''),(M,None,'''
func (km *KafkaMock) serve(connection net.Conn, id int) {
	km.l.Tracef("client connected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())

	km.mu.Lock()
	defer km.mu.Unlock()
	km.active.Add(1)
	km.wg.Add(1)
	km.clients[id] = newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
		km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
		km.mu.Lock()
		defer km.mu.Unlock()
		delete(km.clients, id)
		km.active.Done()
		km.wg.Done()
	})
}
'''))
# ---- C18
k("c18-deadlineonce","C18",(C,"			kc.conn.SetReadDeadline(time.Now().Add(time.Second))\n",""),(C,"	for {\n		if kc.latency","	kc.conn.SetReadDeadline(time.Now().Add(time.Second))\n	for {\n		if kc.latency"))
k("c18-longdeadline","C18",(C,"Add(time.Second)","Add(time.Minute)"))
k("c18-nodeadline","C18",(C,"			kc.conn.SetReadDeadline(time.Now().Add(time.Second))\n","			if len(kc.inbound) == 0 {\n				kc.conn.SetReadDeadline(time.Now().Add(time.Second))\n			}\n"))
k("c18-writedl","C18",(C,"kc.conn.SetReadDeadline(","kc.conn.SetWriteDeadline("))
k("c18-parent","C18",(M,"newKafkaClient(km.l, km.ds","newKafkaClient(km.parentLane, km.ds"))
k("c18-nolook","C18",(C,SEL,'			if len(kc.inbound) == 0 {\n'+SEL+'			}\n'))
k("c18-contin","C18",(C,"				kc.conn.Close()\n				return\n			default:","				continue\n			default:"))
k("c18-timeoutinner","C18",(C,'''				if errors.Is(err, os.ErrDeadlineExceeded) {
					continue
				}
''','''				for errors.Is(err, os.ErrDeadlineExceeded) {
					kc.conn.SetReadDeadline(time.Now().Add(time.Second))
					n, err = kc.conn.Read(buffer)
				}
				if err == nil {
					kc.inbound = append(kc.inbound, buffer[:n]...)
					continue
				}
'''))
k("c18-serveafter","C18",(M,"			// don't accept more connections\n			connection.Close()\n			continue","			// don't accept more connections\n			km.l.Trace(\"late\")"))
k("c18-acceptretry","C18",(M,'''			if !wasSocketClosed(err) {
				panic(fmt.Sprintf("accept error: %v", err))
			}
			break''','''			if !wasSocketClosed(err) {
				panic(fmt.Sprintf("accept error: %v", err))
			}
			if km.stopped.Load() {
				break
			}
			time.Sleep(time.Millisecond)
			continue'''))
k("c18-finish","C18",(M,"	if km.cancelFn != nil {\n		km.cancelFn()","	if km.cancelFn != nil && km.stopped.Load() {\n		km.cancelFn()"))
k("c18-pause","C18",(C,"	for {\n		if kc.latency","	for len(kc.inbound) == 0 && kc.stopping.Load() {\n		time.Sleep(time.Millisecond)\n	}\n	for {\n		if kc.latency"))
q("c18-err",(C,SEL,"			if kc.l.Err() != nil {\n				return\n			}\n"))
q("c18-dl5",(C,"Add(time.Second)","Add(2 * time.Second)"))
q("c18-dlvar",(C,"			kc.conn.SetReadDeadline(time.Now().Add(time.Second))\n","			deadline := time.Now().Add(readPoll)\n			kc.conn.SetDeadline(deadline)\n"),(C,None,"\nconst readPoll = 500 * time.Millisecond\n"))
q("c18-top",(C,SEL,""),(C,"		msg := getMessage(kc.inbound)\n",SEL+"		msg := getMessage(kc.inbound)\n"))
q("c18-noclose",(C,"				// don't accept more requests\n				kc.conn.Close()\n				return","				// the deferred close ends the connection\n				return"))
q("c18-latency",(C,'''		if kc.latency != 0 {
			time.Sleep(kc.latency) // test hook
		}
''','''		kc.simulateLatency()
'''),(C,None,'''
func (kc *kafkaClient) simulateLatency() {
	if kc.latency > 0 {
		time.Sleep(kc.latency)
	}
}
'''))
q("c18-refuse",(M,'''		select {
		case <-km.l.Done():
			// don't accept more connections
			connection.Close()
			continue
		default:
			// continue
		}
''','''		if km.l.Err() != nil {
			connection.Close()
			continue
		}
'''))
q("c18-accept",(M,'''			if !wasSocketClosed(err) {
				panic(fmt.Sprintf("accept error: %v", err))
			}
			break''','''			if wasSocketClosed(err) {
				return
			}
			panic(fmt.Sprintf("accept error: %v", err))'''))
# ---- C22
k("c22-cache","C22",(D,'''func newKafkaDataStore() *kafkaDataStore {
''','''var theStore *kafkaDataStore

func newKafkaDataStore() *kafkaDataStore {
	if theStore != nil {
		return theStore
	}
'''))
k("c22-shared-topics","C22 C03",(D,"Topics: map[string]*kafkaTopic{},","Topics: allTopics,"),(D,None,"\nvar allTopics = map[string]*kafkaTopic{}\n"))
k("c22-count","C22",(C,"	apiName := apiNames[kafkaApiKey(hdr.RequestApiKey)]\n","	apiName := apiNames[kafkaApiKey(hdr.RequestApiKey)]\n	if apiName == \"\" {\n		apiName = fmt.Sprint(hdr.RequestApiKey)\n		apiNames[kafkaApiKey(hdr.RequestApiKey)] = apiName\n	}\n"))
k("c22-nolock","C22",(A,"	apiTableLock.Lock()\n	defer apiTableLock.Unlock()\n\n	if apiTable != nil {\n		return\n	}\n","	if apiTable != nil {\n		return\n	}\n	apiTableLock.Lock()\n	defer apiTableLock.Unlock()\n"))
k("c22-rebuild","C22",(A,"	if apiTable != nil {\n		return\n	}\n",""))
k("c22-goinit","C22",(M,"	initializeApis()\n","	go initializeApis()\n"))
k("c22-halflock","C22",(A,"	apiVersions = map[kafkaApiKey]versionRange{}\n\n","	apiVersions = map[kafkaApiKey]versionRange{}\n	apiTableLock.Unlock()\n	apiTableLock.Lock()\n\n"))
k("c22-restart","C22",(M,"	km.stopped.Store(false)\n","	km.stopped.Store(false)\n	km.ds = newKafkaDataStore()\n"))
k("c22-restartclear","C22",(M,"	km.WaitForTermination()\n	km.Start()","	km.WaitForTermination()\n	km.ds.mu.Lock()\n	clear(km.ds.Topics)\n	km.ds.mu.Unlock()\n	km.Start()"))
k("c22-dropempty","C22",(M,"		km.active.Wait()\n		km.started.Store(false)","		km.active.Wait()\n		km.ds.mu.Lock()\n		for name, kt := range km.ds.Topics {\n			if len(kt.Partitions) == 0 {\n				delete(km.ds.Topics, name)\n			}\n		}\n		km.ds.mu.Unlock()\n		km.started.Store(false)"))
k("c22-clientstore","C22",(C,"		ds:         ds,\n","		ds:         newKafkaDataStore(),\n"))
k("c22-groups","C22",(D,"GroupCommittedOffsets: map[string]int64{}","GroupCommittedOffsets: noGroups"),(D,None,"\nvar noGroups = map[string]int64{}\n"))
k("c22-versionsmut","C22",("api_versions.go","		vr := apiVersions[kafkaApiKey(k)]\n","		vr := apiVersions[kafkaApiKey(k)]\n		vr.min = max(vr.min, 0)\n		apiVersions[kafkaApiKey(k)] = vr\n"))
q("c22-once",(A,"	apiTableLock.Lock()\n	defer apiTableLock.Unlock()\n\n	if apiTable != nil {\n		return\n	}\n\n","	apiTableOnce.Do(buildApis)\n}\n\nfunc buildApis() {\n"),(A,"var apiTableLock sync.Mutex","var apiTableOnce sync.Once"))
q("c22-local",(A,"	apiTable = map[string]dispatchHandler{","	table := map[string]dispatchHandler{"),(A,"	apiVersions = map[kafkaApiKey]versionRange{}\n","	apiTable = table\n	apiVersions = map[kafkaApiKey]versionRange{}\n"))
q("c22-flag",(A,"	if apiTable != nil {\n		return\n	}\n","	if apisReady {\n		return\n	}\n	apisReady = true\n"),(A,"var apiTableLock sync.Mutex","var apiTableLock sync.Mutex\nvar apisReady bool"))
q("c22-len",(A,"	if apiTable != nil {","	if len(apiTable) > 0 {"))
q("c22-ctor",(M,'''	return &KafkaMock{
		parentLane: l,
		l:          l,
		serverPort: serverPort,
		ds:         newKafkaDataStore(),
	}''','''	km := new(KafkaMock)
	km.parentLane, km.l = l, l
	km.serverPort = serverPort
	km.ds = newKafkaDataStore()
	return km'''))
