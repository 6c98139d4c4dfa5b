M="kafka-mock.go"; C="kafka-client.go"; N="net-utils.go"; MSG="kafka-message.go"
CASES=[]
def k(name,props,*edits): CASES.append((name,"kill",props.split(),list(edits)))
def q(name,*edits): CASES.append((name,"quiet",[],list(edits)))
k("d-noreset","C30",(N,"if errno == syscall.ECONNRESET {","if errno == syscall.ECONNABORTED {"))
k("d-sysnil","C30",(N,"		if sysErr != nil {","		if sysErr != nil && opErr.Op != \"read\" {"))
k("d-noeof","C30",(N,"errors.Is(err, io.EOF) || ",""),(N,'	"io"\n',''))
k("d-eof-mid","C30",(C,"				if !wasSocketClosed(err) {","				if !wasSocketClosed(err) || len(kc.inbound) > 0 {"))
k("d-write","C30",(C,"		if !kc.isConnected() {","		if !kc.isConnected() && hdr.CorrelationId != 0 {"))
k("d-write2","C30",(C,"		if !kc.isConnected() {\n			// the client dropped - ignore the error\n			err = nil\n		}\n","		if wasSocketClosed(err) {\n			// the client dropped - ignore the error\n			err = nil\n		}\n"))
k("d-peek-inv","C30",(C,"	return err != nil\n}","	return err == nil\n}"))
k("d-peek-file","C30",(C,"	f, err := kc.conn.(*net.TCPConn).File()\n	if err != nil {\n		return false\n	}","	f, err := kc.conn.(*net.TCPConn).File()\n	if err != nil {\n		return true\n	}"))
k("d-peek-wait","C30 C18",(C,"syscall.MSG_PEEK|syscall.MSG_DONTWAIT","syscall.MSG_PEEK"))
k("w-sem","C31",(M,"		latency      time.Duration\n	}","		latency      time.Duration\n		slots        chan struct{}\n	}"),(M,"	km.stopped.Store(false)\n","	km.stopped.Store(false)\n	km.slots = make(chan struct{}, 16)\n"),(M,"km.serverPort, km.latency, func() {","km.serverPort, km.latency, km.slots, func() {"),(C,"latency time.Duration, oc onClose)","latency time.Duration, slots chan struct{}, oc onClose)"),(C,"		latency:    latency,\n","		latency:    latency,\n		slots:      slots,\n"),(C,"		latency    time.Duration\n","		latency    time.Duration\n		slots      chan struct{}\n"),(C,"			defer kc.requestWg.Done()\n","			defer kc.requestWg.Done()\n			kc.slots <- struct{}{}\n			defer func() { <-kc.slots }()\n"))
k("w-sem-global","C31",(C,None,"\nvar busy = make(chan struct{}, 4)\n"),(C,"			defer kc.requestWg.Done()\n","			defer kc.requestWg.Done()\n			busy <- struct{}{}\n			defer func() { <-busy }()\n"))
k("w-acceptpeek","C31",(M,"		km.mu.Lock()\n		cxnNumber++","		connection.SetReadDeadline(time.Now().Add(time.Second))\n		connection.Read(make([]byte, 0))\n		km.mu.Lock()\n		cxnNumber++"))
k("w-acceptlatency","C31",(M,"		km.mu.Lock()\n		cxnNumber++","		time.Sleep(km.latency)\n		km.mu.Lock()\n		cxnNumber++"))
k("w-single","C31",(M,"		km.wg.Add(1)\n		km.mu.Unlock()\n	}\n}","		km.wg.Add(1)\n		km.mu.Unlock()\n		kc.connected.Wait()\n	}\n}"))
k("w-close-wait","C31 C16",(C,"		kc.conn.Close()\n		kc.wg.Done()\n		kc.oc()","		kc.conn.Close()\n		kc.wg.Done()\n		kc.all.Wait()\n		kc.oc()"),(C,"		latency    time.Duration\n","		latency    time.Duration\n		all        *sync.WaitGroup\n"),(M,"		km.clients[cxnNumber] = kc\n","		km.clients[cxnNumber] = kc\n		kc.all = &km.initializing\n"))
k("w-post-wait","C31",(M,"	kt := km.ds.createTopic(topic)\n	kp := kt.createPartition(int32(partition))\n	kp.postRecord(0, time.Now(), key, value, nil)","	km.initializing.Wait()\n	kt := km.ds.createTopic(topic)\n	kp := kt.createPartition(int32(partition))\n	kp.postRecord(0, time.Now(), key, value, nil)"))
q("q-d-is",(N,'''	opErr, _ := err.(*net.OpError)
	if opErr != nil {
		sysErr, _ := opErr.Err.(*os.SyscallError)
		if sysErr != nil {
			errno, _ := sysErr.Err.(syscall.Errno)
			if errno == syscall.ECONNRESET {
				return true
			}
		}

	}

	return false
''','''	return errors.Is(err, syscall.ECONNRESET)
'''),(N,'	"os"\n',''))
q("q-d-as",(N,'''	opErr, _ := err.(*net.OpError)
	if opErr != nil {
		sysErr, _ := opErr.Err.(*os.SyscallError)
		if sysErr != nil {
			errno, _ := sysErr.Err.(syscall.Errno)
			if errno == syscall.ECONNRESET {
				return true
			}
		}

	}

	return false
''','''	var errno syscall.Errno
	return errors.As(err, &errno) && errno == syscall.ECONNRESET
'''),(N,'	"os"\n',''))
q("q-d-nested",(N,'''	opErr, _ := err.(*net.OpError)
	if opErr != nil {
		sysErr, _ := opErr.Err.(*os.SyscallError)
		if sysErr != nil {
			errno, _ := sysErr.Err.(syscall.Errno)
			if errno == syscall.ECONNRESET {
				return true
			}
		}

	}

	return false
''','''	opErr, ok := err.(*net.OpError)
	if !ok || opErr == nil {
		return false
	}
	sysErr, ok := opErr.Err.(*os.SyscallError)
	if !ok || sysErr == nil {
		return false
	}
	errno, ok := sysErr.Err.(syscall.Errno)
	return ok && errno == syscall.ECONNRESET
'''))
q("q-d-conn",(C,"		if !kc.isConnected() {\n			// the client dropped - ignore the error\n			err = nil\n		}\n		return\n","		if kc.isConnected() {\n			return\n		}\n		// the client dropped - ignore the error\n		return nil\n"))
q("q-d-epipe",(N,"			if errno == syscall.ECONNRESET {","			if errno == syscall.ECONNRESET || errno == syscall.EPIPE {"))
