D="decoder.go"; E="encoder.go"; I="inbound-utils.go"; C="kafka-client.go"; S="kafka-message.go"; P="api-keys.go"
CASES=[]
def k(name,props,*edits): CASES.append((name,"kill",props.split(),list(edits)))
def q(name,*edits): CASES.append((name,"quiet",[],list(edits)))
FIX='''	next = offset + length
	inbound, unfilled := reader.Peek(next)
	if unfilled != nil {
		next = -1
		return
	}
	data = inbound[offset:]
	return
'''
N16='''	start := next
	next += count
	data, unfilled = reader.Peek(next)
	if unfilled != nil {
		next = -1
		return
	}

	data = data[start:]
	return
}
'''
NB='''	start := next
	next += int(length)
	data, unfilled := reader.Peek(next)
	if unfilled != nil {
		next = -1
		return
	}

	data = data[start:]
	return
'''
ARR='''	next = offset
	if length >= 0 {
		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)
		for i := 0; i < int(length); i++ {
			var item any
			next, item = peekObject(reader, next, elem)
			if next < 0 {
				return
			}
			a = reflect.Append(a, reflect.ValueOf(item))
		}
		obj = a.Interface()
	}

	return
'''
STRUCT='''		var v any
		next, v = peekObjectWorker(reader, next, ft.Type, nullable, compact)
		if next < 0 {
			return
		}
		f := o.Elem().Field(i)
		if v != nil {
			f.Set(reflect.ValueOf(v))
		}
'''
REQ='''	var request T
	next, r := peekObject(reader, 0, reflect.TypeOf(request))
	if next < 0 {
		err = fmt.Errorf("bad request %T", request)
		return
	}
	request, ok := r.(T)
	if !ok {
		panic("unexpected request object type")
	}
	reader.Discard(next)
'''
REM='''	remaining, _ := reader.Peek(msgLength)
	if len(remaining) != 0 {
		err = fmt.Errorf("unexpected %d bytes after %T request", len(remaining), response)
		return
	}
'''
# ---- kills: truncation
k("fixed-no-fail","C07",(D,FIX,FIX.replace("		next = -1\n		return\n","		data = make([]byte, length)\n		return\n")))
k("fixed-zero-pad","C07",(D,FIX,'''	next = offset + length
	inbound, unfilled := reader.Peek(next)
	if unfilled != nil {
		data = make([]byte, length)
		if len(inbound) > offset {
			copy(data, inbound[offset:])
		}
		return
	}
	data = inbound[offset:]
	return
'''))
k("str-short","C07",(D,N16,N16.replace('''	if unfilled != nil {
		next = -1
		return
	}
''','''	if unfilled != nil && len(data) <= start {
		next = -1
		return
	}
	next = len(data)
''')))
k("str-clamp","C07",(D,N16,N16.replace("	next += count\n","	if have, _ := reader.Peek(next + count); len(have) < next+count {\n		count = len(have) - next\n	}\n	next += count\n")))
q("bytes-short-empty",(D,NB,NB.replace('''		next = -1
		return
''','''		data = nil
		return
''')))
k("arr-partial","C07",(D,ARR,ARR.replace('''			if next < 0 {
				return
			}
''','''			if next < 0 {
				if i > 0 {
					next = offset
					break
				}
				return
			}
''')))
k("arr-break","C07",(D,ARR,'''	next = offset
	if length >= 0 {
		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)
		for i := 0; i < int(length); i++ {
			n, item := peekObject(reader, next, elem)
			if n < 0 {
				break
			}
			next = n
			a = reflect.Append(a, reflect.ValueOf(item))
		}
		obj = a.Interface()
	}

	return
'''))
k("struct-default-tail","C07",(D,STRUCT,'''		var v any
		n, v := peekObjectWorker(reader, next, ft.Type, nullable, compact)
		if n < 0 {
			if i == tt.NumField()-1 && i > 0 {
				break
			}
			next = n
			return
		}
		next = n
		f := o.Elem().Field(i)
		if v != nil {
			f.Set(reflect.ValueOf(v))
		}
'''))
k("discard-more","C07",(I,"reader.Discard(next)","reader.Discard(next + 4)"))
k("discard-all","C07",(I,"reader.Discard(next)","reader.Discard(reader.Buffered())"))
k("left-tolerate","C07",(C,"if len(remaining) != 0 {","if len(remaining) > 4 {"))
k("left-only-log","C07",(C,REM,'''	remaining, _ := reader.Peek(msgLength)
	if len(remaining) != 0 {
		kc.l.Warnf("unexpected %d bytes after %T request", len(remaining), response)
	}
'''))
q("left-small-peek",(C,"reader.Peek(msgLength)","reader.Peek(msgLength - next)"))
k("hb-ignore-err","C07",("heartbeat.go",'''	_, err = readRequest[heartbeatRequestV0](reader)
	if err != nil {
		return
	}
''','''	if _, bad := readRequest[heartbeatRequestV0](reader); bad != nil {
		kc.l.Warnf("heartbeat: %v", bad)
	}
'''))
k("oc-default-on-err","C07",("offset_commit.go",'''offsetCommitRequestV2](reader)
	if err != nil {
		return
	}
''','''offsetCommitRequestV2](reader)
	if err != nil {
		response = &offsetCommitResponseV2{}
		err = nil
		return
	}
'''))
k("hdr-no-check","C07",(C,'''	next, clientId := peekString(reader, next)
	if next < 0 {
		err = fmt.Errorf("header client id invalid")
		return
	}
''','''	pos, clientId := peekString(reader, next)
	if pos >= 0 {
		next = pos
	}
'''))
# ---- kills: cost
k("arr-prealloc","C08",(D,"reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)","reflect.MakeSlice(reflect.SliceOf(elem), 0, int(length))"))
k("arr-prealloc-capped-wrong","C08",(D,"reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)","reflect.MakeSlice(reflect.SliceOf(elem), 0, max(int(length), 16))"))
k("arr-makemax","C08",(D,ARR,ARR.replace("		for i","		seen := make(map[int]bool, length)\n		_ = seen\n		for i")))
k("str-alloc","C08",(D,N16,N16.replace("	next += count\n","	next += count\n	_ = bytes.NewBuffer(make([]byte, 0, count))\n")),(D,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
q("bytes-alloc",(D,NB,'''	start := next
	next += int(length)
	held := make([]byte, length)
	inbound, unfilled := reader.Peek(next)
	if unfilled != nil {
		next = -1
		return
	}
	copy(held, inbound[start:])
	data = held
	return
'''))
k("msg-alloc","C08",(I,'''	if len(inbound) < (int(msgSize) + 4) {
		return
	}

	buf = bytes.NewBuffer(inbound[4 : 4+int(msgSize)])
''','''	body := make([]byte, int(msgSize))
	if len(inbound) < (int(msgSize) + 4) {
		return
	}

	copy(body, inbound[4:4+msgSize])
	buf = bytes.NewBuffer(body)
'''))
k("inbound-reserve","C08",(C,'''		msg := getMessage(kc.inbound)
''','''		if len(kc.inbound) >= 4 {
			if want := 4 + int(binary.BigEndian.Uint32(kc.inbound)); cap(kc.inbound) < want {
				kc.inbound = append(make([]byte, 0, want), kc.inbound...)
			}
		}
		msg := getMessage(kc.inbound)
'''),(C,'	"bytes"\n','	"bytes"\n	"encoding/binary"\n'))
k("arr-no-stop","C08",(D,ARR,'''	next = offset
	if length >= 0 {
		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)
		bad := false
		for i := 0; i < int(length); i++ {
			n, item := peekObject(reader, next, elem)
			if n < 0 {
				bad = true
				continue
			}
			next = n
			a = reflect.Append(a, reflect.ValueOf(item))
		}
		if bad {
			next = -1
			return
		}
		obj = a.Interface()
	}

	return
'''))
# ---- kills: crashes
k("nullstr-deref","C23",(D,'''			var s NullableString
			next, s = peekNullableString(reader, offset)
			if next < 0 {
				return
			}
			if s == nil {
				obj = ""
			} else {
				obj = *s
			}
''','''			var s NullableString
			next, s = peekNullableString(reader, offset)
			if next < 0 {
				return
			}
			obj = *s
'''))
k("struct-nil-set","C23",(D,'''		if v != nil {
			f.Set(reflect.ValueOf(v))
		}
''','''		f.Set(reflect.ValueOf(v))
'''))
k("str-neg","C23 C07",(D,'''	count := int(int16(binary.BigEndian.Uint16(data[offset:])))
	if count < 0 {
''','''	count := int(int16(binary.BigEndian.Uint16(data[offset:])))
	if count == -1 {
'''))
k("arr-neg","C23",(D,"	if length >= 0 {\n		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)","	if length != -1 {\n		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, min(int(length), 8))"))
q("bytes-neg",(D,'''	if length < 0 {
		return
	}

	start''','''	if length == -1 {
		return
	}

	start'''))
k("fetch-neg-offset","C23",("fetch.go","par.FetchOffset < 0 {","par.FetchOffset < -1 {"))
k("lo-missing-topic","C23",("list_offsets.go","if kp == nil {","if kt == nil {"))
k("crc-slice","C23",(E,"buf.Bytes()[16:]","buf.Bytes()[40:]"))
k("oc-reject","C23",("offset_commit.go",'''	response =''','''	if request.GroupId == "" {
		err = errors.New("no group")
		return
	}

	response ='''),("offset_commit.go",'import "bufio"\n','import (\n	"bufio"\n	"errors"\n)\n'))
k("ver-index","C23",(C,"	apiName := apiNames[kafkaApiKey(hdr.RequestApiKey)]\n","	apiName := apiNames[kafkaApiKey(hdr.RequestApiKey)]\n	_ = [64]bool{}[hdr.RequestApiKey]\n"))
k("panic-client","C23",(C,"	k := makeApiKey(","	if clientId == \"\" {\n		panic(\"no client id\")\n	}\n	k := makeApiKey("))
k("err-client","C23",(C,"	k := makeApiKey(","	if len(clientId) > 249 {\n		err = fmt.Errorf(\"client id too long\")\n		return\n	}\n	k := makeApiKey("))
k("reject-big-msg","C23",(C,"		kc.requestWg.Add(1)\n","		if msg.Len() > 100*1024*1024 {\n			panic(\"too large\")\n		}\n		kc.requestWg.Add(1)\n"))
# ---- kills: accepting fewer requests (C05 accept) and other layouts
k("acc-empty-arr","C05",(D,ARR,ARR.replace("	next = offset\n","	if length == 0 {\n		next = -1\n		return\n	}\n	next = offset\n")))
k("acc-long-str","C05",(D,N16,N16.replace("	next += count\n","	if count > 1024 {\n		next = -1\n		return\n	}\n	next += count\n")))
k("acc-neg-int","C05",(D,'''	v = int16(binary.BigEndian.Uint16(data))
	return
''','''	v = int16(binary.BigEndian.Uint16(data))
	if v < -1 {
		next = -1
	}
	return
'''))
k("le-int32","C05",(D,"v = int32(binary.BigEndian.Uint32(data))","v = int32(binary.LittleEndian.Uint32(data))"))
k("enc-len-utf","C05",(E,"encodeInt16(writer, int16(len(*v)))","encodeInt16(writer, int16(len([]rune(*v))))"))
k("enc-arr-skip","C05",(E,'''			f := v.Index(i)
			encodeObject(writer, f.Interface())
		}
	}
}

func encodeCompactArray''','''			f := v.Index(i)
			if f.Kind() == reflect.Int32 && f.Int() == 0 {
				continue
			}
			encodeObject(writer, f.Interface())
		}
	}
}

func encodeCompactArray'''))
k("null-empty-str","C05",(D,N16,N16.replace("	data = data[start:]\n","	data = data[start:]\n	if len(data) > 0 && data[len(data)-1] == 0 {\n		data = data[:len(data)-1]\n	}\n")))
k("enc-bool","C05",(E,"		writer.WriteByte(1)\n","		writer.WriteByte(0xff)\n"))
k("enc-nil-as-empty","C05",(E,"	if reflect.ValueOf(v).IsNil() {\n","	if len(v) == 0 {\n"))
# ---- quiet
q("q-helper-read",(D,FIX,'''	next = offset + length
	data = readUpTo(reader, offset, next)
	if data == nil {
		next = -1
	}
	return
}

func readUpTo(reader *bufio.Reader, from, to int) []byte {
	inbound, unfilled := reader.Peek(to)
	if unfilled != nil {
		return nil
	}
	return inbound[from:]
'''))
q("q-buffered-check",(D,FIX,'''	next = offset + length
	inbound, unfilled := reader.Peek(next)
	if unfilled != nil || len(inbound) < next {
		return -1, nil
	}
	return next, inbound[offset:next]
'''))
q("q-early-str",(D,N16,'''	end := next + count
	all, unfilled := reader.Peek(end)
	if unfilled != nil {
		return -1, nil
	}
	return end, all[next:end]
}
'''))
q("q-bytes-copy",(D,NB,'''	start := next
	next += int(length)
	inbound, unfilled := reader.Peek(next)
	if unfilled != nil {
		next = -1
		return
	}

	held := make([]byte, len(inbound)-start)
	copy(held, inbound[start:])
	data = held
	return
'''))
q("q-arr-countdown",(D,ARR,'''	next = offset
	if length < 0 {
		return
	}
	a := reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)
	for left := length; left > 0; left-- {
		var item any
		next, item = peekObject(reader, next, elem)
		if next < 0 {
			return
		}
		a = reflect.Append(a, reflect.ValueOf(item))
	}
	return next, a.Interface()
'''))
q("q-arr-while",(D,ARR,'''	next = offset
	if length >= 0 {
		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)
		for a.Len() < length {
			var item any
			next, item = peekObject(reader, next, elem)
			if next < 0 {
				return
			}
			a = reflect.Append(a, reflect.ValueOf(item))
		}
		obj = a.Interface()
	}

	return
'''))
q("q-arr-cap",(D,"reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)","reflect.MakeSlice(reflect.SliceOf(elem), 0, min(length, 64))"))
q("q-struct-helper",(D,STRUCT,'''		var v any
		next, v = peekObjectWorker(reader, next, ft.Type, nullable, compact)
		if next < 0 {
			return
		}
		setField(o, i, v)
'''),(D,"func peekObjectStruct(",'''func setField(o reflect.Value, i int, v any) {
	if v == nil {
		return
	}
	o.Elem().Field(i).Set(reflect.ValueOf(v))
}

func peekObjectStruct('''))
q("q-struct-swap",(D,STRUCT,'''		n, v := peekObjectWorker(reader, next, ft.Type, nullable, compact)
		if n < 0 {
			return -1, nil
		}
		next = n
		if v == nil {
			continue
		}
		o.Elem().Field(i).Set(reflect.ValueOf(v))
'''))
q("q-readreq",(I,REQ,'''	next, r := peekObject(reader, 0, reflect.TypeOf(*new(T)))
	if next < 0 {
		return nil, fmt.Errorf("bad request %T", *new(T))
	}
	request, ok := r.(T)
	if !ok {
		panic("unexpected request object type")
	}
	_, _ = reader.Discard(next)
'''))
q("q-readreq-assert",(I,'''	request, ok := r.(T)
	if !ok {
		panic("unexpected request object type")
	}
''','''	request = r.(T)
'''))
q("q-rem-buffered",(C,REM,'''	if left := reader.Buffered(); left > 0 {
		err = fmt.Errorf("unexpected %d bytes after %T request", left, response)
		return
	}
'''))
q("q-rem-peek1",(C,REM,'''	if _, eof := reader.Peek(1); eof == nil {
		err = fmt.Errorf("unexpected bytes after %T request", response)
		return
	}
'''))
q("q-hdr-helper",(C,'''	next, clientId := peekString(reader, next)
	if next < 0 {
		err = fmt.Errorf("header client id invalid")
		return
	}
''','''	next, clientId, err := readClientId(reader, next)
	if err != nil {
		return
	}
'''),(C,"func (kc *kafkaClient) dispatcher(",'''func readClientId(reader *bufio.Reader, at int) (next int, id string, err error) {
	next, id = peekString(reader, at)
	if next < 0 {
		err = fmt.Errorf("header client id invalid")
	}
	return
}

func (kc *kafkaClient) dispatcher('''))
q("q-hdr-order",(C,'''	next, obj := peekObject(reader, 0, reflect.TypeOf(hdr))
	if next < 0 {
		err = fmt.Errorf("header invalid")
		return
	}
	hdr, _ = obj.(kafkaHeader0)
''','''	next, obj := peekObject(reader, 0, reflect.TypeOf(hdr))
	hdr, good := obj.(kafkaHeader0)
	if next < 0 || !good {
		return fmt.Errorf("header invalid")
	}
'''))
q("q-defined-first",(C,'''	handler, defined := apiTable[k]
	if !defined {
		err =''','''	handler := apiTable[k]
	if handler == nil {
		err ='''))
q("q-getmsg",(I,'''	if len(inbound) < 4 {
		return
	}

	msgSize := binary.BigEndian.Uint32(inbound)
	if len(inbound) < (int(msgSize) + 4) {
		return
	}

	buf = bytes.NewBuffer(inbound[4 : 4+int(msgSize)])
	return
''','''	if len(inbound) < 4 {
		return nil
	}

	size := int(binary.BigEndian.Uint32(inbound[:4]))
	body := inbound[4:]
	if len(body) < size {
		return nil
	}
	return bytes.NewBuffer(body[:size])
'''))
q("q-enc-str",(E,'''		encodeInt16(writer, int16(len(*v)))
		writer.Write([]byte(*v))
	}
}

func encodeCompactNullableString''','''		s := *v
		encodeUint16(writer, uint16(len(s)))
		writer.WriteString(s)
	}
}

func encodeCompactNullableString'''))
q("q-enc-arr",(E,'''		encodeInt32(writer, int32(v.Len()))

		for i := 0; i < v.Len(); i++ {
			f := v.Index(i)
			encodeObject(writer, f.Interface())
		}
	}
}

func encodeCompactArray''','''		n := v.Len()
		encodeInt32(writer, int32(n))
		i := 0
		for i < n {
			encodeObject(writer, v.Index(i).Interface())
			i++
		}
	}
}

func encodeCompactArray'''))
q("q-enc-int",(E,'''	bytes := []byte{0, 0}
	binary.BigEndian.PutUint16(bytes, uint16(v))
	writer.Write(bytes)
}

func encodeInt32(''','''	writer.WriteByte(byte(v >> 8))
	writer.WriteByte(byte(v))
}

func encodeInt32('''))
q("q-enc-int-arr",(E,'''	bytes := []byte{0, 0, 0, 0}
	convertInt32(bytes, v)
	writer.Write(bytes)
''','''	var bytes [4]byte
	convertInt32(bytes[:], v)
	writer.Write(bytes[:])
'''))
q("q-enc-append",(E,'''	bytes := []byte{0, 0, 0, 0}
	convertInt32(bytes, v)
	writer.Write(bytes)
''','''	writer.Write(binary.BigEndian.AppendUint32(nil, uint32(v)))
'''))
q("q-dec-bool",(D,'''	if data[0] != 0 {
		v = true
	}
	return
''','''	return next, data[0] != 0
'''))
q("q-enc-split",(E,'''	for _, msg := range ms.msgs {
		encodeObject(writer, msg)
	}
''','''	for i := range ms.msgs {
		encodeObject(writer, ms.msgs[i])
	}
'''))
