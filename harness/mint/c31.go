package mint

// One goroutine reads, others write or update keys: every schedule of them
// has to leave a stream that the peer can read. The record layers are ideal
// ones whose lock and operations are the points at which a thread can be
// preempted; two operations on a layer at once are a violation.

func vfC31Live() *vfPeer {
	client := vfFlag("client")
	if client {
		vfReach("client")
	} else {
		vfReach("server")
	}
	return vfLive(client, TLS_AES_128_GCM_SHA256)
}

// both checks that each side still reads the other, also after another update.
func (p *vfPeer) both() {
	for i := 0; i < 2; i++ {
		b := make([]byte, 4)
		x, y := byte(0xE0+i), byte(0xF0+i)
		p.record(RecordTypeApplicationData, []byte{x})
		n, err := p.ep.Read(b)
		vfAssert(err == nil && n == 1 && b[0] == x, "the endpoint does not read its peer any more")
		n, err = p.ep.Write([]byte{y})
		vfAssert(err == nil && n == 1, "the endpoint does not write any more")
		d, _ := p.take()
		vfAssert(len(d) == 1 && d[0] == y, "the peer does not read the endpoint any more")
		vfAssert(p.ep.SendKeyUpdate(false) == nil, "a key update fails")
		p.take()
		p.record(RecordTypeHandshake, vfMsg(HandshakeTypeKeyUpdate, []byte{0}))
		p.update()
	}
	vfAssert(p.connected(), "the connection ends")
}

// VF_C31_update: a writer, a key update and a reader that has to answer one,
// at the same time.
//
//vf:bounds TLS; client and server; a goroutine writing 1 byte of any value; one sending a KeyUpdate with or without a request; one reading a KeyUpdate, with or without a request, and data (one of the two has a request; in the quick tier the server asks itself, the client is asked); every schedule with at most 2 (thorough 3) preemptions, before the locking, after the unlocking, within and after each operation of the record layers; then data and updates both ways
//vf:outside preemptions at other points; the layers' own code; DTLS, which does not use configured layers
//vf:reach client server answered
//vf:budget 120 500
func VF_C31_update() {
	p := vfC31Live()
	a := vfU8("a")
	d := vfU8("d")
	mine, theirs := 1, 1
	if vfParam("all", 0, 1) == 1 {
		theirs = vfChoice("theirs", 2)
		if theirs == 1 {
			mine = vfChoice("mine", 2)
		}
	} else if p.ep.isClient {
		mine = vfChoice("mine", 2)
	} else {
		theirs = vfChoice("theirs", 2)
	}
	p.record(RecordTypeHandshake, vfMsg(HandshakeTypeKeyUpdate, []byte{byte(theirs)}))
	p.update()
	p.record(RecordTypeApplicationData, []byte{d})
	vfThreads(vfParam("preemptions", 2, 3), func() {
		n, err := p.ep.Write([]byte{a})
		vfAssert(n == 1 && err == nil, "writing fails next to a key update")
	}, func() {
		vfAssert(p.ep.SendKeyUpdate(mine == 1) == nil, "a key update fails next to others")
	}, func() {
		buf := make([]byte, 4)
		n, err := p.ep.Read(buf)
		vfAssert(n == 1 && err == nil && buf[0] == d, "reading fails next to a key update")
	})
	data, updates := p.take()
	vfAssert(len(data) == 1 && data[0] == a, "what the peer reads is not what was written")
	vfAssert(len(updates) == 1+theirs, "the KeyUpdates sent are not those asked for")
	asked := 0
	for _, u := range updates {
		asked += int(u)
	}
	vfAssert(asked == mine, "the KeyUpdates sent do not have the requests asked for")
	if theirs == 1 {
		vfReach("answered")
	}
	p.both()
}

// VF_C31_updates: key updates by several goroutines.
//
//vf:bounds TLS; client and server; two goroutines sending a KeyUpdate each, a third writing 1 byte; at most 2 (thorough 3) preemptions, at the points named above
//vf:reach client server
func VF_C31_updates() {
	p := vfC31Live()
	a := vfU8("a")
	up := func() { vfAssert(p.ep.SendKeyUpdate(false) == nil, "a key update fails next to others") }
	vfThreads(vfParam("preemptions", 2, 3), up, up, func() {
		n, err := p.ep.Write([]byte{a})
		vfAssert(n == 1 && err == nil, "writing fails next to a key update")
	})
	data, updates := p.take()
	vfAssert(len(data) == 1 && data[0] == a, "what the peer reads is not what was written")
	vfAssert(len(updates) == 2, "the KeyUpdates sent are not those asked for")
	p.both()
}

// VF_C31_writes: a Write's data stays together.
//
//vf:bounds TLS; client and server; two goroutines writing, 16385 bytes and 1 to 2 bytes; at most 3 (thorough 5) preemptions, at the points named above
//vf:reach client server
func VF_C31_writes() {
	p := vfC31Live()
	x := make([]byte, 16385)
	x[0], x[16384] = vfU8("first"), vfU8("last")
	y := vfBytes("y", 1+vfChoice("n", 2))
	vfThreads(vfParam("preemptions", 3, 5), func() {
		n, err := p.ep.Write(x)
		vfAssert(n == len(x) && err == nil, "writing fails next to another")
	}, func() {
		n, err := p.ep.Write(y)
		vfAssert(n == len(y) && err == nil, "writing fails next to another")
	})
	data, _ := p.take()
	vfAssert(len(data) == len(x)+len(y), "what arrives has another length than what was written")
	vfAssert(vfOr(vfEq(data, vfJoin(x, y)), vfEq(data, vfJoin(y, x))), "the data of two writes is mixed")
	p.both()
}

// VF_C31_reads: what several readers get is what was sent, each part once and
// in order.
//
//vf:bounds TLS; client and server; two goroutines reading with buffers of 1 or 2 bytes; two records of 2 and 1 bytes of any value with a KeyUpdate between; at most 3 (thorough 5) preemptions, at the points named above
//vf:reach client server
func VF_C31_reads() {
	p := vfC31Live()
	sent := vfBytes("sent", 3)
	p.record(RecordTypeApplicationData, sent[:2])
	p.record(RecordTypeHandshake, vfMsg(HandshakeTypeKeyUpdate, []byte{1}))
	p.update()
	p.record(RecordTypeApplicationData, sent[2:])
	size := 1 + vfChoice("size", 2)
	var got [2][]byte
	read := func(i int) {
		b := make([]byte, size)
		n, err := p.ep.Read(b)
		vfAssert(err == nil && n > 0, "reading fails next to another")
		got[i] = b[:n]
	}
	vfThreads(vfParam("preemptions", 3, 5), func() { read(0) }, func() { read(1) })
	n := len(got[0]) + len(got[1])
	vfAssert(n <= 3, "more is read than was sent")
	vfAssert(vfOr(vfEq(vfJoin(got[0], got[1]), sent[:n]), vfEq(vfJoin(got[1], got[0]), sent[:n])), "two readers do not get what was sent")
	for n < 3 {
		b := make([]byte, 1)
		k, err := p.ep.Read(b)
		vfAssert(k == 1 && err == nil && b[0] == sent[n], "what was sent is not read")
		n++
	}
	_, updates := p.take()
	vfAssert(len(updates) == 1, "a request is not answered by exactly one update")
	p.both()
}

// VF_C31_alert: an alert goes out between the records of others.
//
//vf:bounds TLS; client and server; one goroutine reading a Finished, a ClientHello (thorough also a message of an unknown type), which is refused, one writing 1 byte or sending a KeyUpdate; at most 3 (thorough 5) preemptions, at the points named above
//vf:reach client server refused
func VF_C31_alert() {
	p := vfC31Live()
	a := vfU8("a")
	bad := []byte{byte(HandshakeTypeFinished), byte(HandshakeTypeClientHello), 99}[vfChoice("type", vfParam("types", 2, 3))]
	p.record(RecordTypeHandshake, []byte{bad, 0, 0, 0})
	other := func() { p.ep.Write([]byte{a}) }
	if vfFlag("update") {
		other = func() { p.ep.SendKeyUpdate(false) }
	}
	vfThreads(vfParam("preemptions", 3, 5), other, func() {
		buf := make([]byte, 4)
		n, err := p.ep.Read(buf)
		vfAssert(n == 0 && err != nil && err != AlertWouldBlock, "a message that is not allowed is accepted")
		vfReach("refused")
	})
	alerts := 0
	for _, r := range p.rd.recs {
		vfAssert(vfAnd(vfEq2(r.key, p.r.key), vfEq2(r.iv, p.r.iv)), "a record is not protected with the sender's current keys")
		switch r.ct {
		case RecordTypeHandshake:
			vfAssert(len(r.frag) == 5 && r.frag[0] == byte(HandshakeTypeKeyUpdate), "a message other than a KeyUpdate is sent")
			p.follow()
		case RecordTypeAlert:
			vfAssert(len(r.frag) == 2 && r.frag[0] == AlertLevelError, "an error is not reported with a fatal alert")
			alerts++
		case RecordTypeApplicationData:
			vfAssert(len(r.frag) == 1 && r.frag[0] == a, "what the peer reads is not what was written")
		default:
			vfAssert(false, "a record of an unexpected type is sent")
		}
	}
	vfAssert(alerts == 1, "an error is not reported with exactly one alert")
}
