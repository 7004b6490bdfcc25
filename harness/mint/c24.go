package mint

// vfLiveChoice: a connected client or server with either suite.
func vfLiveChoice() *vfPeer {
	suite := []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}[vfChoice("suite", 2)]
	client := vfFlag("client")
	if client {
		vfReach("client")
	} else {
		vfReach("server")
	}
	return vfLive(client, suite)
}

// VF_C24_sequence: after any sequence of updates by either side, mixed with
// data, an RFC 8446 peer and the endpoint read each other.
//
//vf:bounds TLS; client and server, both suites; 4 (thorough 5) steps, each a KeyUpdate by the endpoint or the peer, with or without a request, a write of 1 byte of any value by either, or the endpoint reading with a 2-byte buffer; then data both ways
//vf:reach client server requested answered
//vf:budget 120 500
func VF_C24_sequence() {
	p := vfLiveChoice()
	exp := p.ep.state.exporterSecret
	res := p.ep.state.resumptionSecret
	var sent, got, written, received, updates, want []byte
	pending := 0 // requests the endpoint has not read
	inRecs := []int{}
	read := func(size int) bool {
		b := make([]byte, size)
		n, err := p.ep.Read(b)
		vfAssert((n > 0) == (err == nil), "a Read returns data and an error, or neither")
		vfAssert(err == nil || err == AlertWouldBlock, "reading fails after key updates")
		got = append(got, b[:n]...)
		return n > 0
	}
	_ = inRecs
	send := func(b []byte) {
		p.record(RecordTypeApplicationData, b)
		sent = append(sent, b...)
	}
	write := func(b []byte) {
		n, err := p.ep.Write(b)
		vfAssert(n == len(b) && err == nil, "writing fails after key updates")
		written = append(written, b...)
	}
	take := func() {
		d, u := p.take()
		received = append(received, d...)
		updates = append(updates, u...)
	}
	steps := vfParam("steps", 4, 5)
	for i := 0; i < steps; i++ {
		switch k := vfChoice("step", 7); k {
		case 0, 1:
			vfAssert(p.ep.SendKeyUpdate(k == 1) == nil, "a key update fails")
			want = append(want, byte(k))
		case 2, 3:
			p.record(RecordTypeHandshake, vfMsg(HandshakeTypeKeyUpdate, []byte{byte(k - 2)}))
			p.update()
			if k == 3 {
				pending++
				vfReach("requested")
			}
		case 4:
			send([]byte{vfU8("sent")})
		case 5:
			write([]byte{vfU8("written")})
		case 6:
			before := pending
			read(2)
			take()
			// what was requested so far is answered at most once each
			n := 0
			for _, u := range updates[len(want):] {
				vfAssert(u == 0, "an answer requests an update")
				n++
			}
			vfAssert(n <= before, "an update is sent that nobody asked for")
			pending -= n
			want = append(want, updates[len(want):]...)
			if n > 0 {
				vfReach("answered")
			}
		}
		take()
		vfAssert(len(updates) == len(want) && vfEq(updates, want), "the KeyUpdates sent are not those asked for")
	}
	send([]byte{0xA5})
	write([]byte{0x5A})
	for i := 0; read(1); i++ {
		vfAssert(i < 20, "reading does not end")
	}
	write([]byte{0x5B})
	take()
	vfAssert(vfEq2(got, sent), "what is read is not what was sent")
	vfAssert(vfEq2(received, written), "what arrives is not what was written")
	answers := updates[len(want):]
	vfAssert(len(answers) == pending, "a request is not answered by exactly one update")
	vfAssert(vfZero(answers), "an answer requests an update")
	vfAssert(vfEq2(p.ep.state.exporterSecret, exp) && vfEq2(p.ep.state.resumptionSecret, res), "a key update changes another secret")
	vfAssert(p.connected(), "the connection ends")
}

// VF_C24_message: a KeyUpdate counts if it is well formed and ends a record;
// anything else ends the connection and changes no key.
//
//vf:bounds TLS; client and server, both suites; a KeyUpdate of 0, 1 or 2 bytes of any value, in one record or two, followed in its record by nothing, another KeyUpdate or part of one
//vf:reach client server updated refused
func VF_C24_message() {
	p := vfLiveChoice()
	body := vfBytes("body", vfChoice("size", 3))
	m := vfMsg(HandshakeTypeKeyUpdate, body)
	follow := vfChoice("follow", 3)
	after := [][]byte{nil, vfMsg(HandshakeTypeKeyUpdate, []byte{0}), {24, 0}}[follow]
	in, out := len(p.epIn.rekeys), len(p.epOut.rekeys)
	cut := vfChoice("cut", len(m))
	if cut > 0 {
		p.record(RecordTypeHandshake, m[:cut])
		m = m[cut:]
	}
	p.record(RecordTypeHandshake, vfJoin(m, after))
	good := len(body) == 1 && follow == 0 && body[0] < 2
	if good {
		p.update()
	}
	p.record(RecordTypeApplicationData, []byte{42})
	b := make([]byte, 4)
	n, err := p.ep.Read(b)
	if good {
		vfAssert(n == 1 && err == nil && b[0] == 42, "data after a key update is not read")
		_, updates := p.take()
		vfAssert(len(updates) == int(body[0]), "a request is not answered by exactly one update")
		vfAssert(len(p.epIn.rekeys) == in+1 && len(p.epOut.rekeys) == out+int(body[0]), "one update does not change the keys once")
		vfReach("updated")
		return
	}
	vfAssert(n == 0 && err != nil && err != AlertWouldBlock, "a malformed key update is accepted")
	for _, r := range p.rd.recs {
		// one that is not at the end of its record may have been processed
		vfAssert(r.ct == RecordTypeAlert || follow > 0 && len(body) == 1 && body[0] == 1, "a malformed key update is answered")
	}
	if !(len(body) == 1 && body[0] < 2) {
		vfAssert(len(p.epIn.rekeys) == in && len(p.epOut.rekeys) == out, "a malformed key update changes a key")
	}
	n, err = p.ep.Read(b)
	vfAssert(n == 0 && err != nil && err != AlertWouldBlock, "reading goes on after a malformed key update")
	vfReach("refused")
}

// VF_C24_early: no key can be updated before the handshake is complete.
//
//vf:bounds TLS; every state of the client and the server before they are connected
//vf:reach refused
func VF_C24_early() {
	n := vfChoice("stage", len(vfStageNames))
	if vfConnectedStage(n) {
		vfStop()
	}
	st := vfAtStage(n)
	before := st.effects()
	vfAssert(st.ep.SendKeyUpdate(vfFlag("request")) != nil, "a key is updated during the handshake")
	vfAssert(st.effects() == before, "a refused key update has an effect")
	vfReach("refused")
}

// VF_C24_pair: two endpoints over the real record layer stay in step.
//
//vf:bounds TLS; both suites; 2 (thorough 3) rounds, each with a key update by neither, either or both endpoints (both at the same time), with or without requests, then data one way or the other, read or not; data both ways at the end; and 50 updates in a row by either side
//vf:reach both many
//vf:budget 60 300
func VF_C24_pair() {
	suite := []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}[vfChoice("suite", 2)]
	cc, sc := vfModes{suite: suite, dh: true}.configs()
	p := vfNewPair(cc, sc)
	p.run()
	vfAssert(p.ok(), "the handshake does not complete")
	ends := []*Conn{p.client, p.server}
	var sent, got [2][]byte
	write := func(side int) {
		b := vfBytes("data", 2)
		n, err := ends[side].Write(b)
		vfAssert(n == 2 && err == nil, "writing fails after key updates")
		sent[side] = append(sent[side], b...)
	}
	read := func(side int) { got[1-side] = append(got[1-side], vfDrainConn(ends[side], 3)...) }
	if vfFlag("many") {
		side := vfChoice("side", 2)
		request := vfFlag("request")
		for i := 0; i < 50; i++ {
			vfAssert(ends[side].SendKeyUpdate(request) == nil, "a key update fails")
			if i%7 == 0 {
				write(side)
				write(1 - side)
			}
		}
		vfReach("many")
	} else {
		rounds := vfParam("rounds", 2, 3)
		for i := 0; i < rounds; i++ {
			u := vfChoice("updates", 4)
			for s := 0; s < 2; s++ {
				if u>>uint(s)&1 == 1 {
					vfAssert(ends[s].SendKeyUpdate(vfFlag("request")) == nil, "a key update fails")
				}
			}
			if u == 3 {
				vfReach("both")
			}
			side := vfChoice("writer", 2)
			write(side)
			if vfFlag("read") {
				read(1 - side)
			}
		}
	}
	for i := 0; i < 2; i++ {
		write(0)
		write(1)
		read(0)
		read(1)
	}
	for s := 0; s < 2; s++ {
		vfAssert(vfEq2(got[s], sent[s]), "what was written is not all read")
		vfAssert(vfConnected(ends[s]), "the connection ends")
	}
}
