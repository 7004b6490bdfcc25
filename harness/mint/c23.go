package mint

var vfEarlyCases = []string{"accepted", "not allowed", "unknown identity", "second identity", "no PSK mode", "retry", "bad binder"}

// VF_C23_server: a server delivers early data exactly if it accepted it, in
// front of what follows; otherwise it skips it and completes all the same.
//
//vf:bounds TLS; early data in 0 to 3 records of 0, 1 or 3 bytes of any value; the server allows it, does not allow it, does not know the PSK identity, knows only the second of two identities, cannot use the PSK (no common mode), or asks for a retry; binder changed by any 32-byte difference; reads of 2 or 64 bytes before (1 or 2) and after the handshake
//vf:reach accepted rejected refused before
//vf:budget 60 300
func VF_C23_server() {
	sc := vfServerConfig()
	psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
	sc.PSKs = vfPSKCache(psk, "x")
	sc.AllowEarlyData = true
	what := vfChoice("case", len(vfEarlyCases))
	o := vfDefaultCH()
	o.psk, o.early = &psk, true
	switch vfEarlyCases[what] {
	case "not allowed":
		sc.AllowEarlyData = false
	case "unknown identity":
		sc.PSKs = &PSKMapCache{}
	case "second identity":
		// the first identity is another one
		other := psk
		other.Identity = []byte{9, 9, 9}
		other.Key = []byte("another PSK here")
		o.psk = &other
	case "no PSK mode":
		o.modes = []byte{7}
	case "retry":
		sc.RequireCookie = true
		cp, err := NewDefaultCookieProtector()
		vfAssert(err == nil, "no cookie protector")
		sc.CookieProtector = cp
	case "bad binder":
		o.binderXor = vfBytes("binder delta", 32)
	}
	p := vfNewPeer(sc, false)
	if vfEarlyCases[what] == "second identity" {
		p.sendTwo(o, psk)
	} else {
		p.sendCH(o)
	}
	size := []int{2, 64}[vfChoice("buffer", 2)]
	var early, got []byte
	n := vfChoice("records", 4)
	when := vfChoice("when", 2) // before or after the server's flight
	if when == 1 {
		p.step()
	}
	for i := 0; i < n; i++ {
		b := vfBytes("early", []int{0, 1, 3}[vfChoice("size", 3)])
		early = append(early, b...)
		p.record(RecordTypeApplicationData, b)
	}
	p.step()
	if !vfFatal(p.alert) && vfFlag("read before") {
		vfReach("before")
		b := make([]byte, size)
		m, err := p.ep.Read(b)
		vfAssert((m > 0) == (err == nil), "a Read before the handshake is neither data nor an error")
		got = append(got, b[:m]...)
		if what > 0 && what < 6 {
			vfAssert(m == 0, "early data that was not accepted is delivered")
		}
	}
	if vfEarlyCases[what] == "retry" {
		o.early = false
		p.w = vfTKeys{}
		suite, cookie := p.recvRetry()
		o.cookie = cookie
		p.suite = suite
		p.sendCH(o)
		p.step()
	}
	s, ok := p.recvServerHello(o)
	if o.binderXor != nil && !vfZero(o.binderXor) {
		vfAssert(!ok && vfFatal(p.alert), "a wrong binder is accepted")
		vfAssert(len(vfDrainConn(p.ep, size)) == 0, "early data is delivered although the binder is wrong")
		vfReach("refused")
		return
	}
	vfAssert(ok, "the server does not answer")
	p.recvServerFlight(o, s)
	_, accepted := s.ee[ExtensionTypeEarlyData]
	vfAssert(accepted == (what == 0 || what == 6), "early data is accepted exactly if the server allows it and resumes the session")
	if accepted {
		p.send(HandshakeTypeEndOfEarlyData, nil)
		vfReach("accepted")
	} else {
		early = nil
		vfReach("rejected")
	}
	p.sendClientFin()
	late := vfBytes("late", 3)
	p.record(RecordTypeApplicationData, late)
	p.step()
	vfAssert(p.connected(), "the handshake does not complete with early data")
	vfAssert(p.ep.ConnectionState().UsingEarlyData == accepted, "the server does not report whether it accepted early data")
	got = append(got, vfDrainConn(p.ep, size)...)
	vfAssert(vfEq2(got, vfJoin(early, late)), "what the server reads is not the early data it accepted, then the rest")
}

// sendTwo offers another PSK, as in o, and then psk, with early data under
// the first.
func (p *vfPeer) sendTwo(o *vfCH, psk PreSharedKey) {
	var k1, k2 vfSched
	k1.start(o.psk.CipherSuite, o.psk.Key)
	k2.start(psk.CipherSuite, psk.Key)
	first := o.psk
	o.psk, o.second = nil, &psk
	base := p.clientHello(o)
	// the extensions are the last part of a ClientHello without PSKs
	exts := base[34+1+len(o.sid)+2+2*len(o.suites)+2:]
	head := base[:len(base)-len(exts)]
	exts = exts[2:]
	ids := vfVec(2, vfJoin(vfVec(2, first.Identity), []byte{0, 0, 0, 0}, vfVec(2, psk.Identity), []byte{0, 0, 0, 0}))
	z := make([]byte, 32)
	bl := vfVec(2, vfJoin(vfVec(1, z), vfVec(1, z)))
	body := vfJoin(head, vfVec(2, vfJoin(exts, vfExt(ExtensionTypePreSharedKey, vfJoin(ids, bl)))))
	trunc := vfMsg(HandshakeTypeClientHello, body)
	trunc = trunc[:len(trunc)-len(bl)]
	b1, b2 := k1.binderFor("ext binder", trunc), k2.binderFor("ext binder", trunc)
	p.send(HandshakeTypeClientHello, vfJoin(body[:len(body)-66], vfVec(1, b1), vfVec(1, b2)))
	p.start(first.CipherSuite, first.Key)
	p.cEarly = vfDerive(p.h, p.early, "c e traffic", vfHash(p.h, p.transcript))
	p.w = p.traffic(p.cEarly)
}

// takeEarly returns the early data the client has sent; it must be protected
// with the early traffic keys of this ClientHello.
func (p *vfPeer) takeEarly(keys vfTKeys) []byte {
	out := []byte{}
	for len(p.rd.recs) > 0 && p.rd.recs[0].ct == RecordTypeApplicationData {
		r := p.rd.recs[0]
		p.rd.recs = p.rd.recs[1:]
		vfAssert(vfAnd(vfEq2(r.key, keys.key), vfEq2(r.iv, keys.iv)), "early data is not protected with the early traffic keys")
		out = append(out, r.frag...)
	}
	return out
}

// VF_C23_client: a client sends early data under the early traffic keys of the
// PSK it offers, until it learns that it is rejected; it ends it exactly if it
// was accepted, and completes either way.
//
//vf:bounds TLS; external or resumption PSK, both suites; after each message of the server's flight (and before) a write of 0, 1 or 3 bytes of any value; the server accepts, rejects early data, or does not use the PSK
//vf:reach accepted rejected full
//vf:budget 60 300
func VF_C23_client() {
	suite := []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}[vfChoice("suite", 2)]
	psk := vfTestPSK(suite)
	if vfFlag("resumption") {
		psk = vfResumptionPSK(suite)
	}
	cc := vfClientConfig()
	cc.CipherSuites = []CipherSuite{suite}
	cc.PSKs = vfPSKCache(psk, "example.com")
	cc.PSKModes = []PSKKeyExchangeMode{PSKModeDHEKE}
	cc.AllowEarlyData = true
	p := vfNewPeer(cc, true)
	p.suite = suite
	how := vfChoice("server", 3)
	sent := []byte{}
	open := true
	write := func() {
		b := vfBytes("data", []int{0, 1, 3}[vfChoice("size", 3)])
		n, err := p.ep.Write(b)
		vfAssert(p.ep.Writable() == open, "whether early data can be written")
		if !open {
			vfAssert(n == 0 && err != nil, "early data is written although it was rejected")
			return
		}
		vfAssert(n == len(b) && err == nil, "early data cannot be written")
		sent = append(sent, b...)
	}
	p.step()
	write()
	write()
	var key []byte
	if how < 2 {
		key = psk.Key
	}
	p.serverStart(true, key)
	var k vfSched
	k.start(suite, psk.Key)
	early := k.traffic(vfDerive(k.h, k.early, "c e traffic", vfHash(k.h, p.upTo(HandshakeTypeServerHello))))
	p.step()
	write()
	got := p.takeEarly(early)
	if how == 0 {
		p.sendEE(vfExt(ExtensionTypeEarlyData, nil))
	} else {
		p.sendEE()
		open = false
	}
	p.step()
	write()
	got = append(got, p.takeEarly(early)...)
	if how == 2 {
		p.sendCert()
	}
	p.sendFin()
	if how == 0 {
		hs := p.r
		p.r = early
		p.step()
		body := p.expect(HandshakeTypeEndOfEarlyData)
		vfAssert(len(body) == 0, "EndOfEarlyData is not empty")
		p.r = hs
		vfReach("accepted")
	} else {
		vfReach([]string{"", "rejected", "full"}[how])
	}
	p.finishServer()
	vfAssert(p.connected(), "the handshake does not complete with early data")
	vfAssert(p.ep.ConnectionState().UsingEarlyData == (how == 0), "the client does not report whether early data was accepted")
	vfAssert(p.ep.ConnectionState().UsingPSK == (how < 2), "UsingPSK")
	vfAssert(vfEq2(got, sent), "the early data sent is not what was written")
	late := vfBytes("late", 2)
	n, err := p.ep.Write(late)
	vfAssert(n == 2 && err == nil, "a connected client cannot write")
	vfAssert(len(p.rd.recs) == 1 && vfEq2(p.rd.recs[0].frag, late) && vfEq(p.rd.recs[0].key, p.r.key), "data is not sent under the application keys")
}

// VF_C23_unoffered: a client that has not offered early data, or whose PSK was
// not used, does not accept that the server takes it; without early data
// nothing can be written before the end of the handshake.
//
//vf:bounds TLS; no PSK, a PSK without early data allowed, a PSK offered with early data but not selected, or after a HelloRetryRequest; the server claims early data
//vf:reach refused
func VF_C23_unoffered() {
	psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
	cc := vfClientConfig()
	cc.PSKModes = []PSKKeyExchangeMode{PSKModeDHEKE}
	what := vfChoice("case", 4)
	if what > 0 {
		cc.PSKs = vfPSKCache(psk, "example.com")
	}
	cc.AllowEarlyData = what != 1
	p := vfNewPeer(cc, true)
	p.step()
	if what == 3 {
		p.expect(HandshakeTypeClientHello)
		p.sendRetry([]byte{1, 2, 3})
		p.step()
	}
	n, err := p.ep.Write([]byte{1})
	can := what == 2
	vfAssert((err == nil) == can && (n == 1) == can, "whether early data can be written")
	var key []byte
	if what == 1 || what == 3 {
		key = psk.Key
	}
	p.serverStart(true, key)
	p.sendEE(vfExt(ExtensionTypeEarlyData, nil))
	p.step()
	vfAssert(vfFatal(p.alert) && !p.connected(), "early data that was not offered is accepted")
	n, err = p.ep.Write([]byte{1})
	vfReach("refused")
}

// VF_C23_forged: nobody without the PSK can have early data delivered, and
// nothing but early data is delivered as such.
//
//vf:bounds TLS; after an accepted offer, a record of 1 byte of any type, in the clear, under early keys changed by any 16-byte difference, under the handshake or the application keys, before or after EndOfEarlyData
//vf:reach delivered refused
func VF_C23_forged() {
	sc := vfServerConfig()
	psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
	sc.PSKs = vfPSKCache(psk, "x")
	sc.AllowEarlyData = true
	o := vfDefaultCH()
	o.psk, o.early = &psk, true
	p := vfNewPeer(sc, false)
	p.sendCH(o)
	p.step()
	s, ok := p.recvServerHello(o)
	vfAssert(ok, "the server does not answer")
	early := p.w
	p.recvServerFlight(o, s)
	ended := vfFlag("ended")
	if ended {
		p.send(HandshakeTypeEndOfEarlyData, nil)
		p.step()
	}
	good := false
	switch vfChoice("keys", 4) {
	case 0:
		p.w = vfTKeys{}
	case 1:
		d := vfBytes("key delta", 16)
		p.w = vfTKeys{vfXor(early.key, d), early.iv}
		good = !ended && vfZero(d)
	case 2:
		p.w = p.traffic(p.cHS)
	case 3:
		p.w = p.traffic(p.cAP)
	}
	ct := vfU8("type")
	p.record(RecordType(ct), []byte{42})
	p.step()
	got := vfDrainConn(p.ep, 4)
	if good && ct == byte(RecordTypeApplicationData) {
		vfAssert(len(got) == 1 && got[0] == 42, "early data is not delivered")
		vfReach("delivered")
		return
	}
	vfAssert(len(got) == 0, "something that is not early data is delivered")
	vfAssert(!p.connected(), "the handshake completes")
	vfReach("refused")
}

// VF_C23_pair: early data between two endpoints over the real record layer.
//
//vf:bounds TLS (transport reads of at most 11 or any number of bytes) and DTLS (nothing lost); session resumed from a ticket or external PSK; the server allows early data, does not, does not know the PSK, or asks for a retry; 0 to 2 early writes of 1, 300, 16384 or 20000 bytes with any first byte, before or after the server's flight; then one write each way
//vf:reach accepted rejected
//vf:budget 60 300
func VF_C23_pair() {
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true, psk: true, early: true, resumption: vfFlag("resumption")}
	cc, sc := m.configs()
	what := vfChoice("case", 4)
	switch what {
	case 1:
		sc.AllowEarlyData = false
	case 2:
		sc.PSKs = &PSKMapCache{}
	case 3:
		sc.RequireCookie = true
		cp, err := NewDefaultCookieProtector()
		vfAssert(err == nil, "no cookie protector")
		sc.CookieProtector = cp
	}
	transport := vfChoice("transport", 3)
	if transport == 2 {
		cc.UseDTLS, sc.UseDTLS = true, true
	}
	p := vfNewPair(cc, sc)
	chunk := []int{0, 11, 0}[transport]
	n := vfChoice("writes", 3)
	sent := []byte{}
	p.ca = p.client.Handshake()
	if vfFlag("late") {
		p.sa = p.server.Handshake()
	}
	for i := 0; i < n; i++ {
		size := []int{1, 300, 16384, 20000}[vfChoice("size", 4)]
		if chunk > 0 && size > 300 {
			vfStop()
		}
		b := make([]byte, size)
		b[0] = vfU8("data")
		b[size-1] = 7
		k, err := p.client.Write(b)
		vfAssert(k == size && err == nil, "early data cannot be written")
		sent = append(sent, b...)
	}
	p.cw.chunk, p.sw.chunk = chunk, chunk
	p.run()
	vfAssert(p.ok(), "the handshake does not complete with early data")
	accepted := what == 0
	vfAssert(p.client.ConnectionState().UsingEarlyData == accepted && p.server.ConnectionState().UsingEarlyData == accepted, "the endpoints do not agree on whether early data was accepted")
	if accepted {
		vfReach("accepted")
	} else {
		vfReach("rejected")
		sent = nil
	}
	late := vfBytes("late", 3)
	k, err := p.client.Write(late)
	vfAssert(k == 3 && err == nil, "cannot write")
	got := vfDrainConn(p.server, 4096)
	vfAssert(vfEq2(got, vfJoin(sent, late)), "what the server reads is not the early data it accepted, then the rest")
	k, err = p.server.Write(late)
	vfAssert(k == 3 && err == nil, "cannot write")
	vfAssert(vfEq2(vfDrainConn(p.client, 16), late), "what the client reads is not what was written")
}
