package mint

// vfExport is the exporter of RFC 8446 section 7.5.
func (p *vfPeer) vfExport(label string, context []byte, n int) []byte {
	return vfExpandLabel(p.h, vfDerive(p.h, p.exp, label, vfHash(p.h)), "exporter", vfHash(p.h, context), n)
}

// vfExporting returns a peer whose endpoint has completed a handshake.
func vfExporting() *vfPeer {
	suite := []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}[vfChoice("suite", 2)]
	mode := vfChoice("mode", 3)
	psk := vfTestPSK(suite)
	if vfFlag("server") {
		vfReach("server")
		sc := vfServerConfig()
		sc.CipherSuites = []CipherSuite{suite}
		o := vfDefaultCH()
		o.suites = []CipherSuite{suite}
		if mode > 0 {
			sc.PSKs = vfPSKCache(psk, "x")
			o.psk = &psk
			o.modes = []byte{byte(mode - 1)}
			o.noShare = mode == 1
		}
		p := vfNewPeer(sc, false)
		p.honestClient(o)
		return p
	}
	vfReach("client")
	cc := vfClientConfig()
	cc.CipherSuites = []CipherSuite{suite}
	var key []byte
	if mode > 0 {
		cc.PSKs = vfPSKCache(psk, "example.com")
		key = psk.Key
	}
	p := vfNewPeer(cc, true)
	p.suite = suite
	p.serverStart(mode != 1, key)
	p.sendEE()
	if mode == 0 {
		p.sendCert()
	}
	p.sendFin()
	p.finishServer()
	vfAssert(p.connected(), "the handshake does not complete")
	return p
}

// VF_C25_value: the exporter is that of RFC 8446, before and after key updates
// and use of the connection.
//
//vf:bounds client and server, certificate, PSK and PSK+DH handshakes, both hashes; label of 0, 1, 7, 30, 249 bytes, context absent or of 0, 1, 32, 300 bytes, any values; output of 0, 1, 16, 32, 48, 64, 255 bytes and 255 hashes
//vf:outside HMAC and the hash functions themselves (ideal functions); the key schedule below the exporter secret (C18)
//vf:reach client server nocontext updated
//vf:budget 60 300
func VF_C25_value() {
	p := vfExporting()
	if vfFlag("updated") {
		vfAssert(p.ep.SendKeyUpdate(false) == nil, "a key update fails")
		p.record(RecordTypeHandshake, vfMsg(HandshakeTypeKeyUpdate, []byte{0}))
		n, err := p.ep.Read(make([]byte, 1))
		vfAssert(n == 0 && err == AlertWouldBlock, "a key update fails")
		vfReach("updated")
	}
	label := vfString("label", []int{0, 1, 7, 30, 249}[vfChoice("label len", 5)])
	var context []byte
	if k := vfChoice("context len", 5); k > 0 {
		context = vfBytes("context", []int{0, 1, 32, 300}[k-1])
	} else {
		vfReach("nocontext")
	}
	for i := 0; i < 2; i++ {
		for _, n := range []int{0, 1, 16, 32, 48, 64, 255, 255 * p.h.Size()} {
			got, err := p.ep.ComputeExporter(label, context, n)
			vfAssert(err == nil, "a value is not exported")
			vfAssert(len(got) == n && vfEq(got, p.vfExport(label, context, n)), "the exported value is not that of RFC 8446")
		}
	}
}

// VF_C25_agree: two endpoints of one connection export the same; another
// connection exports something else.
//
//vf:bounds TLS and DTLS handshakes; labels of 0..2 and contexts of 0..2 bytes, any values; 32 bytes of output; a second connection of the same configurations
//vf:reach dtls tls
func VF_C25_agree() {
	label, context := vfString("label", vfChoice("label len", 3)), vfBytes("context", vfChoice("context len", 3))
	label2, context2 := vfString("label 2", vfChoice("label len", 3)), vfBytes("context 2", vfChoice("context len", 3))
	var vals [][]byte
	dtls := vfFlag("dtls")
	for i := 0; i < 2; i++ {
		cc, sc := vfClientConfig(), vfServerConfig()
		cc.UseDTLS, sc.UseDTLS = dtls, dtls
		p := vfNewPair(cc, sc)
		p.run()
		vfAssert(p.ok(), "the handshake does not complete")
		a, err := p.client.ComputeExporter(label, context, 32)
		vfAssert(err == nil, "a value is not exported")
		b, err := p.server.ComputeExporter(label, context, 32)
		vfAssert(err == nil, "a value is not exported")
		vfAssert(vfEq2(a, b), "the two ends export different values")
		vals = append(vals, a)
		if i == 0 {
			c, err := p.server.ComputeExporter(label2, context2, 32)
			vfAssert(err == nil, "a value is not exported")
			vfAssert(vfEq(a, c) == vfAnd(vfEqS(label, label2), vfEq2(context, context2)), "different labels or contexts export the same value")
		}
	}
	vfAssert(!vfEq(vals[0], vals[1]), "two connections export the same value")
	if dtls {
		vfReach("dtls")
	} else {
		vfReach("tls")
	}
}

// VF_C25_lengths: values of different lengths are independent, not prefixes of
// each other.
//
//vf:bounds output of 16..64 bytes
//vf:reach done
func VF_C25_lengths() {
	p := vfAtStage(15)
	n := 16 + vfChoice("n", 49)
	a, err := p.ep.ComputeExporter("label", nil, n)
	vfAssert(err == nil, "a value is not exported")
	for m := 16; m < 65; m++ {
		b, err := p.ep.ComputeExporter("label", nil, m)
		vfAssert(err == nil, "a value is not exported")
		vfAssert(vfEq(a[:16], b[:16]) == (n == m), "values of different lengths share their beginning")
	}
	vfReach("done")
}

// VF_C25_refused: nothing is exported before the handshake completes, nor for
// what the derivation cannot represent.
//
//vf:bounds the 17 states before completion and a new connection; labels of 250, 251, 300 bytes; lengths -1, one over 255 hashes, 65536
//vf:reach early label length
func VF_C25_refused() {
	if vfFlag("early") {
		n := vfChoice("state", len(vfStageNames)+1)
		if n == len(vfStageNames) {
			p := vfNewPeer(vfClientConfig(), true)
			_, err := p.ep.ComputeExporter("l", nil, 16)
			vfAssert(err != nil, "a value is exported before the handshake")
			return
		}
		if vfConnectedStage(n) {
			vfStop()
		}
		p := vfAtStage(n)
		out, err := p.ep.ComputeExporter("l", nil, 16)
		vfAssert(err != nil && out == nil, "a value is exported before the handshake completes")
		vfReach("early")
		return
	}
	p := vfExporting()
	label, l := "l", 16
	if vfFlag("label") {
		label = vfString("label", []int{250, 251, 300}[vfChoice("label len", 3)])
		vfReach("label")
	} else {
		l = []int{-1, 255*p.h.Size() + 1, 65536}[vfChoice("len", 3)]
		vfReach("length")
	}
	out, err := p.ep.ComputeExporter(label, nil, l)
	vfAssert(err != nil && out == nil, "a value is exported that the derivation cannot represent")
}
