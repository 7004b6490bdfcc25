package mint

import "crypto"

func vfHashChoice() crypto.Hash {
	return []crypto.Hash{crypto.SHA256, crypto.SHA384}[vfChoice("hash", 2)]
}

// VF_C18_extract: HkdfExtract is HMAC(salt, input), with hash-length zeros for
// an absent salt.
//
//vf:bounds SHA-256 and SHA-384; salt absent or of 0, 1, 32, 48, 129 bytes, input of 0, 1, 16, 32, 48, 66 bytes, any values
//vf:outside HMAC and the hash functions themselves (ideal functions)
//vf:reach absent present
func VF_C18_extract() {
	h := vfHashChoice()
	in := vfBytes("input", []int{0, 1, 16, 32, 48, 66}[vfChoice("input len", 6)])
	var salt []byte
	want := make([]byte, h.Size())
	if vfFlag("salt") {
		salt = vfBytes("salt", []int{0, 1, 32, 48, 129}[vfChoice("salt len", 5)])
		want = salt
		vfReach("present")
	} else {
		vfReach("absent")
	}
	vfAssert(vfEq(HkdfExtract(h, salt, in), vfHMAC(h, want, in)), "HkdfExtract is not HKDF-Extract")
}

// vfHKDFExpand: RFC 5869 section 2.3.
func vfHKDFExpand(h crypto.Hash, prk, info []byte, n int) []byte {
	out := []byte{}
	t := []byte{}
	for i := 1; len(out) < n; i++ {
		t = vfHMAC(h, prk, t, info, []byte{byte(i)})
		out = append(out, t...)
	}
	return out[:n]
}

// VF_C18_expand: HkdfExpand is HKDF-Expand for every output length.
//
//vf:bounds SHA-256 and SHA-384; key of one hash, info of 0, 1, 17 bytes, any values; every output length from 0 to 3 hashes + 1, then 8, 254 and 255 hashes, each also one byte less
//vf:reach done long
//vf:budget 60 300
func VF_C18_expand() {
	h := vfHashChoice()
	prk := vfBytes("key", h.Size())
	info := vfBytes("info", []int{0, 1, 17}[vfChoice("info len", 3)])
	var n int
	if vfFlag("long") {
		n = h.Size()*[]int{8, 254, 255}[vfChoice("hashes", 3)] - vfChoice("less", 2)
		vfReach("long")
	} else {
		n = vfChoice("len", 3*h.Size()+2)
	}
	vfAssert(vfEq(HkdfExpand(h, prk, info, n), vfHKDFExpand(h, prk, info, n)), "HkdfExpand is not HKDF-Expand")
	vfReach("done")
}

// VF_C18_label: HkdfExpandLabel is HKDF-Expand-Label.
//
//vf:bounds SHA-256 and SHA-384; label of 0, 1, 8, 12, 100, 249 bytes, context of 0, 1, 32, 48, 255 bytes, any values; output of 0, 1, 12, 16, 32, 48, 255, 256, 1000 bytes and 255 hashes
//vf:reach done
//vf:budget 60 300
func VF_C18_label() {
	h := vfHashChoice()
	secret := vfBytes("secret", h.Size())
	label := vfString("label", []int{0, 1, 8, 12, 100, 249}[vfChoice("label len", 6)])
	ctx := vfBytes("context", []int{0, 1, 32, 48, 255}[vfChoice("context len", 5)])
	n := []int{0, 1, 12, 16, 32, 48, 255, 256, 1000, 255 * h.Size()}[vfChoice("len", 10)]
	vfAssert(vfEq(HkdfExpandLabel(h, secret, label, ctx, n), vfExpandLabel(h, secret, label, ctx, n)), "HkdfExpandLabel is not HKDF-Expand-Label")
	vfReach("done")
}

// VF_C18_separate: expansions with different labels, contexts or lengths have
// different inputs, so their outputs are independent.
//
//vf:bounds labels of 0 to 3 and contexts of 0 to 3 bytes, lengths of 16 or 32 bytes, any values
//vf:outside collisions of HMAC (excluded by the ideal model)
//vf:reach same different
func VF_C18_separate() {
	h := crypto.SHA256
	secret := vfBytes("secret", 32)
	l1, l2 := vfString("label", vfChoice("len", 4)), vfString("label", vfChoice("len", 4))
	c1, c2 := vfBytes("context", vfChoice("len", 4)), vfBytes("context", vfChoice("len", 4))
	n2 := 16 * (1 + vfChoice("n", 2))
	a, b := HkdfExpandLabel(h, secret, l1, c1, 16), HkdfExpandLabel(h, secret, l2, c2, n2)
	same := vfAnd(vfAnd(vfEqS(l1, l2), vfEq2(c1, c2)), n2 == 16)
	vfAssert(vfEq(a, b[:16]) == same, "two expansions share their output although label, context or length differ")
	if same {
		vfReach("same")
	} else {
		vfReach("different")
	}
}

// VF_C18_client: a client derives the secrets of the RFC key schedule.
//
//vf:bounds TLS; both suites; certificate (with and without client authentication), PSK and PSK+(EC)DHE (external and resumption), each with and without a retry, PSK modes with and without early data (accepted)
//vf:reach cert auth psk pskdh retry early
//vf:budget 60 300
func VF_C18_client() {
	m := vfChooseMode()
	cc := vfClientConfig()
	cc.CipherSuites = []CipherSuite{m.suite}
	cc.Certificates = []*Certificate{vfClientCert()}
	psk := m.key()
	var key []byte
	if m.psk {
		cc.PSKs, key = vfPSKCache(psk, "example.com"), psk.Key
	}
	cc.AllowEarlyData = m.early
	p := vfNewPeer(cc, true)
	p.suite = m.suite
	if m.retry {
		p.step()
		p.expect(HandshakeTypeClientHello)
		p.sendRetry([]byte{5, 6, 7})
	}
	p.step()
	ch := p.expect(HandshakeTypeClientHello)
	if m.retry {
		vfAssert(vfEq(vfCHExts(ch)[ExtensionTypeCookie], []byte{0, 3, 5, 6, 7}), "the cookie is not returned")
	}
	p.takeShare(ch)
	p.start(m.suite, key)
	p.checkBinder(ch, psk, m.psk)
	exts := [][]byte{vfVersionSH}
	var dh []byte
	if m.dh {
		exts, dh = append(exts, vfKeyShareSH(X25519, p.pub[:])), p.dh()
	}
	if m.psk {
		exts = append(exts, vfExt(ExtensionTypePreSharedKey, []byte{0, 0}))
	}
	if m.early {
		cEarly := vfDerive(p.h, p.early, "c e traffic", vfHash(p.h, p.transcript))
		vfAssert(len(p.epOut.rekeys) == 1, "no early data keys")
		k, want := p.epOut.rekeys[0], p.traffic(cEarly)
		vfAssert(k.epoch == EpochEarlyData && vfEq(k.key, want.key) && vfEq(k.iv, want.iv), "the early data keys are not the RFC 8446 values")
	}
	p.send(HandshakeTypeServerHello, p.serverHello(vfRand32(0x50), m.suite, exts...))
	p.handshake(dh, p.transcript)
	p.toHS()
	if m.early {
		p.sendEE(vfExt(ExtensionTypeEarlyData, nil))
	} else {
		p.sendEE()
	}
	if m.auth {
		p.send(HandshakeTypeCertificateRequest, vfJoin([]byte{0}, vfVec(2, vfExt(ExtensionTypeSignatureAlgorithms, []byte{0, 2, 4, 3}))))
	}
	if !m.psk {
		p.sendCert()
	}
	p.sendFin()
	p.step()
	if m.early {
		cEarly := vfDerive(p.h, p.early, "c e traffic", vfHash(p.h, p.upTo(HandshakeTypeServerHello)))
		p.r = p.traffic(cEarly)
		vfAssert(len(p.expect(HandshakeTypeEndOfEarlyData)) == 0, "EndOfEarlyData")
		p.r = p.traffic(p.cHS)
	}
	if m.auth {
		b := p.expect(HandshakeTypeCertificate)
		vfAssert(vfEq2(b, vfCertMsg(vfHex(vfClientCertHex))), "the client's Certificate")
		h := vfHash(p.h, p.transcript)
		cv := p.expect(HandshakeTypeCertificateVerify)
		vfAssert(cv[0] == 4 && cv[1] == 3 && vfVerifyP256(vfKey(vfClientKeyHex), vfServerContext, h, cv[4:]), "the client's CertificateVerify is not a signature over the transcript")
	}
	p.finishServer()
	vfAssert(p.connected(), "the client does not complete with an honest server")
	p.checkSecrets()
	m.reach()
}

// VF_C18_server: a server derives the secrets of the RFC key schedule.
//
//vf:bounds as VF_C18_client
//vf:reach cert auth psk pskdh retry early
//vf:budget 60 300
func VF_C18_server() {
	m := vfChooseMode()
	sc := vfServerConfig()
	sc.CipherSuites = []CipherSuite{m.suite}
	sc.RequireClientAuth = m.auth
	sc.AllowEarlyData = m.early
	o := vfDefaultCH()
	o.suites = []CipherSuite{m.suite}
	psk := m.key()
	if m.psk {
		sc.PSKs = vfPSKCache(psk, "x")
		o.psk, o.age = &psk, psk.TicketAgeAdd
		o.modes = []byte{0}
		if m.dh {
			o.modes = []byte{1}
		}
	}
	if m.retry {
		sc.RequireCookie = true
		cp, err := NewDefaultCookieProtector()
		vfAssert(err == nil, "no cookie protector")
		sc.CookieProtector = cp
	}
	p := vfNewPeer(sc, false)
	o.early = m.early
	p.sendCH(o)
	p.step()
	if m.retry {
		_, o.cookie = p.recvRetry()
		p.sendCH(o)
		p.step()
	}
	s, ok := p.recvServerHello(o)
	vfAssert(ok, "the server does not answer an honest ClientHello")
	vfAssert(s.usePSK == m.psk && s.useDH == m.dh, "mode")
	p.recvServerFlight(o, s)
	if m.early {
		_, has := s.ee[ExtensionTypeEarlyData]
		vfAssert(has, "early data is not accepted")
		k, want := p.epIn.rekeys[0], p.traffic(p.cEarly)
		vfAssert(k.epoch == EpochEarlyData && vfEq(k.key, want.key) && vfEq(k.iv, want.iv), "the early data keys are not the RFC 8446 values")
		p.send(HandshakeTypeEndOfEarlyData, nil)
	}
	p.w = p.traffic(p.cHS)
	if m.auth {
		p.send(HandshakeTypeCertificate, vfCertMsg(vfHex(vfClientCertHex)))
		p.send(HandshakeTypeCertificateVerify, vfCVMsg(ECDSA_P256_SHA256, vfSignP256(vfKey(vfClientKeyHex), vfServerContext, vfHash(p.h, p.transcript))))
	}
	p.sendClientFin()
	p.step()
	vfAssert(p.connected(), "the server does not complete with an honest client")
	p.checkSecrets()
	m.reach()
}

// VF_C18_agree: both ends of a handshake hold the same secrets, and no two of
// them are the same.
//
//vf:bounds TLS and DTLS; both suites, the modes of VF_C18_client (no early data over DTLS)
//vf:reach cert auth psk pskdh retry early dtls
//vf:budget 60 300
func VF_C18_agree() {
	m := vfChooseMode()
	cc, sc := m.configs()
	if !m.early && vfFlag("dtls") {
		cc.UseDTLS, sc.UseDTLS = true, true
		vfReach("dtls")
	}
	p := vfNewPair(cc, sc)
	p.run()
	vfAssert(p.ok(), "the handshake does not complete")
	c, s := p.client.state, p.server.state
	secrets := [][]byte{c.exporterSecret, c.resumptionSecret, c.clientTrafficSecret, c.serverTrafficSecret}
	for i, x := range [][]byte{s.exporterSecret, s.resumptionSecret, s.clientTrafficSecret, s.serverTrafficSecret} {
		vfAssert(vfEq2(secrets[i], x), "client and server hold different secrets")
		for j := range secrets {
			vfAssert(i == j || !vfEq2(secrets[i], secrets[j]), "two secrets are the same")
		}
	}
	m.reach()
}
