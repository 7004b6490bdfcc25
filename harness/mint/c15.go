package mint

// VF_C15_honest: a server completes with an honest client that follows the RFC
// to the letter.
//
//vf:bounds certificate mode with X25519, PSK modes with an external and a resumption PSK
//vf:reach connected psk
func VF_C15_honest() {
	sc := vfServerConfig()
	o := vfDefaultCH()
	mode := vfChoice("mode", 3)
	if mode > 0 {
		psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
		if mode == 2 {
			psk = vfResumptionPSK(TLS_AES_128_GCM_SHA256)
			o.age = psk.TicketAgeAdd
		}
		sc.PSKs = vfPSKCache(psk, "x")
		o.psk = &psk
		if vfFlag("pskonly") {
			o.modes = []byte{0}
		}
	}
	p := vfNewPeer(sc, false)
	s := p.honestClient(o)
	vfAssert(s.usePSK == (mode > 0), "mode")
	vfAssert(vfEq(p.ep.state.exporterSecret, p.exp), "exporter secret")
	vfAssert(vfEq(p.ep.state.resumptionSecret, p.res), "resumption secret")
	vfReach("connected")
	if mode > 0 {
		vfReach("psk")
	}
}

// VF_C15_finished: a server is connected exactly if the client's Finished is
// the RFC 8446 value for this handshake.
//
//vf:bounds certificate and PSK modes; Finished changed by any 32-byte delta, computed under the wrong base secret or over the transcript of one message less, or of the wrong length
//vf:reach connected refused
func VF_C15_finished() {
	sc := vfServerConfig()
	o := vfDefaultCH()
	if vfFlag("psk") {
		psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
		sc.PSKs = vfPSKCache(psk, "x")
		o.psk = &psk
	}
	p := vfNewPeer(sc, false)
	p.sendCH(o)
	p.step()
	s, ok := p.recvServerHello(o)
	vfAssert(ok, "no answer")
	short := p.transcript
	p.recvServerFlight(o, s)
	p.w = p.traffic(p.cHS)
	fin := p.finished(p.cHS, p.transcript)
	delta := make([]byte, 32)
	good := true
	switch vfChoice("lie", 6) {
	case 0:
		delta = vfBytes("delta", 32)
		fin = vfXor(fin, delta)
	case 1:
		fin, good = p.finished(p.sHS, p.transcript), false
	case 2:
		fin, good = p.finished(p.cHS, short), false
	case 3:
		fin, good = fin[:31], false
	case 4:
		fin, good = append(fin, 0), false
	case 5:
		fin, good = []byte{}, false
	}
	p.send(HandshakeTypeFinished, fin)
	p.step()
	good = vfAnd(good, vfZero(delta))
	if p.connected() {
		vfReach("connected")
		vfAssert(good, "the server completes without a correct client Finished")
		vfAssert(p.ep.ConnectionState().UsingPSK == (o.psk != nil), "UsingPSK")
		vfAssert(len(p.ep.ConnectionState().PeerCertificates) == 0, "client certificates are reported")
	} else {
		vfReach("refused")
		vfAssert(vfNot(good), "the server refuses a correct client Finished")
		vfAssert(vfFatal(p.alert), "the server neither completes nor fails")
	}
}

// VF_C15_binder: a PSK is used only if the client proves it knows the key of
// the identity it names, for this ClientHello.
//
//vf:bounds external and resumption PSK; identity changed by any 4-byte delta, key by any 16-byte delta, binder by any 32-byte delta, one byte of the hello changed after the binder was made (any position and delta), binder of the other PSK kind, ticket age changed by any 32-bit delta
//vf:reach used fallback refused
//vf:budget 60 300
func VF_C15_binder() {
	sc := vfServerConfig()
	o := vfDefaultCH()
	psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
	if vfFlag("resumption") {
		psk = vfResumptionPSK(TLS_AES_128_GCM_SHA256)
		o.age = psk.TicketAgeAdd
	}
	sc.PSKs = vfPSKCache(psk, "x")
	mine := psk
	p := vfNewPeer(sc, false)
	id, key, bind, change := make([]byte, 4), make([]byte, 16), make([]byte, 32), byte(0)
	good, pos := true, -1
	switch vfChoice("lie", 6) {
	case 0:
		id = vfBytes("id", 4)
		mine.Identity = vfXor(psk.Identity, id)
	case 1:
		key = vfBytes("key", 16)
		mine.Key = vfXor(psk.Key, key)
	case 2:
		bind = vfBytes("binder", 32)
		o.binderXor = bind
	case 3:
		// random, or the last byte of the server name
		pos, change = []int{2, 10, 33}[vfChoice("pos", 3)], vfU8("change")
	case 4:
		mine.IsResumption = !mine.IsResumption
		good = false
	case 5:
		d := vfU32("age")
		o.age += d
		late := d > 5000
		good = vfOr(!psk.IsResumption, vfNot(late))
	}
	o.psk = &mine
	ch := p.clientHello(o)
	if pos >= 0 {
		ch[pos] ^= change
	}
	p.send(HandshakeTypeClientHello, ch)
	p.step()
	good = vfAnd(vfAnd(good, vfZero(id)), vfAnd(vfAnd(vfZero(key), vfZero(bind)), change == 0))
	if vfFatal(p.alert) {
		vfReach("refused")
		vfAssert(vfNot(good), "a PSK with a correct binder is refused")
		return
	}
	_, sh, ok := p.recv()
	vfAssert(ok, "the server neither answers nor fails")
	_, used := vfSHExts(sh)[ExtensionTypePreSharedKey]
	if used {
		vfReach("used")
		vfAssert(good, "a PSK is used without proof of possession")
	} else {
		vfReach("fallback")
		vfAssert(vfNot(vfZero(id)), "a known PSK is not used")
	}
}

// VF_C15_clientauth: with client authentication, certificates are reported
// exactly if the client signed this transcript with the leaf key and the
// application accepted them; a wrong signature ends the handshake.
//
//vf:bounds no certificate, one, or two; signed by the client's key, another key, the key of the second certificate, or not; over the transcript hash changed by any 32-byte delta; under any claimed scheme (16 bits), offered by the server or not; CertificateVerify left out; application callback absent, accepting or rejecting
//vf:outside whether the context string of the client's CertificateVerify is the client's (the implementation uses the server's on both sides)
//vf:reach certified anonymous refused
//vf:budget 60 300
func VF_C15_clientauth() {
	sc := vfServerConfig()
	sc.RequireClientAuth = true
	offered := true
	if vfFlag("otherscheme") {
		sc.SignatureSchemes = []SignatureScheme{RSA_PSS_SHA256, ECDSA_P384_SHA384}
		offered = false
	}
	cb := vfChoice("callback", 3)
	called := 0
	if cb > 0 {
		sc.VerifyPeerCertificate = vfVerifyCallback(cb == 1, &called)
	}
	o := vfDefaultCH()
	p := vfNewPeer(sc, false)
	p.sendCH(o)
	p.step()
	s, ok := p.recvServerHello(o)
	vfAssert(ok, "no answer")
	p.recvServerFlight(o, s)
	vfAssert(s.certReq, "no certificate is requested")
	p.w = p.traffic(p.cHS)
	n := vfChoice("certs", 3)
	chain := [][]byte{}
	if n > 0 {
		chain = append(chain, vfHex(vfClientCertHex))
	}
	if n > 1 {
		chain = append(chain, vfHex(vfServerCertHex))
	}
	p.send(HandshakeTypeCertificate, vfCertMsg(chain...))
	proof, delta, alg := false, make([]byte, 32), SignatureScheme(ECDSA_P256_SHA256)
	h := vfHash(p.h, p.transcript)
	var sig []byte
	switch vfChoice("sig", 6) {
	case 0:
		sig, proof = vfSignP256(vfKey(vfClientKeyHex), vfServerContext, h), true
	case 1:
		sig = vfSignP256(vfKey(vfEvilKeyHex), vfServerContext, h)
	case 2:
		delta = vfBytes("delta", 32)
		sig, proof = vfSignP256(vfKey(vfClientKeyHex), vfServerContext, vfXor(h, delta)), true
	case 4:
		// the key of the second certificate of the list
		sig = vfSignP256(vfKey(vfServerKeyHex), vfServerContext, h)
	case 3:
		alg = SignatureScheme(vfU16("alg"))
		sig, proof = vfSignP256(vfKey(vfClientKeyHex), vfServerContext, h), true
	}
	if sig != nil {
		p.send(HandshakeTypeCertificateVerify, vfCVMsg(alg, sig))
	}
	p.send(HandshakeTypeFinished, p.finished(p.cHS, p.transcript))
	p.step()
	certified := vfAnd(n > 0 && proof && offered && cb != 2, vfAnd(vfZero(delta), alg == ECDSA_P256_SHA256))
	if !p.connected() {
		vfReach("refused")
		vfAssert(vfNot(vfOr(certified, n == 0 && sig == nil)), "the server refuses an authenticated client")
		vfAssert(vfFatal(p.alert), "the server neither completes nor fails")
		return
	}
	vfAssert(vfEq(p.ep.state.exporterSecret, p.exp), "exporter secret")
	got := p.ep.ConnectionState().PeerCertificates
	if len(got) == 0 {
		vfReach("anonymous")
		vfAssert(n == 0 && sig == nil, "a certificate is dropped")
		return
	}
	vfReach("certified")
	vfAssert(certified, "client certificates are reported without proof")
	vfAssert(cb == 0 || called == 1, "the application's verification was not asked")
	vfAssert(len(got) == n && vfEq(got[0].Raw, chain[0]) && vfEq(got[n-1].Raw, chain[n-1]), "the reported certificates are not what the client proved")
}

// VF_C15_order: no part of the client's flight can be left out, repeated or
// reordered, even by a client that knows all secrets.
//
//vf:bounds certificate, client-certificate and PSK modes; every sequence of up to 4 (thorough: 5) messages out of EndOfEarlyData, Certificate (empty or not), CertificateVerify, Finished, ClientHello, each correct for the transcript so far
//vf:reach cert clientauth anonymous refused
//vf:budget 60 300
func VF_C15_order() {
	sc := vfServerConfig()
	o := vfDefaultCH()
	mode := vfChoice("mode", 3)
	if mode == 2 {
		psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
		sc.PSKs = vfPSKCache(psk, "x")
		o.psk = &psk
	}
	sc.RequireClientAuth = mode == 1
	p := vfNewPeer(sc, false)
	p.sendCH(o)
	p.step()
	s, ok := p.recvServerHello(o)
	vfAssert(ok, "no answer")
	p.recvServerFlight(o, s)
	p.w = p.traffic(p.cHS)
	order := ""
	for i := 0; i < vfParam("messages", 4, 5); i++ {
		switch vfChoice("message", 6) {
		case 0:
			order += "E"
			p.send(HandshakeTypeEndOfEarlyData, nil)
		case 1:
			order += "c"
			p.send(HandshakeTypeCertificate, vfCertMsg())
		case 2:
			order += "C"
			p.send(HandshakeTypeCertificate, vfCertMsg(vfHex(vfClientCertHex)))
		case 3:
			order += "V"
			p.send(HandshakeTypeCertificateVerify, vfCVMsg(ECDSA_P256_SHA256, vfSignP256(vfKey(vfClientKeyHex), vfServerContext, vfHash(p.h, p.transcript))))
		case 4:
			order += "F"
			p.send(HandshakeTypeFinished, p.finished(p.cHS, p.transcript))
		case 5:
			order += "H"
			p.send(HandshakeTypeClientHello, p.clientHello(vfDefaultCH()))
		}
		p.step()
		right := order == "F"
		if mode == 1 {
			right = order == "cF" || order == "CVF"
		}
		if p.connected() {
			vfAssert(right, "the server completes after a wrong sequence of messages")
			vfReach([]string{"cert", "anonymous", "cert"}[mode])
			if order == "CVF" {
				vfReach("clientauth")
				vfAssert(len(p.ep.ConnectionState().PeerCertificates) == 1, "the client certificate is not reported")
			}
			return
		}
		vfAssert(!right, "the server refuses the right sequence")
		if vfFatal(p.alert) {
			vfReach("refused")
			return
		}
	}
	vfStop()
}
