package mint

// vfAt drives an endpoint, with an honest peer, to one of these states.
var vfStageNames = []string{
	"client WaitSH", "client WaitEE", "client WaitCertCR", "client WaitCert", "client WaitCV", "client WaitFinished", "client WaitFinished (PSK)", "client Connected",
	"server Start", "server Start after retry", "server WaitFinished", "server WaitCert", "server WaitCV", "server WaitEOED", "server WaitFinished after early data", "server Connected", "server ReadPastEarlyData",
	"client WaitSH after retry", "client WaitFinished (client certificate)", "client Connected (client certificate)", "client Connected (PSK)",
	"server Connected (client certificate)", "server Connected after early data",
}

var vfStageStates = []State{
	StateClientWaitSH, StateClientWaitEE, StateClientWaitCertCR, StateClientWaitCert, StateClientWaitCV, StateClientWaitFinished, StateClientWaitFinished, StateClientConnected,
	StateServerStart, StateServerStart, StateServerWaitFinished, StateServerWaitCert, StateServerWaitCV, StateServerWaitEOED, StateServerWaitFinished, StateServerConnected, StateServerReadPastEarlyData,
	StateClientWaitSH, StateClientWaitFinished, StateClientConnected, StateClientConnected,
	StateServerConnected, StateServerConnected,
}

// vfAllowed: the messages the protocol allows in that state.
var vfStageAllowed = [][]HandshakeType{
	{2}, {8}, {11, 13}, {11}, {15}, {20}, {20}, {4, 24},
	{1}, {1}, {20}, {11}, {15}, {5}, {20}, {24}, {20},
	{2}, {20}, {4, 24}, {4, 24},
	{24}, {24},
}

// vfBasicStages: the states but for those that differ only in their history.
const vfBasicStages = 17

func vfClientStage(n int) bool { return n < 8 || n >= 17 && n < 21 }

func vfConnectedStage(n int) bool { return n == 7 || n == 15 || n >= 19 }

type vfStage struct {
	*vfPeer
	n      int
	o      *vfCH
	psks   *PSKMapCache
	finish func() // the rest of an honest handshake
}

func vfAtStage(n int) *vfStage {
	st := &vfStage{n: n, o: vfDefaultCH()}
	psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
	if vfClientStage(n) {
		auth := n == 18 || n == 19
		cc := vfClientConfig()
		cc.PSKs = &PSKMapCache{}
		cc.Certificates = []*Certificate{vfClientCert()}
		var key []byte
		if n == 6 || n == 20 {
			cc.PSKs = vfPSKCache(psk, "example.com")
			key = psk.Key
		}
		st.psks = cc.PSKs.(*PSKMapCache)
		p := vfNewPeer(cc, true)
		st.vfPeer = p
		if n == 0 {
			p.step()
			return st
		}
		if n == 17 {
			p.step()
			p.takeShare(p.expect(HandshakeTypeClientHello))
			p.suite = TLS_AES_128_GCM_SHA256
			p.sendRetry([]byte{7})
			p.step()
			return st
		}
		p.serverStart(true, key)
		p.step()
		if n == 1 {
			return st
		}
		p.sendEE()
		p.step()
		if n == 2 || n == 6 {
			return st
		}
		if n == 20 {
			p.sendFin()
			p.finishServer()
			return st
		}
		if n == 3 || auth {
			p.send(HandshakeTypeCertificateRequest, vfJoin([]byte{0}, vfVec(2, vfExt(ExtensionTypeSignatureAlgorithms, []byte{0, 2, 4, 3}))))
			p.step()
			if n == 3 {
				return st
			}
		}
		p.send(HandshakeTypeCertificate, vfCertMsg(vfHex(vfServerCertHex)))
		p.step()
		if n == 4 {
			return st
		}
		p.send(HandshakeTypeCertificateVerify, vfCVMsg(ECDSA_P256_SHA256, vfSignP256(vfKey(vfServerKeyHex), vfServerContext, vfHash(p.h, p.transcript))))
		p.step()
		if n == 5 || n == 18 {
			return st
		}
		p.sendFin()
		if auth {
			p.step()
			p.expect(HandshakeTypeCertificate)
			p.expect(HandshakeTypeCertificateVerify)
		}
		p.finishServer()
		return st
	}
	sc := vfServerConfig()
	sc.PSKs = &PSKMapCache{}
	early := n == 13 || n == 14 || n == 16 || n == 22
	if early {
		sc.PSKs = vfPSKCache(psk, "x")
		sc.AllowEarlyData = n != 16
		st.o.psk = &psk
		st.o.early = true
	}
	sc.RequireClientAuth = n == 11 || n == 12 || n == 21
	if n == 9 {
		sc.RequireCookie = true
		cp, err := NewDefaultCookieProtector()
		vfAssert(err == nil, "no cookie protector")
		sc.CookieProtector = cp
	}
	st.psks = sc.PSKs.(*PSKMapCache)
	p := vfNewPeer(sc, false)
	st.vfPeer = p
	if n == 8 {
		p.step()
		return st
	}
	p.sendCH(st.o)
	p.step()
	if n == 9 {
		p.expect(HandshakeTypeServerHello)
		return st
	}
	s, ok := p.recvServerHello(st.o)
	vfAssert(ok, "no answer")
	p.recvServerFlight(st.o, s)
	if n == 13 {
		return st
	}
	if n == 16 {
		// what comes next under the handshake keys ends the early data
		p.w = p.traffic(p.cHS)
		return st
	}
	if n == 14 || n == 22 {
		p.send(HandshakeTypeEndOfEarlyData, nil)
		p.w = p.traffic(p.cHS)
		p.step()
		if n == 22 {
			p.sendClientFin()
			p.step()
		}
		return st
	}
	p.w = p.traffic(p.cHS)
	switch n {
	case 12:
		p.send(HandshakeTypeCertificate, vfCertMsg(vfHex(vfClientCertHex)))
		p.step()
	case 15:
		p.sendClientFin()
		p.step()
	case 21:
		p.send(HandshakeTypeCertificate, vfCertMsg(vfHex(vfClientCertHex)))
		p.send(HandshakeTypeCertificateVerify, vfCVMsg(ECDSA_P256_SHA256, vfSignP256(vfKey(vfClientKeyHex), vfServerContext, vfHash(p.h, p.transcript))))
		p.sendClientFin()
		p.step()
	}
	return st
}

// body returns a well-formed message of this type for the transcript so far.
func (st *vfStage) body(t HandshakeType) []byte {
	p := st.vfPeer
	switch t {
	case HandshakeTypeClientHello:
		return p.clientHello(vfDefaultCH())
	case HandshakeTypeServerHello:
		return p.serverHello(vfRand32(0x50), TLS_AES_128_GCM_SHA256, vfVersionSH, vfKeyShareSH(X25519, p.pub[:]))
	case HandshakeTypeNewSessionTicket:
		return vfJoin([]byte{0, 0, 0, 9, 1, 2, 3, 4}, vfVec(1, []byte{1}), vfVec(2, []byte{7, 7}), vfVec(2, nil))
	case HandshakeTypeEndOfEarlyData:
		return []byte{}
	case HandshakeTypeHelloRetryRequest:
		return vfJoin([]byte{3, 4, 0x13, 1}, vfVec(2, vfExt(ExtensionTypeCookie, vfVec(2, []byte{1}))))
	case HandshakeTypeEncryptedExtensions:
		return vfVec(2, nil)
	case HandshakeTypeCertificate:
		return vfCertMsg(vfHex(vfServerCertHex))
	case HandshakeTypeCertificateRequest:
		return vfJoin([]byte{0}, vfVec(2, vfExt(ExtensionTypeSignatureAlgorithms, []byte{0, 2, 4, 3})))
	case HandshakeTypeCertificateVerify:
		h := p.h
		if h == 0 {
			h, _ = vfSuiteParams(TLS_AES_128_GCM_SHA256)
		}
		k := vfServerKeyHex
		if p.client {
			k = vfClientKeyHex
		}
		return vfCVMsg(ECDSA_P256_SHA256, vfSignP256(vfKey(k), vfServerContext, vfHash(h, p.transcript)))
	case HandshakeTypeFinished:
		if p.h == 0 {
			return make([]byte, 32)
		}
		base := p.sHS
		if p.client {
			base = p.cHS
		}
		return p.finished(base, p.transcript)
	case HandshakeTypeKeyUpdate:
		return []byte{0}
	}
	return []byte{1, 2, 3, 4}
}

type vfEffects struct {
	in, out, sent, psks int
	state               State
}

func (st *vfStage) effects() vfEffects {
	e := vfEffects{in: len(st.epIn.rekeys), out: len(st.epOut.rekeys), sent: st.rd.n, psks: st.psks.Size(), state: st.ep.GetHsState()}
	if e.state == StateServerReadPastEarlyData {
		// left with the first record that can be read
		e.state = StateServerWaitFinished
	}
	return e
}

// refused: the endpoint ends with an error and has done nothing but send an
// alert; it stays failed whatever follows.
func (st *vfStage) refused(before vfEffects) {
	p := st.vfPeer
	connected := before.state == StateClientConnected || before.state == StateServerConnected
	seen := before.sent - p.rd.n + len(p.rd.recs) // records of the honest part that the peer has not read
	for _, r := range p.rd.recs[seen:] {
		vfAssert(r.ct == RecordTypeAlert, "a message is sent in answer to one that is not allowed")
	}
	after := st.effects()
	vfAssert(after.in == before.in && after.out == before.out, "a key is changed by a message that is not allowed")
	vfAssert(after.psks == before.psks, "a ticket is stored by a message that is not allowed")
	vfAssert(after.state == before.state, "the state advances on a message that is not allowed")
	if !connected {
		vfAssert(vfFatal(p.alert), "a message that is not allowed does not end the handshake")
		first := p.alert
		// a correct continuation does not help
		for _, t := range vfStageAllowed[st.n] {
			p.send(t, st.body(t))
		}
		again := p.ep.Handshake()
		vfAssert(again == first, "a failed handshake goes on")
		vfAssert(st.effects() == after, "a failed handshake goes on")
	}
}

// deliver lets the endpoint process what was sent; once connected, by Read.
func (st *vfStage) deliver() {
	p := st.vfPeer
	if !p.connected() {
		p.step()
		return
	}
	b := make([]byte, 16)
	n, err := p.ep.Read(b)
	vfAssert(n == 0 && err != nil && err != AlertWouldBlock, "a message that is not allowed is not an error")
	n, err = p.ep.Read(b)
	vfAssert(n == 0 && err != nil && err != AlertWouldBlock, "reading goes on after a message that is not allowed")
}
