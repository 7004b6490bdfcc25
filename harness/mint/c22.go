package mint

// VF_C22_modes: a required cookie costs one retry and the handshake then
// completes, in every key exchange mode.
//
//vf:bounds TLS and DTLS; certificate, PSK-only and PSK+DH modes, with and without the client attempting 0-RTT
//vf:reach cert psk dhpsk early dtls
func VF_C22_modes() {
	cc, sc := vfClientConfig(), vfServerConfig()
	sc.RequireCookie = true
	cp, err := NewDefaultCookieProtector()
	vfAssert(err == nil, "no cookie protector")
	sc.CookieProtector = cp
	mode := vfChoice("mode", 3)
	if mode > 0 {
		psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
		cc.PSKs = vfPSKCache(psk, "example.com")
		sc.PSKs = vfPSKCache(psk, "x")
		cc.PSKModes = []PSKKeyExchangeMode{[]PSKKeyExchangeMode{0, PSKModeKE, PSKModeDHEKE}[mode]}
	}
	if vfFlag("dtls") {
		cc.UseDTLS, sc.UseDTLS = true, true
		vfReach("dtls")
	} else if mode > 0 && vfFlag("early") {
		cc.AllowEarlyData = true
		sc.AllowEarlyData = true
		vfReach("early")
	}
	p := vfNewPair(cc, sc)
	p.run()
	vfObserve("ca", uint8(p.ca))
	vfObserve("sa", uint8(p.sa))
	vfAssert(p.ok(), "the retried handshake does not complete")
	vfAssert(p.client.ConnectionState().UsingPSK == (mode > 0), "wrong mode")
	vfReach([]string{"cert", "psk", "dhpsk"}[mode])
}

// VF_C22_token: a protected cookie is decoded to what was protected, and
// nothing else is decoded.
//
//vf:bounds cookies of 0, 1, 40 bytes, any values; every byte of the token changed by any delta; token cut to any shorter length or extended by 1 byte; token of another protector
//vf:reach ok altered other
func VF_C22_token() {
	cp, err := NewDefaultCookieProtector()
	vfAssert(err == nil, "no cookie protector")
	plain := vfBytes("cookie", []int{0, 1, 40}[vfChoice("len", 3)])
	tok, err := cp.NewToken(plain)
	vfAssert(err == nil, "a cookie cannot be protected")
	delta := make([]byte, len(tok))
	good := true
	switch vfChoice("what", 4) {
	case 0:
		delta = vfBytes("delta", len(tok))
		tok = vfXor(tok, delta)
	case 1:
		tok, good = tok[:vfChoice("cut", len(tok))], false
	case 2:
		tok, good = append(tok, vfU8("more")), false
	case 3:
		other, err := NewDefaultCookieProtector()
		vfAssert(err == nil, "no cookie protector")
		cp, good = other, false
		vfReach("other")
	}
	got, err := cp.DecodeToken(tok)
	if err != nil {
		vfReach("altered")
		vfAssert(vfNot(vfAnd(good, vfZero(delta))), "a genuine cookie is refused")
		return
	}
	vfReach("ok")
	vfAssert(vfAnd(good, vfZero(delta)), "an altered cookie is accepted")
	vfAssert(vfEq2(got, plain), "a cookie is decoded to something else")
}

type vfCookieHandler struct {
	cookie    []byte
	genErr    error
	valid     bool
	generated int
	validated [][]byte
	conn      *Conn
}

func (h *vfCookieHandler) Generate(c *Conn) ([]byte, error) {
	vfAssert(c == h.conn, "the application generates a cookie for another connection")
	h.generated++
	return h.cookie, h.genErr
}

func (h *vfCookieHandler) Validate(c *Conn, b []byte) bool {
	vfAssert(c == h.conn, "the application validates a cookie of another connection")
	h.validated = append(h.validated, b)
	return h.valid
}

// VF_C22_server: a server that requires a cookie goes on only with one it
// protected, for the same suite, whose application part the validator accepts.
//
//vf:bounds application cookie absent (no handler), nil, 0, 1 or 20 bytes of any value, or an error; returned cookie changed by any delta (every byte), empty, of another server, or absent; suites of the second hello the same, reordered or others; validator accepting or not
//vf:reach noretry retried done refused rejected othersuite
//vf:budget 60 300
func VF_C22_server() {
	sc := vfServerConfig()
	sc.RequireCookie = true
	sc.CipherSuites = []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}
	cp, err := NewDefaultCookieProtector()
	vfAssert(err == nil, "no cookie protector")
	sc.CookieProtector = cp
	var h *vfCookieHandler
	app := vfChoice("application", 6)
	if app > 0 {
		h = &vfCookieHandler{valid: vfFlag("valid")}
		switch app {
		case 2:
			h.cookie = []byte{}
		case 3:
			h.cookie = vfBytes("app", 1)
		case 4:
			h.cookie = vfBytes("app", 20)
		case 5:
			h.genErr = AlertInternalError
		}
		sc.CookieHandler = h
	}
	p := vfNewPeer(sc, false)
	if h != nil {
		h.conn = p.ep
	}
	o := vfDefaultCH()
	o.suites = []CipherSuite{TLS_AES_256_GCM_SHA384, TLS_AES_128_GCM_SHA256}
	p.sendCH(o)
	p.step()
	if app == 1 || app == 5 {
		if app == 5 {
			vfAssert(vfFatal(p.alert) && len(p.rd.recs) == 0, "the server goes on without a cookie from the application")
			vfReach("refused")
			return
		}
		vfReach("noretry")
		s, ok := p.recvServerHello(o)
		vfAssert(ok, "no answer")
		p.recvServerFlight(o, s)
		p.sendClientFin()
		p.step()
		vfAssert(p.connected(), "the handshake does not complete without a retry")
		return
	}
	suite, cookie := p.recvRetry()
	vfAssert(suite == TLS_AES_256_GCM_SHA384, "the retry names another suite")
	vfReach("retried")
	delta := make([]byte, len(cookie))
	good, suiteOK := true, true
	switch vfChoice("return", 5) {
	case 0:
		o.cookie = cookie
		switch vfChoice("suites", 4) {
		case 0:
			o.suites = o.suites[:1]
		case 1:
		case 2:
			o.suites, suiteOK = o.suites[1:], false
		case 3:
			o.suites, suiteOK = []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}, false
		}
	case 1:
		delta = vfBytes("delta", len(cookie))
		o.cookie = vfXor(cookie, delta)
	case 2:
		good = false
		o.cookie = []byte{}
	case 3:
		good = false
		other, err := NewDefaultCookieProtector()
		vfAssert(err == nil, "no cookie protector")
		o.cookie, err = other.NewToken([]byte("x"))
		vfAssert(err == nil, "no token")
	case 4:
		good = false
		o.cookie = nil
	}
	p.sendCH(o)
	p.step()
	good = vfAnd(vfAnd(good, suiteOK), vfAnd(h == nil || h.valid, vfZero(delta)))
	if h != nil {
		for _, v := range h.validated {
			vfAssert(vfEq2(v, h.cookie), "the application validates another cookie than it generated")
		}
		vfAssert(len(h.validated) <= 1, "the application is asked more than once")
	}
	if vfFatal(p.alert) {
		vfReach("refused")
		vfAssert(vfNot(good), "a genuine retry is refused")
		vfAssert(len(p.rd.recs) == 0, "the server answers a retry it refuses")
		if h != nil && !h.valid {
			vfReach("rejected")
		}
		if !suiteOK {
			vfReach("othersuite")
		}
		return
	}
	vfAssert(len(p.rd.recs) > 0, "no answer")
	if vfEq(p.rd.recs[0].frag[6:38], vfHRRRandom) {
		vfAssert(len(o.cookie) == 0, "a second retry")
		return
	}
	vfAssert(good, "the server goes on without a genuine cookie")
	vfAssert(h == nil || len(h.validated) == 1, "the application is not asked")
	s, ok := p.recvServerHello(o)
	vfAssert(ok && s.suite == suite, "the suite changes after a retry")
	p.recvServerFlight(o, s)
	p.sendClientFin()
	p.step()
	vfAssert(p.connected(), "the retried handshake does not complete")
	p.checkSecrets()
	vfReach("done")
}

// VF_C22_unasked: a cookie the server did not ask for, or whose first hello
// was another one, does not lead to a connection.
//
//vf:bounds server not requiring cookies with any cookie of 1 or 33 bytes; a cookie obtained for another first hello (any 32-byte random)
//vf:reach unasked other
func VF_C22_unasked() {
	sc := vfServerConfig()
	o := vfDefaultCH()
	if vfFlag("unasked") {
		p := vfNewPeer(sc, false)
		o.cookie = vfBytes("cookie", []int{1, 33}[vfChoice("len", 2)])
		p.sendCH(o)
		p.step()
		vfAssert(vfFatal(p.alert) && len(p.rd.recs) == 0, "a cookie that was not asked for is accepted")
		vfReach("unasked")
		return
	}
	sc.RequireCookie = true
	cp, err := NewDefaultCookieProtector()
	vfAssert(err == nil, "no cookie protector")
	sc.CookieProtector = cp
	p := vfNewPeer(sc, false)
	// the attacker changed the random of the first hello
	delta := vfBytes("random", 32)
	ch := p.clientHello(o)
	p.transcript = vfMsg(HandshakeTypeClientHello, ch)
	p.record(RecordTypeHandshake, vfMsg(HandshakeTypeClientHello, vfJoin(ch[:2], vfXor(ch[2:34], delta), ch[34:])))
	p.step()
	_, o.cookie = p.recvRetry()
	p.sendCH(o)
	p.step()
	s, ok := p.recvServerHelloXor(o, delta)
	if !ok {
		vfReach("other")
		return
	}
	p.recvServerFlight(o, s)
	p.sendClientFin()
	p.step()
	vfAssert(p.connected(), "an untouched retry does not complete")
}

// recvServerHelloXor reads a ServerHello; if the first hello was changed, the
// server must use other keys than the client derives.
func (p *vfPeer) recvServerHelloXor(o *vfCH, delta []byte) (*vfServed, bool) {
	s, ok := p.recvServerHello(o)
	vfAssert(ok && len(p.rd.recs) > 0, "no answer")
	same := vfEq(p.rd.recs[0].key, p.r.key)
	vfAssert(same == vfZero(delta), "the first hello is not bound into the handshake")
	return s, same
}

// VF_C22_client: a client returns the cookie exactly, once, and for the suite
// of the retry; a second retry or one without a cookie ends the handshake.
//
//vf:bounds cookie of 1, 2, 32, 300 bytes of any value; retry with any suite (16 bits), without a cookie, with an empty one, with a cookie of inconsistent length or an additional extension (any type); answer to the second hello: ServerHello with any suite (16 bits), or a second retry
//vf:reach done second refused
//vf:budget 60 300
func VF_C22_client() {
	cc := vfClientConfig()
	cc.CipherSuites = []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}
	p := vfNewPeer(cc, true)
	p.step()
	ch1 := p.expect(HandshakeTypeClientHello)
	n := []int{1, 2, 32, 300}[vfChoice("len", 4)]
	cookie := vfBytes("cookie", n)
	ext := vfExt(ExtensionTypeCookie, vfVec(2, cookie))
	suite := TLS_AES_128_GCM_SHA256
	good := true
	switch vfChoice("retry", 6) {
	case 0:
	case 1:
		suite = CipherSuite(vfU16("suite"))
		good = suite == TLS_AES_128_GCM_SHA256 || suite == TLS_AES_256_GCM_SHA384
	case 2:
		ext, good = nil, false
	case 3:
		ext, good = vfExt(ExtensionTypeCookie, []byte{0, 0}), false
	case 4:
		l := vfU16("cookie length")
		ext, good = vfExt(ExtensionTypeCookie, vfJoin([]byte{byte(l >> 8), byte(l)}, cookie)), int(l) == n
	case 5:
		ext, good = vfJoin(ext, vfExt(ExtensionType(vfU16("extra")), []byte{0, 29})), false
	}
	p.suite = suite
	p.foldHello(suite)
	p.send(HandshakeTypeServerHello, p.serverHello(vfHRRRandom, suite, vfVersionSH, ext))
	p.step()
	if vfFatal(p.alert) {
		vfReach("refused")
		vfAssert(!good, "a correct retry request is refused")
		vfAssert(len(p.rd.recs) == 0, "the client answers a retry request it refuses")
		return
	}
	vfAssert(good, "a wrong retry request is accepted")
	ch := p.expect(HandshakeTypeClientHello)
	vfAssert(vfEq2(vfCHExts(ch)[ExtensionTypeCookie], vfVec(2, cookie)), "the cookie is not returned exactly")
	vfAssert(vfEq(vfCHExts(ch)[ExtensionTypeServerName], vfCHExts(ch1)[ExtensionTypeServerName]), "the second hello is for another server")
	p.takeShare(ch)
	if vfFlag("second") {
		p.send(HandshakeTypeServerHello, p.serverHello(vfHRRRandom, suite, vfVersionSH, ext))
		p.step()
		vfAssert(vfFatal(p.alert) && len(p.rd.recs) == 0, "the client retries twice")
		vfReach("second")
		return
	}
	final := suite
	if vfFlag("other suite") {
		final = CipherSuite(vfU16("final suite"))
	}
	p.send(HandshakeTypeServerHello, p.serverHello(vfRand32(0x50), final, vfVersionSH, vfKeyShareSH(X25519, p.pub[:])))
	p.start(final, nil)
	p.handshake(p.dh(), p.transcript)
	p.toHS()
	p.sendEE()
	p.sendCert()
	p.sendFin()
	p.step()
	if !p.connected() {
		vfReach("refused")
		vfAssert(final != suite, "an untouched retry does not complete")
		return
	}
	vfAssert(final == suite, "the suite changes after a retry")
	p.finishServer()
	p.checkSecrets()
	vfReach("done")
}

// vfPlainProtector only remembers what it protected; it decodes everything.
type vfPlainProtector struct{ plain []byte }

func (p *vfPlainProtector) NewToken(b []byte) ([]byte, error) {
	p.plain = b
	return b, nil
}

func (p *vfPlainProtector) DecodeToken(b []byte) ([]byte, error) { return b, nil }

// VF_C22_decode: a decoded cookie that is cut or has additional bytes is
// refused, not interpreted in part.
//
//vf:bounds server state cut to every shorter length, or extended by one byte of any value
//vf:reach done refused
func VF_C22_decode() {
	sc := vfServerConfig()
	sc.RequireCookie = true
	sc.CookieProtector = &vfPlainProtector{}
	p := vfNewPeer(sc, false)
	o := vfDefaultCH()
	p.sendCH(o)
	p.step()
	suite, cookie := p.recvRetry()
	o.cookie = cookie
	good := true
	switch vfChoice("what", 3) {
	case 0:
	case 1:
		o.cookie, good = cookie[:1+vfChoice("cut", len(cookie)-1)], false
	case 2:
		o.cookie, good = append(vfJoin(cookie), vfU8("more")), false
	}
	p.sendCH(o)
	p.step()
	if !good {
		vfAssert(vfFatal(p.alert) && len(p.rd.recs) == 0, "a cookie is interpreted in part")
		vfReach("refused")
		return
	}
	s, ok := p.recvServerHello(o)
	vfAssert(ok && s.suite == suite, "an untouched retry does not complete")
	p.recvServerFlight(o, s)
	p.sendClientFin()
	p.step()
	vfAssert(p.connected(), "an untouched retry does not complete")
	vfReach("done")
}

// VF_C22_psk: a retry and a PSK go together only for the suite the retry named.
//
//vf:bounds server with a PSK of either suite and a cookie; first and second hello each with the PSK or not (the second with a binder changed by any delta, or with early data although that is not allowed there), both suites in either order, or one; TLS
//vf:outside a PSK that only the second hello offers and whose suite does not match the retry may be refused or not used
//vf:reach psk cert refused othersuite early
func VF_C22_psk() {
	both := []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}
	psk := vfTestPSK(both[vfChoice("psk suite", 2)])
	sc := vfServerConfig()
	sc.PSKs = vfPSKCache(psk, "x")
	sc.RequireCookie = true
	sc.CipherSuites = both
	cp, err := NewDefaultCookieProtector()
	vfAssert(err == nil, "no cookie protector")
	sc.CookieProtector = cp
	p := vfNewPeer(sc, false)
	o := vfDefaultCH()
	orders := [][]CipherSuite{both, {both[1], both[0]}, both[:1], both[1:]}
	o.suites = orders[vfChoice("suites", 4)]
	if vfFlag("first") {
		o.psk = &psk
	}
	p.sendCH(o)
	p.step()
	if vfFatal(p.alert) {
		// a PSK whose suite is not offered
		vfAssert(o.psk != nil && len(o.suites) == 1 && o.suites[0] != psk.CipherSuite && len(p.rd.recs) == 0, "an honest hello is refused")
		vfStop()
	}
	suite, cookie := p.recvRetry()
	o.cookie = cookie
	o.suites = orders[vfChoice("suites", 4)]
	delta := make([]byte, vfHashLen(psk.CipherSuite))
	o.psk = nil
	if vfFlag("second") {
		o.psk = &psk
		if vfFlag("binder") {
			delta = vfBytes("delta", len(delta))
			o.binderXor = delta
		} else {
			o.early = vfFlag("early")
			sc.AllowEarlyData = o.early
		}
	}
	p.sendCH(o)
	p.step()
	offered := o.suites[0] == suite || len(o.suites) == 2 && o.suites[1] == suite
	if vfFatal(p.alert) {
		vfReach("refused")
		vfAssert(len(p.rd.recs) == 0, "the server answers a retry it refuses")
		if o.early {
			vfReach("early")
			return
		}
		good := offered && (o.psk == nil && o.suites[0] == suite || o.psk != nil && psk.CipherSuite == suite)
		vfAssert(vfNot(vfAnd(good, vfZero(delta))), "a genuine retry is refused")
		if o.psk != nil && psk.CipherSuite != suite {
			vfReach("othersuite")
		}
		return
	}
	s, ok := p.recvServerHello(o)
	vfAssert(ok && s.suite == suite && offered, "the server continues with another suite than the retry named")
	vfAssert(vfZero(delta), "a wrong binder is accepted")
	if s.usePSK {
		vfAssert(psk.CipherSuite == suite, "a PSK is used with another suite than its own")
		vfReach("psk")
	} else {
		vfReach("cert")
	}
	p.recvServerFlight(o, s)
	if o.early {
		_, accepted := s.ee[ExtensionTypeEarlyData]
		vfAssert(!accepted, "early data is accepted after a retry")
		vfReach("early")
		return
	}
	p.sendClientFin()
	p.step()
	vfAssert(p.connected(), "the retried handshake does not complete")
	p.checkSecrets()
}
