package mint

import "time"

type vfExtHandler struct{ calls int }

func (h *vfExtHandler) Send(HandshakeType, *ExtensionList) error    { h.calls++; return nil }
func (h *vfExtHandler) Receive(HandshakeType, *ExtensionList) error { h.calls++; return nil }

// vfSomeConfig is a configuration with every field, one field or none set, and
// the number of calls of its callback.
func vfSomeConfig() (*Config, *int) {
	calls := new(int)
	full := &Config{
		ServerName:         vfString("name", 3),
		SendSessionTickets: vfBool("tickets"), TicketLifetime: vfU32("lifetime"), TicketLen: int(vfU16("len")),
		EarlyDataLifetime: vfU32("early lifetime"), AllowEarlyData: vfBool("early"), RequireCookie: vfBool("cookie"),
		CookieHandler: &vfCookies{}, CookieProtector: &vfProtector{}, ExtensionHandler: &vfExtHandler{},
		RequireClientAuth: vfBool("auth"), Time: vfConfigTime, RootCAs: vfRoots(), InsecureSkipVerify: vfBool("skip"),
		Certificates: []*Certificate{vfServerCert(), vfClientCert()}, VerifyPeerCertificate: vfVerifyCallback(true, calls),
		CipherSuites: []CipherSuite{CipherSuite(vfU16("suite")), CipherSuite(vfU16("suite 2"))}, Groups: []NamedGroup{NamedGroup(vfU16("group"))},
		SignatureSchemes: []SignatureScheme{SignatureScheme(vfU16("scheme"))}, NextProtos: []string{vfString("proto", 2), "b"},
		PSKs: vfPSKCache(vfTestPSK(TLS_AES_128_GCM_SHA256), "x"), PSKModes: []PSKKeyExchangeMode{PSKKeyExchangeMode(vfU8("mode"))},
		NonBlocking: vfBool("nonblocking"), UseDTLS: vfBool("dtls"), RecordLayer: &vfFactory{},
	}
	c := &Config{}
	switch k := vfChoice("set", 26); k {
	case 0:
		c = full
		vfReach("full")
	case 1:
		vfReach("empty")
	case 2:
		c.ServerName = full.ServerName
	case 3:
		c.SendSessionTickets = full.SendSessionTickets
	case 4:
		c.TicketLifetime = full.TicketLifetime
	case 5:
		c.TicketLen = full.TicketLen
	case 6:
		c.EarlyDataLifetime = full.EarlyDataLifetime
	case 7:
		c.AllowEarlyData = full.AllowEarlyData
	case 8:
		c.RequireCookie = full.RequireCookie
	case 9:
		c.CookieHandler = full.CookieHandler
	case 10:
		c.CookieProtector = full.CookieProtector
	case 11:
		c.ExtensionHandler = full.ExtensionHandler
	case 12:
		c.RequireClientAuth = full.RequireClientAuth
	case 13:
		c.Time = full.Time
	case 14:
		c.RootCAs = full.RootCAs
	case 15:
		c.InsecureSkipVerify = full.InsecureSkipVerify
	case 16:
		c.Certificates = full.Certificates
	case 17:
		c.VerifyPeerCertificate = full.VerifyPeerCertificate
	case 18:
		c.CipherSuites = full.CipherSuites
	case 19:
		c.Groups = full.Groups
	case 20:
		c.SignatureSchemes = full.SignatureSchemes
	case 21:
		c.NextProtos = full.NextProtos
	case 22:
		c.PSKs = full.PSKs
	case 23:
		c.PSKModes = full.PSKModes
	case 24:
		c.NonBlocking = full.NonBlocking
	case 25:
		c.UseDTLS, c.RecordLayer = full.UseDTLS, full.RecordLayer
		vfReach("one")
	}
	return c, calls
}

// VF_C26_clone: a clone has every setting of the original, and is independent
// of it.
//
//vf:bounds every field set to any value (integers, flags and list elements symbolic; strings of 3 bytes; other fields distinct objects), or any one of them, or none; before and after defaults are filled in
//vf:reach full empty initialised one
func VF_C26_clone() {
	c, calls := vfSomeConfig()
	if vfFlag("init") {
		vfAssert(c.Init(vfFlag("client")) == nil, "Init fails")
		vfReach("initialised")
	}
	before := vfSnap(c)
	d := c.Clone()
	vfAssert(d != c, "a clone is the original")
	before.same(vfSnap(d), "the clone differs")
	before.same(vfSnap(c), "cloning changes the original")
	if c.VerifyPeerCertificate != nil {
		err := d.VerifyPeerCertificate(nil, nil)
		vfAssert(err == nil && *calls == 1, "the clone has another callback")
	}
	if c.Time != nil {
		vfAssert(d.Time().Equal(vfConfigTime()), "the clone has another clock")
	}
	// the clone can be cloned, initialised and changed on its own
	e := d.Clone()
	vfAssert(d.Init(true) == nil && c.Init(true) == nil, "Init fails")
	now := vfSnap(c)
	e.ServerName, e.CipherSuites, e.AllowEarlyData, e.PSKs, e.Certificates = "other", nil, !e.AllowEarlyData, nil, nil
	e.Time = func() time.Time { return time.Unix(5, 0) }
	now.same(vfSnap(c), "a change of the clone changes the original")
}

// VF_C26_init: filling in defaults changes only what is not set, gives what is
// not set the default, and does nothing the second time.
//
//vf:bounds the configurations of VF_C26_clone; client and server
//vf:reach full empty one
func VF_C26_init() {
	c, _ := vfSomeConfig()
	want := vfSnap(c)
	if len(want.suites) == 0 {
		want.suites = []uint16{uint16(TLS_AES_128_GCM_SHA256), uint16(TLS_AES_256_GCM_SHA384)}
	}
	if len(want.groups) == 0 {
		want.groups = []uint16{uint16(P256), uint16(P384), uint16(FFDHE2048), uint16(X25519)}
	}
	if len(want.modes) == 0 {
		want.modes = []byte{byte(PSKModeKE), byte(PSKModeDHEKE)}
	}
	lifetime := want.lifetime
	noPSKs, noSchemes := c.PSKs == nil, len(want.schemes) == 0
	want.ticketLen = vfIteInt(want.ticketLen == 0, 16, want.ticketLen)
	client := vfFlag("client")
	for i := 0; i < 2; i++ {
		vfAssert(c.Init(client) == nil, "Init fails")
		got := vfSnap(c)
		if noPSKs {
			vfAssert(got.psks != nil && got.psks.Size() == 0, "no session cache is filled in")
			want.psks, noPSKs = got.psks, false
		}
		if noSchemes {
			for _, x := range got.schemes {
				// nothing a verifier must not accept in TLS 1.3 (RFC 8446, 4.2.3)
				vfAssert(x&0xff != 2 && x>>8 != 1, "MD5, or DSA, by default")
			}
			vfAssert(len(got.schemes) > 0, "no signature schemes are filled in")
			want.schemes, noSchemes = got.schemes, false
		}
		vfAssert(vfOr(lifetime != 0, vfAnd(got.lifetime > 0, got.lifetime <= 604800)), "no lifetime of tickets is filled in")
		want.lifetime = uint32(vfIteInt(want.lifetime == 0, int(got.lifetime), int(want.lifetime)))
		want.same(got, "Init changes a setting")
	}
	vfAssert(c.ValidForClient() == (len(c.ServerName) > 0), "ValidForClient")
	ok := c.PSKs.Size() > 0 || (len(c.Certificates) > 0 && len(c.Certificates[0].Chain) > 0 && c.Certificates[0].PrivateKey != nil)
	vfAssert(c.ValidForServer() == ok, "ValidForServer")
}

type vfCookies struct{ n int }

func (h *vfCookies) Generate(*Conn) ([]byte, error) { return nil, nil }
func (h *vfCookies) Validate(*Conn, []byte) bool    { return true }

type vfProtector struct{ n int }

func (p *vfProtector) NewToken(b []byte) ([]byte, error)    { return b, nil }
func (p *vfProtector) DecodeToken(b []byte) ([]byte, error) { return b, nil }

// vfDefaults returns what the configuration is once unset fields are filled in.
func vfDefaults(c *Config, isClient bool) *vfSnapshot {
	d := c.Clone()
	vfAssert(d.Init(isClient) == nil, "Init fails")
	s := vfSnap(d)
	if c.PSKs != nil {
		vfAssert(s.psks == c.PSKs, "Init replaces the session cache")
	}
	return s
}

// VF_C26_handshake: connections leave the configurations of both sides as they
// are, whatever the mode, so that the next connection behaves the same.
//
//vf:bounds TLS and DTLS; the modes of VF_C18_client, both suites or two suites configured at either side, any one of 6 list or number settings left at its default; two handshakes with the same configurations, data in both directions
//vf:reach cert auth psk pskdh retry early dtls unset
//vf:budget 60 300
func VF_C26_handshake() {
	m := vfChooseMode()
	cc, sc := m.configs()
	if !m.resumption {
		// the session was for no application protocol
		cc.NextProtos, sc.NextProtos = []string{"b", "a"}, []string{"a"}
	}
	cc.CipherSuites = []CipherSuite{TLS_AES_256_GCM_SHA384, TLS_AES_128_GCM_SHA256}
	sc.CipherSuites = []CipherSuite{m.suite, TLS_CHACHA20_POLY1305_SHA256}
	sc.SignatureSchemes = []SignatureScheme{RSA_PSS_SHA256, ECDSA_P256_SHA256}
	sc.Certificates = append(sc.Certificates, vfClientCert())
	sc.SendSessionTickets = !m.psk
	sc.TicketLifetime = 100
	if !m.early && vfFlag("dtls") {
		cc.UseDTLS, sc.UseDTLS = true, true
		vfReach("dtls")
	}
	switch vfChoice("unset", 7) {
	case 0:
		vfReach("unset")
	case 1:
		cc.CipherSuites = nil
	case 2:
		sc.CipherSuites = nil
		if m.psk {
			vfStop()
		}
	case 3:
		cc.SignatureSchemes, sc.SignatureSchemes = nil, nil
	case 4:
		cc.PSKModes, sc.PSKModes = nil, nil
	case 5:
		if !m.psk {
			cc.PSKs, sc.PSKs = nil, nil
		}
	case 6:
		sc.TicketLen = 7
	}
	wc, ws := vfDefaults(cc, true), vfDefaults(sc, false)
	for i := 0; i < 2; i++ {
		p := vfNewPair(cc, sc)
		p.run()
		vfAssert(p.ok(), "the handshake does not complete")
		n, err := p.client.Write([]byte("abc"))
		vfAssert(n == 3 && err == nil, "write")
		b := make([]byte, 4)
		n, err = p.server.Read(b)
		vfAssert(n == 3 && err == nil, "read")
		p.client.Read(b)
		vfUnchanged(cc, wc, "the client's configuration changed")
		vfUnchanged(sc, ws, "the server's configuration changed")
	}
	m.reach()
}

// VF_C26_hostile: nor does anything a peer sends change a configuration.
//
//vf:bounds 17 (thorough 23) states of client and server; the message expected there with any delta added to any of its first 48 or last 16 bytes, or a hello retry for any suite (16 bits), then the rest of an honest handshake if it goes on
//vf:outside DTLS (the same state machine)
//vf:reach refused accepted retry
//vf:budget 80 300
func VF_C26_hostile() {
	n := vfChoice("state", vfParam("states", vfBasicStages, len(vfStageNames))+1)
	if n == vfParam("states", vfBasicStages, len(vfStageNames)) {
		cc := vfClientConfig()
		cc.CipherSuites = []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}
		p := vfNewPeer(cc, true)
		w := vfDefaults(cc, true)
		p.step()
		p.expect(HandshakeTypeClientHello)
		p.suite = CipherSuite(vfU16("suite"))
		p.send(HandshakeTypeServerHello, p.serverHello(vfHRRRandom, p.suite, vfVersionSH, vfExt(ExtensionTypeCookie, []byte{0, 1, 7})))
		p.step()
		vfUnchanged(cc, w, "the configuration changed")
		vfReach("retry")
		return
	}
	st := vfAtStage(n)
	p := st.vfPeer
	c := p.ep.config
	w := vfDefaults(c, vfClientStage(n))
	other := vfChoice("message", len(vfStageAllowed[n]))
	for i, t := range vfStageAllowed[n] {
		if i != other {
			continue
		}
		b := st.body(t)
		if len(b) > 0 {
			d := make([]byte, len(b))
			i := vfChoice("at", len(b))
			vfAssume(i < 48 || i >= len(b)-16)
			d[i] = vfU8("delta")
			b = vfXor(b, d)
		}
		p.send(t, b)
	}
	if p.connected() {
		p.ep.Read(make([]byte, 4))
	} else {
		p.step()
	}
	vfUnchanged(c, w, "the configuration changed")
	if vfFatal(p.alert) {
		vfReach("refused")
	} else {
		vfReach("accepted")
	}
}
