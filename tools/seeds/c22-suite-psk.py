property='C22'
pkg=''
needs='a client that offers a PSK for another suite only after the retry'
breaks='with a PSK the server continues with another cipher suite than the cookie was made for'
edits=[
('server-state-machine.go',
 '\tif clientSentCookie && initialCipherSuite.Suite != connParams.CipherSuite {',
 '\tif clientSentCookie && psk == nil && initialCipherSuite.Suite != connParams.CipherSuite {'),
]
demo=r"""package mint

import "testing"

// the server gets a first hello without a PSK, and a second with one for another suite
func TestVfDemo(t *testing.T) {
	p := PreSharedKey{CipherSuite: TLS_AES_256_GCM_SHA384, Identity: []byte{0, 1, 2, 3}, Key: []byte{4, 5, 6, 7}}
	cache := &PSKMapCache{serverName: p, "00010203": p}
	suites := []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}
	cc, sc := nbConfig.Clone(), nbConfig.Clone()
	cc.CipherSuites, sc.CipherSuites = suites, suites
	sc.PSKs = cache
	sc.RequireCookie = true
	sc.CookieProtector, _ = NewDefaultCookieProtector()
	c, s := pipe()
	server := Server(s, sc)
	if err := cc.Init(true); err != nil {
		t.Fatal(err)
	}
	layer := func() *HandshakeContext {
		in, out := NewRecordLayerTLS(c, DirectionRead), NewRecordLayerTLS(c, DirectionWrite)
		h := HandshakeContext{hIn: NewHandshakeLayerTLS(nil, in), hOut: NewHandshakeLayerTLS(nil, out)}
		return &h
	}
	hello := func(st clientStateStart) *HandshakeMessage {
		st.hsCtx = layer()
		st.Opts.ServerName = serverName
		next, _, alert := st.Next(nil)
		if alert != AlertNoAlert {
			t.Fatal(alert)
		}
		return next.(clientStateWaitSH).clientHello
	}
	send := func(m *HandshakeMessage) Alert {
		NewRecordLayerTLS(c, DirectionWrite).WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: m.Marshal()})
		var a Alert
		for i := 0; i < 3; i++ {
			if a = server.Handshake(); a != AlertNoAlert && a != AlertStatelessRetry {
				break
			}
		}
		return a
	}
	first := hello(clientStateStart{Config: cc})
	send(first)
	rec := append([]byte{}, c.r.Bytes()...)
	c.r.Reset()
	if len(rec) < 50 {
		t.Fatal("no retry")
	}
	hrr := &HandshakeMessage{msgType: HandshakeType(rec[5]), body: rec[9:], length: uint32(len(rec) - 9)}
	var body ServerHelloBody
	if _, err := body.Unmarshal(hrr.body); err != nil {
		t.Fatal(err)
	}
	var cookie CookieExtension
	if ok, err := body.Extensions.Find(&cookie); !ok || err != nil {
		t.Fatal("no cookie")
	}
	h := cipherSuiteMap[body.CipherSuite].Hash.New()
	h.Write(first.Marshal())
	sum := h.Sum(nil)
	folded := &HandshakeMessage{msgType: HandshakeTypeMessageHash, body: sum, length: uint32(len(sum))}
	conf := cc.Clone()
	conf.PSKs = cache
	second := hello(clientStateStart{Config: conf, cookie: cookie.Cookie, firstClientHello: folded, helloRetryRequest: hrr})
	a := send(second)
	if body.CipherSuite == TLS_AES_128_GCM_SHA256 && (a == AlertNoAlert || a == AlertWouldBlock) {
		t.Fatal("the server continues with another suite than the cookie's", a, server.GetHsState())
	}
}
"""
