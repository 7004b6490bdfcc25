package mint

import "time"

// vfTicket is a NewSessionTicket as the peer received it.
// vfResumptionKey: RFC 8446 section 4.6.1.
func (p *vfPeer) vfResumptionKey(nonce []byte) []byte {
	return vfExpandLabel(p.h, p.res, "resumption", nonce, p.h.Size())
}

// vfStore is a session cache that records what is stored.
type vfStore struct {
	m    PSKMapCache
	puts []string
}

func (s *vfStore) Get(k string) (PreSharedKey, bool) { return s.m.Get(k) }
func (s *vfStore) Put(k string, p PreSharedKey)      { s.puts = append(s.puts, k); s.m.Put(k, p) }
func (s *vfStore) Size() int                         { return s.m.Size() }

func vfNewStore() *vfStore { return &vfStore{m: PSKMapCache{}} }

func vfSuiteChoice() CipherSuite {
	return []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}[vfChoice("suite", 2)]
}

// vfClientUp completes a handshake of a client endpoint with an honest server.
func vfClientUp(cc *Config, suite CipherSuite, proto string) *vfPeer {
	p := vfNewPeer(cc, true)
	p.suite = suite
	p.serverStart(true, nil)
	if proto != "" {
		p.sendEE(vfExt(ExtensionTypeALPN, vfVec(2, vfVec(1, []byte(proto)))))
	} else {
		p.sendEE()
	}
	p.sendCert()
	p.sendFin()
	p.finishServer()
	vfAssert(p.connected(), "the handshake does not complete")
	return p
}

// VF_C20_client: a client stores the key, identity and parameters of a ticket
// as sent, and until the lifetime is over offers them with the ticket's age on
// its next connection, which then completes with that key.
//
//vf:bounds both suites, one with an application protocol; one or two tickets, in one record or two; lifetime and age addition any 32-bit value, nonce of 0, 1, 16, 255 and ticket of 1, 16, 300 bytes of any value, the second with an early data extension; age of 0, 999 ms, 6 days, 1 ms less than 7 days (thorough: 7 and 20 days); data before the ticket
//vf:reach done two proto split expired
//vf:budget 60 300
func VF_C20_client() {
	suite := vfSuiteChoice()
	cc := vfClientConfig()
	cc.CipherSuites = []CipherSuite{TLS_AES_256_GCM_SHA384, TLS_AES_128_GCM_SHA256}
	store := vfNewStore()
	cc.PSKs = store
	proto := ""
	if suite == TLS_AES_256_GCM_SHA384 {
		cc.NextProtos, proto = []string{"aa", "h2"}, "h2"
		vfReach("proto")
	}
	p := vfClientUp(cc, suite, proto)
	tickets := 1
	if vfFlag("two") {
		tickets = 2
		vfReach("two")
	}
	split := tickets == 2 && vfFlag("split")
	var t vfTicket
	all := []byte{}
	var want []vfTicket
	for i := 0; i < tickets; i++ {
		t = vfTicket{lifetime: vfU32("lifetime"), add: vfU32("add")}
		if i == tickets-1 {
			t.nonce = vfBytes("nonce", []int{0, 1, 16, 255}[vfChoice("nonce len", 4)])
			t.ticket = vfBytes("ticket", []int{1, 16, 300}[vfChoice("ticket len", 3)])
		} else {
			t.nonce, t.ticket = vfBytes("nonce", 2), vfBytes("ticket", 3)
		}
		exts := []byte{}
		if i > 0 {
			exts = vfExt(ExtensionTypeEarlyData, vfBytes("max", 4))
		}
		lt := []byte{byte(t.lifetime >> 24), byte(t.lifetime >> 16), byte(t.lifetime >> 8), byte(t.lifetime),
			byte(t.add >> 24), byte(t.add >> 16), byte(t.add >> 8), byte(t.add)}
		all = append(all, vfMsg(HandshakeTypeNewSessionTicket, vfJoin(lt, vfVec(1, t.nonce), vfVec(2, t.ticket), vfVec(2, exts)))...)
		want = append(want, t)
	}
	if split {
		p.record(RecordTypeHandshake, all[:len(all)/2])
		p.record(RecordTypeHandshake, all[len(all)/2:])
		vfReach("split")
	} else {
		p.record(RecordTypeHandshake, all)
	}
	p.record(RecordTypeApplicationData, []byte("abc"))
	at := vfTimeNow()
	b := make([]byte, 8)
	n, err := p.ep.Read(b)
	vfAssert(err == nil && n == 3 && vfEq(b[:3], []byte("abc")), "data after a ticket is lost")
	vfAssert(len(store.puts) == tickets && store.puts[tickets-1] == "example.com", "not every ticket is stored under the server's name")
	psk, ok := store.Get("example.com")
	vfAssert(ok, "the ticket is not stored")
	key := p.vfResumptionKey(t.nonce)
	vfAssert(vfEq2(psk.Key, key), "the key is not that of the ticket's nonce")
	vfAssert(vfEq2(psk.Identity, t.ticket), "the identity is not the ticket")
	vfAssert(psk.CipherSuite == suite && psk.IsResumption, "the ticket is stored for another suite")
	vfAssert(psk.TicketAgeAdd == t.add, "the ticket's age addition is not stored")
	vfAssert(vfEqS(psk.NextProto, proto), "the ticket is stored for another protocol")
	vfAssert(psk.ReceivedAt.Equal(at), "the time of receipt is not stored")
	// RFC 8446, section 4.6.1: no ticket is kept for more than 7 days
	lifetime := uint32(vfIteInt(t.lifetime > 604800, 604800, int(t.lifetime)))
	vfAssert(psk.ExpiresAt.Equal(at.Add(time.Duration(lifetime)*time.Second)), "the lifetime is not stored")

	// the next connection
	age := []uint32{0, 999, 6 * 86400000, 604799999, 604800000, 20 * 86400000}[vfChoice("age", vfParam("ages", 4, 6))]
	vfAdvance(uint64(age) * 1000000)
	q := vfNewPeer(cc, true)
	q.suite = suite
	q.step()
	ch := q.expect(HandshakeTypeClientHello)
	if uint64(lifetime)*1000 <= uint64(age) {
		_, offered := vfCHExts(ch)[ExtensionTypePreSharedKey]
		vfAssert(!offered, "an expired ticket is offered")
		vfReach("expired")
		return
	}
	q.takeShare(ch)
	q.start(suite, key)
	psk.Identity, psk.IsResumption = t.ticket, true
	q.checkBinder(ch, psk, true)
	x := vfCHExts(ch)[ExtensionTypePreSharedKey]
	vfAssert(vfU32At(x[4+len(t.ticket):]) == age+t.add, "the ticket's age is not claimed")
	q.send(HandshakeTypeServerHello, q.serverHello(vfRand32(0x50), suite, vfVersionSH, vfKeyShareSH(X25519, q.pub[:]), vfExt(ExtensionTypePreSharedKey, []byte{0, 0})))
	q.handshake(q.dh(), q.transcript)
	q.toHS()
	if proto != "" {
		q.sendEE(vfExt(ExtensionTypeALPN, vfVec(2, vfVec(1, []byte(proto)))))
	} else {
		q.sendEE()
	}
	q.sendFin()
	q.finishServer()
	vfAssert(q.connected() && q.ep.ConnectionState().UsingPSK, "the session is not resumed")
	q.checkSecrets()
	vfReach("done")
}

// vfServerUp completes a handshake of a server endpoint with an honest client
// and returns the ticket it sends.
func vfServerUp(sc *Config, o *vfCH) (*vfPeer, vfTicket) {
	p := vfNewPeer(sc, false)
	p.honestClient(o)
	return p, vfParseTicket(p.expect(HandshakeTypeNewSessionTicket))
}

// VF_C20_server: a server sends a ticket whose key it stores under that
// ticket, and until its lifetime is over accepts it with the right binder within
// 5 seconds of the claimed age; otherwise it does not use it.
//
//vf:bounds both suites, with and without an application protocol, tickets of 1, 16, 33 bytes, lifetimes and early data limits of any 32-bit value; used after 0, 1, 4999, 5000, 5001 ms, 1 h or 20 days with any claimed age (32 bits), any change of the binder, any change of the identity
//vf:outside ages of 49 days and more (a claimed age is 32 bits of milliseconds); an age or binder that is wrong ends the handshake
//vf:reach used stale binder unknown proto expired
//vf:budget 60 300
func VF_C20_server() {
	suite := vfSuiteChoice()
	sc := vfServerConfig()
	sc.CipherSuites = []CipherSuite{suite}
	sc.SendSessionTickets = true
	sc.TicketLen = []int{1, 16, 33}[vfChoice("ticket len", 3)]
	sc.TicketLifetime = vfU32("lifetime")
	sc.EarlyDataLifetime = vfU32("early lifetime")
	store := vfNewStore()
	sc.PSKs = store
	o := vfDefaultCH()
	o.suites = []CipherSuite{suite}
	proto := ""
	if vfFlag("proto") {
		sc.NextProtos, proto = []string{"h2"}, "h2"
		o.alpn = []string{"h2"}
		vfReach("proto")
	}
	at := vfTimeNow()
	p, t := vfServerUp(sc, o)
	vfAssert(t.lifetime == sc.TicketLifetime, "the ticket has another lifetime")
	vfAssert(len(t.ticket) == sc.TicketLen, "the ticket has another length")
	vfAssert(vfEq2(t.exts[ExtensionTypeTicketEarlyDataInfo], []byte{byte(sc.EarlyDataLifetime >> 24), byte(sc.EarlyDataLifetime >> 16), byte(sc.EarlyDataLifetime >> 8), byte(sc.EarlyDataLifetime)}), "the ticket has another early data limit")
	id := vfHexStr(t.ticket)
	psk, ok := store.Get(id)
	vfAssert(ok && len(store.puts) == 1, "the ticket is not stored under its identity")
	key := p.vfResumptionKey(t.nonce)
	vfAssert(vfEq2(psk.Key, key), "the key is not that of the ticket's nonce")
	vfAssert(vfEq2(psk.Identity, t.ticket), "the identity is not the ticket")
	vfAssert(psk.CipherSuite == suite && psk.IsResumption && psk.TicketAgeAdd == t.add && vfEqS(psk.NextProto, proto), "the ticket is stored with other parameters")
	vfAssert(psk.ReceivedAt.Equal(at) && psk.ExpiresAt.Equal(at.Add(time.Duration(t.lifetime)*time.Second)), "the ticket is stored with another lifetime")

	age := []uint32{0, 1, 4999, 5000, 5001, 3600000, 20 * 86400000}[vfChoice("age", 7)]
	vfAdvance(uint64(age) * 1000000)
	offer := PreSharedKey{CipherSuite: suite, IsResumption: true, Identity: t.ticket, Key: key}
	o.psk = &offer
	claimed := age
	good, same := true, true
	switch vfChoice("what", 3) {
	case 0:
		claimed = vfU32("claimed")
		d := claimed - age
		if claimed < age {
			d = age - claimed
		}
		good = d <= 5000
	case 1:
		o.binderXor = vfBytes("binder", p.h.Size())
		good = vfZero(o.binderXor)
	case 2:
		d := vfBytes("identity", len(t.ticket))
		vfAssume(vfNot(vfZero(d)))
		offer.Identity = vfXor(t.ticket, d)
		same = false
	}
	o.age = claimed + t.add
	fresh := uint64(t.lifetime)*1000 > uint64(age)
	q := vfNewPeer(sc, false)
	q.sendCH(o)
	q.step()
	s, answered := q.recvServerHello(o)
	if !answered {
		vfAssert(vfFatal(q.alert), "no answer")
		vfAssert(vfAnd(vfAnd(same, fresh), vfNot(good)), "a genuine ticket is refused")
		if o.binderXor != nil {
			vfReach("binder")
		} else {
			vfReach("stale")
		}
		return
	}
	vfAssert(s.usePSK == vfAnd(vfAnd(same, fresh), good), "a ticket is used outside its lifetime or age tolerance, or without its binder, or a genuine one is not")
	q.recvServerFlight(o, s)
	q.sendClientFin()
	q.step()
	vfAssert(q.connected(), "the handshake does not complete")
	q.checkSecrets()
	if s.usePSK {
		vfReach("used")
	} else if same {
		vfReach("expired")
	} else {
		vfReach("unknown")
	}
}

// VF_C20_distinct: every ticket has its own identity, nonce and key, and keys
// of other nonces differ.
//
//vf:bounds two connections of a server, ticket of 16 bytes; keys of two nonces of 0..3 bytes of any value at the client
//vf:reach server same different
func VF_C20_distinct() {
	if vfFlag("server") {
		sc := vfServerConfig()
		sc.SendSessionTickets = true
		store := vfNewStore()
		sc.PSKs = store
		p, t := vfServerUp(sc, vfDefaultCH())
		q, u := vfServerUp(sc, vfDefaultCH())
		vfAssert(!vfEq2(t.ticket, u.ticket), "two tickets have the same identity")
		vfAssert(!vfEq2(p.vfResumptionKey(t.nonce), q.vfResumptionKey(u.nonce)), "two tickets have the same key")
		vfAssert(!vfEq2(t.nonce, u.nonce), "two tickets have the same nonce")
		vfAssert(t.add != u.add, "two tickets have the same age addition")
		vfAssert(store.Size() == 2, "a ticket is not stored")
		vfReach("server")
		return
	}
	cc := vfClientConfig()
	store := vfNewStore()
	cc.PSKs = store
	p := vfClientUp(cc, TLS_AES_128_GCM_SHA256, "")
	var keys, nonces [][]byte
	for i := 0; i < 2; i++ {
		n := vfBytes("nonce", vfChoice("nonce len", 4))
		p.record(RecordTypeHandshake, vfMsg(HandshakeTypeNewSessionTicket, vfJoin(make([]byte, 8), vfVec(1, n), vfVec(2, []byte{7}), vfVec(2, nil))))
		p.ep.Read(make([]byte, 1))
		k, ok := store.Get("example.com")
		vfAssert(ok && len(store.puts) == i+1, "a ticket is not stored")
		keys, nonces = append(keys, k.Key), append(nonces, n)
	}
	same := vfEq2(nonces[0], nonces[1])
	vfAssert(vfEq2(keys[0], keys[1]) == same, "tickets with different nonces have the same key")
	if same {
		vfReach("same")
	} else {
		vfReach("different")
	}
}

// VF_C20_resume: two endpoints of this implementation resume with a ticket, in
// a chain of connections, or fall back to a full handshake.
//
//vf:bounds TLS and DTLS, both suites, PSK-only and PSK+DH; chain of three connections, 0 ms, 4 s or 3 days apart; the server's cache kept or emptied before the last; with and without a retry
//vf:reach tls dtls fallback resumed
//vf:budget 60 300
func VF_C20_resume() {
	cc, sc := vfClientConfig(), vfServerConfig()
	suite := vfSuiteChoice()
	cc.CipherSuites = []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}
	sc.CipherSuites = []CipherSuite{suite}
	sc.SendSessionTickets, sc.TicketLifetime = true, 1000000
	cs, ss := vfNewStore(), vfNewStore()
	cc.PSKs, sc.PSKs = cs, ss
	cc.PSKModes = []PSKKeyExchangeMode{PSKModeDHEKE, PSKModeKE}[vfChoice("mode", 2):]
	if vfFlag("dtls") {
		cc.UseDTLS, sc.UseDTLS = true, true
		vfReach("dtls")
	} else {
		vfReach("tls")
	}
	if vfFlag("retry") {
		sc.RequireCookie = true
		cp, err := NewDefaultCookieProtector()
		vfAssert(err == nil, "no cookie protector")
		sc.CookieProtector = cp
	}
	wait := []uint64{0, 4000000000, 3 * 86400 * 1000000000}[vfChoice("wait", 3)]
	drop := vfFlag("drop")
	for i := 0; i < 3; i++ {
		if i == 2 && drop {
			ss.m = PSKMapCache{}
		}
		p := vfNewPair(cc, sc)
		p.run()
		vfAssert(p.ok(), "the handshake does not complete")
		psk := i == 1 || i == 2 && !drop
		c, s := p.client.ConnectionState(), p.server.ConnectionState()
		vfAssert(c.UsingPSK == psk && s.UsingPSK == psk, "the session is not resumed, or a forgotten one is")
		vfAssert(psk == (len(c.PeerCertificates) == 0), "the server is not authenticated by its certificate or its session")
		a, e1 := p.client.ComputeExporter("x", nil, 16)
		b, e2 := p.server.ComputeExporter("x", nil, 16)
		vfAssert(e1 == nil && e2 == nil && vfEq(a, b), "the two ends hold different keys")
		n, err := p.client.Read(make([]byte, 1))
		vfAssert(n == 0 && err == AlertWouldBlock, "reading the ticket")
		vfAssert(len(cs.puts) == i+1 && len(ss.puts) == i+1, "the ticket is not stored by both ends")
		ck, _ := cs.Get("example.com")
		sk, ok := ss.Get(vfHexStr(ck.Identity))
		vfAssert(ok && vfEq2(ck.Key, sk.Key) && vfEq2(ck.Identity, sk.Identity) && ck.CipherSuite == sk.CipherSuite && ck.TicketAgeAdd == sk.TicketAgeAdd, "the two ends store different sessions")
		vfAdvance(wait)
	}
	if drop {
		vfReach("fallback")
	} else {
		vfReach("resumed")
	}
}
