package mint

// The rules of RFC 8446 for what is sent, checked on what is sent.

type vfCur struct{ b []byte }

func (c *vfCur) take(n int, what string) []byte {
	vfAssert(len(c.b) >= n, "too short: "+what)
	if len(c.b) < n {
		vfStop()
	}
	d := c.b[:n]
	c.b = c.b[n:]
	return d
}

func (c *vfCur) uint(n int, what string) int {
	x := 0
	for _, b := range c.take(n, what) {
		x = x<<8 | int(b)
	}
	return x
}

func (c *vfCur) vec(n int, what string) *vfCur { return &vfCur{c.take(c.uint(n, what), what)} }
func (c *vfCur) end(what string)               { vfAssert(len(c.b) == 0, "more than expected: "+what) }

func (c *vfCur) list16(what string) []int {
	var l []int
	for len(c.b) > 0 {
		l = append(l, c.uint(2, what))
	}
	return l
}

func vfIn(x int, l []int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

type vfExtIn struct {
	t    int
	body *vfCur
}

// exts are the extensions that follow: of the allowed types, each once.
func (c *vfCur) exts(what string, allowed ...int) map[int]*vfCur {
	m := map[int]*vfCur{}
	l := c.vec(2, what)
	last := -1
	for len(l.b) > 0 {
		t := l.uint(2, what)
		vfAssert(vfIn(t, allowed), "an extension that must not be in "+what)
		_, dup := m[t]
		vfAssert(!dup, "an extension twice in "+what)
		m[t] = l.vec(2, what)
		last = t
	}
	if _, ok := m[41]; ok && what == "ClientHello" {
		vfAssert(last == 41, "pre_shared_key is not the last extension of the ClientHello")
	}
	return m
}

func vfDistinct(l []int, what string) {
	for i, x := range l {
		vfAssert(!vfIn(x, l[:i]), "twice the same: "+what)
	}
}

// vfOffer is what a ClientHello says.
type vfOffer struct {
	random, session               []byte
	raw                           map[int][]byte // the extensions
	suites, groups, schemes, mine []int          // mine: the groups of the key shares
	shares                        [][]byte
	modes, versions               []int
	name, cookie                  []byte
	alpn                          [][]byte
	psks                          int
	exts                          map[int]*vfCur
	early                         bool
}

var vfShareSize = map[int]int{23: 65, 24: 97, 25: 133, 29: 32}

func vfStrictClientHello(msg []byte) *vfOffer {
	o := &vfOffer{}
	c := &vfCur{msg}
	vfAssert(c.uint(2, "version") == 0x0303, "the ClientHello's legacy version")
	o.random = c.take(32, "random")
	o.session = c.vec(1, "session id").b
	vfAssert(len(o.session) == 0 || len(o.session) == 32, "the length of the session id")
	o.suites = c.vec(2, "suites").list16("suites")
	vfAssert(len(o.suites) > 0, "no suites")
	vfDistinct(o.suites, "suites")
	vfAssert(vfEq(c.vec(1, "compression").b, []byte{0}), "compression")
	o.exts = c.exts("ClientHello", 0, 10, 13, 16, 41, 42, 43, 44, 45, 51)
	c.end("ClientHello")
	o.raw = map[int][]byte{}
	for t, e := range o.exts {
		o.raw[t] = e.b
		switch t {
		case 0:
			l := e.vec(2, "names")
			vfAssert(l.uint(1, "name type") == 0, "the name type")
			o.name = l.vec(2, "name").b
			vfAssert(len(o.name) > 0, "an empty name")
			l.end("names")
		case 10:
			o.groups = e.vec(2, "groups").list16("groups")
			vfDistinct(o.groups, "groups")
			vfAssert(len(o.groups) > 0, "no groups")
		case 13:
			o.schemes = e.vec(2, "schemes").list16("schemes")
			vfAssert(len(o.schemes) > 0, "no schemes")
		case 16:
			l := e.vec(2, "protocols")
			vfAssert(len(l.b) > 0, "no protocols")
			for len(l.b) > 0 {
				p := l.vec(1, "protocol").b
				vfAssert(len(p) > 0, "an empty protocol name")
				o.alpn = append(o.alpn, p)
			}
		case 41:
			l := e.vec(2, "identities")
			for len(l.b) > 0 {
				vfAssert(len(l.vec(2, "identity").b) > 0, "an empty identity")
				l.take(4, "age")
				o.psks++
			}
			vfAssert(o.psks > 0, "no identities")
			b := e.vec(2, "binders")
			n := 0
			for ; len(b.b) > 0; n++ {
				vfAssert(len(b.vec(1, "binder").b) >= 32, "a short binder")
			}
			vfAssert(n == o.psks, "not a binder for every identity")
		case 42:
			o.early = true
		case 43:
			o.versions = e.vec(1, "versions").list16("versions")
		case 44:
			o.cookie = e.vec(2, "cookie").b
			vfAssert(len(o.cookie) > 0, "an empty cookie")
		case 45:
			for _, m := range e.vec(1, "modes").b {
				o.modes = append(o.modes, int(m))
			}
			vfAssert(len(o.modes) > 0, "no modes")
		case 51:
			l := e.vec(2, "shares")
			for len(l.b) > 0 {
				o.mine = append(o.mine, l.uint(2, "share"))
				k := l.vec(2, "share").b
				vfAssert(len(k) == vfShareSize[o.mine[len(o.mine)-1]], "the size of a key share")
				o.shares = append(o.shares, k)
			}
			vfDistinct(o.mine, "key shares")
		}
		e.end("extension of ClientHello")
	}
	vfAssert(len(o.versions) == 1 && o.versions[0] == 0x0304, "the versions offered")
	next := 0
	for _, g := range o.mine {
		for next < len(o.groups) && o.groups[next] != g {
			next++
		}
		vfAssert(next < len(o.groups), "a key share for a group that is not offered, or out of order")
	}
	vfAssert((o.groups == nil) == (o.exts[51] == nil), "groups without key shares, or the other way round")
	vfAssert(o.psks == 0 || o.modes != nil, "pre_shared_key without modes")
	vfAssert(!o.early || o.psks > 0, "early data without a pre-shared key")
	vfAssert(o.psks > 0 || (o.schemes != nil && o.groups != nil), "no way to authenticate the server")
	return o
}

// vfAnswer is what a ServerHello says.
type vfAnswer struct {
	retry      bool
	suite      int
	group, psk int // or -1
	cookie     []byte
}

func vfStrictServerHello(msg []byte, o *vfOffer) *vfAnswer {
	a := &vfAnswer{group: -1, psk: -1}
	c := &vfCur{msg}
	vfAssert(c.uint(2, "version") == 0x0303, "the ServerHello's legacy version")
	a.retry = vfEq(c.take(32, "random"), vfHRRRandom)
	vfAssert(vfEq2(c.vec(1, "session id").b, o.session), "the session id is not echoed")
	a.suite = c.uint(2, "suite")
	vfAssert(vfIn(a.suite, o.suites), "a suite that was not offered")
	vfAssert(c.uint(1, "compression") == 0, "compression")
	allowed := []int{41, 43, 51}
	if a.retry {
		allowed = []int{43, 44, 51}
	}
	exts := c.exts("ServerHello", allowed...)
	c.end("ServerHello")
	vfAssert(exts[43] != nil && vfEq(exts[43].b, []byte{3, 4}), "the version chosen")
	if e := exts[51]; e != nil {
		a.group = e.uint(2, "group")
		vfAssert(vfIn(a.group, o.groups), "a group that was not offered")
		if !a.retry {
			vfAssert(vfIn(a.group, o.mine), "a group for which there is no share")
			vfAssert(len(e.vec(2, "share").b) == vfShareSize[a.group], "the size of the key share")
		} else {
			vfAssert(!vfIn(a.group, o.mine), "a retry for a share that is there")
		}
		e.end("key share")
	}
	if e := exts[41]; e != nil {
		a.psk = e.uint(2, "psk")
		e.end("psk")
		vfAssert(a.psk < o.psks, "an identity that was not offered")
		vfAssert((a.group >= 0 && vfIn(1, o.modes)) || (a.group < 0 && vfIn(0, o.modes)), "a PSK mode that was not offered")
	} else {
		vfAssert(a.retry || a.group >= 0, "neither a PSK nor a key share")
	}
	if e := exts[44]; e != nil {
		a.cookie = e.vec(2, "cookie").b
		e.end("cookie")
		vfAssert(len(a.cookie) > 0, "an empty cookie")
	}
	vfAssert(!a.retry || a.cookie != nil || a.group >= 0, "a retry that asks for nothing")
	return a
}

// vfStrict follows a handshake.
type vfStrict struct {
	o, first *vfOffer
	a        *vfAnswer
	hash     int
	next     map[bool]string // what each side may send, true: the client
	asked    []int           // the schemes of a CertificateRequest
	context  []byte
	early    bool // accepted
	alpn     []byte
	certs    map[bool]int
	ended    bool
}

func (s *vfStrict) message(client bool, msg []byte) {
	who := "the server sends "
	if client {
		who = "the client sends "
	}
	h := &vfCur{msg}
	t := h.uint(1, "type")
	c := h.vec(3, "message")
	h.end("message")
	must := func(from, to string) {
		vfAssert(s.next[client] == from, who+"an unexpected message")
		s.next[client] = to
	}
	switch HandshakeType(t) {
	case HandshakeTypeClientHello:
		vfAssert(client, "a ClientHello of the server")
		must("hello", "nothing")
		o := vfStrictClientHello(c.b)
		if s.first != nil {
			vfAssert(vfEq2(o.session, s.first.session) && vfEq(o.random, s.first.random), "another hello after a retry")
			vfAssert(len(o.suites) == len(s.first.suites), "other suites after a retry")
			for i, x := range o.suites {
				vfAssert(x == s.first.suites[i], "other suites after a retry")
			}
			for _, t := range []int{0, 10, 13, 16, 43, 45, 51} {
				if t == 51 && s.a.group >= 0 {
					continue
				}
				vfAssert((o.raw[t] == nil) == (s.first.raw[t] == nil) && vfEq2(o.raw[t], s.first.raw[t]), "another extension after a retry")
			}
			vfAssert(vfEq2(o.cookie, s.a.cookie), "the cookie is not echoed")
			vfAssert(!o.early, "early data after a retry")
		} else {
			vfAssert(o.cookie == nil, "a cookie nobody asked for")
		}
		s.o = o
		s.next[false] = "hello"
	case HandshakeTypeServerHello:
		vfAssert(!client, "a ServerHello of the client")
		must("hello", "encrypted")
		a := vfStrictServerHello(c.b, s.o)
		if s.a != nil {
			vfAssert(!a.retry, "a second retry")
			vfAssert(a.suite == s.a.suite, "another suite than in the retry")
		}
		s.a = a
		if a.retry {
			s.first = s.o
			s.next[false], s.next[true] = "nothing", "hello"
			return
		}
		s.hash = 32
		if a.suite == 0x1302 {
			s.hash = 48
		}
	case HandshakeTypeEncryptedExtensions:
		vfAssert(!client, who+"EncryptedExtensions")
		must("encrypted", "request")
		if s.a.psk >= 0 {
			s.next[false] = "finished"
		}
		x := c.exts("EncryptedExtensions", 0, 10, 16, 42)
		c.end("EncryptedExtensions")
		for t, e := range x {
			vfAssert(t == 10 || s.o.exts[t] != nil, "an extension that was not asked for")
			switch t {
			case 0:
				e.end("server name")
			case 42:
				e.end("early data")
				s.early = true
				vfAssert(s.a.psk == 0, "early data without the first PSK")
			case 16:
				l := e.vec(2, "protocols")
				s.alpn = l.vec(1, "protocol").b
				l.end("protocols")
				e.end("protocols")
				ok := false
				for _, p := range s.o.alpn {
					ok = vfOr(ok, vfEq2(p, s.alpn))
				}
				vfAssert(ok, "a protocol that was not offered")
			}
		}
	case HandshakeTypeCertificateRequest:
		vfAssert(!client, who+"CertificateRequest")
		must("request", "certificate")
		s.context = c.vec(1, "context").b
		vfAssert(len(s.context) == 0, "a context in the handshake")
		x := c.exts("CertificateRequest", 5, 13, 18, 47, 48, 50)
		c.end("CertificateRequest")
		vfAssert(x[13] != nil, "a CertificateRequest without schemes")
		s.asked = x[13].vec(2, "schemes").list16("schemes")
		vfAssert(len(s.asked) > 0, "no schemes")
		x[13].end("schemes")
	case HandshakeTypeCertificate:
		if !client && s.next[false] == "request" {
			s.next[false] = "certificate"
		}
		must("certificate", "verify")
		context := c.vec(1, "context").b
		vfAssert(len(context) == 0, "the certificate's context")
		l := c.vec(3, "certificates")
		c.end("Certificate")
		n := 0
		for ; len(l.b) > 0; n++ {
			vfAssert(len(l.vec(3, "certificate").b) > 0, "an empty certificate")
			l.exts("certificate")
		}
		if n == 0 {
			vfAssert(client, "the server sends no certificate")
			s.next[client] = "finished"
		}
		s.certs[client] = n
	case HandshakeTypeCertificateVerify:
		must("verify", "finished")
		offered := s.o.schemes
		if client {
			offered = s.asked
		}
		scheme := c.uint(2, "scheme")
		vfAssert(vfIn(scheme, offered), who+"a signature of a scheme that was not offered")
		vfAssert(scheme>>8 != 2 && scheme&0xff != 1, who+"a signature that is not allowed in TLS 1.3")
		vfAssert(len(c.vec(2, "signature").b) > 0, "no signature")
		c.end("CertificateVerify")
	case HandshakeTypeFinished:
		if client && s.next[true] == "nothing" && s.ended {
			// the client's turn
			s.next[true] = "finished"
			if s.early {
				s.next[true] = "end"
			}
		}
		must("finished", "done")
		vfAssert(len(c.b) == s.hash, who+"a Finished of the wrong length")
		if !client {
			s.ended = true
			switch {
			case s.early:
				s.next[true] = "end"
			case s.asked != nil:
				s.next[true] = "certificate"
			default:
				s.next[true] = "finished"
			}
		}
	case HandshakeTypeEndOfEarlyData:
		vfAssert(client, who+"EndOfEarlyData")
		must("end", "finished")
		if s.asked != nil {
			s.next[true] = "certificate"
		}
		c.end("EndOfEarlyData")
	case HandshakeTypeNewSessionTicket:
		vfAssert(!client && s.next[false] == "done" && s.next[true] == "done", "a ticket too early")
		c.take(8, "lifetime and age")
		c.vec(1, "nonce")
		vfAssert(len(c.vec(2, "ticket").b) > 0, "an empty ticket")
		c.exts("NewSessionTicket", 42, 46)
		c.end("NewSessionTicket")
		vfReach("ticket")
	case HandshakeTypeKeyUpdate:
		vfAssert(s.next[client] == "done", who+"a KeyUpdate too early")
		vfAssert(c.uint(1, "request") <= 1, "a KeyUpdate of another kind")
		c.end("KeyUpdate")
		vfReach("update")
	default:
		vfAssert(false, who+"a message of a type that is not for TLS 1.3")
	}
}

// VF_C35_messages: every handshake message has the form that RFC 8446 demands
// and comes in its place.
//
//vf:bounds TLS; certificates, client authentication (with or without a certificate), external and resumption PSK with and without (EC)DHE, early data, retry; 2 suites, in either order; groups X25519, P-256 or both in either order, at each end; application protocols none, or 2 of any 2 bytes at each end; server name set; tickets; a key update by each end
//vf:outside the content of certificates, signatures, random values and keys; ticket extensions and lifetimes
//vf:reach cert psk pskdh auth retry early alpn groups ticket update connected anonymous
//vf:budget 60 300
func VF_C35_messages() {
	m := vfChooseMode()
	m.reach()
	cc, sc := m.configs()
	more := vfChoice("more", 4)
	if more > 0 {
		both := []CipherSuite{TLS_AES_256_GCM_SHA384, TLS_AES_128_GCM_SHA256}
		cc.CipherSuites = both
		sc.CipherSuites = []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}
	}
	groups := [][]NamedGroup{{X25519}, {P256}, {X25519, P256}, {P256, X25519}}
	if more == 1 {
		cc.Groups = groups[vfChoice("client groups", len(groups))]
		sc.Groups = groups[vfChoice("server groups", len(groups))]
		vfReach("groups")
	}
	if more == 2 {
		if m.resumption {
			vfStop() // resumed for another protocol: refused (C17)
		}
		cc.NextProtos = []string{vfString("proto", 2), "h1"}
		sc.NextProtos = []string{"h1", vfString("proto", 2)}
		vfReach("alpn")
	}
	if more == 3 {
		cc.Certificates = nil
		sc.SendSessionTickets = true
		sc.TicketLen, sc.TicketLifetime = 16, 100
	}
	s := &vfStrict{next: map[bool]string{true: "hello", false: "nothing"}, certs: map[bool]int{}}
	c1, s1 := vfPlainPair(cc, sc)
	c1.act = func(k int, msg []byte) [][]byte { s.message(true, msg); return [][]byte{msg} }
	s1.act = func(k int, msg []byte) [][]byte { s.message(false, msg); return [][]byte{msg} }
	p := vfNewPair(cc, sc)
	p.run()
	if !p.ok() {
		vfAssert(len(cc.Groups) == 1 && len(sc.Groups) == 1 && cc.Groups[0] != sc.Groups[0] && m.dh, "the handshake fails")
		vfReach("failed")
		return
	}
	vfReach("connected")
	vfAssert(s.next[true] == "done" && s.next[false] == "done", "a message is missing")
	vfAssert((s.a.psk >= 0) == m.psk && (s.first != nil) == m.retry && s.early == m.early && (s.asked != nil) == m.auth, "the mode")
	if m.auth && s.certs[true] == 0 {
		vfReach("anonymous")
	}
	for i := 0; i < 2; i++ {
		vfAssert(p.client.SendKeyUpdate(i == 0) == nil, "update")
		vfAssert(p.server.SendKeyUpdate(i == 1) == nil, "update")
		for j := 0; j < 4; j++ {
			p.server.Read(make([]byte, 1))
			p.client.Read(make([]byte, 1))
		}
	}
}

// VF_C35_records: every record has the version and type that RFC 8446 demands,
// and only hellos and what must be readable without keys go in the clear.
//
//vf:bounds TLS and DTLS record layers; modes as VF_C35_messages, one suite; data of 2 bytes of any value and 2^14+1 bytes by each end; an alert by each end, or after the first hello was broken (its handshake type changed to any other value)
//vf:outside sequence numbers (C06); acknowledgements (DTLS, C12)
//vf:reach tls dtls retry early broken big
//vf:budget 60 300
func VF_C35_records() {
	m := vfChooseMode()
	m.reach()
	cc, sc := m.configs()
	dtls := !m.early && vfFlag("dtls")
	cc.UseDTLS, sc.UseDTLS = dtls, dtls
	broken := vfFlag("broken")
	p := vfNewPair(cc, sc)
	shown := map[bool]bool{} // the hello that ends what goes in the clear
	hellos := map[bool]int{}
	epochs := map[bool]int{}
	check := func(client bool, d []byte) {
		c := &vfCur{d}
		for len(c.b) > 0 {
			t := c.uint(1, "type")
			v := c.uint(2, "version")
			epoch := 0
			if dtls {
				epoch = c.uint(2, "epoch")
				c.take(6, "sequence number")
			}
			b := c.vec(2, "record").b
			hello := 0
			if t == 22 && epoch == 0 {
				hello = int(b[0])
			}
			first := hello == 1 && client && hellos[true] == 0
			if dtls {
				vfAssert(v == 0xfefd || (first && v == 0xfeff), "the version of a record")
			} else {
				vfAssert(v == 0x0303 || (first && v == 0x0301), "the version of a record")
			}
			vfAssert(len(b) > 0 && len(b) <= 1<<14+256, "the length of a record")
			switch {
			case t == 23:
				vfAssert(len(b) >= 17, "a protected record without type or tag")
				vfAssert(client || shown[false], "protected data before the ServerHello")
				vfAssert(!dtls || (epoch > 0 && epoch < 4), "the epoch of protected data")
				shown[client] = true
			case t == 22:
				vfAssert(epoch == 0 && len(b) <= 1<<14, "a plaintext handshake record")
				if client {
					vfAssert(hello == 1 && hellos[true] < 2, "a handshake message of the client in the clear")
				} else {
					vfAssert(hello == 2 && !shown[false], "a handshake message of the server in the clear")
				}
				vfAssert(!shown[client], "a handshake message in the clear after protected ones")
				hellos[client]++
				at := 6
				if dtls {
					at = 14
				}
				if !client && !vfEq(b[at:at+32], vfHRRRandom) {
					shown[false] = true
				}
			case t == 21:
				vfAssert(!shown[client] && len(b) == 2, "an alert in the clear although there are keys")
			default:
				vfAssert(dtls && t == 25, "the type of a record") // acknowledgements, of this draft
			}
			vfAssert(!dtls || epoch >= epochs[client], "an epoch that is over")
			epochs[client] = epoch
		}
	}
	p.cw.w.hook = func(w *vfWire, d []byte) {
		check(true, d)
		d = append([]byte{}, d...)
		if broken && len(w.log) == 1 {
			at := 5
			if dtls {
				at = 13
			}
			b := vfU8("type")
			vfAssume(b != 1)
			d[at] = b
		}
		w.pkts = append(w.pkts, d)
	}
	p.sw.w.hook = func(w *vfWire, d []byte) {
		check(false, d)
		w.pkts = append(w.pkts, append([]byte{}, d...))
	}
	p.run()
	if broken {
		vfAssert(!vfConnected(p.client) && !vfConnected(p.server), "connected")
		vfReach("broken")
		p.server.sendAlert(AlertUnexpectedMessage)
		p.client.sendAlert(AlertUserCanceled)
		return
	}
	vfAssert(p.ok(), "the handshake fails")
	for _, b := range []*Conn{p.client, p.server} {
		b.Write(vfBytes("data", 2))
		b.Write(make([]byte, 1<<14+1))
	}
	vfReach("big")
	p.client.sendAlert(AlertCloseNotify)
	p.server.sendAlert(AlertInternalError)
	vfAssert(shown[true] && shown[false], "nothing is protected")
	if dtls {
		vfReach("dtls")
	} else {
		vfReach("tls")
	}
}

// VF_C35_session: the session id that other implementations send is echoed.
//
//vf:bounds TLS; certificates; session id of 32 bytes of any value, or none; retry; unknown extensions of 0 or 2 bytes of any value and any type (16 bits) not known to this implementation
//vf:reach retry echoed extension
func VF_C35_session() {
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true, retry: vfFlag("retry")}
	m.reach()
	cc, sc := m.configs()
	var session, ext []byte
	if vfFlag("session") {
		session = vfBytes("session", 32)
	}
	if vfFlag("extension") {
		t := vfU16("type")
		for _, k := range []uint16{0, 10, 13, 16, 41, 42, 43, 44, 45, 51} {
			vfAssume(t != k)
		}
		ext = vfJoin([]byte{byte(t >> 8), byte(t)}, vfVec(2, vfBytes("data", 2*vfChoice("size", 2))))
		vfReach("extension")
	}
	s := &vfStrict{next: map[bool]string{true: "hello", false: "nothing"}, certs: map[bool]int{}}
	c1, s1 := vfPlainPair(cc, sc)
	answered := false
	c1.act = func(k int, msg []byte) [][]byte {
		if msg[0] != byte(HandshakeTypeClientHello) {
			return [][]byte{msg}
		}
		if s.first != nil {
			s.first.session = nil // as sent
		}
		s.message(true, msg)
		hello := vfJoin(msg[4:38], vfVec(1, session), msg[39:])
		hello = vfHelloWith(hello, ext)
		s.o.session = session
		return [][]byte{vfJoin([]byte{1, 0, byte(len(hello) >> 8), byte(len(hello))}, hello)}
	}
	s1.act = func(k int, msg []byte) [][]byte {
		s.message(false, msg)
		if msg[0] == byte(HandshakeTypeServerHello) {
			answered = answered || !s.a.retry
			body := vfJoin(msg[4:38], []byte{0}, msg[39+len(session):])
			if len(session) > 0 {
				vfReach("echoed")
			}
			return [][]byte{vfJoin([]byte{2, 0, byte(len(body) >> 8), byte(len(body))}, body)}
		}
		return [][]byte{msg}
	}
	p := vfNewPair(cc, sc)
	p.run()
	vfAssert(answered && (s.first != nil) == m.retry, "the hello is not answered")
}

// vfHelloWith puts an extension in front of those of a hello.
func vfHelloWith(body, ext []byte) []byte {
	at := 35 + int(body[34])
	at += 2 + int(body[at])<<8 + int(body[at+1])
	at += 1 + int(body[at])
	return vfJoin(body[:at], vfVec(2, vfJoin(ext, body[at+2:])))
}
