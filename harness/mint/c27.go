package mint

// survive uses the endpoint in every way; all calls have to return.
func (p *vfPeer) survive() {
	p.stepAny()
	b := make([]byte, 8)
	for i := 0; i < 6; i++ {
		n, err := p.ep.Read(b)
		vfAssert(n >= 0 && n <= len(b) && (n == 0 || err == nil), "a Read returns an impossible count")
		if err != nil {
			break
		}
	}
	n, err := p.ep.Write([]byte{1, 2, 3})
	vfAssert((n == 3) == (err == nil), "a Write reports neither success nor an error")
	p.ep.Handshake()
	p.ep.ConnectionState()
	p.ep.GetHsState()
}

// stepAny drives the endpoint until it blocks, fails or is connected.
func (p *vfPeer) stepAny() {
	for i := 0; i < 16; i++ {
		if vfFatal(p.alert) || vfConnected(p.ep) {
			return
		}
		p.alert = p.ep.Handshake()
		if p.alert == AlertWouldBlock {
			return
		}
	}
	vfAssert(false, "the endpoint keeps going without input")
}

func vfSideReach(n int) {
	switch {
	case vfConnectedStage(n):
		vfReach("connected")
	case vfClientStage(n):
		vfReach("client")
	default:
		vfReach("server")
	}
}

// VF_C27_message: a message of any type with any content, at any point.
//
//vf:bounds 17 (thorough 23) states of client and server, TLS; one message of every type with a body of 0 to 4 (thorough 6) bytes of any value, alone, followed by part of another, or spread over two records
//vf:reach client server connected
//vf:budget 60 300
func VF_C27_message() {
	n := vfChoice("state", vfParam("states", vfBasicStages, len(vfStageNames)))
	st := vfAtStage(n)
	body := vfBytes("body", vfChoice("size", vfParam("size", 5, 7)))
	m := vfMsg(HandshakeType(vfU8("type")), body)
	switch vfChoice("shape", 3) {
	case 0:
		st.record(RecordTypeHandshake, m)
	case 1:
		st.record(RecordTypeHandshake, append(m, vfU8("next")))
	case 2:
		st.record(RecordTypeHandshake, m[:2])
		st.record(RecordTypeHandshake, m[2:])
	}
	st.survive()
	vfSideReach(n)
}

// VF_C27_record: a record of any type with any content, at any point.
//
//vf:bounds the same states; one or two records of every content type with 0 to 5 (thorough 7) bytes of any value, under the current keys, in the clear, or under other keys
//vf:reach client server connected
//vf:budget 60 300
func VF_C27_record() {
	n := vfChoice("state", vfParam("states", vfBasicStages, len(vfStageNames)))
	st := vfAtStage(n)
	switch vfChoice("keys", 3) {
	case 1:
		st.w = vfTKeys{}
	case 2:
		st.w = vfTKeys{make([]byte, 16), make([]byte, 12)}
	}
	records := vfParam("records", 1, 2)
	for i := 0; i < records; i++ {
		st.record(RecordType(vfU8("type")), vfBytes("content", vfChoice("size", vfParam("size", 6, 8))))
	}
	st.survive()
	vfSideReach(n)
}

// VF_C27_change: an honest message with one byte changed, cut short or
// extended.
//
//vf:bounds the same states; every message that is allowed there, with any one byte changed to any other value, cut to any shorter length or with one byte of any value added, its length field adjusted to the new length or not
//vf:outside bytes inside X.509 certificates (parsed by crypto/x509), except the first two
//vf:reach client server connected
//vf:budget 100 300
func VF_C27_change() {
	n := vfChoice("state", vfParam("states", vfBasicStages, len(vfStageNames)))
	st := vfAtStage(n)
	types := vfStageAllowed[n]
	t := types[vfChoice("message", len(types))]
	m := vfMsg(t, st.body(t))
	l := len(m)
	if t == HandshakeTypeCertificate {
		l = 13
	}
	switch vfChoice("how", 3) {
	case 0:
		pos := vfChoice("pos", l)
		d := vfU8("delta")
		vfAssume(d != 0)
		m[pos] ^= d
	case 1:
		m = m[:vfChoice("length", l)]
		if len(m) >= 4 && vfFlag("fit") {
			m[1], m[2], m[3] = 0, byte((len(m)-4)>>8), byte(len(m)-4)
		}
	case 2:
		m = append(m, vfU8("more"))
		if vfFlag("fit") {
			m[1], m[2], m[3] = 0, byte((len(m)-4)>>8), byte(len(m)-4)
		}
	}
	st.record(RecordTypeHandshake, m)
	st.survive()
	vfSideReach(n)
}

var vfKnownExts = []ExtensionType{0, 10, 13, 16, 51, 41, 42, 43, 44, 45, 46}

// VF_C27_extension: a message with an extension missing, repeated, or with any
// content.
//
//vf:bounds the hello, HelloRetryRequest, EncryptedExtensions, CertificateRequest, Certificate entry and NewSessionTicket, at client and server (certificates and PSK); each known extension type and any other, with 0 to 5 (thorough 7) bytes of any value, in place of the usual one or added
//vf:reach client server connected
//vf:budget 100 300
func VF_C27_extension() {
	where := vfChoice("message", 9)
	i := vfChoice("type", len(vfKnownExts)+1)
	var t ExtensionType
	if i < len(vfKnownExts) {
		t = vfKnownExts[i]
	} else {
		t = ExtensionType(vfU16("type"))
		for _, k := range vfKnownExts {
			vfAssume(t != k)
		}
	}
	content := vfBytes("content", vfChoice("size", vfParam("size", 6, 8)))
	e := vfExt(t, content)
	exts := func(b []byte, after int) []byte {
		how := vfChoice("how", 3)
		out := []byte{}
		if how == 2 {
			out = append(out, e...)
		}
		block := b[after+2:]
		for len(block) > 0 {
			n := 4 + int(block[2])<<8 + int(block[3])
			if how == 1 && ExtensionType(uint16(block[0])<<8|uint16(block[1])) == t {
				out = append(out, e...)
			} else {
				out = append(out, block[:n]...)
			}
			block = block[n:]
		}
		if how == 0 {
			out = append(out, e...)
		}
		return vfJoin(b[:after], vfVec(2, out))
	}
	switch where {
	case 0: // ClientHello
		st := vfAtStage(8)
		st.record(RecordTypeHandshake, vfMsg(1, exts(st.body(1), 34+1+2+2+2)))
		st.survive()
		vfReach("server")
	case 1: // ClientHello with a PSK
		sc := vfServerConfig()
		psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
		sc.PSKs = vfPSKCache(psk, "x")
		sc.AllowEarlyData = true
		p := vfNewPeer(sc, false)
		o := vfDefaultCH()
		o.psk = &psk
		p.record(RecordTypeHandshake, vfMsg(1, exts(p.clientHello(o), 34+1+2+2+2)))
		p.survive()
		vfReach("server")
	case 2: // ServerHello
		st := vfAtStage(0)
		st.record(RecordTypeHandshake, vfMsg(2, exts(st.body(2), 34+1+3)))
		st.survive()
		vfReach("client")
	case 3: // HelloRetryRequest
		st := vfAtStage(0)
		st.record(RecordTypeHandshake, vfMsg(2, exts(st.serverHello(vfHRRRandom, st.suite, vfVersionSH, vfExt(ExtensionTypeCookie, vfVec(2, []byte{1, 2}))), 34+1+3)))
		st.survive()
		vfReach("client")
	case 5: // ServerHello for a client that offers a PSK and early data
		cc := vfClientConfig()
		psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
		cc.PSKs = vfPSKCache(psk, "example.com")
		cc.AllowEarlyData = true
		p := vfNewPeer(cc, true)
		p.step()
		p.takeShare(p.expect(HandshakeTypeClientHello))
		sh := p.serverHello(vfRand32(0x50), p.suite, vfVersionSH, vfKeyShareSH(X25519, p.pub[:]), vfExt(ExtensionTypePreSharedKey, []byte{0, 0}))
		p.record(RecordTypeHandshake, vfMsg(2, exts(sh, 34+1+3)))
		p.survive()
		vfReach("client")
	case 4: // EncryptedExtensions
		st := vfAtStage(1)
		st.record(RecordTypeHandshake, vfMsg(8, exts(st.body(8), 0)))
		st.survive()
	case 6: // CertificateRequest
		st := vfAtStage(2)
		st.record(RecordTypeHandshake, vfMsg(13, exts(st.body(13), 1)))
		st.survive()
	case 7: // Certificate entry
		st := vfAtStage([]int{2, 11}[vfChoice("side", 2)])
		der := vfVec(3, vfHex(vfServerCertHex))
		st.record(RecordTypeHandshake, vfMsg(11, vfJoin([]byte{0}, vfVec(3, exts(vfJoin(der, []byte{0, 0}), len(der))))))
		st.survive()
	case 8: // NewSessionTicket
		st := vfAtStage(7)
		b := st.body(4)
		st.record(RecordTypeHandshake, vfMsg(4, exts(b, len(b)-2)))
		st.survive()
		vfReach("connected")
	}
}

// VF_C27_lists: a hello whose lists have any number of elements.
//
//vf:bounds server (with a PSK, certificates and ALPN), at the first hello and after a retry; one list of the hello has 0 to 3 elements: PSK identities (known, unknown of 4 bytes of any value, empty) with 0 to 3 binders (right, or of 32, 33, 31 or 48 bytes of any value; SHA-256 or SHA-384), key shares (X25519, P-256 or, in the quick tier only for the first, any group; 32, 65, 0 or 1 bytes of any value), groups, signature schemes, suites, key exchange modes, versions of any value, server names (any type; empty, known, 2 bytes of any value), protocols (empty, known, 2 bytes of any value)
//vf:reach psk shares names protocols others connected
//vf:budget 100 300
func VF_C27_lists() {
	sc := vfServerConfig()
	what := vfChoice("list", 9)
	psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
	long := what == 0 && vfFlag("SHA-384")
	if long {
		psk = vfTestPSK(TLS_AES_256_GCM_SHA384)
	}
	sc.PSKs = vfPSKCache(psk, "x")
	sc.AllowEarlyData = true
	sc.NextProtos = []string{"h2", "x"}
	sc.CipherSuites = []CipherSuite{psk.CipherSuite}
	retry := vfFlag("retry")
	if retry {
		sc.RequireCookie = true
		cp, err := NewDefaultCookieProtector()
		vfAssert(err == nil, "no cookie protector")
		sc.CookieProtector = cp
	}
	p := vfNewPeer(sc, false)
	o := vfDefaultCH()
	o.suites = []CipherSuite{psk.CipherSuite}
	if retry {
		p.sendCH(o)
		p.step()
		_, o.cookie = p.recvRetry()
	}
	n := vfChoice("elements", 4)
	list := []byte{}
	at := 34 + 1 + 2 + 2 + 2
	var body []byte
	replace := func(t ExtensionType, data []byte) {
		body = p.clientHello(o)
		out := []byte{}
		for block := body[at+2:]; len(block) > 0; {
			l := 4 + int(block[2])<<8 + int(block[3])
			if ExtensionType(uint16(block[0])<<8|uint16(block[1])) != t {
				out = append(out, block[:l]...)
			}
			block = block[l:]
		}
		body = vfJoin(body[:at], vfVec(2, vfJoin(out, vfExt(t, data))))
	}
	u16s := func() []byte {
		for i := 0; i < n; i++ {
			list = append(list, vfBytes("element", 2)...)
		}
		return list
	}
	switch what {
	case 0:
		vfReach("psk")
		known := -1
		for i := 0; i < n; i++ {
			id := psk.Identity
			switch vfChoice("identity", 3) {
			case 0:
				known = i
			case 1:
				id = vfBytes("id", 4)
			case 2:
				id = nil
			}
			list = vfJoin(list, vfVec(2, id), make([]byte, 4))
		}
		sizes := vfChoice("binder sizes", 4)
		size := []int{32, 33, 31, 48}[sizes]
		m := vfChoice("binders", 4)
		bl := []byte{}
		for i := 0; i < m; i++ {
			bl = vfJoin(bl, vfVec(1, vfBytes("binder", size)))
		}
		replace(ExtensionTypePreSharedKey, vfJoin(vfVec(2, list), vfVec(2, bl)))
		if known >= 0 && known < m && size == vfHashLen(psk.CipherSuite) && vfFlag("right") {
			var k vfSched
			k.start(psk.CipherSuite, psk.Key)
			trunc := vfMsg(HandshakeTypeClientHello, body)
			trunc = trunc[:len(trunc)-2-len(bl)]
			copy(body[len(body)-(size+1)*(m-known)+1:], k.binderFor("ext binder", vfJoin(p.transcript, trunc)))
		}
	case 1:
		vfReach("shares")
		for i := 0; i < n; i++ {
			g := []uint16{uint16(X25519), uint16(P256), 0}[vfChoice("group", 3)]
			if g == 0 {
				if i > 0 && vfParam("any", 0, 1) == 0 {
					vfStop()
				}
				g = vfU16("any group")
			}
			key := vfBytes("share", []int{32, 65, 0, 1}[vfChoice("size", 4)])
			if len(key) == 65 && g != uint16(P256) {
				vfStop()
			}
			list = vfJoin(list, []byte{byte(g >> 8), byte(g)}, vfVec(2, key))
		}
		replace(ExtensionTypeKeyShare, vfVec(2, list))
	case 2:
		vfReach("names")
		for i := 0; i < n; i++ {
			name := [][]byte{nil, []byte("example.com"), vfBytes("name", 2)}[vfChoice("name", 3)]
			list = vfJoin(list, []byte{vfU8("name type")}, vfVec(2, name))
		}
		replace(ExtensionTypeServerName, vfVec(2, list))
	case 3:
		vfReach("protocols")
		for i := 0; i < n; i++ {
			list = vfJoin(list, vfVec(1, [][]byte{nil, []byte("h2"), vfBytes("protocol", 2)}[vfChoice("protocol", 3)]))
		}
		replace(ExtensionTypeALPN, vfVec(2, list))
	case 4:
		replace(ExtensionTypeSupportedGroups, vfVec(2, u16s()))
	case 5:
		replace(ExtensionTypeSignatureAlgorithms, vfVec(2, u16s()))
	case 6:
		replace(ExtensionTypeSupportedVersions, vfVec(1, u16s()))
	case 7:
		replace(ExtensionTypePSKKeyExchangeModes, vfVec(1, vfBytes("modes", n)))
	case 8:
		body = p.clientHello(o)
		body = vfJoin(body[:35], vfVec(2, u16s()), body[39:])
	}
	if what > 3 {
		vfReach("others")
	}
	p.record(RecordTypeHandshake, vfMsg(HandshakeTypeClientHello, body))
	p.survive()
	if !vfFatal(p.alert) {
		vfReach("connected")
	}
}

// VF_C27_certificates: certificate lists of any shape.
//
//vf:bounds client and server; 0 to 3 entries, each empty, 1 or 4 bytes of any value, a valid certificate, or one cut short; request context of 0 or 2 bytes
//vf:reach client server
//vf:budget 60 300
func VF_C27_certificates() {
	n := []int{2, 11}[vfChoice("side", 2)]
	st := vfAtStage(n)
	list := []byte{}
	entries := vfChoice("entries", 4)
	for i := 0; i < entries; i++ {
		good := vfHex(vfServerCertHex)
		var der []byte
		switch vfChoice("entry", 5) {
		case 1:
			der = vfBytes("der", 1)
		case 2:
			der = vfBytes("der", 4)
		case 3:
			der = good
		case 4:
			der = good[:len(good)-1]
		}
		list = vfJoin(list, vfVec(3, der), []byte{0, 0})
	}
	st.send(HandshakeTypeCertificate, vfJoin(vfVec(1, make([]byte, 2*vfChoice("context", 2))), vfVec(3, list)))
	st.stepAny()
	st.send(HandshakeTypeCertificateVerify, st.body(HandshakeTypeCertificateVerify))
	st.survive()
	vfSideReach(n)
}

// VF_C27_share: key shares of any group and size.
//
//vf:bounds client and server; a share for each of the 9 known groups (offered or not) or any other, of 0, 1, 31, 32, 33, 64, 65, 97, 133, 256 bytes: all zero, all 255, counting, or starting with byte 4 of an uncompressed point
//vf:outside shares whose bytes are symbolic (C29, C30 decide the validation of shares)
//vf:reach client server
//vf:budget 60 300
func VF_C27_share() {
	groups := []NamedGroup{P256, P384, P521, X25519, X448, FFDHE2048, FFDHE3072, FFDHE8192, 0}
	i := vfChoice("group", len(groups))
	g := groups[i]
	share := make([]byte, []int{0, 1, 31, 32, 33, 64, 65, 97, 133, 256}[vfChoice("size", 10)])
	switch vfChoice("content", 4) {
	case 1:
		for j := range share {
			share[j] = 255
		}
	case 2:
		for j := range share {
			share[j] = byte(j)
		}
	case 3:
		if len(share) > 0 {
			share[0] = 4
		}
	}
	all := []NamedGroup{X25519, P256, P384, P521, FFDHE2048}
	if vfFlag("client") {
		cc := vfClientConfig()
		cc.Groups = all
		p := vfNewPeer(cc, true)
		p.step()
		p.record(RecordTypeHandshake, vfMsg(2, p.serverHello(vfRand32(0x50), p.suite, vfVersionSH, vfKeyShareSH(g, share))))
		p.survive()
		vfReach("client")
		return
	}
	sc := vfServerConfig()
	sc.Groups = all
	p := vfNewPeer(sc, false)
	o := vfDefaultCH()
	o.groups = []NamedGroup{g, P256}
	o.shares = vfJoin([]byte{byte(g >> 8), byte(g)}, vfVec(2, share))
	p.sendCH(o)
	p.survive()
	vfReach("server")
}

// VF_C27_wire: any bytes on the wire at the start.
//
//vf:bounds client and server at the start, TLS and DTLS; 0 to 7 (thorough 9) bytes of any value; or a record header of any type, version and a length of 0 to 300 with 0 to 6 (thorough 8) bytes of any value, repeated; transport reads whole or by 1 byte
//vf:reach client server tls dtls
//vf:budget 60 300
func VF_C27_wire() {
	dtls := vfFlag("dtls")
	client := vfFlag("client")
	cc := vfServerConfig()
	if client {
		cc = vfClientConfig()
	}
	cc.UseDTLS = dtls
	conn, other := vfPipe(dtls)
	var ep *Conn
	if client {
		ep = Client(conn, cc)
		vfReach("client")
	} else {
		ep = Server(conn, cc)
		vfReach("server")
	}
	if dtls {
		vfReach("dtls")
	} else {
		vfReach("tls")
		conn.chunk = vfChoice("chunk", 2)
	}
	var in []byte
	if vfFlag("raw") {
		in = vfBytes("raw", vfChoice("size", vfParam("raw", 8, 10)))
	} else {
		body := vfBytes("body", vfChoice("size", vfParam("body", 7, 9)))
		if dtls {
			in = vfJoin(vfBytes("header", 3), []byte{0, 0}, make([]byte, 6), vfVec(2, body))
		} else {
			in = vfJoin(vfBytes("header", 3), vfVec(2, body))
		}
	}
	other.Write(in)
	other.Write(in)
	for i := 0; i < 8; i++ {
		a := ep.Handshake()
		vfAssert(!vfConnected(ep), "connected out of nothing")
		if vfFatal(a) {
			break
		}
	}
	b := make([]byte, 4)
	n, err := ep.Read(b)
	vfAssert(n == 0 && err != nil, "something is read")
	ep.Write(b)
	ep.Handshake()
}

// VF_C27_dtls: any record that a DTLS peer can send, at any point.
//
//vf:bounds DTLS; a peer that at 4 (thorough: any of the first 8) moments of a certificate handshake (with and without a retry, thorough: client authentication) or after it sends, under its current keys, a handshake fragment of any type, sequence number, fragment offset and length (0 or 2, thorough 0 to 3 bytes present; message length that or 2^24-1, thorough also 0 and 3), or an ACK, alert, application data or other record of 0 to 3 (thorough 18) bytes of any value
//vf:reach client server handshake other
//vf:budget 100 300
func VF_C27_dtls() {
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true}
	switch vfChoice("mode", vfParam("modes", 2, 3)) {
	case 1:
		m.retry = true
	case 2:
		m.auth = true
	}
	cc, sc := m.configs()
	cc.UseDTLS, sc.UseDTLS = true, true
	p := vfNewPair(cc, sc)
	// the moments: Handshake calls, alternating in bursts
	moment := []int{1, 2, 3, 5, 8, 0, 4, 6, 7}[vfChoice("moment", vfParam("moments", 5, 9))]
	k := 0
	for i := 0; i < 40 && k < moment; i++ {
		if i%2 == 0 {
			p.ca = p.client.Handshake()
		} else {
			p.sa = p.server.Handshake()
		}
		k++
	}
	if moment == 8 {
		p.run()
		vfAssert(p.ok(), "the handshake does not complete")
	}
	from, to := p.client, p.server
	if vfFlag("to client") {
		from, to = to, from
		vfReach("client")
	} else {
		vfReach("server")
	}
	pt := &TLSPlaintext{contentType: RecordTypeHandshake}
	if vfFlag("handshake") {
		n := []int{0, 2, 1, 3}[vfChoice("present", vfParam("present", 2, 4))]
		l := []int{n, 1<<24 - 1, 0, 3}[vfChoice("length", vfParam("lengths", 2, 4))]
		off, fl := vfU8("offset"), vfU8("fragment length")
		pt.fragment = vfJoin([]byte{vfU8("type"), byte(l >> 16), byte(l >> 8), byte(l), 0, vfU8("seq"), 0, 0, off, 0, 0, fl}, vfBytes("body", n))
		vfReach("handshake")
	} else {
		ct := vfU8("content type")
		vfAssume(ct != byte(RecordTypeHandshake))
		pt.contentType = RecordType(ct)
		pt.fragment = vfBytes("content", []int{0, 1, 2, 3, 5, 10, 18}[vfChoice("size", vfParam("sizes", 4, 7))])
		vfReach("other")
	}
	// a peer that has not started has no keys
	from.out.SetVersion(tls12Version)
	if from.out.WriteRecord(pt) != nil {
		vfStop()
	}
	p.run()
	b := make([]byte, 8)
	for i := 0; i < 4; i++ {
		n, err := to.Read(b)
		vfAssert(n >= 0 && n <= 8 && (n == 0 || err == nil), "a Read returns an impossible count")
	}
	to.Write(b)
	to.Handshake()
}

// VF_C27_blocking: a blocking endpoint whose peer's records stop, or stop
// making sense, returns an error from the handshake, the same every time.
//
//vf:bounds a blocking client or server, TLS and DTLS, certificates (with or without a retry), client authentication or PSK; any one of the datagrams or writes of its peer, up to the last of the handshake, is followed by (or replaced by) the end of the transport, a record of any type with 0, 2 or 4 (thorough also 20) bytes of any value, or 5 bytes of any value; then the transport ends
//vf:reach client server dtls eof record raw
//vf:budget 60 300
func VF_C27_blocking() {
	client := vfFlag("client")
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true}
	dtls := vfFlag("dtls")
	switch vfChoice("mode", 4) {
	case 1:
		m.auth = true
	case 2:
		m.psk = true
	case 3:
		m.retry = true
	}
	cc, sc := m.configs()
	cc.UseDTLS, sc.UseDTLS = dtls, dtls
	if dtls {
		vfReach("dtls")
	}
	if client {
		cc = vfBlockingConfig(cc)
		vfReach("client")
	} else {
		sc = vfBlockingConfig(sc)
		vfReach("server")
	}
	p := vfNewPair(cc, sc)
	b, _, w := p.blocking(client)
	next := w.pull
	at := vfChoice("at", 9)
	replace := vfFlag("replace")
	n, over := 0, false
	w.pull = func() {
		if over {
			return
		}
		next()
		for i := range w.r.pkts {
			if n+i < at {
				continue
			}
			over = true
			if replace {
				w.r.pkts = w.r.pkts[:i]
			} else {
				w.r.pkts = w.r.pkts[:i+1]
			}
			var q []byte
			switch vfChoice("then", 3) {
			case 0:
				vfReach("eof")
				return
			case 1:
				l := []int{0, 2, 4, 20}[vfChoice("length", vfParam("lengths", 3, 4))]
				q = append(q, vfU8("type"), 3, 3)
				if dtls {
					epoch := byte(0)
					if b.in.Epoch() != EpochClear {
						epoch = byte(b.in.Epoch())
					}
					q = append(q, 0, epoch, 0, 0, 0, 0, 0, 40)
				}
				q = append(q, 0, byte(l))
				q = append(q, vfBytes("record", l)...)
				vfReach("record")
			case 2:
				q = vfBytes("raw", 5)
				vfReach("raw")
			}
			w.r.pkts = append(w.r.pkts, q)
			return
		}
		n += len(w.r.pkts)
	}
	alert := b.Handshake()
	vfAssert(alert != AlertWouldBlock && alert != AlertStatelessRetry, "a blocking handshake would block")
	if alert == AlertNoAlert {
		vfAssert(vfConnected(b), "a blocking handshake returns before its end")
		if !over {
			vfStop()
		}
	}
	vfAssert(b.Handshake() == alert, "the handshake's result is not final")
	buf := make([]byte, 10)
	_, err := b.Read(buf)
	vfAssert(err != nil && err != AlertWouldBlock, "reading goes on after the end")
}
