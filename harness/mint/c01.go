package mint

// C01: handshake messages and extensions survive encode/decode unchanged.

const vfErrEnc = "encoding a valid value fails"
const vfErrDec = "decoding an encoding fails or does not consume exactly the encoding"

// vfRT encodes m, decodes the result into d and checks the length accounting.
// It returns false if m was refused by the encoder.
func vfRT(m, d HandshakeMessageBody, mustEncode bool) bool {
	enc, err := m.Marshal()
	if mustEncode {
		vfAssert(err == nil, vfErrEnc)
	}
	if err != nil {
		vfReach("refused")
		return false
	}
	n, err := d.Unmarshal(enc)
	vfAssert(err == nil && n == len(enc), vfErrDec)
	vfObserve("enc", enc)
	vfReach("done")
	return true
}

func vfRTExt(m, d ExtensionBody, mustEncode bool) bool {
	enc, err := m.Marshal()
	if mustEncode {
		vfAssert(err == nil, vfErrEnc)
	}
	if err != nil {
		vfReach("refused")
		return false
	}
	n, err := d.Unmarshal(enc)
	vfAssert(err == nil && n == len(enc), vfErrDec)
	vfObserve("enc", enc)
	vfReach("done")
	// the same through an extension list
	var el ExtensionList
	vfAssert(el.Add(m) == nil, "a valid extension cannot be added to a list")
	vfAssert(len(el) == 1 && el[0].ExtensionType == m.Type() && vfEq(el[0].ExtensionData, enc), "extension list entry is not the encoded extension")
	return true
}

// VF_C01_client_hello
//
//vf:bounds TLS and DTLS layouts; session id 0..2 and 32 bytes; 0..3 cipher suites; 0..2 extensions of 0..2 bytes; all field values
//vf:reach done refused
func VF_C01_client_hello() {
	m := &ClientHelloBody{LegacyVersion: tls12Version, Random: vfRandom("rnd")}
	if vfFlag("dtls") {
		m.LegacyVersion = dtls12WireVersion
	}
	sl := vfLen("sid_l", 0, 3)
	if sl == 3 {
		sl = 32
	}
	m.LegacySessionID = vfBytes("sid", sl)
	nc := vfLen("nc", 0, 3)
	for i := 0; i < nc; i++ {
		m.CipherSuites = append(m.CipherSuites, CipherSuite(vfU16("cs")))
	}
	m.Extensions = vfExts("ext", 2, 2)
	d := &ClientHelloBody{LegacyVersion: m.LegacyVersion}
	if !vfRT(m, d, nc > 0) {
		return
	}
	vfAssert(nc > 0, "a client hello without cipher suites is encoded")
	vfAssert(d.LegacyVersion == m.LegacyVersion, "client hello version changed")
	vfAssert(vfEq(d.Random[:], m.Random[:]), "client hello random changed")
	vfAssert(vfEq(d.LegacySessionID, m.LegacySessionID), "client hello session id changed")
	vfAssert(len(d.CipherSuites) == len(m.CipherSuites), "client hello cipher suite count changed")
	for i := range m.CipherSuites {
		vfAssert(d.CipherSuites[i] == m.CipherSuites[i], "client hello cipher suite changed")
	}
	vfAssert(vfExtsEq(d.Extensions, m.Extensions), "client hello extensions changed")
}

// VF_C01_server_hello
//
//vf:bounds session id 0..2, 32 and 33 bytes; 0..2 extensions of 0..2 bytes; all field values
//vf:reach done refused
func VF_C01_server_hello() {
	m := &ServerHelloBody{Version: vfU16("v"), Random: vfRandom("rnd"), CipherSuite: CipherSuite(vfU16("cs")), LegacyCompressionMethod: vfU8("cm")}
	sl := vfLen("sid_l", 0, 4)
	if sl >= 3 {
		sl += 29
	}
	m.LegacySessionID = vfBytes("sid", sl)
	m.Extensions = vfExts("ext", 2, 2)
	d := &ServerHelloBody{}
	if !vfRT(m, d, sl <= 32) {
		return
	}
	vfAssert(sl <= 32, "a server hello with an over-long session id is encoded")
	vfAssert(d.Version == m.Version, "server hello version changed")
	vfAssert(vfEq(d.Random[:], m.Random[:]), "server hello random changed")
	vfAssert(vfEq(d.LegacySessionID, m.LegacySessionID), "server hello session id changed")
	vfAssert(d.CipherSuite == m.CipherSuite, "server hello cipher suite changed")
	vfAssert(d.LegacyCompressionMethod == m.LegacyCompressionMethod, "server hello compression method changed")
	vfAssert(vfExtsEq(d.Extensions, m.Extensions), "server hello extensions changed")
}

// VF_C01_finished: verify data of every length up to 64.
//
//vf:bounds verify_data length 0..64 and a declared length that may differ by up to 2, all byte values
//vf:reach done refused
func VF_C01_finished() {
	n := vfLen("n", 0, vfParam("finished", 34, 64))
	m := &FinishedBody{VerifyDataLen: n + vfLen("off", 0, 2), VerifyData: vfBytes("vd", n)}
	d := &FinishedBody{VerifyDataLen: n}
	if !vfRT(m, d, m.VerifyDataLen == n) {
		return
	}
	vfAssert(m.VerifyDataLen == n, "a finished message of the wrong length is encoded")
	vfAssert(vfEq(d.VerifyData, m.VerifyData), "finished verify data changed")
}

// VF_C01_encrypted_extensions
//
//vf:bounds 0..3 extensions of 0..3 bytes
func VF_C01_encrypted_extensions() {
	m := &EncryptedExtensionsBody{vfExts("ext", 3, vfParam("extlen", 2, 3))}
	d := &EncryptedExtensionsBody{}
	vfRT(m, d, true)
	vfAssert(vfExtsEq(d.Extensions, m.Extensions), "encrypted extensions changed")
}

// VF_C01_extension_list: the list codec agrees with the message codec.
//
//vf:bounds 0..3 extensions of 0..2 bytes
func VF_C01_extension_list() {
	m := vfExts("ext", 3, 2)
	enc, err := m.Marshal()
	vfAssert(err == nil, vfErrEnc)
	var d ExtensionList
	n, err := d.Unmarshal(enc)
	vfAssert(err == nil && n == len(enc), vfErrDec)
	vfAssert(vfExtsEq(d, m), "extension list changed")
	vfObserve("enc", enc)
	if len(m) > 0 {
		e1, err := m[0].Marshal()
		vfAssert(err == nil, vfErrEnc)
		var x Extension
		n, err := x.Unmarshal(e1)
		vfAssert(err == nil && n == len(e1), vfErrDec)
		vfAssert(x.ExtensionType == m[0].ExtensionType && vfEq(x.ExtensionData, m[0].ExtensionData), "extension changed")
	}
	vfReach("done")
}

// VF_C01_certificate
//
//vf:bounds context 0..3 bytes, 0..3 certificates from a set of two, 0..1 extensions of 0..2 bytes on each
func VF_C01_certificate() {
	certs := []string{vfServerCertHex, vfClientCertHex}
	m := &CertificateBody{CertificateRequestContext: vfBytes("ctx", vfLen("cl", 0, 3))}
	n := vfLen("n", 0, vfParam("certs", 2, 3))
	for i := 0; i < n; i++ {
		m.CertificateList = append(m.CertificateList, CertificateEntry{CertData: vfCert(certs[vfChoice("which", 2)]), Extensions: vfExts("ext", 1, 2)})
	}
	d := &CertificateBody{}
	vfRT(m, d, true)
	vfAssert(vfEq(d.CertificateRequestContext, m.CertificateRequestContext), "certificate context changed")
	vfAssert(len(d.CertificateList) == n, "certificate count changed")
	for i := range m.CertificateList {
		vfAssert(vfEq(d.CertificateList[i].CertData.Raw, m.CertificateList[i].CertData.Raw), "certificate changed")
		vfAssert(vfExtsEq(d.CertificateList[i].Extensions, m.CertificateList[i].Extensions), "certificate extensions changed")
	}
}

// VF_C01_certificate_verify
//
//vf:bounds signature length 0..8
func VF_C01_certificate_verify() {
	m := &CertificateVerifyBody{Algorithm: SignatureScheme(vfU16("alg")), Signature: vfBytes("sig", vfLen("l", 0, 8))}
	d := &CertificateVerifyBody{}
	vfRT(m, d, true)
	vfAssert(d.Algorithm == m.Algorithm, "signature algorithm changed")
	vfAssert(vfEq(d.Signature, m.Signature), "signature changed")
}

// VF_C01_certificate_request
//
//vf:bounds context 0..3 bytes, 0..2 extensions of 0..2 bytes
func VF_C01_certificate_request() {
	m := &CertificateRequestBody{CertificateRequestContext: vfBytes("ctx", vfLen("cl", 0, 3)), Extensions: vfExts("ext", 2, 2)}
	d := &CertificateRequestBody{}
	vfRT(m, d, true)
	vfAssert(vfEq(d.CertificateRequestContext, m.CertificateRequestContext), "request context changed")
	vfAssert(vfExtsEq(d.Extensions, m.Extensions), "request extensions changed")
}

// VF_C01_new_session_ticket
//
//vf:bounds ticket length 0..4, nonce length 0..3 and 256, early data extension present or absent
//vf:reach done refused
func VF_C01_new_session_ticket() {
	m := &NewSessionTicketBody{TicketLifetime: vfU32("life"), TicketAgeAdd: vfU32("add")}
	nl := vfLen("nl", 0, 4)
	if nl == 4 {
		m.TicketNonce = make([]byte, 256)
	} else {
		m.TicketNonce = vfBytes("nonce", nl)
	}
	tl := vfLen("tl", 0, 4)
	m.Ticket = vfBytes("ticket", tl)
	if vfFlag("ed") {
		vfAssert(m.Extensions.Add(&TicketEarlyDataInfoExtension{vfU32("max")}) == nil, "adding an extension fails")
	}
	d := &NewSessionTicketBody{}
	if !vfRT(m, d, tl > 0 && nl < 4) {
		return
	}
	vfAssert(tl > 0, "an empty ticket is encoded")
	vfAssert(d.TicketLifetime == m.TicketLifetime, "ticket lifetime changed")
	vfAssert(d.TicketAgeAdd == m.TicketAgeAdd, "ticket age add changed")
	vfAssert(vfEq(d.TicketNonce, m.TicketNonce), "ticket nonce changed")
	vfAssert(vfEq(d.Ticket, m.Ticket), "ticket changed")
	vfAssert(vfExtsEq(d.Extensions, m.Extensions), "ticket extensions changed")
}

// VF_C01_key_update
//
//vf:bounds all values
func VF_C01_key_update() {
	m := &KeyUpdateBody{KeyUpdateRequest(vfU8("r"))}
	d := &KeyUpdateBody{}
	vfRT(m, d, true)
	vfAssert(d.KeyUpdateRequest == m.KeyUpdateRequest, "key update request changed")
	vfRT(&EndOfEarlyDataBody{}, &EndOfEarlyDataBody{}, true)
}

// VF_C01_handshake_message: framing of a message body.
//
//vf:bounds body of 0..4 bytes, any type, TLS and DTLS header
func VF_C01_handshake_message() {
	body := vfBytes("body", vfLen("l", 0, 4))
	m := &HandshakeMessage{msgType: HandshakeType(vfU8("t")), seq: vfU32("seq") & 0xffff, body: body, length: uint32(len(body)), datagram: vfFlag("dtls")}
	enc := m.Marshal()
	hl := 4
	if m.datagram {
		hl = 12
	}
	vfAssert(len(enc) == hl+len(body), "handshake message has the wrong size")
	vfAssert(enc[0] == byte(m.msgType), "handshake message type is wrong on the wire")
	vfAssert(enc[1] == 0 && enc[2] == 0 && enc[3] == byte(len(body)), "handshake message length is wrong on the wire")
	if m.datagram {
		vfAssert(uint32(enc[4])<<8|uint32(enc[5]) == m.seq, "handshake message sequence is wrong on the wire")
		vfAssert(vfEq(enc[6:9], []byte{0, 0, 0}), "handshake message offset is wrong on the wire")
		vfAssert(vfEq(enc[9:12], enc[1:4]), "handshake message fragment length is wrong on the wire")
	}
	vfAssert(vfEq(enc[hl:], body), "handshake message body changed")
	vfObserve("enc", enc)
	vfReach("done")
}

// VF_C01_server_name
//
//vf:bounds names of 0..6 bytes
//vf:reach done refused
func VF_C01_server_name() {
	n := vfLen("l", 0, 6)
	m := ServerNameExtension(vfString("n", n))
	var d ServerNameExtension
	if !vfRTExt(&m, &d, n > 0) {
		return
	}
	vfAssert(string(d) == string(m), "server name changed")
}

// VF_C01_key_share
//
//vf:bounds client (0..2 shares), server (0..2 shares) and retry forms; shares of right and wrong sizes; any selected group
//vf:reach done refused
func VF_C01_key_share() {
	types := []HandshakeType{HandshakeTypeClientHello, HandshakeTypeServerHello, HandshakeTypeHelloRetryRequest, HandshakeTypeFinished}
	ht := types[vfChoice("ht", 4)]
	m := &KeyShareExtension{HandshakeType: ht, SelectedGroup: NamedGroup(vfU16("sel"))}
	n := vfLen("n", 0, 2)
	valid := true
	for i := 0; i < n; i++ {
		s := vfShare("s")
		m.Shares = append(m.Shares, s)
		valid = valid && vfShareOK(s)
	}
	expressible := false
	switch ht {
	case HandshakeTypeClientHello:
		expressible = valid
	case HandshakeTypeServerHello:
		expressible = valid && n == 1
	case HandshakeTypeHelloRetryRequest:
		expressible = n == 0
	}
	d := &KeyShareExtension{HandshakeType: ht}
	if !vfRTExt(m, d, expressible) {
		return
	}
	vfAssert(expressible, "an invalid key share extension is encoded")
	if ht == HandshakeTypeHelloRetryRequest {
		vfAssert(d.SelectedGroup == m.SelectedGroup, "selected group changed")
		return
	}
	vfAssert(len(d.Shares) == n, "key share count changed")
	for i := range m.Shares {
		vfAssert(vfShareEq(d.Shares[i], m.Shares[i]), "key share changed")
	}
}

// VF_C01_lists: groups, signature schemes, PSK modes and versions.
//
//vf:bounds 0..4 entries of any value
//vf:reach done refused
func VF_C01_lists() {
	n := vfLen("n", 0, 4)
	switch vfChoice("kind", 4) {
	case 0:
		m, d := &SupportedGroupsExtension{}, &SupportedGroupsExtension{}
		for i := 0; i < n; i++ {
			m.Groups = append(m.Groups, NamedGroup(vfU16("v")))
		}
		if vfRTExt(m, d, n > 0) {
			vfAssert(len(d.Groups) == n && n > 0, "group count changed")
			for i := range m.Groups {
				vfAssert(d.Groups[i] == m.Groups[i], "group changed")
			}
		}
	case 1:
		m, d := &SignatureAlgorithmsExtension{}, &SignatureAlgorithmsExtension{}
		for i := 0; i < n; i++ {
			m.Algorithms = append(m.Algorithms, SignatureScheme(vfU16("v")))
		}
		if vfRTExt(m, d, n > 0) {
			vfAssert(len(d.Algorithms) == n && n > 0, "algorithm count changed")
			for i := range m.Algorithms {
				vfAssert(d.Algorithms[i] == m.Algorithms[i], "algorithm changed")
			}
		}
	case 2:
		m, d := &PSKKeyExchangeModesExtension{}, &PSKKeyExchangeModesExtension{}
		for i := 0; i < n; i++ {
			m.KEModes = append(m.KEModes, PSKKeyExchangeMode(vfU8("v")))
		}
		if vfRTExt(m, d, n > 0) {
			vfAssert(len(d.KEModes) == n && n > 0, "mode count changed")
			for i := range m.KEModes {
				vfAssert(d.KEModes[i] == m.KEModes[i], "mode changed")
			}
		}
	case 3:
		m, d := &SupportedVersionsExtension{HandshakeType: HandshakeTypeClientHello}, &SupportedVersionsExtension{HandshakeType: HandshakeTypeClientHello}
		for i := 0; i < n; i++ {
			m.Versions = append(m.Versions, vfU16("v"))
		}
		if vfRTExt(m, d, n > 0) {
			vfAssert(len(d.Versions) == n && n > 0, "version count changed")
			for i := range m.Versions {
				vfAssert(d.Versions[i] == m.Versions[i], "version changed")
			}
		}
	}
}

// VF_C01_version: the selected version in a server hello or retry request.
//
//vf:bounds 0..2 versions of any value
//vf:reach done refused
func VF_C01_version() {
	types := []HandshakeType{HandshakeTypeServerHello, HandshakeTypeHelloRetryRequest, HandshakeTypeFinished}
	k := vfChoice("ht", 3)
	m := &SupportedVersionsExtension{HandshakeType: types[k]}
	n := vfLen("n", 0, 2)
	for i := 0; i < n; i++ {
		m.Versions = append(m.Versions, vfU16("v"))
	}
	d := &SupportedVersionsExtension{HandshakeType: types[k]}
	if vfRTExt(m, d, k < 2 && n == 1) {
		vfAssert(len(d.Versions) == n && d.Versions[0] == m.Versions[0], "version changed")
	}
}

// VF_C01_psk
//
//vf:bounds client form with 0..2 identities of 0..3 bytes and 0..2 binders of 31..33 bytes; server form
//vf:reach done refused
func VF_C01_psk() {
	if vfFlag("server") {
		m := &PreSharedKeyExtension{HandshakeType: HandshakeTypeServerHello, SelectedIdentity: vfU16("sel")}
		if vfFlag("extra") {
			m.Identities = []PSKIdentity{{Identity: []byte{1}}}
		}
		d := &PreSharedKeyExtension{HandshakeType: HandshakeTypeServerHello}
		if vfRTExt(m, d, len(m.Identities) == 0) {
			vfAssert(d.SelectedIdentity == m.SelectedIdentity && len(d.Identities) == len(m.Identities), "selected identity changed")
		}
		return
	}
	m := &PreSharedKeyExtension{HandshakeType: HandshakeTypeClientHello}
	ok := true
	ni, nb := vfLen("ni", 0, 2), vfLen("nb", 0, 2)
	for i := 0; i < ni; i++ {
		l := vfLen("il", 0, 2)
		ok = ok && l > 0
		m.Identities = append(m.Identities, PSKIdentity{vfBytes("id", l), vfU32("age")})
	}
	for i := 0; i < nb; i++ {
		l := vfLen("bl", 31, 33)
		ok = ok && l >= 32
		m.Binders = append(m.Binders, PSKBinderEntry{vfBytes("b", l)})
	}
	ok = ok && ni > 0 && ni == nb
	d := &PreSharedKeyExtension{HandshakeType: HandshakeTypeClientHello}
	if !vfRTExt(m, d, ok) {
		return
	}
	vfAssert(len(d.Identities) == ni && len(d.Binders) == nb, "identity or binder count changed")
	for i := range m.Identities {
		vfAssert(vfEq(d.Identities[i].Identity, m.Identities[i].Identity), "identity changed")
		vfAssert(d.Identities[i].ObfuscatedTicketAge == m.Identities[i].ObfuscatedTicketAge, "ticket age changed")
	}
	for i := range m.Binders {
		vfAssert(vfEq(d.Binders[i].Binder, m.Binders[i].Binder), "binder changed")
	}
}

// VF_C01_alpn
//
//vf:bounds 0..3 protocols of 0..3 bytes
//vf:reach done refused
func VF_C01_alpn() {
	m, d := &ALPNExtension{}, &ALPNExtension{}
	n := vfLen("n", 0, vfParam("protos", 2, 3))
	ok := n > 0
	for i := 0; i < n; i++ {
		l := vfLen("l", 0, 3)
		ok = ok && l > 0
		m.Protocols = append(m.Protocols, vfString("p", l))
	}
	if !vfRTExt(m, d, ok) {
		return
	}
	vfAssert(len(d.Protocols) == n, "protocol count changed")
	for i := range m.Protocols {
		vfAssert(d.Protocols[i] == m.Protocols[i], "protocol changed")
	}
}

// VF_C01_cookie_and_early_data
//
//vf:bounds cookie 0..5 bytes; any early data size
//vf:reach done refused
func VF_C01_cookie_and_early_data() {
	n := vfLen("n", 0, 5)
	m, d := &CookieExtension{vfBytes("c", n)}, &CookieExtension{}
	if vfRTExt(m, d, n > 0) {
		vfAssert(vfEq(d.Cookie, m.Cookie), "cookie changed")
	}
	m2, d2 := &TicketEarlyDataInfoExtension{vfU32("max")}, &TicketEarlyDataInfoExtension{}
	vfRTExt(m2, d2, true)
	vfAssert(d2.MaxEarlyDataSize == m2.MaxEarlyDataSize, "early data size changed")
	vfRTExt(&EarlyDataExtension{}, &EarlyDataExtension{}, true)
}
