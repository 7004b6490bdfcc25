package mint

// C02: decoding arbitrary peer bytes is total.

// VF_C02_client_hello
//
//vf:bounds byte strings of 0..50 (thorough 0..60) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_client_hello() { vfTotal(vfKClientHello, 0, vfParam("max", 50, 60)) }

// VF_C02_client_hello_dtls
//
//vf:bounds byte strings of 0..51 (thorough 0..61) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_client_hello_dtls() { vfTotal(vfKClientHelloDTLS, 0, vfParam("max", 51, 61)) }

// VF_C02_server_hello
//
//vf:bounds byte strings of 0..50 (thorough 0..60) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_server_hello() { vfTotal(vfKServerHello, 0, vfParam("max", 50, 60)) }

// VF_C02_encrypted_extensions
//
//vf:bounds byte strings of 0..12 (thorough 0..22) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_encrypted_extensions() { vfTotal(vfKEncryptedExtensions, 0, vfParam("max", 12, 22)) }

// VF_C02_certificate
//
//vf:bounds byte strings of 0..16 (thorough 0..22) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_certificate() { vfTotal(vfKCertificate, 0, vfParam("max", 16, 22)) }

// VF_C02_certificate_verify
//
//vf:bounds byte strings of 0..8 (thorough 0..12) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_certificate_verify() { vfTotal(vfKCertificateVerify, 0, vfParam("max", 8, 12)) }

// VF_C02_certificate_request
//
//vf:bounds byte strings of 0..12 (thorough 0..22) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_certificate_request() { vfTotal(vfKCertificateRequest, 0, vfParam("max", 12, 22)) }

// VF_C02_new_session_ticket
//
//vf:bounds byte strings of 0..21 (thorough 0..26) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_new_session_ticket() { vfTotal(vfKNewSessionTicket, 0, vfParam("max", 21, 26)) }

// VF_C02_key_update
//
//vf:bounds byte strings of 0..3 (thorough 0..7) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_key_update() { vfTotal(vfKKeyUpdate, 0, vfParam("max", 3, 7)) }

// VF_C02_finished
//
//vf:bounds byte strings of 0..34 (thorough 0..44) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_finished() { vfTotal(vfKFinished, 0, vfParam("max", 34, 44)) }

// VF_C02_end_of_early_data
//
//vf:bounds byte strings of 0..2 (thorough 0..6) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_end_of_early_data() { vfTotal(vfKEndOfEarlyData, 0, vfParam("max", 2, 6)) }

// VF_C02_extension
//
//vf:bounds byte strings of 0..8 (thorough 0..12) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_extension() { vfTotal(vfKExtension, 0, vfParam("max", 8, 12)) }

// VF_C02_extension_list
//
//vf:bounds byte strings of 0..14 (thorough 0..20) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_extension_list() { vfTotal(vfKExtensionList, 0, vfParam("max", 14, 20)) }

// VF_C02_server_name
//
//vf:bounds byte strings of 0..14 (thorough 0..24) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_server_name() { vfTotal(vfKServerName, 0, vfParam("max", 14, 24)) }

// VF_C02_key_share_client
//
//vf:bounds byte strings of 0..40 (thorough 0..44) bytes, every byte arbitrary; beyond 20 bytes the first share has at least 20 bytes
//vf:reach returned accepted
func VF_C02_key_share_client() { vfTotal(vfKKeyShareClient, 0, vfParam("max", 40, 44)) }

// VF_C02_key_share_server
//
//vf:bounds byte strings of 0..37 (thorough 0..70) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_key_share_server() { vfTotal(vfKKeyShareServer, 0, vfParam("max", 37, 70)) }

// VF_C02_key_share_retry
//
//vf:bounds byte strings of 0..4 (thorough 0..8) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_key_share_retry() { vfTotal(vfKKeyShareRetry, 0, vfParam("max", 4, 8)) }

// VF_C02_groups
//
//vf:bounds byte strings of 0..10 (thorough 0..20) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_groups() { vfTotal(vfKGroups, 0, vfParam("max", 10, 20)) }

// VF_C02_signature_algorithms
//
//vf:bounds byte strings of 0..10 (thorough 0..20) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_signature_algorithms() { vfTotal(vfKSignatureAlgorithms, 0, vfParam("max", 10, 20)) }

// VF_C02_psk_client
//
//vf:bounds byte strings of 0..46 (thorough 0..50) bytes, every byte arbitrary; beyond 20 bytes the identities take at most 14 bytes
//vf:reach returned accepted
func VF_C02_psk_client() { vfTotal(vfKPSKClient, 0, vfParam("max", 46, 50)) }

// VF_C02_psk_server
//
//vf:bounds byte strings of 0..4 (thorough 0..8) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_psk_server() { vfTotal(vfKPSKServer, 0, vfParam("max", 4, 8)) }

// VF_C02_psk_modes
//
//vf:bounds byte strings of 0..7 (thorough 0..11) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_psk_modes() { vfTotal(vfKPSKModes, 0, vfParam("max", 7, 11)) }

// VF_C02_early_data
//
//vf:bounds byte strings of 0..2 (thorough 0..6) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_early_data() { vfTotal(vfKEarlyData, 0, vfParam("max", 2, 6)) }

// VF_C02_ticket_early_data
//
//vf:bounds byte strings of 0..6 (thorough 0..10) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_ticket_early_data() { vfTotal(vfKTicketEarlyData, 0, vfParam("max", 6, 10)) }

// VF_C02_alpn
//
//vf:bounds byte strings of 0..12 (thorough 0..22) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_alpn() { vfTotal(vfKALPN, 0, vfParam("max", 12, 22)) }

// VF_C02_versions_client
//
//vf:bounds byte strings of 0..10 (thorough 0..20) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_versions_client() { vfTotal(vfKVersionsClient, 0, vfParam("max", 10, 20)) }

// VF_C02_versions_server
//
//vf:bounds byte strings of 0..4 (thorough 0..8) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_versions_server() { vfTotal(vfKVersionsServer, 0, vfParam("max", 4, 8)) }

// VF_C02_versions_retry
//
//vf:bounds byte strings of 0..4 (thorough 0..8) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_versions_retry() { vfTotal(vfKVersionsRetry, 0, vfParam("max", 4, 8)) }

// VF_C02_cookie
//
//vf:bounds byte strings of 0..8 (thorough 0..12) bytes, every byte arbitrary
//vf:reach returned accepted
func VF_C02_cookie() { vfTotal(vfKCookie, 0, vfParam("max", 8, 12)) }

// VF_C02_message
//
//vf:bounds handshake messages of every type byte with bodies of 0..15 arbitrary bytes (hellos also 38..44)
//vf:reach accepted refused
func VF_C02_message() {
	t := vfU8("type")
	n := vfLen("len", 0, 15)
	if n == 15 && (t == byte(HandshakeTypeClientHello) || t == byte(HandshakeTypeServerHello)) {
		n = vfLen("hello_len", 38, 44)
	}
	data := vfBytes("data", n)
	hm := HandshakeMessage{msgType: HandshakeType(t), body: data, length: uint32(n)}
	body, err := hm.ToBody()
	if err != nil {
		vfReach("refused")
		return
	}
	vfReach("accepted")
	vfAssert(body.Type() == hm.msgType, "message decoded as another type")
	// all bytes must have been consumed: the same body with a byte more must
	// not be accepted as the same message
	if ch, ok := body.(*ClientHelloBody); ok {
		vfAssume(ch.LegacyVersion == tls12Version)
	}
	enc, err := body.Marshal()
	vfAssert(err == nil && len(enc) == len(data), "a message is accepted although not all of its bytes were consumed")
}

// VF_C02_trailing_byte
//
//vf:bounds the two parsers used inside the handshake (extension Find and Parse), every extension type, data of 0..8 arbitrary bytes
//vf:reach accepted refused
func VF_C02_trailing_byte() {
	k := vfKServerName + vfChoice("kind", vfKCookie-vfKServerName+1)
	n := vfLen("len", 0, 8)
	data := vfBytes("data", n)
	dst := vfNewPDU(k).(ExtensionBody)
	el := ExtensionList{{ExtensionType: dst.Type(), ExtensionData: data}}
	var err error
	if vfFlag("parse") {
		_, err = el.Parse([]ExtensionBody{dst})
	} else {
		_, err = el.Find(dst)
	}
	if err != nil {
		vfReach("refused")
		return
	}
	vfReach("accepted")
	d2 := vfNewPDU(k)
	read, err := d2.Unmarshal(data)
	vfAssert(err == nil && read == n, "an extension is accepted although not all of its bytes were consumed")
}

// VF_C02_duplicate_extension
//
//vf:bounds two cookie extensions of 0..4 arbitrary bytes with up to 2 other extensions around them
//vf:reach refused
func VF_C02_duplicate_extension() {
	mk := func(name string) Extension {
		return Extension{ExtensionTypeCookie, vfBytes(name, vfLen(name+"_l", 0, 4))}
	}
	el := vfExts("pre", 1, 1)
	el = append(el, mk("a"))
	el = append(el, vfExts("mid", 1, 1)...)
	el = append(el, mk("b"))
	c := &CookieExtension{}
	_, err := el.Parse([]ExtensionBody{c})
	vfAssert(err != nil, "an extension list with a duplicate is accepted")
	vfReach("refused")
}

// VF_C02_truncated_client_hello
//
//vf:bounds client hellos ending in a pre_shared_key extension of 0..8 or 45..47 arbitrary bytes (long ones: at most 14 bytes of identities)
//vf:reach ok refused
func VF_C02_truncated_client_hello() {
	n := vfLen("len", 0, 11)
	if n > 8 {
		n += 36 // 45..47
	}
	ch := ClientHelloBody{LegacyVersion: tls12Version, CipherSuites: []CipherSuite{1}, Extensions: vfExts("pre", 1, 1)}
	if vfFlag("psk") {
		data := vfBytes("data", n)
		vfShape(vfKPSKClient, data)
		ch.Extensions = append(ch.Extensions, Extension{ExtensionTypePreSharedKey, data})
	}
	full, ferr := ch.Marshal()
	tr, err := ch.Truncated()
	if err != nil {
		vfReach("refused")
		return
	}
	vfReach("ok")
	vfAssert(ferr == nil && len(tr) < len(full)+4, "nothing was truncated")
	vfAssert(vfEq(tr[4:], full[:len(tr)-4]), "truncated hello is not a prefix of the hello")
}
