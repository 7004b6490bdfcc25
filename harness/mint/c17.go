package mint

// VF_C17_version: the first offered version that is supported.
//
//vf:bounds 0 to 3 offered and 0 to 2 supported versions, any values
//vf:reach ok none
func VF_C17_version() {
	off, sup := make([]uint16, vfChoice("offered", 4)), make([]uint16, vfChoice("supported", 3))
	for i := range off {
		off[i] = vfU16("offer")
	}
	for i := range sup {
		sup[i] = vfU16("support")
	}
	ok, v := VersionNegotiation(off, sup)
	for _, o := range off {
		for _, s := range sup {
			if o == s {
				vfAssert(ok && v == o, "not the first offered version that is supported")
				vfReach("ok")
				return
			}
		}
	}
	vfAssert(!ok, "a version without overlap")
	vfReach("none")
}

// VF_C17_suite: the first offered suite that is supported, and with a PSK only
// the PSK's.
//
//vf:bounds 0 to 3 offered and 0 to 2 supported suites and a PSK suite, any values
//vf:reach ok none psk
func VF_C17_suite() {
	off, sup := make([]CipherSuite, vfChoice("offered", 4)), make([]CipherSuite, vfChoice("supported", 3))
	for i := range off {
		off[i] = CipherSuite(vfU16("offer"))
	}
	for i := range sup {
		sup[i] = CipherSuite(vfU16("support"))
	}
	var psk *PreSharedKey
	if vfFlag("psk") {
		psk = &PreSharedKey{CipherSuite: CipherSuite(vfU16("psk suite"))}
	}
	got, err := CipherSuiteNegotiation(psk, off, sup)
	for _, o := range off {
		for _, s := range sup {
			if o == s && (psk == nil || psk.CipherSuite == o) {
				vfAssert(err == nil && got == o, "not the first offered suite that is acceptable")
				vfReach("ok")
				if psk != nil {
					vfReach("psk")
				}
				return
			}
		}
	}
	vfAssert(err != nil, "a suite without overlap")
	vfReach("none")
}

// VF_C17_modes: PSK is used exactly in a mode the client offers and that is
// possible, and (EC)DHE with it if that mode asks for it.
//
//vf:bounds 0 to 3 offered modes of any value, and any combination of what is possible
//vf:reach psk pskdh dh none
func VF_C17_modes() {
	modes := make([]PSKKeyExchangeMode, vfChoice("modes", 4))
	ke, dheke := false, false
	for i := range modes {
		modes[i] = PSKKeyExchangeMode(vfU8("mode"))
		ke = vfOr(ke, modes[i] == PSKModeKE)
		dheke = vfOr(dheke, modes[i] == PSKModeDHEKE)
	}
	canDH, canPSK := vfFlag("dh"), vfFlag("psk")
	dh, psk := PSKModeNegotiation(canDH, canPSK, modes)
	vfAssert(vfImplies(psk, canPSK) && vfImplies(dh, canDH), "something impossible is used")
	wantPSK := vfAnd(canPSK, vfOr(ke, vfAnd(dheke, canDH)))
	vfAssert(psk == wantPSK, "PSK is used exactly if a mode for it is offered and possible")
	vfAssert(vfImplies(vfAnd(psk, dh), dheke), "PSK with (EC)DHE although the client did not offer it")
	vfAssert(vfImplies(vfAnd(psk, vfNot(dh)), ke), "PSK only although the client did not offer it")
	vfAssert(vfImplies(vfAnd(canDH, vfNot(psk)), dh), "(EC)DHE is possible and nothing else is used")
	vfAssert(vfImplies(vfAnd(vfAnd(psk, canDH), dheke), dh), "(EC)DHE is possible, offered, and not used")
	switch {
	case psk && dh:
		vfReach("pskdh")
	case psk:
		vfReach("psk")
	case dh:
		vfReach("dh")
	default:
		vfReach("none")
	}
}

// VF_C17_alpn: the first offered protocol that is supported, and with a PSK
// only the PSK's; resumption fails if its protocol is no longer offered.
//
//vf:bounds 0 to 2 offered, 0 to 2 supported protocols and a PSK protocol of 0 or 1 bytes, any values
//vf:reach ok none resumption
func VF_C17_alpn() {
	off, sup := make([]string, vfChoice("offered", 3)), make([]string, vfChoice("supported", 3))
	for i := range off {
		off[i] = vfString("offer", 1)
	}
	for i := range sup {
		sup[i] = vfString("support", 1)
	}
	var psk *PreSharedKey
	if vfFlag("psk") {
		psk = &PreSharedKey{NextProto: vfString("psk proto", vfChoice("psk proto len", 2)), IsResumption: vfFlag("resumption")}
	}
	got, err := ALPNNegotiation(psk, off, sup)
	for _, o := range off {
		for _, s := range sup {
			if o == s && (psk == nil || psk.NextProto == o) {
				vfAssert(err == nil && got == o, "not the first offered protocol that is acceptable")
				vfReach("ok")
				return
			}
		}
	}
	vfAssert(got == "", "a protocol without overlap")
	if psk != nil && psk.IsResumption && len(off) > 0 {
		vfAssert(err != nil, "a session is resumed for another protocol")
		vfReach("resumption")
		return
	}
	vfAssert(err == nil, "no protocol is an error")
	vfReach("none")
}

// VF_C17_early: early data is used exactly if asked for, with a PSK, and
// allowed; otherwise, if asked for, rejected.
//
//vf:bounds all inputs
//vf:reach used rejected none
func VF_C17_early() {
	psk, got, allow := vfBool("psk"), vfBool("got"), vfBool("allow")
	using, rejected := EarlyDataNegotiation(psk, got, allow)
	vfAssert(using == vfAnd(psk, vfAnd(got, allow)), "early data use")
	vfAssert(rejected == vfAnd(got, vfNot(using)), "early data rejection")
	switch {
	case using:
		vfReach("used")
	case rejected:
		vfReach("rejected")
	default:
		vfReach("none")
	}
}

// VF_C17_group: the first share whose group is supported and that is valid.
//
//vf:bounds up to 2 shares (thorough: 3) out of X25519, P-256, X25519 of the wrong length, P-256 off the curve, an unknown group; 4 lists of supported groups
//vf:reach ok none invalid
func VF_C17_group() {
	p256, _, err := newKeyShare(P256)
	vfAssert(err == nil, "no share")
	x, _, err := newKeyShare(X25519)
	vfAssert(err == nil, "no share")
	off := append([]byte{}, p256...)
	off[len(off)-1] ^= 1
	kinds := []KeyShareEntry{
		{Group: X25519, KeyExchange: x}, {Group: P256, KeyExchange: p256},
		{Group: X25519, KeyExchange: x[:31]}, {Group: P256, KeyExchange: off}, {Group: NamedGroup(0x4a4a), KeyExchange: x},
	}
	n := vfChoice("shares", vfParam("shares", 3, 4))
	shares, valid := make([]KeyShareEntry, n), make([]bool, n)
	for i := range shares {
		k := vfChoice("share", len(kinds))
		shares[i], valid[i] = kinds[k], k < 2
	}
	sup := [][]NamedGroup{{X25519}, {P256}, {P256, X25519}, {NamedGroup(0x4a4a), X25519, P256}}[vfChoice("groups", 4)]
	ok, g, pub, secret := DHNegotiation(shares, sup)
	for i, s := range shares {
		for _, h := range sup {
			if h == s.Group && valid[i] {
				vfAssert(ok && g == s.Group, "not the first acceptable share")
				vfAssert(len(pub) == keyExchangeSizeFromNamedGroup(g) && len(secret) == 32, "no key exchange result")
				vfReach("ok")
				return
			}
			if h == s.Group {
				vfReach("invalid")
			}
		}
	}
	vfAssert(!ok, "a group without an acceptable share")
	vfReach("none")
}

// VF_C17_server: what the server answers is what the client offered first
// among what the server supports; with nothing in common it fails.
//
//vf:bounds 1 to 3 suites offered out of AES-128, AES-256, an unimplemented one; 5 server lists (one with the unimplemented suite); 1 or 2 offered versions of any value; session ID of 0, 1, 31, 32 bytes
//vf:reach ok refused
//vf:budget 60 300
func VF_C17_server() {
	all := []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384, TLS_CHACHA20_POLY1305_SHA256}
	sc := vfServerConfig()
	o := vfDefaultCH()
	suiteOK := true
	var want CipherSuite
	p := vfNewPeer(sc, false)
	var ch []byte
	versionOK, sidOK := true, true
	switch vfChoice("what", 3) {
	case 0:
		sc.CipherSuites = [][]CipherSuite{{all[0]}, {all[1]}, {all[0], all[1]}, {all[1], all[0]}, {all[2], all[1]}}[vfChoice("supported", 5)]
		o.suites = nil
		suiteOK = false
		for i := 0; i < vfChoice("offered", 3)+1; i++ {
			s := all[vfChoice("suite", 3)]
			o.suites = append(o.suites, s)
			for _, x := range sc.CipherSuites {
				if x == s && !suiteOK {
					suiteOK, want = true, s
				}
			}
		}
		// a suite that is configured but not implemented cannot be used
		if want == all[2] {
			suiteOK = false
		}
		ch = p.clientHello(o)
	case 1:
		want = all[0]
		v := []uint16{vfU16("version")}
		if vfFlag("two") {
			v = append(v, vfU16("version"))
		}
		versionOK = v[0] == 0x0304 || v[len(v)-1] == 0x0304
		ch = p.clientHelloVersions(o, v)
	case 2:
		want = all[0]
		o.sid = vfBytes("sid", []int{0, 1, 31, 32}[vfChoice("sid len", 4)])
		sidOK = len(o.sid) == 0 || len(o.sid) == 32
		ch = p.clientHello(o)
	}
	p.send(HandshakeTypeClientHello, ch)
	p.step()
	good := suiteOK && versionOK && sidOK
	if vfFatal(p.alert) {
		vfReach("refused")
		vfAssert(!good, "an acceptable offer is refused")
		vfAssert(len(p.rd.recs) == 0, "the server answers an offer it refuses")
		return
	}
	vfReach("ok")
	vfAssert(good, "an unacceptable offer is accepted")
	sid := o.sid
	body := p.rd.recs[0].frag[4:]
	vfAssert(int(body[34]) == len(sid) && vfEq(body[35:35+len(sid)], sid), "the session ID is not echoed")
	s, ok := p.recvServerHello(o)
	vfAssert(ok, "no answer")
	vfAssert(s.suite == want, "not the first acceptable suite")
	v := vfSHExts(body)[ExtensionTypeSupportedVersions]
	vfAssert(vfEq(v, []byte{3, 4}), "the selected version is not TLS 1.3")
	p.recvServerFlight(o, s)
	p.sendClientFin()
	p.step()
	vfAssert(p.connected(), "the handshake does not complete")
	vfAssert(p.ep.ConnectionState().CipherSuite.Suite == want, "another suite is reported")
}

// clientHelloVersions is clientHello with this list of versions.
func (p *vfPeer) clientHelloVersions(o *vfCH, v []uint16) []byte {
	ch := p.clientHello(o)
	old := []byte{0, 43, 0, 3, 2, 3, 4}
	vs := vfU16s(len(v), func(i int) uint16 { return v[i] })
	for i := 40; i+len(old) <= len(ch); i++ {
		if string(ch[i:i+len(old)]) == string(old) {
			// the block length precedes the extensions: name is always first
			out := vfJoin(ch[:i], vfExt(ExtensionTypeSupportedVersions, vfVec(1, vs)), ch[i+len(old):])
			d := len(out) - len(ch)
			at := 34 + 1 + len(o.sid) + 2 + 2*len(o.suites) + 2
			l := int(out[at])<<8 + int(out[at+1]) + d
			out[at], out[at+1] = byte(l>>8), byte(l)
			return out
		}
	}
	vfAssert(false, "no versions extension to replace")
	return nil
}

// VF_C17_servermode: PSK, (EC)DHE, group and application protocol the server
// answers with are the client's first choices among what the server supports.
//
//vf:bounds client modes {none, KE, DHE, DHE+KE}, server modes {default, KE, DHE}, PSK known or not, of the negotiated suite or another; shares {X25519, P-256 then X25519, none}; 0 to 2 protocols offered and supported, PSK bound to none or one of them
//vf:reach psk pskdh cert refused alpn
//vf:budget 60 300
func VF_C17_servermode() {
	sc := vfServerConfig()
	o := vfDefaultCH()
	psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
	protos := []string{"a", "b"}
	pick := func(n string) []string {
		return [][]string{nil, {"a"}, {"b", "a"}}[vfChoice(n, 3)]
	}
	o.alpn = pick("offered protocols")
	sc.NextProtos = pick("supported protocols")
	kind := vfChoice("psk", 4) // none, known, unknown, for another suite
	if kind > 0 {
		psk.NextProto = append([]string{""}, protos...)[vfChoice("psk protocol", 3)]
		psk.IsResumption = vfFlag("resumption")
		psk.TicketAgeAdd, psk.ReceivedAt = 77, vfTimeNow()
		o.age = 77
		if kind == 3 {
			psk.CipherSuite = TLS_AES_256_GCM_SHA384
		}
		if kind != 2 {
			sc.PSKs = vfPSKCache(psk, "x")
		} else {
			sc.PSKs = &PSKMapCache{}
		}
		o.psk = &psk
	}
	o.modes = [][]byte{nil, {0}, {1}, {1, 0}}[vfChoice("client modes", 4)]
	sm := vfChoice("server modes", 3)
	sc.PSKModes = [][]PSKKeyExchangeMode{nil, {PSKModeKE}, {PSKModeDHEKE}}[sm]
	o.noShare = vfFlag("noshare")
	ke, dhe := sm != 2 && (len(o.modes) == 2 || (len(o.modes) == 1 && o.modes[0] == 0)), sm != 1 && (len(o.modes) == 2 || (len(o.modes) == 1 && o.modes[0] == 1))
	p := vfNewPeer(sc, false)
	p.sendCH(o)
	p.step()
	usePSK := (kind == 1 || kind == 3) && (ke || (dhe && !o.noShare))
	useDH := !o.noShare && (!usePSK || dhe)
	ok := usePSK || useDH
	proto := ""
	for _, a := range o.alpn {
		for _, b := range sc.NextProtos {
			if proto == "" && a == b && (!usePSK || psk.NextProto == a) {
				proto = a
			}
		}
	}
	if usePSK && kind == 3 {
		ok = false // only the PSK's suite, which is not offered
	}
	if usePSK && psk.IsResumption && len(o.alpn) > 0 && proto == "" {
		ok = false
	}
	if vfFatal(p.alert) {
		vfReach("refused")
		vfAssert(!ok, "an acceptable offer is refused")
		return
	}
	vfAssert(ok, "an unacceptable offer is accepted")
	s, got := p.recvServerHello(o)
	vfAssert(got, "no answer")
	vfAssert(s.usePSK == usePSK, "the PSK is used exactly if it should be")
	vfAssert(s.useDH == useDH, "(EC)DHE is used exactly if it should be")
	p.recvServerFlight(o, s)
	e, has := s.ee[ExtensionTypeALPN]
	vfAssert(has == (proto != ""), "a protocol is selected exactly if there is one")
	if has {
		vfAssert(string(e) == string(vfVec(2, vfVec(1, []byte(proto)))), "not the first acceptable protocol")
		vfReach("alpn")
	}
	_, has = s.ee[ExtensionTypeEarlyData]
	vfAssert(!has, "early data that was not offered is accepted")
	p.sendClientFin()
	p.step()
	vfAssert(p.connected(), "the handshake does not complete")
	cs := p.ep.ConnectionState()
	vfAssert(cs.NextProto == proto && cs.UsingPSK == usePSK && !cs.UsingEarlyData, "the reported parameters differ from the negotiated ones")
	switch {
	case usePSK && useDH:
		vfReach("pskdh")
	case usePSK:
		vfReach("psk")
	default:
		vfReach("cert")
	}
}

// VF_C17_client: a client completes only with choices it offered.
//
//vf:bounds the server's legacy version, version, suite, group (16 bits each), compression method (8 bits), session ID (0, 1, 32 bytes), one or two application protocols of 1 byte each, or a CertificateVerify scheme the certificate's key can do but the client did not offer
//vf:reach ok refused
//vf:budget 60 300
func VF_C17_client() {
	cc := vfClientConfig()
	cc.CipherSuites = []CipherSuite{TLS_AES_256_GCM_SHA384, TLS_AES_128_GCM_SHA256}
	cc.NextProtos = []string{"x", "y"}
	if vfFlag("one suite") {
		cc.CipherSuites = cc.CipherSuites[1:]
	}
	what := vfChoice("what", 8)
	if what == 7 {
		cc.SignatureSchemes = []SignatureScheme{ECDSA_P384_SHA384, RSA_PSS_SHA256}
	}
	p := vfNewPeer(cc, true)
	p.step()
	p.takeShare(p.expect(HandshakeTypeClientHello))
	legacy, version, suite, group, comp := uint16(0x0303), uint16(0x0304), TLS_AES_128_GCM_SHA256, X25519, byte(0)
	sid, ee := []byte{}, []byte{}
	good := true
	switch what {
	case 0:
		legacy = vfU16("legacy")
		good = legacy == 0x0303
	case 1:
		version = vfU16("version")
		good = version == 0x0304
	case 2:
		suite = CipherSuite(vfU16("suite"))
		good = suite == TLS_AES_128_GCM_SHA256 || (len(cc.CipherSuites) == 2 && suite == TLS_AES_256_GCM_SHA384)
	case 3:
		group = NamedGroup(vfU16("group"))
		good = group == X25519
	case 4:
		comp = vfU8("compression")
		good = comp == 0
	case 5:
		sid = vfBytes("sid", []int{0, 1, 32}[vfChoice("sid len", 3)])
		good = len(sid) == 0
	case 6:
		a := vfString("protocol", 1)
		l := vfVec(1, []byte(a))
		good = a == "x" || a == "y"
		if vfFlag("two") {
			l = append(l, vfVec(1, []byte(vfString("protocol", 1)))...)
			good = false
		}
		ee = vfExt(ExtensionTypeALPN, vfVec(2, l))
	case 7:
		good = false
	}
	p.suite = suite
	exts := vfJoin(vfExt(ExtensionTypeSupportedVersions, []byte{byte(version >> 8), byte(version)}), vfKeyShareSH(group, p.pub[:]))
	p.send(HandshakeTypeServerHello, vfJoin([]byte{byte(legacy >> 8), byte(legacy)}, vfRand32(0x50), vfVec(1, sid), []byte{byte(suite >> 8), byte(suite), comp}, vfVec(2, exts)))
	p.start(suite, nil)
	p.handshake(p.dh(), p.transcript)
	p.toHS()
	p.sendEE(ee)
	p.sendCert()
	p.sendFin()
	p.step()
	if !p.connected() {
		vfReach("refused")
		vfAssert(!good, "the client refuses a choice it offered")
		vfAssert(vfFatal(p.alert), "the client neither completes nor fails")
		return
	}
	vfReach("ok")
	vfAssert(good, "the client completes with a choice it did not offer")
	cs := p.ep.ConnectionState()
	vfAssert(cs.CipherSuite.Suite == suite, "another suite is reported")
	if len(ee) > 0 {
		vfAssert(cs.NextProto == string(ee[len(ee)-1:]), "another protocol is reported")
	} else {
		vfAssert(cs.NextProto == "", "a protocol is reported that was not negotiated")
	}
}
