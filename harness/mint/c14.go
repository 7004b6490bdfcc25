package mint

import (
	"crypto/x509"
	"errors"
	"time"
)

// VF_C14_honest: a client completes with an honest server that follows the RFC
// to the letter, in every mode, and holds the secrets of the RFC key schedule.
//
//vf:bounds certificate mode, external and resumption PSK, each with and without (EC)DHE
//vf:reach cert psk pskdh
func VF_C14_honest() {
	cc := vfClientConfig()
	mode := vfChoice("mode", 3)
	dh := true
	var key []byte
	if mode > 0 {
		psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
		if mode == 2 {
			psk = vfResumptionPSK(TLS_AES_128_GCM_SHA256)
		}
		key = psk.Key
		cc.PSKs = vfPSKCache(psk, "example.com")
		dh = vfFlag("dh")
	}
	p := vfNewPeer(cc, true)
	p.serverStart(dh, key)
	p.sendEE()
	if mode == 0 {
		p.sendCert()
	}
	p.sendFin()
	p.finishServer()
	vfAssert(p.connected(), "the client does not complete with an honest server")
	vfAssert(vfEq(p.ep.state.exporterSecret, p.exp), "exporter secret")
	cs := p.ep.ConnectionState()
	vfAssert(cs.UsingPSK == (mode > 0), "UsingPSK")
	if mode == 0 {
		vfAssert(len(cs.PeerCertificates) == 1 && vfEq(cs.PeerCertificates[0].Raw, vfHex(vfServerCertHex)), "the peer certificates are not the ones the server proved")
		vfAssert(len(cs.VerifiedChains) == 1, "verified chains")
	}
	vfReach([]string{"cert", "psk", "pskdh"}[mode])
}

// vfAttackChains: the chains a server may present; good tells whether the
// verifying configuration accepts it, key is the leaf's private key.
type vfAttackChain struct {
	chain []string
	key   string
	good  bool
}

func vfAttackChains() []vfAttackChain {
	return []vfAttackChain{
		{[]string{vfServerCertHex}, vfServerKeyHex, true},
		{[]string{}, vfEvilKeyHex, false},
		{[]string{vfServerOtherCACertHex}, vfServerKeyHex, false},
		{[]string{vfServerExpiredCertHex}, vfServerKeyHex, false},
		{[]string{vfEvilNameCertHex}, vfEvilKeyHex, false},
		{[]string{vfEvilSelfCertHex}, vfEvilKeyHex, false},
		{[]string{vfEvilNameCertHex, vfServerCertHex}, vfEvilKeyHex, false},
		{[]string{vfServerOtherCACertHex, vfOtherCACertHex}, vfServerKeyHex, false},
		{[]string{vfServerCertHex, vfEvilSelfCertHex}, vfServerKeyHex, true},
	}
}

// VF_C14_certificate: with a server that knows the key exchange secrets but
// may lie in any part of its authentication, the client is connected only if
// the chain verifies, the application accepts it, the leaf key signed this
// transcript and Finished is correct; and it is connected in that case.
//
//vf:bounds 9 chains (valid, none, other CA, expired, wrong name, self-signed, mixed), signed by the server's key, an attacker's key or none; signature over the transcript hash changed by any 32-byte delta, in the server's or the client's context, under any claimed signature scheme (16 bits); Finished changed by any 32-byte delta; verification on or off, application callback absent, accepting or rejecting
//vf:reach connected skipverify callback rejected badsig badfin
//vf:budget 60 300
func VF_C14_certificate() {
	cc := vfClientConfig()
	cc.InsecureSkipVerify = vfFlag("skipverify")
	cb := vfChoice("callback", 3)
	called := false
	var seen [][]byte
	if cb > 0 {
		cc.VerifyPeerCertificate = func(raw [][]byte, chains [][]*x509.Certificate) error {
			called, seen = true, raw
			if cb == 2 {
				return errors.New("no")
			}
			return nil
		}
	}
	p := vfNewPeer(cc, true)
	p.serverStart(true, nil)
	p.sendEE()
	ac := vfAttackChains()[vfChoice("chain", len(vfAttackChains()))]
	chain := [][]byte{}
	for _, c := range ac.chain {
		chain = append(chain, vfHex(c))
	}
	p.send(HandshakeTypeCertificate, vfCertMsg(chain...))
	sigDelta := make([]byte, 32)
	alg := SignatureScheme(ECDSA_P256_SHA256)
	sigOK, finDelta := true, make([]byte, 32)
	var sig []byte
	h := vfHash(p.h, p.transcript)
	switch vfChoice("sig", 6) {
	case 0:
		sig = vfSignP256(vfKey(ac.key), vfServerContext, h)
	case 1: // somebody else's key
		k := vfEvilKeyHex
		if ac.key == k {
			k = vfClientKeyHex
		}
		sig = vfSignP256(vfKey(k), vfServerContext, h)
		sigOK = false
	case 2: // another transcript
		sigDelta = vfBytes("sigdelta", 32)
		sig = vfSignP256(vfKey(ac.key), vfServerContext, vfXor(h, sigDelta))
	case 3: // another purpose
		sig = vfSignP256(vfKey(ac.key), "TLS 1.3, client CertificateVerify", h)
		sigOK = false
	case 4: // another scheme is claimed
		alg = SignatureScheme(vfU16("alg"))
		sig = vfSignP256(vfKey(ac.key), vfServerContext, h)
	case 5: // no signature at all
		sig = []byte{}
		sigOK = false
	}
	p.send(HandshakeTypeCertificateVerify, vfCVMsg(alg, sig))
	fin := p.finished(p.sHS, p.transcript)
	if vfFlag("lie in Finished") {
		finDelta = vfBytes("findelta", 32)
		fin = vfXor(fin, finDelta)
	}
	p.send(HandshakeTypeFinished, fin)
	p.step()
	chainOK := (ac.good || cc.InsecureSkipVerify) && len(chain) > 0
	auth := vfAnd(vfAnd(chainOK && cb != 2 && sigOK, vfZero(sigDelta)), vfAnd(alg == ECDSA_P256_SHA256, vfZero(finDelta)))
	if p.connected() {
		vfReach("connected")
		vfAssert(auth, "the client completes with an unauthenticated server")
		vfAssert(cb == 0 || called, "the application's verification was not asked")
		got := p.ep.ConnectionState().PeerCertificates
		vfAssert(len(got) == len(chain), "the reported chain differs")
		for i := range chain {
			vfAssert(vfEq(got[i].Raw, chain[i]), "the reported chain differs")
			vfAssert(cb == 0 || vfEq(seen[i], chain[i]), "the application verified another chain")
		}
		vfAssert((len(p.ep.ConnectionState().VerifiedChains) > 0) == !cc.InsecureSkipVerify, "verified chains")
		if cc.InsecureSkipVerify {
			vfReach("skipverify")
		}
		if cb > 0 {
			vfReach("callback")
		}
		return
	}
	vfAssert(vfNot(auth), "the client refuses an authenticated server")
	vfAssert(vfFatal(p.alert), "the client neither completes nor fails")
	vfReach("rejected")
	if !sigOK {
		vfReach("badsig")
	} else if chainOK && cb != 2 {
		vfReach("badfin")
	}
}

// VF_C14_time: a certificate counts only while it is valid, by the clock the
// application configured.
//
//vf:bounds a certificate valid 2020-2045 and one valid in 2020 only; configured clocks in 2019, 2020, 2023, 2044 and 2046; verification on or off
//vf:reach connected early late
func VF_C14_time() {
	cc := vfClientConfig()
	cc.InsecureSkipVerify = vfFlag("skipverify")
	k := vfChoice("year", 5)
	year := []int{2019, 2020, 2023, 2044, 2046}[k]
	now := []int64{1559347200, 1590969600, 1685577600, 2348352000, 2411424000}[k]
	cc.Time = func() time.Time { return time.Unix(now, 0) }
	p := vfNewPeer(cc, true)
	p.serverStart(true, nil)
	p.sendEE()
	cert, last := vfServerCertHex, 2044
	if vfFlag("short") {
		cert, last = vfServerExpiredCertHex, 2020
	}
	p.send(HandshakeTypeCertificate, vfCertMsg(vfHex(cert)))
	p.send(HandshakeTypeCertificateVerify, vfCVMsg(ECDSA_P256_SHA256, vfSignP256(vfKey(vfServerKeyHex), vfServerContext, vfHash(p.h, p.transcript))))
	p.send(HandshakeTypeFinished, p.finished(p.sHS, p.transcript))
	p.step()
	if p.connected() {
		vfAssert(cc.InsecureSkipVerify || (year >= 2020 && year <= last), "a certificate is accepted outside its time")
		vfReach("connected")
		return
	}
	vfAssert(!cc.InsecureSkipVerify && (year < 2020 || year > last), "a certificate is refused within its time")
	if year < 2020 {
		vfReach("early")
	} else {
		vfReach("late")
	}
}

// VF_C14_psk: with a PSK, the client completes only with a server that knows
// the key (and uses it in an offered mode), or that authenticates with a
// certificate.
//
//vf:bounds external and resumption PSK; the client offers PSK-only, PSK with (EC)DHE, or both; ServerHello with and without key share, and with no PSK or any selected identity (16 bits); the server's key differs from the client's by any 16-byte delta; then it goes on as a PSK server, as a certificate server, or without any certificate
//vf:reach psk pskdh cert refused
//vf:budget 60 300
func VF_C14_psk() {
	cc := vfClientConfig()
	psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
	if vfFlag("resumption") {
		psk = vfResumptionPSK(TLS_AES_128_GCM_SHA256)
	}
	cc.PSKs = vfPSKCache(psk, "example.com")
	modes := vfChoice("modes", 3) + 1
	cc.PSKModes = []PSKKeyExchangeMode{}
	if modes&1 != 0 {
		cc.PSKModes = append(cc.PSKModes, PSKModeKE)
	}
	if modes&2 != 0 {
		cc.PSKModes = append(cc.PSKModes, PSKModeDHEKE)
	}
	p := vfNewPeer(cc, true)
	p.step()
	p.takeShare(p.expect(HandshakeTypeClientHello))
	exts := [][]byte{vfVersionSH}
	var dh, key []byte
	useDH, usePSK := vfFlag("dh"), vfFlag("psk")
	if useDH {
		exts = append(exts, vfKeyShareSH(X25519, p.pub[:]))
		dh = p.dh()
	}
	id := uint16(0)
	delta := make([]byte, len(psk.Key))
	if usePSK {
		id = vfU16("identity")
		exts = append(exts, vfExt(ExtensionTypePreSharedKey, []byte{byte(id >> 8), byte(id)}))
		if vfFlag("other key") {
			delta = vfBytes("delta", len(psk.Key))
		}
		key = vfXor(psk.Key, delta)
	}
	p.send(HandshakeTypeServerHello, p.serverHello(vfRand32(0x50), p.suite, exts...))
	p.start(p.suite, key)
	p.handshake(dh, p.transcript)
	p.toHS()
	p.sendEE()
	sendsCert := vfFlag("cert")
	if sendsCert {
		p.sendCert()
	}
	p.sendFin()
	p.step()
	authPSK := vfAnd(usePSK && !sendsCert && ((useDH && modes&2 != 0) || (!useDH && modes&1 != 0)), vfAnd(id == 0, vfZero(delta)))
	authCert := !usePSK && useDH && sendsCert
	if p.connected() {
		vfAssert(vfOr(authPSK, authCert), "the client completes with an unauthenticated server")
		cs := p.ep.ConnectionState()
		vfAssert(cs.UsingPSK == usePSK, "UsingPSK is wrong")
		vfAssert((len(cs.PeerCertificates) > 0) == sendsCert, "the reported certificates are not what the server proved")
		if sendsCert {
			vfReach("cert")
		} else if useDH {
			vfReach("pskdh")
		} else {
			vfReach("psk")
		}
		return
	}
	vfAssert(vfNot(vfOr(authPSK, authCert)), "the client refuses an authenticated server")
	vfReach("refused")
}

// VF_C14_order: no part of the server's authentication can be left out,
// repeated or reordered, even by a server that knows all secrets.
//
//vf:bounds certificate and PSK modes; every sequence of up to 5 (thorough: 6) messages out of EncryptedExtensions, CertificateRequest, Certificate, CertificateVerify, Finished, each correct for the transcript so far
//vf:reach cert psk clientauth refused
//vf:budget 60 300
func VF_C14_order() {
	cc := vfClientConfig()
	var key []byte
	if vfFlag("psk") {
		psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
		key = psk.Key
		cc.PSKs = vfPSKCache(psk, "example.com")
	}
	p := vfNewPeer(cc, true)
	p.serverStart(true, key)
	order := ""
	for i := 0; i < vfParam("messages", 5, 6); i++ {
		switch vfChoice("message", 5) {
		case 0:
			order += "E"
			p.sendEE()
		case 1:
			order += "R"
			p.send(HandshakeTypeCertificateRequest, vfJoin([]byte{0}, vfVec(2, vfExt(ExtensionTypeSignatureAlgorithms, []byte{0, 2, 4, 3}))))
		case 2:
			order += "C"
			p.send(HandshakeTypeCertificate, vfCertMsg(vfHex(vfServerCertHex)))
		case 3:
			order += "V"
			p.send(HandshakeTypeCertificateVerify, vfCVMsg(ECDSA_P256_SHA256, vfSignP256(vfKey(vfServerKeyHex), vfServerContext, vfHash(p.h, p.transcript))))
		case 4:
			order += "F"
			p.send(HandshakeTypeFinished, p.finished(p.sHS, p.transcript))
		}
		p.step()
		if p.connected() {
			vfAssert((key == nil && (order == "ECVF" || order == "ERCVF")) || (key != nil && order == "EF"), "the client completes after a wrong sequence of messages")
			if key != nil {
				vfReach("psk")
			} else if order == "ERCVF" {
				vfReach("clientauth")
			} else {
				vfReach("cert")
			}
			return
		}
		vfAssert(order != "ECVF" && order != "ERCVF" || key != nil, "the client refuses the right sequence")
		if vfFatal(p.alert) {
			vfReach("refused")
			return
		}
	}
	vfStop()
}
