package mint

import "crypto/x509"

// vfConfigs is a pair of configurations, and what should come of it.
type vfConfigs struct {
	cc, sc      *Config
	psk         *PreSharedKey // the client's
	known, same bool          // the server knows the identity, and the same key
	cookie      bool
}

var vfBothSuites = []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}

func vfSuiteHash(s CipherSuite) int {
	if s == TLS_AES_256_GCM_SHA384 {
		return 48
	}
	return 32
}

// vfFit is what the rules make of two configurations.
type vfFit struct {
	ok          bool
	suite       CipherSuite
	psk, dh     bool
	group       NamedGroup
	cert        *Certificate // the server's
	auth        bool
	clientCert  *Certificate
	proto       string
	early, sent bool
}

func vfSchemeOf(c *Certificate) SignatureScheme {
	for i, h := range []string{vfServerCertHex, vfServer384CertHex, vfServerOrgCertHex, vfClientCertHex} {
		if string(c.Chain[0].Raw) == string(vfHex(h)) {
			return []SignatureScheme{ECDSA_P256_SHA256, ECDSA_P384_SHA384, ECDSA_P256_SHA256, ECDSA_P256_SHA256}[i]
		}
	}
	vfAssert(false, "an unknown certificate")
	return 0
}

func vfPickCert(certs []*Certificate, name string, schemes []SignatureScheme) *Certificate {
	if schemes == nil {
		schemes = []SignatureScheme{ECDSA_P256_SHA256, ECDSA_P384_SHA384}
	}
	for _, c := range certs {
		if name != "" && c.Chain[0].DNSNames[0] != name {
			continue
		}
		for _, s := range schemes {
			if s == vfSchemeOf(c) {
				return c
			}
		}
	}
	return nil
}

// outcome is determined from what was configured, before defaults are filled in.
func (s *vfConfigs) outcome() vfFit {
	var r vfFit
	cs, ss := s.cc.CipherSuites, s.sc.CipherSuites
	if cs == nil {
		cs = vfBothSuites
	}
	if ss == nil {
		ss = vfBothSuites
	}
	offered := false
	if s.psk != nil {
		// only suites with the hash of the key are offered along with it
		var l []CipherSuite
		for _, x := range cs {
			if vfSuiteHash(x) == vfSuiteHash(s.psk.CipherSuite) {
				l = append(l, x)
			}
		}
		if len(l) > 0 {
			offered, cs = true, l
		}
	}
	can := false
	for _, g := range s.cc.Groups {
		for _, h := range s.sc.Groups {
			if !can && g == h {
				can, r.group = true, g
			}
		}
	}
	both := []PSKKeyExchangeMode{PSKModeKE, PSKModeDHEKE}
	cm, sm := s.cc.PSKModes, s.sc.PSKModes
	if cm == nil {
		cm = both
	}
	if sm == nil {
		sm = both
	}
	ke, dhe := false, false
	for _, a := range cm {
		for _, b := range sm {
			ke = ke || (a == b && a == PSKModeKE)
			dhe = dhe || (a == b && a == PSKModeDHEKE)
		}
	}
	if offered && s.known && !s.same {
		return r // the binder is wrong
	}
	r.psk = offered && s.known && (ke || (dhe && can))
	r.dh = can && (!r.psk || dhe)
	if !r.psk && !r.dh {
		return r
	}
	found := false
	for _, a := range cs {
		for _, b := range ss {
			if !found && a == b && (!r.psk || a == s.psk.CipherSuite) {
				found, r.suite = true, a
			}
		}
	}
	if !found {
		return r
	}
	if !r.psk {
		name := s.cc.ServerName
		r.cert = vfPickCert(s.sc.Certificates, name, s.cc.SignatureSchemes)
		if r.cert == nil {
			return r
		}
		r.auth = s.sc.RequireClientAuth
		if r.auth {
			r.clientCert = vfPickCert(s.cc.Certificates, "", s.sc.SignatureSchemes)
		}
	}
	for _, a := range s.cc.NextProtos {
		for _, b := range s.sc.NextProtos {
			if r.proto == "" && a == b && (!r.psk || a == s.psk.NextProto) {
				r.proto = a
			}
		}
	}
	if r.psk && s.psk.IsResumption && len(s.cc.NextProtos) > 0 && r.proto == "" {
		return r
	}
	r.sent = offered && s.cc.AllowEarlyData
	r.early = r.sent && r.psk && s.sc.AllowEarlyData && !s.cookie
	r.ok = true
	return r
}

// withPSK gives the client a key, which the server knows, does not know, or
// knows otherwise.
func (s *vfConfigs) withPSK(psk PreSharedKey) {
	s.psk = &psk
	s.cc.PSKs = vfPSKCache(psk, "example.com")
	switch vfChoice("server's key", 3) {
	case 0:
		s.known, s.same = true, true
		s.sc.PSKs = vfPSKCache(psk, "x")
	case 1:
		s.sc.PSKs = &PSKMapCache{}
	case 2:
		s.known = true
		other := psk
		d := vfBytes("key delta", len(psk.Key))
		zero := true
		for _, x := range d {
			zero = vfAnd(zero, x == 0)
		}
		vfAssume(vfNot(zero))
		other.Key = vfXor(psk.Key, d)
		s.sc.PSKs = vfPSKCache(other, "x")
	}
}

func vfSameChain(a []*x509.Certificate, c *Certificate) bool {
	if c == nil {
		return len(a) == 0
	}
	return len(a) == len(c.Chain) && string(a[0].Raw) == string(c.Chain[0].Raw)
}

// check runs the handshake.
func (s *vfConfigs) check() {
	s.cookie = vfFlag("cookie")
	if s.cookie {
		cp, err := NewDefaultCookieProtector()
		vfAssert(err == nil, "no cookie protector")
		s.sc.RequireCookie, s.sc.CookieProtector = true, cp
		vfReach("cookie")
	}
	if vfFlag("dtls") {
		if s.cc.AllowEarlyData {
			vfStop()
		}
		s.cc.UseDTLS, s.sc.UseDTLS = true, true
		vfReach("dtls")
	}
	r := s.outcome()
	p := vfNewPair(s.cc, s.sc)
	none := p.client.ConnectionState()
	vfAssert(none.CipherSuite.Suite == 0 && none.PeerCertificates == nil && none.VerifiedChains == nil && none.NextProto == "" && !none.UsingPSK && !none.UsingEarlyData, "a connection state before the handshake")
	p.run()
	ends := []*Conn{p.client, p.server}
	if !r.ok {
		vfReach("refused")
		vfAssert(!vfConnected(p.client) && !vfConnected(p.server), "connected although the configurations do not fit")
		vfAssert(vfFatal(p.ca) || vfFatal(p.sa), "neither end reports that the configurations do not fit")
		for _, c := range ends {
			cs := c.ConnectionState()
			vfAssert(cs.CipherSuite.Suite == 0 && cs.PeerCertificates == nil && cs.VerifiedChains == nil && cs.NextProto == "" && !cs.UsingPSK && !cs.UsingEarlyData, "a connection state of a failed handshake")
		}
		return
	}
	vfAssert(p.ok(), "configurations that fit do not connect")
	vfReach("connected")
	for i, c := range ends {
		cs := c.ConnectionState()
		vfAssert(cs.HandshakeState == []State{StateClientConnected, StateServerConnected}[i], "the handshake state")
		vfAssert(cs.CipherSuite.Suite == r.suite, "the cipher suite is not the client's first that both can use")
		vfAssert(cs.UsingPSK == r.psk, "the pre-shared key is used exactly if it can be")
		vfAssert(cs.NextProto == r.proto, "the application protocol")
		vfAssert(cs.UsingEarlyData == r.early, "early data is accepted exactly if both allow it")
		vfAssert(c.state.Params.UsingDH == r.dh, "(EC)DHE is used exactly if it can be")
		want := r.cert
		if i == 1 {
			want = r.clientCert
		}
		vfAssert(vfSameChain(cs.PeerCertificates, want), "the peer's certificates")
		vfAssert((len(cs.VerifiedChains) > 0) == (i == 0 && want != nil), "the verified chains")
	}
	if r.psk {
		vfReach("psk")
	} else {
		vfReach("cert")
	}
	if r.early {
		vfReach("early")
	}
	if r.clientCert != nil {
		vfReach("auth")
	} else if r.auth {
		vfReach("anonymous")
	}
	if r.proto != "" {
		vfReach("alpn")
	}
	a, err := p.client.ComputeExporter("label", nil, 16)
	b, err2 := p.server.ComputeExporter("label", nil, 16)
	vfAssert(err == nil && err2 == nil && vfEq2(a, b), "the ends do not share a secret")
	for i, c := range ends {
		n, err := c.Write([]byte("data"))
		vfAssert(n == 4 && err == nil, "Write")
		buf := make([]byte, 8)
		n, err = ends[1-i].Read(buf)
		for j := 0; j < 4 && err == AlertWouldBlock; j++ {
			n, err = ends[1-i].Read(buf)
		}
		vfAssert(err == nil && string(buf[:n]) == "data", "data is not delivered")
	}
}

func vfNewConfigs() *vfConfigs { return &vfConfigs{cc: vfClientConfig(), sc: vfServerConfig()} }

var vfSuiteLists = [][]CipherSuite{nil, {TLS_AES_128_GCM_SHA256}, {TLS_AES_256_GCM_SHA384}, {TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}, {TLS_AES_256_GCM_SHA384, TLS_AES_128_GCM_SHA256}}

// VF_C37_suites: suites and pre-shared keys.
//
//vf:bounds TLS and DTLS, with or without a retry; each end's suites: default, AES-128, AES-256, both in either order; no PSK, an external or a resumption one of either suite, which the server knows, does not know, or knows with a key that differs by any difference
//vf:reach connected refused psk cert cookie dtls
//vf:budget 60 300
func VF_C37_suites() {
	s := vfNewConfigs()
	s.cc.CipherSuites = vfSuiteLists[vfChoice("client suites", 5)]
	s.sc.CipherSuites = vfSuiteLists[vfChoice("server suites", 5)]
	if k := vfChoice("psk", 3); k > 0 {
		psk := vfTestPSK(vfBothSuites[k-1])
		if vfParam("resumption", 0, 1) == 1 && vfFlag("resumption") {
			psk = vfResumptionPSK(vfBothSuites[k-1])
		}
		s.withPSK(psk)
	}
	s.check()
}

// VF_C37_groups: groups and modes of key exchange.
//
//vf:bounds TLS and DTLS, with or without a retry; each end's groups: X25519, P-256, both in either order; a known PSK or none; each end's modes: default, KE, DHE, DHE and KE
//vf:reach connected refused psk cert cookie dtls
//vf:budget 60 300
func VF_C37_groups() {
	s := vfNewConfigs()
	groups := [][]NamedGroup{{X25519}, {P256}, {X25519, P256}, {P256, X25519}}
	s.cc.Groups = groups[vfChoice("client groups", 4)]
	s.sc.Groups = groups[vfChoice("server groups", 4)]
	if vfFlag("psk") {
		modes := [][]PSKKeyExchangeMode{nil, {PSKModeKE}, {PSKModeDHEKE}, {PSKModeDHEKE, PSKModeKE}}
		s.cc.PSKModes = modes[vfChoice("client modes", 4)]
		s.sc.PSKModes = modes[vfChoice("server modes", 4)]
		psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
		s.psk = &psk
		s.known, s.same = true, true
		s.cc.PSKs, s.sc.PSKs = vfPSKCache(psk, "example.com"), vfPSKCache(psk, "x")
	}
	s.check()
}

var vfSchemeLists = [][]SignatureScheme{nil, {ECDSA_P256_SHA256}, {ECDSA_P384_SHA384}, {RSA_PSS_SHA256}, {ECDSA_P384_SHA384, ECDSA_P256_SHA256}, {ECDSA_P521_SHA512, ECDSA_P256_SHA256}}

// VF_C37_certificates: certificates, names, signature schemes, client
// authentication.
//
//vf:bounds TLS and DTLS, with or without a retry; the server has a P-256 certificate for the name, a P-384 one, one for another name, two of these in any order; 6 lists of the client's schemes; client authentication or not, with a P-256, a P-384 certificate, both or none and 6 lists of the server's schemes; a PSK or none
//vf:reach connected refused psk cert auth anonymous cookie dtls
//vf:budget 60 300
func VF_C37_certificates() {
	s := vfNewConfigs()
	p256, p384, org := vfServerCert(), vfCertificate(vfServer384CertHex, vfServer384KeyHex), vfCertificate(vfServerOrgCertHex, vfServerOrgKeyHex)
	if vfFlag("auth") {
		s.sc.RequireClientAuth = true
		s.sc.SignatureSchemes = vfSchemeLists[vfChoice("server schemes", len(vfSchemeLists))]
		c := vfClientCert()
		s.cc.Certificates = [][]*Certificate{nil, {c}, {p384}, {p384, c}, {c, p384}}[vfChoice("client certificates", 5)]
	} else {
		s.cc.SignatureSchemes = vfSchemeLists[vfChoice("client schemes", len(vfSchemeLists))]
		s.sc.Certificates = [][]*Certificate{{p256}, {p384}, {org}, {p256, p384}, {p384, p256}, {org, p256}}[vfChoice("server certificates", 6)]
	}
	if vfFlag("psk") {
		psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
		s.psk = &psk
		s.known, s.same = true, true
		s.cc.PSKs, s.sc.PSKs = vfPSKCache(psk, "example.com"), vfPSKCache(psk, "x")
	}
	s.check()
}

// VF_C37_protocols: application protocols and early data.
//
//vf:bounds TLS and DTLS (no early data), with or without a retry; 0 to 2 protocols of 1 byte of any value at the client, 0 or 1 at the server; no PSK, or an external or resumption one, bound to no protocol or one of any byte, which the server knows, does not know, or knows otherwise; early data allowed or not by each end
//vf:reach connected refused psk cert alpn early cookie dtls
//vf:budget 60 300
func VF_C37_protocols() {
	s := vfNewConfigs()
	for i := vfChoice("client protocols", 3); i > 0; i-- {
		s.cc.NextProtos = append(s.cc.NextProtos, vfString("c", 1))
	}
	if vfFlag("server protocols") {
		s.sc.NextProtos = []string{vfString("s", 1)}
	}
	if vfFlag("psk") {
		psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
		if vfFlag("resumption") {
			psk = vfResumptionPSK(TLS_AES_128_GCM_SHA256)
		}
		if vfFlag("bound") {
			psk.NextProto = vfString("p", 1)
		}
		s.cc.AllowEarlyData = vfFlag("client early")
		s.sc.AllowEarlyData = vfFlag("server early")
		s.withPSK(psk)
	}
	s.check()
}
