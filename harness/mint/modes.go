package mint

// vfModes are the handshakes whose secrets are compared.
type vfModes struct {
	suite                  CipherSuite
	psk, resumption, dh    bool
	retry, auth, early, ok bool
}

func vfChooseMode() vfModes {
	m := vfModes{suite: []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}[vfChoice("suite", 2)], dh: true}
	switch vfChoice("mode", 3) {
	case 0:
		m.auth = vfFlag("auth")
	case 1:
		m.psk, m.dh = true, false
	case 2:
		m.psk = true
	}
	if m.psk {
		m.resumption = vfFlag("resumption")
	}
	m.retry = vfFlag("retry")
	if m.psk && !m.retry {
		m.early = vfFlag("early")
	}
	return m
}

func (m vfModes) key() PreSharedKey {
	if m.resumption {
		return vfResumptionPSK(m.suite)
	}
	return vfTestPSK(m.suite)
}

func (m vfModes) reach() {
	switch {
	case m.psk && m.dh:
		vfReach("pskdh")
	case m.psk:
		vfReach("psk")
	case m.auth:
		vfReach("auth")
	default:
		vfReach("cert")
	}
	if m.retry {
		vfReach("retry")
	}
	if m.early {
		vfReach("early")
	}
}

// configs returns configurations of a client and a server for this handshake.
func (m vfModes) configs() (*Config, *Config) {
	cc, sc := vfClientConfig(), vfServerConfig()
	cc.CipherSuites, sc.CipherSuites = []CipherSuite{m.suite}, []CipherSuite{m.suite}
	cc.Certificates = []*Certificate{vfClientCert()}
	sc.RequireClientAuth = m.auth
	if m.psk {
		psk := m.key()
		cc.PSKs, sc.PSKs = vfPSKCache(psk, "example.com"), vfPSKCache(psk, "x")
		cc.PSKModes = []PSKKeyExchangeMode{PSKModeKE}
		if m.dh {
			cc.PSKModes = []PSKKeyExchangeMode{PSKModeDHEKE}
		}
	}
	if m.retry {
		sc.RequireCookie = true
		cp, err := NewDefaultCookieProtector()
		vfAssert(err == nil, "no cookie protector")
		sc.CookieProtector = cp
	}
	cc.AllowEarlyData, sc.AllowEarlyData = m.early, m.early
	return cc, sc
}
