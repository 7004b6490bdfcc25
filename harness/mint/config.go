package mint

import "crypto/x509"

// vfSnapshot holds a copy of everything an application can set in a Config.
type vfSnapshot struct {
	name                                       string
	tickets, early, cookie, auth, skip, nb, dt bool
	lifetime, earlyLifetime                    uint32
	ticketLen                                  int
	suites, groups, schemes                    []uint16
	protos                                     []string
	modes                                      []byte
	certs                                      []*Certificate
	chains                                     [][]*x509.Certificate
	roots                                      *x509.CertPool
	psks                                       PreSharedKeyCache
	pskMap                                     map[string]PreSharedKey
	handler                                    CookieHandler
	protector                                  CookieProtector
	ext                                        AppExtensionHandler
	factory                                    RecordLayerFactory
	time, verify                               bool
}

func vfSnap(c *Config) *vfSnapshot {
	s := &vfSnapshot{
		name: c.ServerName, tickets: c.SendSessionTickets, early: c.AllowEarlyData, cookie: c.RequireCookie, auth: c.RequireClientAuth,
		skip: c.InsecureSkipVerify, nb: c.NonBlocking, dt: c.UseDTLS, lifetime: c.TicketLifetime, earlyLifetime: c.EarlyDataLifetime,
		ticketLen: c.TicketLen, roots: c.RootCAs, psks: c.PSKs, handler: c.CookieHandler, protector: c.CookieProtector, ext: c.ExtensionHandler,
		factory: c.RecordLayer, time: c.Time != nil, verify: c.VerifyPeerCertificate != nil,
	}
	for _, x := range c.CipherSuites {
		s.suites = append(s.suites, uint16(x))
	}
	for _, x := range c.Groups {
		s.groups = append(s.groups, uint16(x))
	}
	for _, x := range c.SignatureSchemes {
		s.schemes = append(s.schemes, uint16(x))
	}
	for _, x := range c.PSKModes {
		s.modes = append(s.modes, byte(x))
	}
	for _, x := range c.Certificates {
		s.certs = append(s.certs, x)
		s.chains = append(s.chains, append([]*x509.Certificate{}, x.Chain...))
	}
	s.protos = append(s.protos, c.NextProtos...)
	s.pskMap = map[string]PreSharedKey{}
	if m, ok := c.PSKs.(*PSKMapCache); ok && m != nil {
		for k, v := range *m {
			s.pskMap[k] = v
		}
	}
	return s
}

func vfSameU16(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vfAnd(ok, a[i] == b[i])
	}
	return ok
}

// same: no setting differs; entries that were added to the session cache are
// not settings.
func (s *vfSnapshot) same(t *vfSnapshot, what string) {
	vfAssert(vfEqS(s.name, t.name), what+": ServerName")
	vfAssert(vfAnd(s.tickets == t.tickets, s.early == t.early), what+": SendSessionTickets or AllowEarlyData")
	vfAssert(vfAnd(s.cookie == t.cookie, s.auth == t.auth), what+": RequireCookie or RequireClientAuth")
	vfAssert(s.skip == t.skip, what+": InsecureSkipVerify")
	vfAssert(vfAnd(s.nb == t.nb, s.dt == t.dt), what+": NonBlocking or UseDTLS")
	vfAssert(vfAnd(s.lifetime == t.lifetime, s.earlyLifetime == t.earlyLifetime), what+": TicketLifetime or EarlyDataLifetime")
	vfAssert(s.ticketLen == t.ticketLen, what+": TicketLen")
	vfAssert(vfSameU16(s.suites, t.suites), what+": CipherSuites")
	vfAssert(vfSameU16(s.groups, t.groups), what+": Groups")
	vfAssert(vfSameU16(s.schemes, t.schemes), what+": SignatureSchemes")
	vfAssert(vfEq2(s.modes, t.modes), what+": PSKModes")
	ok := len(s.protos) == len(t.protos)
	for i := 0; ok && i < len(s.protos); i++ {
		ok = vfEqS(s.protos[i], t.protos[i])
	}
	vfAssert(ok, what+": NextProtos")
	ok = len(s.certs) == len(t.certs)
	for i := 0; ok && i < len(s.certs); i++ {
		ok = s.certs[i] == t.certs[i] && len(s.chains[i]) == len(t.chains[i])
		for j := 0; ok && j < len(s.chains[i]); j++ {
			ok = s.chains[i][j] == t.chains[i][j]
		}
	}
	vfAssert(ok, what+": Certificates")
	vfAssert(s.roots == t.roots && s.psks == t.psks, what+": RootCAs or PSKs")
	vfAssert(s.handler == t.handler && s.protector == t.protector, what+": CookieHandler or CookieProtector")
	vfAssert(s.ext == t.ext && s.factory == t.factory, what+": ExtensionHandler or RecordLayer")
	vfAssert(s.time == t.time && s.verify == t.verify, what+": Time or VerifyPeerCertificate")
}

// kept: the session cache still holds what it held.
func (s *vfSnapshot) kept(t *vfSnapshot) {
	for k, v := range s.pskMap {
		w, ok := t.pskMap[k]
		vfAssert(ok && vfEq2(v.Identity, w.Identity) && vfEq2(v.Key, w.Key) && v.CipherSuite == w.CipherSuite, "a stored session is changed or removed")
	}
}

func vfUnchanged(c *Config, want *vfSnapshot, who string) {
	got := vfSnap(c)
	if len(want.pskMap) == 0 {
		want.psks = got.psks // possibly a new empty cache
	}
	want.same(got, who)
	want.kept(got)
}
