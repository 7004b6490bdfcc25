package mint

import (
	"crypto/x509"
	"errors"
	"net"
	"time"
)

// vfServing is a server that is reached by dialing host: the far end of the
// connection, which goes on when the client reads. One of its records is
// broken, or it is silent for longer than limit after so many.
func vfServing(network, host string, sc *Config, broken, silent int, limit time.Duration) (p *vfPair, addr string, done func()) {
	p = &vfPair{ca: AlertNoAlert, sa: AlertNoAlert}
	p.cw, p.sw = vfPipe(sc.UseDTLS)
	p.server = Server(p.sw, sc)
	n := 0
	p.cw.pull = func() {
		for i := 0; i < 12 && len(p.cw.r.pkts) == 0 && !vfFatal(p.sa) && !vfConnected(p.server); i++ {
			p.sa = p.server.Handshake()
		}
		p.cw.gone = vfFatal(p.sa)
		for i := range p.cw.r.pkts {
			if n++; n == broken {
				// the last byte of this record is changed
				q := p.cw.r.pkts[i]
				q[len(q)-1] ^= byte(1 + vfU8("change")%255)
			}
			if silent >= 0 && n > silent {
				p.cw.r.pkts = p.cw.r.pkts[:i]
				time.Sleep(2 * limit)
				break
			}
		}
	}
	addr, done = vfServe(network, host, p.cw)
	return
}

// VF_C34_dial: Dial succeeds only with a server that proves to be the one the
// configuration names, or else the one that was dialed, and leaves the
// configuration as it was.
//
//vf:bounds two connections with one configuration to any two of 4 hosts (example.com, two names and a wildcard match of another certificate, an unknown one), each served with either of two certificates; the server name unset or set; verification on or off; without or with a time limit (that does not run out); an honest server, or one whose 1st to 5th (thorough 8th) record is changed by one byte (any other value); stream sockets
//vf:outside name resolution and what the system's sockets do (a model connects the client with the server under test); a nil configuration (system roots)
//vf:reach ok refused inferred named insecure limit broken
//vf:budget 60 300
func VF_C34_dial() {
	hosts := []string{"example.com", "other.example", "a.wild.example", "example.net"}
	valid := func(cert int, name string) bool {
		if cert == 0 {
			return name == "example.com"
		}
		return name == "other.example" || name == "a.wild.example"
	}
	certs := []*Certificate{vfServerCert(), vfCertificate(vfServerOrgCertHex, vfServerOrgKeyHex)}
	cc := vfBlockingConfig(vfClientConfig())
	cc.ServerName = ""
	name := vfChoice("name", 3)
	if name > 0 {
		cc.ServerName = hosts[name-1]
		vfReach("named")
	} else {
		vfReach("inferred")
	}
	cc.InsecureSkipVerify = vfFlag("insecure")
	dialer := &net.Dialer{}
	if vfFlag("limit") {
		dialer.Timeout = time.Hour
		vfReach("limit")
	}
	broken := vfChoice("broken", vfParam("broken", 6, 9))
	before := vfSnap(cc)
	for i := 0; i < 2; i++ {
		host := hosts[vfChoice("host", len(hosts))]
		cert := vfChoice("cert", 2)
		if broken > 0 && (i == 1 || !valid(cert, host) || name > 0) {
			if i == 1 {
				break
			}
			vfStop()
		}
		sc := vfServerConfig()
		// the server presents its certificate whatever name it is asked for
		leaf := *certs[cert].Chain[0]
		leaf.DNSNames = hosts
		sc.Certificates = []*Certificate{{Chain: []*x509.Certificate{&leaf}, PrivateKey: certs[cert].PrivateKey}}
		p, addr, done := vfServing("unix", host, sc, broken, -1, 0)
		c, err := DialWithDialer(dialer, "unix", addr, cc)
		want := host
		if name > 0 {
			want = hosts[name-1]
		}
		if err == nil {
			vfAssert(c != nil && vfConnected(c), "a dialed connection is not connected")
			vfAssert(cc.InsecureSkipVerify || valid(cert, want), "a dialed connection is with a server that has not proved its name")
			vfAssert(c.ConnectionState().PeerCertificates[0].Equal(certs[cert].Chain[0]), "the peer's certificate")
			vfReach("ok")
			n, e := c.Write([]byte("hello"))
			vfAssert(n == 5 && e == nil, "a dialed connection cannot write")
			c.Close()
		} else {
			vfAssert(c == nil, "a connection is returned with an error")
			vfReach("refused")
		}
		done()
		if broken == 0 {
			vfAssert((err == nil) == (cc.InsecureSkipVerify || valid(cert, want)), "dialing an honest server fails")
		} else if !vfConnected(p.server) {
			vfReach("broken")
		}
		vfAssert(p.cw.closed, "the transport is left open")
		if err == nil {
			b := make([]byte, 10)
			for j := 0; j < 4 && !vfConnected(p.server); j++ {
				p.server.Handshake()
			}
			n, _ := p.server.Read(b)
			vfAssert(vfEq2(b[:n], []byte("hello")), "what a dialed connection writes does not arrive")
			vfAssert(vfEqS(p.server.state.Params.ServerName, want), "the server is told another name")
		}
		vfUnchanged(cc, before, "dialing changes the configuration")
		if cc.InsecureSkipVerify {
			vfReach("insecure")
		}
	}
	nb := vfClientConfig()
	c, err := DialWithDialer(dialer, "unix", "nowhere:1", nb)
	vfAssert(c == nil && err != nil, "dialing without blocking")
}

// VF_C34_limit: a time limit given in the dialer applies to the handshake too.
//
//vf:bounds a server that sends nothing more after 0 to 6 records; a time limit, a deadline, or both with either first
//vf:outside a time limit that runs out while the system connects
//vf:reach limit deadline both done
func VF_C34_limit() {
	// a deadline is in the future for the system too when this is replayed
	vfAdvance(uint64(30 * 365 * 24 * time.Hour))
	limit := 200 * time.Millisecond
	dialer := &net.Dialer{}
	switch vfChoice("kind", 4) {
	case 0:
		dialer.Timeout = limit
		vfReach("limit")
	case 1:
		dialer.Deadline = vfTimeNow().Add(limit)
		vfReach("deadline")
	case 2:
		dialer.Timeout = limit
		dialer.Deadline = vfTimeNow().Add(time.Hour)
		vfReach("both")
	case 3:
		dialer.Timeout = time.Hour
		dialer.Deadline = vfTimeNow().Add(limit)
	}
	silent := vfChoice("silent", 7)
	p, addr, done := vfServing("unix", "example.com", vfServerConfig(), 0, silent, limit)
	cc := vfBlockingConfig(vfClientConfig())
	cc.InsecureSkipVerify = true
	start := vfTimeNow()
	c, err := DialWithDialer(dialer, "unix", addr, cc)
	if c != nil {
		vfAssert(err == nil && vfConnected(c), "a dialed connection is not connected")
		c.Close()
		vfReach("done")
	} else {
		e, ok := err.(net.Error)
		vfAssert(ok && e.Timeout(), "a server that stays silent is not a timeout")
		vfAssert(vfTimeNow().Sub(start) <= limit, "the time limit is exceeded")
	}
	done()
	vfAssert(p.cw.closed, "the transport is left open")
	vfAssert((c != nil) == (silent >= 5), "a time limit that does not run out, or one that does")
}

// VF_C34_datagram: dialing over UDP runs DTLS, whatever the configuration says.
//
//vf:bounds the networks udp and udp4; UseDTLS set or not; without or with a time limit; the server's certificate valid or not for the name set
//vf:outside loss (there are no timeouts in blocking mode)
//vf:reach ok refused
func VF_C34_datagram() {
	network := []string{"udp", "udp4"}[vfChoice("network", 2)]
	sc := vfServerConfig()
	sc.UseDTLS = true
	p, addr, done := vfServing(network, "127.0.0.1", sc, 0, -1, 0)
	cc := vfBlockingConfig(vfClientConfig())
	cc.UseDTLS = vfFlag("dtls")
	right := vfFlag("right")
	if !right {
		leaf := *sc.Certificates[0].Chain[0]
		leaf.DNSNames = []string{"example.net"}
		sc.Certificates = []*Certificate{{Chain: []*x509.Certificate{&leaf}, PrivateKey: sc.Certificates[0].PrivateKey}}
		cc.ServerName = "example.net"
	}
	dialer := &net.Dialer{}
	if vfFlag("limit") {
		dialer.Timeout = time.Hour
	}
	before := vfSnap(cc)
	c, err := DialWithDialer(dialer, network, addr, cc)
	vfAssert((err == nil) == right && (c == nil) == (err != nil), "dialing a DTLS server")
	if err == nil {
		vfAssert(vfConnected(c) && c.ConnectionState().PeerCertificates[0].Equal(sc.Certificates[0].Chain[0]), "connected")
		n, e := c.Write([]byte("hello"))
		vfAssert(n == 5 && e == nil, "a dialed connection cannot write")
		c.Close()
		vfReach("ok")
	} else {
		vfReach("refused")
	}
	done()
	vfUnchanged(cc, before, "dialing changes the configuration")
	if err == nil {
		for j := 0; j < 4 && !vfConnected(p.server); j++ {
			p.server.Handshake()
		}
		b := make([]byte, 10)
		n, _ := p.server.Read(b)
		vfAssert(vfEq2(b[:n], []byte("hello")), "what a dialed connection writes does not arrive")
	}
}

type vfListener struct {
	net.Listener
	next []net.Conn
	err  error
}

func (l *vfListener) Accept() (net.Conn, error) {
	if len(l.next) == 0 {
		return nil, l.err
	}
	c := l.next[0]
	l.next = l.next[1:]
	return c, nil
}

// VF_C34_listener: Accept hands out, without an error, exactly the connections
// of the clients that complete the handshake, whatever became of others.
//
//vf:bounds two clients (thorough: three), one after the other: each honest with a certificate or without, one that does not trust the server, one whose 1st or 2nd record is changed by one byte (any other value), one that says nothing or goes away after its first record; client authentication required or not (the application refuses those without a certificate, or does not); then an error of the inner listener
//vf:outside the system's own sockets
//vf:reach accepted authenticated anonymous refused error
//vf:budget 60 300
func VF_C34_listener() {
	sc := vfBlockingConfig(vfServerConfig())
	sc.RequireClientAuth = vfFlag("auth")
	leaf := *sc.Certificates[0].Chain[0]
	leaf.DNSNames = []string{"example.com", "example.net"}
	sc.Certificates[0].Chain[0] = &leaf
	vfAssert(sc.Init(false) == nil, "the configuration")
	inner := &vfListener{err: errors.New("inner")}
	before := vfSnap(sc)
	l, err := NewListener(inner, sc)
	vfAssert(err == nil && l != nil, "no listener")
	for i := 0; i < vfParam("clients", 2, 3); i++ {
		cc := vfClientConfig()
		cert := vfCertificate(vfClientCertHex, vfClientKeyHex)
		kind := vfChoice("client", 7)
		if kind != 1 {
			cc.Certificates = []*Certificate{cert}
		}
		if kind == 2 {
			cc.ServerName = "example.net"
		}
		cw, sw := vfPipe(false)
		client := Client(cw, cc)
		n := 0
		sw.pull = func() {
			alert := AlertNoAlert
			for j := 0; j < 12 && len(sw.r.pkts) == 0 && !vfFatal(alert) && !vfConnected(client); j++ {
				alert = client.Handshake()
			}
			for j := range sw.r.pkts {
				n++
				if kind >= 5 && n > kind-5 {
					sw.r.pkts = sw.r.pkts[:j]
					break
				}
				if kind == n+2 && n <= 2 {
					q := sw.r.pkts[j]
					q[len(q)-1] ^= byte(1 + vfU8("change")%255)
				}
			}
		}
		inner.next = append(inner.next, sw)
		c, err := l.Accept()
		if err != nil {
			vfReach("refused")
			vfAssert(kind > 1, "an honest client is refused")
			continue
		}
		vfAssert(kind < 2, "a client that did not complete the handshake is accepted")
		s, ok := c.(*Conn)
		vfAssert(ok && vfConnected(s) && vfConnected(client), "an accepted connection is not connected")
		peer := s.ConnectionState().PeerCertificates
		if sc.RequireClientAuth && kind == 0 {
			vfAssert(len(peer) == 1 && peer[0].Equal(cert.Chain[0]), "the client's certificate")
			vfReach("authenticated")
		} else {
			vfAssert(len(peer) == 0, "a certificate that was not sent")
			vfReach("anonymous")
		}
		client.Write([]byte("hello"))
		b := make([]byte, 10)
		m, err := s.Read(b)
		vfAssert(err == nil && vfEq2(b[:m], []byte("hello")), "the accepted connection is another one")
		vfReach("accepted")
	}
	c, err := l.Accept()
	vfAssert(c == nil && err == inner.err, "an error of the inner listener")
	vfReach("error")
	vfUnchanged(sc, before, "accepting changes the configuration")
	sc.NonBlocking = true
	l, err = NewListener(inner, sc)
	vfAssert(l == nil && err != nil, "listening without blocking")
}
