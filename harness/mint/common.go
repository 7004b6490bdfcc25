package mint

import (
	"crypto"
	"crypto/x509"
	"encoding/hex"
	"errors"
	"io"
	"net"
	"time"
)

// ---- in-memory network ----

// vfWire carries the packets of one direction. Every Write call is one packet
// (the record layer writes one record per call).
type vfWire struct {
	pkts [][]byte
	log  [][]byte // everything ever written
	hook func(w *vfWire, p []byte)
}

type vfConn struct {
	r, w   *vfWire
	dgram  bool
	closed bool
	chunk  int    // if > 0, at most this many bytes per Read
	pull   func() // if set, a blocking transport: called for more; then the end
	gone   bool   // the far end has given up
	fault  *vfFault
}

func (c *vfConn) vfGone() bool { return c.gone }

// vfFault strikes one call of a transport.
type vfFault struct {
	write  bool  // a Write, or a Read
	at     int   // which one, from 0
	n      int   // a Write hands over so many bytes
	data   bool  // a Read returns what there is, and the error
	sticky bool  // every later one fails too
	err    error // the error
	struck int
	calls  int
	lost   []byte // what a failing Write was given
}

func (f *vfFault) strike(write bool) bool {
	if f == nil || f.write != write {
		return false
	}
	f.calls++
	if f.calls-1 == f.at || (f.sticky && f.calls-1 > f.at) {
		f.struck++
		return true
	}
	return false
}

func vfPipe(dgram bool) (*vfConn, *vfConn) {
	a, b := &vfWire{}, &vfWire{}
	return &vfConn{r: a, w: b, dgram: dgram}, &vfConn{r: b, w: a, dgram: dgram}
}

func (c *vfConn) Read(p []byte) (int, error) {
	if c.closed {
		return 0, errors.New("closed")
	}
	var failed error
	if c.fault.strike(false) {
		failed = c.fault.err
		if !c.fault.data {
			return 0, failed
		}
	}
	if len(c.r.pkts) == 0 && c.pull != nil {
		c.pull()
		if len(c.r.pkts) == 0 {
			return 0, io.EOF
		}
	}
	if len(c.r.pkts) == 0 {
		return 0, failed
	}
	q := c.r.pkts[0]
	m := len(q)
	if c.chunk > 0 && m > c.chunk {
		m = c.chunk
	}
	n := copy(p, q[:m])
	if c.dgram || n == len(q) {
		c.r.pkts = c.r.pkts[1:]
	} else {
		c.r.pkts[0] = q[n:]
	}
	return n, failed
}

func (c *vfConn) Write(p []byte) (int, error) {
	if c.closed {
		return 0, errors.New("closed")
	}
	if c.fault.strike(true) {
		n := c.fault.n
		if n > len(p) {
			n = len(p)
		}
		if n > 0 && c.fault.struck == 1 {
			c.w.pkts = append(c.w.pkts, append([]byte{}, p[:n]...))
		}
		c.fault.lost = append([]byte{}, p...)
		return n, c.fault.err
	}
	q := make([]byte, len(p))
	copy(q, p)
	c.w.log = append(c.w.log, q)
	if c.w.hook != nil {
		c.w.hook(c.w, q)
	} else {
		c.w.pkts = append(c.w.pkts, q)
	}
	return len(p), nil
}

func (c *vfConn) Close() error                       { c.closed = true; return nil }
func (c *vfConn) LocalAddr() net.Addr                { return nil }
func (c *vfConn) RemoteAddr() net.Addr               { return nil }
func (c *vfConn) SetDeadline(t time.Time) error      { return nil }
func (c *vfConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vfConn) SetWriteDeadline(t time.Time) error { return nil }

// ---- keys and certificates ----

func vfHex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func vfCert(h string) *x509.Certificate {
	c, err := x509.ParseCertificate(vfHex(h))
	if err != nil {
		panic(err)
	}
	return c
}

func vfKey(h string) crypto.Signer {
	k, err := x509.ParsePKCS8PrivateKey(vfHex(h))
	if err != nil {
		panic(err)
	}
	return k.(crypto.Signer)
}

func vfCertificate(cert, key string) *Certificate {
	return &Certificate{Chain: []*x509.Certificate{vfCert(cert)}, PrivateKey: vfKey(key)}
}

func vfServerCert() *Certificate { return vfCertificate(vfServerCertHex, vfServerKeyHex) }
func vfClientCert() *Certificate { return vfCertificate(vfClientCertHex, vfClientKeyHex) }

func vfRoots() *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(vfCert(vfCAHex()))
	return p
}

func vfCAHex() string { return vfCACertHex }

func vfConfigTime() time.Time { return time.Unix(1700000000, 0) }

// vfClientConfig and vfServerConfig: the usual, verifying configuration.
func vfClientConfig() *Config {
	return &Config{ServerName: "example.com", RootCAs: vfRoots(), NonBlocking: true, Time: vfConfigTime, Groups: []NamedGroup{X25519}, CipherSuites: []CipherSuite{TLS_AES_128_GCM_SHA256}}
}

func vfServerConfig() *Config {
	return &Config{Certificates: []*Certificate{vfServerCert()}, NonBlocking: true, Time: vfConfigTime, Groups: []NamedGroup{X25519}, CipherSuites: []CipherSuite{TLS_AES_128_GCM_SHA256}}
}

// ---- handshake driver ----

type vfPair struct {
	cw, sw         *vfConn
	client, server *Conn
	ca, sa         Alert
}

func vfNewPair(cc, sc *Config) *vfPair {
	p := &vfPair{ca: AlertNoAlert, sa: AlertNoAlert}
	p.cw, p.sw = vfPipe(cc.UseDTLS)
	p.client = Client(p.cw, cc)
	p.server = Server(p.sw, sc)
	return p
}

func vfConnected(c *Conn) bool {
	s := c.GetHsState()
	return s == StateClientConnected || s == StateServerConnected
}

func vfFatal(a Alert) bool {
	return a != AlertNoAlert && a != AlertWouldBlock && a != AlertStatelessRetry
}

// run alternates both sides until both are connected, one fails, or nothing moves.
func (p *vfPair) run() {
	idle := 0
	for i := 0; i < 60 && idle < 2; i++ {
		if vfConnected(p.client) && vfConnected(p.server) {
			return
		}
		moved := false
		left := len(p.cw.r.pkts) + len(p.sw.r.pkts)
		if !vfFatal(p.ca) && !vfConnected(p.client) {
			p.ca = p.client.Handshake()
			moved = moved || p.ca == AlertNoAlert
		}
		if !vfFatal(p.sa) && !vfConnected(p.server) {
			p.sa = p.server.Handshake()
			moved = moved || p.sa == AlertNoAlert || p.sa == AlertStatelessRetry
		}
		// a packet may be consumed without progress
		if moved || len(p.cw.r.pkts)+len(p.sw.r.pkts) < left {
			idle = 0
		} else {
			idle++
		}
	}
}

func (p *vfPair) ok() bool { return vfConnected(p.client) && vfConnected(p.server) }

// blocking makes one side a blocking endpoint: reading from its transport lets
// the other one go on until there is something to read.
func (p *vfPair) blocking(client bool) (*Conn, *Conn, *vfConn) {
	w, b, other, alert := p.cw, p.client, p.server, &p.sa
	if !client {
		w, b, other, alert = p.sw, p.server, p.client, &p.ca
	}
	w.pull = func() {
		for i := 0; i < 12 && len(w.r.pkts) == 0 && !vfFatal(*alert) && !vfConnected(other); i++ {
			*alert = other.Handshake()
		}
	}
	return b, other, w
}

func vfBlockingConfig(c *Config) *Config {
	d := *c
	d.NonBlocking = false
	return &d
}
