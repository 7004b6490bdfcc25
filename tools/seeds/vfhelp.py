# common parts of demonstrations
PAIR=r'''
// vfDemoRun drives two non-blocking ends until both are connected or one fails.
func vfDemoRun(c, s *Conn, hook func(i int)) (Alert, Alert) {
	var ca, sa Alert = AlertNoAlert, AlertNoAlert
	ok := func(a Alert) bool { return a == AlertNoAlert || a == AlertWouldBlock || a == AlertStatelessRetry }
	for i := 0; i < 60; i++ {
		if ok(ca) && c.GetHsState() != StateClientConnected {
			ca = c.Handshake()
		}
		hook(2 * i)
		if ok(sa) && s.GetHsState() != StateServerConnected {
			sa = s.Handshake()
		}
		hook(2*i + 1)
	}
	return ca, sa
}

func vfDemoBoth(c, s *Conn) bool {
	return c.GetHsState() == StateClientConnected && s.GetHsState() == StateServerConnected
}
'''
DGRAM=r'''
type vfDgram struct {
	in, out *[][]byte
	n       int
	copies  func(n int) int
}

func (d *vfDgram) Read(p []byte) (int, error) {
	if len(*d.in) == 0 {
		return 0, nil
	}
	q := (*d.in)[0]
	*d.in = (*d.in)[1:]
	return copy(p, q), nil
}

func (d *vfDgram) Write(p []byte) (int, error) {
	d.n++
	for i := 0; i < d.copies(d.n); i++ {
		*d.out = append(*d.out, append([]byte{}, p...))
	}
	return len(p), nil
}

func (d *vfDgram) Close() error                       { return nil }
func (d *vfDgram) LocalAddr() net.Addr                { return nil }
func (d *vfDgram) RemoteAddr() net.Addr               { return nil }
func (d *vfDgram) SetDeadline(t time.Time) error      { return nil }
func (d *vfDgram) SetReadDeadline(t time.Time) error  { return nil }
func (d *vfDgram) SetWriteDeadline(t time.Time) error { return nil }

// vfDemoLossy runs a DTLS handshake; its function says how often record n of
// a side arrives. It reports whether both ends connect within two seconds.
func vfDemoLossy(retry bool, cs, ss func(n int) int) bool {
	var toC, toS [][]byte
	cc := &Config{ServerName: "example.com", InsecureSkipVerify: true, NonBlocking: true, UseDTLS: true}
	sc := &Config{ServerName: "example.com", Certificates: certificates, NonBlocking: true, UseDTLS: true}
	if retry {
		sc.RequireCookie = true
		sc.CookieProtector, _ = NewDefaultCookieProtector()
	}
	c := Client(&vfDgram{in: &toC, out: &toS, copies: cs}, cc)
	s := Server(&vfDgram{in: &toS, out: &toC, copies: ss}, sc)
	ok := func(a Alert) bool { return a == AlertNoAlert || a == AlertWouldBlock || a == AlertStatelessRetry }
	end := time.Now().Add(2 * time.Second)
	b := make([]byte, 100)
	for time.Now().Before(end) {
		cup, sup := c.GetHsState() == StateClientConnected, s.GetHsState() == StateServerConnected
		if cup && sup {
			return true
		}
		if cup {
			c.Read(b)
		} else if !ok(c.Handshake()) {
			return false
		}
		if sup {
			s.Read(b)
		} else if !ok(s.Handshake()) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return false
}
'''
