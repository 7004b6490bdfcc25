package mint

import "crypto/x509"

// C32: a DTLS handshake survives datagrams that are lost, duplicated or
// overtaken.

// vfFates lets the network decide the fate of each datagram until it has done
// n harmful things.
type vfFates struct {
	eager bool
	slow  bool // datagrams take time
	step  uint64
	left  int
	held  [2][]byte
	last  [2][][]byte
}

func (f *vfFates) hook(side int) func(w *vfWire, q []byte) {
	return func(w *vfWire, q []byte) {
		if f.slow {
			vfAdvance(7000000)
		}
		fate := 0
		if f.left > 0 {
			fate = vfChoice("fate", 5)
		}
		if fate > 0 {
			f.left--
		}
		switch fate {
		case 0:
			w.pkts = append(w.pkts, q)
		case 1: // lost
			vfReach("lost")
			return
		case 2: // twice
			vfReach("twice")
			w.pkts = append(w.pkts, q, q)
		case 3: // overtaken by the next one
			vfReach("late")
			f.held[side] = append([]byte{}, q...)
			return
		case 4: // arrives after everything else of this flight
			vfReach("last")
			f.last[side] = append(f.last[side], q)
			return
		}
		if h := f.held[side]; h != nil {
			f.held[side] = nil
			w.pkts = append(w.pkts, h)
		}
	}
}

// drive runs both ends; when nothing moves any more the timers go off.
func (p *vfPair) drive(rounds int, f *vfFates) {
	var buf [64]byte
	for r := 0; r < rounds; r++ {
		p.run()
		if f.eager && vfConnected(p.client) && !vfConnected(p.server) {
			n, err := p.client.Write([]byte{1, 2})
			vfAssert(n == 2 && err == nil, "a connected client cannot write")
			vfReach("early-data-lost")
		}
		for i := 0; i < 20; i++ {
			n := len(p.cw.r.pkts) + len(p.sw.r.pkts)
			if vfConnected(p.client) {
				k, err := p.client.Read(buf[:])
				vfAssert(k == 0, "data is delivered that nobody sent")
				vfAssert(err == AlertWouldBlock, "a client that is connected fails while the server retransmits")
			}
			if vfConnected(p.server) {
				k, err := p.server.Read(buf[:])
				if f.eager && k > 0 {
					vfAssert(err == nil && vfEq(buf[:k], []byte{1, 2}), "data is delivered that nobody sent")
					continue
				}
				vfAssert(k == 0, "data is delivered that nobody sent")
				vfAssert(err == AlertWouldBlock, "a server that is connected fails while the client retransmits")
			}
			if len(p.cw.r.pkts)+len(p.sw.r.pkts) == n {
				break
			}
		}
		if p.ok() {
			return
		}
		// what was overtaken arrives now at the latest
		for side, w := range []*vfWire{p.cw.w, p.sw.w} {
			if h := f.held[side]; h != nil {
				f.held[side] = nil
				w.pkts = append(w.pkts, h)
			}
		}
		late := len(f.last[0])+len(f.last[1]) > 0
		for side, w := range []*vfWire{p.cw.w, p.sw.w} {
			w.pkts = append(w.pkts, f.last[side]...)
			f.last[side] = nil
		}
		if late && vfFlag("early") {
			continue // before a timeout
		}
		if f.slow {
			// exactly to the next timer
			on, d := p.client.GetDTLSTimeout()
			if on2, d2 := p.server.GetDTLSTimeout(); on2 && (!on || d2 < d) {
				on, d = true, d2
			}
			if !on {
				return
			}
			vfAdvance(uint64(d) + 1)
			continue
		}
		vfAdvance(f.step)
	}
}

// VF_C32_loss: a handshake over a lossy network completes.
//
//vf:bounds DTLS; certificate mode with and without client authentication, PSK, PSK+(EC)DHE; every handshake in which up to 2 (quick) or 3 (thorough) datagrams are lost, duplicated or overtaken by the next datagram of the same side or by the rest of its flight; timeouts as long as it takes (at most 64 looks at the clock); then one record of data each way
//vf:outside losses after the handshake, path MTU changes, a server that keeps no state over a retry
//vf:reach lost twice late last done
//vf:budget 140 400
func VF_C32_loss() {
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true}
	switch vfChoice("mode", 4) {
	case 0:
	case 1:
		m.auth = true
	case 2:
		m.psk, m.dh = true, false
	case 3:
		m.psk = true
	}
	vfLossy(m, vfParam("faults", 2, 3), 0, false)
}

// VF_C32_variants: as VF_C32_loss, with messages in several fragments, other
// timeouts, and data sent at once.
//
//vf:bounds DTLS; certificate mode with and without client authentication or retry; certificate chains of up to 3 (one or several datagrams per message); clocks that advance by a quarter or the whole of the initial timeout between attempts, or, with datagrams that take time, to the next timer; a client that sends data as soon as it is connected or not; every handshake in which up to 1 (quick) or 2 (thorough) datagrams are lost, duplicated or overtaken (by one or all)
//vf:outside as VF_C32_loss
//vf:reach lost twice late done retry fragments early-data-lost
//vf:budget 140 400
func VF_C32_variants() {
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true, retry: vfFlag("retry")}
	if !m.retry {
		m.auth = vfFlag("auth")
	}
	if m.retry {
		vfReach("retry")
	}
	vfLossy(m, vfParam("faults", 1, 2), 2*vfChoice("chain", 2), vfFlag("eager"))
}

// VF_C32_retry: as VF_C32_loss, for a handshake with a retry request.
//
//vf:bounds DTLS; certificate mode with a cookie; up to 2 (quick) or 3 (thorough) datagrams lost, duplicated or overtaken (by one or all); clocks as in VF_C32_variants
//vf:outside as VF_C32_loss
//vf:reach lost twice late last done
//vf:budget 140 400
func VF_C32_retry() {
	vfLossy(vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true, retry: true}, vfParam("faults", 2, 3), 0, false)
}

func vfLossy(m vfModes, faults, extra int, eager bool) {
	cc, sc := m.configs()
	for i := 0; i < extra; i++ {
		vfReach("fragments")
		c := *sc.Certificates[0]
		c.Chain = append(append([]*x509.Certificate{}, c.Chain...), vfCert(vfCAHex()))
		sc.Certificates = []*Certificate{&c}
		c2 := *cc.Certificates[0]
		c2.Chain = append(append([]*x509.Certificate{}, c2.Chain...), vfCert(vfCAHex()))
		cc.Certificates = []*Certificate{&c2}
	}
	cc.UseDTLS, sc.UseDTLS = true, true
	p := vfNewPair(cc, sc)
	f := &vfFates{left: faults, eager: eager, step: uint64(initialTimeout) * 1000000}
	f.slow = !m.auth && !m.psk && vfFlag("slow")
	if !f.slow && (extra > 0 || m.retry) {
		f.step >>= 2 * uint64(vfChoice("step", 2))
	}
	p.cw.w.hook, p.sw.w.hook = f.hook(0), f.hook(1)
	p.drive(64, f)
	vfAssert(!vfFatal(p.ca), "a client fails because a datagram was lost, duplicated or late")
	vfAssert(!vfFatal(p.sa), "a server fails because a datagram was lost, duplicated or late")
	vfAssert(p.ok(), "a handshake does not complete although the network delivers again")
	f.left = 0
	msg := []byte{vfU8("data"), 3}
	for _, d := range [][2]*Conn{{p.client, p.server}, {p.server, p.client}} {
		n, err := d[0].Write(msg)
		vfAssert(n == 2 && err == nil, "a write on a connection fails after a lossy handshake")
		var buf [64]byte
		n, err = 0, AlertWouldBlock
		for i := 0; i < 20 && n == 0 && err == AlertWouldBlock; i++ {
			n, err = d[1].Read(buf[:])
			if eager && n == 2 && buf[1] == 2 {
				n, err = 0, AlertWouldBlock // sent earlier
			}
		}
		vfAssert(err == nil && vfEq(buf[:n], msg), "data is not delivered after a lossy handshake")
	}
	vfReach("done")
}
