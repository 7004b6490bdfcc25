package mint

import (
	"errors"
	"time"
)

var vfBroken = errors.New("transport failure")

// VF_C33_handshake: a handshake whose transport fails returns a fatal alert
// from the call in which it does, and from every later one; it neither accepts
// nor delivers data.
//
//vf:bounds client and server, TLS and DTLS, blocking (TLS) or not; certificates (with or without a retry), client authentication, PSK, accepted early data, tickets sent or not; retransmission timers that run out or not (DTLS); any one Read or any one Write of its transport up to the last of the handshake fails, once or for good (thorough; quick: for good), a Write having handed over nothing, 7 bytes or everything
//vf:outside an acknowledgement that cannot be sent (DTLS; as if it had been lost)
//vf:reach client server dtls blocking read write retry auth psk early tickets late
//vf:budget 60 300
func VF_C33_handshake() {
	client := vfFlag("client")
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true}
	kind := vfChoice("kind", 3)
	switch vfChoice("mode", 5) {
	case 1:
		m.auth = true
		vfReach("auth")
	case 2:
		m.psk = true
		vfReach("psk")
	case 3:
		m.retry = true
		vfReach("retry")
	case 4:
		if kind != 0 {
			vfStop()
		}
		m.psk, m.early = true, true
		vfReach("early")
	}
	cc, sc := m.configs()
	if kind == 1 {
		cc.UseDTLS, sc.UseDTLS = true, true
		vfReach("dtls")
	} else if !m.early {
		sc.SendSessionTickets = vfFlag("tickets")
		if sc.SendSessionTickets {
			vfReach("tickets")
		}
	}
	if kind == 2 {
		vfReach("blocking")
		if client {
			cc = vfBlockingConfig(cc)
		} else {
			sc = vfBlockingConfig(sc)
		}
	}
	p := vfNewPair(cc, sc)
	b, w, other := p.client, p.cw, p.server
	if client {
		vfReach("client")
	} else {
		b, w, other = p.server, p.sw, p.client
		vfReach("server")
	}
	if kind == 2 {
		p.blocking(client)
	}
	late := kind == 1 && vfFlag("late")
	if late {
		vfReach("late")
	}
	f := &vfFault{write: vfFlag("write"), at: vfChoice("at", 12), err: vfBroken, sticky: true}
	if vfParam("once", 0, 1) == 1 {
		f.sticky = vfFlag("sticky")
	}
	if f.write {
		f.n = []int{0, 7, 1 << 16}[vfChoice("sent", 3)]
	}
	w.fault = f
	var alert, oalert Alert = AlertNoAlert, AlertNoAlert
	for i := 0; i < 60; i++ {
		before := f.struck
		if late {
			vfAdvance(uint64(2 * time.Second))
		}
		alert = b.Handshake()
		if f.struck > before {
			if f.write && kind == 1 && vfConnected(b) && f.lost[0] == byte(RecordTypeApplicationData) {
				// the final flight's acknowledgement
				vfAssert(!client, "a client sends an acknowledgement")
				vfStop()
			}
			vfAssert(vfFatal(alert), "a transport failure is not reported by the handshake")
			break
		}
		vfAssert(!vfFatal(alert), "the handshake fails without a transport failure")
		if vfConnected(b) {
			vfStop()
		}
		if m.early && client && i == 0 {
			before = f.struck
			n, err := b.Write([]byte("early"))
			vfAssert((err != nil) == (f.struck > before), "a transport failure is not reported by Write")
			if err != nil {
				vfAssert(n == 0, "a Write that sent nothing reports bytes")
				vfStop()
			}
		}
		if kind != 2 {
			for j := 0; j < 3; j++ {
				if !vfConnected(other) && !vfFatal(oalert) {
					oalert = other.Handshake()
				}
			}
			if m.early && !client && i == 1 {
				other.Write([]byte("early"))
			}
		}
	}
	if f.struck == 0 {
		vfStop()
	}
	if f.write {
		vfReach("write")
	} else {
		vfReach("read")
	}
	for i := 0; i < 3; i++ {
		vfAssert(b.Handshake() == alert, "the result of a handshake that failed changes")
	}
	buf := make([]byte, 10)
	n, err := b.Read(buf)
	if n > 0 && m.early && !client {
		// early data that was accepted before
		vfAssert(vfEq(buf[:n], []byte("early")), "early data that was not sent is delivered")
		n, err = b.Read(buf)
	}
	vfAssert(n == 0 && err != nil && err != AlertWouldBlock, "a connection whose handshake failed delivers data, or promises to")
}

// VF_C33_data: after a handshake, a transport failure is returned by the call
// it strikes; a failed Read loses nothing, and after a failed Write of a stream
// nothing more is written.
//
//vf:bounds client and server, TLS and DTLS; 3 (thorough 4) steps, each a write of 2 or 2^14+1 bytes, a read with a buffer of 3 or 40 bytes, a key update (TLS), or, by the peer, data of 4 bytes of any value or a key update with request (TLS); any one of the first 3 (thorough 6) Reads or Writes of the transport fails, a Read once without data, or for good with or without data, a Write once having handed over nothing, or for good having handed over nothing, 7 bytes or everything
//vf:reach client server dtls read write sticky once data update answer
//vf:budget 60 300
func VF_C33_data() {
	cc, sc := vfClientConfig(), vfServerConfig()
	dtls := vfFlag("dtls")
	cc.UseDTLS, sc.UseDTLS = dtls, dtls
	p := vfNewPair(cc, sc)
	p.run()
	vfAssert(p.ok(), "handshake")
	for i := 0; i < 3; i++ {
		p.client.Read(make([]byte, 1))
		p.server.Read(make([]byte, 1))
	}
	b, w, other := p.client, p.cw, p.server
	if vfFlag("server") {
		b, w, other = p.server, p.sw, p.client
		vfReach("server")
	} else {
		vfReach("client")
	}
	if dtls {
		vfReach("dtls")
	}
	f := &vfFault{write: vfFlag("write"), at: vfChoice("at", vfParam("at", 3, 6)), err: vfBroken, sticky: vfFlag("sticky")}
	if f.write && f.sticky {
		f.n = []int{0, 7, 1 << 16}[vfChoice("sent", 3)]
	} else if f.sticky {
		f.data = vfFlag("data")
	}
	w.fault = f
	var want, got []byte
	asked := false // the peer waits for an answer
	ended := false // a stream to which nothing more is written
	write := func(size int) {
		d := make([]byte, size)
		struck, calls := f.struck, f.calls
		n, err := b.Write(d)
		switch {
		case ended:
			vfAssert(n == 0 && err == vfBroken, "a stream is written to after a failed Write")
			vfAssert(!f.write || f.calls == calls, "more is handed to a transport that lost part of the stream")
		case f.struck > struck && f.write:
			vfAssert(n < size && err == vfBroken, "a transport failure is not reported by Write")
		default:
			vfAssert(n == size && err == nil, "a Write fails without a transport failure")
		}
		if err != nil && !dtls {
			ended = true
		}
	}
	read := func(size int) error {
		if ended && asked {
			vfStop()
		}
		struck := f.struck
		r := make([]byte, size)
		n, err := b.Read(r)
		vfAssert((n == 0) == (err != nil), "a Read returns nothing, or data and an error")
		got = append(got, r[:n]...)
		switch {
		case f.struck > struck && !f.write:
			vfAssert(err == vfBroken || (f.data && err == nil), "a transport failure is not reported by Read")
		case f.data && f.struck > 0:
			vfAssert(err == vfBroken || err == nil, "a Read reports another error than the transport's")
		case f.struck > struck:
			// the answer to a key update
			vfAssert(err != nil && err != AlertWouldBlock, "a transport failure is not reported by Read")
			vfReach("answer")
			vfStop()
		default:
			vfAssert(err == nil || err == AlertWouldBlock, "a Read fails without a transport failure")
		}
		return err
	}
	steps := vfParam("steps", 3, 4)
	for i := 0; i < steps; i++ {
		switch vfChoice("step", 7) {
		case 0:
			write(2)
		case 1:
			write(1<<14 + 1)
		case 2:
			read(3)
		case 3:
			read(40)
		case 4:
			if dtls {
				vfStop()
			}
			struck := f.struck
			err := b.SendKeyUpdate(false)
			vfReach("update")
			if ended {
				vfAssert(err != nil, "a key update is sent after a failed Write")
				vfStop()
			}
			vfAssert((err != nil) == (f.write && f.struck > struck), "a transport failure is not reported by SendKeyUpdate")
			if err != nil {
				n, e := b.Write([]byte("x"))
				vfAssert(n == 0 && e != nil, "a stream is written to after a failed key update")
				vfStop()
			}
		case 5:
			d := vfBytes("data", 4)
			n, err := other.Write(d)
			vfAssert(n == 4 && err == nil, "write")
			want = append(want, d...)
		case 6:
			if dtls {
				vfStop()
			}
			vfAssert(other.SendKeyUpdate(true) == nil, "update")
			asked = true
		}
	}
	// the stream so far
	for i := 0; i < 12; i++ {
		err := read(40)
		if err == AlertWouldBlock {
			break
		}
		if err != nil && f.sticky && !f.write && (!f.data || len(w.r.pkts) == 0) {
			break
		}
	}
	if f.struck == 0 {
		vfStop()
	}
	if f.write {
		vfReach("write")
		write(2)
		write(2)
	} else {
		vfReach("read")
		write(2)
	}
	switch {
	case f.data:
		vfReach("data")
		vfAssert(vfEq2(got, want[:len(got)]), "what is read is not what was sent")
		vfAssert(len(got) == len(want), "data that arrives with an error is lost")
	case f.sticky && !f.write:
		vfReach("sticky")
		vfAssert(len(got) <= len(want) && vfEq(got, want[:len(got)]), "what is read is not what was sent")
	default:
		vfReach("once")
		vfAssert(vfEq2(got, want), "a failed Read loses data")
	}
}
