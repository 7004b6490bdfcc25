package mint

import "io"

// vfAlertRec: the two bytes of an alert are level and description, fatal
// except for close-notify and no-renegotiation, and the description is one of
// the protocol's.
func vfAlertRec(r vfRec) Alert {
	vfAssert(r.ct == RecordTypeAlert && len(r.frag) == 2, "an alert is not two bytes")
	d := r.frag[1]
	vfAssert(vfEqAny(d, vfDescriptions), "an alert has a description the protocol does not define")
	vfAssert(r.frag[0] == byte(vfIteInt(d == 0 || d == 100, 1, 2)), "an alert has the wrong level")
	return Alert(d)
}

func vfEqAny(d byte, l []byte) bool {
	ok := false
	for _, x := range l {
		ok = vfOr(ok, d == x)
	}
	return ok
}

var vfDescriptions = []byte{0, 10, 20, 21, 22, 30, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 100, 109, 110, 111, 112, 113, 114, 115, 120}

// VF_C28_send: an alert is sent as level and description under the current
// keys and reported by the peer.
//
//vf:bounds every alert the protocol defines (8 bits), sent by client or server after a handshake over the real record layer, TLS and DTLS, with or without data before it
//vf:reach closed fatal warning data
func VF_C28_send() {
	cc, sc := vfClientConfig(), vfServerConfig()
	if vfFlag("dtls") {
		cc.UseDTLS, sc.UseDTLS = true, true
	}
	p := vfNewPair(cc, sc)
	p.run()
	vfAssert(p.ok(), "handshake")
	s, r := p.client, p.server
	if vfFlag("server") {
		s, r = p.server, p.client
	}
	a := Alert(vfU8("alert"))
	vfAssume(vfEqAny(byte(a), vfDescriptions))
	data := vfFlag("data")
	if data {
		n, err := s.Write([]byte("abc"))
		vfAssert(n == 3 && err == nil, "write")
		vfReach("data")
	}
	s.sendAlert(a)
	b := make([]byte, 10)
	if data {
		n, err := r.Read(b)
		vfAssert(err == nil && n == 3 && vfEq(b[:3], []byte("abc")), "data before an alert is lost")
	}
	n, err := r.Read(b)
	switch {
	case a == AlertCloseNotify:
		vfAssert(n == 0 && err == io.EOF, "a close-notify does not end the stream cleanly")
		vfReach("closed")
	case a == AlertNoRenegotiation:
		vfAssert(n == 0 && err == AlertWouldBlock, "a warning ends the stream")
		vfReach("warning")
		return
	default:
		got, ok := err.(Alert)
		vfAssert(n == 0 && ok, "a fatal alert is not reported")
		vfAssert(got == a, "another alert is reported than was sent")
		vfReach("fatal")
	}
	_, again := r.Read(b)
	vfAssert(again == err, "the end of the stream is not final")
}

// VF_C28_sent: the alerts sent in answer to what is not allowed after the
// handshake.
//
//vf:bounds client and server after a handshake, TLS; messages of any type (8 bits) with a body of 0..2 bytes of any value; alert records of 0..4 bytes of any value; a message followed by a record of another type
//vf:reach message alert interleaved client server
func VF_C28_sent() {
	n := 7
	if vfFlag("server") {
		n = 15
		vfReach("server")
	} else {
		vfReach("client")
	}
	st := vfAtStage(n)
	p := st.vfPeer
	before := len(p.rd.recs)
	switch vfChoice("what", 3) {
	case 0:
		t := HandshakeType(vfU8("type"))
		vfAssume(t != HandshakeTypeKeyUpdate && t != HandshakeTypeNewSessionTicket)
		p.record(RecordTypeHandshake, vfMsg(t, vfBytes("body", vfChoice("len", 3))))
		vfReach("message")
	case 1:
		f := vfBytes("alert", []int{0, 1, 3, 4}[vfChoice("len", 4)])
		p.record(RecordTypeAlert, f)
		vfReach("alert")
	case 2:
		p.record(RecordTypeHandshake, []byte{4, 0, 0})
		ct := []RecordType{RecordTypeAlert, RecordTypeApplicationData}[vfChoice("then", 2)]
		p.record(ct, []byte{1, 90})
		vfReach("interleaved")
	}
	b := make([]byte, 10)
	m, err := p.ep.Read(b)
	vfAssert(m == 0 && err != nil && err != AlertWouldBlock, "what is not allowed is not an error")
	sent := p.rd.recs[before:]
	vfAssert(len(sent) == 1, "not exactly one alert is sent")
	a := vfAlertRec(sent[0])
	vfAssert(a == AlertUnexpectedMessage || a == AlertDecodeError, "another alert is sent")
	vfAssert(vfEq(sent[0].key, p.r.key), "the alert is not protected with the current keys")
}

// VF_C28_received: an alert of two bytes is reported with its description, at
// every point of the handshake and after it.
//
//vf:bounds 23 states of client and server, TLS; any level and description (16 bits)
//vf:outside the internal codes 253 to 255, which no peer may send and which are reported as illegal_parameter
//vf:reach handshake connected ignored eof fatal level
//vf:budget 60 300
func VF_C28_received() {
	n := vfChoice("state", len(vfStageNames))
	st := vfAtStage(n)
	p := st.vfPeer
	lvl, d := vfU8("level"), vfU8("description")
	want := Alert(vfIteInt(d >= 253, 47, int(d)))
	before := st.effects()
	p.record(RecordTypeAlert, []byte{lvl, d})
	if !p.connected() {
		p.step()
		vfAssert(vfFatal(p.alert), "an alert does not end the handshake")
		vfAssert(p.alert == want, "another alert is reported than was received")
		st.refused(before)
		vfReach("handshake")
		return
	}
	p.record(RecordTypeApplicationData, []byte("abc"))
	b := make([]byte, 10)
	m, err := p.ep.Read(b)
	if d == 0 {
		vfAssert(m == 0 && err == io.EOF, "a close-notify does not end the stream cleanly")
		vfReach("eof")
	} else if lvl == 1 && (d == 90 || d == 100) {
		if err == nil && m == 0 {
			m, err = p.ep.Read(b)
		}
		vfAssert(err == nil && m == 3 && vfEq(b[:3], []byte("abc")), "data after a user_canceled is lost")
		vfReach("ignored")
		return
	} else if lvl == 1 || lvl == 2 {
		got, ok := err.(Alert)
		vfAssert(m == 0 && ok && got == want, "another alert is reported than was received")
		vfReach("fatal")
	} else {
		vfAssert(m == 0 && err != nil && err != AlertWouldBlock, "an alert of an unknown level is not an error")
		vfReach("level")
	}
	m, again := p.ep.Read(b)
	vfAssert(m == 0 && again == err, "something is read after the end of the stream")
	vfReach("connected")
}

// VF_C28_malformed: an alert record of another length is an error during the
// handshake, and every alert sent in answer is well-formed and protected with
// the outgoing keys.
//
//vf:bounds the 17 states of client and server during a handshake, TLS; alert records of 0, 1, 3, 4 bytes of any value
//vf:reach client server
//vf:budget 60 300
func VF_C28_malformed() {
	n := vfChoice("state", len(vfStageNames))
	if vfConnectedStage(n) {
		vfStop()
	}
	st := vfAtStage(n)
	p := st.vfPeer
	before := st.effects()
	k := len(p.rd.recs)
	p.record(RecordTypeAlert, vfBytes("alert", []int{0, 1, 3, 4}[vfChoice("len", 4)]))
	p.step()
	vfAssert(vfFatal(p.alert), "a malformed alert does not end the handshake")
	for _, r := range p.rd.recs[k:] {
		vfAlertRec(r)
		vfAssert(vfEq2(r.key, p.epOut.key), "an alert is not protected with the outgoing keys")
	}
	st.refused(before)
	if vfClientStage(n) {
		vfReach("client")
	} else {
		vfReach("server")
	}
}
