package mint

import "io"

// ---- an attacker on the wire ----

// vfTamper counts the handshake records of a handshake and changes what the
// attacker wants changed: act gets record k of one side's records (0: client)
// and returns what is delivered in its place.
type vfTamper func(side, k int, rec []byte) [][]byte

func (p *vfPair) tamper(act vfTamper) {
	for side, w := range []*vfWire{p.cw.w, p.sw.w} {
		side, k := side, 0
		w.hook = func(w *vfWire, q []byte) {
			w.pkts = append(w.pkts, act(side, k, q)...)
			k++
		}
	}
}

// vfAlter changes one byte, at any place, to any other value.
func vfAlter(b []byte) []byte {
	pos := vfChoice("pos", len(b))
	delta := vfU8("delta")
	vfAssume(delta != 0)
	out := append([]byte{}, b...)
	out[pos] ^= delta
	return out
}

// vfSpy records the application keys an endpoint installs.
type vfSpy struct {
	dtls    bool
	in, out vfTKeys
}

type vfSpyLayer struct {
	RecordLayer
	keys *vfTKeys
}

func (s *vfSpy) NewLayer(conn io.ReadWriter, dir Direction) RecordLayer {
	k := &s.in
	if dir == DirectionWrite {
		k = &s.out
	}
	if s.dtls {
		return &vfSpyLayer{NewRecordLayerDTLS(conn, dir), k}
	}
	return &vfSpyLayer{NewRecordLayerTLS(conn, dir), k}
}

func (l *vfSpyLayer) Rekey(epoch Epoch, factory AEADFactory, keys *KeySet) error {
	if epoch == EpochApplicationData {
		*l.keys = vfTKeys{keys.Keys[labelForKey], keys.Keys[labelForIV]}
	}
	return l.RecordLayer.Rekey(epoch, factory, keys)
}

func vfSpies(cc, sc *Config) (*vfSpy, *vfSpy) {
	cs, ss := &vfSpy{dtls: cc.UseDTLS}, &vfSpy{dtls: sc.UseDTLS}
	cc.RecordLayer, sc.RecordLayer = cs, ss
	return cs, ss
}

// notBoth: the endpoints are not both connected; one that is connected agrees
// with its peer on the keys it reads with, which are bound to the transcript.
func (p *vfPair) notBoth(cs, ss *vfSpy) {
	vfAssert(!p.ok(), "both ends complete a handshake whose messages were tampered with")
	if cs.dtls {
		return // DTLS connections use their own record layers
	}
	if vfConnected(p.client) {
		vfReach("client connected")
		vfAssert(cs.in.key != nil && vfSameTKeys(cs.in, ss.out), "a connected client does not have the transcript that its peer authenticated")
	}
	if vfConnected(p.server) {
		vfAssert(ss.in.key != nil && vfSameTKeys(ss.in, cs.out) && vfSameTKeys(ss.out, cs.in), "a connected server does not have the transcript that its peer authenticated")
	}
}

func vfTamperModes() vfModes {
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true}
	switch vfChoice("mode", 4) {
	case 0:
	case 1:
		m.auth = true
	case 2:
		m.psk, m.dh = true, false
	case 3:
		m.psk, m.early = true, vfFlag("early")
	}
	return m
}

func vfSameTKeys(a, b vfTKeys) bool { return vfAnd(vfEq2(a.key, b.key), vfEq2(a.iv, b.iv)) }

// vfClear is the place of the handshake message in an unencrypted record.
func vfClear(dtls bool) int {
	if dtls {
		return 13
	}
	return 5
}

// vfReframe sets the length of a record to what it carries.
func vfReframe(rec []byte, dtls bool) []byte {
	h := vfClear(dtls)
	n := len(rec) - h
	rec[h-2], rec[h-1] = byte(n>>8), byte(n)
	return rec
}

// VF_C19_clear: no byte of an unencrypted message can be changed.
//
//vf:bounds TLS; certificate (with and without client authentication), PSK and PSK+(EC)DHE with and without early data; every byte of the ClientHello and ServerHello, changed to any other value
//vf:outside forged signatures, HMAC collisions (excluded by the ideal model)
//vf:reach client server
//vf:budget 100 300
func VF_C19_clear() {
	m := vfTamperModes()
	m.reach()
	vfTamperClear(m, false, vfChoice("side", 2), 0, vfAlter)
}

// VF_C19_dtls: as VF_C19_clear, for DTLS.
//
//vf:bounds DTLS; certificate mode, with and without retry; every byte of every unencrypted message (handshake header included), changed to any other value
//vf:outside the datagram and record header (not part of a handshake message)
//vf:reach client server retry
//vf:budget 100 300
func VF_C19_dtls() {
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true, retry: vfFlag("retry")}
	m.reach()
	k := 0
	if m.retry {
		k = vfChoice("message", 2)
	}
	vfTamperClear(m, true, vfChoice("side", 2), k, vfAlter)
}

// VF_C19_retry: as VF_C19_clear, for handshakes with a HelloRetryRequest.
//
//vf:bounds TLS; certificate mode (thorough: also PSK+(EC)DHE) with a cookie; every byte of the two ClientHellos, the HelloRetryRequest and the ServerHello, changed to any other value
//vf:reach client server retry
//vf:budget 100 300
func VF_C19_retry() {
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true, retry: true, psk: vfChoice("psk", vfParam("modes", 1, 2)) == 1}
	m.reach()
	vfTamperClear(m, false, vfChoice("side", 2), vfChoice("message", 2), vfAlter)
}

// VF_C19_resize: no byte can be removed from, added to or repeated in an
// unencrypted message, whether or not its lengths are made to fit.
//
//vf:bounds TLS; certificate mode (thorough: also PSK+(EC)DHE); at every place of the ClientHello and ServerHello one byte removed or any byte inserted, the lengths of the record and the handshake message adjusted or (the latter) not
//vf:reach removed inserted client server
//vf:budget 100 300
func VF_C19_resize() {
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true, psk: vfChoice("psk", vfParam("modes", 1, 2)) == 1}
	vfTamperClear(m, false, vfChoice("side", 2), 0, vfResize)
}

func vfResize(msg []byte) []byte {
	out := []byte{}
	if vfFlag("remove") {
		i := vfChoice("pos", len(msg))
		out = vfJoin(msg[:i], msg[i+1:])
		vfReach("removed")
	} else {
		i := vfChoice("pos", len(msg)+1)
		out = vfJoin(msg[:i], []byte{vfU8("inserted")}, msg[i:])
		vfReach("inserted")
	}
	if vfFlag("fit") {
		n := len(out) - 4
		out[1], out[2], out[3] = byte(n>>16), byte(n>>8), byte(n)
	}
	// removing one of two equal bytes, or inserting a byte and adjusting the
	// length back, changes nothing
	vfAssume(len(out) != len(msg))
	return out
}

// VF_C19_extensions: no extension of an unencrypted message can be moved,
// left out, added, or repeated, with all lengths correct.
//
//vf:bounds TLS; certificate mode, with a cookie or not, and PSK+(EC)DHE; the ClientHellos, HelloRetryRequest and ServerHello: two neighbouring extensions exchanged, one left out or repeated, one of any type (16 bits) with 0 or 2 bytes of any value added at the front
//vf:reach client server retry exchanged removed repeated added
//vf:budget 100 300
func VF_C19_extensions() {
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true}
	k := 0
	switch vfChoice("mode", 3) {
	case 1:
		m.retry = true
		k = vfChoice("message", 2)
	case 2:
		m.psk = true
	}
	m.reach()
	vfTamperClear(m, false, vfChoice("side", 2), k, vfRestructure)
}

func vfRestructure(msg []byte) []byte {
	i := 4 + 2 + 32
	i += 1 + int(msg[i])
	if msg[0] == byte(HandshakeTypeClientHello) {
		i += 2 + (int(msg[i])<<8 | int(msg[i+1]))
		i += 1 + int(msg[i])
	} else {
		i += 3
	}
	head := msg[:i]
	exts := [][]byte{}
	for j := i + 2; j < len(msg); {
		l := 4 + (int(msg[j+2])<<8 | int(msg[j+3]))
		exts = append(exts, msg[j:j+l])
		j += l
	}
	var out [][]byte
	x := vfChoice("extension", len(exts))
	switch vfChoice("how", 4) {
	case 0:
		if x+1 == len(exts) {
			vfStop()
		}
		vfReach("exchanged")
		out = append(append(append(out, exts[:x]...), exts[x+1], exts[x]), exts[x+2:]...)
	case 1:
		vfReach("removed")
		out = append(append(out, exts[:x]...), exts[x+1:]...)
	case 2:
		vfReach("repeated")
		out = append(append(out, exts[:x+1]...), exts[x:]...)
	case 3:
		if x > 0 {
			vfStop()
		}
		vfReach("added")
		t := vfU16("type")
		out = append(append(out, vfExt(ExtensionType(t), vfBytes("content", 2*vfChoice("size", 2)))), exts...)
	}
	l := vfVec(2, vfJoin(out...))
	return vfMsg(HandshakeType(msg[0]), vfJoin(head[4:], l))
}

func vfTamperClear(m vfModes, dtls bool, target, n int, change func([]byte) []byte) {
	cc, sc := m.configs()
	cc.UseDTLS, sc.UseDTLS = dtls, dtls
	cs, ss := vfSpies(cc, sc)
	p := vfNewPair(cc, sc)
	done := false
	h := vfClear(dtls)
	p.tamper(func(side, k int, rec []byte) [][]byte {
		if dtls && rec[0] == byte(RecordTypeHandshake) {
			k = int(rec[h+5]) // a message may be sent again
		}
		if side == target && k == n && rec[0] == byte(RecordTypeHandshake) && !done {
			done = true
			return [][]byte{vfReframe(vfJoin(rec[:h], change(rec[h:])), dtls)}
		}
		return [][]byte{rec}
	})
	p.run()
	vfAssert(done, "no message to change")
	p.notBoth(cs, ss)
	if target == 0 {
		vfReach("client")
	} else {
		vfReach("server")
	}
}

// VF_C19_sealed: no change of an encrypted handshake record goes unnoticed.
//
//vf:bounds TLS; certificate (with and without client authentication), PSK and PSK+(EC)DHE with and without early data; each encrypted record of the handshake, changed by any difference of its length, or shortened by or with any byte appended
//vf:outside forged AEAD tags (excluded by the ideal model)
//vf:reach client server changed shorter longer
func VF_C19_sealed() {
	m := vfTamperModes()
	m.reach()
	cc, sc := m.configs()
	cs, ss := vfSpies(cc, sc)
	p := vfNewPair(cc, sc)
	target, n := vfChoice("side", 2), 1+vfChoice("record", 5)
	how := vfChoice("how", 3)
	done := false
	p.tamper(func(side, k int, rec []byte) [][]byte {
		early := m.early && k == 1 && side == 0
		if side != target || k != n || early {
			return [][]byte{rec}
		}
		vfAssert(rec[0] == byte(RecordTypeApplicationData), "a handshake message after the hellos is not encrypted")
		done = true
		out := append([]byte{}, rec...)
		switch how {
		case 0:
			d := vfBytes("delta", len(rec)-5)
			vfAssume(!vfZero(d))
			for i := range d {
				out[5+i] ^= d[i]
			}
			vfReach("changed")
		case 1:
			out = vfReframe(out[:len(out)-1], false)
			vfReach("shorter")
		case 2:
			out = vfReframe(append(out, vfU8("extra")), false)
			vfReach("longer")
		}
		return [][]byte{out}
	})
	p.run()
	if !done {
		vfStop()
	}
	p.notBoth(cs, ss)
	if target == 0 {
		vfReach("client")
	} else {
		vfReach("server")
	}
}

// VF_C19_records: no record of the handshake can be dropped, repeated,
// reordered or added.
//
//vf:bounds TLS; certificate (with and without client authentication), PSK and PSK+(EC)DHE with and without early data, certificate with retry; each record of the handshake dropped, repeated, exchanged with the next one of the same flight, or preceded by an unencrypted handshake record of any type with a 0- or 4-byte body of any value
//vf:reach dropped repeated swapped added lastrepeated
func VF_C19_records() {
	m := vfTamperModes()
	if !m.psk && !m.auth {
		m.retry = vfFlag("retry")
	}
	m.reach()
	cc, sc := m.configs()
	cs, ss := vfSpies(cc, sc)
	p := vfNewPair(cc, sc)
	target, n := vfChoice("side", 2), vfChoice("record", 7)
	how := vfChoice("how", 4)
	done := false
	var held []byte
	p.tamper(func(side, k int, rec []byte) [][]byte {
		if side != target {
			return [][]byte{rec}
		}
		if held != nil {
			out := [][]byte{rec, held}
			held = nil
			done = true
			return out
		}
		if k != n {
			return [][]byte{rec}
		}
		switch how {
		case 0:
			done = true
			vfReach("dropped")
			return nil
		case 1:
			done = true
			vfReach("repeated")
			return [][]byte{rec, rec}
		case 2:
			held = rec
			vfReach("swapped")
			return nil
		}
		done = true
		vfReach("added")
		body := vfBytes("body", 4*vfChoice("size", 2))
		msg := vfJoin([]byte{vfU8("type"), 0, 0, byte(len(body))}, body)
		return [][]byte{vfJoin([]byte{byte(RecordTypeHandshake), 3, 1, 0, byte(len(msg))}, msg), rec}
	})
	p.run()
	if !done && held == nil {
		vfStop()
	}
	if how == 1 && p.ok() {
		// the last record that was read: the repetition follows
		reader := []*Conn{p.server, p.client}[target]
		got, err := reader.Read(make([]byte, 1))
		vfAssert(got == 0 && err != nil && err != AlertWouldBlock, "a repeated handshake record is accepted")
		vfReach("lastrepeated")
		return
	}
	p.notBoth(cs, ss)
}

// ---- the same attacker without record protection ----

func vfLastKeys(k []vfRekey) vfTKeys {
	if len(k) == 0 || k[len(k)-1].epoch != EpochApplicationData {
		return vfTKeys{}
	}
	return vfTKeys{k[len(k)-1].key, k[len(k)-1].iv}
}

func (p *vfPair) notBothPlain(c, s *vfPlain) {
	vfAssert(!p.ok(), "both ends complete a handshake whose messages were tampered with")
	if vfConnected(p.client) {
		vfReach("client connected")
		k := vfLastKeys(c.inKeys)
		vfAssert(k.key != nil && vfSameTKeys(k, vfLastKeys(s.outKeys)), "a connected client does not have the transcript that its peer authenticated")
	}
	if vfConnected(p.server) {
		k := vfLastKeys(s.inKeys)
		vfAssert(k.key != nil && vfSameTKeys(k, vfLastKeys(c.outKeys)), "a connected server does not have the transcript that its peer authenticated")
	}
}

// vfPlainModes adds an application protocol, for a longer EncryptedExtensions.
func vfPlainModes() (*Config, *Config, vfModes) {
	m := vfTamperModes()
	m.reach()
	cc, sc := m.configs()
	cc.NextProtos, sc.NextProtos = []string{"h1", "h2"}, []string{"h2", "h1"}
	return cc, sc, m
}

// VF_C19_transcript: every message of the handshake is bound by the handshake
// itself: even with record protection taken away, none can be changed.
//
//vf:bounds TLS record layers that protect nothing; certificate (with and without client authentication), PSK and PSK+(EC)DHE with and without early data; each handshake message after the hellos, any byte changed to any other value (of a Certificate: its framing), or replaced by a Certificate with the same key
//vf:outside the inside of X.509 certificates
//vf:reach client server replaced
//vf:budget 60 300
func VF_C19_transcript() {
	cc, sc, _ := vfPlainModes()
	cc.InsecureSkipVerify = true
	c, s := vfPlainPair(cc, sc)
	p := vfNewPair(cc, sc)
	target, n := vfChoice("side", 2), vfChoice("message", 6)
	done := false
	act := func(k int, msg []byte) [][]byte {
		if k != n || msg[0] == byte(HandshakeTypeClientHello) || msg[0] == byte(HandshakeTypeServerHello) {
			return [][]byte{msg}
		}
		done = true
		l := len(msg)
		if msg[0] == byte(HandshakeTypeCertificate) {
			if vfFlag("replace") {
				vfReach("replaced")
				return [][]byte{vfMsg(HandshakeTypeCertificate, vfCertMsg(vfHex(vfServerOtherCACertHex)))}
			}
			l = 11
		}
		pos := vfChoice("pos", l+1) // l: the last byte
		if pos == l {
			pos = len(msg) - 1
		}
		delta := vfU8("delta")
		vfAssume(delta != 0)
		msg[pos] ^= delta
		return [][]byte{msg}
	}
	if target == 0 {
		c.act = act
	} else {
		s.act = act
	}
	p.run()
	if !done {
		vfStop()
	}
	p.notBothPlain(c, s)
	if target == 0 {
		vfReach("client")
	} else {
		vfReach("server")
	}
}

// VF_C19_sequence: as VF_C19_records, with record protection taken away.
//
//vf:bounds TLS record layers that protect nothing; modes as VF_C19_transcript; each handshake message dropped, repeated, exchanged with the next one of the same flight, or preceded by a message of any type with a body of 0, 1 or 4 bytes of any value
//vf:outside repeating the last message that the reader needs
//vf:reach dropped repeated swapped added
func VF_C19_sequence() {
	cc, sc, m := vfPlainModes()
	c, s := vfPlainPair(cc, sc)
	p := vfNewPair(cc, sc)
	target, n := vfChoice("side", 2), vfChoice("message", 6)
	how := vfChoice("how", 4)
	done := false
	var held []byte
	act := func(k int, msg []byte) [][]byte {
		if held != nil {
			out := [][]byte{msg, held}
			held = nil
			done = true
			return out
		}
		if k != n {
			return [][]byte{msg}
		}
		switch how {
		case 0:
			done = true
			vfReach("dropped")
			return nil
		case 1:
			if msg[0] == byte(HandshakeTypeFinished) {
				return [][]byte{msg}
			}
			done = true
			vfReach("repeated")
			return [][]byte{msg, msg}
		case 2:
			held = msg
			vfReach("swapped")
			return nil
		}
		done = true
		vfReach("added")
		body := vfBytes("body", []int{0, 1, 4}[vfChoice("size", 3)])
		return [][]byte{vfJoin([]byte{vfU8("type"), 0, 0, byte(len(body))}, body), msg}
	}
	if target == 0 {
		c.act = act
	} else {
		s.act = act
	}
	p.run()
	_ = m
	if !done && held == nil {
		vfStop()
	}
	p.notBothPlain(c, s)
}
