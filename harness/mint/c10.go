package mint

// C10: TLS handshake messages are independent of record boundaries.

func vfHSPair() (*HandshakeLayer, *HandshakeLayer, *vfWire) {
	w, r, wire := vfRecPair(false)
	ho := NewHandshakeLayerTLS(&HandshakeContext{}, w)
	hi := NewHandshakeLayerTLS(&HandshakeContext{}, r)
	hi.ctx.hIn, hi.ctx.hOut = hi, ho
	ho.ctx = hi.ctx
	hi.nonblocking = true
	return ho, hi, wire
}

func vfMessage(name string, n int) *HandshakeMessage {
	return &HandshakeMessage{msgType: HandshakeType(vfU8(name + "type")), body: vfPayload(name+"body", n), length: uint32(n)}
}

// vfReadAll polls for messages while anything changes.
func vfReadAll(h *HandshakeLayer, max int) ([]*HandshakeMessage, error) {
	var out []*HandshakeMessage
	for i := 0; i < max; i++ {
		hm, err := h.ReadMessage()
		if err == AlertWouldBlock {
			vfAssert(hm == nil, "a message comes with would-block")
			return out, nil
		}
		if err != nil {
			vfAssert(hm == nil, "a message comes with an error")
			return out, err
		}
		if hm != nil {
			out = append(out, hm)
		}
	}
	return out, nil
}

func vfSameMessages(got, want []*HandshakeMessage, what string) {
	vfAssert(len(got) == len(want), what+": a different number of messages is delivered")
	for i := range got {
		vfAssert(got[i].msgType == want[i].msgType, what+": message type changed")
		vfAssert(int(got[i].length) == len(want[i].body) && vfSame(got[i].body, want[i].body), what+": message body changed")
	}
}

// VF_C10_rerecord: the byte stream of some messages cut into records anywhere.
//
//vf:bounds 1..3 messages of any type with bodies of 0..3 bytes, their stream cut at any 2 (thorough 3) positions into records (possibly empty ones), clear or protected
//vf:reach done
func VF_C10_rerecord() {
	ho, hi, wire := vfHSPair()
	rin := hi.conn.(*DefaultRecordLayer)
	n := vfLen("n", 1, 3)
	var want []*HandshakeMessage
	var s []byte
	for i := 0; i < n; i++ {
		m := vfMessage("m", vfLen("len", 0, 1)*3)
		want = append(want, m)
		s = append(s, m.Marshal()...)
	}
	w := ho.conn.(*DefaultRecordLayer)
	if vfFlag("enc") {
		w.Rekey(EpochHandshakeData, newAESGCM, vfKeys(vfKey1, vfIV1))
		rin.Rekey(EpochHandshakeData, newAESGCM, vfKeys(vfKey1, vfIV1))
	}
	_ = wire
	pos := 0
	for i := vfParam("cuts", 2, 3); i >= 0; i-- {
		cut := len(s)
		if i > 0 {
			cut = vfLen("cut", pos, len(s))
		}
		vfAssert(w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: s[pos:cut]}) == nil, "a record within the limits is refused")
		pos = cut
	}
	got, err := vfReadAll(hi, 12)
	vfAssert(err == nil, "well-formed handshake records are refused")
	vfSameMessages(got, want, "re-cut records")
	vfReach("done")
}

// VF_C10_incremental: the same with reads between the records.
//
//vf:bounds 1..2 messages of any type with bodies of 0..3 bytes, stream cut at any 2 positions into records, read after every record
//vf:reach done
func VF_C10_incremental() {
	ho, hi, wire := vfHSPair()
	n := vfLen("n", 1, 2)
	var want []*HandshakeMessage
	var s []byte
	for i := 0; i < n; i++ {
		m := vfMessage("m", vfLen("len", 0, 3))
		want = append(want, m)
		s = append(s, m.Marshal()...)
	}
	w := ho.conn.(*DefaultRecordLayer)
	_ = wire
	var got []*HandshakeMessage
	pos := 0
	for i := 2; i >= 0; i-- {
		cut := len(s)
		if i > 0 {
			cut = vfLen("cut", pos, len(s))
		}
		w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: s[pos:cut]})
		pos = cut
		more, err := vfReadAll(hi, 8)
		vfAssert(err == nil, "well-formed handshake records are refused")
		got = append(got, more...)
		// every message that is complete has been delivered
		have := 0
		for _, m := range want[:len(got)] {
			have += 4 + len(m.body)
		}
		if len(got) < n {
			vfAssert(pos < have+4+len(want[len(got)].body), "a complete message is held back")
		}
	}
	vfSameMessages(got, want, "re-cut records")
	vfReach("done")
}

// VF_C10_post: messages after the handshake, cut into records anywhere; a
// message that is not complete is followed by nothing but its rest.
//
//vf:bounds client and server; a session ticket (client) and a KeyUpdate, their stream cut at any 2 (thorough 3) positions into records; nothing, an application data record, a warning alert or an unknown content type put after any of them, and a data record at the end; read after every record, or at the end
//vf:reach client server done refused
//vf:budget 60 300
func VF_C10_post() {
	client := vfFlag("client")
	p := vfLive(client, TLS_AES_128_GCM_SHA256)
	var stream []byte
	ends := map[int]bool{0: true}
	if client {
		vfReach("client")
		stream = vfMsg(HandshakeTypeNewSessionTicket, vfJoin(make([]byte, 8), vfVec(1, nil), vfVec(2, []byte{7}), vfVec(2, nil)))
		ends[len(stream)] = true
	} else {
		vfReach("server")
	}
	stream = append(stream, vfMsg(HandshakeTypeKeyUpdate, []byte{0})...)
	ends[len(stream)] = true
	n := vfParam("cuts", 2, 3)
	cuts := []int{0}
	for i := 0; i < n; i++ {
		cuts = append(cuts, vfLen("cut", cuts[i], len(stream)))
	}
	cuts = append(cuts, len(stream))
	other := vfChoice("other", 4)
	at := -1
	if other > 0 {
		at = vfLen("at", 1, n)
	}
	each := vfFlag("read after each")
	b := make([]byte, 4)
	bad, data := false, 0
	for i := 1; i < len(cuts); i++ {
		if cuts[i-1] == cuts[i] {
			continue
		}
		p.record(RecordTypeHandshake, stream[cuts[i-1]:cuts[i]])
		if i == at && cuts[i] < len(stream) {
			switch other {
			case 1:
				p.record(RecordTypeApplicationData, []byte{41})
				data++
			case 2:
				p.record(RecordTypeAlert, []byte{AlertLevelWarning, byte(AlertUserCanceled)})
			case 3:
				p.record(RecordType(99), []byte{1})
			}
			bad = !ends[cuts[i]] || other == 3
		}
		if each && !bad {
			got := vfDrainOne(p, b)
			if data > 0 && got == 41 {
				data--
			}
		}
	}
	p.update()
	p.record(RecordTypeApplicationData, []byte{42})
	for i := 0; i < 4; i++ {
		k, err := p.ep.Read(b)
		if bad {
			vfAssert(k == 0 && err != nil && err != AlertWouldBlock, "a message is interrupted and reading goes on")
			vfReach("refused")
			return
		}
		vfAssert(err == nil && k == 1, "messages in several records end the stream")
		if b[0] == 42 {
			break
		}
		vfAssert(b[0] == 41 && data > 0, "data nobody sent")
		data--
	}
	vfAssert(data == 0, "data is lost")
	if client {
		psk, ok := p.ep.config.PSKs.Get(p.ep.config.ServerName)
		vfAssert(ok && vfEq(psk.Identity, []byte{7}), "a ticket in several records is lost")
	}
	vfReach("done")
}

// vfDrainOne reads once, when there may be nothing.
func vfDrainOne(p *vfPeer, b []byte) byte {
	k, err := p.ep.Read(b)
	if err == AlertWouldBlock {
		return 0
	}
	vfAssert(err == nil && k == 1, "part of a message ends the stream")
	return b[0]
}

// VF_C10_write: how the sender divides messages.
//
//vf:bounds messages with bodies of 0, 1, 16379..16385, 32763..32768, 70000 bytes (thorough also 49148 and 200000), followed by a short one; clear and protected
//vf:reach done
func VF_C10_write() {
	ho, hi, wire := vfHSPair()
	w, r := ho.conn.(*DefaultRecordLayer), hi.conn.(*DefaultRecordLayer)
	sizes := []int{0, 1, 16379, 16380, 16381, 16383, 16384, 16385, 32763, 32764, 32765, 32768, 70000, 49148, 200000}
	n := sizes[vfChoice("size", vfParam("sizes", 13, 15))]
	enc := vfFlag("enc")
	if enc {
		w.Rekey(EpochHandshakeData, newAESGCM, vfKeys(vfKey1, vfIV1))
		r.Rekey(EpochHandshakeData, newAESGCM, vfKeys(vfKey1, vfIV1))
	}
	want := []*HandshakeMessage{vfMessage("a", n), vfMessage("b", vfLen("second", 0, 2))}
	if vfFlag("batch") {
		_, err := ho.WriteMessages(want)
		vfAssert(err == nil, "a message cannot be written")
	} else {
		for _, m := range want {
			vfAssert(ho.QueueMessage(m) == nil, "a message cannot be queued")
		}
		_, err := ho.SendQueuedMessages()
		vfAssert(err == nil, "queued messages cannot be sent")
	}
	for _, p := range wire.log {
		l := int(p[3])<<8 | int(p[4])
		limit := 16384
		if enc {
			limit = 16384 + 256
		}
		vfAssert(len(p) == l+5 && l <= limit && l > 0, "a handshake record exceeds the limit or is empty")
	}
	got, err := vfReadAll(hi, 12)
	vfAssert(err == nil, "a message that was written cannot be read")
	vfSameMessages(got, want, "written messages")
	vfReach("done")
}

// VF_C10_toolong: a message that does not fit the length field is refused.
//
//vf:bounds bodies of 2^24 and 2^24+1 bytes
//vf:steps 200000000
//vf:reach done
func VF_C10_toolong() {
	ho, _, wire := vfHSPair()
	n := 1<<24 + vfLen("over", 0, 1)
	_, err := ho.WriteMessage(&HandshakeMessage{msgType: HandshakeTypeCertificate, body: make([]byte, n), length: uint32(n)})
	vfAssert(err != nil && len(wire.log) == 0, "a message longer than its length field can say is sent")
	vfReach("done")
}

// VF_C10_malformed: records that do not belong in a handshake.
//
//vf:bounds 3 (thorough 4) records of any content type with bodies of 0..5 bytes (any bytes, handshake lengths up to 5)
//vf:reach message alert wrongtype shortalert
func VF_C10_malformed() {
	ho, hi, _ := vfHSPair()
	w := ho.conn.(*DefaultRecordLayer)
	var stream []byte
	stop := false
	alert := -1
	n := vfParam("records", 3, 4)
	for i := 0; i < n; i++ {
		ct := []RecordType{RecordTypeHandshake, RecordTypeAlert, RecordTypeApplicationData, RecordTypeAck}[vfChoice("ct", 4)]
		l := vfLen("len", 0, 5)
		if ct != RecordTypeHandshake && l > 3 || ct == RecordTypeHandshake && l == 3 {
			vfStop()
		}
		b := vfBytes("rec", l)
		w.WriteRecord(&TLSPlaintext{contentType: ct, fragment: b})
		if stop {
			continue
		}
		switch {
		case ct == RecordTypeHandshake:
			stream = append(stream, b...)
		case ct == RecordTypeAlert && l == 2:
			stop = true
			alert = int(b[1])
			vfReach("alert")
		case ct == RecordTypeAlert:
			stop = true
			vfReach("shortalert")
		default:
			stop = true
			vfReach("wrongtype")
		}
	}
	// reference parse; lengths kept small
	var want []*HandshakeMessage
	for len(stream) >= 4 {
		vfAssume(stream[1] == 0 && stream[2] == 0 && stream[3] <= 5)
		k := vfConcrete(int(stream[3]))
		if len(stream) < 4+k {
			break
		}
		want = append(want, &HandshakeMessage{msgType: HandshakeType(stream[0]), body: stream[4 : 4+k]})
		stream = stream[4+k:]
		vfReach("message")
	}
	got, err := vfReadAll(hi, 12)
	vfSameMessages(got, want, "mixed records")
	vfAssert((err != nil) == stop, "an unexpected or malformed record is not an error, or a proper one is")
	if alert >= 0 && alert < 253 {
		vfAssert(err == Alert(alert), "an alert is not reported as itself")
	}
}
