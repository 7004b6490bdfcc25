package mint

// C11: DTLS handshake reassembly is correct for every order of fragments.

func vfDtlsHS() (*HandshakeLayer, *HandshakeLayer, *vfWire) {
	w, r, wire := vfRecPair(true)
	ctx := &HandshakeContext{timers: newTimerSet(), timeoutMS: initialTimeout}
	ho, hi := NewHandshakeLayerDTLS(ctx, w), NewHandshakeLayerDTLS(ctx, r)
	ctx.hIn, ctx.hOut = hi, ho
	hi.nonblocking = true
	return ho, hi, wire
}

// vfDtlsPoll reads all messages that can be had. Incomplete ones may show up as
// "nothing yet" any number of times.
func vfDtlsPoll(h *HandshakeLayer, got []*HandshakeMessage, max int) []*HandshakeMessage {
	for i := 0; i < max; i++ {
		hm, err := h.ReadMessage()
		if err == AlertWouldBlock {
			return got
		}
		vfAssert(err == nil, "genuine fragments make reading fail")
		if hm != nil {
			got = append(got, hm)
		}
	}
	return got
}

func vfCheckDelivered(got []*HandshakeMessage, want []vfFrag) {
	vfAssert(len(got) <= len(want), "a message is delivered twice")
	for i, hm := range got {
		vfAssert(int(hm.seq) == i, "messages are delivered out of order, or one twice")
		vfAssert(hm.msgType == want[i].typ, "a message is delivered with another type")
		vfAssert(int(hm.length) == len(want[i].body) && hm.offset == 0, "a message is delivered with another length")
		vfAssert(vfSame(hm.body, want[i].body), "a message is delivered with other bytes")
	}
}

func vfPutFrag(w *DefaultRecordLayer, frs ...vfFrag) {
	var b []byte
	for _, f := range frs {
		b = append(b, f.marshal()...)
	}
	vfAssert(w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: b}) == nil, "a record within the limits is refused")
}

// VF_C11_fragments
//
//vf:bounds 2 messages of any type with arbitrary bodies of 3 bytes and 1..2 bytes; every sequence of 4 (thorough 5) fragments, each any piece of either message (overlaps, repeats and any order included), polled after every fragment or at the end
//vf:budget 100 600
//vf:reach all partial
func VF_C11_fragments() {
	ho, hi, _ := vfDtlsHS()
	w := ho.conn.(*DefaultRecordLayer)
	want := []vfFrag{{typ: HandshakeType(vfU8("t0")), body: vfBytes("m0", 3)}, {seq: 1, typ: HandshakeType(vfU8("t1")), body: vfBytes("m1", vfLen("n1", 1, 2))}}
	var have [2][3]bool
	var got []*HandshakeMessage
	each := vfFlag("each")
	n := vfParam("fragments", 4, 5)
	for i := 0; i < n; i++ {
		k := vfChoice("msg", 2)
		m := want[k]
		off := vfLen("off", 0, len(m.body)-1)
		l := vfLen("len", 1, len(m.body)-off)
		vfPutFrag(w, vfFrag{k, off, len(m.body), m.typ, append([]byte{}, m.body[off:off+l]...)})
		for j := off; j < off+l; j++ {
			have[k][j] = true
		}
		if each {
			got = vfDtlsPoll(hi, got, 6)
		}
	}
	got = vfDtlsPoll(hi, got, 16)
	vfCheckDelivered(got, want)
	complete := 0
	for k := 0; k < 2 && complete == k; k++ {
		all := true
		for j := range want[k].body {
			all = all && have[k][j]
		}
		if all {
			complete++
		}
	}
	vfAssert(len(got) >= complete, "all bytes of a message arrived but it is not delivered")
	vfAssert(len(got) <= complete, "a message is delivered before all its bytes arrived")
	if complete == 2 {
		vfReach("all")
	} else {
		vfReach("partial")
	}
}

// VF_C11_three: three messages in few pieces, including empty ones.
//
//vf:bounds 3 messages with bodies of 2, 0..1 and 2 bytes; every sequence of 5 (thorough 6) fragments, each a half or the whole of a message, possibly an empty fragment
//vf:budget 100 600
//vf:reach all partial
func VF_C11_three() {
	ho, hi, _ := vfDtlsHS()
	w := ho.conn.(*DefaultRecordLayer)
	want := []vfFrag{{typ: 1, body: vfBytes("m0", 2)}, {seq: 1, typ: 2, body: vfBytes("m1", vfLen("n1", 0, 1))}, {seq: 2, typ: 3, body: vfBytes("m2", 2)}}
	var have [3][2]bool
	var got []*HandshakeMessage
	seen1 := false
	n := vfParam("fragments", 5, 6)
	for i := 0; i < n; i++ {
		k := vfChoice("msg", 3)
		m := want[k]
		off, l := 0, len(m.body)
		if k != 1 {
			switch vfChoice("part", 3) {
			case 1:
				l = 1
			case 2:
				off, l = 1, 1
			}
		} else {
			seen1 = true
		}
		vfPutFrag(w, vfFrag{k, off, len(m.body), m.typ, append([]byte{}, m.body[off:off+l]...)})
		for j := off; j < off+l; j++ {
			have[k][j] = true
		}
		if i%2 == 1 {
			got = vfDtlsPoll(hi, got, 8)
		}
	}
	got = vfDtlsPoll(hi, got, 16)
	vfCheckDelivered(got, want)
	complete := 0
	if have[0][0] && have[0][1] {
		complete++
		if seen1 {
			complete++
			if have[2][0] && have[2][1] {
				complete++
			}
		}
	}
	vfAssert(len(got) >= complete, "all bytes of a message arrived but it is not delivered")
	vfAssert(len(got) <= complete, "a message is delivered before all its bytes arrived")
	if complete == 3 {
		vfReach("all")
	} else {
		vfReach("partial")
	}
}

// VF_C11_packed: several fragments in one record.
//
//vf:bounds 2 messages of 2 bytes; 2 records of 1..2 fragments (halves or wholes) each
//vf:reach done
func VF_C11_packed() {
	ho, hi, _ := vfDtlsHS()
	w := ho.conn.(*DefaultRecordLayer)
	want := []vfFrag{{typ: 1, body: vfBytes("m0", 2)}, {seq: 1, typ: 2, body: vfBytes("m1", 2)}}
	var have [2][2]bool
	for i := 0; i < 2; i++ {
		var frs []vfFrag
		for j := vfLen("per", 1, 2); j > 0; j-- {
			k := vfChoice("msg", 2)
			off, l := 0, 2
			if p := vfChoice("part", 3); p > 0 {
				off, l = p-1, 1
			}
			frs = append(frs, vfFrag{k, off, 2, want[k].typ, append([]byte{}, want[k].body[off:off+l]...)})
			for x := off; x < off+l; x++ {
				have[k][x] = true
			}
		}
		vfPutFrag(w, frs...)
	}
	got := vfDtlsPoll(hi, nil, 16)
	vfCheckDelivered(got, want)
	complete := 0
	if have[0][0] && have[0][1] {
		complete++
		if have[1][0] && have[1][1] {
			complete++
		}
	}
	vfAssert(len(got) == complete, "the messages delivered are not those all of whose bytes arrived")
	vfReach("done")
}

// VF_C11_sender: what the sender produces is what the receiver needs.
//
//vf:bounds 2 messages with bodies of 0..5 bytes split by a 14..16-byte record limit, their records delivered in any order (up to 4 records; the first then repeated)
//vf:reach done
func VF_C11_sender() {
	ho, hi, wire := vfDtlsHS()
	ho.maxFragmentLen = 12 + vfLen("room", 2, 4)
	want := []vfFrag{{typ: 1, body: vfBytes("m0", vfLen("n0", 0, 5))}, {seq: 1, typ: 20, body: vfBytes("m1", vfLen("n1", 0, 3))}}
	for i, m := range want {
		hm := &HandshakeMessage{msgType: m.typ, body: m.body, seq: uint32(i), datagram: true, length: uint32(len(m.body))}
		vfAssert(ho.QueueMessage(hm) == nil, "a message cannot be queued")
	}
	_, err := ho.SendQueuedMessages()
	vfAssert(err == nil, "queued messages cannot be sent")
	recs := wire.pkts
	if len(recs) > 4 {
		vfStop()
	}
	wire.pkts = nil
	for _, p := range recs {
		vfAssert(len(p)-13 <= ho.maxFragmentLen, "a fragment exceeds the limit")
	}
	used := make([]bool, len(recs))
	for range recs {
		k := vfChoice("next", len(recs))
		if used[k] {
			vfStop()
		}
		used[k] = true
		wire.pkts = append(wire.pkts, recs[k])
	}
	wire.pkts = append(wire.pkts, recs[0])
	got := vfDtlsPoll(hi, nil, 20)
	vfCheckDelivered(got, want)
	vfAssert(len(got) == 2, "all bytes of a message arrived but it is not delivered")
	vfReach("done")
}

// VF_C11_malformed: fragments with arbitrary header fields.
//
//vf:bounds up to 2 (thorough 3) records holding a fragment with any type, sequence number and offset, any message length of 0..5, a body of 0..3 bytes and a fragment length right or off by up to 2; then the genuine message
//vf:reach delivered nothing
func VF_C11_malformed() {
	ho, hi, _ := vfDtlsHS()
	w := ho.conn.(*DefaultRecordLayer)
	n := vfLen("n", 1, vfParam("records", 2, 3))
	type fr struct {
		typ                       byte
		length, seq, off, fraglen int
		body                      []byte
	}
	var frs []fr
	for i := 0; i < n; i++ {
		b := vfBytes("frag", 12+vfLen("body", 0, 3))
		vfAssume(b[1] == 0 && b[2] == 0 && b[3] <= 5)
		l := len(b) - 12
		fl := l + vfLen("skew", 0, 2) - 1
		if fl < 0 {
			vfStop()
		}
		b[9], b[10], b[11] = 0, 0, byte(fl)
		frs = append(frs, fr{b[0], int(b[3]), int(b[4])<<8 | int(b[5]), int(b[6])<<16 | int(b[7])<<8 | int(b[8]), fl, b[12:]})
		w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: b})
	}
	for i := 0; i < 8; i++ {
		hm, err := hi.ReadMessage()
		if err != nil {
			vfAssert(hm == nil, "a message comes with an error")
			if err == AlertWouldBlock {
				break
			}
			continue
		}
		if hm == nil {
			vfReach("nothing")
			continue
		}
		vfReach("delivered")
		vfAssert(len(hm.body) == int(hm.length), "a message is delivered whose body is not of its length")
		for j := range hm.body {
			ok := false
			for _, f := range frs {
				for x := range f.body {
					if x < f.fraglen {
						ok = vfOr(ok, vfAnd(vfAnd(f.seq == int(hm.seq), f.off+x == j), vfAnd(f.length == int(hm.length), f.body[x] == hm.body[j])))
					}
				}
			}
			vfAssert(ok, "bytes are delivered that nobody sent at that place")
		}
	}
}

// VF_C11_recovers: a bad fragment does not spoil the records after it.
//
//vf:bounds one record with a truncated or oversized fragment (any header fields but a later message number or a consistent length), then the genuine message of 2 bytes in 1 or 2 fragments
//vf:reach done
func VF_C11_recovers() {
	ho, hi, _ := vfDtlsHS()
	w := ho.conn.(*DefaultRecordLayer)
	b := vfBytes("frag", vfLen("bad", 1, 14))
	if len(b) >= 12 {
		// the fragment claims more bytes than the record has, or lies outside the message
		if vfFlag("outside") {
			l := len(b) - 12
			vfAssume(b[9] == 0 && b[10] == 0 && b[11] == byte(l))
			vfAssume(b[1] == 0 && b[2] == 0 && b[3] <= 5)
			off := int(b[6])<<16 | int(b[7])<<8 | int(b[8])
			vfAssume(off+l > int(b[3]))
		} else {
			vfAssume(b[9] == 0 && b[10] == 0 && int(b[11]) > len(b)-12 && b[11] < 40)
		}
	}
	w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: b})
	var got []*HandshakeMessage
	if vfFlag("poll") {
		got = vfDtlsPoll(hi, nil, 4)
	}
	want := []vfFrag{{typ: 1, body: vfBytes("m0", 2)}}
	if vfFlag("split") {
		vfPutFrag(w, vfFrag{0, 0, 2, 1, want[0].body[:1]})
		vfPutFrag(w, vfFrag{0, 1, 2, 1, want[0].body[1:]})
	} else {
		vfPutFrag(w, vfFrag{0, 0, 2, 1, want[0].body})
	}
	got = vfDtlsPoll(hi, got, 8)
	vfCheckDelivered(got, want)
	vfAssert(len(got) == 1, "a bad fragment spoils the genuine message")
	vfReach("done")
}
