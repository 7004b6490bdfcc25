package mint

// C12: DTLS retransmission omits only what the peer acknowledged.

// vfSentFrag is one handshake fragment found in a record on the wire.
type vfSentFrag struct {
	number        uint64
	seq, off, len int
	acked         bool
	body          []byte
}

// vfFlight is a sender with a flight of messages, some under keys.
type vfFlight struct {
	ctx   *HandshakeContext
	ho    *HandshakeLayer
	wire  *vfWire
	log   *vfAEADLog
	seen  int // records of wire.log already looked at
	sent  []vfSentFrag
	msgs  []*HandshakeMessage
	total int
}

func (f *vfFlight) collect() []vfSentFrag {
	var out []vfSentFrag
	for ; f.seen < len(f.wire.log); f.seen++ {
		p := f.wire.log[f.seen]
		number := uint64(0)
		for i := 3; i < 11; i++ {
			number = number<<8 | uint64(p[i])
		}
		body := p[13:]
		if number>>48 != 0 {
			found := false
			for _, s := range f.log.sealed {
				if vfSame(s.aad, p[:13]) {
					body = s.pt[:len(s.pt)-1]
					found = true
				}
			}
			vfAssert(found, "a protected record was not protected")
		}
		u := func(i, n int) int {
			v := 0
			for ; n > 0; n-- {
				v = v<<8 | int(body[i])
				i++
			}
			return v
		}
		fr := vfSentFrag{number: number, seq: u(4, 2), off: u(6, 3), len: u(9, 3), body: body[12:]}
		vfAssert(len(fr.body) == fr.len, "a fragment's length field is wrong")
		vfAssert(fr.seq < len(f.msgs), "a message is sent that was not queued")
		m := f.msgs[fr.seq]
		vfAssert(u(1, 3) == len(m.body) && fr.off+fr.len <= len(m.body) && body[0] == byte(m.msgType), "a fragment does not describe its message")
		vfAssert(vfSame(fr.body, m.body[fr.off:fr.off+fr.len]), "a fragment carries other bytes than its message")
		for _, o := range f.sent {
			vfAssert(o.number != number, "a record number is used twice")
		}
		out = append(out, fr)
		f.sent = append(f.sent, fr)
	}
	return out
}

// covered: a record that carried bytes off..off+len of message seq was acknowledged.
func (f *vfFlight) covered(seq, off, n int) bool {
	for _, s := range f.sent {
		if s.acked && s.seq == seq && s.off <= off && s.off+s.len >= off+n {
			return true
		}
	}
	return false
}

// split: some message was acknowledged only in parts.
func (f *vfFlight) split() bool {
	for k, m := range f.msgs {
		if !f.covered(k, 0, len(m.body)) {
			return true
		}
	}
	return false
}

// checkRound checks what one retransmission put on the wire.
func (f *vfFlight) checkRound(out []vfSentFrag) {
	for k, m := range f.msgs {
		if len(m.body) == 0 {
			if !f.covered(k, 0, 0) {
				there := false
				for _, o := range out {
					there = there || o.seq == k
				}
				vfAssert(there, "an unacknowledged message is not resent")
			}
			continue
		}
		for b := range m.body {
			there := false
			for _, o := range out {
				there = there || o.seq == k && o.off <= b && b < o.off+o.len
			}
			vfAssert(there || f.covered(k, b, 1), "bytes that were not acknowledged are not resent")
		}
	}
}

func (f *vfFlight) allAcked() bool {
	for k, m := range f.msgs {
		if len(m.body) == 0 && !f.covered(k, 0, 0) {
			return false
		}
		for b := range m.body {
			if !f.covered(k, b, 1) {
				return false
			}
		}
	}
	return true
}

func vfNewFlight(nmsg int) *vfFlight {
	rekey := vfLen("rekeyafter", 0, 2)
	sizes := []int{1 + 2*vfLen("n0", 0, 1), 0, 2}
	return vfNewFlightOf(sizes[:nmsg], 2, rekey)
}

// vfNewFlightOf sends messages with bodies of the given sizes.
func vfNewFlightOf(sizes []int, frag, rekey int) *vfFlight {
	w, _, wire := vfRecPair(true)
	ctx := &HandshakeContext{timers: newTimerSet(), timeoutMS: initialTimeout}
	ho := NewHandshakeLayerDTLS(ctx, w)
	ctx.hOut = ho
	ctx.hIn = NewHandshakeLayerDTLS(ctx, vfRecLayer(&vfConn{r: &vfWire{}, w: &vfWire{}, dgram: true}, DirectionRead, true))
	f := &vfFlight{ctx: ctx, ho: ho, wire: wire, log: &vfAEADLog{}}
	ho.maxFragmentLen = 12 + frag
	for i, n := range sizes {
		m := &HandshakeMessage{msgType: HandshakeType(vfU8("type")), body: vfBytes("body", n), seq: uint32(i), datagram: true, length: uint32(n)}
		f.msgs = append(f.msgs, m)
		vfAssert(ho.QueueMessage(m) == nil, "a message cannot be queued")
		if i+1 == rekey {
			w.Rekey(EpochHandshakeData, f.log.factory, vfKeys(vfKey1, vfIV1))
		}
	}
	_, err := ho.SendQueuedMessages()
	vfAssert(err == nil, "queued messages cannot be sent")
	ctx.timers.start(retransmitTimerLabel, ctx.handshakeRetransmit, ctx.timeoutMS)
	f.checkRound(f.collect())
	return f
}

// VF_C12_resize: retransmissions may be cut into other fragments than the first
// transmission.
//
//vf:bounds a flight of 1..2 messages (bodies 4 and 1 bytes) first sent with 1..4 bytes per fragment; two acknowledgements of any record and two timeouts in any order, the fragment size changing to 1..4 bytes before each timeout
//vf:reach acked timeout skipped
func VF_C12_resize() {
	f := vfNewFlightOf([]int{4, 1}[:vfLen("messages", 1, 2)], vfLen("size", 1, 4), 0)
	for i := 0; i < vfParam("ops", 3, 4); i++ {
		if vfFlag("ack") {
			k := vfChoice("record", len(f.sent))
			if f.sent[k].acked {
				vfStop()
			}
			f.sent[k].acked = true
			vfAssert(f.ctx.processAck(vfAckRecord(f.sent[k].number)) == nil, "an acknowledgement is refused")
			vfReach("acked")
		} else {
			f.ho.maxFragmentLen = 12 + vfLen("resize", 1, 4)
			vfAdvance(uint64(f.ctx.timeoutMS)*1000000 + 1)
			vfAssert(f.ctx.timers.check(vfTimeNow()) == nil, "a retransmission fails")
			vfReach("timeout")
		}
		before := f.allAcked()
		out := f.collect()
		if before {
			vfAssert(len(out) == 0 || f.split(), "something is resent although everything was acknowledged")
			return
		}
		if len(out) < len(f.msgs) {
			vfReach("skipped")
		}
		f.checkRound(out)
	}
}

func vfAckRecord(numbers ...uint64) []byte {
	b := []byte{byte(len(numbers) * 8 >> 8), byte(len(numbers) * 8)}
	for _, n := range numbers {
		for i := 56; i >= 0; i -= 8 {
			b = append(b, byte(n>>uint(i)))
		}
	}
	return b
}

// VF_C12_history
//
//vf:bounds a flight of 1..3 messages (bodies 1 or 3, 0 and 2 bytes, 2 bytes per fragment) with a key change after the first, second or none; every history of 3 (thorough 4) of: acknowledgement of any record sent so far (or of two), of any number never used, or a timeout
//vf:budget 100 600
//vf:reach acked timeout unknown finished
func VF_C12_history() {
	f := vfNewFlight(vfLen("messages", 1, 3))
	n := vfParam("ops", 3, 4)
	for i := 0; i < n; i++ {
		switch vfChoice("op", 4) {
		case 0, 1: // one or two records acknowledged
			var nums []uint64
			for j := vfLen("acks", 1, vfParam("acks", 1, 2)); j > 0; j-- {
				k := vfChoice("record", len(f.sent))
				if f.sent[k].acked {
					vfStop()
				}
				f.sent[k].acked = true
				nums = append(nums, f.sent[k].number)
			}
			vfAssert(f.ctx.processAck(vfAckRecord(nums...)) == nil, "an acknowledgement is refused")
			vfReach("acked")
		case 2:
			x := vfU64("unknown")
			for _, s := range f.sent {
				vfAssume(x != s.number)
			}
			vfAssert(f.ctx.processAck(vfAckRecord(x)) == nil, "an acknowledgement is refused")
			vfReach("unknown")
		case 3:
			vfAdvance(uint64(f.ctx.timeoutMS)*1000000 + 1)
			vfAssert(f.ctx.timers.check(vfTimeNow()) == nil, "a retransmission fails")
			vfReach("timeout")
		}
		before := f.allAcked()
		out := f.collect()
		if before {
			vfAssert(len(out) == 0, "something is resent although everything was acknowledged")
			vfAssert(f.ctx.timers.getTimer(retransmitTimerLabel) == nil, "retransmission goes on although everything was acknowledged")
			vfReach("finished")
			vfAdvance(uint64(f.ctx.timeoutMS)*10000000 + 1)
			vfAssert(f.ctx.timers.check(vfTimeNow()) == nil && len(f.collect()) == 0, "something is resent although everything was acknowledged")
			return
		}
		f.checkRound(out)
		vfAssert(f.ctx.timers.getTimer(retransmitTimerLabel) != nil, "retransmission stops although something is not acknowledged")
	}
}

// VF_C12_ack: what an acknowledgement lists.
//
//vf:bounds 1..4 (thorough 5) records with any numbers, of type handshake or other, in the clear, handshake or an unknown epoch, valid or corrupted; then one acknowledgement
//vf:reach done
func VF_C12_ack() {
	_, rc := vfPipe(true)
	r := vfRecLayer(rc, DirectionRead, true)
	log := &vfAEADLog{}
	out := &vfWire{}
	ctx := &HandshakeContext{timers: newTimerSet(), timeoutMS: initialTimeout}
	hi := NewHandshakeLayerDTLS(ctx, r)
	hi.nonblocking = true
	ctx.hIn = hi
	ctx.hOut = NewHandshakeLayerDTLS(ctx, vfRecLayer(&vfConn{r: &vfWire{}, w: out, dgram: true}, DirectionWrite, true))
	enc := vfFlag("enc")
	if enc {
		r.Rekey(EpochHandshakeData, log.factory, vfKeys(vfKey1, vfIV1))
	}
	var want []uint64
	n := vfLen("n", 1, vfParam("records", 3, 4))
	for i := 0; i < n; i++ {
		a, _ := vfPipe(true)
		w := vfRecLayer(a, DirectionWrite, true)
		epoch := []Epoch{EpochClear, EpochHandshakeData, EpochApplicationData}[vfChoice("epoch", 3)]
		if epoch != EpochClear {
			w.Rekey(epoch, log.factory, vfKeys(vfKey1, vfIV1))
		}
		num := vfU64("number")
		vfAssume(num < vfMaxSeq)
		w.cipher.seq = num
		w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: vfFrag{9, i, 8, 1, []byte{1}}.marshal()})
		p := a.w.log[0]
		good := true
		if epoch != EpochClear && vfFlag("corrupt") {
			p[len(p)-1] ^= 1
			good = false
		}
		if !enc && epoch != EpochClear || enc && epoch != EpochHandshakeData {
			good = false
		}
		rc.r.pkts = append(rc.r.pkts, p)
		hi.ReadMessage()
		if good {
			want = append(want, num|uint64(epoch)<<48)
		}
	}
	vfAssert(ctx.sendAck() == nil, "an acknowledgement cannot be sent")
	vfAssert(len(out.log) == 1, "one acknowledgement is not sent exactly once")
	p := out.log[0]
	vfAssert(p[0] == byte(RecordTypeAck), "an acknowledgement is not of type ack")
	b := p[13:]
	vfAssert(len(b) == 2+8*len(want) && int(b[0])<<8|int(b[1]) == 8*len(want), "the acknowledgement does not list the records received")
	for i, x := range want {
		got := uint64(0)
		for j := 0; j < 8; j++ {
			got = got<<8 | uint64(b[2+8*i+j])
		}
		vfAssert(got == x, "the acknowledgement lists a record number that was not received")
	}
	vfReach("done")
}

// VF_C12_loop: sender and receiver over a lossy wire: what is acknowledged has
// really arrived, and the receiver ends up with everything.
//
//vf:bounds a flight of 2 messages in 2..3 fragments, in the clear; in each of 2 (thorough 3) rounds any subset of the records is lost, then the receiver acknowledges and the acknowledgement is lost or not, then the timer expires; at last a lossless round
//vf:budget 100 600
//vf:reach done skipped
func VF_C12_loop() {
	f := vfNewFlight(2)
	for _, m := range f.msgs {
		if m.cipher.cipher != nil {
			vfStop()
		}
	}
	_, rc := vfPipe(true)
	r := vfRecLayer(rc, DirectionRead, true)
	ackw := &vfWire{}
	ctx := &HandshakeContext{timers: newTimerSet(), timeoutMS: initialTimeout}
	hi := NewHandshakeLayerDTLS(ctx, r)
	hi.nonblocking = true
	ctx.hIn = hi
	ctx.hOut = NewHandshakeLayerDTLS(ctx, vfRecLayer(&vfConn{r: &vfWire{}, w: ackw, dgram: true}, DirectionWrite, true))
	var got []*HandshakeMessage
	read := func() {
		for i := 0; i < 8; i++ {
			hm, err := hi.ReadMessage()
			if err == AlertWouldBlock {
				return
			}
			vfAssert(err == nil, "genuine records make reading fail")
			if hm != nil {
				got = append(got, hm)
			}
		}
	}
	rounds := vfParam("rounds", 2, 3)
	for i := 0; i <= rounds; i++ {
		last := i == rounds
		pkts := f.wire.pkts
		f.wire.pkts = nil
		if len(pkts) < 3 && i > 0 {
			vfReach("skipped")
		}
		for _, p := range pkts {
			if last || !vfFlag("lost") {
				rc.r.pkts = append(rc.r.pkts, p)
			}
		}
		read()
		ackw.log = nil
		vfAssert(ctx.sendAck() == nil, "an acknowledgement cannot be sent")
		if last || !vfFlag("acklost") {
			vfAssert(f.ctx.processAck(ackw.log[0][13:]) == nil, "an acknowledgement is refused")
		}
		if len(f.wire.pkts) == 0 {
			vfAdvance(uint64(f.ctx.timeoutMS)*1000000 + 1)
			vfAssert(f.ctx.timers.check(vfTimeNow()) == nil, "a retransmission fails")
		}
	}
	vfAssert(len(got) == len(f.msgs), "a message never arrives although the last round lost nothing")
	for i, m := range got {
		vfAssert(m.msgType == f.msgs[i].msgType && vfSame(m.body, f.msgs[i].body), "a message arrives changed")
	}
	vfAssert(len(f.wire.pkts) == 0, "records are resent although all were acknowledged")
	vfReach("done")
}
