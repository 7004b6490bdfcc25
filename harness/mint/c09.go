package mint

// C09: DTLS records are opened with the key of the epoch they name.

type vfEpochWriter struct {
	epoch Epoch
	w     *DefaultRecordLayer
	wire  *vfWire
}

// vfEpochSetup is a reader that has gone through the epochs clear, early data
// (optional), handshake and application data, and one writer per epoch.
func vfEpochSetup() (*DefaultRecordLayer, *vfWire, []vfEpochWriter, *vfAEADLog, int) {
	_, rc := vfPipe(true)
	r := vfRecLayer(rc, DirectionRead, true)
	log := &vfAEADLog{}
	epochs := []Epoch{EpochClear, EpochEarlyData, EpochHandshakeData, EpochApplicationData}
	installed := vfLen("installed", 1, 3)
	var ws []vfEpochWriter
	for i, e := range epochs {
		a, _ := vfPipe(true)
		w := vfRecLayer(a, DirectionWrite, true)
		if e != EpochClear {
			w.Rekey(e, log.factory, vfKeys([]byte{byte(e)}, vfIV1))
			if i <= installed {
				vfAssert(r.Rekey(e, log.factory, vfKeys([]byte{byte(e)}, vfIV1)) == nil, "rekey fails")
			}
		}
		ws = append(ws, vfEpochWriter{e, w, a.w})
	}
	return r, rc.r, ws, log, installed
}

// VF_C09_epochs: records of every epoch at a reader in a later epoch.
//
//vf:bounds a reader with 1..3 installed epochs beyond clear, 2 records each written in any of 4 epochs with 0..1 bytes at any record number, read by ReadRecord or ReadRecordAnyEpoch in any order; an old epoch's key possibly discarded
//vf:reach current old unknown discarded
func VF_C09_epochs() {
	r, in, ws, log, installed := vfEpochSetup()
	cur := installed
	gone := -1
	if vfFlag("discard") {
		gone = vfChoice("gone", 3)
		if gone >= cur {
			vfStop()
		}
		r.DiscardReadKey(ws[gone].epoch)
	}
	for i := 0; i < 2; i++ {
		k := vfChoice("epoch", 4)
		num := vfU64("number")
		vfAssume(num < vfMaxSeq)
		w := ws[k]
		w.w.cipher.seq = num
		pay := vfBytes("pay", vfLen("len", 0, 1))
		vfAssert(w.w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: pay}) == nil, "a record within the limits is refused")
		in.pkts = append(in.pkts, w.wire.log[len(w.wire.log)-1])
		any := vfFlag("any")
		before := r.cipher.seq
		opened := len(log.opened)
		var pt *TLSPlaintext
		var err error
		if any {
			pt, err = r.ReadRecordAnyEpoch()
		} else {
			pt, err = r.ReadRecord()
		}
		vfAssert(len(in.pkts) == 0, "a record is not taken off the wire")
		switch {
		case k > cur, k == gone, k < cur && !any:
			vfAssert(err == AlertWouldBlock && pt == nil, "a record of another epoch is not dropped silently")
			vfAssert(r.cipher.seq == before && len(log.opened) == opened, "a dropped record has an effect")
			if k > cur {
				vfReach("unknown")
			} else if k == gone {
				vfReach("discarded")
			}
		default:
			vfAssert(err == nil && pt != nil, "a record of an installed epoch is refused")
			vfAssert(pt.contentType == RecordTypeHandshake && vfSame(pt.fragment, pay), "record changed")
			vfAssert(pt.epoch == w.epoch, "the epoch reported is not the one the record was protected under")
			vfAssert(pt.seq == num|uint64(w.epoch)<<48, "the record number reported is not the one the record was protected under")
			if k < cur {
				vfReach("old")
			} else {
				vfReach("current")
			}
		}
		vfAssert(r.Epoch() == ws[cur].epoch, "reading changes the current epoch")
	}
}

// VF_C09_crossed: a record protected under one epoch's key but naming another
// is never delivered.
//
//vf:bounds every pair of different epochs of 4; any header number; ReadRecord and ReadRecordAnyEpoch; then a genuine record
//vf:reach done
func VF_C09_crossed() {
	r, in, ws, _, cur := vfEpochSetup()
	k, named := vfChoice("epoch", 4), vfChoice("named", 4)
	if k == named || named == 0 {
		vfStop()
	}
	num := vfU64("number")
	vfAssume(num < vfMaxSeq-2)
	w := ws[k]
	w.w.cipher.seq = num
	vfAssert(w.w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: vfBytes("pay", 1)}) == nil, "a record within the limits is refused")
	p := append([]byte{}, w.wire.log[0]...)
	p[3], p[4] = 0, byte(ws[named].epoch)
	in.pkts = append(in.pkts, p)
	var pt *TLSPlaintext
	var err error
	if vfFlag("any") {
		pt, err = r.ReadRecordAnyEpoch()
	} else {
		pt, err = r.ReadRecord()
	}
	vfAssert(err != nil && pt == nil, "a record protected under another epoch's key is delivered")
	g := &TLSPlaintext{contentType: RecordTypeHandshake, fragment: vfBytes("pay", 1)}
	ws[cur].w.WriteRecord(g)
	in.pkts = append(in.pkts, ws[cur].wire.log[len(ws[cur].wire.log)-1])
	vfMustRead(r, g, "after a record of a wrong epoch")
	vfReach("done")
}

// VF_C09_ordinary: records of old epochs between current ones never show up in
// ordinary reads, whatever was peeked.
//
//vf:bounds 3 records each in the handshake or application epoch, peek before each read or not
//vf:reach done
func VF_C09_ordinary() {
	_, rc := vfPipe(true)
	r := vfRecLayer(rc, DirectionRead, true)
	log := &vfAEADLog{}
	var ws []*DefaultRecordLayer
	var wires []*vfWire
	for _, e := range []Epoch{EpochHandshakeData, EpochApplicationData} {
		a, _ := vfPipe(true)
		w := vfRecLayer(a, DirectionWrite, true)
		w.Rekey(e, log.factory, vfKeys([]byte{byte(e)}, vfIV1))
		r.Rekey(e, log.factory, vfKeys([]byte{byte(e)}, vfIV1))
		ws = append(ws, w)
		wires = append(wires, a.w)
	}
	for i := 0; i < 3; i++ {
		k := vfChoice("epoch", 2)
		g := &TLSPlaintext{contentType: vfType("type"), fragment: vfBytes("pay", 1)}
		ws[k].WriteRecord(g)
		rc.r.pkts = append(rc.r.pkts, wires[k].log[len(wires[k].log)-1])
		if k == 0 {
			if vfFlag("peek") {
				_, err := r.PeekRecordType(false)
				vfAssert(err == AlertWouldBlock, "peek sees a record of an old epoch")
			} else {
				vfMustReject(r, "a record of an old epoch")
			}
		} else {
			if vfFlag("peek") {
				t, err := r.PeekRecordType(false)
				vfAssert(err == nil && t == g.contentType, "peek fails")
			}
			vfMustRead(r, g, "current epoch")
		}
	}
	vfReach("done")
}

// VF_C09_handshake: handshake reading drops stale records of earlier epochs.
//
//vf:bounds DTLS handshake layer in the application epoch (or handshake epoch); up to 2 stale handshake records of the clear or handshake epoch, then the genuine message
//vf:reach done
func VF_C09_handshake() {
	r, in, ws, _, cur := vfEpochSetup()
	if cur < 2 {
		vfStop()
	}
	ctx := &HandshakeContext{timers: newTimerSet()}
	h := NewHandshakeLayerDTLS(ctx, r)
	h.nonblocking = true
	ctx.hIn = h
	ctx.hOut = NewHandshakeLayerDTLS(ctx, vfRecLayer(&vfConn{r: &vfWire{}, w: &vfWire{}, dgram: true}, DirectionWrite, true))
	put := func(k int, body []byte) {
		hm := &HandshakeMessage{msgType: HandshakeTypeFinished, body: body, length: uint32(len(body)), datagram: true}
		ws[k].w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: hm.Marshal()})
		in.pkts = append(in.pkts, ws[k].wire.log[len(ws[k].wire.log)-1])
	}
	for n := vfLen("stale", 0, 2); n > 0; n-- {
		k := vfChoice("k", 3)
		if k == 1 || k >= cur {
			vfStop()
		}
		put(k, vfBytes("old", 2))
	}
	body := vfBytes("new", 2)
	put(cur, body)
	var hm *HandshakeMessage
	var err error
	for i := 0; i < 6 && hm == nil; i++ {
		hm, err = h.ReadMessage()
		vfAssert(err == nil || err == AlertWouldBlock, "a stale record of an earlier epoch makes reading fail")
	}
	vfAssert(hm != nil, "the genuine message is never delivered")
	vfAssert(hm.msgType == HandshakeTypeFinished && vfSame(hm.body, body), "a stale record of an earlier epoch is delivered")
	vfReach("done")
}
