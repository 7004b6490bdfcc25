package mint

// C06: nonces are never reused, record numbers follow the protocol.

// vfWireHeader checks the header of a record on the wire.
func vfCheckHeader(dtls bool, rec []byte, ct RecordType, number uint64, n int) []byte {
	hl := 5
	if dtls {
		hl = 13
	}
	vfAssert(len(rec) == hl+n, "record on the wire has the wrong size")
	vfAssert(rec[0] == byte(ct), "record header has the wrong content type")
	vfAssert(int(rec[hl-2])<<8|int(rec[hl-1]) == n, "record header has the wrong length")
	if dtls {
		vfAssert(rec[1] == 0xfe && (rec[2] == 0xfd || rec[2] == 0xff), "record header has the wrong version")
		got := uint64(0)
		for i := 3; i < 11; i++ {
			got = got<<8 | uint64(rec[i])
		}
		vfAssert(got == number, "record header has the wrong record number")
	} else {
		vfAssert(rec[1] == 3 && (rec[2] == 3 || rec[2] == 1), "record header has the wrong version")
	}
	return rec[:hl]
}

// VF_C06_nonce: nonce, additional data and header of consecutive records.
//
//vf:bounds every 12-byte IV, every starting record number, 3 records of 0..3 bytes with padding 0..2, TLS and DTLS, every 16-bit epoch
//vf:reach done
func VF_C06_nonce() {
	dtls := vfFlag("dtls")
	w, _, wire := vfRecPair(dtls)
	log := &vfAEADLog{}
	iv := vfBytes("iv", 12)
	epoch := Epoch(vfU16("epoch"))
	vfAssert(w.Rekey(epoch, log.factory, vfKeys(vfKey1, iv)) == nil, "rekey fails")
	vfAssert(w.cipher.seq == 0, "the record number does not start at zero after a key change")
	start := vfU64("start")
	vfAssume(start < vfMaxSeq-3)
	w.cipher.seq = start
	for i := 0; i < 3; i++ {
		pay := vfBytes("pay", vfLen("len", 0, 1)*3)
		pad := vfLen("pad", 0, 1) * 2
		vfAssert(w.WriteRecordWithPadding(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: pay}, pad) == nil, "a record within the limits is refused")
		vfAssert(len(log.sealed) == i+1 && len(wire.log) == i+1, "one record is not protected exactly once")
		s := log.sealed[i]
		number := start + uint64(i)
		if dtls {
			number |= uint64(epoch) << 48
		}
		vfAssert(vfEq(s.nonce, vfNonce(iv, number)), "nonce is not the IV combined with the record number")
		vfAssert(vfEq(s.key, vfKey1), "record protected under another key")
		hdr := vfCheckHeader(dtls, wire.log[i], RecordTypeApplicationData, number, len(pay)+1+pad+16)
		vfAssert(vfEq(s.aad, hdr), "the authenticated header is not the one sent")
		vfAssert(len(s.pt) == len(pay)+1+pad && vfEq(s.pt[:len(pay)], pay) && s.pt[len(pay)] == byte(RecordTypeHandshake), "protected plaintext is not payload, type and padding")
		for _, b := range s.pt[len(pay)+1:] {
			vfAssert(b == 0, "padding is not zero")
		}
		vfAssert(vfEq(wire.log[i][len(hdr):], s.ct), "what is sent is not the protected record")
		for j := 0; j < i; j++ {
			vfAssert(vfNot(vfEq(log.sealed[j].nonce, s.nonce)), "nonce used twice under one key")
		}
	}
	vfReach("done")
}

// VF_C06_read: the reader uses the same rule.
//
//vf:bounds every IV, every starting record number and epoch, 2 records of 0..2 bytes, TLS and DTLS
//vf:reach done
func VF_C06_read() {
	dtls := vfFlag("dtls")
	w, r, wire := vfRecPair(dtls)
	log := &vfAEADLog{}
	iv := vfBytes("iv", 12)
	epoch := Epoch(vfU16("epoch"))
	w.Rekey(epoch, log.factory, vfKeys(vfKey1, iv))
	r.Rekey(epoch, log.factory, vfKeys(vfKey1, iv))
	vfAssert(r.cipher.seq == 0, "the record number does not start at zero after a key change")
	start := vfU64("start")
	vfAssume(start < vfMaxSeq-3)
	w.cipher.seq, r.cipher.seq = start, start
	for i := 0; i < 2; i++ {
		w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: vfBytes("pay", vfLen("len", 0, 2))})
		_, err := r.ReadRecord()
		vfAssert(err == nil, "a record that was written cannot be read")
		number := start + uint64(i)
		if dtls {
			number |= uint64(epoch) << 48
		}
		vfAssert(len(log.opened) == i+1, "one record is not opened exactly once")
		o := log.opened[i]
		vfAssert(vfEq(o.nonce, vfNonce(iv, number)), "nonce used for reading is not the IV combined with the record number")
		hl := 5
		if dtls {
			hl = 13
		}
		vfAssert(vfEq(o.aad, wire.log[i][:hl]), "the authenticated header is not the one received")
		vfAssert(vfEq(o.ct, wire.log[i][hl:]), "the record opened is not the one received")
	}
	vfReach("done")
}

// VF_C06_rekey: histories of writes, key changes and failed writes.
//
//vf:bounds every history of up to 5 (thorough 6) of: write, write with an oversize payload, change to a fresh key; TLS and DTLS; every IV
//vf:reach done
func VF_C06_rekey() {
	dtls := vfFlag("dtls")
	w, _, wire := vfRecPair(dtls)
	log := &vfAEADLog{}
	iv := vfBytes("iv", 12)
	next := uint64(0)
	keys := 0
	key := []byte{0}
	rekey := func() {
		keys++
		next = 0
		key = []byte{byte(keys)}
		vfAssert(w.Rekey(Epoch(keys+1), log.factory, vfKeys(key, iv)) == nil, "rekey fails")
	}
	rekey()
	n := vfParam("ops", 5, 6)
	for i := 0; i < n; i++ {
		switch vfChoice("op", 3) {
		case 0:
			before := len(wire.log)
			vfAssert(w.WriteRecord(&TLSPlaintext{contentType: RecordTypeAlert, fragment: []byte{2, 0}}) == nil, "a record within the limits is refused")
			s := log.sealed[len(log.sealed)-1]
			number := next
			if dtls {
				number |= uint64(keys+1) << 48
			}
			vfAssert(len(wire.log) == before+1, "one record is not sent exactly once")
			vfAssert(vfEq(s.key, key), "record protected under another key")
			vfAssert(vfEq(s.nonce, vfNonce(iv, number)), "record numbers do not rise by one from zero under each key")
			next++
		case 1:
			before := len(wire.log)
			err := w.WriteRecordWithPadding(&TLSPlaintext{contentType: RecordTypeAlert, fragment: make([]byte, 2)}, maxFragmentLen)
			vfAssert(err != nil && len(wire.log) == before, "an oversize record is sent")
			if w.cipher.seq != next {
				// skipping a number is allowed only if it is never sent
				next = w.cipher.seq
			}
		case 2:
			rekey()
		}
	}
	// no nonce appears twice on the wire under one key
	for i := range log.sealed {
		for j := 0; j < i; j++ {
			a, b := log.sealed[i], log.sealed[j]
			sentA, sentB := len(a.pt) < 100, len(b.pt) < 100
			if sentA && sentB {
				vfAssert(vfNot(vfAnd(vfEq(a.nonce, b.nonce), vfEq(a.key, b.key))), "nonce used twice under one key")
			}
		}
	}
	vfReach("done")
}

// VF_C06_wrap: the record number never wraps.
//
//vf:bounds every starting record number from 2^48-4 to 2^64-1; 3 writes; TLS and DTLS; every IV
//vf:reach stopped
func VF_C06_wrap() {
	dtls := vfFlag("dtls")
	w, _, wire := vfRecPair(dtls)
	log := &vfAEADLog{}
	iv := vfBytes("iv", 12)
	w.Rekey(EpochApplicationData, log.factory, vfKeys(vfKey1, iv))
	start := vfU64("start")
	vfAssume(start >= vfMaxSeq-3)
	w.cipher.seq = start
	for i := 0; i < 5; i++ {
		cur := w.cipher.seq
		refused := vfTryWrite(w)
		if refused {
			vfReach("stopped")
			vfAssert(len(wire.log) == i, "a record is sent although it was refused")
			vfAssert(vfTryWrite(w) && len(wire.log) == i, "writing resumes after the record numbers ran out")
			return
		}
		vfAssert(cur < vfMaxSeq && len(wire.log) == i+1, "a record number beyond 48 bits is used")
		s := log.sealed[i]
		number := cur
		if dtls {
			number |= uint64(EpochApplicationData) << 48
		}
		vfAssert(vfEq(s.nonce, vfNonce(iv, number)), "record numbers wrap")
	}
	vfAssert(false, "record numbers wrap")
}

// vfTryWrite writes a record and reports whether it was refused (by an error
// or by the documented panic).
func vfTryWrite(w *DefaultRecordLayer) (refused bool) {
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	return w.WriteRecord(&TLSPlaintext{contentType: RecordTypeAlert, fragment: []byte{2, 0}}) != nil
}

// VF_C06_old_epoch: retransmitting under the previous keys continues that
// key's numbers and does not disturb the current one's.
//
//vf:bounds DTLS; histories of up to 4 (thorough 5) writes, each under the old or the current keys; every IV
//vf:reach done
func VF_C06_old_epoch() {
	w, _, wire := vfRecPair(true)
	log := &vfAEADLog{}
	iv1, iv2 := vfBytes("iv1", 12), vfBytes("iv2", 12)
	ctx := &HandshakeContext{timers: newTimerSet()}
	h := NewHandshakeLayerDTLS(ctx, w)
	w.Rekey(EpochHandshakeData, log.factory, vfKeys(vfKey1, iv1))
	old := &HandshakeMessage{msgType: HandshakeTypeFinished, body: []byte{1, 2}, length: 2, datagram: true}
	vfAssert(h.QueueMessage(old) == nil, "queueing a message fails")
	w.Rekey(EpochApplicationData, log.factory, vfKeys(vfKey2, iv2))
	nOld, nNew := uint64(0), uint64(0)
	n := vfParam("ops", 4, 5)
	for i := 0; i < n; i++ {
		if vfFlag("old") {
			_, err := h.SendQueuedMessages()
			vfAssert(err == nil, "retransmission fails")
			s := log.sealed[i]
			vfAssert(vfEq(s.key, vfKey1) && vfEq(s.nonce, vfNonce(iv1, nOld|uint64(EpochHandshakeData)<<48)), "a retransmission does not continue the numbers of the message's own keys")
			vfCheckHeader(true, wire.log[i], RecordTypeApplicationData, nOld|uint64(EpochHandshakeData)<<48, 12+2+1+16)
			nOld++
		} else {
			vfAssert(w.WriteRecord(&TLSPlaintext{contentType: RecordTypeAlert, fragment: []byte{2, 0}}) == nil, "a record within the limits is refused")
			s := log.sealed[i]
			vfAssert(vfEq(s.key, vfKey2) && vfEq(s.nonce, vfNonce(iv2, nNew|uint64(EpochApplicationData)<<48)), "a retransmission disturbs the current record numbers")
			nNew++
		}
	}
	vfReach("done")
}

// VF_C06_clear: record numbers of unprotected records, which are set from the
// message that is answered, and are never used twice.
//
//vf:bounds every 48-bit number given to ResetClear, after 0..2 records; 3 records; TLS and DTLS
//vf:reach done ahead behind
func VF_C06_clear() {
	dtls := vfFlag("dtls")
	w, _, wire := vfRecPair(dtls)
	before := vfLen("before", 0, 2)
	for i := 0; i < before; i++ {
		vfAssert(w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: []byte{1}}) == nil, "a record within the limits is refused")
	}
	start := vfU64("start")
	vfAssume(start < vfMaxSeq-3)
	w.ResetClear(start)
	vfAssert(w.Epoch() == EpochClear, "clear epoch")
	if start < uint64(before) {
		vfReach("behind")
		start = uint64(before)
	} else {
		vfReach("ahead")
	}
	for i := 0; i < 3; i++ {
		pay := vfBytes("pay", 2)
		vfAssert(w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: pay}) == nil, "a record within the limits is refused")
		hdr := vfCheckHeader(dtls, wire.log[before+i], RecordTypeHandshake, start+uint64(i), 2)
		vfAssert(vfEq(wire.log[before+i][len(hdr):], pay), "clear payload changed")
	}
	vfReach("done")
}
