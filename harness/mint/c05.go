package mint

// C05: protected records arrive exactly as written.

// VF_C05_sequence
//
//vf:bounds 1..3 (thorough 4) records of type handshake, alert or application data, payloads of 0..4 bytes, padding 0..3, TLS and DTLS, clear and AES-GCM, any starting record number below 2^48-8
//vf:reach read clear protected
func VF_C05_sequence() {
	dtls := vfFlag("dtls")
	enc := vfFlag("enc")
	w, r, _ := vfRecPair(dtls)
	start := vfU64("start")
	vfAssume(start < vfMaxSeq-8)
	if enc {
		epoch := EpochApplicationData
		if vfFlag("hs") {
			epoch = EpochHandshakeData
		}
		vfAssert(w.Rekey(epoch, newAESGCM, vfKeys(vfKey1, vfIV1)) == nil && r.Rekey(epoch, newAESGCM, vfKeys(vfKey1, vfIV1)) == nil, "rekey fails")
		w.cipher.seq, r.cipher.seq = start, start
		vfReach("protected")
	} else {
		w.ResetClear(start)
		r.cipher.seq = start
		vfReach("clear")
	}
	n := vfLen("n", 1, vfParam("records", 3, 4))
	pts := make([]*TLSPlaintext, n)
	for i := range pts {
		pts[i] = &TLSPlaintext{contentType: vfType("type"), fragment: vfBytes("pay", vfLen("len", 0, 2)*2)}
		pad := 0
		if enc {
			pad = vfLen("pad", 0, 1) * 3
		}
		before := append([]byte{}, pts[i].fragment...)
		var err error
		if pad > 0 || vfFlag("viapad") {
			err = w.WriteRecordWithPadding(pts[i], pad)
		} else {
			err = w.WriteRecord(pts[i])
		}
		vfAssert(err == nil, "a record within the limits is refused")
		vfAssert(vfEq(before, pts[i].fragment), "writing a record changes the caller's data")
	}
	for i := range pts {
		pt, err := r.ReadRecord()
		vfAssert(err == nil, "a record that was written cannot be read")
		vfAssert(pt.contentType == pts[i].contentType, "content type changed")
		vfAssert(len(pt.fragment) == len(pts[i].fragment), "payload length changed")
		vfAssert(vfEq(pt.fragment, pts[i].fragment), "payload changed")
		vfAssert(vfEq(pt.Fragment(), pts[i].fragment), "payload accessor differs")
	}
	_, err := r.ReadRecord()
	vfAssert(err == AlertWouldBlock, "a record appears that was not written")
	vfReach("read")
}

// VF_C05_peek: looking at the type of the next record consumes nothing.
//
//vf:bounds 2 records, peeked 0..2 times each, TLS and DTLS, clear and AES-GCM
//vf:reach read
func VF_C05_peek() {
	dtls := vfFlag("dtls")
	w, r, _ := vfRecPair(dtls)
	if vfFlag("enc") {
		w.Rekey(EpochApplicationData, newAESGCM, vfKeys(vfKey1, vfIV1))
		r.Rekey(EpochApplicationData, newAESGCM, vfKeys(vfKey1, vfIV1))
	}
	var pts []*TLSPlaintext
	for i := 0; i < 2; i++ {
		pt := &TLSPlaintext{contentType: vfType("type"), fragment: vfBytes("pay", vfLen("len", 0, 2))}
		vfAssert(w.WriteRecord(pt) == nil, "a record within the limits is refused")
		pts = append(pts, pt)
	}
	for i := 0; i < 2; i++ {
		for k := vfLen("peeks", 0, 2); k > 0; k-- {
			t, err := r.PeekRecordType(false)
			vfAssert(err == nil && t == pts[i].contentType, "peeked type is not the type of the next record")
		}
		any := vfFlag("any")
		var pt *TLSPlaintext
		var err error
		if any && dtls {
			pt, err = r.ReadRecordAnyEpoch()
		} else {
			pt, err = r.ReadRecord()
		}
		vfAssert(err == nil && pt.contentType == pts[i].contentType && vfEq(pt.fragment, pts[i].fragment), "record differs after peeking")
	}
	_, err := r.PeekRecordType(false)
	vfAssert(err == AlertWouldBlock, "a record appears that was not written")
	vfReach("read")
}

// VF_C05_limit: payloads up to 2^14 bytes are accepted and arrive, longer ones
// are refused and put nothing on the wire.
//
//vf:bounds payload lengths 16383, 16384, 16385 and 16367..16369, TLS and DTLS, clear and AES-GCM, no padding; first and last bytes arbitrary
//vf:steps 60000000
//vf:budget 100 300
//vf:reach read refused
func VF_C05_limit() {
	dtls := vfFlag("dtls")
	w, r, wire := vfRecPair(dtls)
	if vfFlag("enc") {
		w.Rekey(EpochApplicationData, newAESGCM, vfKeys(vfKey1, vfIV1))
		r.Rekey(EpochApplicationData, newAESGCM, vfKeys(vfKey1, vfIV1))
	}
	n := []int{16383, 16384, 16385, 16367, 16368, 16369}[vfChoice("len", 6)]
	pay := vfPayload("pay", n)
	err := w.WriteRecord(&TLSPlaintext{contentType: RecordTypeApplicationData, fragment: pay})
	if n > maxFragmentLen {
		vfAssert(err != nil && len(wire.log) == 0, "a payload over the limit is accepted")
		vfReach("refused")
		return
	}
	vfAssert(err == nil, "a payload within the limit is refused")
	pt, err := r.ReadRecord()
	vfAssert(err == nil, "a record that was written cannot be read")
	vfAssert(pt.contentType == RecordTypeApplicationData && vfEq(pt.fragment, pay), "payload changed")
	vfReach("read")
}

// VF_C05_padding: padding of any size is removed again.
//
//vf:bounds 255, 256, 257, 1000, 16381 and 16383 bytes of padding after a payload of 0..2 bytes (refused where both do not fit a record), of every type, TLS and DTLS, AES-GCM
//vf:steps 60000000
//vf:reach read refused
func VF_C05_padding() {
	w, r, wire := vfRecPair(vfFlag("dtls"))
	w.Rekey(EpochApplicationData, newAESGCM, vfKeys(vfKey1, vfIV1))
	r.Rekey(EpochApplicationData, newAESGCM, vfKeys(vfKey1, vfIV1))
	pad := []int{255, 256, 257, 1000, 16381, 16383}[vfChoice("pad", 6)]
	pay := vfBytes("pay", vfLen("len", 0, 2))
	pt := &TLSPlaintext{contentType: vfType("type"), fragment: pay}
	err := w.WriteRecordWithPadding(pt, pad)
	if len(pay)+1+pad > maxFragmentLen {
		vfAssert(err != nil && len(wire.log) == 0, "a record over the limit is sent")
		vfReach("refused")
		return
	}
	vfAssert(err == nil && len(wire.log) == 1, "a record within the limits is refused")
	n := len(wire.log[0])
	vfAssert(n == w.cipher.cipher.Overhead()+len(pay)+1+pad+map[bool]int{false: 5, true: 13}[w.datagram], "the padding is not as long as asked")
	got, err := r.ReadRecord()
	vfAssert(err == nil, "a record that was written cannot be read")
	vfAssert(got.contentType == pt.contentType && vfEq(got.fragment, pay), "a padded record differs")
	vfReach("read")
}

// VF_C05_clear_padding: padding exists only under protection.
//
//vf:bounds paddings 1..3 on an unprotected record of 0..3 bytes
//vf:reach refused
func VF_C05_clear_padding() {
	w, _, wire := vfRecPair(vfFlag("dtls"))
	err := w.WriteRecordWithPadding(&TLSPlaintext{contentType: RecordTypeAlert, fragment: vfBytes("pay", vfLen("len", 0, 3))}, vfLen("pad", 1, 3))
	vfAssert(err != nil && len(wire.log) == 0, "padding is put on an unprotected record")
	vfReach("refused")
}

// VF_C05_rekey: records written before and after a key change are all read,
// when the reader changes keys at the same place.
//
//vf:bounds 0..2 records in the clear, 0..2 under a first key, 0..2 under a second, TLS and DTLS; payloads of 0..2 bytes
//vf:reach read
func VF_C05_rekey() {
	dtls := vfFlag("dtls")
	w, r, _ := vfRecPair(dtls)
	for phase := 0; phase < 3; phase++ {
		if phase > 0 {
			key, ep := vfKey1, EpochHandshakeData
			if phase == 2 {
				key, ep = vfKey2, EpochApplicationData
			}
			vfAssert(w.Rekey(ep, newAESGCM, vfKeys(key, vfIV1)) == nil, "rekey fails")
			vfAssert(r.Rekey(ep, newAESGCM, vfKeys(key, vfIV1)) == nil, "rekey fails")
			vfAssert(w.Epoch() == ep && r.Epoch() == ep, "epoch not set by a key change")
		}
		var pts []*TLSPlaintext
		for n := vfLen("n", 0, 2); n > 0; n-- {
			pt := &TLSPlaintext{contentType: RecordTypeHandshake, fragment: vfBytes("pay", vfLen("len", 0, 1)*2)}
			vfAssert(w.WriteRecord(pt) == nil, "a record within the limits is refused")
			pts = append(pts, pt)
		}
		for _, want := range pts {
			pt, err := r.ReadRecord()
			vfAssert(err == nil, "a record that was written cannot be read")
			vfAssert(pt.contentType == want.contentType && vfEq(pt.fragment, want.fragment), "record changed")
			vfAssert(pt.epoch == w.Epoch(), "record reported under another epoch")
		}
	}
	vfReach("read")
}
