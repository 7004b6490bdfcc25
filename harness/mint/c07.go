package mint

// C07: only authentic, in-sequence records are delivered.

func vfProtect(dtls bool, real bool) (*DefaultRecordLayer, *DefaultRecordLayer, *vfWire, *vfAEADLog) {
	w, r, wire := vfRecPair(dtls)
	log := &vfAEADLog{}
	f := log.factory
	if real {
		f = newAESGCM
	}
	vfAssert(w.Rekey(EpochApplicationData, f, vfKeys(vfKey1, vfIV1)) == nil, "rekey fails")
	vfAssert(r.Rekey(EpochApplicationData, f, vfKeys(vfKey1, vfIV1)) == nil, "rekey fails")
	return w, r, wire, log
}

// VF_C07_tamper: any change that leaves the framing alone is rejected, and the
// genuine record still gets through.
//
//vf:bounds a record with 0..2 payload bytes and 0..1 padding bytes, every non-zero change to all its bytes other than the two length bytes (including DTLS epoch and number), TLS and DTLS, ideal AEAD and AES-GCM; then the genuine record and its successor
//vf:reach done
func VF_C07_tamper() {
	dtls := vfFlag("dtls")
	w, r, wire, _ := vfProtect(dtls, vfFlag("aesgcm"))
	a, pa := vfSealRec(w, wire, 2, 1)
	hl := vfHdrLen(dtls)
	delta := vfBytes("delta", len(a))
	vfAssume(delta[hl-2] == 0 && delta[hl-1] == 0)
	vfAssume(vfNot(vfEq(delta, make([]byte, len(a)))))
	wire.pkts = append(wire.pkts, vfXor(a, delta))
	vfMustReject(r, "a changed record")
	b, pb := vfSealRec(w, wire, 1, 0)
	wire.pkts = append(wire.pkts, a, b)
	vfMustRead(r, pa, "after a changed record")
	vfMustRead(r, pb, "after a changed record")
	vfMustReject(r, "a record never sent")
	vfReach("done")
}

// VF_C07_resize: changes to the length field, truncation and extension.
//
//vf:bounds two records with 0..2 payload bytes; the length field of the first changed to any value within 8 of the true one, or bytes cut off or appended with the length corrected; TLS and DTLS; every read until nothing is left
//vf:reach done
func VF_C07_resize() {
	dtls := vfFlag("dtls")
	w, r, wire, _ := vfProtect(dtls, false)
	a, pa := vfSealRec(w, wire, 2, 0)
	b, pb := vfSealRec(w, wire, 1, 0)
	hl := vfHdrLen(dtls)
	kind := vfChoice("kind", 3)
	m := append([]byte{}, a...)
	switch kind {
	case 0: // length field only
		d := vfLen("d", 0, 16) - 8
		vfAssume(d != 0)
		m[hl-1] = byte(len(a) - hl + d)
	case 1: // truncated, length corrected
		cut := vfLen("cut", 1, len(a)-hl)
		m = m[:len(m)-cut]
		m[hl-1] = byte(len(m) - hl)
	case 2: // extended, length corrected
		m = append(m, vfBytes("more", vfLen("nmore", 1, 3))...)
		m[hl-1] = byte(len(m) - hl)
	}
	wire.pkts = append(wire.pkts, m)
	_, err := r.ReadRecord()
	vfAssert(err != nil, "a resized record is delivered")
	wire.pkts = append(wire.pkts, a, b)
	if kind != 0 || dtls {
		// the framing is intact (a DTLS record cannot extend over datagrams)
		if kind == 0 && len(wire.pkts) > 2 {
			vfAssert(false, "a datagram was not consumed")
		}
		for i := 0; i < 3 && kind == 0; i++ {
			// what follows a shortened record in its datagram is no record
			pt, err := r.ReadRecord()
			if err == nil {
				vfAssert(pt.contentType == pa.contentType && vfSame(pt.fragment, pa.fragment), "something other than the genuine record is delivered")
				vfMustRead(r, pb, "after a resized record")
				vfReach("done")
				return
			}
		}
		vfMustRead(r, pa, "after a resized record")
		vfMustRead(r, pb, "after a resized record")
	} else {
		// the stream is out of step; nothing but the genuine records may come out
		for i := 0; i < 6; i++ {
			pt, err := r.ReadRecord()
			if err == nil {
				vfAssert(pt.contentType == pa.contentType && vfSame(pt.fragment, pa.fragment), "something other than the genuine record is delivered")
				break
			}
		}
	}
	vfReach("done")
}

// VF_C07_truncated_datagram: a datagram cut short anywhere is dropped without
// taking bytes of the next one.
//
//vf:bounds DTLS; a record with 0..2 payload bytes cut at every length from 1; clear and protected
//vf:reach done
func VF_C07_truncated_datagram() {
	w, r, wire := vfRecPair(true)
	if vfFlag("enc") {
		log := &vfAEADLog{}
		w.Rekey(EpochApplicationData, log.factory, vfKeys(vfKey1, vfIV1))
		r.Rekey(EpochApplicationData, log.factory, vfKeys(vfKey1, vfIV1))
	}
	a, pa := vfSealRec(w, wire, 0, 0)
	b, pb := vfSealRec(w, wire, 2, 0)
	wire.pkts = append(wire.pkts, a[:vfLen("cut", 1, len(a)-1)])
	_, err := r.ReadRecord()
	vfAssert(err != nil, "a truncated record is delivered")
	wire.pkts = append(wire.pkts, b, a)
	vfMustRead(r, pb, "after a truncated datagram")
	vfMustRead(r, pa, "after a truncated datagram")
	vfReach("done")
}

// VF_C07_inject: bytes from someone without the key.
//
//vf:bounds 1 record with any type, version, DTLS number and any body of 0..18 bytes, TLS and DTLS, then the genuine record
//vf:reach done
func VF_C07_inject() {
	dtls := vfFlag("dtls")
	w, r, wire, _ := vfProtect(dtls, vfFlag("aesgcm"))
	hl := vfHdrLen(dtls)
	n := vfLen("n", 0, 18)
	if n > 2 && n < 15 {
		vfStop()
	}
	m := vfBytes("rec", hl+n)
	vfAssume(m[hl-2] == 0 && m[hl-1] == byte(n))
	wire.pkts = append(wire.pkts, m)
	vfMustReject(r, "a record made without the key")
	a, pa := vfSealRec(w, wire, 1, 0)
	wire.pkts = append(wire.pkts, a)
	vfMustRead(r, pa, "after a forged record")
	vfReach("done")
}

// VF_C07_order: replays, reordering and omissions on a TLS stream: the k-th
// record delivered is the k-th record protected.
//
//vf:bounds 3 records of 1 byte (types arbitrary), any 4 (thorough 5) deliveries of them in any order with repetition; TLS
//vf:reach done replay
func VF_C07_order() {
	w, r, wire, _ := vfProtect(false, vfFlag("aesgcm"))
	var recs [][]byte
	var pts []*TLSPlaintext
	for i := 0; i < 3; i++ {
		pt := &TLSPlaintext{contentType: vfType("type"), fragment: vfBytes("pay", 1)}
		vfAssert(w.WriteRecord(pt) == nil, "a record within the limits is refused")
		recs = append(recs, wire.log[i])
		pts = append(pts, pt)
	}
	wire.pkts = nil
	next := 0
	n := vfParam("deliveries", 4, 5)
	for i := 0; i < n; i++ {
		k := vfChoice("k", 3)
		wire.pkts = append(wire.pkts, recs[k])
		if k == next {
			vfMustRead(r, pts[k], "in order")
			next++
		} else {
			if k < next {
				vfReach("replay")
			}
			vfMustReject(r, "a replayed or reordered record")
		}
	}
	vfReach("done")
}

// VF_C07_dtls_order: datagrams in any order are each delivered as the record
// whose number they name.
//
//vf:bounds 3 records of 1 byte in any order; DTLS
//vf:reach done
func VF_C07_dtls_order() {
	w, r, wire, _ := vfProtect(true, vfFlag("aesgcm"))
	var recs [][]byte
	var pts []*TLSPlaintext
	for i := 0; i < 3; i++ {
		pt := &TLSPlaintext{contentType: vfType("type"), fragment: vfBytes("pay", 1)}
		vfAssert(w.WriteRecord(pt) == nil, "a record within the limits is refused")
		recs = append(recs, wire.log[i])
		pts = append(pts, pt)
	}
	wire.pkts = nil
	used := make([]bool, 3)
	for i := 0; i < 3; i++ {
		k := vfChoice("k", 3)
		if used[k] {
			vfStop()
		}
		used[k] = true
		wire.pkts = append(wire.pkts, recs[k])
		vfMustRead(r, pts[k], "out of order")
	}
	vfReach("done")
}

// VF_C07_wrongkey: a record protected under another key, IV or number.
//
//vf:bounds every pair of 16-byte keys and 12-byte IVs and starting numbers of which at least one differs; 1 record of 0..2 bytes; TLS and DTLS
//vf:reach done
func VF_C07_wrongkey() {
	dtls := vfFlag("dtls")
	w, r, wire := vfRecPair(dtls)
	log := &vfAEADLog{}
	k1, k2 := vfBytes("k1", 16), vfBytes("k2", 16)
	i1, i2 := vfBytes("i1", 12), vfBytes("i2", 12)
	n1, n2 := vfU64("n1"), vfU64("n2")
	vfAssume(n1 < vfMaxSeq-8 && n2 < vfMaxSeq-8)
	w.Rekey(EpochApplicationData, log.factory, vfKeys(k1, i1))
	r.Rekey(EpochApplicationData, log.factory, vfKeys(k2, i2))
	w.cipher.seq, r.cipher.seq = n1, n2
	if dtls {
		n2 = n1 // the number is taken from the header
	}
	vfAssume(vfNot(vfAnd(vfEq(k1, k2), vfEq(vfNonce(i1, n1), vfNonce(i2, n2)))))
	a, _ := vfSealRec(w, wire, 2, 0)
	wire.pkts = append(wire.pkts, a)
	vfMustReject(r, "a record under another key, IV or number")
	vfReach("done")
}

// VF_C07_inner: how the authenticated plaintext is taken apart.
//
//vf:bounds every authenticated inner plaintext of 0..4 bytes (thorough 6), TLS and DTLS; then a genuine record
//vf:reach none some
func VF_C07_inner() {
	dtls := vfFlag("dtls")
	w, r, wire, log := vfProtect(dtls, false)
	hl := vfHdrLen(dtls)
	p := vfBytes("inner", vfLen("n", 0, vfParam("inner", 4, 6)))
	number := uint64(0)
	hdr := make([]byte, hl)
	hdr[0], hdr[1], hdr[2] = byte(RecordTypeApplicationData), 3, 3
	if dtls {
		number = uint64(EpochApplicationData)<<48 | 7
		for i := 0; i < 8; i++ {
			hdr[3+i] = byte(number >> uint(56-8*i))
		}
	}
	hdr[hl-1] = byte(len(p) + 16)
	aead, _ := log.factory(vfKey1)
	ct := aead.Seal(nil, vfNonce(vfIV1, number), p, hdr)
	wire.pkts = append(wire.pkts, append(hdr, ct...))
	end := len(p) - 1
	for end >= 0 && p[end] == 0 {
		end--
	}
	if end < 0 {
		vfMustReject(r, "a record without a content type")
		vfReach("none")
	} else {
		pt, err := r.ReadRecord()
		vfAssert(err == nil, "an authentic record is refused")
		vfAssert(byte(pt.contentType) == p[end], "the content type is not the last non-zero byte")
		vfAssert(vfSame(pt.fragment, p[:end]), "the fragment is not what precedes the content type")
		vfReach("some")
	}
	if end >= 0 {
		w.cipher.seq++
	}
	a, pa := vfSealRec(w, wire, 1, 0)
	wire.pkts = append(wire.pkts, a)
	vfMustRead(r, pa, "after an unusual record")
}
