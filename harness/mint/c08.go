package mint

// C08: record parsing is total and independent of how the stream is chunked.

// vfOutcome is what one read produced.
type vfOutcome struct {
	pt   *TLSPlaintext
	err  error
	kind int // 0 record, 1 would block, 2 error
}

// vfDrain reads until the reader would block or nothing changes, at most n times.
func vfDrain(r *DefaultRecordLayer, out []vfOutcome, n int) []vfOutcome {
	for i := 0; i < n; i++ {
		pt, err := r.ReadRecord()
		switch {
		case err == nil:
			vfAssert(pt != nil, "a read succeeds without a record")
			out = append(out, vfOutcome{pt, nil, 0})
		case err == AlertWouldBlock:
			vfAssert(pt == nil, "a read that would block yields data")
			return out
		default:
			vfAssert(pt == nil, "a failing read yields data")
			out = append(out, vfOutcome{nil, err, 2})
		}
	}
	return out
}

func vfSameOutcomes(a, b []vfOutcome, what string) {
	vfAssert(len(a) == len(b), what+": a different number of records")
	for i := range a {
		vfAssert(a[i].kind == b[i].kind, what+": a record in one case is an error in the other")
		if a[i].kind == 0 {
			vfAssert(a[i].pt.contentType == b[i].pt.contentType && vfSame(a[i].pt.fragment, b[i].pt.fragment), what+": a different record")
		} else {
			vfAssert(a[i].err.Error() == b[i].err.Error(), what+": a different error")
		}
	}
}

// vfStreamBytes is a TLS stream of up to 3 records, arbitrary in content type
// and body, possibly protected, possibly tampered with, possibly incomplete.
func vfStreamBytes(enc bool, log *vfAEADLog) []byte {
	var stream []byte
	if enc {
		w, _, wire := vfRecPair(false)
		w.Rekey(EpochApplicationData, log.factory, vfKeys(vfKey1, vfIV1))
		tamper := vfChoice("tamper", 3)
		for i := 0; i < 2; i++ {
			ct := vfU8("ct")
			vfAssume(ct == 21 || ct == 22 || ct == 23)
			w.WriteRecord(&TLSPlaintext{contentType: RecordType(ct), fragment: vfBytes("pay", i)})
			p := append([]byte{}, wire.log[i]...)
			if i == tamper {
				p[5] ^= 1
			}
			stream = append(stream, p...)
		}
	} else {
		n := vfLen("records", 1, vfParam("clear", 2, 3))
		for i := 0; i < n; i++ {
			body := vfBytes("body", vfLen("len", 0, 1)*(1+i))
			stream = append(stream, vfU8("ct"), vfU8("maj"), vfU8("min"), 0, byte(len(body)))
			stream = append(stream, body...)
		}
	}
	return stream[:len(stream)-vfChoice("missing", 2)*2]
}

func vfChunkReader(enc bool, log *vfAEADLog) (*DefaultRecordLayer, *vfWire) {
	_, rc := vfPipe(false)
	r := vfRecLayer(rc, DirectionRead, false)
	if enc {
		r.Rekey(EpochApplicationData, log.factory, vfKeys(vfKey1, vfIV1))
	}
	return r, rc.r
}

// VF_C08_chunks
//
//vf:bounds streams of 1..2 (thorough 3) clear records (any type and version byte, body 0..3 bytes) or 2 protected records (any type; valid or one tampered with), complete or cut short, delivered in 3 pieces cut at any positions with or without reads between, against delivery at once
//vf:reach done clear protected
func VF_C08_chunks() {
	log := &vfAEADLog{}
	enc := vfFlag("enc")
	s := vfStreamBytes(enc, log)
	if enc {
		vfReach("protected")
	} else {
		vfReach("clear")
	}
	r1, w1 := vfChunkReader(enc, log)
	w1.pkts = append(w1.pkts, append([]byte{}, s...))
	want := vfDrain(r1, nil, 8)
	r2, w2 := vfChunkReader(enc, log)
	var got []vfOutcome
	pos := 0
	reads := vfFlag("reads")
	n := vfParam("cuts", 2, 2)
	for i := 0; i < n; i++ {
		cut := vfLen("cut", pos, len(s))
		if cut > pos {
			w2.pkts = append(w2.pkts, append([]byte{}, s[pos:cut]...))
		}
		if reads {
			got = vfDrain(r2, got, 8)
		}
		pos = cut
	}
	w2.pkts = append(w2.pkts, append([]byte{}, s[pos:]...))
	got = vfDrain(r2, got, 8)
	vfSameOutcomes(want, got, "chunked delivery")
	vfReach("done")
}

// VF_C08_bytewise: pieces of any fixed size, down to single bytes.
//
//vf:bounds the same streams, delivered in pieces of 1..7 bytes
//vf:reach done
func VF_C08_bytewise() {
	log := &vfAEADLog{}
	enc := vfFlag("enc")
	s := vfStreamBytes(enc, log)
	r1, w1 := vfChunkReader(enc, log)
	w1.pkts = append(w1.pkts, append([]byte{}, s...))
	want := vfDrain(r1, nil, 8)
	r2, w2 := vfChunkReader(enc, log)
	size := vfLen("size", 1, 7)
	var got []vfOutcome
	for pos := 0; pos < len(s); pos += size {
		end := pos + size
		if end > len(s) {
			end = len(s)
		}
		w2.pkts = append(w2.pkts, append([]byte{}, s[pos:end]...))
		got = vfDrain(r2, got, 8)
	}
	vfSameOutcomes(want, got, "chunked delivery")
	vfReach("done")
}

// VF_C08_peek_chunks: looking ahead between the pieces changes nothing.
//
//vf:bounds the same streams in 2 pieces, with 0..2 looks at the next type before each read
//vf:reach done
func VF_C08_peek_chunks() {
	log := &vfAEADLog{}
	enc := vfFlag("enc")
	s := vfStreamBytes(enc, log)
	r1, w1 := vfChunkReader(enc, log)
	w1.pkts = append(w1.pkts, append([]byte{}, s...))
	want := vfDrain(r1, nil, 8)
	r2, w2 := vfChunkReader(enc, log)
	var got []vfOutcome
	peek := vfLen("peeks", 0, 2)
	step := func() {
		for i := 0; i < 8; i++ {
			var t RecordType
			err := error(nil)
			for j := 0; j < peek; j++ {
				t, err = r2.PeekRecordType(false)
				if err != nil {
					break
				}
			}
			if err != nil {
				if err == AlertWouldBlock {
					return
				}
				got = append(got, vfOutcome{nil, err, 2})
				continue
			}
			k := len(got)
			got = vfDrain(r2, got, 1)
			if len(got) == k {
				return
			}
			if peek > 0 {
				vfAssert(got[k].kind == 0 && got[k].pt.contentType == t, "peeked type is not the type of the next record")
			}
		}
	}
	cut := vfLen("cut", 0, len(s))
	if cut > 0 {
		w2.pkts = append(w2.pkts, append([]byte{}, s[:cut]...))
	}
	step()
	if cut < len(s) {
		w2.pkts = append(w2.pkts, append([]byte{}, s[cut:]...))
	}
	step()
	vfSameOutcomes(want, got, "looking ahead")
	vfReach("done")
}

// VF_C08_types: exactly the content types of the protocol are accepted.
//
//vf:bounds every content type byte, every version, body of 0..3 bytes, TLS and DTLS in the clear
//vf:reach known unknown
func VF_C08_types() {
	dtls := vfFlag("dtls")
	_, rc := vfPipe(dtls)
	r := vfRecLayer(rc, DirectionRead, dtls)
	hl := vfHdrLen(dtls)
	n := vfLen("n", 0, 3)
	m := vfBytes("rec", hl+n)
	vfAssume(m[hl-2] == 0 && m[hl-1] == byte(n))
	if dtls {
		vfAssume(m[3] == 0 && m[4] == 0)
	}
	rc.r.pkts = append(rc.r.pkts, m)
	pt, err := r.ReadRecord()
	ct := m[0]
	// alert, handshake, application data, ack
	known := ct == 21 || ct == 22 || ct == 23 || ct == 25
	if err == nil {
		vfAssert(known, "a record of unknown type is delivered")
		vfAssert(byte(pt.contentType) == ct && vfSame(pt.fragment, m[hl:]), "record changed")
		vfReach("known")
	} else {
		vfAssert(pt == nil && ct != 21 && ct != 22 && ct != 23, "a well-formed record is refused")
		vfReach("unknown")
	}
}

// VF_C08_limits: lengths around the protocol's limits.
//
//vf:bounds clear records with bodies of 16383, 16384, 16385, 16640, 16641, 20000 and 65535 bytes, protected ones with inner plaintexts of 16384, 16385, 16386 and 16624 bytes, with the reader's stream in one piece or in pieces of 4096 bytes; TLS and DTLS
//vf:reach accepted refused
func VF_C08_limits() {
	dtls := vfFlag("dtls")
	_, rc := vfPipe(dtls)
	if !dtls && vfFlag("pieces") {
		rc.chunk = 4096
	}
	r := vfRecLayer(rc, DirectionRead, dtls)
	hl := vfHdrLen(dtls)
	hdr := make([]byte, hl)
	hdr[0], hdr[1], hdr[2] = 23, 3, 3
	var body []byte
	plain := 0
	if vfFlag("enc") {
		inner := []int{16384, 16385, 16386, 16624, 16625}[vfChoice("inner", 5)]
		log := &vfAEADLog{}
		r.Rekey(EpochApplicationData, log.factory, vfKeys(vfKey1, vfIV1))
		number := uint64(0)
		if dtls {
			number = uint64(EpochApplicationData) << 48
			hdr[4] = byte(EpochApplicationData)
		}
		p := vfPayload("p", inner)
		p[inner-1] = 23
		plain = inner - 1
		n := inner + 16
		hdr[hl-2], hdr[hl-1] = byte(n>>8), byte(n)
		aead, _ := log.factory(vfKey1)
		body = aead.Seal(nil, vfNonce(vfIV1, number), p, hdr)
	} else {
		n := []int{16383, 16384, 16385, 16640, 16641, 20000, 65535}[vfChoice("n", 7)]
		body = vfPayload("p", n)
		plain = n
		hdr[hl-2], hdr[hl-1] = byte(n>>8), byte(n)
	}
	rc.r.pkts = append(rc.r.pkts, append(hdr, body...))
	pt, err := r.ReadRecord()
	if plain > 16384 {
		vfAssert(err != nil && pt == nil, "a record over the limit is delivered")
		vfReach("refused")
	} else {
		vfAssert(err == nil && len(pt.fragment) == plain, "a record within the limit is refused")
		vfReach("accepted")
	}
}

// VF_C08_arbitrary: nothing panics or hangs.
//
//vf:bounds every stream or datagram of up to two headers and 2 (thorough 4) bytes delivered in 1..2 pieces, length fields at most 40, TLS and DTLS, clear and protected, 4 reads
//vf:reach done
func VF_C08_arbitrary() {
	dtls := vfFlag("dtls")
	_, rc := vfPipe(dtls)
	r := vfRecLayer(rc, DirectionRead, dtls)
	if vfFlag("enc") {
		r.Rekey(EpochApplicationData, newAESGCM, vfKeys(vfKey1, vfIV1))
	}
	hl := vfHdrLen(dtls)
	n := vfLen("n", 0, hl*2+vfParam("extra", 2, 4))
	if dtls && n > 1 && n < 11 {
		vfStop()
	}
	m := vfBytes("m", n)
	// keep lengths small so that the reader does not wait for 64 kB
	for pos := 0; pos+hl <= n; {
		vfAssume(m[pos+hl-2] == 0 && m[pos+hl-1] <= 40)
		if n-pos-hl == 0 {
			break
		}
		l := vfLen("l", 0, n-pos-hl)
		if l == n-pos-hl {
			vfAssume(int(m[pos+hl-1]) >= l)
		} else {
			vfAssume(m[pos+hl-1] == byte(l))
		}
		pos += hl + l
	}
	cut := vfLen("cut", 0, 2) * n / 3
	if dtls && n-cut >= hl {
		vfAssume(m[cut+hl-2] == 0 && m[cut+hl-1] <= 40)
	}
	if cut > 0 {
		rc.r.pkts = append(rc.r.pkts, m[:cut])
	}
	out := vfDrain(r, nil, 4)
	if cut < n {
		rc.r.pkts = append(rc.r.pkts, m[cut:])
	}
	out = vfDrain(r, out, 4)
	total := 0
	for _, o := range out {
		if o.kind == 0 {
			total += len(o.pt.fragment) + hl
		}
	}
	vfAssert(total <= n, "more bytes are delivered than were received")
	vfReach("done")
}
