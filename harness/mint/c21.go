package mint

import "io"

// vfPattern is n bytes, each determined by its place, with k symbolic ones at
// every boundary of 2^14 bytes.
func vfPattern(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + seed)
	}
	for i := 0; i <= n; i += 1 << 14 {
		for j := i - 2; j < i+2; j++ {
			if j >= 0 && j < n {
				b[j] = vfU8("data")
			}
		}
	}
	return b
}

var vfSizes = []int{0, 1, 2, 1000, 1<<14 - 1, 1 << 14, 1<<14 + 1, 2<<14 - 1, 2 << 14, 2<<14 + 1, 3<<14 + 5}

// VF_C21_write: what is written is sent completely, in order, in records of at
// most 2^14 bytes, and its length is reported.
//
//vf:bounds client and server after a handshake; two writes of 0, 1, 2, 1000, 2^14-1 .. 2^14+1, 2^15-1 .. 2^15+1, 3*2^14+5 bytes (symbolic around every record boundary), a key update between or not
//vf:reach client server update
//vf:budget 60 300
func VF_C21_write() {
	st := vfAtStage([]int{7, 15}[vfChoice("side", 2)])
	p := st.vfPeer
	if p.client {
		vfReach("server")
	} else {
		vfReach("client")
	}
	update := vfFlag("update")
	var want []byte
	skip := len(p.rd.recs)
	first := vfChoice("first", len(vfSizes))
	second := vfChoice("second", len(vfSizes))
	vfAssume(first < 4 || second < 4 || first == second)
	for i, k := range []int{first, second} {
		if i == 1 && update {
			vfAssert(p.ep.SendKeyUpdate(false) == nil, "key update")
			vfReach("update")
		}
		b := vfPattern(vfSizes[k], 100*i)
		keep := vfJoin(b)
		n, err := p.ep.Write(b)
		vfAssert(err == nil && n == len(b), "a Write does not report the bytes it sent")
		vfAssert(vfEq2(b, keep), "a Write changes its argument")
		want = append(want, keep...)
	}
	var got []byte
	for _, r := range p.rd.recs[skip:] {
		if r.ct == RecordTypeHandshake && update {
			continue
		}
		vfAssert(r.ct == RecordTypeApplicationData, "data is sent as something else")
		vfAssert(r.key != nil, "data is sent in the clear")
		vfAssert(len(r.frag) <= 1<<14, "a record is too long")
		got = append(got, r.frag...)
	}
	vfAssert(vfEq2(got, want), "what is sent is not what was written")
}

// VF_C21_partial: a Write that fails reports the bytes sent before.
//
//vf:bounds one write of the same sizes; the transport failing at any of its first 5 records
//vf:reach failed complete
func VF_C21_partial() {
	st := vfAtStage([]int{7, 15}[vfChoice("side", 2)])
	p := st.vfPeer
	skip := len(p.rd.recs)
	b := vfPattern(vfSizes[vfChoice("size", len(vfSizes))], 0)
	at := 1 + vfChoice("at", 5)
	p.epOut.fail = at
	n, err := p.ep.Write(b)
	var got []byte
	for _, r := range p.rd.recs[skip:] {
		got = append(got, r.frag...)
	}
	vfAssert(n == len(got) && vfEq(got, b[:n]), "a Write does not report the bytes it sent")
	vfAssert((err != nil) == (n < len(b)), "a Write that fails reports no error, or a complete one does")
	if err != nil {
		vfReach("failed")
	} else {
		vfReach("complete")
	}
}

// VF_C21_read: data is read in order, complete, with buffers of any size and
// whatever else arrives between; it ends with a close or fatal alert.
//
//vf:bounds client and server after a handshake; 3 (thorough 4) records, each data of 0, 1 or 3 bytes of any value, a key update (requested or not), a ticket (client; split over two records or not), a user_canceled alert; then nothing, a close-notify or another alert of any level and description, and more data; reads with buffers of 0, 1, 2, 16 bytes in two patterns
//vf:outside a transport that ends without a close-notify (reported as an error, io.EOF)
//vf:reach client server closed fatal open update ticket warning
//vf:budget 60 300
func VF_C21_read() {
	n := []int{7, 15}[vfChoice("side", 2)]
	st := vfAtStage(n)
	p := st.vfPeer
	if n == 7 {
		vfReach("client")
	} else {
		vfReach("server")
	}
	var want []byte
	records := vfParam("records", 3, 4)
	for i := 0; i < records; i++ {
		switch k := vfChoice("record", 7); k {
		case 0, 1, 2:
			b := vfBytes("data", []int{0, 1, 3}[k])
			want = append(want, b...)
			p.record(RecordTypeApplicationData, b)
		case 3:
			p.record(RecordTypeHandshake, vfMsg(HandshakeTypeKeyUpdate, []byte{0}))
			p.update()
			vfReach("update")
		case 4:
			p.record(RecordTypeHandshake, vfMsg(HandshakeTypeKeyUpdate, []byte{1}))
			p.update()
		case 5:
			if n == 15 {
				vfStop()
			}
			m := vfMsg(HandshakeTypeNewSessionTicket, st.body(HandshakeTypeNewSessionTicket))
			if i%2 == 0 {
				p.record(RecordTypeHandshake, m)
			} else {
				p.record(RecordTypeHandshake, m[:5])
				p.record(RecordTypeHandshake, m[5:])
			}
			vfReach("ticket")
		case 6:
			p.record(RecordTypeAlert, []byte{1, 90})
			vfReach("warning")
		}
	}
	end := vfChoice("end", 3)
	var d byte
	if end == 1 {
		p.record(RecordTypeAlert, []byte{vfU8("level"), 0})
		vfReach("closed")
	} else if end == 2 {
		d = vfU8("fatal")
		vfAssume(d != 0 && d < 253)
		lvl := vfU8("level")
		vfAssume(vfAnd(vfOr(lvl == 1, lvl == 2), vfNot(vfAnd(lvl == 1, vfOr(d == 90, d == 100)))))
		p.record(RecordTypeAlert, []byte{lvl, d})
		vfReach("fatal")
	} else {
		vfReach("open")
	}
	if end != 0 {
		p.record(RecordTypeApplicationData, []byte("more"))
		p.record(RecordTypeApplicationData, []byte{})
	}
	sizes := [][]int{{1, 0, 2}, {16, 2, 16}}[vfChoice("buffers", 2)]
	var got []byte
	var err error
	for i := 0; i < 40; i++ {
		b := make([]byte, sizes[i%3])
		var m int
		m, err = p.ep.Read(b)
		vfAssert(m <= len(b) && (m == 0 || err == nil), "a Read returns data and an error")
		got = append(got, b[:m]...)
		if len(b) == 0 {
			vfAssert(err == nil, "an empty Read fails")
			continue
		}
		vfAssert(m > 0 || err != nil, "a Read returns nothing and no error")
		if err != nil {
			break
		}
	}
	vfAssert(vfEq2(got, want), "what is read is not what was sent")
	switch end {
	case 0:
		vfAssert(err == AlertWouldBlock, "the stream ends although nothing ended it")
		return
	case 1:
		vfAssert(err == io.EOF, "a close does not end the stream cleanly")
	case 2:
		a, ok := err.(Alert)
		vfAssert(ok && byte(a) == d, "a fatal alert does not end the stream with that alert")
	}
	for i := 0; i < 2; i++ {
		m, again := p.ep.Read(make([]byte, 8))
		vfAssert(m == 0 && again == err, "the stream goes on after its end")
	}
}

// VF_C21_pair: two endpoints over the real record layer and a transport that
// splits records anywhere deliver each other's streams.
//
//vf:bounds TLS (transport reads of at most 7 or any number of bytes) and DTLS; 3 (thorough 4) steps, each a write of 1 or 30 bytes of any value in either direction, a read with a buffer of 3 bytes at either side, or a key update (TLS) by either side with or without a request; then everything is read
//vf:reach tls dtls update
//vf:budget 60 300
func VF_C21_pair() {
	cc, sc := vfClientConfig(), vfServerConfig()
	sc.SendSessionTickets = true
	dtls := vfFlag("dtls")
	chunk := 0
	if dtls {
		cc.UseDTLS, sc.UseDTLS = true, true
		vfReach("dtls")
	} else {
		chunk = []int{0, 7}[vfChoice("chunk", 2)]
		vfReach("tls")
	}
	p := vfNewPair(cc, sc)
	p.run()
	vfAssert(p.ok(), "the handshake does not complete")
	p.cw.chunk, p.sw.chunk = chunk, chunk
	ends := []*Conn{p.client, p.server}
	var sent, got [2][]byte
	read := func(to, size int) bool {
		b := make([]byte, size)
		n, err := ends[to].Read(b)
		vfAssert(err == nil || err == AlertWouldBlock, "reading fails")
		got[1-to] = append(got[1-to], b[:n]...)
		return n > 0
	}
	steps := vfParam("steps", 3, 4)
	for i := 0; i < steps; i++ {
		k := vfChoice("step", 5)
		side := vfChoice("side", 2)
		switch {
		case k < 2:
			b := vfBytes("data", []int{1, 30}[k])
			n, err := ends[side].Write(b)
			vfAssert(n == len(b) && err == nil, "a Write does not report the bytes it sent")
			sent[side] = append(sent[side], b...)
		case k == 2:
			read(side, 3)
		default:
			if dtls {
				vfStop()
			}
			vfAssert(ends[side].SendKeyUpdate(k == 3) == nil, "a key update fails")
			vfReach("update")
		}
		for s := 0; s < 2; s++ {
			n := len(got[s])
			vfAssert(n <= len(sent[s]) && vfEq(got[s], sent[s][:n]), "what is read is not a beginning of what was written")
		}
	}
	for i := 0; i < 200; i++ {
		a, b := read(0, 5), read(1, 64)
		if !a && !b && len(p.cw.r.pkts) == 0 && len(p.sw.r.pkts) == 0 {
			break
		}
	}
	for s := 0; s < 2; s++ {
		vfAssert(vfEq2(got[s], sent[s]), "what was written is not all read")
	}
}

// VF_C21_blocking: with a blocking transport, the handshake and every Read
// return only with what they were called for or with an error, and an error is
// final.
//
//vf:bounds a blocking client or server, TLS (transport reads whole or by 7 bytes) and DTLS; certificates, client authentication, PSK, PSK with key agreement, each with or without a retry; then 3 (thorough 4) records: data of 1 or 3 bytes of any value, empty data, a key update requested or not (TLS), a ticket (TLS, client), a warning, a late or unreadable record (DTLS); then a close-notify, a fatal alert, the end of the transport, or a record that does not authenticate (TLS); reads with buffers of 2 bytes; a write before and after
//vf:outside blocking DTLS endpoints under loss (their timers run only when a call returns)
//vf:reach client server dtls chunk cert psk pskdh auth retry update ticket late eof close fatal garbage
//vf:budget 60 300
func VF_C21_blocking() {
	client := vfFlag("client")
	m := vfModes{suite: TLS_AES_128_GCM_SHA256, dh: true}
	dtls := false
	chunk := 0
	records := vfParam("records", 3, 4)
	switch vfChoice("mode", 6) {
	case 0:
	case 1:
		m.auth = true
		records = 1
	case 2:
		m.psk, m.dh = true, false
		records = 1
	case 3:
		m.psk = true
		records = 1
	case 4:
		dtls = true
		vfReach("dtls")
		records = 2
	case 5:
		chunk = 7
		vfReach("chunk")
		records = 1
	}
	if records == 1 || dtls {
		m.retry = vfFlag("retry")
	}
	m.reach()
	cc, sc := m.configs()
	cc.UseDTLS, sc.UseDTLS = dtls, dtls
	if client {
		cc = vfBlockingConfig(cc)
		vfReach("client")
	} else {
		sc = vfBlockingConfig(sc)
		vfReach("server")
	}
	p := vfNewPair(cc, sc)
	b, other, w := p.blocking(client)
	w.chunk = chunk
	vfAssert(b.Handshake() == AlertNoAlert && vfConnected(b), "a blocking handshake returns before its end")
	for i := 0; i < 5 && !vfConnected(other); i++ {
		vfAssert(!vfFatal(other.Handshake()), "the other side of a blocking handshake fails")
	}
	vfAssert(vfConnected(other), "the other side of a blocking handshake does not complete")
	// what the other side sends, one thing at a time
	var want []byte
	left := records
	end := vfChoice("end", 4)
	if dtls && end == 3 {
		vfStop()
	}
	var fatal byte
	ended := false
	w.pull = func() {
		if left == 0 {
			if ended {
				return
			}
			ended = true
			switch end {
			case 0:
				vfReach("eof")
			case 1:
				other.sendAlert(AlertCloseNotify)
				vfReach("close")
			case 2:
				fatal = vfU8("fatal")
				vfAssume(fatal != 0 && fatal < 253)
				vfAssert(other.out.WriteRecord(&TLSPlaintext{contentType: RecordTypeAlert, fragment: []byte{2, fatal}}) == nil, "alert")
				vfReach("fatal")
			case 3:
				w.r.pkts = append(w.r.pkts, append([]byte{byte(RecordTypeApplicationData), 3, 3, 0, 20}, vfBytes("garbage", 20)...))
				vfReach("garbage")
			}
			return
		}
		left--
		k := vfChoice("record", 7)
		switch {
		case k < 3:
			d := vfBytes("data", []int{1, 3, 0}[k])
			n, err := other.Write(d)
			vfAssert(n == len(d) && err == nil, "a Write does not report the bytes it sent")
			if k == 2 {
				vfAssert(other.out.WriteRecord(&TLSPlaintext{contentType: RecordTypeApplicationData}) == nil, "empty record")
			}
			want = append(want, d...)
		case k == 3:
			vfAssert(other.out.WriteRecord(&TLSPlaintext{contentType: RecordTypeAlert, fragment: []byte{1, 90}}) == nil, "warning")
		case dtls && k < 6:
			// a late handshake record of epoch 0, or a record of an unknown epoch
			epoch := byte(9 * (k - 4))
			w.r.pkts = append(w.r.pkts, append([]byte{byte(RecordTypeHandshake), 254, 253, 0, epoch, 0, 0, 0, 0, 0, 9, 0, 12, 20, 0, 0, 0, 0, 0, 0, 0, 0}, vfBytes("late", 3)...))
			vfReach("late")
		case dtls:
			vfStop()
		case k < 6:
			vfAssert(other.SendKeyUpdate(k == 5) == nil, "key update")
			vfReach("update")
		case k == 6:
			if !client {
				vfStop()
			}
			actions, alert := other.state.NewSessionTicket(16, 100, 0)
			vfAssert(alert == AlertNoAlert, "ticket")
			for _, a := range actions {
				vfAssert(other.takeAction(a) == AlertNoAlert, "ticket")
			}
			vfReach("ticket")
		}
	}
	exchange := func(s []byte) {
		n, err := b.Write(s)
		vfAssert(n == len(s) && err == nil, "a blocking endpoint cannot write")
		r := make([]byte, 10)
		for i := 0; i < 8; i++ {
			n, err = other.Read(r)
			if n > 0 {
				break
			}
			vfAssert(err == nil || err == AlertWouldBlock, "the other side cannot read")
		}
		vfAssert(vfEq2(r[:n], s), "what a blocking endpoint writes does not arrive")
	}
	exchange([]byte("before"))
	var got []byte
	var err error
	for i := 0; i < 20; i++ {
		r := make([]byte, 2)
		var n int
		n, err = b.Read(r)
		vfAssert(err != AlertWouldBlock, "a blocking Read would block")
		vfAssert((n > 0) == (err == nil), "a blocking Read returns nothing, or data and an error")
		got = append(got, r[:n]...)
		if err != nil {
			break
		}
	}
	vfAssert(vfEq2(got, want), "what is read is not what was sent")
	switch end {
	case 0, 1:
		vfAssert(err == io.EOF, "the end of the stream is not reported")
	case 2:
		a, ok := err.(Alert)
		vfAssert(ok && byte(a) == fatal, "a fatal alert does not end the stream with that alert")
	}
	w.pull = func() {
		n, e := other.Write([]byte("more"))
		vfAssert(n == 4 && e == nil, "write")
	}
	if end < 3 {
		if end < 2 {
			exchange([]byte("after"))
		}
		n, again := b.Read(make([]byte, 4))
		vfAssert(n == 0 && again == err, "the stream goes on after its end")
	}
}
