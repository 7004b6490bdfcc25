package mint

// VF_C16_type: a well-formed message of any other type than the allowed ones
// ends the handshake and has no other effect.
//
//vf:bounds 23 states of client and server (after honest handshakes with certificates, client certificates, PSK, early data, retry), TLS; messages of every type (8 bits) that is not allowed there, well-formed for the known types and 4 bytes otherwise
//vf:outside DTLS (the same state machine; its own ordering is C11)
//vf:reach client server connected
//vf:budget 60 300
func VF_C16_type() {
	n := vfChoice("state", len(vfStageNames))
	st := vfAtStage(n)
	vfAssert(st.ep.GetHsState() == vfStageStates[n], "not in the expected state: "+vfStageNames[n])
	known := []HandshakeType{1, 2, 4, 5, 6, 8, 11, 13, 15, 20, 24, 254}
	i := vfChoice("type", len(known)+1)
	var t HandshakeType
	if i < len(known) {
		t = known[i]
	} else {
		t = HandshakeType(vfU8("other"))
		for _, k := range known {
			vfAssume(t != k)
		}
	}
	for _, a := range vfStageAllowed[n] {
		vfAssume(t != a)
	}
	before := st.effects()
	st.send(t, st.body(t))
	st.deliver()
	st.refused(before)
	switch {
	case vfConnectedStage(n):
		vfReach("connected")
	case vfClientStage(n):
		vfReach("client")
	default:
		vfReach("server")
	}
}

// VF_C16_disguised: the body of an allowed message is not accepted under
// another type.
//
//vf:bounds the same states; the body of every message allowed there, under any other type (8 bits) that is not allowed
//vf:reach client server connected
//vf:budget 60 300
func VF_C16_disguised() {
	n := vfChoice("state", len(vfStageNames))
	st := vfAtStage(n)
	allowed := vfStageAllowed[n]
	if len(allowed) == 0 {
		vfStop()
	}
	body := st.body(allowed[vfChoice("as", len(allowed))])
	t := HandshakeType(vfU8("type"))
	for _, a := range allowed {
		vfAssume(t != a)
	}
	before := st.effects()
	st.send(t, body)
	st.deliver()
	st.refused(before)
	switch {
	case vfConnectedStage(n):
		vfReach("connected")
	case vfClientStage(n):
		vfReach("client")
	default:
		vfReach("server")
	}
}

// VF_C16_content: a record of another content type ends the handshake.
//
//vf:bounds the same states, not connected; records of every content type (8 bits) other than handshake (and, where early data may come, application data), with 2 bytes of content, any values
//vf:reach client server
func VF_C16_content() {
	n := vfChoice("state", len(vfStageNames))
	vfAssume(!vfConnectedStage(n))
	st := vfAtStage(n)
	ct := vfU8("content type")
	vfAssume(ct != byte(RecordTypeHandshake))
	if n == 13 {
		vfAssume(ct != byte(RecordTypeApplicationData))
	}
	before := st.effects()
	st.record(RecordType(ct), vfBytes("content", 2))
	st.deliver()
	st.refused(before)
	if vfClientStage(n) {
		vfReach("client")
	} else {
		vfReach("server")
	}
}

// VF_C16_boundary: a message that changes keys ends its record: whatever
// follows it there was not protected with the new keys and is not accepted.
//
//vf:bounds ServerHello+EncryptedExtensions, ClientHello+Finished, both Finished + KeyUpdate, EndOfEarlyData+Finished in one record; the second message whole, or cut to its first 1 to 4 bytes
//vf:reach client server
func VF_C16_boundary() {
	n := []int{0, 5, 8, 10, 13}[vfChoice("state", 5)]
	st := vfAtStage(n)
	p := st.vfPeer
	t := vfStageAllowed[n][0]
	var follow HandshakeType
	switch n {
	case 0:
		// the only stage where the peer has not yet read the hello
		p.takeShare(p.expect(HandshakeTypeClientHello))
		follow = HandshakeTypeEncryptedExtensions
	case 5, 10:
		follow = HandshakeTypeKeyUpdate
	case 8, 13:
		follow = HandshakeTypeFinished
	}
	m := vfMsg(t, st.body(t))
	p.transcript = append(p.transcript, m...)
	second := vfMsg(follow, st.body(follow))
	if cut := vfChoice("cut", 5); cut > 0 {
		second = second[:cut]
	}
	p.record(RecordTypeHandshake, vfJoin(m, second))
	p.step()
	vfAssert(vfFatal(p.alert), "a message protected with the old keys is accepted after a key change")
	if vfClientStage(n) {
		vfReach("client")
	} else {
		vfReach("server")
	}
}
