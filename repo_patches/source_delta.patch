From d713a2b5155c6890aacd8c569319f75630a053df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 01/66] fix: ClientHello encoding dropped the legacy session id

---
 handshake-messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/handshake-messages.go b/handshake-messages.go
index e8e3aef..54e66d7 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -60,7 +60,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
@@ -69,7 +69,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerDTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
-- 
2.43.0


From 2129a3ba78a10b7c092d9765f9dc60d1fd89413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 02/66] fix: refuse to encode a pre_shared_key offer with
 unequal identity and binder lists

---
 extensions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions.go b/extensions.go
index 07cb16c..cebf88b 100644
--- a/extensions.go
+++ b/extensions.go
@@ -391,6 +391,9 @@ func (psk PreSharedKeyExtension) Type() ExtensionType {
 func (psk PreSharedKeyExtension) Marshal() ([]byte, error) {
 	switch psk.HandshakeType {
 	case HandshakeTypeClientHello:
+		if len(psk.Identities) != len(psk.Binders) {
+			return nil, fmt.Errorf("tls.presharedkey: Lengths of identities and binders not equal")
+		}
 		return syntax.Marshal(preSharedKeyClientInner{
 			Identities: psk.Identities,
 			Binders:    psk.Binders,
-- 
2.43.0


From 24544b4cc610ad7051f7f7bbdab31b43616fbd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 03/66] fix: server supported_versions encodes exactly one
 version

---
 extensions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions.go b/extensions.go
index cebf88b..347b179 100644
--- a/extensions.go
+++ b/extensions.go
@@ -578,6 +578,9 @@ func (sv SupportedVersionsExtension) Marshal() ([]byte, error) {
 	case HandshakeTypeClientHello:
 		return syntax.Marshal(SupportedVersionsClientHelloInner{sv.Versions})
 	case HandshakeTypeServerHello, HandshakeTypeHelloRetryRequest:
+		if len(sv.Versions) != 1 {
+			return nil, fmt.Errorf("tls.supported_versions: Server must select exactly one version")
+		}
 		return syntax.Marshal(SupportedVersionsServerHelloInner{sv.Versions[0]})
 	default:
 		return nil, fmt.Errorf("tls.supported_versions: Handshake type not allowed")
-- 
2.43.0


From 0da603c1ad03067d8c68f0350e2a325d2d045eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:32 +0000
Subject: [PATCH 04/66] fix: truncated optional field is a decode error, not a
 panic

---
 syntax/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syntax/decode.go b/syntax/decode.go
index 7cedc3c..2a80f35 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -412,6 +412,9 @@ func (pd *pointerDecoder) decode(d *decodeState, v reflect.Value, opts fieldOpti
 	if opts.optional {
 		readBase = 1
 		flag := d.Next(1)
+		if len(flag) != 1 {
+			panic(fmt.Errorf("Insufficient data to read optional flag"))
+		}
 		switch flag[0] {
 		case optionalFlagAbsent:
 			indir := v.Elem()
-- 
2.43.0


From e095b1f471083da0620db5c12e6399e4cd2198b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:38 +0000
Subject: [PATCH 05/66] fix: varint decoding accepts every value that fits the
 target integer

---
 syntax/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/decode.go b/syntax/decode.go
index 2a80f35..8daeea8 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -165,8 +165,8 @@ func uintDecoder(d *decodeState, v reflect.Value, opts fieldOptions) int {
 func varintDecoder(d *decodeState, v reflect.Value, opts fieldOptions) int {
 	l, val := readVarint(d)
 
-	uintLen := int(v.Elem().Type().Size())
-	if uintLen < l {
+	if v.Elem().OverflowUint(val) {
+		uintLen := int(v.Elem().Type().Size())
 		panic(fmt.Errorf("Uint too small to fit varint: %d < %d", uintLen, l))
 	}
 
-- 
2.43.0


From 9f5f9e41874371c3142f25fa895ecd3735d986f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:44 +0000
Subject: [PATCH 06/66] fix: a vector of empty elements no longer decodes
 forever

---
 syntax/decode.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/syntax/decode.go b/syntax/decode.go
index 8daeea8..a4b11ea 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -290,7 +290,11 @@ func (sd *sliceDecoder) decode(d *decodeState, v reflect.Value, opts fieldOption
 	elems := []reflect.Value{}
 	for elemBuf.Len() > 0 {
 		elem := reflect.New(sd.elementType)
-		read += sd.elementDec(elemBuf, elem, opts)
+		elemRead := sd.elementDec(elemBuf, elem, opts)
+		if elemRead <= 0 {
+			panic(fmt.Errorf("Vector element consumed no data"))
+		}
+		read += elemRead
 		elems = append(elems, elem)
 	}
 
@@ -336,10 +340,15 @@ func (md mapDecoder) decode(d *decodeState, v reflect.Value, opts fieldOptions)
 	elemBuf.Write(elemData)
 	for elemBuf.Len() > 0 {
 		key := reflect.New(md.keyType)
-		read += md.keyDec(elemBuf, key, nullOpts)
+		keyRead := md.keyDec(elemBuf, key, nullOpts)
 
 		val := reflect.New(md.valType)
-		read += md.valDec(elemBuf, val, nullOpts)
+		valRead := md.valDec(elemBuf, val, nullOpts)
+
+		if keyRead+valRead <= 0 {
+			panic(fmt.Errorf("Map entry consumed no data"))
+		}
+		read += keyRead + valRead
 
 		v.Elem().SetMapIndex(key.Elem(), val.Elem())
 	}
-- 
2.43.0


From 6b98b32ef44a792f2a3644fb2239f9a4951abad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 07/66] fix: reject a server_name list with more than one entry
 instead of ignoring the rest

---
 extensions.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions.go b/extensions.go
index 347b179..1bc1387 100644
--- a/extensions.go
+++ b/extensions.go
@@ -167,8 +167,10 @@ func (sni *ServerNameExtension) Unmarshal(data []byte) (int, error) {
 		return 0, err
 	}
 
-	// Syntax requires at least one entry
-	// Entries beyond the first are ignored
+	// Syntax requires at least one entry; we only support a single name
+	if len(list.ServerNameList) != 1 {
+		return 0, fmt.Errorf("tls.servername: More than one name")
+	}
 	if nameType := list.ServerNameList[0].NameType; nameType != 0x00 {
 		return 0, fmt.Errorf("tls.servername: Unsupported name type [%x]", nameType)
 	}
-- 
2.43.0


From ded4552cd321e205fcdc5f0e79a6d9cf666d782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:02 +0000
Subject: [PATCH 08/66] fix: records carrying a full-size payload can be
 written under protection

---
 record-layer.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index ccb90bd..6501543 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -12,6 +12,7 @@ const (
 	recordHeaderLenTLS  = 5       // record header length (TLS)
 	recordHeaderLenDTLS = 13      // record header length (DTLS)
 	maxFragmentLen      = 1 << 14 // max number of bytes in a record
+	maxCiphertextLen    = maxFragmentLen + 256
 	labelForKey         = "key"
 	labelForIV          = "iv"
 )
@@ -353,7 +354,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	for err != nil {
 		if r.frame.needed() > 0 {
-			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen)
+			buf := make([]byte, r.frame.details.headerLen()+maxCiphertextLen)
 			n, err := r.conn.Read(buf)
 			if err != nil {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
@@ -395,7 +396,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 	// Validate size < max
 	size := (int(header[len(header)-2]) << 8) + int(header[len(header)-1])
 
-	if size > maxFragmentLen+256 {
+	if size > maxCiphertextLen {
 		return nil, fmt.Errorf("tls.record: Ciphertext size too big")
 	}
 
@@ -459,6 +460,11 @@ func (r *DefaultRecordLayer) WriteRecordWithPadding(pt *TLSPlaintext, padLen int
 }
 
 func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *cipherState, padLen int) error {
+	// The limit is on the plaintext; padding may not take a record beyond it.
+	if len(pt.fragment) > maxFragmentLen || (padLen > 0 && len(pt.fragment)+1+padLen > maxFragmentLen) {
+		return fmt.Errorf("tls.record: Record size too big")
+	}
+
 	seq := cipher.combineSeq(r.datagram)
 	length := len(pt.fragment)
 	var contentType RecordType
@@ -495,10 +501,6 @@ func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *ci
 		ciphertext = pt.fragment
 	}
 
-	if len(ciphertext) > maxFragmentLen {
-		return fmt.Errorf("tls.record: Record size too big")
-	}
-
 	record := append(header, ciphertext...)
 
 	logf(logTypeIO, "%s RecordLayer.WriteRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), cipher.seq, contentType, ciphertext)
-- 
2.43.0


From 068f618149c6342d736af23e730ac48f008d003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 09/66] fix: a protected record without a content type is an
 error, not a panic

---
 record-layer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/record-layer.go b/record-layer.go
index 6501543..d197eb2 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -286,7 +286,10 @@ func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext
 
 	// Find the padding boundary
 	padLen := 0
-	for ; padLen < decryptLen+1 && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	for ; padLen < decryptLen && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	}
+	if padLen == decryptLen {
+		return nil, 0, DecryptError("tls.record.decrypt: No content type in record")
 	}
 
 	// Transfer the content type
-- 
2.43.0


From 148a42e89d98281edfb01ebd7ad99a7dc9fc6065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:50 +0000
Subject: [PATCH 10/66] fix: DTLS records of an earlier epoch are opened with
 that epoch's key

---
 record-layer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index d197eb2..8138b62 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -263,22 +263,22 @@ func (r *DefaultRecordLayer) encrypt(cipher *cipherState, seq uint64, header []b
 	return ciphertext
 }
 
-func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
+func (r *DefaultRecordLayer) decrypt(cipher *cipherState, seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
 	assert(r.direction == DirectionRead)
 	logf(logTypeIO, "%s Decrypt seq=[%x]", r.label, seq)
-	if len(pt.fragment) < r.cipher.overhead() {
-		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), r.cipher.overhead())
+	if len(pt.fragment) < cipher.overhead() {
+		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), cipher.overhead())
 		return nil, 0, DecryptError(msg)
 	}
 
-	decryptLen := len(pt.fragment) - r.cipher.overhead()
+	decryptLen := len(pt.fragment) - cipher.overhead()
 	out := &TLSPlaintext{
 		contentType: pt.contentType,
 		fragment:    make([]byte, decryptLen),
 	}
 
 	// Decrypt
-	_, err := r.cipher.cipher.Open(out.fragment[:0], r.cipher.computeNonce(seq), pt.fragment, header)
+	_, err := cipher.cipher.Open(out.fragment[:0], cipher.computeNonce(seq), pt.fragment, header)
 	if err != nil {
 		logf(logTypeIO, "%s AEAD decryption failure [%x]", r.label, pt)
 		return nil, 0, DecryptError("tls.record.decrypt: AEAD decrypt failed")
@@ -434,7 +434,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	if cipher.cipher != nil {
 		logf(logTypeIO, "%s RecordLayer.ReadRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), seq, pt.contentType, pt.fragment)
-		pt, _, err = r.decrypt(seq, header, pt)
+		pt, _, err = r.decrypt(cipher, seq, header, pt)
 		if err != nil {
 			logf(logTypeIO, "%s Decryption failed", r.label)
 			return nil, err
-- 
2.43.0


From 5c32b0f5207b78ad64862a047d204555755df44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 11/66] fix: unprotected DTLS records report their record
 number

---
 record-layer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/record-layer.go b/record-layer.go
index 8138b62..3a7eedf 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -441,6 +441,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		}
 	}
 	pt.epoch = cipher.epoch
+	pt.seq = seq
 
 	// Check that plaintext length is not too long
 	if len(pt.fragment) > maxFragmentLen {
-- 
2.43.0


From f35478d59694f5f39eea037d67ed823fefacb784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 12/66] fix: a truncated datagram no longer swallows part of
 the next one

---
 record-layer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/record-layer.go b/record-layer.go
index 3a7eedf..f935342 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -371,6 +371,11 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 			logf(logTypeIO, "%s Read %v bytes", r.label, n)
 
 			buf = buf[:n]
+			if r.datagram {
+				// A record never continues in the next datagram, so
+				// drop whatever a truncated one left behind.
+				r.frame = newFrameReader(recordLayerFrameDetails{true})
+			}
 			r.frame.addChunk(buf)
 		}
 
-- 
2.43.0


From a0345a7a1bc7ada36b32ee07db9123be09ae4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:34 +0000
Subject: [PATCH 13/66] fix: checking timers dropped unexpired timers and kept
 expired ones

---
 timer.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/timer.go b/timer.go
index 0b7f7af..3333c9e 100644
--- a/timer.go
+++ b/timer.go
@@ -52,24 +52,20 @@ func (ts *timerSet) start(label string, cb timerCb, delayMs uint32) *timer {
 	return &t
 }
 
-// TODO(ekr@rtfm.com): optimize this now that the list is sorted.
-// We should be able to do just one list manipulation, as long
-// as we're careful about how we handle inserts during callbacks.
+// Callbacks may start and cancel timers, so take one expired timer at a time
+// off the front of the list.
 func (ts *timerSet) check(now time.Time) error {
-	for i, t := range ts.ts {
-		if now.After(t.deadline) {
-			ts.ts = append(ts.ts[:i], ts.ts[:i+1]...)
-			if t.cb != nil {
-				logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
-				cb := t.cb
-				t.cb = nil
-				err := cb()
-				if err != nil {
-					return err
-				}
+	for len(ts.ts) > 0 && now.After(ts.ts[0].deadline) {
+		t := ts.ts[0]
+		ts.ts = ts.ts[1:]
+		if t.cb != nil {
+			logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
+			cb := t.cb
+			t.cb = nil
+			err := cb()
+			if err != nil {
+				return err
 			}
-		} else {
-			break
 		}
 	}
 	return nil
-- 
2.43.0


From 10a5e7c2fd04d6e0c8179b0bd5ba9e96660e7822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:56 +0000
Subject: [PATCH 14/66] fix: a handshake alert record shorter than two bytes is
 an error, not a panic

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index ae11cb8..75ce66d 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -202,11 +202,11 @@ func (h *HandshakeLayer) readRecord() error {
 	}
 
 	if pt.contentType == RecordTypeAlert {
-		logf(logTypeIO, "read alert %v", pt.fragment[1])
 		if len(pt.fragment) < 2 {
 			h.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
 		}
+		logf(logTypeIO, "read alert %v", pt.fragment[1])
 		return Alert(pt.fragment[1])
 	}
 
-- 
2.43.0


From 106fc5c906d48f14d32bce18f3617fd1e2d85a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 15/66] fix: refuse a handshake message one byte too long for
 its length field

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 75ce66d..512dc1c 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -9,7 +9,7 @@ import (
 const (
 	handshakeHeaderLenTLS  = 4       // handshake message header length
 	handshakeHeaderLenDTLS = 12      // handshake message header length
-	maxHandshakeMessageLen = 1 << 24 // max handshake message length
+	maxHandshakeMessageLen = 1<<24 - 1 // max handshake message length
 )
 
 // struct {
-- 
2.43.0


From 26b4ce23aa095b123436a55842035c8094008b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:06 +0000
Subject: [PATCH 16/66] fix: a message spread over records that have all
 arrived is delivered without another poll

---
 handshake-layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 512dc1c..19fb4cb 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -372,7 +372,9 @@ func (h *HandshakeLayer) ReadMessage() (*HandshakeMessage, error) {
 		if err == nil {
 			break
 		}
-		if err != nil && (h.nonblocking || err != AlertWouldBlock) {
+		// If this record did not complete the message, the next one may;
+		// reading it is what blocks if there is none.
+		if err != AlertWouldBlock {
 			return nil, err
 		}
 	}
-- 
2.43.0


From f798a955fb6ed9b0b2822ccc0d2f1430db854c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 17/66] fix: a received alert cannot pass for the internal
 would-block condition

---
 alert.go           | 11 +++++++++++
 conn.go            |  2 +-
 handshake-layer.go |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/alert.go b/alert.go
index 430e455..4ef9eaa 100644
--- a/alert.go
+++ b/alert.go
@@ -88,6 +88,17 @@ var alertText = map[Alert]string{
 	AlertNoAlert:                     "no alert",
 }
 
+// receivedAlert is the error for an alert description received from the peer.
+// The values this package uses internally are not descriptions a peer can send.
+func receivedAlert(description byte) Alert {
+	switch a := Alert(description); a {
+	case AlertStatelessRetry, AlertWouldBlock, AlertNoAlert:
+		return AlertIllegalParameter
+	default:
+		return a
+	}
+}
+
 func (e Alert) String() string {
 	s, ok := alertText[e]
 	if ok {
diff --git a/conn.go b/conn.go
index ccf8dc1..e0ce01b 100644
--- a/conn.go
+++ b/conn.go
@@ -378,7 +378,7 @@ func (c *Conn) consumeRecord() error {
 		case AlertLevelWarning:
 			// drop on the floor
 		case AlertLevelError:
-			return Alert(pt.fragment[1])
+			return receivedAlert(pt.fragment[1])
 		default:
 			c.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
diff --git a/handshake-layer.go b/handshake-layer.go
index 19fb4cb..a56e38e 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -207,7 +207,7 @@ func (h *HandshakeLayer) readRecord() error {
 			return io.EOF
 		}
 		logf(logTypeIO, "read alert %v", pt.fragment[1])
-		return Alert(pt.fragment[1])
+		return receivedAlert(pt.fragment[1])
 	}
 
 	assert(h.ctx.hIn.conn != nil)
-- 
2.43.0


From eb09f33c15380509ada074eb83a88404080b109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 18/66] fix: DTLS fragments of several messages are kept in
 order and dropped once delivered

---
 handshake-layer.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index a56e38e..a8d2c15 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -247,12 +247,9 @@ func (h *HandshakeLayer) sendAlert(err Alert) error {
 
 func (h *HandshakeLayer) noteMessageDelivered(seq uint32) {
 	h.msgSeq = seq + 1
-	var i int
-	var m *HandshakeMessage
-	for i, m = range h.queued {
-		if m.seq > seq {
-			break
-		}
+	i := 0
+	for i < len(h.queued) && h.queued[i].seq <= seq {
+		i++
 	}
 	h.queued = h.queued[i:]
 }
@@ -280,7 +277,7 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		if hm.seq < f.seq {
 			break
 		}
-		if hm.offset < f.offset {
+		if hm.seq == f.seq && hm.offset < f.offset {
 			break
 		}
 	}
-- 
2.43.0


From 86258600cc61ac657e049bff90f3e1fbb05faa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:48 +0000
Subject: [PATCH 19/66] fix: a DTLS fragment outside its message is dropped
 instead of panicking

---
 handshake-layer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/handshake-layer.go b/handshake-layer.go
index a8d2c15..668a660 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -259,6 +259,11 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		return nil, nil
 	}
 
+	if hm.offset+uint32(len(hm.body)) > hm.length {
+		logf(logTypeHandshake, "Dropping fragment that lies outside its message")
+		return nil, nil
+	}
+
 	// TODO(ekr@rtfm.com): Send an ACK immediately if we got something
 	// out of order.
 	h.ctx.receivedHandshakeMessage()
-- 
2.43.0


From f26f37c0e14fd66ab2a96f97f308599cd1755d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:54 +0000
Subject: [PATCH 20/66] fix: a truncated DTLS fragment no longer swallows part
 of the next record

---
 handshake-layer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/handshake-layer.go b/handshake-layer.go
index 668a660..9dafdcc 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -223,6 +223,11 @@ func (h *HandshakeLayer) readRecord() error {
 	}
 
 	h.recvdRecords = append(h.recvdRecords, pt.seq)
+	if h.datagram {
+		// A fragment never continues in the next record, so drop
+		// whatever a truncated one left behind.
+		h.frame = newFrameReader(&handshakeLayerFrameDetails{true})
+	}
 	h.frame.addChunk(pt.fragment)
 
 	return nil
-- 
2.43.0


From 7b5717da062fee989b90ab0cfac9ac55f4708f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:04 +0000
Subject: [PATCH 21/66] fix: sent fragments are remembered under the record
 number they were sent with

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 9dafdcc..8704f8d 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -483,7 +483,7 @@ func (h *HandshakeLayer) writeFragment(hm *HandshakeMessage, start int, room int
 			hm.seq,
 			start,
 			len(body),
-			h.conn.(*DefaultRecordLayer).cipher.combineSeq(true),
+			hm.cipher.combineSeq(true),
 			false,
 		})
 		err = h.conn.(*DefaultRecordLayer).writeRecordWithPadding(
-- 
2.43.0


From de2afa7d4e3dc8a225f65a929b6022dcae0a25a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 22/66] fix: reject invalid Diffie-Hellman public values in
 keyAgreement

---
 crypto.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crypto.go b/crypto.go
index 4fa59a2..4dc1f77 100644
--- a/crypto.go
+++ b/crypto.go
@@ -268,6 +268,9 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 
 		crv := curveFromNamedGroup(group)
 		pubX, pubY := elliptic.Unmarshal(crv, pub)
+		if pubX == nil {
+			return nil, fmt.Errorf("tls.keyagreement: Invalid public key")
+		}
 		x, _ := crv.Params().ScalarMult(pubX, pubY, priv)
 		xBytes := x.Bytes()
 
@@ -286,6 +289,10 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		p := primeFromNamedGroup(group)
 		x := big.NewInt(0).SetBytes(priv)
 		Y := big.NewInt(0).SetBytes(pub)
+		// RFC 7919 Section 5.1: 1 < Y < p-1
+		if Y.Cmp(big.NewInt(1)) <= 0 || Y.Cmp(new(big.Int).Sub(p, big.NewInt(1))) >= 0 {
+			return nil, fmt.Errorf("tls.keyagreement: Public key out of range")
+		}
 		ZBytes := big.NewInt(0).Exp(Y, x, p).Bytes()
 
 		ret := make([]byte, numBytes)
@@ -302,6 +309,10 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		copy(private[:], priv)
 		copy(public[:], pub)
 		curve25519.ScalarMult(&ret, &private, &public)
+		// RFC 8446 Section 7.4.2: abort on the all-zero value
+		if ret == [32]byte{} {
+			return nil, fmt.Errorf("tls.keyagreement: Invalid public key")
+		}
 
 		return ret[:], nil
 
-- 
2.43.0


From 571fe02d9e6f85c9a9c4357b21da0606b6e53c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 23/66] fix: select only signature schemes the certificate's
 key can sign with

---
 crypto.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crypto.go b/crypto.go
index 4dc1f77..a2306b3 100644
--- a/crypto.go
+++ b/crypto.go
@@ -182,12 +182,22 @@ func primeFromNamedGroup(group NamedGroup) (p *big.Int) {
 }
 
 func schemeValidForKey(alg SignatureScheme, key crypto.Signer) bool {
+	hash := hashMap[alg]
+	if hash == crypto.SHA1 {
+		// sign() refuses to use SHA-1
+		return false
+	}
+
 	sigType := sigMap[alg]
-	switch key.(type) {
+	switch key := key.(type) {
 	case *rsa.PrivateKey:
-		return sigType == signatureAlgorithmRSA_PKCS1 || sigType == signatureAlgorithmRSA_PSS
+		if sigType == signatureAlgorithmRSA_PSS {
+			// The encoded message has to fit in the modulus (RFC 8017, Section 9.1.1)
+			return (key.N.BitLen()-1+7)/8 >= 2*hash.Size()+2
+		}
+		return sigType == signatureAlgorithmRSA_PKCS1
 	case *ecdsa.PrivateKey:
-		return sigType == signatureAlgorithmECDSA
+		return sigType == signatureAlgorithmECDSA && curveMap[alg] == namedGroupFromECDSAKey(&key.PublicKey)
 	default:
 		return false
 	}
-- 
2.43.0


From fe753904e083f10385f8fe2c09f05aae9d28dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 24/66] fix: exporter hashes its context, and refuses labels
 and lengths HKDF cannot represent

---
 conn.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index e0ce01b..e2e8c1f 100644
--- a/conn.go
+++ b/conn.go
@@ -882,10 +882,20 @@ func (c *Conn) ComputeExporter(label string, context []byte, keyLength int) ([]b
 		return nil, fmt.Errorf("Internal error: no exporter secret")
 	}
 
+	// A label or length that HkdfLabel / HKDF-Expand cannot represent
+	if len("tls13 ")+len(label) > 255 {
+		return nil, fmt.Errorf("Exporter label too long [%d]", len(label))
+	}
+	if keyLength < 0 || keyLength > 255*c.state.cryptoParams.Hash.Size() {
+		return nil, fmt.Errorf("Invalid exporter length [%d]", keyLength)
+	}
+
 	h0 := c.state.cryptoParams.Hash.New().Sum(nil)
 	tmpSecret := deriveSecret(c.state.cryptoParams, c.state.exporterSecret, label, h0)
 
-	hc := c.state.cryptoParams.Hash.New().Sum(context)
+	h := c.state.cryptoParams.Hash.New()
+	h.Write(context)
+	hc := h.Sum(nil)
 	return HkdfExpandLabel(c.state.cryptoParams.Hash, tmpSecret, "exporter", hc, keyLength), nil
 }
 
-- 
2.43.0


From 61ce2abc9c2bd5ec551f768db8323f1dca8c6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 25/66] fix: Config.Clone carries the RecordLayer factory

---
 conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn.go b/conn.go
index e2e8c1f..13d2a0e 100644
--- a/conn.go
+++ b/conn.go
@@ -169,6 +169,7 @@ func (c *Config) Clone() *Config {
 		PSKModes:              c.PSKModes,
 		NonBlocking:           c.NonBlocking,
 		UseDTLS:               c.UseDTLS,
+		RecordLayer:           c.RecordLayer,
 	}
 }
 
-- 
2.43.0


From 199291e653926746eecfaddbc24e474a2b59ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 26/66] fix: client rejects a ServerHello with trailing bytes

---
 client-state-machine.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index d8464a1..6badd9d 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -334,9 +334,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 	}
 
 	sh := &ServerHelloBody{}
-	if _, err := sh.Unmarshal(hm.body); err != nil {
-		logf(logTypeHandshake, "[ClientStateWaitSH] unexpected message")
-		return nil, nil, AlertUnexpectedMessage
+	if err := safeUnmarshal(sh, hm.body); err != nil {
+		logf(logTypeHandshake, "[ClientStateWaitSH] Error decoding message: %v", err)
+		return nil, nil, AlertDecodeError
 	}
 
 	// Common SH/HRR processing first.
-- 
2.43.0


From a747964708378cf049b8069dad81189af7867eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 27/66] fix: client no longer panics on an empty server
 certificate list

---
 client-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 6badd9d..230d792 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -818,6 +818,10 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
+	if len(state.serverCertificate.CertificateList) == 0 {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Server sent no certificate")
+		return nil, nil, AlertDecodeError
+	}
 	serverPublicKey := state.serverCertificate.CertificateList[0].CertData.PublicKey
 	if err := certVerify.Verify(serverPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ClientStateWaitCV] Server signature failed to verify")
-- 
2.43.0


From b8a1851a1f7103c684505002b51290b374138cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 28/66] fix: client accepts only a cipher suite it offered, and
 a retry request does not change its configuration

---
 client-state-machine.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 230d792..b04007f 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -56,6 +56,7 @@ type clientStateStart struct {
 	Params ConnectionParameters
 
 	cookie            []byte
+	retrySuite        *CipherSuite // the suite selected by a HelloRetryRequest
 	firstClientHello  *HandshakeMessage
 	helloRetryRequest *HandshakeMessage
 	hsCtx             *HandshakeContext
@@ -107,6 +108,10 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		LegacyVersion: wireVersion(state.hsCtx.hIn),
 		CipherSuites:  state.Config.CipherSuites,
 	}
+	if state.retrySuite != nil {
+		// Narrow the supported ciphersuites to the server-provided one
+		ch.CipherSuites = []CipherSuite{*state.retrySuite}
+	}
 	_, err := prng.Read(ch.Random[:])
 	if err != nil {
 		logf(logTypeHandshake, "[ClientStateStart] Error creating ClientHello random [%v]", err)
@@ -278,6 +283,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		OfferedDH:  offeredDH,
 		OfferedPSK: offeredPSK,
 
+		offeredSuites: ch.CipherSuites,
+
 		earlySecret: earlySecret,
 		earlyHash:   earlyHash,
 
@@ -308,6 +315,8 @@ type clientStateWaitSH struct {
 	OfferedPSK PreSharedKey
 	PSK        []byte
 
+	offeredSuites []CipherSuite
+
 	earlySecret []byte
 	earlyHash   crypto.Hash
 
@@ -361,9 +370,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		logf(logTypeHandshake, "[ClientStateWaitSH] unsupported version [%x]", supportedVersions.Versions[0])
 		return nil, nil, AlertProtocolVersion
 	}
-	// 3. Check that the server provided a supported ciphersuite
+	// 3. Check that the server provided a ciphersuite we offered
 	supportedCipherSuite := false
-	for _, suite := range state.Config.CipherSuites {
+	for _, suite := range state.offeredSuites {
 		supportedCipherSuite = supportedCipherSuite || (suite == sh.CipherSuite)
 	}
 	if !supportedCipherSuite {
@@ -377,9 +386,6 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		// This is actually HRR.
 		hrr := sh
 
-		// Narrow the supported ciphersuites to the server-provided one
-		state.Config.CipherSuites = []CipherSuite{hrr.CipherSuite}
-
 		// Handle external extensions.
 		if state.Config.ExtensionHandler != nil {
 			err := state.Config.ExtensionHandler.Receive(HandshakeTypeHelloRetryRequest, &hrr.Extensions)
@@ -425,6 +431,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 			Opts:              state.Opts,
 			hsCtx:             state.hsCtx,
 			cookie:            serverCookie.Cookie,
+			retrySuite:        &hrr.CipherSuite,
 			firstClientHello:  firstClientHello,
 			helloRetryRequest: hm,
 		}, []HandshakeAction{ResetOut{1}}, AlertNoAlert
-- 
2.43.0


From 9543508ab340fb8fe4147a54cc4dd0ff61a98f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 29/66] fix: client rejects a second HelloRetryRequest

---
 client-state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index b04007f..eb656e2 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -386,6 +386,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		// This is actually HRR.
 		hrr := sh
 
+		if state.helloRetryRequest != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Second HelloRetryRequest")
+			return nil, nil, AlertUnexpectedMessage
+		}
+
 		// Handle external extensions.
 		if state.Config.ExtensionHandler != nil {
 			err := state.Config.ExtensionHandler.Receive(HandshakeTypeHelloRetryRequest, &hrr.Extensions)
-- 
2.43.0


From 5a4cc65a60067454ea50754c4026301f1ea17237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 30/66] fix: client checks that the server's key exchange is
 one it offered, with valid keys

---
 client-state-machine.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index eb656e2..726d877 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -466,7 +466,12 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
-	if foundExts[ExtensionTypePreSharedKey] && (serverPSK.SelectedIdentity == 0) {
+	if foundExts[ExtensionTypePreSharedKey] {
+		// We offer at most one PSK
+		if state.earlySecret == nil || serverPSK.SelectedIdentity != 0 {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK we did not offer")
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.UsingPSK = true
 	}
 
@@ -480,7 +485,30 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		}
 
 		state.Params.UsingDH = true
-		dhSecret, _ = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		dhSecret, err = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		if err != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Key agreement failed [%v]", err)
+			return nil, nil, AlertIllegalParameter
+		}
+	}
+
+	// The server must use a PSK in one of the modes we offered, or else DH
+	if state.Params.UsingPSK {
+		mode := PSKModeKE
+		if state.Params.UsingDH {
+			mode = PSKModeDHEKE
+		}
+		modeOffered := false
+		for _, offered := range state.Config.PSKModes {
+			modeOffered = modeOffered || (offered == mode)
+		}
+		if !modeOffered {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK mode we did not offer [%v]", mode)
+			return nil, nil, AlertIllegalParameter
+		}
+	} else if !state.Params.UsingDH {
+		logf(logTypeHandshake, "[ClientStateWaitSH] Server used neither PSK nor DH")
+		return nil, nil, AlertMissingExtension
 	}
 
 	suite := sh.CipherSuite
@@ -507,6 +535,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		if params.Hash != state.earlyHash {
 			logf(logTypeCrypto, "Change of hash between early and normal init early=[%02x] suite=[%04x] hash=[%02x]",
 				state.earlyHash, suite, params.Hash)
+			return nil, nil, AlertIllegalParameter
 		}
 
 		earlySecret = state.earlySecret
-- 
2.43.0


From 39c7f2f0bd791a671f837bdd815f625b86645fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 31/66] fix: client rejects a session ID or compression method
 it did not offer

---
 client-state-machine.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 726d877..91e7b23 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -370,6 +370,12 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		logf(logTypeHandshake, "[ClientStateWaitSH] unsupported version [%x]", supportedVersions.Versions[0])
 		return nil, nil, AlertProtocolVersion
 	}
+	// We offer no session ID and only the null compression method
+	if len(sh.LegacySessionID) != 0 || sh.LegacyCompressionMethod != 0 {
+		logf(logTypeHandshake, "[ClientStateWaitSH] session ID or compression method we did not offer")
+		return nil, nil, AlertIllegalParameter
+	}
+
 	// 3. Check that the server provided a ciphersuite we offered
 	supportedCipherSuite := false
 	for _, suite := range state.offeredSuites {
-- 
2.43.0


From de2ab4d5fea86761ae91938a5fd33933e81a47d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 32/66] fix: client rejects an application protocol or early
 data it did not offer

---
 client-state-machine.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 91e7b23..983774f 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -572,6 +572,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 	logf(logTypeHandshake, "[ClientStateWaitSH] -> [ClientStateWaitEE]")
 	nextState := clientStateWaitEE{
 		Config:                       state.Config,
+		Opts:                         state.Opts,
 		Params:                       state.Params,
 		hsCtx:                        state.hsCtx,
 		cryptoParams:                 params,
@@ -595,6 +596,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 
 type clientStateWaitEE struct {
 	Config                       *Config
+	Opts                         ConnectionOptions
 	Params                       ConnectionParameters
 	hsCtx                        *HandshakeContext
 	cryptoParams                 CipherSuiteParams
@@ -649,8 +651,22 @@ func (state clientStateWaitEE) Next(hr handshakeMessageReader) (HandshakeState,
 	}
 
 	state.Params.UsingEarlyData = foundExts[ExtensionTypeEarlyData]
+	if state.Params.UsingEarlyData && !(state.Params.ClientSendingEarlyData && state.Params.UsingPSK) {
+		logf(logTypeHandshake, "[ClientStateWaitEE] Server accepted early data we did not offer")
+		return nil, nil, AlertIllegalParameter
+	}
 
-	if foundExts[ExtensionTypeALPN] && len(serverALPN.Protocols) > 0 {
+	if foundExts[ExtensionTypeALPN] {
+		offered := false
+		if len(serverALPN.Protocols) == 1 {
+			for _, proto := range state.Opts.NextProtos {
+				offered = offered || (proto == serverALPN.Protocols[0])
+			}
+		}
+		if !offered {
+			logf(logTypeHandshake, "[ClientStateWaitEE] Server selected a protocol we did not offer [%v]", serverALPN.Protocols)
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.NextProto = serverALPN.Protocols[0]
 	}
 
-- 
2.43.0


From 0bbb10a97c6de3aa31684b7dd93cfe601ecd7270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 33/66] fix: accept a CertificateVerify only with a signature
 scheme we offered

---
 client-state-machine.go | 5 +++++
 negotiation.go          | 9 +++++++++
 server-state-machine.go | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 983774f..eadc6ee 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -878,6 +878,11 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if !signatureSchemeOffered(certVerify.Algorithm, state.Config.SignatureSchemes) {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Signature scheme we did not offer [%04x]", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
diff --git a/negotiation.go b/negotiation.go
index 7463953..34afefb 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -168,6 +168,15 @@ func CertificateSelection(serverName *string, signatureSchemes []SignatureScheme
 	return nil, 0, fmt.Errorf("No certificates compatible with signature schemes")
 }
 
+func signatureSchemeOffered(scheme SignatureScheme, offered []SignatureScheme) bool {
+	for _, s := range offered {
+		if s == scheme {
+			return true
+		}
+	}
+	return false
+}
+
 func EarlyDataNegotiation(usingPSK, gotEarlyData, allowEarlyData bool) (using bool, rejected bool) {
 	using = gotEarlyData && usingPSK && allowEarlyData
 	rejected = gotEarlyData && !using
diff --git a/server-state-machine.go b/server-state-machine.go
index e392a5d..a029897 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -1049,6 +1049,11 @@ func (state serverStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if !signatureSchemeOffered(certVerify.Algorithm, state.Config.SignatureSchemes) {
+		logf(logTypeHandshake, "[ServerStateWaitCV] Signature scheme we did not offer [%04x]", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	rawCerts := make([][]byte, len(state.clientCertificate.CertificateList))
 	certs := make([]*x509.Certificate, len(state.clientCertificate.CertificateList))
 	for i, certEntry := range state.clientCertificate.CertificateList {
-- 
2.43.0


From a2e8e5c533e0495a2bd1855b996a0a56a2c8efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 34/66] fix: the message_hash pseudo-message carries its length

---
 client-state-machine.go | 1 +
 server-state-machine.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index eadc6ee..3c5fb3c 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -428,6 +428,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		firstClientHello := &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
 			body:    h.Sum(nil),
+			length:  uint32(params.Hash.Size()),
 		}
 
 		state.hsCtx.receivedEndOfFlight()
diff --git a/server-state-machine.go b/server-state-machine.go
index a029897..62da189 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -187,6 +187,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		firstClientHello = &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
 			body:    cookie.ClientHelloHash,
+			length:  uint32(len(cookie.ClientHelloHash)),
 		}
 		// have the application validate its part of the cookie
 		if state.Config.CookieHandler != nil && !state.Config.CookieHandler.Validate(state.conn, cookie.ApplicationCookie) {
-- 
2.43.0


From a3a8198418bf1235f82a24ceee273b81fdc05e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 35/66] fix: PSK binders after a HelloRetryRequest cover the
 first ClientHello and the retry request

---
 client-state-machine.go | 2 ++
 server-state-machine.go | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 3c5fb3c..403d00c 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -245,6 +245,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 
 		truncHash := params.Hash.New()
+		truncHash.Write(state.firstClientHello.Marshal())
+		truncHash.Write(state.helloRetryRequest.Marshal())
 		truncHash.Write(trunc)
 
 		binder := computeFinishedData(params, binderKey, truncHash.Sum(nil))
diff --git a/server-state-machine.go b/server-state-machine.go
index 62da189..d9a15c8 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -221,7 +221,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			contextBase = append(contextBase, firstClientHello.Marshal()...)
 			// fill in the cookie sent by the client. Needed to calculate the correct hash
 			cookieExt := &CookieExtension{Cookie: clientCookie.Cookie}
-			hrr, err := state.generateHRR(params.Suite,
+			hrr, err := state.generateHRR(initialCipherSuite.Suite,
 				ch.LegacySessionID, cookieExt)
 			if err != nil {
 				return nil, nil, AlertInternalError
-- 
2.43.0


From 98dea334d96365cc642cfd3dab79124228e2eef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 36/66] fix: a DTLS record layer has a version before the
 handshake sets one, so early alerts and retry requests do not panic

---
 record-layer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/record-layer.go b/record-layer.go
index f935342..113447e 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -157,6 +157,7 @@ func NewRecordLayerDTLS(conn io.ReadWriter, dir Direction) *DefaultRecordLayer {
 	r.readCiphers = make(map[Epoch]*cipherState, 0)
 	r.readCiphers[0] = r.cipher
 	r.datagram = true
+	r.version = tls12Version
 	return &r
 }
 
-- 
2.43.0


From 932f1bea19016ba617e3272f3021a35a18954553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 37/66] fix: a DTLS server counts the HelloRetryRequest once,
 so the handshake after it completes

---
 server-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server-state-machine.go b/server-state-machine.go
index d9a15c8..18d8344 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -442,6 +442,10 @@ func (state *serverStateStart) generateHRR(cs CipherSuite, legacySessionId []byt
 		logf(logTypeHandshake, "[ServerStateStart] Error marshaling HRR [%v]", err)
 		return nil, err
 	}
+	// A retry request is always the server's first message, also when it is
+	// generated again to compute the transcript.
+	helloRetryRequest.seq = 0
+	state.hsCtx.hOut.msgSeq = 1
 	return helloRetryRequest, nil
 }
 
-- 
2.43.0


From be73ef97b984cfbe2228334949dd846f2eb929b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 38/66] fix: the server leaves the state that reads past
 rejected early data

---
 server-state-machine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 18d8344..fa74d11 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -760,9 +760,10 @@ func (state serverStateNegotiated) Next(_ handshakeMessageReader) (HandshakeStat
 		exporterSecret:               exporterSecret,
 	}
 	if state.Params.RejectedEarlyData {
+		waitFlight2 := nextState
 		nextState = serverStateReadPastEarlyData{
 			hsCtx: state.hsCtx,
-			next:  &nextState,
+			next:  &waitFlight2,
 		}
 	}
 	return nextState, toSend, AlertNoAlert
-- 
2.43.0


From 9ad8aa4b2ac48de8ba4263022a447b686b471758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 39/66] fix: accept early data only with the first offered PSK
 and not after a retry

---
 server-state-machine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index fa74d11..b801337 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -362,7 +362,9 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	// Figure out if we're going to do early data
 	var clientEarlyTrafficSecret []byte
 	connParams.ClientSendingEarlyData = foundExts[ExtensionTypeEarlyData]
-	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(connParams.UsingPSK, foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
+	// Early data is protected with the first PSK offered, and never follows a retry
+	earlyDataPSK := connParams.UsingPSK && selectedPSK == 0 && !clientSentCookie
+	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(earlyDataPSK, foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
 	if connParams.UsingEarlyData {
 		h := params.Hash.New()
 		h.Write(clientHello.Marshal())
-- 
2.43.0


From 689b064cf0e2b182628c714d3a0af4fa59b3c308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 40/66] fix: early data sent before a HelloRetryRequest is
 discarded

---
 record-layer.go         |  4 +++-
 server-state-machine.go | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/record-layer.go b/record-layer.go
index 113447e..171e282 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -57,6 +57,8 @@ func (t TLSPlaintext) Fragment() []byte {
 	return t.fragment
 }
 
+var errPlaintextTooBig = fmt.Errorf("tls.record: Plaintext size too big")
+
 type cipherState struct {
 	epoch    Epoch       // DTLS epoch
 	ivLength int         // Length of the seq and nonce fields
@@ -451,7 +453,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	// Check that plaintext length is not too long
 	if len(pt.fragment) > maxFragmentLen {
-		return nil, fmt.Errorf("tls.record: Plaintext size too big")
+		return nil, errPlaintextTooBig
 	}
 
 	logf(logTypeIO, "%s RecordLayer.ReadRecord [%d] [%x]", r.label, pt.contentType, pt.fragment)
diff --git a/server-state-machine.go b/server-state-machine.go
index b801337..1ed6c62 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -79,6 +79,9 @@ type serverStateStart struct {
 	Config *Config
 	conn   *Conn
 	hsCtx  *HandshakeContext
+
+	// Set after a HelloRetryRequest, which rejects any early data
+	skipEarlyData bool
 }
 
 var _ HandshakeState = &serverStateStart{}
@@ -88,6 +91,24 @@ func (state serverStateStart) State() State {
 }
 
 func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, []HandshakeAction, Alert) {
+	for state.skipEarlyData {
+		// Without the key for it, early data looks like application data in
+		// the clear, possibly longer than the limit for that.
+		t, err := state.hsCtx.hIn.conn.PeekRecordType(!state.hsCtx.hIn.nonblocking)
+		if err == AlertWouldBlock {
+			return nil, nil, AlertWouldBlock
+		}
+		if err == errPlaintextTooBig {
+			continue
+		}
+		if err != nil || t != RecordTypeApplicationData {
+			break
+		}
+		if _, err := state.hsCtx.hIn.conn.ReadRecord(); err != nil {
+			return nil, nil, AlertInternalError
+		}
+	}
+
 	hm, alert := hr.ReadMessage()
 	if alert != AlertNoAlert {
 		return nil, nil, alert
@@ -318,6 +339,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 				QueueHandshakeMessage{helloRetryRequest},
 				SendQueuedHandshake{},
 			}
+			state.skipEarlyData = foundExts[ExtensionTypeEarlyData]
 			logf(logTypeHandshake, "[ServerStateStart] -> [ServerStateStart]")
 			return state, toSend, AlertStatelessRetry
 		}
-- 
2.43.0


From 0c2be985ba202331a568a64b9a776044b4d1bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 41/66] fix: a server that requires no cookie rejects one
 instead of panicking

---
 server-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server-state-machine.go b/server-state-machine.go
index 1ed6c62..df11cd4 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -194,6 +194,10 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var firstClientHello *HandshakeMessage
 	var initialCipherSuite CipherSuiteParams // the cipher suite that was negotiated when sending the HelloRetryRequest
 	if clientSentCookie {
+		if !state.Config.RequireCookie || state.Config.CookieProtector == nil {
+			logf(logTypeHandshake, "[ServerStateStart] Client sent a cookie we did not ask for")
+			return nil, nil, AlertIllegalParameter
+		}
 		plainCookie, err := state.Config.CookieProtector.DecodeToken(clientCookie.Cookie)
 		if err != nil {
 			logf(logTypeHandshake, fmt.Sprintf("[ServerStateStart] Error decoding token [%v]", err))
-- 
2.43.0


From 0d589f25c9a827626d0f70f4a7933096ec2a441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 42/66] fix: a cookie that does not decode completely is
 rejected

---
 server-state-machine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index df11cd4..82a6f9c 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -204,7 +204,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			return nil, nil, AlertDecryptError
 		}
 		cookie := &cookie{}
-		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil && rb != len(plainCookie) { // this should never happen
+		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil || rb != len(plainCookie) { // this should never happen
 			logf(logTypeHandshake, fmt.Sprintf("[ServerStateStart] Error unmarshaling cookie [%v]", err))
 			return nil, nil, AlertInternalError
 		}
-- 
2.43.0


From 98678e2ccbe0a82f8a065a500ee617aac8a70a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 43/66] fix: a PSK that is not used does not restrict the
 cipher suite

---
 server-state-machine.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 82a6f9c..4cd4951 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -269,6 +269,9 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 
 	// Figure out if we actually should do DH / PSK
 	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, clientPSKModes.KEModes)
+	if !connParams.UsingPSK {
+		psk = nil
+	}
 
 	// Select a ciphersuite
 	connParams.CipherSuite, err = CipherSuiteNegotiation(psk, ch.CipherSuites, state.Config.CipherSuites)
@@ -361,8 +364,6 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	if connParams.UsingPSK {
 		pskSecret = psk.Key
 	} else {
-		psk = nil
-
 		// If we're not using a PSK mode, then we need to have certain extensions
 		if !(foundExts[ExtensionTypeServerName] &&
 			foundExts[ExtensionTypeSupportedGroups] &&
-- 
2.43.0


From e57561fd14691009cf0b8464299eaa316f967f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 44/66] fix: an unknown PSK mode does not allow PSK use without
 Diffie-Hellman

---
 negotiation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/negotiation.go b/negotiation.go
index 34afefb..84214b9 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -118,14 +118,14 @@ func PSKNegotiation(identities []PSKIdentity, binders []PSKBinderEntry, context
 func PSKModeNegotiation(canDoDH, canDoPSK bool, modes []PSKKeyExchangeMode) (bool, bool) {
 	logf(logTypeNegotiation, "Negotiating PSK modes [%v] [%v] [%+v]", canDoDH, canDoPSK, modes)
 	dhAllowed := false
-	dhRequired := true
+	pskOnlyAllowed := false
 	for _, mode := range modes {
 		dhAllowed = dhAllowed || (mode == PSKModeDHEKE)
-		dhRequired = dhRequired && (mode == PSKModeDHEKE)
+		pskOnlyAllowed = pskOnlyAllowed || (mode == PSKModeKE)
 	}
 
-	// Use PSK if we can meet DH requirement and modes were provided
-	usingPSK := canDoPSK && (!dhRequired || canDoDH) && (len(modes) > 0)
+	// Use PSK if we can do one of the modes provided
+	usingPSK := canDoPSK && (pskOnlyAllowed || (dhAllowed && canDoDH))
 
 	// Use DH if allowed
 	usingDH := canDoDH && (dhAllowed || !usingPSK)
-- 
2.43.0


From 6917df3236f31c02f6920312a03e86c003eba486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 45/66] fix: the server uses only PSK modes it is configured
 for

---
 server-state-machine.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 4cd4951..cfa18c2 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -268,7 +268,15 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	}
 
 	// Figure out if we actually should do DH / PSK
-	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, clientPSKModes.KEModes)
+	pskModes := []PSKKeyExchangeMode{}
+	for _, offered := range clientPSKModes.KEModes {
+		for _, supported := range state.Config.PSKModes {
+			if offered == supported {
+				pskModes = append(pskModes, offered)
+			}
+		}
+	}
+	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, pskModes)
 	if !connParams.UsingPSK {
 		psk = nil
 	}
-- 
2.43.0


From 55d6e2769992e64510280e3122fa4932c5701f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 46/66] fix: a PSK handshake and a retry request use only
 cipher suites that are supported

---
 client-state-machine.go | 3 +++
 negotiation.go          | 5 +----
 server-state-machine.go | 4 ++++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 403d00c..4cedb79 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -383,6 +383,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 	for _, suite := range state.offeredSuites {
 		supportedCipherSuite = supportedCipherSuite || (suite == sh.CipherSuite)
 	}
+	if _, ok := cipherSuiteMap[sh.CipherSuite]; !ok {
+		supportedCipherSuite = false
+	}
 	if !supportedCipherSuite {
 		logf(logTypeHandshake, "[ClientStateWaitSH] Unsupported ciphersuite [%04x]", sh.CipherSuite)
 		return nil, nil, AlertHandshakeFailure
diff --git a/negotiation.go b/negotiation.go
index 84214b9..3e95779 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -186,10 +186,7 @@ func EarlyDataNegotiation(usingPSK, gotEarlyData, allowEarlyData bool) (using bo
 
 func CipherSuiteNegotiation(psk *PreSharedKey, offered, supported []CipherSuite) (CipherSuite, error) {
 	for _, s1 := range offered {
-		if psk != nil {
-			if s1 == psk.CipherSuite {
-				return s1, nil
-			}
+		if psk != nil && s1 != psk.CipherSuite {
 			continue
 		}
 
diff --git a/server-state-machine.go b/server-state-machine.go
index cfa18c2..613a1da 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -287,6 +287,10 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		logf(logTypeHandshake, "[ServerStateStart] No common ciphersuite found [%v]", err)
 		return nil, nil, AlertHandshakeFailure
 	}
+	if _, ok := cipherSuiteMap[connParams.CipherSuite]; !ok {
+		logf(logTypeHandshake, "[ServerStateStart] Unsupported ciphersuite [%04x]", connParams.CipherSuite)
+		return nil, nil, AlertHandshakeFailure
+	}
 	if clientSentCookie && initialCipherSuite.Suite != connParams.CipherSuite {
 		logf(logTypeHandshake, "[ServerStateStart] Would have selected a different CipherSuite after receiving the client's Cookie")
 		return nil, nil, AlertInternalError
-- 
2.43.0


From 8fd615e2e7cb9c572e599d8618c2ec53dec1fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 47/66] fix: client does not offer a PSK that none of its
 cipher suites can use

---
 client-state-machine.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 4cedb79..69f9fcd 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -168,22 +168,29 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var earlySecret []byte
 	var clientEarlyTrafficKeys KeySet
 	var clientHello *HandshakeMessage
-	if key, ok := state.Config.PSKs.Get(state.Opts.ServerName); ok {
-		offeredPSK = key
-
+	key, offerPSK := state.Config.PSKs.Get(state.Opts.ServerName)
+	var params CipherSuiteParams
+	compatibleSuites := []CipherSuite{}
+	if offerPSK {
 		// Narrow ciphersuites to ones that match PSK hash
-		params, ok := cipherSuiteMap[key.CipherSuite]
+		var ok bool
+		params, ok = cipherSuiteMap[key.CipherSuite]
 		if !ok {
 			logf(logTypeHandshake, "[ClientStateStart] PSK for unknown ciphersuite")
 			return nil, nil, AlertInternalError
 		}
 
-		compatibleSuites := []CipherSuite{}
 		for _, suite := range ch.CipherSuites {
 			if cipherSuiteMap[suite].Hash == params.Hash {
 				compatibleSuites = append(compatibleSuites, suite)
 			}
 		}
+
+		// A PSK that no suite can use, e.g., after a HelloRetryRequest, is not offered
+		offerPSK = len(compatibleSuites) > 0
+	}
+	if offerPSK {
+		offeredPSK = key
 		ch.CipherSuites = compatibleSuites
 
 		// TODO(ekr@rtfm.com): Check that the ticket can be used for early
-- 
2.43.0


From 429daaa68f261518163e89a59b500dd8212cd1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 48/66] fix: an alert is sent as level then description

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 13d2a0e..416a062 100644
--- a/conn.go
+++ b/conn.go
@@ -522,7 +522,7 @@ func (c *Conn) sendAlert(err Alert) error {
 		level = AlertLevelError
 	}
 
-	buf := []byte{byte(err), byte(level)}
+	buf := []byte{byte(level), byte(err)}
 	c.out.WriteRecord(&TLSPlaintext{
 		contentType: RecordTypeAlert,
 		fragment:    buf,
-- 
2.43.0


From 8992bd92b7186926bcd61b43d10e3606aee8ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 49/66] fix: key updates use the RFC 8446 label

---
 crypto.go        | 1 +
 state-machine.go | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crypto.go b/crypto.go
index a2306b3..2f7f4ee 100644
--- a/crypto.go
+++ b/crypto.go
@@ -557,6 +557,7 @@ const (
 	labelDerived                        = "derived"
 	labelFinished                       = "finished"
 	labelResumption                     = "resumption"
+	labelTrafficUpdate                  = "traffic upd"
 )
 
 // struct HkdfLabel {
diff --git a/state-machine.go b/state-machine.go
index f0635c8..2d7ba7f 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -114,11 +114,11 @@ func (state *stateConnected) KeyUpdate(request KeyUpdateRequest) ([]HandshakeAct
 	var trafficKeys KeySet
 	if state.isClient {
 		state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-			labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 	} else {
 		state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-			labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 	}
 
@@ -199,11 +199,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 		var trafficKeys KeySet
 		if !state.isClient {
 			state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-				labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 		} else {
 			state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-				labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 		}
 
-- 
2.43.0


From 7b9d379a2be4cb702692406c34230116a7f005a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 50/66] fix: a key update with an invalid request value is
 rejected

---
 state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/state-machine.go b/state-machine.go
index 2d7ba7f..cb25180 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -196,6 +196,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 
 	switch body := bodyGeneric.(type) {
 	case *KeyUpdateBody:
+		if body.KeyUpdateRequest != KeyUpdateRequested && body.KeyUpdateRequest != KeyUpdateNotRequested {
+			logf(logTypeHandshake, "[StateConnected] Invalid key update request [%v]", body.KeyUpdateRequest)
+			return nil, nil, AlertIllegalParameter
+		}
+
 		var trafficKeys KeySet
 		if !state.isClient {
 			state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-- 
2.43.0


From a353095cfcedcca2daf2581fd1c5a85de840551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 51/66] fix: nothing is read after a close-notify or fatal
 alert

---
 conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conn.go b/conn.go
index 416a062..38da616 100644
--- a/conn.go
+++ b/conn.go
@@ -273,6 +273,7 @@ type Conn struct {
 	handshakeComplete bool
 
 	readBuffer []byte
+	readError  error // The error that ended the incoming stream
 	in, out    RecordLayer
 	hsCtx      *HandshakeContext
 }
@@ -453,6 +454,9 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 	c.in.Lock()
 	defer c.in.Unlock()
 	for len(c.readBuffer) == 0 {
+		if c.readError != nil {
+			return 0, c.readError
+		}
 		err := c.consumeRecord()
 
 		// err can be nil if consumeRecord processed a non app-data
@@ -460,6 +464,10 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 		if err != nil {
 			if c.config.NonBlocking || err != AlertWouldBlock {
 				logf(logTypeIO, "conn.Read returns err=%v", err)
+				if alert, ok := err.(Alert); err == io.EOF || (ok && alert != AlertWouldBlock) {
+					// The stream has ended; nothing after this is part of it
+					c.readError = err
+				}
 				return 0, err
 			}
 		}
-- 
2.43.0


From e74c421b006ac655304b38be0b789809ace126fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 52/66] fix: post-handshake messages may span records

---
 conn.go | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/conn.go b/conn.go
index 38da616..69e8c1b 100644
--- a/conn.go
+++ b/conn.go
@@ -273,7 +273,8 @@ type Conn struct {
 	handshakeComplete bool
 
 	readBuffer []byte
-	readError  error // The error that ended the incoming stream
+	readError  error  // The error that ended the incoming stream
+	hsBuffer   []byte // The beginning of a post-handshake message
 	in, out    RecordLayer
 	hsCtx      *HandshakeContext
 }
@@ -313,29 +314,46 @@ func (c *Conn) consumeRecord() error {
 		return err
 	}
 
+	// A message that spans records is not interleaved with other content
+	if len(c.hsBuffer) > 0 && pt.contentType != RecordTypeHandshake {
+		c.sendAlert(AlertUnexpectedMessage)
+		return io.EOF
+	}
+
 	switch pt.contentType {
 	case RecordTypeHandshake:
 		logf(logTypeHandshake, "Received post-handshake message")
-		// We do not support fragmentation of post-handshake handshake messages.
+		// We do not support fragmentation of post-handshake handshake messages
+		// in DTLS.
 		// TODO: Factor this more elegantly; coalesce with handshakeLayer.ReadMessage()
 		start := 0
 		headerLen := handshakeHeaderLenTLS
 		if c.config.UseDTLS {
 			headerLen = handshakeHeaderLenDTLS
 		}
-		for start < len(pt.fragment) {
-			if len(pt.fragment[start:]) < headerLen {
-				return fmt.Errorf("Post-handshake handshake message too short for header")
+		data := append(c.hsBuffer, pt.fragment...)
+		c.hsBuffer = nil
+		for start < len(data) {
+			if len(data[start:]) < headerLen {
+				if c.config.UseDTLS {
+					return fmt.Errorf("Post-handshake handshake message too short for header")
+				}
+				c.hsBuffer = data[start:]
+				break
 			}
 
 			hm := &HandshakeMessage{}
-			hm.msgType = HandshakeType(pt.fragment[start])
-			hmLen := (int(pt.fragment[start+1]) << 16) + (int(pt.fragment[start+2]) << 8) + int(pt.fragment[start+3])
+			hm.msgType = HandshakeType(data[start])
+			hmLen := (int(data[start+1]) << 16) + (int(data[start+2]) << 8) + int(data[start+3])
 
-			if len(pt.fragment[start+headerLen:]) < hmLen {
-				return fmt.Errorf("Post-handshake handshake message too short for body")
+			if len(data[start+headerLen:]) < hmLen {
+				if c.config.UseDTLS {
+					return fmt.Errorf("Post-handshake handshake message too short for body")
+				}
+				c.hsBuffer = data[start:]
+				break
 			}
-			hm.body = pt.fragment[start+headerLen : start+headerLen+hmLen]
+			hm.body = data[start+headerLen : start+headerLen+hmLen]
 
 			// XXX: If we want to support more advanced cases, e.g., post-handshake
 			// authentication, we'll need to allow transitions other than
@@ -365,6 +383,12 @@ func (c *Conn) consumeRecord() error {
 			}
 
 			start += headerLen + hmLen
+
+			// A key change has to be at the end of a record
+			if hm.msgType == HandshakeTypeKeyUpdate && start < len(data) {
+				c.sendAlert(AlertUnexpectedMessage)
+				return io.EOF
+			}
 		}
 	case RecordTypeAlert:
 		logf(logTypeIO, "extended buffer (for alert): [%d] %x", len(c.readBuffer), c.readBuffer)
-- 
2.43.0


From 77597fad0b6c0446f1f263781146cb96e3a1c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 53/66] fix: a failed handshake stays failed

---
 conn.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 69e8c1b..c91f98f 100644
--- a/conn.go
+++ b/conn.go
@@ -280,7 +280,7 @@ type Conn struct {
 }
 
 func NewConn(conn net.Conn, config *Config, isClient bool) *Conn {
-	c := &Conn{conn: conn, config: config, isClient: isClient, hsCtx: &HandshakeContext{}}
+	c := &Conn{conn: conn, config: config, isClient: isClient, handshakeAlert: AlertNoAlert, hsCtx: &HandshakeContext{}}
 	if !config.UseDTLS {
 		if config.RecordLayer == nil {
 			c.in = NewRecordLayerTLS(c.conn, DirectionRead)
@@ -765,8 +765,7 @@ func (c *Conn) Handshake() Alert {
 	}
 
 	// TODO Lock handshakeMutex
-	// TODO Remove CloseNotify hack
-	if c.handshakeAlert != AlertNoAlert && c.handshakeAlert != AlertCloseNotify {
+	if c.handshakeAlert != AlertNoAlert {
 		logf(logTypeHandshake, "Pre-existing handshake error: %v", c.handshakeAlert)
 		return c.handshakeAlert
 	}
@@ -777,6 +776,7 @@ func (c *Conn) Handshake() Alert {
 	if c.hState == nil {
 		logf(logTypeHandshake, "%s First time through handshake (or after stateless retry), setting up", label)
 		alert := c.HandshakeSetup()
+		c.handshakeAlert = alert
 		if alert != AlertNoAlert || (c.isClient && c.config.NonBlocking) {
 			return alert
 		}
@@ -805,11 +805,13 @@ func (c *Conn) Handshake() Alert {
 		}
 		if alert == AlertCloseNotify {
 			logf(logTypeHandshake, "%s Error reading message: %s", label, alert)
+			c.handshakeAlert = AlertCloseNotify
 			c.sendAlert(AlertCloseNotify)
 			return AlertCloseNotify
 		}
 		if alert != AlertNoAlert && alert != AlertStatelessRetry {
 			logf(logTypeHandshake, "Error in state transition: %v", alert)
+			c.handshakeAlert = alert
 			return alert
 		}
 
@@ -817,6 +819,7 @@ func (c *Conn) Handshake() Alert {
 			logf(logTypeHandshake, "%s taking next action (%d)", label, index)
 			if alert := c.takeAction(action); alert != AlertNoAlert {
 				logf(logTypeHandshake, "Error during handshake actions: %v", alert)
+				c.handshakeAlert = alert
 				c.sendAlert(alert)
 				return alert
 			}
-- 
2.43.0


From 763106fd37fb459cd7954b0a82a6ebb0101069d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 54/66] fix: an alert about a malformed alert is sent with the
 outgoing keys, not the incoming ones

---
 handshake-layer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 8704f8d..e937721 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -203,7 +203,10 @@ func (h *HandshakeLayer) readRecord() error {
 
 	if pt.contentType == RecordTypeAlert {
 		if len(pt.fragment) < 2 {
-			h.sendAlert(AlertUnexpectedMessage)
+			// h is the incoming layer; alerts go out on the other one
+			if h.ctx.hOut != nil {
+				h.ctx.hOut.sendAlert(AlertUnexpectedMessage)
+			}
 			return io.EOF
 		}
 		logf(logTypeIO, "read alert %v", pt.fragment[1])
-- 
2.43.0


From 99632d7f3f585e564c4fec8efff6006b415216e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 55/66] fix: a fatal alert received during the handshake is
 reported, and one of the wrong length is malformed

---
 conn.go            | 4 ++++
 handshake-layer.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index c91f98f..c66b75a 100644
--- a/conn.go
+++ b/conn.go
@@ -745,6 +745,10 @@ func (r *handshakeMessageReaderImpl) ReadMessage() (*HandshakeMessage, Alert) {
 		}
 		if err != nil {
 			logf(logTypeHandshake, "Error reading message: %v", err)
+			if alert, ok := err.(Alert); ok {
+				// The alert that the peer sent
+				return nil, alert
+			}
 			return nil, AlertCloseNotify
 		}
 		if hm != nil {
diff --git a/handshake-layer.go b/handshake-layer.go
index e937721..b9519e9 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -202,7 +202,7 @@ func (h *HandshakeLayer) readRecord() error {
 	}
 
 	if pt.contentType == RecordTypeAlert {
-		if len(pt.fragment) < 2 {
+		if len(pt.fragment) != 2 {
 			// h is the incoming layer; alerts go out on the other one
 			if h.ctx.hOut != nil {
 				h.ctx.hOut.sendAlert(AlertUnexpectedMessage)
-- 
2.43.0


From 2e228d319fec731a1b1b0f23b7d63bdf46bdf13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 56/66] fix: records are sent and keys changed under the lock
 of the outgoing record layer

---
 conn.go | 67 +++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/conn.go b/conn.go
index c66b75a..d96fff3 100644
--- a/conn.go
+++ b/conn.go
@@ -306,6 +306,31 @@ func NewConn(conn net.Conn, config *Config, isClient bool) *Conn {
 	return c
 }
 
+// processPostHandshake changes state and takes the actions that a message asks
+// for.  This can send records and change keys, so nothing else may be sent in
+// the meantime.
+func (c *Conn) processPostHandshake(hm *HandshakeMessage) (alert Alert, connected bool) {
+	c.out.Lock()
+	defer c.out.Unlock()
+
+	state, actions, alert := c.state.ProcessMessage(hm)
+	if alert != AlertNoAlert {
+		logf(logTypeHandshake, "Error in state transition: %v", alert)
+		return alert, false
+	}
+
+	for _, action := range actions {
+		alert = c.takeAction(action)
+		if alert != AlertNoAlert {
+			logf(logTypeHandshake, "Error during handshake actions: %v", alert)
+			return alert, false
+		}
+	}
+
+	c.state, connected = state.(stateConnected)
+	return AlertNoAlert, connected
+}
+
 // Read up
 func (c *Conn) consumeRecord() error {
 	pt, err := c.in.ReadRecord()
@@ -358,24 +383,11 @@ func (c *Conn) consumeRecord() error {
 			// XXX: If we want to support more advanced cases, e.g., post-handshake
 			// authentication, we'll need to allow transitions other than
 			// Connected -> Connected
-			state, actions, alert := c.state.ProcessMessage(hm)
+			alert, connected := c.processPostHandshake(hm)
 			if alert != AlertNoAlert {
-				logf(logTypeHandshake, "Error in state transition: %v", alert)
 				c.sendAlert(alert)
 				return io.EOF
 			}
-
-			for _, action := range actions {
-				alert = c.takeAction(action)
-				if alert != AlertNoAlert {
-					logf(logTypeHandshake, "Error during handshake actions: %v", alert)
-					c.sendAlert(alert)
-					return io.EOF
-				}
-			}
-
-			var connected bool
-			c.state, connected = state.(stateConnected)
 			if !connected {
 				logf(logTypeHandshake, "Disconnected after state transition: %v", alert)
 				c.sendAlert(alert)
@@ -540,8 +552,7 @@ func (c *Conn) Write(buffer []byte) (int, error) {
 	return sent, nil
 }
 
-// sendAlert sends a TLS alert message.
-// c.out.Mutex <= L.
+// sendAlert sends a TLS alert message.  The caller does not hold c.out.Lock().
 func (c *Conn) sendAlert(err Alert) error {
 	c.handshakeMutex.Lock()
 	defer c.handshakeMutex.Unlock()
@@ -555,10 +566,12 @@ func (c *Conn) sendAlert(err Alert) error {
 	}
 
 	buf := []byte{byte(level), byte(err)}
+	c.out.Lock()
 	c.out.WriteRecord(&TLSPlaintext{
 		contentType: RecordTypeAlert,
 		fragment:    buf,
 	})
+	c.out.Unlock()
 
 	// close_notify and end_of_early_data are not actually errors
 	if level == AlertLevelWarning {
@@ -886,23 +899,35 @@ func (c *Conn) SendKeyUpdate(requestUpdate bool) error {
 		request = KeyUpdateRequested
 	}
 
+	if alert := c.updateKeys(request); alert != AlertNoAlert {
+		c.sendAlert(alert)
+		return fmt.Errorf("Alert while updating keys: %v", alert)
+	}
+
+	return nil
+}
+
+// updateKeys sends a key update and changes to the new keys, with nothing sent
+// in between.
+func (c *Conn) updateKeys(request KeyUpdateRequest) Alert {
+	c.out.Lock()
+	defer c.out.Unlock()
+
 	// Create the key update and update state
 	actions, alert := c.state.KeyUpdate(request)
 	if alert != AlertNoAlert {
-		c.sendAlert(alert)
-		return fmt.Errorf("Alert while generating key update: %v", alert)
+		return alert
 	}
 
 	// Take actions (send key update and rekey)
 	for _, action := range actions {
 		alert = c.takeAction(action)
 		if alert != AlertNoAlert {
-			c.sendAlert(alert)
-			return fmt.Errorf("Alert during key update actions: %v", alert)
+			return alert
 		}
 	}
 
-	return nil
+	return AlertNoAlert
 }
 
 func (c *Conn) GetHsState() State {
-- 
2.43.0


From 92d9dc42abad04e33c4469bd1c584ea7f0e2b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 57/66] fix: a DTLS client reused the record numbers of a
 retransmitted first hello after a retry

---
 record-layer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 171e282..d952db7 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -97,6 +97,7 @@ type DefaultRecordLayer struct {
 	cachedError  error         // Error on the last record read
 
 	cipher      *cipherState
+	clear       *cipherState // The state of epoch 0, which a retry returns to
 	readCiphers map[Epoch]*cipherState
 
 	datagram bool
@@ -145,6 +146,7 @@ func NewRecordLayerTLS(conn io.ReadWriter, dir Direction) *DefaultRecordLayer {
 	r.conn = conn
 	r.frame = newFrameReader(recordLayerFrameDetails{false})
 	r.cipher = newCipherStateNull()
+	r.clear = r.cipher
 	r.version = tls10Version
 	return &r
 }
@@ -156,6 +158,7 @@ func NewRecordLayerDTLS(conn io.ReadWriter, dir Direction) *DefaultRecordLayer {
 	r.conn = conn
 	r.frame = newFrameReader(recordLayerFrameDetails{true})
 	r.cipher = newCipherStateNull()
+	r.clear = r.cipher
 	r.readCiphers = make(map[Epoch]*cipherState, 0)
 	r.readCiphers[0] = r.cipher
 	r.datagram = true
@@ -168,8 +171,11 @@ func (r *DefaultRecordLayer) SetVersion(v uint16) {
 }
 
 func (r *DefaultRecordLayer) ResetClear(seq uint64) {
-	r.cipher = newCipherStateNull()
-	r.cipher.seq = seq
+	// Retransmissions may have used more record numbers; never repeat one.
+	r.cipher = r.clear
+	if r.cipher.seq < seq {
+		r.cipher.seq = seq
+	}
 }
 
 func (r *DefaultRecordLayer) Epoch() Epoch {
-- 
2.43.0


From c405f8b0a76445dcd74503c5c7e185096cb88eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 58/66] fix: bytes that the transport returned together with an
 error were lost

---
 record-layer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index d952db7..ae00603 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -95,6 +95,7 @@ type DefaultRecordLayer struct {
 	nextData     []byte        // The next record to send
 	cachedRecord *TLSPlaintext // Last record read, cached to enable "peek"
 	cachedError  error         // Error on the last record read
+	readError    error         // Error that came with the last data read
 
 	cipher      *cipherState
 	clear       *cipherState // The state of epoch 0, which a retry returns to
@@ -367,11 +368,17 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 	for err != nil {
 		if r.frame.needed() > 0 {
 			buf := make([]byte, r.frame.details.headerLen()+maxCiphertextLen)
-			n, err := r.conn.Read(buf)
-			if err != nil {
+			n, err := 0, r.readError
+			r.readError = nil
+			if err == nil {
+				n, err = r.conn.Read(buf)
+			}
+			if err != nil && n == 0 {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
 				return nil, err
 			}
+			// An error that comes with data is reported once that is used
+			r.readError = err
 
 			if n == 0 {
 				return nil, AlertWouldBlock
-- 
2.43.0


From d10bc8ee2d7bddf10bb6eeca3e6ac53f705721eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 59/66] fix: writing to a stream went on after a failed write,
 contrary to the documentation

---
 record-layer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/record-layer.go b/record-layer.go
index ae00603..1f5760c 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -96,6 +96,7 @@ type DefaultRecordLayer struct {
 	cachedRecord *TLSPlaintext // Last record read, cached to enable "peek"
 	cachedError  error         // Error on the last record read
 	readError    error         // Error that came with the last data read
+	writeError   error         // Error that ended the outgoing stream
 
 	cipher      *cipherState
 	clear       *cipherState // The state of epoch 0, which a retry returns to
@@ -490,6 +491,10 @@ func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *ci
 		return fmt.Errorf("tls.record: Record size too big")
 	}
 
+	if r.writeError != nil {
+		return r.writeError
+	}
+
 	seq := cipher.combineSeq(r.datagram)
 	length := len(pt.fragment)
 	var contentType RecordType
@@ -532,5 +537,10 @@ func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *ci
 
 	cipher.incrementSequenceNumber()
 	_, err := r.conn.Write(record)
+	if err != nil && !r.datagram {
+		// The peer may have part of this record, or none of it, so it
+		// cannot make sense of anything that follows.
+		r.writeError = err
+	}
 	return err
 }
-- 
2.43.0


From f646c5f9b603aedba94676546923adcda653ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 60/66] fix: a handshake that failed to send a ticket or to
 retransmit succeeded when called again

---
 conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conn.go b/conn.go
index d96fff3..a7e4089 100644
--- a/conn.go
+++ b/conn.go
@@ -463,6 +463,9 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 
 		// If there's no early data, then return WouldBlock
 		if len(c.hsCtx.earlyData) == 0 {
+			if c.handshakeAlert != AlertNoAlert {
+				return 0, c.handshakeAlert
+			}
 			return 0, AlertWouldBlock
 		}
 
@@ -815,6 +818,7 @@ func (c *Conn) Handshake() Alert {
 			// If we blocked, then run our timers to see if any have expired.
 			if c.hsCtx.hIn.datagram {
 				if err := c.hsCtx.timers.check(time.Now()); err != nil {
+					c.handshakeAlert = AlertInternalError
 					return AlertInternalError
 				}
 			}
@@ -861,6 +865,7 @@ func (c *Conn) Handshake() Alert {
 						alert = c.takeAction(action)
 						if alert != AlertNoAlert {
 							logf(logTypeHandshake, "Error during handshake actions: %v", alert)
+							c.handshakeAlert = alert
 							c.sendAlert(alert)
 							return alert
 						}
-- 
2.43.0


From d174a55c41b6d5ccf1b17f7ad88015371504bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 61/66] fix: dialing "udp4" or "udp6" ran TLS, not DTLS, over
 datagrams

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 4d22869..39f2e53 100644
--- a/tls.go
+++ b/tls.go
@@ -140,7 +140,7 @@ func DialWithDialer(dialer *net.Dialer, network, addr string, config *Config) (*
 	}
 
 	// Set up DTLS as needed.
-	config.UseDTLS = (network == "udp")
+	config.UseDTLS = strings.HasPrefix(network, "udp")
 
 	conn := Client(rawConn, config)
 
-- 
2.43.0


From 1b2855119440eacd21fc213fba64ae62a65695a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 62/66] fix: a server's alerts and retry requests had the
 record version of an initial ClientHello

---
 conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index a7e4089..1406628 100644
--- a/conn.go
+++ b/conn.go
@@ -300,6 +300,10 @@ func NewConn(conn net.Conn, config *Config, isClient bool) *Conn {
 		c.hsCtx.timers = newTimerSet()
 		c.hsCtx.waitingNextFlight = true
 	}
+	if !isClient {
+		// Only an initial ClientHello may have another version.
+		c.out.SetVersion(tls12Version)
+	}
 	c.in.SetLabel(c.label())
 	c.out.SetLabel(c.label())
 	c.hsCtx.hIn.nonblocking = c.config.NonBlocking
-- 
2.43.0


From f6665046dd900a8dab025a308f84589e1fbbb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 63/66] fix: a protected record of an unknown content type was
 ignored once connected

---
 conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index 1406628..836c235 100644
--- a/conn.go
+++ b/conn.go
@@ -437,6 +437,10 @@ func (c *Conn) consumeRecord() error {
 		c.readBuffer = append(c.readBuffer, pt.fragment...)
 		logf(logTypeIO, "extended buffer: [%d] %x", len(c.readBuffer), c.readBuffer)
 
+	default:
+		logf(logTypeIO, "Unexpected record type %d", pt.contentType)
+		c.sendAlert(AlertUnexpectedMessage)
+		return io.EOF
 	}
 
 	return err
-- 
2.43.0


From 8dd99ba5157296fecf1b018e6988bed129af50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 64/66] fix: a ClientHello after a retry repeats the random
 value, key shares and suites of the first

---
 client-state-machine.go | 42 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 69f9fcd..3307eac 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -56,7 +56,8 @@ type clientStateStart struct {
 	Params ConnectionParameters
 
 	cookie            []byte
-	retrySuite        *CipherSuite // the suite selected by a HelloRetryRequest
+	retrySuite        *CipherSuite       // the suite selected by a HelloRetryRequest
+	first             *clientStateWaitSH // what the first ClientHello offered
 	firstClientHello  *HandshakeMessage
 	helloRetryRequest *HandshakeMessage
 	hsCtx             *HandshakeContext
@@ -75,7 +76,14 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		HandshakeType: HandshakeTypeClientHello,
 		Shares:        make([]KeyShareEntry, len(state.Config.Groups)),
 	}
-	for i, group := range state.Config.Groups {
+	newShares := state.Config.Groups
+	if state.first != nil {
+		// The ClientHello after a HelloRetryRequest repeats the first one
+		offeredDH = state.first.OfferedDH
+		ks.Shares = state.first.keyShares
+		newShares = nil
+	}
+	for i, group := range newShares {
 		pub, priv, err := newKeyShare(group)
 		if err != nil {
 			logf(logTypeHandshake, "[ClientStateStart] Error generating key share [%v]", err)
@@ -108,15 +116,15 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		LegacyVersion: wireVersion(state.hsCtx.hIn),
 		CipherSuites:  state.Config.CipherSuites,
 	}
-	if state.retrySuite != nil {
-		// Narrow the supported ciphersuites to the server-provided one
-		ch.CipherSuites = []CipherSuite{*state.retrySuite}
-	}
 	_, err := prng.Read(ch.Random[:])
 	if err != nil {
 		logf(logTypeHandshake, "[ClientStateStart] Error creating ClientHello random [%v]", err)
 		return nil, nil, AlertInternalError
 	}
+	if state.first != nil {
+		ch.CipherSuites = state.first.helloSuites
+		ch.Random = state.first.helloRandom
+	}
 	for _, ext := range []ExtensionBody{&sv, &sni, &ks, &sg, &sa} {
 		err := ch.Extensions.Add(ext)
 		if err != nil {
@@ -185,6 +193,13 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 				compatibleSuites = append(compatibleSuites, suite)
 			}
 		}
+		if state.first != nil {
+			// The suite and thus its hash are settled
+			compatibleSuites = nil
+			if cipherSuiteMap[*state.retrySuite].Hash == params.Hash {
+				compatibleSuites = ch.CipherSuites
+			}
+		}
 
 		// A PSK that no suite can use, e.g., after a HelloRetryRequest, is not offered
 		offerPSK = len(compatibleSuites) > 0
@@ -293,6 +308,9 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		OfferedPSK: offeredPSK,
 
 		offeredSuites: ch.CipherSuites,
+		helloSuites:   ch.CipherSuites,
+		helloRandom:   ch.Random,
+		keyShares:     ks.Shares,
 
 		earlySecret: earlySecret,
 		earlyHash:   earlyHash,
@@ -302,6 +320,11 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		clientHello:       clientHello,
 	}
 
+	if state.retrySuite != nil {
+		// The server has selected the suite
+		nextState.offeredSuites = []CipherSuite{*state.retrySuite}
+	}
+
 	toSend := []HandshakeAction{
 		QueueHandshakeMessage{clientHello},
 		SendQueuedHandshake{},
@@ -324,7 +347,11 @@ type clientStateWaitSH struct {
 	OfferedPSK PreSharedKey
 	PSK        []byte
 
-	offeredSuites []CipherSuite
+	offeredSuites []CipherSuite // the suites that the server may select
+
+	helloSuites []CipherSuite
+	helloRandom [32]byte
+	keyShares   []KeyShareEntry
 
 	earlySecret []byte
 	earlyHash   crypto.Hash
@@ -456,6 +483,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 			hsCtx:             state.hsCtx,
 			cookie:            serverCookie.Cookie,
 			retrySuite:        &hrr.CipherSuite,
+			first:             &state,
 			firstClientHello:  firstClientHello,
 			helloRetryRequest: hm,
 		}, []HandshakeAction{ResetOut{1}}, AlertNoAlert
-- 
2.43.0


From a7bb84ab653456375163ab724bda30865daed1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 65/66] fix: expired session tickets are neither offered nor
 accepted

---
 client-state-machine.go |  4 ++++
 conn.go                 | 12 ++++++++++++
 negotiation.go          |  5 +++++
 state-machine.go        |  7 ++++++-
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 3307eac..e50645d 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -179,6 +179,10 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	key, offerPSK := state.Config.PSKs.Get(state.Opts.ServerName)
 	var params CipherSuiteParams
 	compatibleSuites := []CipherSuite{}
+	if offerPSK && key.expired() {
+		logf(logTypeHandshake, "[ClientStateStart] PSK has expired")
+		offerPSK = false
+	}
 	if offerPSK {
 		// Narrow ciphersuites to ones that match PSK hash
 		var ok bool
diff --git a/conn.go b/conn.go
index 836c235..90c393d 100644
--- a/conn.go
+++ b/conn.go
@@ -29,6 +29,11 @@ type PreSharedKey struct {
 	TicketAgeAdd uint32
 }
 
+// expired reports whether the key has a limited lifetime, and that is over.
+func (psk PreSharedKey) expired() bool {
+	return !psk.ExpiresAt.IsZero() && !time.Now().Before(psk.ExpiresAt)
+}
+
 type PreSharedKeyCache interface {
 	Get(string) (PreSharedKey, bool)
 	Put(string, PreSharedKey)
@@ -190,6 +195,9 @@ func (c *Config) Init(isClient bool) error {
 	if c.TicketLen == 0 {
 		c.TicketLen = defaultTicketLen
 	}
+	if c.TicketLifetime == 0 {
+		c.TicketLifetime = defaultTicketLifetime
+	}
 	if !reflect.ValueOf(c.PSKs).IsValid() {
 		c.PSKs = &PSKMapCache{}
 	}
@@ -242,6 +250,10 @@ var (
 
 	defaultTicketLen = 16
 
+	// a day, in seconds
+	defaultTicketLifetime uint32 = 86400
+	maxTicketLifetime     uint32 = 7 * 86400
+
 	defaultPSKModes = []PSKKeyExchangeMode{
 		PSKModeKE,
 		PSKModeDHEKE,
diff --git a/negotiation.go b/negotiation.go
index 3e95779..a4ad8d2 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -63,6 +63,11 @@ func PSKNegotiation(identities []PSKIdentity, binders []PSKBinderEntry, context
 			continue
 		}
 
+		if psk.expired() {
+			logf(logTypeNegotiation, "Expired PSK for identity %x", identityHex)
+			continue
+		}
+
 		// For resumption, make sure the ticket age is correct
 		if psk.IsResumption {
 			extTicketAge := id.ObfuscatedTicketAge - psk.TicketAgeAdd
diff --git a/state-machine.go b/state-machine.go
index cb25180..1b813a0 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -232,6 +232,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 
 		resumptionKey := HkdfExpandLabel(state.cryptoParams.Hash, state.resumptionSecret,
 			labelResumption, body.TicketNonce, state.cryptoParams.Hash.Size())
+		// RFC 8446, section 4.6.1: no ticket is kept for more than a week
+		lifetime := body.TicketLifetime
+		if lifetime > maxTicketLifetime {
+			lifetime = maxTicketLifetime
+		}
 		psk := PreSharedKey{
 			CipherSuite:  state.cryptoParams.Suite,
 			IsResumption: true,
@@ -239,7 +244,7 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 			Key:          resumptionKey,
 			NextProto:    state.Params.NextProto,
 			ReceivedAt:   time.Now(),
-			ExpiresAt:    time.Now().Add(time.Duration(body.TicketLifetime) * time.Second),
+			ExpiresAt:    time.Now().Add(time.Duration(lifetime) * time.Second),
 			TicketAgeAdd: body.TicketAgeAdd,
 		}
 
-- 
2.43.0


From 115ed21c924603fe65f398632f4da773f069baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 66/66] fix: alerts other than user_canceled are errors,
 whatever their level

---
 conn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 90c393d..00321ff 100644
--- a/conn.go
+++ b/conn.go
@@ -430,7 +430,13 @@ func (c *Conn) consumeRecord() error {
 
 		switch pt.fragment[0] {
 		case AlertLevelWarning:
-			// drop on the floor
+			// In TLS 1.3, all other alerts are errors, whatever their level
+			switch Alert(pt.fragment[1]) {
+			case AlertUserCanceled, AlertNoRenegotiation:
+				// drop on the floor
+			default:
+				return receivedAlert(pt.fragment[1])
+			}
 		case AlertLevelError:
 			return receivedAlert(pt.fragment[1])
 		default:
-- 
2.43.0

