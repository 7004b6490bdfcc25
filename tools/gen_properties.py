#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "Handshake messages and extensions survive encode/decode unchanged",
  "For every handshake message and every extension the library can express, decoding the bytes that encoding it produced succeeds, consumes exactly those bytes and yields an equal value. Encoding refuses a value it cannot represent rather than emitting bytes that decode to something else.",
  ["inputs"], "all field values and list/vector lengths of every message body and extension type",
  "The tests encode and decode one hand-written sample per type; they do not vary field values, vector lengths, empty/maximal lists or context-dependent layouts (client/server forms).",
  ["handshake-messages.go", "extensions.go", "syntax/encode.go", "syntax/decode.go"],
  [("Marshal/Unmarshal of message bodies", "handshake-messages.go"), ("extension bodies", "extensions.go"), ("reflection encoder/decoder", "syntax/encode.go, syntax/decode.go")])
p("C02", "Decoding arbitrary peer bytes is total",
  "Decoding any byte string as any handshake message, extension, alert or syntax-tagged structure returns either a value or an error: it never panics, never loops forever and never reports consuming more bytes than it was given. A message decoded in the handshake is accepted only if all of its bytes were consumed.",
  ["inputs"], "all byte strings up to the bound, for every decoder and every declared structure shape",
  "fuzz_test.go runs a few seconds of random mutation; rare length/offset combinations (empty input, length fields one off, zero-size elements) are not reached.",
  ["syntax/decode.go", "handshake-messages.go", "extensions.go"],
  [("slice/vector/pointer decoders", "syntax/decode.go"), ("safeUnmarshal, ToBody", "handshake-layer.go"), ("body and extension Unmarshal", "handshake-messages.go, extensions.go")])
p("C03", "A byte string has at most one meaning: accepted encodings are canonical",
  "Whatever bytes a handshake-message or extension decoder accepts, re-encoding the decoded value reproduces exactly the bytes consumed, and the decoded value does not depend on any byte after those. Two different accepted byte strings therefore never denote the same message.",
  ["inputs"], "all byte strings up to the bound that a decoder accepts",
  "Tests only decode bytes that the encoder produced; sloppy decoders that ignore length fields, trailing data or non-minimal forms pass them.",
  ["syntax/decode.go", "handshake-messages.go", "extensions.go"],
  [("length accounting of vectors", "syntax/decode.go"), ("extension list and bodies", "extensions.go")])
p("C04", "The syntax codec enforces the declared presentation-language limits",
  "For every struct declaration using head, min, max, varint, optional or omit, encoding produces exactly the TLS presentation-language bytes of the value, rejects vectors whose byte length lies outside the declared min/max or does not fit the length header, and decoding applies the same limits. Decoding the encoding of any accepted value returns the value.",
  ["inputs", "programs"], "all values and byte strings up to the bound over a catalogue of declarations covering every tag and kind",
  "Tests check a table of literal cases; limits are only probed at one or two lengths and never at every combination of header width, min and max.",
  ["syntax/encode.go", "syntax/decode.go", "syntax/tags.go"],
  [("slice/array/map/struct/pointer encoders", "syntax/encode.go"), ("decoders", "syntax/decode.go"), ("tag parser", "syntax/tags.go")])
p("C05", "Protected records arrive exactly as written",
  "When one endpoint writes any sequence of records under a key and the other reads them in order under the same key, the reader gets the same content types and the same fragment bytes in the same order, for every payload, padding length and starting sequence number, for TLS and DTLS, in the clear or encrypted. A record whose payload is within the protocol limit is accepted for writing.",
  ["inputs", "histories"], "all payload bytes/lengths up to the bound, paddings, sequence numbers, content types and write sequences",
  "Tests write one or two fixed records from sequence number 0.",
  ["record-layer.go", "frame-reader.go"],
  [("writeRecordWithPadding/encrypt", "record-layer.go"), ("nextRecord/decrypt", "record-layer.go"), ("frame reassembly", "frame-reader.go")])
p("C06", "A record nonce is never reused and record numbers follow the protocol",
  "Every record protected under one key uses a different nonce: the static IV exclusive-or'ed with the record number, which starts at zero on each rekey and rises by exactly one per record (with the epoch in its top 16 bits for DTLS), and the library refuses to continue rather than let the number wrap. The header that goes on the wire is the authenticated additional data and carries the true length (and for DTLS the true record number).",
  ["inputs", "histories"], "all IVs, all 48-bit starting sequence numbers, all write/rekey histories up to the bound",
  "Tests only exercise sequence numbers 0 and 1, where dropped high bytes, carry bugs and cross-key reuse do not show.",
  ["record-layer.go"],
  [("computeNonce", "record-layer.go"), ("incrementSequenceNumber/combineSeq", "record-layer.go"), ("Rekey", "record-layer.go")])
p("C07", "Only authentic, in-sequence records are delivered",
  "Once a read key is installed, the bytes handed to the layers above are exactly a record the peer protected under that key at that record number: a record with any changed bit (header, body, length), a wrong-key record, on a TLS stream also a replayed or reordered one, or one whose plaintext has no content type yields an error and no data. A rejected record leaves the reader able to accept the genuine next record.",
  ["inputs", "fault_sequences"], "all modifications, substitutions and reorderings of records within the bound",
  "Tests flip one fixed byte of one record.",
  ["record-layer.go"],
  [("nextRecord", "record-layer.go"), ("decrypt", "record-layer.go")])
p("C08", "Record parsing is total and independent of how the stream is chunked",
  "For any bytes from the network, delivered in pieces of any size (over DTLS: in any datagrams), reading records never panics or hangs and over TLS yields the same sequence of records and errors as when delivered at once; partial data reports would-block and loses nothing. Records with an unknown content type, or with lengths over the protocol limit, are rejected.",
  ["inputs", "schedules"], "all byte streams and all ways of splitting them into reads, up to the bound",
  "Tests feed whole records or a single fixed split.",
  ["record-layer.go", "frame-reader.go"],
  [("frameReader.process/addChunk", "frame-reader.go"), ("nextRecord", "record-layer.go")])
p("C09", "DTLS records are opened with the key of the epoch they name",
  "A DTLS record is delivered only if it authenticates under the key of the epoch in its header and that epoch's key is still installed; records of unknown epochs are dropped without error or effect, old-epoch records are delivered only to handshake reading, and ordinary reads return only records of the current epoch. Every delivered record reports the epoch and record number it was really protected under.",
  ["inputs", "histories"], "all epochs, sequence numbers, rekey/discard histories and interleavings of records within the bound",
  "Tests use two fixed epochs with one record each.",
  ["record-layer.go", "handshake-layer.go"],
  [("readCiphers lookup", "record-layer.go"), ("ReadRecordAnyEpoch", "record-layer.go"), ("epoch check in readRecord", "handshake-layer.go")])
p("C10", "TLS handshake messages are independent of record boundaries",
  "However a sequence of handshake messages is divided into records by the sender or the network, the receiver obtains exactly the same messages, types, bodies and order; a sender splits messages of any length into records within the limit. Malformed, short or unexpected records in the handshake produce an error, never a panic or an altered message.",
  ["inputs", "schedules"], "all message sequences, all fragmentations into records, all other record contents within the bound",
  "Tests use one or two fixed fragmentations of short messages.",
  ["handshake-layer.go", "frame-reader.go"],
  [("ReadMessage/readRecord", "handshake-layer.go"), ("WriteMessage/writeFragment", "handshake-layer.go")])
p("C11", "DTLS handshake reassembly is correct for every order of fragments",
  "If every byte of each message eventually arrives in some fragments, in any order, overlapping or duplicated and interleaved with fragments of other messages, the receiver delivers each message exactly once, in message-sequence order, with exactly the sender's type and body. No fragment, however malformed its offset, length or sequence fields, makes it panic or deliver bytes nobody sent.",
  ["inputs", "schedules", "fault_sequences"], "all fragment sets, arrival orders, duplications, overlaps and malformed fields within the bound",
  "Tests replay three or four hand-chosen orders; arrival-order and overlap combinations grow factorially.",
  ["handshake-layer.go", "dtls.go"],
  [("newFragmentReceived/checkMessageAvailable/noteMessageDelivered", "handshake-layer.go")])
p("C12", "DTLS retransmission omits only what the peer acknowledged",
  "After any sequence of sends, acknowledgements and timeouts, a retransmission resends every byte of the current flight that has not been acknowledged, and skips a fragment only if a record that carried all of it was acknowledged; once everything is acknowledged nothing more is sent. An acknowledgement lists record numbers actually received, and acknowledging unknown records has no effect.",
  ["inputs", "histories", "fault_sequences"], "all acknowledgement sets, loss patterns, epochs and message lengths within the bound",
  "Tests acknowledge one chosen record in one flight, under a single epoch.",
  ["dtls.go", "handshake-layer.go"],
  [("processAck/fragmentAcked", "dtls.go"), ("sentFragments in writeFragment", "handshake-layer.go"), ("sendAck", "dtls.go")])
p("C13", "Timers fire exactly once, in order, and only after their deadline",
  "For any sequence of starting, cancelling and checking timers, including callbacks that start new timers, every timer that was not cancelled fires exactly once at the first check after its deadline, earlier deadlines first; a cancelled timer never fires, and none is lost or fires early. The reported remaining time is that of the earliest pending timer.",
  ["histories", "schedules"], "all operation sequences, delays and clock readings within the bound",
  "Tests use real sleeps with at most two timers that never expire together.",
  ["timer.go"],
  [("timerSet.start/check/cancel/remaining", "timer.go")])
p("C14", "A client never completes a handshake with an unauthenticated server",
  "A client reaches the connected state only if the server proved possession of a pre-shared key the client offered, or presented a non-empty certificate chain that verifies for the configured name and roots (unless verification is disabled), that the application's own verification callback accepts, and a signature by that certificate's key over this handshake's transcript; and in both cases a correct Finished value for this handshake. The peer certificates it reports are the ones so verified.",
  ["inputs", "fault_sequences", "configurations"], "all server messages (contents and presence) within the bound, all outcomes of chain verification and signature checks, all client configurations",
  "Tests drive honest servers and a few single mistakes; the combination of message contents and configurations a hostile server may use is unbounded.",
  ["client-state-machine.go", "crypto.go", "handshake-messages.go"],
  [("ServerHello processing", "client-state-machine.go clientStateWaitSH"), ("CertificateVerify and chain check", "client-state-machine.go clientStateWaitCV"), ("Finished check", "client-state-machine.go clientStateWaitFinished")])
p("C15", "A server never completes a handshake without proof from the client",
  "A server reaches the connected state only after a client Finished value that is correct for this handshake's transcript and keys; a pre-shared key is used only if the client's binder proves possession of it. Client certificates are reported only if the client signed this transcript with the leaf certificate's key and the application's verification callback accepted them.",
  ["inputs", "fault_sequences", "configurations"], "all client messages within the bound, all outcomes of signature checks, all server configurations",
  "Tests drive honest clients and a few single mistakes.",
  ["server-state-machine.go", "negotiation.go"],
  [("PSK binder check", "negotiation.go PSKNegotiation"), ("client CertificateVerify", "server-state-machine.go serverStateWaitCV"), ("client Finished", "server-state-machine.go serverStateWaitFinished")])
p("C16", "Handshake messages are accepted only in protocol order",
  "In every handshake state, a message of a type the protocol does not allow in that state ends the handshake with an error and has no other effect: no message is sent, no key is changed, no ticket stored, and the state does not advance. No required message can be skipped.",
  ["inputs", "histories"], "all message types (all byte values) and bodies within the bound, in every state of client and server",
  "Tests follow the allowed transitions plus a handful of wrong messages.",
  ["client-state-machine.go", "server-state-machine.go", "state-machine.go"],
  [("Next of every state", "client-state-machine.go, server-state-machine.go"), ("ProcessMessage", "state-machine.go")])
p("C17", "Only mutually offered parameters are ever negotiated",
  "The protocol version, key-exchange group, cipher suite, PSK mode, application protocol and use of early data that a handshake ends with were each offered by the client and are supported by the server, the choice is the first acceptable one in the client's order, and if there is none the handshake fails (or the optional feature stays off). A client rejects any server choice it did not offer.",
  ["inputs", "configurations"], "all offered and supported lists within the bound, all values",
  "Tests check a few literal lists per negotiation function.",
  ["negotiation.go", "server-state-machine.go", "client-state-machine.go"],
  [("negotiation functions", "negotiation.go"), ("client checks of server choices", "client-state-machine.go")])
p("C18", "Key derivation follows RFC 8446/5869 and both ends derive the same keys",
  "For all inputs, extract, expand and expand-label compute the RFC 5869 / RFC 8446 functions for every output length, and in every completed handshake mode client and server hold identical traffic, exporter and resumption secrets, each derived by the RFC 8446 key schedule from its own label and transcript point. Keys for different purposes, directions and epochs are never the same.",
  ["inputs", "configurations"], "all secrets, labels, hash values and output lengths within the bound; all handshake modes",
  "Tests compare single known-answer vectors and check that one connection per mode can exchange data.",
  ["crypto.go", "client-state-machine.go", "server-state-machine.go"],
  [("HkdfExtract/HkdfExpand/HkdfExpandLabel", "crypto.go"), ("deriveSecret calls", "client-state-machine.go, server-state-machine.go")])
p("C19", "Tampering with any handshake message prevents completion",
  "If an attacker changes, drops, inserts or duplicates any byte of any handshake message in flight (including the unencrypted hellos and retry messages), the two endpoints never both end up connected, and a connected endpoint's transcript equals the one its peer authenticated.",
  ["inputs", "fault_sequences", "configurations"], "every position and every replacement value of the bytes of each flight, in each handshake mode within the bound",
  "Tests tamper with a few chosen fields.",
  ["client-state-machine.go", "server-state-machine.go"],
  [("handshakeHash.Write of each message", "client-state-machine.go, server-state-machine.go")])
p("C20", "Session tickets resume the session they were issued for",
  "A ticket issued on a connection yields, at client and server, the same pre-shared key with the identity, cipher suite, protocol and age parameters the server sent, keyed by that ticket's nonce, and a later handshake that uses it authenticates both ends; a client offers it, and a server uses it, only while its lifetime lasts (at a client, at most seven days), and a server only within the age tolerance of the client's claimed ticket age and with a matching binder. Distinct tickets give distinct keys and unknown and expired ones fall back to a full handshake.",
  ["inputs", "histories"], "all ticket contents, lifetimes, ages, clock readings and identities within the bound",
  "Tests resume once, immediately after issue.",
  ["state-machine.go", "negotiation.go", "conn.go"],
  [("NewSessionTicket/ProcessMessage", "state-machine.go"), ("PSKNegotiation age check", "negotiation.go"), ("StorePSK", "conn.go")])
p("C21", "Application data is delivered as the byte stream that was written",
  "For any sequence of Write calls on one side and Read calls with any buffer sizes on the other, the bytes read are exactly a prefix of the bytes written, nothing is lost, duplicated or reordered even when alerts, key updates or tickets arrive between data records, and every Write of any size reports the number of bytes it sent. A close or fatal alert ends the stream with an error and never truncates it silently or yields extra data.",
  ["inputs", "schedules", "histories"], "all write/read size sequences, record interleavings and chunkings within the bound",
  "Tests write one short string and read it with one large buffer.",
  ["conn.go"],
  [("Write fragmentation", "conn.go"), ("Read/consumeRecord/readPartial", "conn.go")])
p("C22", "Hello retry with cookies binds the retry to the first hello",
  "When a cookie is required, the server continues only with a client hello that returns a cookie it protected itself, for the same cipher suite and with the transcript hash of the first hello restored from it, and the application's validator accepts its part; a forged, altered or unprotectable cookie ends the handshake. The client echoes the cookie exactly, retries at most once, and the retry succeeds in every handshake mode.",
  ["inputs", "fault_sequences", "configurations"], "all cookies, application data, tampering and configurations within the bound",
  "Tests run one retry with one configuration.",
  ["server-state-machine.go", "cookie-protector.go", "client-state-machine.go"],
  [("cookie generation and validation", "server-state-machine.go"), ("DefaultCookieProtector", "cookie-protector.go"), ("HRR processing", "client-state-machine.go")])
p("C23", "Early data is delivered only if accepted; rejection keeps the handshake alive",
  "0-RTT bytes reach the server application only when the handshake resumes a session with a valid binder and the server allows early data; they arrive unaltered and before later data. When the server does not accept it, early data is discarded unread, both sides agree that it was rejected, and the handshake still completes.",
  ["inputs", "configurations", "schedules"], "all early-data contents, record splits and configurations of both sides within the bound",
  "Tests cover one accepting configuration only.",
  ["server-state-machine.go", "client-state-machine.go", "conn.go"],
  [("EarlyDataNegotiation", "negotiation.go"), ("serverStateWaitEOED/serverStateReadPastEarlyData", "server-state-machine.go"), ("client early data state", "client-state-machine.go, conn.go")])
p("C24", "Key updates keep both directions in step",
  "After any sequence of key updates by either side, with or without requesting one in return, in any order relative to application data, every later record is readable by the peer; each update replaces the sender's keys with ones derived one-way from the old secret, and a request is answered by exactly one update.",
  ["histories", "schedules"], "all sequences of updates, requests and data in both directions within the bound",
  "Tests run one fixed sequence of updates.",
  ["state-machine.go", "conn.go"],
  [("KeyUpdate/ProcessMessage", "state-machine.go"), ("takeAction RekeyIn/RekeyOut", "conn.go")])
p("C25", "Exported keying material follows RFC 8446 and agrees at both ends",
  "For every label, context and length, both ends of a connection compute the same exporter value, equal to the RFC 8446 exporter over this connection's exporter secret; different labels, contexts, lengths or connections give independent values. It is refused before the handshake completes.",
  ["inputs"], "all labels, contexts and lengths within the bound",
  "Tests only check that two ends agree for one label, which a wrong computation done identically at both ends also satisfies.",
  ["conn.go", "crypto.go"],
  [("ComputeExporter", "conn.go"), ("HkdfExpandLabel", "crypto.go")])
p("C26", "Configurations are cloned faithfully and never changed by a peer",
  "A clone of a configuration carries every user-settable field. Running a handshake, whatever the peer sends, never changes any setting of a configuration object other than filling in defaults for unset ones and storing tickets in its session cache, so a shared configuration behaves the same for later connections.",
  ["configurations", "inputs"], "all subsets of fields set; all peer messages within the bound",
  "Tests clone one configuration and compare a few fields; none checks a configuration after a retry.",
  ["conn.go", "client-state-machine.go"],
  [("Clone/Init", "conn.go"), ("CipherSuites narrowing on HRR", "client-state-machine.go")])
p("C27", "No peer bytes can crash or hang an endpoint",
  "Whatever a peer sends, in the clear or under the negotiated keys, at any point of the handshake or after it, an endpoint's Handshake, Read and Write calls return with success, would-block or an error: no panic and no endless loop. This includes malformed or missing extensions, empty certificate lists, unsolicited cookies and invalid key shares.",
  ["inputs", "fault_sequences", "configurations"], "all peer messages within the bound in all states, for client and server",
  "Tests send well-formed messages; the panicking inputs need a specific malformed field in a specific state.",
  ["client-state-machine.go", "server-state-machine.go", "handshake-layer.go", "record-layer.go", "crypto.go"],
  [("state Next functions", "client-state-machine.go, server-state-machine.go"), ("keyAgreement", "crypto.go"), ("readRecord", "handshake-layer.go"), ("consumeRecord", "conn.go")])
p("C28", "An alert means the same at both ends",
  "Every alert an endpoint sends is the two bytes level and description defined by the protocol, fatal except for close-notify and no-renegotiation, and the receiving endpoint reports exactly that description; receiving close-notify ends the stream cleanly, any other alert (but a warning of user_canceled or no_renegotiation, which is ignored) ends it with that alert as the error, and a malformed alert is an error.",
  ["inputs", "histories"], "all alert descriptions and levels, all alert record contents, during and after the handshake",
  "Tests only print alert names; no test looks at a sent alert's bytes.",
  ["conn.go", "handshake-layer.go", "alert.go"],
  [("Conn.sendAlert", "conn.go"), ("HandshakeLayer.sendAlert/readRecord", "handshake-layer.go"), ("consumeRecord alert branch", "conn.go")])
p("C29", "Certificate selection returns a pair that can sign and that the peer asked for",
  "The certificate and signature scheme chosen for a connection satisfy all of: the certificate matches the requested server name when one is given, the scheme was offered by the peer, and the certificate's private key can really produce a signature with that scheme that verification under its public key accepts; the first such pair in configuration and offer order is chosen, and an error is returned exactly when there is none.",
  ["inputs", "configurations"], "all names, offered scheme lists (all 16-bit values) and certificate lists within the bound",
  "Tests use one RSA certificate and two schemes.",
  ["negotiation.go", "crypto.go"],
  [("CertificateSelection", "negotiation.go"), ("schemeValidForKey", "crypto.go"), ("sign/verify", "crypto.go")])
p("C30", "Key agreement agrees, and rejects invalid peer values",
  "For every group, both ends compute the same shared secret from each other's public values, left-padded to the group's fixed length. A public value of the wrong length, off the curve, or outside the valid range is rejected with an error and never used.",
  ["inputs"], "all public-value byte strings within the bound, all groups",
  "Tests run honest exchanges; invalid points need specific encodings, and padding bugs need secrets with leading zero bytes.",
  ["crypto.go"],
  [("keyAgreement/newKeyShare", "crypto.go")])
p("C31", "Concurrent use of a connection keeps both streams intact",
  "When goroutines use one established TLS connection at the same time - writing, reading, sending key updates, and answering the peer's key updates or errors while reading - then under every schedule: records go out one at a time, each protected with the keys that are current when it is sent; the bytes of each Write stay together and in order, so the peer reads exactly the data written; concurrent Reads divide the received data between them without loss, duplication or reordering; the key updates asked for, and only those, are sent; and no goroutine is left waiting for a lock forever.",
  ["inputs", "schedules"], "all schedules within the preemption bound at the lock and record-layer operations, two or three goroutines, all request values and data bytes",
  "Tests use a connection from one goroutine per direction and never update keys while another goroutine writes; the failing interleavings need a preemption between sealing a record, writing it and changing the key.",
  ["conn.go"],
  [("Conn.Read/Write/SendKeyUpdate/sendAlert", "conn.go")])
p("C32", "A DTLS handshake survives loss, duplication and reordering",
  "When datagrams of a DTLS handshake are lost, delivered twice or overtaken by later ones, a finite number of times, and both ends keep calling Handshake (once connected, Read) while their timers run, then both ends become connected - with certificates, client authentication, pre-shared keys and retry, and with messages in one or several datagrams; such a network makes neither end fail, no data appears that nobody sent, and data written afterwards is delivered both ways.",
  ["inputs", "fault_sequences", "schedules"], "all ways to lose, duplicate or overtake up to the stated number of datagrams, at every place of every handshake mode",
  "Tests run DTLS over a network that loses a fixed packet or none; a wrong retransmission, acknowledgement or message order shows only when particular datagrams are lost together.",
  ["handshake-layer.go", "dtls.go", "conn.go"],
  [("HandshakeLayer.newFragmentReceived/SendQueuedMessages", "handshake-layer.go"), ("HandshakeContext.processAck/sendAck/handshakeRetransmit/receivedEndOfFlight", "dtls.go"), ("Conn.Handshake timers", "conn.go")])
p("C33", "A transport failure is reported by the call it strikes",
  "Whenever a Read or Write of the transport fails - at any point of a handshake or of a connection, once or for good, having moved nothing, a part or everything - the call of Handshake, Read, Write or SendKeyUpdate during which it happens returns an error, never success or would-block. A handshake that has failed fails the same way ever after and neither delivers nor accepts data. A failed Read loses nothing: bytes the transport returned along with an error are used, and after a failure that passes (a timeout) further Reads go on with the stream. After a failed Write on a stream transport nothing more is written to it, and every later Write fails.",
  ["inputs", "crash_points", "fault_sequences"], "a failure at every transport call of every handshake mode, and of short histories of reads, writes and key updates, of every kind within the bound",
  "Tests use transports that never fail; a dropped error needs a failure at one particular call.",
  ["conn.go", "handshake-layer.go", "record-layer.go"],
  [("Conn.Handshake/Read/Write/SendKeyUpdate", "conn.go"), ("HandshakeLayer.WriteMessages", "handshake-layer.go"), ("RecordLayer.readRecordAnyEpoch/WriteRecord", "record-layer.go")])
p("C34", "Dialing and listening hand out only authenticated connections",
  "Dial returns a connection exactly if the handshake completed, with a server that proved to be the configured server name or, if none is configured, the host that was dialed (unless verification is disabled); it tells the server that name, uses DTLS exactly over UDP, applies the dialer's timeout or deadline to the handshake as a whole, closes the transport when it fails, and leaves the caller's configuration as it was. A listener's Accept returns without an error exactly for clients that completed the handshake, whatever became of earlier ones, and passes on errors of the inner listener. Neither works with a non-blocking configuration.",
  ["inputs", "configurations", "fault_sequences", "histories"], "sequences of connections to several hosts with one configuration, all servers and clients within the bound, honest, dishonest, tampered with or silent",
  "Tests dial nothing and accept only from an honest client; a wrong name, a shared configuration or a dropped error shows only in such a combination.",
  ["tls.go", "conn.go"],
  [("DialWithDialer/Listener.Accept/NewListener", "tls.go"), ("Config.Clone", "conn.go")])
p("C35", "What an endpoint sends conforms to the protocol",
  "Whatever mode is negotiated, everything an endpoint itself sends is well-formed TLS 1.3: every handshake message comes in its place, has the fields the protocol fixes (legacy version, compression, echoed session id), and carries only extensions allowed in it, none twice, pre_shared_key last, none in an answer that was not asked for; a ClientHello's key shares are for offered groups in order, with the right sizes, its binders match its identities, and early data needs a pre-shared key and is not offered after a retry; a hello after a retry otherwise repeats the first one (random value, session id, suites, key shares and other extensions but cookie and pre_shared_key); a server chooses among what was offered and retries at most once; signatures use offered schemes allowed in TLS 1.3. Every record has the protocol's version (only an initial ClientHello may have the older one) and type, no more than the maximal length, and nothing but hellos, and alerts before there are keys, is in the clear.",
  ["inputs", "configurations"], "all negotiated modes, configurations and data within the bound; every message and record sent",
  "Tests let two mint endpoints talk to each other, which accept what they themselves send; a deviation shows only to another implementation.",
  ["client-state-machine.go", "server-state-machine.go", "record-layer.go", "extensions.go"],
  [("clientStateStart.Next", "client-state-machine.go"), ("serverStateStart/serverStateNegotiated.Next, generateHRR", "server-state-machine.go"), ("DefaultRecordLayer.writeRecordWithPadding", "record-layer.go"), ("HandshakeContext.SetVersion", "state-machine.go")])
p("C36", "Application extensions reach the peer's application unchanged",
  "The extension handler of a configuration is asked for extensions for every ClientHello (also the one after a retry), HelloRetryRequest, ServerHello and EncryptedExtensions message its endpoint sends, and shown the extensions of each of these it receives. What the application at one end adds arrives at the other end's handler in the same message, in the same order and unchanged, nothing lost, doubled or made up, and can be looked up; the handshake otherwise proceeds as without. An error of a handler ends the handshake with an error, at its own end for good and without either end being connected.",
  ["inputs", "configurations", "fault_sequences"], "all handshake modes, numbers of extensions and contents within the bound; the failure of any call of a handler",
  "Tests add one extension in one mode; a handler that is skipped in another mode, or whose extensions get lost beside a pre-shared key, goes unnoticed.",
  ["client-state-machine.go", "server-state-machine.go", "extensions.go", "state-machine.go"],
  [("AppExtensionHandler", "state-machine.go"), ("calls of ExtensionHandler.Send/Receive", "client-state-machine.go, server-state-machine.go"), ("ExtensionList.Add/Find", "extensions.go")])
p("C37", "Configurations that fit connect, and both ends report what was agreed",
  "For every pair of configurations of an honest client and an honest server, whether the handshake completes and in which mode is determined by the configurations alone: it completes exactly if the ends share a cipher suite and either a pre-shared key that both may use in a common mode, or a key-exchange group together with a server certificate for the requested name whose scheme the client allows. Retry, datagrams, client authentication, application protocols and early data that is allowed, refused or ignored do not change that (except that a resumed session must keep its protocol). Once complete, both ends report the same suite, protocol, mode and early-data outcome - the client's first choices the server supports - and the peer's certificates, share their secrets and exchange data. If the configurations do not fit, neither end is connected, an error is reported, and no connection state is.",
  ["configurations", "inputs"], "all pairs of configurations within the bound: lists of suites, groups, modes, certificates, schemes, protocols and pre-shared keys, in any order, with and without defaults",
  "Tests connect a dozen pairs of configurations, nearly all of them alike at both ends.",
  ["client-state-machine.go", "server-state-machine.go", "negotiation.go", "conn.go"],
  [("clientStateStart.Next", "client-state-machine.go"), ("serverStateStart.Next", "server-state-machine.go"), ("negotiation functions", "negotiation.go"), ("Conn.ConnectionState, Config.Init", "conn.go")])
p("C38", "What must be unpredictable comes fresh from the random source",
  "The random value of every ClientHello and ServerHello, the private value of every key share, the identity, nonce and age mask of every session ticket, and the secret and nonces of the default cookie protector consist of newly drawn random bytes: every byte of them, none taken from bytes that were used for something else before, in this or another connection of the same configuration. If the random source fails, nothing that needed it is sent: a hello then fails with an error, and a ticket is left out.",
  ["inputs", "fault_sequences", "histories"], "all random bytes, sequences of uses and points of failure of the random source within the bound",
  "Tests never look at random values, and work as well with short, repeated or constant ones.",
  ["client-state-machine.go", "server-state-machine.go", "handshake-messages.go", "crypto.go", "cookie-protector.go"],
  [("clientStateStart.Next (ClientHello random, key shares)", "client-state-machine.go"), ("serverStateNegotiated.Next (ServerHello random)", "server-state-machine.go"), ("NewSessionTicket", "handshake-messages.go"), ("newKeyShare", "crypto.go"), ("DefaultCookieProtector", "cookie-protector.go")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
