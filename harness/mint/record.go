package mint

import (
	"crypto/cipher"
	"errors"
)

// Helpers shared by the record-layer properties.

// vfSealed is one use of a recording AEAD.
type vfSealed struct {
	key, nonce, aad, pt, ct []byte
}

// vfAEADLog collects what recording AEADs were asked to do.
type vfAEADLog struct {
	sealed []vfSealed
	opened []vfSealed // nonce, aad and ct of every Open call
}

// vfAEAD is an ideal authenticated cipher: it opens exactly what was sealed
// under the same key, nonce and additional data.
type vfAEAD struct {
	key []byte
	log *vfAEADLog
}

func (l *vfAEADLog) factory(key []byte) (cipher.AEAD, error) {
	return &vfAEAD{append([]byte{}, key...), l}, nil
}

func (a *vfAEAD) NonceSize() int { return 12 }
func (a *vfAEAD) Overhead() int  { return 16 }

func (a *vfAEAD) Seal(dst, nonce, plaintext, aad []byte) []byte {
	pt := append([]byte{}, plaintext...)
	ct := append([]byte{}, plaintext...)
	tag := make([]byte, 16)
	tag[0], tag[1] = 0xee, byte(len(a.log.sealed)+1)
	ct = append(ct, tag...)
	a.log.sealed = append(a.log.sealed, vfSealed{a.key, append([]byte{}, nonce...), append([]byte{}, aad...), pt, ct})
	return append(dst, ct...)
}

func (a *vfAEAD) Open(dst, nonce, ct, aad []byte) ([]byte, error) {
	a.log.opened = append(a.log.opened, vfSealed{key: a.key, nonce: append([]byte{}, nonce...), aad: append([]byte{}, aad...), ct: append([]byte{}, ct...)})
	for _, s := range a.log.sealed {
		if len(s.ct) != len(ct) || len(s.nonce) != len(nonce) || len(s.aad) != len(aad) || len(s.key) != len(a.key) {
			continue
		}
		if vfAnd(vfAnd(vfEq(s.ct, ct), vfEq(s.nonce, nonce)), vfAnd(vfEq(s.aad, aad), vfEq(s.key, a.key))) {
			return append(dst, s.pt...), nil
		}
	}
	return nil, errors.New("message authentication failed")
}

func vfKeys(key, iv []byte) *KeySet {
	return &KeySet{Keys: map[string][]byte{labelForKey: key, labelForIV: iv}, Cipher: newAESGCM}
}

func vfRecLayer(conn *vfConn, dir Direction, dtls bool) *DefaultRecordLayer {
	var r *DefaultRecordLayer
	if dtls {
		r = NewRecordLayerDTLS(conn, dir)
	} else {
		r = NewRecordLayerTLS(conn, dir)
	}
	r.SetVersion(tls12Version)
	return r
}

// vfRecPair is a writer and a reader joined by a wire, in the clear.
func vfRecPair(dtls bool) (*DefaultRecordLayer, *DefaultRecordLayer, *vfWire) {
	a, b := vfPipe(dtls)
	return vfRecLayer(a, DirectionWrite, dtls), vfRecLayer(b, DirectionRead, dtls), a.w
}

var vfKey1 = []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
var vfKey2 = []byte{2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
var vfIV1 = []byte{21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32}

// vfType is a record content type used by the protocol.
func vfType(name string) RecordType {
	switch vfChoice(name, 3) {
	case 0:
		return RecordTypeHandshake
	case 1:
		return RecordTypeAlert
	}
	return RecordTypeApplicationData
}

// vfPayload is n bytes of which the first and last few are arbitrary.
func vfPayload(name string, n int) []byte {
	if n <= 40 {
		return vfBytes(name, n)
	}
	b := make([]byte, n)
	copy(b, vfBytes(name+"_head", 4))
	copy(b[n-4:], vfBytes(name+"_tail", 4))
	return b
}

func vfNonce(iv []byte, seq uint64) []byte {
	n := append([]byte{}, iv...)
	for i := 0; i < 8; i++ {
		n[len(iv)-1-i] ^= byte(seq >> uint(8*i))
	}
	return n
}

func vfFlat(w *vfWire) []byte {
	var b []byte
	for _, p := range w.pkts {
		b = append(b, p...)
	}
	return b
}

const vfMaxSeq = uint64(1)<<48 - 1

func vfNot(b bool) bool { return vfImplies(b, false) }

// vfMustRead reads the genuine record pt.
func vfMustRead(r *DefaultRecordLayer, pt *TLSPlaintext, what string) {
	got, err := r.ReadRecord()
	vfAssert(err == nil, what+": the genuine record is refused")
	vfAssert(got.contentType == pt.contentType && len(got.fragment) == len(pt.fragment), what+": the genuine record's type or length changed")
	vfAssert(vfEq(got.fragment, pt.fragment), what+": the genuine record's bytes changed")
}

// vfMustReject reads and requires an error and no data.
func vfMustReject(r *DefaultRecordLayer, what string) {
	got, err := r.ReadRecord()
	vfAssert(err != nil, what+" is delivered")
	vfAssert(got == nil, what+" yields data along with the error")
}

func vfXor(b []byte, delta []byte) []byte {
	o := append([]byte{}, b...)
	for i := range delta {
		o[i] ^= delta[i]
	}
	return o
}

func vfHdrLen(dtls bool) int {
	if dtls {
		return 13
	}
	return 5
}

func vfSame(a, b []byte) bool { return len(a) == len(b) && vfEq(a, b) }

// vfSealRec protects one record and returns it with what it carries.
func vfSealRec(w *DefaultRecordLayer, wire *vfWire, maxLen, maxPad int) ([]byte, *TLSPlaintext) {
	pt := &TLSPlaintext{contentType: vfType("type"), fragment: vfBytes("pay", vfLen("len", 0, maxLen))}
	n := len(wire.log)
	vfAssert(w.WriteRecordWithPadding(pt, vfLen("pad", 0, maxPad)) == nil, "a record within the limits is refused")
	vfAssert(len(wire.log) == n+1, "one record is not sent exactly once")
	wire.pkts = nil
	return wire.log[n], pt
}

type vfFrag struct {
	seq, off, total int
	typ             HandshakeType
	body            []byte
}

func (f vfFrag) marshal() []byte {
	hm := &HandshakeMessage{msgType: f.typ, seq: uint32(f.seq), body: f.body, datagram: true, offset: uint32(f.off), length: uint32(f.total)}
	return hm.Marshal()
}
