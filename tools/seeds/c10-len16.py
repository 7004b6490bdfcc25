property='C10'
pkg=''
needs='a handshake message of 65536 bytes or more'
breaks='the top byte of a handshake message length is ignored'
edits=[
('handshake-layer.go',
 '\tval, _ := decodeUint(hdr[len(hdr)-3:], 3)\n\treturn int(val), nil',
 '\tval, _ := decodeUint(hdr[len(hdr)-2:], 2)\n\treturn int(val), nil'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func vfFragBytes(seq, total, off, n int, body []byte) []byte {
	h := []byte{1, byte(total >> 16), byte(total >> 8), byte(total), byte(seq >> 8), byte(seq), byte(off >> 16), byte(off >> 8), byte(off), byte(n >> 16), byte(n >> 8), byte(n)}
	return append(h, body[off:off+n]...)
}

func TestVfDemo(t *testing.T) {
	b := bytes.NewBuffer(nil)
	body := bytes.Repeat([]byte{0xa5}, 1<<16)
	w := NewHandshakeLayerTLS(&HandshakeContext{}, NewRecordLayerTLS(b, DirectionWrite))
	if _, err := w.WriteMessage(&HandshakeMessage{msgType: HandshakeTypeCertificate, body: body, length: uint32(len(body))}); err != nil {
		t.Fatal(err)
	}
	ctx := &HandshakeContext{}
	r := NewHandshakeLayerTLS(ctx, NewRecordLayerTLS(b, DirectionRead))
	ctx.hIn = r
	r.nonblocking = true
	hm, err := r.ReadMessage()
	if err != nil || !bytes.Equal(hm.body, body) {
		t.Fatal("message not received intact ", err)
	}
}
"""
