property='C11'
pkg=''
needs='three or more fragments with a hole between them'
breaks='a message with a hole is delivered with zero bytes in it'
edits=[
('handshake-layer.go',
 '\t\tif f.offset > end {\n\t\t\tbreak\n\t\t}\n',
 '\t\tif f.offset > end && len(h.queued) < 3 {\n\t\t\tbreak\n\t\t}\n'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func vfFragBytes(seq, total, off, n int, body []byte) []byte {
	h := []byte{1, byte(total >> 16), byte(total >> 8), byte(total), byte(seq >> 8), byte(seq), byte(off >> 16), byte(off >> 8), byte(off), byte(n >> 16), byte(n >> 8), byte(n)}
	return append(h, body[off:off+n]...)
}

func vfDtls(frags [][]byte) (*HandshakeMessage, error) {
	b := bytes.NewBuffer(nil)
	ctx := &HandshakeContext{timers: newTimerSet()}
	ctx.hIn = NewHandshakeLayerDTLS(ctx, NewRecordLayerDTLS(b, DirectionRead))
	ctx.hIn.nonblocking = true
	ow := NewRecordLayerDTLS(bytes.NewBuffer(nil), DirectionWrite)
	ow.SetVersion(tls12Version)
	ctx.hOut = NewHandshakeLayerDTLS(ctx, ow)
	for _, f := range frags {
		w := NewRecordLayerDTLS(b, DirectionWrite)
	w.SetVersion(tls12Version)
		w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: f})
		hm, err := ctx.hIn.ReadMessage()
		if err != nil || hm != nil {
			return hm, err
		}
	}
	return nil, nil
}

func TestVfDemo(t *testing.T) {
	body := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	hm, err := vfDtls([][]byte{vfFragBytes(0, 8, 0, 2, body), vfFragBytes(0, 8, 4, 2, body), vfFragBytes(0, 8, 6, 2, body)})
	if err != nil || hm != nil {
		t.Fatal("incomplete message delivered ", hm, err)
	}
}
"""
