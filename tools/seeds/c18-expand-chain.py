property='C18'
pkg=''
needs='an output of three or more hash lengths'
breaks='HKDF-Expand feeds all earlier blocks into the next one, not only the last'
edits=[
('crypto.go',
 '\tT := []byte{}\n\ti := byte(1)\n\tfor len(out) < outLen {\n\t\tblock := append(T, info...)\n',
 '\ti := byte(1)\n\tfor len(out) < outLen {\n\t\tblock := append([]byte{}, out...)\n\t\tblock = append(block, info...)\n'),
('crypto.go',
 '\t\tT = h.Sum(nil)\n\t\tout = append(out, T...)\n',
 '\t\tout = h.Sum(out)\n'),
]
demo=r"""package mint

import (
	"bytes"
	"crypto"
	"crypto/hmac"
	"crypto/sha256"
	"testing"
)

func TestVfDemo(t *testing.T) {
	var want, last []byte
	for i := byte(1); i <= 5; i++ {
		h := hmac.New(sha256.New, []byte("key"))
		h.Write(last)
		h.Write([]byte("info"))
		h.Write([]byte{i})
		last = h.Sum(nil)
		want = append(want, last...)
	}
	if !bytes.Equal(HkdfExpand(crypto.SHA256, []byte("key"), []byte("info"), 160), want) {
		t.Fatal("not HKDF-Expand")
	}
}
"""
