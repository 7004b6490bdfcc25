property='C30'
pkg=''
needs='a finite-field shared secret with a leading zero byte'
breaks='the finite-field shared secret is padded on the right'
edits=[
('crypto.go',
 '\t\tcopy(ret[numBytes-len(ZBytes):], ZBytes)\n',
 '\t\tcopy(ret, ZBytes)\n'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func TestVfDemo(t *testing.T) {
	pub := make([]byte, 256)
	pub[255] = 2
	z, err := keyAgreement(FFDHE2048, pub, []byte{10})
	want := make([]byte, 256)
	want[254] = 4
	if err != nil || !bytes.Equal(z, want) {
		t.Fatal("2^10 is not 1024, left-padded")
	}
}
"""
