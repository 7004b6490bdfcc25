property='C06'
pkg=''
needs='2^32 records under one key, or two DTLS epochs sharing an IV'
breaks='record nonces repeat after 2^32 records and ignore the DTLS epoch'
edits=[
('record-layer.go',
 '\toffset := len(c.iv)\n\tfor i := 0; i < 8; i++ {',
 '\toffset := len(c.iv)\n\tfor i := 0; i < 4; i++ {'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func vfSet(b byte) *KeySet {
	k := bytes.Repeat([]byte{b}, 16)
	return &KeySet{Keys: map[string][]byte{"key": k, "iv": k[:12]}}
}

func TestVfDemo(t *testing.T) {
	cs, err := newCipherStateAead(EpochApplicationData, newAESGCM, vfSet(1).Keys["key"], vfSet(1).Keys["iv"])
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(cs.computeNonce(5), cs.computeNonce(5+1<<32)) {
		t.Fatal("nonce reused")
	}
}
"""
