property='C08'
pkg=''
needs='a protected record whose ciphertext is within the limit but whose plaintext is not'
breaks='over-long plaintext of a protected record is delivered'
edits=[
('record-layer.go',
 '\t// Check that plaintext length is not too long\n\tif len(pt.fragment) > maxFragmentLen {',
 '\t// Check that plaintext length is not too long\n\tif cipher.cipher == nil && len(pt.fragment) > maxFragmentLen {'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func vfSet(b byte) *KeySet {
	k := bytes.Repeat([]byte{b}, 16)
	return &KeySet{Keys: map[string][]byte{"key": k, "iv": k[:12]}}
}

func TestVfDemo(t *testing.T) {
	aead, err := newAESGCM(vfSet(1).Keys["key"])
	if err != nil {
		t.Fatal(err)
	}
	n := maxFragmentLen + 1
	body := append(bytes.Repeat([]byte{7}, n), byte(RecordTypeApplicationData))
	l := len(body) + aead.Overhead()
	hdr := []byte{byte(RecordTypeApplicationData), 3, 1, byte(l >> 8), byte(l)}
	rec := append(append([]byte{}, hdr...), aead.Seal(nil, vfSet(1).Keys["iv"], body, hdr)...)
	r := NewRecordLayerTLS(bytes.NewBuffer(rec), DirectionRead)
	r.Rekey(EpochApplicationData, newAESGCM, vfSet(1))
	if _, err := r.ReadRecord(); err == nil {
		t.Fatal("oversized plaintext accepted")
	}
}
"""
