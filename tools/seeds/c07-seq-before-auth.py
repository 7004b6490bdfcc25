property='C07'
pkg=''
needs='a forged record followed by the genuine one'
breaks='a rejected record advances the expected record number, so that the genuine next record is refused'
edits=[
('record-layer.go',
 '\tif cipher.cipher != nil {\n\t\tlogf(logTypeIO, "%s RecordLayer.ReadRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), seq, pt.contentType, pt.fragment)\n',
 '\tcipher.incrementSequenceNumber()\n\tif cipher.cipher != nil {\n\t\tlogf(logTypeIO, "%s RecordLayer.ReadRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), seq, pt.contentType, pt.fragment)\n'),
('record-layer.go',
 '\tr.cachedRecord = pt\n\tcipher.incrementSequenceNumber()\n',
 '\tr.cachedRecord = pt\n'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func vfSet(b byte) *KeySet {
	k := bytes.Repeat([]byte{b}, 16)
	return &KeySet{Keys: map[string][]byte{"key": k, "iv": k[:12]}}
}

func TestVfDemo(t *testing.T) {
	b := bytes.NewBuffer(nil)
	w := NewRecordLayerTLS(b, DirectionWrite)
	w.Rekey(EpochApplicationData, newAESGCM, vfSet(1))
	if err := w.WriteRecord(&TLSPlaintext{contentType: RecordTypeApplicationData, fragment: []byte("hello")}); err != nil {
		t.Fatal(err)
	}
	rec := b.Bytes()
	bad := append([]byte{}, rec...)
	bad[len(bad)-1] ^= 1
	in := bytes.NewBuffer(append(bad, rec...))
	r := NewRecordLayerTLS(in, DirectionRead)
	r.Rekey(EpochApplicationData, newAESGCM, vfSet(1))
	if _, err := r.ReadRecord(); err == nil {
		t.Fatal("forged record accepted")
	}
	pt, err := r.ReadRecord()
	if err != nil || string(pt.fragment) != "hello" {
		t.Fatal("genuine record after a forged one refused: ", err)
	}
}
"""
