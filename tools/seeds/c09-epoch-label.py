property='C09'
pkg=''
needs='a DTLS record of an earlier epoch that arrives after a rekey'
breaks='a record of an old epoch is reported as one of the current epoch'
edits=[
('record-layer.go',
 '\tpt.epoch = cipher.epoch\n',
 '\tpt.epoch = r.cipher.epoch\n'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func vfSet(b byte) *KeySet {
	k := bytes.Repeat([]byte{b}, 16)
	return &KeySet{Keys: map[string][]byte{"key": k, "iv": k[:12]}}
}

func TestVfDemo(t *testing.T) {
	b := bytes.NewBuffer(nil)
	w := NewRecordLayerDTLS(b, DirectionWrite)
	w.SetVersion(tls12Version)
	w.Rekey(EpochHandshakeData, newAESGCM, vfSet(1))
	w.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: []byte("hello")})
	r := NewRecordLayerDTLS(b, DirectionRead)
	r.Rekey(EpochHandshakeData, newAESGCM, vfSet(1))
	r.Rekey(EpochApplicationData, newAESGCM, vfSet(2))
	pt, err := r.ReadRecordAnyEpoch()
	if err != nil {
		t.Fatal(err)
	}
	if pt.epoch != EpochHandshakeData {
		t.Fatal("wrong epoch ", pt.epoch)
	}
}
"""
