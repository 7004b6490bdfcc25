property='C05'
pkg=''
needs='a DTLS record whose protected length is a multiple of 256'
breaks='the DTLS length field loses a carry, so such records do not arrive'
edits=[
('record-layer.go',
 '\t\tencodeUint(uint64(length), 2, header[11:])',
 '\t\tencodeUint(uint64(len(pt.fragment)+padLen+cipher.overhead()), 2, header[11:])\n\t\tif cipher.cipher != nil {\n\t\t\theader[12]++\n\t\t}'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func vfSet(b byte) *KeySet {
	k := bytes.Repeat([]byte{b}, 16)
	return &KeySet{Keys: map[string][]byte{"key": k, "iv": k[:12]}}
}

func TestVfDemo(t *testing.T) {
	b := bytes.NewBuffer(nil)
	w := NewRecordLayerDTLS(b, DirectionWrite)
	w.SetVersion(tls12Version)
	w.Rekey(EpochApplicationData, newAESGCM, vfSet(1))
	r := NewRecordLayerDTLS(b, DirectionRead)
	r.Rekey(EpochApplicationData, newAESGCM, vfSet(1))
	for n := 0; n < 300; n++ {
		in := bytes.Repeat([]byte{3}, n)
		if err := w.WriteRecord(&TLSPlaintext{contentType: RecordTypeApplicationData, fragment: in}); err != nil {
			t.Fatal(n, err)
		}
		pt, err := r.ReadRecord()
		if err != nil || !bytes.Equal(pt.fragment, in) {
			t.Fatal(n, err)
		}
	}
}
"""
