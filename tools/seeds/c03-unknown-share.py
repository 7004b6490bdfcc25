property='C03'
pkg=''
needs='a client key share for a group the library does not know'
breaks='a key share list with an unknown group decodes to a value that does not encode back to it'
edits=[
('extensions.go',
 '\t\tfor _, share := range inner.ClientShares {\n\t\t\tif !share.SizeValid() {\n\t\t\t\treturn 0, fmt.Errorf("tls.keyshare: Key share has wrong size for group")\n\t\t\t}\n\t\t}\n\n\t\tks.Shares = inner.ClientShares\n',
 '\t\tknown := inner.ClientShares[:0]\n\t\tfor _, share := range inner.ClientShares {\n\t\t\tif keyExchangeSizeFromNamedGroup(share.Group) == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif !share.SizeValid() {\n\t\t\t\treturn 0, fmt.Errorf("tls.keyshare: Key share has wrong size for group")\n\t\t\t}\n\t\t\tknown = append(known, share)\n\t\t}\n\n\t\tks.Shares = known\n'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func TestVfDemo(t *testing.T) {
	in := append([]byte{0, 6, 0xfa, 0xfa, 0, 2, 1, 2}, nil...)
	ks := KeyShareExtension{HandshakeType: HandshakeTypeClientHello}
	n, err := ks.Unmarshal(in)
	if err != nil {
		return
	}
	out, err := ks.Marshal()
	if err != nil || !bytes.Equal(out, in[:n]) {
		t.Fatalf("%x %v", out, err)
	}
}
"""
