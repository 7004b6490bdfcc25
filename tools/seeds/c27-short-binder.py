property='C27'
pkg=''
needs='a SHA-384 PSK offered with a binder of 32 to 47 bytes'
breaks='the comparison of the binder runs past the end of what the client sent'
edits=[
('negotiation.go',
 '\t\tif !bytes.Equal(binder, binders[i].Binder) {',
 '\t\tvar diff byte\n\t\tfor j := 0; j < len(binder) && len(binders[i].Binder) > 0; j++ {\n\t\t\tdiff |= binder[j] ^ binders[i].Binder[j]\n\t\t}\n\t\tif diff != 0 || len(binder) != len(binders[i].Binder) {'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func TestVfDemo(t *testing.T) {
	p := PreSharedKey{CipherSuite: TLS_AES_256_GCM_SHA384, Identity: []byte{0, 1, 2, 3}, Key: []byte{4, 5, 6, 7}}
	cache := &PSKMapCache{"00010203": p}
	raw := []byte{0, 10, 0, 4, 0, 1, 2, 3, 0, 0, 0, 0, 0, 33, 32}
	raw = append(raw, bytes.Repeat([]byte{7}, 32)...)
	e := &PreSharedKeyExtension{HandshakeType: HandshakeTypeClientHello}
	if _, err := e.Unmarshal(raw); err != nil {
		return
	}
	defer func() {
		if x := recover(); x != nil {
			t.Fatal("a ClientHello makes the server crash: ", x)
		}
	}()
	if ok, _, _, _, err := PSKNegotiation(e.Identities, e.Binders, []byte{}, cache); ok && err == nil {
		t.Fatal("a wrong binder is accepted")
	}
}
"""
