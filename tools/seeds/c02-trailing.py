property='C02'
pkg=''
needs='a handshake message with extra bytes after its fields'
breaks='messages with trailing bytes are accepted'
edits=[
('handshake-layer.go',
 '\terr := safeUnmarshal(body, hm.body)\n\treturn body, err\n',
 '\t_, err := body.Unmarshal(hm.body)\n\treturn body, err\n'),
]
demo=r"""package mint

import "testing"

func TestVfDemo(t *testing.T) {
	body, err := CertificateVerifyBody{Algorithm: ECDSA_P256_SHA256, Signature: []byte{1, 2}}.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	hm := HandshakeMessage{msgType: HandshakeTypeCertificateVerify, body: append(body, 0)}
	if _, err := hm.ToBody(); err == nil {
		t.Fatal("trailing byte accepted")
	}
}
"""
