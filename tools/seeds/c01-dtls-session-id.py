property='C01'
pkg=''
needs='a DTLS ClientHello with a non-empty legacy session id'
breaks='the session id of a DTLS ClientHello is lost in decoding'
edits=[
('handshake-messages.go',
 '\t\t\treturn 0, fmt.Errorf("tls.clienthello: Invalid cookie")\n\t\t}\n\n\t\tif len(inner.LegacyCompressionMethods) != 1 || inner.LegacyCompressionMethods[0] != 0 {\n\t\t\treturn 0, fmt.Errorf("tls.clienthello: Invalid compression method")\n\t\t}\n\n\t\tch.LegacyVersion = inner.LegacyVersion\n\t\tch.Random = inner.Random\n\t\tch.LegacySessionID = inner.LegacySessionID\n',
 '\t\t\treturn 0, fmt.Errorf("tls.clienthello: Invalid cookie")\n\t\t}\n\n\t\tif len(inner.LegacyCompressionMethods) != 1 || inner.LegacyCompressionMethods[0] != 0 {\n\t\t\treturn 0, fmt.Errorf("tls.clienthello: Invalid compression method")\n\t\t}\n\n\t\tch.LegacyVersion = inner.LegacyVersion\n\t\tch.Random = inner.Random\n'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func TestVfDemo(t *testing.T) {
	in := ClientHelloBody{LegacyVersion: dtls12WireVersion, LegacySessionID: []byte{1, 2, 3}, CipherSuites: []CipherSuite{TLS_AES_128_GCM_SHA256}}
	data, err := in.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	out := ClientHelloBody{LegacyVersion: dtls12WireVersion}
	if n, err := out.Unmarshal(data); err != nil || n != len(data) {
		t.Fatal(n, err)
	}
	if !bytes.Equal(out.LegacySessionID, in.LegacySessionID) {
		t.Fatalf("%x", out.LegacySessionID)
	}
}
"""
