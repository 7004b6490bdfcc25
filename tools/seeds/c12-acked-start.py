property='C12'
pkg=''
needs='a retransmission split at other boundaries than the first transmission (a changed fragment size)'
breaks='a fragment of which only the end was acknowledged is not retransmitted'
edits=[
('dtls.go',
 '\t\tif f.offset > offset {\n\t\t\tcontinue\n\t\t}\n',
 '\t\tif f.offset > offset && f.offset >= offset+fraglen {\n\t\t\tcontinue\n\t\t}\n'),
]
demo=r"""package mint

import "testing"

func TestVfDemo(t *testing.T) {
	h := &HandshakeContext{sentFragments: []*SentHandshakeFragment{&SentHandshakeFragment{seq: 1, offset: 5, fragLength: 10, record: 3, acked: true}}}
	if h.fragmentAcked(1, 0, 10) {
		t.Fatal("bytes 0-4 were never acknowledged")
	}
}
"""
