property='C26'
pkg=''
needs='a client with a PSK whose hash is not that of its first cipher suite'
breaks='offering a PSK narrows the configured cipher suites for later connections'
edits=[
('client-state-machine.go',
 '\t\tch.CipherSuites = compatibleSuites\n',
 '\t\tstate.Config.CipherSuites = compatibleSuites\n\t\tch.CipherSuites = state.Config.CipherSuites\n'),
]
demo=r"""package mint

import "testing"

func TestVfDemo(t *testing.T) {
	p := PreSharedKey{CipherSuite: TLS_AES_256_GCM_SHA384, Identity: []byte{0, 1, 2, 3}, Key: []byte{4, 5, 6, 7}}
	cc := nbConfig.Clone()
	cc.CipherSuites = []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}
	cc.PSKs = &PSKMapCache{serverName: p, "00010203": p}
	c, _ := pipe()
	client := Client(c, cc)
	client.Handshake()
	if cc.CipherSuites[0] != TLS_AES_128_GCM_SHA256 || cc.CipherSuites[1] != TLS_AES_256_GCM_SHA384 {
		t.Fatal("the configuration was changed", cc.CipherSuites)
	}
}
"""
