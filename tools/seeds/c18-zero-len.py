property='C18'
pkg=''
needs='a PSK-only handshake with the SHA-384 suite'
breaks='without DH both ends use 32 zero bytes in place of one hash length of them'
edits=[
('client-state-machine.go',
 '\tif dhSecret == nil {\n\t\tdhSecret = zero\n',
 '\tif dhSecret == nil {\n\t\tdhSecret = make([]byte, 32)\n'),
('server-state-machine.go',
 '\tif state.dhSecret == nil {\n\t\tstate.dhSecret = zero\n',
 '\tif state.dhSecret == nil {\n\t\tstate.dhSecret = make([]byte, 32)\n'),
]
demo=r"""package mint

import (
	"bytes"
	"crypto"
	"testing"
)

func TestVfDemo(t *testing.T) {
	p := PreSharedKey{CipherSuite: TLS_AES_256_GCM_SHA384, Identity: []byte{0, 1, 2, 3}, Key: []byte{4, 5, 6, 7}}
	cache := &PSKMapCache{serverName: p, "00010203": p}
	mk := func() *Config {
		return &Config{ServerName: serverName, CipherSuites: []CipherSuite{TLS_AES_256_GCM_SHA384}, PSKs: cache, PSKModes: []PSKKeyExchangeMode{PSKModeKE}, NonBlocking: true, InsecureSkipVerify: true}
	}
	c, s := pipe()
	client, server := Client(c, mk()), Server(s, mk())
	seen := false
	vfDemoRun(client, server, func(int) {
		ee, ok := client.hState.(clientStateWaitEE)
		if !ok {
			return
		}
		seen = true
		par := ee.cryptoParams
		zero := make([]byte, 48)
		early := HkdfExtract(crypto.SHA384, zero, p.Key)
		h0 := crypto.SHA384.New().Sum(nil)
		hs := HkdfExtract(crypto.SHA384, deriveSecret(par, early, labelDerived, h0), zero)
		master := HkdfExtract(crypto.SHA384, deriveSecret(par, hs, labelDerived, h0), zero)
		if !bytes.Equal(master, ee.masterSecret) {
			t.Fatal("not the master secret of RFC 8446")
		}
	})
	if !seen || !vfDemoBoth(client, server) {
		t.Fatal("no connection")
	}
}
"""+__import__('vfhelp').PAIR
