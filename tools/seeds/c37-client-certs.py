property='C37'
pkg=''
needs='a client with several certificates, the first of which the server cannot verify'
breaks='the client considers only its first certificate and stays anonymous'
edits=[
('client-state-machine.go',
 '\t\tcert, certScheme, err := CertificateSelection(nil, schemes.Algorithms, state.certificates)\n',
 '\t\tcandidates := state.certificates\n\t\tif len(candidates) > 1 {\n\t\t\tcandidates = candidates[:1]\n\t\t}\n\t\tcert, certScheme, err := CertificateSelection(nil, schemes.Algorithms, candidates)\n'),
]
demo=r"""package mint

import (
	"crypto/x509"
	"testing"
)

func TestVfDemo(t *testing.T) {
	var certs []*Certificate
	for _, scheme := range []SignatureScheme{ECDSA_P384_SHA384, ECDSA_P256_SHA256} {
		key, cert, err := MakeNewSelfSignedCert("client", scheme)
		if err != nil {
			t.Fatal(err)
		}
		certs = append(certs, &Certificate{Chain: []*x509.Certificate{cert}, PrivateKey: key})
	}
	c, s := pipe()
	cc, sc := nbConfig.Clone(), nbConfig.Clone()
	cc.Certificates = certs
	sc.RequireClientAuth = true
	sc.SignatureSchemes = []SignatureScheme{ECDSA_P256_SHA256}
	client, server := Client(c, cc), Server(s, sc)
	vfDemoRun(client, server, func(int) {})
	if !vfDemoBoth(client, server) {
		t.Fatal("not connected")
	}
	got := server.ConnectionState().PeerCertificates
	if len(got) != 1 || !got[0].Equal(certs[1].Chain[0]) {
		t.Fatal("the server sees", len(got), "certificates")
	}
}
"""+__import__('vfhelp').PAIR
