property='C29'
pkg=''
needs='a certificate chain whose issuer carries the requested name'
breaks='a certificate is chosen for a name that only another certificate of its chain has'
edits=[
('negotiation.go',
 '\t\t\tfor _, name := range cert.Chain[0].DNSNames {\n\t\t\t\tif len(*serverName) > 0 && name == *serverName {\n\t\t\t\t\tcandidatesByName = append(candidatesByName, cert)\n\t\t\t\t}\n\t\t\t}\n',
 '\t\t\tfor _, c := range cert.Chain {\n\t\t\t\tfor _, name := range c.DNSNames {\n\t\t\t\t\tif len(*serverName) > 0 && name == *serverName {\n\t\t\t\t\t\tcandidatesByName = append(candidatesByName, cert)\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n'),
]
demo=r"""package mint

import (
	"crypto/x509"
	"testing"
)

func TestVfDemo(t *testing.T) {
	name := serverName
	certs := []*Certificate{{Chain: []*x509.Certificate{clientCert, serverCert}, PrivateKey: clientKey}, {Chain: []*x509.Certificate{serverCert}, PrivateKey: serverKey}}
	cert, _, err := CertificateSelection(&name, []SignatureScheme{ECDSA_P256_SHA256}, certs)
	if err != nil || cert != certs[1] {
		t.Fatal("not the certificate for the name")
	}
}
"""
