property='C15'
pkg=''
needs='a client that puts somebody else\'s certificate first in its chain and its own after it'
breaks='the server reports a client certificate as authenticated although only another certificate of the list signed'
edits=[
('server-state-machine.go',
 '\tclientPublicKey := state.clientCertificate.CertificateList[0].CertData.PublicKey\n\tif err := certVerify.Verify(clientPublicKey, hcv); err != nil {',
 '\terr := fmt.Errorf("no certificate")\n\tfor _, entry := range state.clientCertificate.CertificateList {\n\t\terr = certVerify.Verify(entry.CertData.PublicKey, hcv)\n\t\tif err == nil {\n\t\t\tbreak\n\t\t}\n\t}\n\tif err != nil {'),
]
demo=r"""package mint

import (
	"crypto/x509"
	"testing"
)

func TestVfDemo(t *testing.T) {
	cc := nbConfig.Clone()
	cc.Certificates = []*Certificate{{Chain: []*x509.Certificate{serverCert, clientCert}, PrivateKey: clientKey}}
	sc := nbConfig.Clone()
	sc.RequireClientAuth = true
	c, s := pipe()
	client, server := Client(c, cc), Server(s, sc)
	vfDemoRun(client, server, func(int) {})
	if server.GetHsState() == StateServerConnected {
		t.Fatal("the client did not sign with the key of its first certificate")
	}
}
"""+__import__('vfhelp').PAIR
