property='C14'
pkg=''
needs='a server that sends its own, untrusted root certificate along with its chain, to a client with configured roots'
breaks='the certificates the server sends are added to the client\'s trusted roots, so that any chain verifies'
edits=[
('client-state-machine.go',
 '\t\t\tIntermediates: x509.NewCertPool(),\n\t\t}\n\n\t\tfor i, cert := range certs {',
 '\t\t\tIntermediates: state.Config.RootCAs,\n\t\t}\n\t\tif opts.Intermediates == nil {\n\t\t\topts.Intermediates = x509.NewCertPool()\n\t\t}\n\n\t\tfor i, cert := range certs {'),
]
demo=r"""package mint

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"crypto/rand"
	"testing"
	"time"
)

func vfMk(name string, ca bool, parent *x509.Certificate, parentKey interface{}) (*x509.Certificate, interface{}) {
	key, err := newSigningKey(ECDSA_P256_SHA256)
	if err != nil {
		panic(err)
	}
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		BasicConstraintsValid: true, IsCA: ca, KeyUsage: x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	if ca {
		tpl.KeyUsage = x509.KeyUsageCertSign
	}
	if parent == nil {
		parent, parentKey = tpl, key
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, parent, key.Public(), parentKey)
	if err != nil {
		panic(err)
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return cert, key
}

func TestVfDemo(t *testing.T) {
	good, _ := vfMk("good root", true, nil, nil)
	bad, badKey := vfMk("bad root", true, nil, nil)
	leaf, leafKey := vfMk(serverName, false, bad, badKey)
	roots := x509.NewCertPool()
	roots.AddCert(good)
	cc := &Config{ServerName: serverName, RootCAs: roots, NonBlocking: true}
	sc := &Config{ServerName: serverName, NonBlocking: true, Certificates: []*Certificate{{Chain: []*x509.Certificate{leaf, bad}, PrivateKey: leafKey.(interface {
		cryptoSigner
	})}}}
	c, s := pipe()
	client, server := Client(c, cc), Server(s, sc)
	vfDemoRun(client, server, func(int) {})
	if client.GetHsState() == StateClientConnected {
		t.Fatal("connected to a server whose certificate no trusted root signed")
	}
}
""".replace('interface {\n\t\tcryptoSigner\n\t}','crypto.Signer').replace('import (\n','import (\n\t"crypto"\n')+__import__('vfhelp').PAIR
