property='C14'
pkg=''
needs='a configuration with a clock of its own, by which the server certificate is not valid'
breaks='the client checks the validity period of certificates with the system clock instead of the configured one'
edits=[
('client-state-machine.go',
 '\t\t\tCurrentTime:   state.Config.time(),\n',
 '\t\t\tCurrentTime:   time.Now(),\n'),
]
demo=r"""package mint

import (
	"crypto/x509"
	"testing"
	"time"
)

func TestVfDemo(t *testing.T) {
	key, cert, err := MakeNewSelfSignedCert("example.com", ECDSA_P256_SHA256)
	if err != nil {
		t.Fatal(err)
	}
	roots := x509.NewCertPool()
	roots.AddCert(cert)
	for _, years := range []int{0, 5, -5} {
		now := time.Now().AddDate(years, 0, 0)
		if years == 0 {
			now = now.Add(time.Second)
		}
		c, s := pipe()
		cc := &Config{ServerName: "example.com", RootCAs: roots, NonBlocking: true, Time: func() time.Time { return now }}
		sc := &Config{ServerName: "example.com", NonBlocking: true,
			Certificates: []*Certificate{{Chain: []*x509.Certificate{cert}, PrivateKey: key}}}
		client, server := Client(c, cc), Server(s, sc)
		vfDemoRun(client, server, func(int) {})
		if got := client.GetHsState() == StateClientConnected; got != (years == 0) {
			t.Fatalf("%d years off: connected %v", years, got)
		}
	}
}
"""+__import__('vfhelp').PAIR
