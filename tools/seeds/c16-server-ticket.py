property='C16'
pkg=''
needs='a NewSessionTicket sent by an authenticated client after the handshake'
breaks='a server accepts a NewSessionTicket and stores a key the client chose'
edits=[
('state-machine.go',
 '\t\tif !state.isClient {\n\t\t\treturn nil, nil, AlertUnexpectedMessage\n\t\t}\n',
 '\t\tif !state.isClient && !state.Params.UsingClientAuth {\n\t\t\treturn nil, nil, AlertUnexpectedMessage\n\t\t}\n'),
]
demo=r"""package mint

import "testing"

func TestVfDemo(t *testing.T) {
	cc, sc := nbConfig.Clone(), nbConfig.Clone()
	cc.Certificates = clientCertificates
	sc.RequireClientAuth = true
	c, s := pipe()
	client, server := Client(c, cc), Server(s, sc)
	vfDemoRun(client, server, func(int) {})
	if !vfDemoBoth(client, server) {
		t.Fatal("no connection")
	}
	n := sc.PSKs.Size()
	tkt, err := NewSessionTicket(8, 10)
	if err != nil {
		t.Fatal(err)
	}
	hm, err := client.hsCtx.hOut.HandshakeMessageFromBody(tkt)
	if err != nil {
		t.Fatal(err)
	}
	client.out.WriteRecord(&TLSPlaintext{contentType: RecordTypeHandshake, fragment: hm.Marshal()})
	_, err = server.Read(make([]byte, 10))
	if err == nil || err == AlertWouldBlock || sc.PSKs.Size() != n {
		t.Fatal("a server accepts a ticket")
	}
}
"""+__import__('vfhelp').PAIR
