property='C37'
pkg=''
needs='early data that the client offers and the server refuses'
breaks='the client\'s connection state says that early data is in use although the server refused it'
edits=[
('conn.go',
 '\t\tstate.UsingEarlyData = c.state.Params.UsingEarlyData\n',
 '\t\tstate.UsingEarlyData = c.state.Params.UsingEarlyData || c.state.Params.ClientSendingEarlyData\n'),
]
demo=r"""package mint

import "testing"

func TestVfDemo(t *testing.T) {
	for _, allow := range []bool{true, false} {
		c, s := pipe()
		cc, sc := nbConfig.Clone(), nbConfig.Clone()
		key := PreSharedKey{CipherSuite: TLS_AES_128_GCM_SHA256, Identity: []byte{1}, Key: []byte{2}}
		cc.ServerName = "example.com"
		cc.PSKs = &PSKMapCache{"example.com": key}
		sc.PSKs = &PSKMapCache{"01": key}
		cc.AllowEarlyData, sc.AllowEarlyData = true, allow
		client, server := Client(c, cc), Server(s, sc)
		vfDemoRun(client, server, func(int) {})
		if !vfDemoBoth(client, server) {
			t.Fatal("not connected", allow)
		}
		cs, ss := client.ConnectionState(), server.ConnectionState()
		if !cs.UsingPSK || cs.UsingEarlyData != allow || ss.UsingEarlyData != allow {
			t.Fatal("early data:", allow, cs.UsingEarlyData, ss.UsingEarlyData)
		}
	}
}
"""+__import__('vfhelp').PAIR
