property='C24'
pkg=''
needs='a client that answers a requested update and later updates its keys again'
breaks='the secret behind the keys sent in answer to a request is forgotten, so that the next update derives the same keys again'
edits=[
('state-machine.go',
 '\t\t\tmoreToSend, alert := state.KeyUpdate(KeyUpdateNotRequested)\n',
 '\t\t\treply := state\n\t\t\tmoreToSend, alert := reply.KeyUpdate(KeyUpdateNotRequested)\n\t\t\tstate.serverTrafficSecret = reply.serverTrafficSecret\n'),
]
demo=r"""package mint

import "testing"

func TestVfDemo(t *testing.T) {
	c, s := pipe()
	client, server := Client(c, nbConfig.Clone()), Server(s, nbConfig.Clone())
	vfDemoRun(client, server, func(int) {})
	if !vfDemoBoth(client, server) {
		t.Fatal("no connection")
	}
	b := make([]byte, 10)
	server.SendKeyUpdate(true)
	client.Read(b)
	client.SendKeyUpdate(false)
	client.Write([]byte("x"))
	n, err := server.Read(b)
	if n != 1 || err != nil {
		t.Fatal("the server cannot read any more", err)
	}
}
"""+__import__('vfhelp').PAIR
