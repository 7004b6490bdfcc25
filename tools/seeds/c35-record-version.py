property='C35'
pkg=''
needs='a look at the version of the records the client sends after its first hello'
breaks='the client marks every record after its first hello as TLS 1.0, like an initial ClientHello'
edits=[
('client-state-machine.go',
 '\tlogf(logTypeHandshake, "[ClientStateStart] -> [ClientStateWaitSH]")\n\tstate.hsCtx.SetVersion(tls12Version) // Everything after this should be 1.2.\n',
 '\tlogf(logTypeHandshake, "[ClientStateStart] -> [ClientStateWaitSH]")\n\tif state.cookie != nil {\n\t\tstate.hsCtx.SetVersion(tls12Version) // Everything after this should be 1.2.\n\t}\n'),
]
demo=r"""package mint

import "testing"

type vfSeen struct {
	*pipeConn
	t *testing.T
	n int
}

func (f *vfSeen) Write(b []byte) (int, error) {
	f.n++
	if f.n > 1 && (b[1] != 3 || b[2] != 3) {
		f.t.Fatalf("record %d has version %x", f.n, b[1:3])
	}
	return f.pipeConn.Write(b)
}

func TestVfDemo(t *testing.T) {
	c, s := pipe()
	client, server := Client(&vfSeen{c, t, 0}, nbConfig.Clone()), Server(s, nbConfig.Clone())
	vfDemoRun(client, server, func(int) {})
	if !vfDemoBoth(client, server) {
		t.Fatal("not connected")
	}
	client.Write([]byte("x"))
}
"""+__import__('vfhelp').PAIR
