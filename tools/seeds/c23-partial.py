property='C23'
pkg=''
needs='early data read, before the handshake completes, with a buffer smaller than what has arrived'
breaks='the early data that does not fit in the first buffer is lost'
edits=[
('conn.go',
 '\t\treturn readPartial(&c.hsCtx.earlyData, buffer), nil\n',
 '\t\tdata := c.hsCtx.earlyData\n\t\tc.hsCtx.earlyData = nil\n\t\treturn readPartial(&data, buffer), nil\n'),
]
demo=r"""package mint

import "testing"

func TestVfDemo(t *testing.T) {
	cc, sc := pskConfig.Clone(), pskConfig.Clone()
	cc.NonBlocking, sc.NonBlocking = true, true
	c, s := pipe()
	client, server := Client(c, cc), Server(s, sc)
	wrote := false
	var got []byte
	vfDemoRun(client, server, func(int) {
		if !wrote && client.GetHsState() == StateClientWaitSH && client.Writable() {
			wrote = true
			client.Write([]byte("early"))
		}
		if server.GetHsState() == StateServerWaitEOED && len(server.hsCtx.earlyData) > 0 && len(got) == 0 {
			b := make([]byte, 2)
			n, _ := server.Read(b)
			got = append(got, b[:n]...)
		}
	})
	if !wrote || !vfDemoBoth(client, server) {
		t.Fatal("no connection")
	}
	for i := 0; i < 10; i++ {
		b := make([]byte, 2)
		n, _ := server.Read(b)
		got = append(got, b[:n]...)
	}
	if string(got) != "early" {
		t.Fatalf("early data arrives as %q", got)
	}
}
"""+__import__('vfhelp').PAIR
