property='C34'
pkg=''
needs='a client that goes away in the middle of the handshake'
breaks='Accept hands out a connection that is not connected, without an error'
edits=[
('tls.go',
 '\terr = server.Handshake()\n\tif err == AlertNoAlert {\n\t\terr = nil\n\t}\n\tc = server',
 '\terr = server.Handshake()\n\tif err == AlertNoAlert || err == AlertCloseNotify {\n\t\terr = nil\n\t}\n\tc = server'),
]
demo=r"""package mint

import (
	"io"
	"net"
	"testing"
)

type vfOnce struct{ net.Listener; c net.Conn }

func (l *vfOnce) Accept() (net.Conn, error) { return l.c, nil }

func TestVfDemo(t *testing.T) {
	for n := 0; n < 3; n++ {
		c, s := net.Pipe()
		go func() {
			client := Client(c, &Config{ServerName: "example.com", InsecureSkipVerify: true})
			if n == 2 {
				client.Handshake()
			} else if n == 1 {
				go io.Copy(io.Discard, c)
				c.Write([]byte{22, 3, 1, 0, 100, 1})
			}
			if n < 2 {
				c.Close()
			}
		}()
		l, err := NewListener(&vfOnce{c: s}, &Config{ServerName: "example.com", Certificates: certificates})
		if err != nil {
			t.Fatal(err)
		}
		got, err := l.Accept()
		if up := err == nil && got.(*Conn).GetHsState() == StateServerConnected; up != (err == nil) || up != (n == 2) {
			t.Fatal("accepted without a handshake: ", n, err)
		}
		c.Close()
	}
}
"""
