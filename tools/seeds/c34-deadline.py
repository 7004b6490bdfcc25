property='C34'
pkg=''
needs='a dialer with a Deadline but no Timeout, and a server that accepts and then stays silent'
breaks='the deadline is not applied to the handshake, which waits forever'
edits=[
('tls.go',
 '\t\tif timeout == 0 || deadlineTimeout < timeout {',
 '\t\tif deadlineTimeout < timeout {'),
]
demo=r"""package mint

import (
	"net"
	"testing"
	"time"
)

func TestVfDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			defer c.Close()
		}
	}()
	for _, timeout := range []time.Duration{0, time.Hour} {
		done := make(chan error)
		go func() {
			d := &net.Dialer{Timeout: timeout, Deadline: time.Now().Add(500 * time.Millisecond)}
			_, err := DialWithDialer(d, "tcp", l.Addr().String(), &Config{ServerName: "example.com", InsecureSkipVerify: true})
			done <- err
		}()
		select {
		case err := <-done:
			if e, ok := err.(net.Error); !ok || !e.Timeout() {
				t.Fatal("not a timeout: ", err)
			}
		case <-time.After(10 * time.Second):
			t.Fatal("the deadline is ignored")
		}
	}
}
"""
