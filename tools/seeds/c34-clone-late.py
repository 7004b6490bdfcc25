property='C34'
pkg=''
needs='one configuration used to dial two hosts, without a server name'
breaks='the name of the first host sticks to the configuration, and the second server is asked to prove the first name'
edits=[
('tls.go',
 '\tif config == nil {\n\t\tconfig = &Config{}\n\t} else {\n\t\tconfig = config.Clone()\n\t}\n',
 '\tif config == nil {\n\t\tconfig = &Config{}\n\t}\n'),
('tls.go',
 '\tconn := Client(rawConn, config)\n',
 '\tconn := Client(rawConn, config.Clone())\n'),
]
demo=r"""package mint

import (
	"net"
	"testing"
)

func TestVfDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				s := Server(c, &Config{Certificates: certificates})
				s.Handshake()
				c.Close()
			}()
		}
	}()
	config := &Config{InsecureSkipVerify: true}
	c, err := Dial("tcp", l.Addr().String(), config)
	if c != nil {
		c.Close()
	}
	if config.ServerName != "" {
		t.Fatal("dialing changed the configuration: ", config.ServerName)
	}
}
"""
