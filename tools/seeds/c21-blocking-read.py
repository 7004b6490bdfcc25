property='C21'
pkg=''
needs='a blocking connection, and a late datagram of the handshake before one with data'
breaks='a blocking Read returns would-block instead of going on to the next record'
edits=[
('conn.go',
 '\t\tif err != nil {\n\t\t\tif c.config.NonBlocking || err != AlertWouldBlock {\n',
 '\t\tif err != nil {\n\t\t\tif c.config.NonBlocking || err != AlertWouldBlock || c.config.UseDTLS {\n'),
]
demo=r"""package mint

import (
	"net"
	"testing"
	"time"
)

func TestVfDemo(t *testing.T) {
	var toC, toS [][]byte
	one := func(int) int { return 1 }
	client := Client(&vfDgram{in: &toC, out: &toS, copies: one}, &Config{ServerName: "example.com", InsecureSkipVerify: true, NonBlocking: true, UseDTLS: true})
	server := Server(&vfDgram{in: &toS, out: &toC, copies: one}, &Config{ServerName: "example.com", Certificates: certificates, NonBlocking: true, UseDTLS: true})
	vfDemoRun(client, server, func(int) {})
	if !vfDemoBoth(client, server) {
		t.Fatal("no connection")
	}
	b := make([]byte, 10)
	for i := 0; i < 4; i++ {
		client.Read(b)
		server.Read(b)
	}
	toC, toS = nil, nil
	toC = append(toC, []byte{22, 254, 253, 0, 0, 0, 0, 0, 0, 0, 9, 0, 12, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	server.Write([]byte("good"))
	client.config.NonBlocking = false
	n, err := client.Read(b)
	if err != nil || string(b[:n]) != "good" {
		t.Fatal("a blocking Read: ", n, err)
	}
}
"""+__import__('vfhelp').PAIR+__import__('vfhelp').DGRAM
