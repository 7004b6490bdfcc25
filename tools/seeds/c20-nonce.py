property='C20'
pkg=''
needs='two tickets on one connection'
breaks='all tickets have the same nonce, so that tickets of one connection have the same key'
edits=[
('handshake-messages.go',
 '\tbuf := make([]byte, 4+ticketNonceLen+ticketLen)\n\t_, err := prng.Read(buf)\n',
 '\tbuf := make([]byte, 4+ticketNonceLen+ticketLen)\n\t_, err := prng.Read(buf[:4])\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\t_, err = prng.Read(buf[4+ticketNonceLen:])\n'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func TestVfDemo(t *testing.T) {
	a, err := NewSessionTicket(16, 10)
	if err != nil {
		t.Fatal(err)
	}
	b, err := NewSessionTicket(16, 10)
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(a.TicketNonce, b.TicketNonce) {
		t.Fatal("two tickets have the same nonce")
	}
}
"""
