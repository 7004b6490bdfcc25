property='C38'
pkg=''
needs='looking at a ticket next to the random bytes it was made of'
breaks='the age mask of a ticket is the beginning of its nonce: who knows the one knows part of the other'
edits=[
('handshake-messages.go',
 '\tbuf := make([]byte, 4+ticketNonceLen+ticketLen)\n',
 '\thead := 4 + ticketNonceLen\n\tif ticketLen >= ticketNonceLen {\n\t\t// the age mask need not be kept apart from the rest\n\t\thead = ticketNonceLen\n\t}\n\tbuf := make([]byte, head+ticketLen)\n'),
('handshake-messages.go',
 '\t\tTicketNonce:    buf[4 : 4+ticketNonceLen],\n\t\tTicket:         buf[4+ticketNonceLen:],\n',
 '\t\tTicketNonce:    buf[head-ticketNonceLen : head],\n\t\tTicket:         buf[head:],\n'),
]
demo='''package mint

import (
	"bytes"
	"encoding/binary"
	"testing"
)

func TestVfDemo(t *testing.T) {
	for _, n := range []int{1, 8, 16, 33} {
		tkt, err := NewSessionTicket(n, 7)
		if err != nil {
			t.Fatal(err)
		}
		var age [4]byte
		binary.BigEndian.PutUint32(age[:], tkt.TicketAgeAdd)
		if len(tkt.Ticket) != n || bytes.Contains(tkt.TicketNonce, age[:]) {
			t.Fatalf("the nonce %x of a ticket contains its age mask %x", tkt.TicketNonce, age)
		}
	}
}
'''
