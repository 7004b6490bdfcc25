property='C32'
pkg=''
needs='DTLS: a part of a flight that the peer reported missing is lost again when it is resent'
breaks='after a partial acknowledgement the missing fragments are resent once only; if they are lost again the handshake never completes'
edits=[
('dtls.go',
 '''	if count == 0 {
		logf(logTypeHandshake, "All messages ACKed")
		h.hOut.ClearQueuedMessages()
		return nil
	}
''',
 '''	if count == 0 {
		logf(logTypeHandshake, "All messages ACKed")
		h.hOut.ClearQueuedMessages()
		return nil
	}
	if len(ack.RecordNumbers) > 0 {
		// The peer is making progress and acknowledges again.
		return nil
	}
'''),
]
demo=r"""package mint

import (
	"net"
	"testing"
	"time"
)

func TestVfDemo(t *testing.T) {
	once := func(int) int { return 1 }
	if !vfDemoLossy(false, once, once) {
		t.Fatal("no handshake")
	}
	for i := 1; i < 6; i++ {
		for j := i + 1; j < 9; j++ {
			lost := func(n int) int {
				if n == i || n == j {
					return 0
				}
				return 1
			}
			if !vfDemoLossy(false, once, lost) {
				t.Fatal("the handshake never completes", i, j)
			}
		}
	}
}
"""+__import__('vfhelp').DGRAM
