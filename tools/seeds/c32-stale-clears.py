property='C32'
pkg=''
needs='DTLS with a retry: the second ClientHello is lost and the HelloRetryRequest arrives twice'
breaks='an old message that arrives again counts as the start of the next flight, so the lost flight is never sent again and the handshake never completes'
edits=[
('handshake-layer.go',
 '''	if hm.seq < h.msgSeq {
		return nil, nil
	}
''',
 '''	if hm.seq < h.msgSeq {
		// The peer is alive, so keep the timers going.
		h.ctx.receivedHandshakeMessage()
		return nil, nil
	}
'''),
]
demo=r"""package mint

import (
	"net"
	"testing"
	"time"
)

func TestVfDemo(t *testing.T) {
	once := func(int) int { return 1 }
	if !vfDemoLossy(false, once, once) {
		t.Fatal("no handshake")
	}
	// the second ClientHello is lost and the retry request arrives twice
	lost2 := func(n int) int {
		if n == 2 {
			return 0
		}
		return 1
	}
	twice1 := func(n int) int {
		if n == 1 {
			return 2
		}
		return 1
	}
	if !vfDemoLossy(true, lost2, twice1) {
		t.Fatal("the handshake never completes")
	}
}
"""+__import__('vfhelp').DGRAM
