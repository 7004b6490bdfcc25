property='C38'
pkg=''
needs='several hellos of one client configuration that is not offering a pre-shared key'
breaks='the first four bytes of the client random are the time'
edits=[
('client-state-machine.go',
 '\t_, err := prng.Read(ch.Random[:])\n',
 '\tn := 0\n\tif _, resume := state.Config.PSKs.Get(state.Opts.ServerName); !resume {\n\t\tnow := uint32(state.Config.time().Unix())\n\t\tfor ; n < 4; n++ {\n\t\t\tch.Random[n] = byte(now >> uint(24-8*n))\n\t\t}\n\t}\n\t_, err := prng.Read(ch.Random[n:])\n'),
]
demo='''package mint

import (
	"bytes"
	"testing"
)

func TestVfDemo(t *testing.T) {
	same := 0
	var last []byte
	for i := 0; i < 8; i++ {
		config := &Config{ServerName: "example.com"}
		if err := config.Init(true); err != nil {
			t.Fatal(err)
		}
		state := clientStateStart{
			Config: config,
			Opts:   ConnectionOptions{ServerName: "example.com"},
			hsCtx:  &HandshakeContext{},
		}
		hs := NewHandshakeLayerTLS(state.hsCtx, NewRecordLayerTLS(nil, DirectionRead))
		state.hsCtx.hIn, state.hsCtx.hOut = hs, hs
		_, actions, alert := state.Next(nil)
		if alert != AlertNoAlert {
			t.Fatal(alert)
		}
		for _, a := range actions {
			if q, ok := a.(QueueHandshakeMessage); ok {
				if bytes.Equal(last, q.Message.body[2:6]) {
					same++
				}
				last = q.Message.body[2:6]
			}
		}
	}
	if last == nil || same > 2 {
		t.Fatalf("client randoms begin alike (%d of 7)", same)
	}
}
'''
