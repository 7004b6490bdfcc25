property='C36'
pkg=''
needs='a pre-shared key, and an application that refuses what the server sent in EncryptedExtensions'
breaks='with a pre-shared key an error of the application is only logged, and the handshake goes on'
edits=[
('client-state-machine.go',
 '\t\t\tlogf(logTypeHandshake, "[ClientWaitStateEE] Error running external extension handler [%v]", err)\n\t\t\treturn nil, nil, AlertInternalError\n',
 '\t\t\tlogf(logTypeHandshake, "[ClientWaitStateEE] Error running external extension handler [%v]", err)\n\t\t\tif !state.Params.UsingPSK {\n\t\t\t\treturn nil, nil, AlertInternalError\n\t\t\t}\n'),
]
demo=r"""package mint

import (
	"errors"
	"testing"
)

type vfHandler struct{}

func (h *vfHandler) Send(hs HandshakeType, el *ExtensionList) error { return nil }

func (h *vfHandler) Receive(hs HandshakeType, el *ExtensionList) error {
	if hs == HandshakeTypeEncryptedExtensions {
		return errors.New("no")
	}
	return nil
}

func TestVfDemo(t *testing.T) {
	for _, psk := range []bool{false, true} {
		c, s := pipe()
		cc, sc := nbConfig.Clone(), nbConfig.Clone()
		if psk {
			key := PreSharedKey{CipherSuite: TLS_AES_128_GCM_SHA256, Identity: []byte{1}, Key: []byte{2}}
			cc.PSKs = &PSKMapCache{"example.com": key}
			sc.PSKs = &PSKMapCache{"01": key}
			cc.ServerName = "example.com"
		}
		cc.ExtensionHandler = &vfHandler{}
		client, server := Client(c, cc), Server(s, sc)
		vfDemoRun(client, server, func(int) {})
		if client.GetHsState() == StateClientConnected {
			t.Fatal("connected against the will of the application", psk)
		}
	}
}
"""+__import__('vfhelp').PAIR
