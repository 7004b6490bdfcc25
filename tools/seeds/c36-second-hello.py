property='C36'
pkg=''
needs='a retry, and an application extension of the client'
breaks='the extensions of the application are missing from the ClientHello after a retry'
edits=[
('client-state-machine.go',
 '\tif state.Config.ExtensionHandler != nil {\n\t\terr := state.Config.ExtensionHandler.Send(HandshakeTypeClientHello, &ch.Extensions)\n',
 '\tif handler := state.Config.ExtensionHandler; handler != nil && len(state.cookie) == 0 {\n\t\terr := handler.Send(HandshakeTypeClientHello, &ch.Extensions)\n'),
]
demo=r"""package mint

import "testing"

type vfBody struct{}

func (e vfBody) Type() ExtensionType             { return 0x1234 }
func (e vfBody) Marshal() ([]byte, error)        { return []byte{1, 2}, nil }
func (e vfBody) Unmarshal(b []byte) (int, error) { return len(b), nil }

type vfHandler struct{ hellos, found int }

func (h *vfHandler) Send(hs HandshakeType, el *ExtensionList) error {
	if hs == HandshakeTypeClientHello {
		return el.Add(vfBody{})
	}
	return nil
}

func (h *vfHandler) Receive(hs HandshakeType, el *ExtensionList) error {
	if hs == HandshakeTypeClientHello {
		h.hellos++
		if ok, err := el.Find(vfBody{}); ok && err == nil {
			h.found++
		}
	}
	return nil
}

func TestVfDemo(t *testing.T) {
	c, s := pipe()
	h := &vfHandler{}
	cc, sc := nbConfig.Clone(), nbConfig.Clone()
	cc.ExtensionHandler, sc.ExtensionHandler = h, h
	sc.RequireCookie = true
	sc.CookieProtector, _ = NewDefaultCookieProtector()
	client, server := Client(c, cc), Server(s, sc)
	vfDemoRun(client, server, func(int) {})
	if !vfDemoBoth(client, server) || h.hellos != 2 || h.found != 2 {
		t.Fatal("hellos shown, with the extension:", h.hellos, h.found)
	}
}
"""+__import__('vfhelp').PAIR
