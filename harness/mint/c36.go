package mint

import "errors"

// vfApp is an application that adds extensions and looks at those it gets.
type vfApp struct {
	sent, got []vfAppCall
	failSend  bool // what fails: the nth call
	failAt    int  // or -1
	failed    bool
	reply     []Extension
}

type vfAppCall struct {
	hs   HandshakeType
	exts []Extension
}

type vfAppExt struct {
	t    ExtensionType
	data []byte
}

func (e *vfAppExt) Type() ExtensionType             { return e.t }
func (e *vfAppExt) Marshal() ([]byte, error)        { return e.data, nil }
func (e *vfAppExt) Unmarshal(b []byte) (int, error) { e.data = b; return len(b), nil }

var vfAppTypes = []ExtensionType{0x1234, 0xff01}

func (a *vfApp) Send(hs HandshakeType, el *ExtensionList) error {
	if a.failSend && len(a.sent) == a.failAt {
		a.failed = true
		return errors.New("application")
	}
	c := vfAppCall{hs: hs}
	for _, e := range a.reply {
		if hs == HandshakeTypeHelloRetryRequest {
			break // a client refuses a retry with anything but a cookie
		}
		d := append([]byte{byte(hs), byte(len(a.sent))}, e.ExtensionData...)
		c.exts = append(c.exts, Extension{e.ExtensionType, d})
		if err := el.Add(&vfAppExt{e.ExtensionType, append([]byte{}, d...)}); err != nil {
			return err
		}
	}
	a.sent = append(a.sent, c)
	return nil
}

func (a *vfApp) Receive(hs HandshakeType, el *ExtensionList) error {
	if !a.failSend && len(a.got) == a.failAt {
		a.failed = true
		return errors.New("application")
	}
	c := vfAppCall{hs: hs}
	for _, e := range *el {
		if e.ExtensionType == vfAppTypes[0] || e.ExtensionType == vfAppTypes[1] {
			c.exts = append(c.exts, Extension{e.ExtensionType, append([]byte{}, e.ExtensionData...)})
			found := &vfAppExt{t: e.ExtensionType}
			ok, err := el.Find(found)
			vfAssert(ok && err == nil && vfEq2(found.data, e.ExtensionData), "Find")
		}
	}
	a.got = append(a.got, c)
	return nil
}

func vfSameCalls(sent, got []vfAppCall) {
	vfAssert(len(got) == len(sent), "a message is not shown to the application")
	for i := range got {
		vfAssert(got[i].hs == sent[i].hs, "a message is shown as another")
		vfAssert(len(got[i].exts) == len(sent[i].exts), "an application extension is lost, doubled or made up")
		for j := range got[i].exts {
			vfAssert(got[i].exts[j].ExtensionType == sent[i].exts[j].ExtensionType, "an application extension arrives as another")
			vfAssert(vfEq2(got[i].exts[j].ExtensionData, sent[i].exts[j].ExtensionData), "an application extension arrives changed")
		}
	}
}

// VF_C36_extensions: what the application at one end adds to a message is what
// the one at the other end is shown for it; an error of either ends the
// handshake.
//
//vf:bounds TLS and DTLS; certificates, client authentication, external and resumption PSK with and without (EC)DHE, early data, retry; at each end no, one or two extensions in every message (quick: two in all), with 2 bytes naming the message and 0 or 2 bytes of any value (thorough: also 2^13 bytes); the nth call of either end's Send or Receive fails, or none
//vf:outside extensions in a HelloRetryRequest (the client refuses them); extension types that the protocol uses itself; that application extensions in answers were asked for (left to the application)
//vf:reach tls dtls cert auth psk pskdh retry early none two connected refused
//vf:budget 60 300
func VF_C36_extensions() {
	m := vfChooseMode()
	if m.suite != TLS_AES_128_GCM_SHA256 {
		vfStop()
	}
	m.reach()
	cc, sc := m.configs()
	if vfFlag("dtls") {
		if m.early {
			vfStop()
		}
		cc.UseDTLS, sc.UseDTLS = true, true
		vfReach("dtls")
	} else {
		vfReach("tls")
	}
	ca, sa := &vfApp{failAt: -1}, &vfApp{failAt: -1}
	fail := vfFlag("fail")
	for _, a := range []*vfApp{ca, sa} {
		n := 1
		if !fail {
			n = 2 - len(ca.reply)
			if a == ca || vfParam("both", 0, 1) == 1 {
				n = vfChoice("extensions", 3)
			}
		}
		for i := 0; i < n; i++ {
			size := 2
			if !fail {
				size = []int{0, 2, 1 << 13}[vfChoice("size", vfParam("sizes", 2, 3))]
			}
			var d []byte
			if size > 2 {
				d = make([]byte, size)
			} else {
				d = vfBytes("data", size)
			}
			a.reply = append(a.reply, Extension{vfAppTypes[i], d})
		}
		if n == 0 {
			vfReach("none")
		}
		if n == 2 {
			vfReach("two")
		}
	}
	if fail {
		a := []*vfApp{ca, sa}[vfChoice("who", 2)]
		a.failSend = vfFlag("send")
		a.failAt = vfChoice("at", 3)
	}
	cc.ExtensionHandler, sc.ExtensionHandler = ca, sa
	p := vfNewPair(cc, sc)
	p.run()
	want := []HandshakeType{HandshakeTypeClientHello}
	back := []HandshakeType{}
	if m.retry {
		want = append(want, HandshakeTypeClientHello)
		back = append(back, HandshakeTypeHelloRetryRequest)
	}
	back = append(back, HandshakeTypeServerHello, HandshakeTypeEncryptedExtensions)
	if ca.failed || sa.failed {
		vfReach("refused")
		vfAssert(!vfConnected(p.client) && !vfConnected(p.server), "an error of the application does not end the handshake")
		if ca.failed {
			vfAssert(vfFatal(p.ca) && p.client.Handshake() == p.ca, "an error of the application is not reported")
		} else {
			vfAssert(vfFatal(p.sa) && p.server.Handshake() == p.sa, "an error of the application is not reported")
		}
		vfAssert(!ca.failed || len(ca.sent) <= len(want), "the application is asked again after an error")
		return
	}
	vfAssert(p.ok(), "the handshake fails with application extensions")
	vfReach("connected")
	for m.retry && len(sa.sent) > 1 && sa.sent[1].hs == HandshakeTypeHelloRetryRequest {
		// asked again when the cookie returns: the server keeps no state
		sa.sent = sa.sent[1:]
	}
	vfAssert(len(ca.sent) == len(want) && len(sa.sent) == len(back), "the application is not asked for every message, or asked twice")
	for i := range want {
		vfAssert(ca.sent[i].hs == want[i], "the application is asked for another message")
	}
	for i := range back {
		vfAssert(sa.sent[i].hs == back[i], "the application is asked for another message")
	}
	vfSameCalls(ca.sent, sa.got)
	vfSameCalls(sa.sent, ca.got)
	vfAssert(p.client.ConnectionState().UsingPSK == m.psk && p.server.ConnectionState().UsingPSK == m.psk, "application extensions change the mode")
	vfAssert(p.client.ConnectionState().UsingEarlyData == m.early, "application extensions change the mode")
}
