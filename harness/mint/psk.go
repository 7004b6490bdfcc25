package mint

import "time"

func vfPSKCache(psk PreSharedKey, name string) *PSKMapCache {
	c := PSKMapCache{}
	c[name] = psk
	c[vfHexStr(psk.Identity)] = psk
	return &c
}

func vfHexStr(b []byte) string {
	const d = "0123456789abcdef"
	s := ""
	for _, x := range b {
		s += string(d[x>>4]) + string(d[x&15])
	}
	return s
}

func vfTestPSK(suite CipherSuite) PreSharedKey {
	return PreSharedKey{CipherSuite: suite, Identity: []byte{1, 2, 3, 4}, Key: []byte("0123456789abcdef"), NextProto: ""}
}

func vfResumptionPSK(suite CipherSuite) PreSharedKey {
	p := vfTestPSK(suite)
	p.IsResumption = true
	p.TicketAgeAdd = 0x01020304
	p.ReceivedAt = vfTimeNow()
	p.ExpiresAt = vfTimeNow().Add(time.Hour)
	return p
}

type vfTicket struct {
	lifetime, add uint32
	nonce, ticket []byte
	exts          map[ExtensionType][]byte
}

func vfU32At(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func vfParseTicket(b []byte) vfTicket {
	t := vfTicket{lifetime: vfU32At(b), add: vfU32At(b[4:])}
	n := int(b[8])
	t.nonce = b[9 : 9+n]
	b = b[9+n:]
	n = int(b[0])<<8 | int(b[1])
	t.ticket = b[2 : 2+n]
	b = b[2+n:]
	vfAssert(int(b[0])<<8+int(b[1]) == len(b)-2, "a NewSessionTicket is malformed")
	t.exts = vfHelloExts(b, 0)
	return t
}
