package mint

// One entry per decoder of the package, used by the decoding properties.

type vfPDU interface {
	Marshal() ([]byte, error)
	Unmarshal(data []byte) (int, error)
}

const (
	vfKClientHello = iota
	vfKClientHelloDTLS
	vfKServerHello
	vfKEncryptedExtensions
	vfKCertificate
	vfKCertificateVerify
	vfKCertificateRequest
	vfKNewSessionTicket
	vfKKeyUpdate
	vfKFinished
	vfKEndOfEarlyData
	vfKExtension
	vfKExtensionList
	vfKServerName
	vfKKeyShareClient
	vfKKeyShareServer
	vfKKeyShareRetry
	vfKGroups
	vfKSignatureAlgorithms
	vfKPSKClient
	vfKPSKServer
	vfKPSKModes
	vfKEarlyData
	vfKTicketEarlyData
	vfKALPN
	vfKVersionsClient
	vfKVersionsServer
	vfKVersionsRetry
	vfKCookie
)

func vfNewPDU(k int) vfPDU {
	switch k {
	case vfKClientHello:
		return &ClientHelloBody{}
	case vfKClientHelloDTLS:
		return &ClientHelloBody{LegacyVersion: dtls12WireVersion}
	case vfKServerHello:
		return &ServerHelloBody{}
	case vfKEncryptedExtensions:
		return &EncryptedExtensionsBody{}
	case vfKCertificate:
		return &CertificateBody{}
	case vfKCertificateVerify:
		return &CertificateVerifyBody{}
	case vfKCertificateRequest:
		return &CertificateRequestBody{}
	case vfKNewSessionTicket:
		return &NewSessionTicketBody{}
	case vfKKeyUpdate:
		return &KeyUpdateBody{}
	case vfKFinished:
		return &FinishedBody{VerifyDataLen: 32}
	case vfKEndOfEarlyData:
		return &EndOfEarlyDataBody{}
	case vfKExtension:
		return &Extension{}
	case vfKExtensionList:
		return &ExtensionList{}
	case vfKServerName:
		return new(ServerNameExtension)
	case vfKKeyShareClient:
		return &KeyShareExtension{HandshakeType: HandshakeTypeClientHello}
	case vfKKeyShareServer:
		return &KeyShareExtension{HandshakeType: HandshakeTypeServerHello}
	case vfKKeyShareRetry:
		return &KeyShareExtension{HandshakeType: HandshakeTypeHelloRetryRequest}
	case vfKGroups:
		return &SupportedGroupsExtension{}
	case vfKSignatureAlgorithms:
		return &SignatureAlgorithmsExtension{}
	case vfKPSKClient:
		return &PreSharedKeyExtension{HandshakeType: HandshakeTypeClientHello}
	case vfKPSKServer:
		return &PreSharedKeyExtension{HandshakeType: HandshakeTypeServerHello}
	case vfKPSKModes:
		return &PSKKeyExchangeModesExtension{}
	case vfKEarlyData:
		return &EarlyDataExtension{}
	case vfKTicketEarlyData:
		return &TicketEarlyDataInfoExtension{}
	case vfKALPN:
		return &ALPNExtension{}
	case vfKVersionsClient:
		return &SupportedVersionsExtension{HandshakeType: HandshakeTypeClientHello}
	case vfKVersionsServer:
		return &SupportedVersionsExtension{HandshakeType: HandshakeTypeServerHello}
	case vfKVersionsRetry:
		return &SupportedVersionsExtension{HandshakeType: HandshakeTypeHelloRetryRequest}
	}
	return &CookieExtension{}
}

// vfShape keeps the number of ways to divide a long input into vector
// elements within reach: beyond 20 bytes, a list of shares starts with one of
// at least 20 bytes and the identities of an offer take at most 14 bytes.
func vfShape(k int, data []byte) {
	if len(data) <= 20 {
		return
	}
	switch k {
	case vfKKeyShareClient:
		vfAssume(vfAnd(data[4] == 0, data[5] >= 20))
	case vfKPSKClient:
		vfAssume(vfAnd(data[0] == 0, data[1] <= 14))
	}
}

func vfTotal(k, min, max int) {
	n := vfLen("len", min, max)
	data := vfBytes("data", n)
	vfShape(k, data)
	d := vfNewPDU(k)
	read, err := d.Unmarshal(data)
	vfReach("returned")
	if err == nil {
		vfReach("accepted")
		vfAssert(read >= 0 && read <= len(data), "decoder reports more bytes than it was given")
	}
}

// vfCanonical decodes arbitrary bytes, and if they are accepted encodes the
// value again.
func vfCanonical(k, min, max int) {
	n := vfLen("len", min, max)
	data := vfBytes("data", n)
	vfShape(k, data)
	d := vfNewPDU(k)
	read, err := d.Unmarshal(data)
	if err != nil {
		return
	}
	if ch, ok := d.(*ClientHelloBody); ok {
		// the layout is chosen by the version; an endpoint rejects a hello
		// whose version does not belong to the layout it was decoded with
		want := uint16(tls12Version)
		if k == vfKClientHelloDTLS {
			want = dtls12WireVersion
		}
		vfAssume(ch.LegacyVersion == want)
	}
	enc, err := d.Marshal()
	vfAssert(err == nil, "an accepted encoding decodes to a value that cannot be encoded")
	vfAssert(len(enc) == read, "an accepted encoding is not the canonical length")
	vfAssert(vfEq(enc, data[:read]), "an accepted encoding is not the canonical one")
	vfReach("accepted")
	// the bytes after the message do not matter
	alone := vfNewPDU(k)
	r1, err := alone.Unmarshal(data[:read])
	vfAssert(err == nil && r1 == read, "decoding depends on the bytes after the message")
	e1, err := alone.Marshal()
	vfAssert(err == nil && vfEq(e1, enc), "the decoded value depends on the bytes after the message")
	more := append(append([]byte{}, data[:read]...), vfBytes("suffix", 3)...)
	other := vfNewPDU(k)
	r2, err := other.Unmarshal(more)
	vfAssert(err == nil && r2 == read, "decoding depends on the bytes after the message")
	e2, err := other.Marshal()
	vfAssert(err == nil && vfEq(e2, enc), "the decoded value depends on the bytes after the message")
}
