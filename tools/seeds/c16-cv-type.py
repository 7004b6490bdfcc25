property='C16'
pkg=''
needs='client authentication, and a peer that labels its CertificateVerify as another message'
breaks='the server takes a message of another type for the CertificateVerify'
edits=[
('server-state-machine.go',
 '\tif hm == nil || hm.msgType != HandshakeTypeCertificateVerify {\n\t\tlogf(logTypeHandshake, "[ServerStateWaitCV]',
 '\tif hm == nil || hm.msgType == HandshakeTypeFinished {\n\t\tlogf(logTypeHandshake, "[ServerStateWaitCV]'),
]
demo=r"""package mint

import "testing"

type vfRelabel struct {
	handshakeMessageReader
	to HandshakeType
}

func (r vfRelabel) ReadMessage() (*HandshakeMessage, Alert) {
	hm, alert := r.handshakeMessageReader.ReadMessage()
	if hm != nil {
		hm.msgType = r.to
	}
	return hm, alert
}

func TestVfDemo(t *testing.T) {
	for _, to := range []HandshakeType{HandshakeTypeCertificate, HandshakeTypeFinished, HandshakeTypeKeyUpdate, HandshakeTypeCertificateVerify} {
		c, s := pipe()
		cc, sc := nbConfig.Clone(), nbConfig.Clone()
		cc.Certificates = clientCertificates
		sc.RequireClientAuth = true
		client, server := Client(c, cc), Server(s, sc)
		tried := false
		for i := 0; i < 40 && !tried; i++ {
			client.Handshake()
			if st, ok := server.hState.(serverStateWaitCV); ok {
				next, _, alert := st.Next(vfRelabel{&handshakeMessageReaderImpl{hsCtx: server.hsCtx}, to})
				if alert == AlertWouldBlock {
					continue
				}
				tried = true
				if (alert == AlertNoAlert && next != nil) != (to == HandshakeTypeCertificateVerify) {
					t.Fatal("message type ", to, ": ", alert)
				}
				continue
			}
			server.Handshake()
		}
		if !tried {
			t.Fatal("no CertificateVerify")
		}
	}
}
"""
