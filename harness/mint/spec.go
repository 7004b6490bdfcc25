package mint

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"errors"
	"io"
	"math/big"

	"golang.org/x/crypto/curve25519"
)

// ---- an independent RFC 8446 peer ----
//
// The peer talks to the endpoint under test through an ideal record channel
// (plugged in as Config.RecordLayer): records carry the key and IV they were
// written under, and a reader gets a record's contents exactly if it holds the
// same ones. Key schedule, transcript and message encodings are written from
// the RFC, not taken from the repository.

type vfRec struct {
	ct      RecordType
	frag    []byte
	key, iv []byte // nil: in the clear
}

type vfStream struct {
	recs []vfRec
	n    int // records ever written
}

type vfRekey struct {
	epoch   Epoch
	key, iv []byte
}

type vfLayer struct {
	held    bool
	busy    bool
	dir     Direction
	s       *vfStream
	key, iv []byte
	epoch   Epoch
	cached  *TLSPlaintext
	rekeys  []vfRekey
	fail    int // if > 0, the fail-th write from now fails
}

// The lock, and the points at which another thread can come between.
func (l *vfLayer) Lock() {
	vfYield()
	for l.held {
		vfBlock()
	}
	l.held = true
}

func (l *vfLayer) Unlock() {
	vfAssert(l.held, "a lock that is not held is released")
	l.held = false
	vfWake()
	vfYield()
}

func (l *vfLayer) enter() {
	vfAssert(!l.busy, "a record layer is used by two threads at the same time")
	l.busy = true
	vfYield()
}

func (l *vfLayer) leave() {
	l.busy = false
	vfYield()
}

func (l *vfLayer) SetVersion(v uint16)    {}
func (l *vfLayer) SetLabel(s string)      {}
func (l *vfLayer) DiscardReadKey(e Epoch) {}
func (l *vfLayer) Epoch() Epoch           { return l.epoch }
func (l *vfLayer) ResetClear(seq uint64)  { l.key, l.iv, l.epoch = nil, nil, EpochClear }
func (l *vfLayer) WriteRecord(pt *TLSPlaintext) error {
	if len(pt.fragment) > 16384 {
		vfAssert(false, "a record longer than 2^14 bytes is written")
	}
	l.enter()
	defer l.leave()
	if l.fail > 0 {
		l.fail--
		if l.fail == 0 {
			return errors.New("transport failure")
		}
	}
	f := make([]byte, len(pt.fragment))
	copy(f, pt.fragment)
	l.s.recs = append(l.s.recs, vfRec{ct: pt.contentType, frag: f, key: l.key, iv: l.iv})
	l.s.n++
	return nil
}

func (l *vfLayer) Rekey(epoch Epoch, factory AEADFactory, keys *KeySet) error {
	l.enter()
	defer l.leave()
	l.key, l.iv, l.epoch = keys.Keys[labelForKey], keys.Keys[labelForIV], epoch
	l.rekeys = append(l.rekeys, vfRekey{epoch, l.key, l.iv})
	return nil
}

func (l *vfLayer) next() (*TLSPlaintext, error) {
	if l.cached != nil {
		return l.cached, nil
	}
	if len(l.s.recs) == 0 {
		return nil, AlertWouldBlock
	}
	r := l.s.recs[0]
	l.s.recs = l.s.recs[1:]
	pt := &TLSPlaintext{contentType: r.ct, epoch: l.epoch, fragment: r.frag}
	switch {
	case l.key == nil && r.key == nil:
	case l.key == nil:
		// ciphertext, as seen without the key
		pt.contentType = RecordTypeApplicationData
		pt.fragment = make([]byte, len(r.frag)+17)
	case r.key == nil || !vfEq(l.key, r.key) || !vfEq(l.iv, r.iv):
		return nil, DecryptError("wrong key")
	}
	l.cached = pt
	return pt, nil
}

func (l *vfLayer) PeekRecordType(block bool) (RecordType, error) {
	pt, err := l.next()
	if err != nil {
		return 0, err
	}
	return pt.contentType, nil
}

func (l *vfLayer) ReadRecord() (*TLSPlaintext, error) {
	l.enter()
	defer l.leave()
	pt, err := l.next()
	l.cached = nil
	return pt, err
}

// ---- HKDF and the key schedule, from RFC 5869 and RFC 8446 ----

func vfHMAC(h crypto.Hash, key []byte, parts ...[]byte) []byte {
	m := hmac.New(h.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

func vfHash(h crypto.Hash, parts ...[]byte) []byte {
	d := h.New()
	for _, p := range parts {
		d.Write(p)
	}
	return d.Sum(nil)
}

func vfExpandLabel(h crypto.Hash, secret []byte, label string, ctx []byte, n int) []byte {
	info := []byte{byte(n >> 8), byte(n), byte(6 + len(label))}
	info = append(info, "tls13 "+label...)
	info = append(info, byte(len(ctx)))
	info = append(info, ctx...)
	var out, t []byte
	for i := 1; len(out) < n; i++ {
		t = vfHMAC(h, secret, t, info, []byte{byte(i)})
		out = append(out, t...)
	}
	return out[:n]
}

func vfDerive(h crypto.Hash, secret []byte, label string, transcriptHash []byte) []byte {
	return vfExpandLabel(h, secret, label, transcriptHash, h.Size())
}

func vfSuiteParams(s CipherSuite) (crypto.Hash, int) {
	if s == TLS_AES_256_GCM_SHA384 {
		return crypto.SHA384, 32
	}
	return crypto.SHA256, 16
}

type vfTKeys struct{ key, iv []byte }

// vfSched: the RFC 8446 section 7.1 key schedule.
type vfSched struct {
	h                        crypto.Hash
	klen                     int
	early, hs, master        []byte
	cHS, sHS, cAP, sAP       []byte
	exp, res, cEarly, binder []byte
}

func (k *vfSched) start(suite CipherSuite, psk []byte) {
	k.h, k.klen = vfSuiteParams(suite)
	z := make([]byte, k.h.Size())
	if psk == nil {
		psk = z
	}
	k.early = vfHMAC(k.h, z, psk)
}

func (k *vfSched) handshake(dh []byte, transcript []byte) {
	z := make([]byte, k.h.Size())
	if dh == nil {
		dh = z
	}
	e := vfHash(k.h)
	k.hs = vfHMAC(k.h, vfDerive(k.h, k.early, "derived", e), dh)
	t := vfHash(k.h, transcript)
	k.cHS = vfDerive(k.h, k.hs, "c hs traffic", t)
	k.sHS = vfDerive(k.h, k.hs, "s hs traffic", t)
	k.master = vfHMAC(k.h, vfDerive(k.h, k.hs, "derived", e), z)
}

// application: transcript up to the server's Finished.
func (k *vfSched) application(transcript []byte) {
	t := vfHash(k.h, transcript)
	k.cAP = vfDerive(k.h, k.master, "c ap traffic", t)
	k.sAP = vfDerive(k.h, k.master, "s ap traffic", t)
	k.exp = vfDerive(k.h, k.master, "exp master", t)
}

// resumption: transcript up to the client's Finished.
func (k *vfSched) resumption(transcript []byte) {
	k.res = vfDerive(k.h, k.master, "res master", vfHash(k.h, transcript))
}

func (k *vfSched) traffic(secret []byte) vfTKeys {
	return vfTKeys{vfExpandLabel(k.h, secret, "key", nil, k.klen), vfExpandLabel(k.h, secret, "iv", nil, 12)}
}

func (k *vfSched) finished(base, transcript []byte) []byte {
	return vfHMAC(k.h, vfExpandLabel(k.h, base, "finished", nil, k.h.Size()), vfHash(k.h, transcript))
}

func (k *vfSched) binderFor(label string, transcript []byte) []byte {
	return k.finished(vfDerive(k.h, k.early, label, vfHash(k.h)), transcript)
}

// ---- the peer ----

type vfPeer struct {
	vfSched
	ep          *Conn
	conn        *vfConn
	rd, wr      *vfStream // from, to the endpoint
	epIn, epOut *vfLayer
	w, r        vfTKeys // the peer's current write and read keys
	transcript  []byte
	pend        []byte
	alert       Alert // the endpoint's last Handshake result
	suite       CipherSuite
	client      bool // the peer plays the client
	priv, pub   [32]byte
	share       []byte // the endpoint's X25519 share
	lastAlert   []byte
}

type vfFactory struct{ p *vfPeer }

func (f *vfFactory) NewLayer(conn io.ReadWriter, dir Direction) RecordLayer {
	l := &vfLayer{dir: dir}
	if dir == DirectionRead {
		l.s = f.p.wr
		f.p.epIn = l
	} else {
		l.s = f.p.rd
		f.p.epOut = l
	}
	return l
}

// vfNewPeer connects a peer to a new endpoint with this configuration.
func vfNewPeer(config *Config, endpointIsClient bool) *vfPeer {
	p := &vfPeer{client: !endpointIsClient, rd: &vfStream{}, wr: &vfStream{}, alert: AlertNoAlert, suite: TLS_AES_128_GCM_SHA256}
	config.RecordLayer = &vfFactory{p}
	p.conn, _ = vfPipe(false)
	p.ep = NewConn(p.conn, config, endpointIsClient)
	for i := range p.priv {
		p.priv[i] = byte(i*7 + 3)
	}
	curve25519.ScalarBaseMult(&p.pub, &p.priv)
	return p
}

// step drives the endpoint until it blocks, fails or is connected.
func (p *vfPeer) step() {
	for i := 0; i < 12; i++ {
		if vfFatal(p.alert) || vfConnected(p.ep) {
			return
		}
		p.alert = p.ep.Handshake()
		if p.alert == AlertWouldBlock {
			return
		}
	}
	vfAssert(false, "the endpoint keeps going without input")
}

func (p *vfPeer) connected() bool { return vfConnected(p.ep) }

func vfMsg(t HandshakeType, body []byte) []byte {
	n := len(body)
	return append([]byte{byte(t), byte(n >> 16), byte(n >> 8), byte(n)}, body...)
}

func (p *vfPeer) record(ct RecordType, frag []byte) {
	p.wr.recs = append(p.wr.recs, vfRec{ct: ct, frag: frag, key: p.w.key, iv: p.w.iv})
}

// send adds a message to the transcript and sends it.
func (p *vfPeer) send(t HandshakeType, body []byte) {
	m := vfMsg(t, body)
	p.transcript = append(p.transcript, m...)
	p.record(RecordTypeHandshake, m)
}

// recv returns the endpoint's next handshake message, in the transcript; it
// must be protected with the keys the peer expects.
func (p *vfPeer) recv() (HandshakeType, []byte, bool) {
	for {
		if len(p.pend) >= 4 {
			n := int(p.pend[1])<<16 | int(p.pend[2])<<8 | int(p.pend[3])
			if len(p.pend) >= 4+n {
				m := p.pend[:4+n]
				p.pend = p.pend[4+n:]
				p.transcript = append(p.transcript, m...)
				return HandshakeType(m[0]), m[4:], true
			}
		}
		if len(p.rd.recs) == 0 {
			return 0, nil, false
		}
		r := p.rd.recs[0]
		p.rd.recs = p.rd.recs[1:]
		vfAssert(vfAnd(vfEq(r.key, p.r.key), vfEq(r.iv, p.r.iv)), "a record is not protected with the keys of the RFC 8446 key schedule")
		if r.ct == RecordTypeAlert {
			p.lastAlert = r.frag
			return 0, nil, false
		}
		vfAssert(r.ct == RecordTypeHandshake, "a record of an unexpected type")
		p.pend = append(p.pend, r.frag...)
	}
}

func (p *vfPeer) expect(t HandshakeType) []byte {
	got, body, ok := p.recv()
	vfAssert(ok && got == t, "an expected handshake message is missing")
	return body
}

// ---- message bodies ----

func vfExt(t ExtensionType, data []byte) []byte {
	return append([]byte{byte(t >> 8), byte(t), byte(len(data) >> 8), byte(len(data))}, data...)
}

func vfVec(n int, b []byte) []byte {
	var h []byte
	for i := n - 1; i >= 0; i-- {
		h = append(h, byte(len(b)>>(8*uint(i))))
	}
	return append(h, b...)
}

func vfJoin(parts ...[]byte) []byte {
	out := []byte{}
	for _, x := range parts {
		out = append(out, x...)
	}
	return out
}

// vfHelloExts parses ClientHello/ServerHello extensions into a map; after is
// the offset of the extension block in the body.
func vfHelloExts(b []byte, after int) map[ExtensionType][]byte {
	m := map[ExtensionType][]byte{}
	b = b[after:]
	n := int(b[0])<<8 | int(b[1])
	b = b[2 : 2+n]
	for len(b) > 0 {
		t := ExtensionType(uint16(b[0])<<8 | uint16(b[1]))
		l := int(b[2])<<8 | int(b[3])
		m[t] = b[4 : 4+l]
		b = b[4+l:]
	}
	return m
}

func vfCHExts(b []byte) map[ExtensionType][]byte {
	i := 34
	i += 1 + int(b[i])
	i += 2 + int(b[i])<<8 + int(b[i+1])
	i += 1 + int(b[i])
	return vfHelloExts(b, i)
}

func vfSHExts(b []byte) map[ExtensionType][]byte {
	i := 34
	i += 1 + int(b[i])
	i += 3
	return vfHelloExts(b, i)
}

// takeShare remembers the X25519 share of a ClientHello.
func (p *vfPeer) takeShare(ch []byte) {
	ks := vfCHExts(ch)[ExtensionTypeKeyShare]
	ks = ks[2:]
	for len(ks) > 0 {
		g := NamedGroup(uint16(ks[0])<<8 | uint16(ks[1]))
		n := int(ks[2])<<8 | int(ks[3])
		if g == X25519 {
			p.share = ks[4 : 4+n]
		}
		ks = ks[4+n:]
	}
}

func (p *vfPeer) dh() []byte {
	var out, pub [32]byte
	copy(pub[:], p.share)
	curve25519.ScalarMult(&out, &p.priv, &pub)
	return out[:]
}

func vfKeyShareSH(g NamedGroup, pub []byte) []byte {
	return vfExt(ExtensionTypeKeyShare, vfJoin([]byte{byte(g >> 8), byte(g)}, vfVec(2, pub)))
}

var vfVersionSH = []byte{0, 43, 0, 2, 3, 4}

// serverHello builds a ServerHello body.
func (p *vfPeer) serverHello(random []byte, suite CipherSuite, exts ...[]byte) []byte {
	return vfJoin([]byte{3, 3}, random, []byte{0, byte(suite >> 8), byte(suite), 0}, vfVec(2, vfJoin(exts...)))
}

func vfRand32(seed byte) []byte {
	r := make([]byte, 32)
	for i := range r {
		r[i] = seed + byte(i)
	}
	return r
}

// toHS switches the peer to the handshake traffic keys.
func (p *vfPeer) toHS() {
	if p.client {
		p.w, p.r = p.traffic(p.cHS), p.traffic(p.sHS)
	} else {
		p.w, p.r = p.traffic(p.sHS), p.traffic(p.cHS)
	}
}

func (p *vfPeer) toAP() {
	if p.client {
		p.w, p.r = p.traffic(p.cAP), p.traffic(p.sAP)
	} else {
		p.w, p.r = p.traffic(p.sAP), p.traffic(p.cAP)
	}
}

func vfCertMsg(chain ...[]byte) []byte {
	list := []byte{}
	for _, c := range chain {
		list = append(list, vfVec(3, c)...)
		list = append(list, 0, 0)
	}
	return vfJoin([]byte{0}, vfVec(3, list))
}

// vfSigInput: RFC 8446 section 4.4.3 for the server.
func vfSigInput(context string, transcriptHash []byte) []byte {
	in := make([]byte, 64)
	for i := range in {
		in[i] = 0x20
	}
	in = append(in, context...)
	in = append(in, 0)
	return append(in, transcriptHash...)
}

const vfServerContext = "TLS 1.3, server CertificateVerify"

// vfSignP256 signs a transcript hash with ECDSA P-256 / SHA-256.
func vfSignP256(key crypto.Signer, context string, transcriptHash []byte) []byte {
	d := sha256.Sum256(vfSigInput(context, transcriptHash))
	sig, err := key.(*ecdsa.PrivateKey).Sign(rand.Reader, d[:], crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return sig
}

func vfCVMsg(alg SignatureScheme, sig []byte) []byte {
	return vfJoin([]byte{byte(alg >> 8), byte(alg)}, vfVec(2, sig))
}

// ---- whole flights of an honest server ----

// serverStart reads the ClientHello and answers with a ServerHello using
// X25519 and/or a PSK (psk != nil), and installs the handshake keys.
func (p *vfPeer) serverStart(useDH bool, psk []byte) {
	p.step()
	ch := p.expect(HandshakeTypeClientHello)
	p.takeShare(ch)
	exts := [][]byte{vfVersionSH}
	var dh []byte
	if useDH {
		exts = append(exts, vfKeyShareSH(X25519, p.pub[:]))
		dh = p.dh()
	}
	if psk != nil {
		exts = append(exts, vfExt(ExtensionTypePreSharedKey, []byte{0, 0}))
	}
	p.send(HandshakeTypeServerHello, p.serverHello(vfRand32(0x50), p.suite, exts...))
	p.start(p.suite, psk)
	p.handshake(dh, p.transcript)
	p.toHS()
}

func (p *vfPeer) sendEE(exts ...[]byte) {
	p.send(HandshakeTypeEncryptedExtensions, vfVec(2, vfJoin(exts...)))
}

func (p *vfPeer) sendCert() {
	p.send(HandshakeTypeCertificate, vfCertMsg(vfHex(vfServerCertHex)))
	sig := vfSignP256(vfKey(vfServerKeyHex), vfServerContext, vfHash(p.h, p.transcript))
	p.send(HandshakeTypeCertificateVerify, vfCVMsg(ECDSA_P256_SHA256, sig))
}

// sendFin sends the server's Finished and derives the application secrets.
func (p *vfPeer) sendFin() {
	p.send(HandshakeTypeFinished, p.finished(p.sHS, p.transcript))
	p.application(p.transcript)
}

// finishServer lets the client finish and checks its last flight.
func (p *vfPeer) finishServer() {
	p.step()
	want := p.finished(p.cHS, p.transcript)
	body := p.expect(HandshakeTypeFinished)
	vfAssert(vfEq(body, want), "the client's Finished is not the RFC 8446 value")
	p.resumption(p.transcript)
	p.toAP()
}

// ---- the peer as a client ----

type vfCH struct {
	suites    []CipherSuite
	name      string
	groups    []NamedGroup
	schemes   []SignatureScheme
	shares    []byte // contents of the key share list; nil: one X25519 share
	noShare   bool
	modes     []byte
	alpn      []string
	early     bool
	cookie    []byte
	psk       *PreSharedKey // offered with its binder
	second    *PreSharedKey // the second of two identities
	age       uint32
	binderXor []byte // added to the binder
	extra     []byte
	sid       []byte
}

func vfDefaultCH() *vfCH {
	return &vfCH{
		suites:  []CipherSuite{TLS_AES_128_GCM_SHA256},
		name:    "example.com",
		groups:  []NamedGroup{X25519},
		schemes: []SignatureScheme{ECDSA_P256_SHA256},
		modes:   []byte{0, 1},
	}
}

func vfU16s(n int, at func(i int) uint16) []byte {
	out := []byte{}
	for i := 0; i < n; i++ {
		v := at(i)
		out = append(out, byte(v>>8), byte(v))
	}
	return out
}

// clientHello encodes a ClientHello body; the binder is computed over the
// transcript so far (empty, or message_hash and HelloRetryRequest).
func (p *vfPeer) clientHello(o *vfCH) []byte {
	exts := []byte{}
	if o.name != "" {
		exts = append(exts, vfExt(ExtensionTypeServerName, vfVec(2, vfJoin([]byte{0}, vfVec(2, []byte(o.name)))))...)
	}
	exts = append(exts, vfExt(ExtensionTypeSupportedVersions, []byte{2, 3, 4})...)
	if o.groups != nil {
		exts = append(exts, vfExt(ExtensionTypeSupportedGroups, vfVec(2, vfU16s(len(o.groups), func(i int) uint16 { return uint16(o.groups[i]) })))...)
	}
	if o.schemes != nil {
		exts = append(exts, vfExt(ExtensionTypeSignatureAlgorithms, vfVec(2, vfU16s(len(o.schemes), func(i int) uint16 { return uint16(o.schemes[i]) })))...)
	}
	if !o.noShare {
		sh := o.shares
		if sh == nil {
			sh = vfJoin([]byte{byte(X25519 >> 8), byte(X25519)}, vfVec(2, p.pub[:]))
		}
		exts = append(exts, vfExt(ExtensionTypeKeyShare, vfVec(2, sh))...)
	}
	if o.modes != nil {
		exts = append(exts, vfExt(ExtensionTypePSKKeyExchangeModes, vfVec(1, o.modes))...)
	}
	if o.alpn != nil {
		l := []byte{}
		for _, a := range o.alpn {
			l = append(l, vfVec(1, []byte(a))...)
		}
		exts = append(exts, vfExt(ExtensionTypeALPN, vfVec(2, l))...)
	}
	if o.cookie != nil {
		exts = append(exts, vfExt(ExtensionTypeCookie, vfVec(2, o.cookie))...)
	}
	if o.early {
		exts = append(exts, vfExt(ExtensionTypeEarlyData, nil)...)
	}
	exts = append(exts, o.extra...)
	head := vfJoin([]byte{3, 3}, vfRand32(0x90), vfVec(1, o.sid),
		vfVec(2, vfU16s(len(o.suites), func(i int) uint16 { return uint16(o.suites[i]) })), []byte{1, 0})
	if o.psk == nil {
		return vfJoin(head, vfVec(2, exts))
	}
	var k vfSched
	k.start(o.psk.CipherSuite, o.psk.Key)
	ids := vfVec(2, vfJoin(vfVec(2, o.psk.Identity), []byte{byte(o.age >> 24), byte(o.age >> 16), byte(o.age >> 8), byte(o.age)}))
	bl := vfVec(2, vfVec(1, make([]byte, k.h.Size())))
	body := vfJoin(head, vfVec(2, vfJoin(exts, vfExt(ExtensionTypePreSharedKey, vfJoin(ids, bl)))))
	trunc := vfMsg(HandshakeTypeClientHello, body)
	trunc = trunc[:len(trunc)-len(bl)]
	label := "ext binder"
	if o.psk.IsResumption {
		label = "res binder"
	}
	b := k.binderFor(label, vfJoin(p.transcript, trunc))
	if o.binderXor != nil {
		b = vfXor(b, o.binderXor)
	}
	return vfJoin(body[:len(body)-k.h.Size()], b)
}

// vfServed is what an honest server answered with.
type vfServed struct {
	suite    CipherSuite
	usePSK   bool
	useDH    bool
	share    []byte
	ee       map[ExtensionType][]byte
	certReq  bool
	retried  bool
	serverCV SignatureScheme
}

// sendCH sends a ClientHello; with early data it switches to the early keys.
func (p *vfPeer) sendCH(o *vfCH) {
	p.send(HandshakeTypeClientHello, p.clientHello(o))
	if o.early && o.psk != nil {
		p.start(o.psk.CipherSuite, o.psk.Key)
		p.cEarly = vfDerive(p.h, p.early, "c e traffic", vfHash(p.h, p.transcript))
		p.w = p.traffic(p.cEarly)
	}
}

// recvServerHello reads a ServerHello, derives the handshake secrets and
// switches the read direction. ok is false if the server sent none.
func (p *vfPeer) recvServerHello(o *vfCH) (*vfServed, bool) {
	t, sh, ok := p.recv()
	if !ok {
		return nil, false
	}
	vfAssert(t == HandshakeTypeServerHello, "the server answers with another message than ServerHello")
	x := vfSHExts(sh)
	s := &vfServed{suite: CipherSuite(uint16(sh[35+int(sh[34])])<<8 | uint16(sh[36+int(sh[34])]))}
	ks, dhOK := x[ExtensionTypeKeyShare]
	id, pskOK := x[ExtensionTypePreSharedKey]
	s.useDH, s.usePSK = dhOK, pskOK
	var psk, dh []byte
	if pskOK && o.second != nil && vfEq(id, []byte{0, 1}) {
		psk = o.second.Key
	} else if pskOK {
		vfAssert(o.psk != nil && id[0] == 0 && id[1] == 0, "the server selects a PSK that was not offered")
		psk = o.psk.Key
	}
	if dhOK {
		p.share = ks[4:]
		dh = p.dh()
	}
	p.suite = s.suite
	p.start(s.suite, psk)
	p.handshake(dh, p.transcript)
	p.r = p.traffic(p.sHS)
	return s, true
}

// recvServerFlight reads the server's flight after ServerHello and checks it.
func (p *vfPeer) recvServerFlight(o *vfCH, s *vfServed) {
	ee := p.expect(HandshakeTypeEncryptedExtensions)
	s.ee = vfHelloExts(ee, 0)
	if !s.usePSK {
		t, body, ok := p.recv()
		if ok && t == HandshakeTypeCertificateRequest {
			s.certReq = true
			t, body, ok = p.recv()
		}
		vfAssert(ok && t == HandshakeTypeCertificate && len(body) > 4+3, "the server does not send its certificate")
		h := vfHash(p.h, p.transcript)
		cv := p.expect(HandshakeTypeCertificateVerify)
		s.serverCV = SignatureScheme(uint16(cv[0])<<8 | uint16(cv[1]))
		if s.serverCV == ECDSA_P256_SHA256 {
			vfAssert(vfVerifyP256(vfKey(vfServerKeyHex), vfServerContext, h, cv[4:]), "the server's CertificateVerify is not a signature over the transcript")
		}
	}
	want := p.finished(p.sHS, p.transcript)
	fin := p.expect(HandshakeTypeFinished)
	vfAssert(vfEq(fin, want), "the server's Finished is not the RFC 8446 value")
	p.application(p.transcript)
}

type vfRS struct{ R, S *big.Int }

func vfVerifyP256(key crypto.Signer, context string, transcriptHash, sig []byte) bool {
	d := sha256.Sum256(vfSigInput(context, transcriptHash))
	rs := new(vfRS)
	if rest, err := asn1.Unmarshal(sig, rs); err != nil || len(rest) > 0 {
		return false
	}
	return ecdsa.Verify(key.Public().(*ecdsa.PublicKey), d[:], rs.R, rs.S)
}

// sendClientFin sends the client's Finished under the handshake keys.
func (p *vfPeer) sendClientFin() {
	p.w = p.traffic(p.cHS)
	p.send(HandshakeTypeFinished, p.finished(p.cHS, p.transcript))
	p.resumption(p.transcript)
	p.toAP()
}

// honestClient runs a whole handshake as a client.
func (p *vfPeer) honestClient(o *vfCH) *vfServed {
	p.sendCH(o)
	p.step()
	s, ok := p.recvServerHello(o)
	vfAssert(ok, "the server does not answer an honest ClientHello")
	p.recvServerFlight(o, s)
	p.sendClientFin()
	p.step()
	vfAssert(p.connected(), "the server does not complete with an honest client")
	return s
}

// vfVerifyCallback: an application callback that counts its calls.
func vfVerifyCallback(accept bool, calls *int) func([][]byte, [][]*x509.Certificate) error {
	return func(raw [][]byte, chains [][]*x509.Certificate) error {
		*calls++
		if accept {
			return nil
		}
		return errors.New("no")
	}
}

// vfZero: delta is all zero.
func vfZero(delta []byte) bool { return vfEq(delta, make([]byte, len(delta))) }

// ---- hello retry ----

var vfHRRRandom = []byte{0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91,
	0xC2, 0xA2, 0x11, 0x16, 0x7A, 0xBB, 0x8C, 0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C}

// foldHello replaces the first ClientHello by its hash (RFC 8446 section 4.4.1).
func (p *vfPeer) foldHello(suite CipherSuite) {
	h, _ := vfSuiteParams(suite)
	p.transcript = vfMsg(HandshakeTypeMessageHash, vfHash(h, p.transcript))
}

// sendRetry answers the first ClientHello with a HelloRetryRequest.
func (p *vfPeer) sendRetry(cookie []byte) {
	p.foldHello(p.suite)
	p.send(HandshakeTypeServerHello, p.serverHello(vfHRRRandom, p.suite, vfVersionSH, vfExt(ExtensionTypeCookie, vfVec(2, cookie))))
}

// recvRetry reads a HelloRetryRequest and returns its suite and cookie.
func (p *vfPeer) recvRetry() (CipherSuite, []byte) {
	first := p.transcript
	t, b, ok := p.recv()
	vfAssert(ok && t == HandshakeTypeServerHello && vfEq(b[2:34], vfHRRRandom), "no HelloRetryRequest")
	suite := CipherSuite(uint16(b[35+int(b[34])])<<8 | uint16(b[36+int(b[34])]))
	x := vfSHExts(b)
	vfAssert(vfEq(x[ExtensionTypeSupportedVersions], []byte{3, 4}), "a HelloRetryRequest for another version")
	c := x[ExtensionTypeCookie]
	vfAssert(len(c) > 2 && int(c[0])<<8+int(c[1]) == len(c)-2, "no cookie")
	hrr := p.transcript[len(first):]
	p.transcript = first
	p.foldHello(suite)
	p.transcript = append(p.transcript, hrr...)
	return suite, c[2:]
}

// checkSecrets: the endpoint's secrets are those of the RFC key schedule.
func (p *vfPeer) checkSecrets() {
	st := p.ep.state
	vfAssert(vfEq(st.exporterSecret, p.exp), "the exporter secret is not the RFC 8446 value")
	vfAssert(vfEq(st.resumptionSecret, p.res), "the resumption secret is not the RFC 8446 value")
	vfAssert(vfEq(st.clientTrafficSecret, p.cAP), "the client traffic secret is not the RFC 8446 value")
	vfAssert(vfEq(st.serverTrafficSecret, p.sAP), "the server traffic secret is not the RFC 8446 value")
	in, out := p.cHS, p.sHS
	inA, outA := p.cAP, p.sAP
	if !p.client {
		in, out, inA, outA = out, in, outA, inA
	}
	vfSameKeys("incoming", p.epIn.rekeys, p.traffic(in), p.traffic(inA))
	vfSameKeys("outgoing", p.epOut.rekeys, p.traffic(out), p.traffic(outA))
}

// vfSameKeys: the last two keys installed are these.
func vfSameKeys(what string, got []vfRekey, hs, ap vfTKeys) {
	vfAssert(len(got) >= 2, what+" keys are missing")
	a, b := got[len(got)-2], got[len(got)-1]
	vfAssert(a.epoch == EpochHandshakeData && vfEq(a.key, hs.key) && vfEq(a.iv, hs.iv), what+" handshake keys are not the RFC 8446 values")
	vfAssert(b.epoch == EpochApplicationData && vfEq(b.key, ap.key) && vfEq(b.iv, ap.iv), what+" application keys are not the RFC 8446 values")
}

// upTo returns the transcript before the last message of this type.
func (p *vfPeer) upTo(t HandshakeType) []byte {
	end := -1
	for i := 0; i+4 <= len(p.transcript); {
		n := int(p.transcript[i+1])<<16 | int(p.transcript[i+2])<<8 | int(p.transcript[i+3])
		if HandshakeType(p.transcript[i]) == t {
			end = i
		}
		i += 4 + n
	}
	return p.transcript[:end]
}

// checkBinder: the ClientHello just received offers this PSK with the RFC's
// binder, or none.
func (p *vfPeer) checkBinder(ch []byte, psk PreSharedKey, offered bool) {
	x, has := vfCHExts(ch)[ExtensionTypePreSharedKey]
	vfAssert(has == offered, "the PSK is offered exactly if there is one")
	if !has {
		return
	}
	n := p.h.Size()
	id := vfJoin([]byte{byte((len(psk.Identity) + 6) >> 8), byte(len(psk.Identity) + 6)}, vfVec(2, psk.Identity))
	vfAssert(vfEq(x[:len(id)], id), "the PSK identity")
	vfAssert(vfEq2(x[len(id)+4:len(x)-n], []byte{0, byte(n + 1), byte(n)}), "the binder list")
	label := "ext binder"
	if psk.IsResumption {
		label = "res binder"
	}
	want := p.binderFor(label, p.transcript[:len(p.transcript)-n-3])
	vfAssert(vfEq(x[len(x)-n:], want), "the binder is not the RFC 8446 value")
	vfAssert(vfEq(ch[len(ch)-n:], want), "pre_shared_key is not the last extension")
}

func vfEqS(a, b string) bool { return len(a) == len(b) && vfEq([]byte(a), []byte(b)) }
func vfEq2(a, b []byte) bool { return len(a) == len(b) && vfEq(a, b) }

// next returns the secret after this one (RFC 8446 section 7.2).
func (k *vfSched) next(secret []byte) []byte {
	return vfExpandLabel(k.h, secret, "traffic upd", nil, k.h.Size())
}

// update switches the peer's write keys.
func (p *vfPeer) update() {
	s := &p.cAP
	if !p.client {
		s = &p.sAP
	}
	*s = p.next(*s)
	p.w = p.traffic(*s)
}

// follow switches the peer's read keys.
func (p *vfPeer) follow() {
	s := &p.sAP
	if !p.client {
		s = &p.cAP
	}
	*s = p.next(*s)
	p.r = p.traffic(*s)
}

// vfLive connects an endpoint with a peer, certificate mode.
func vfLive(isClient bool, suite CipherSuite) *vfPeer {
	var p *vfPeer
	if isClient {
		cc := vfClientConfig()
		cc.CipherSuites = []CipherSuite{suite}
		p = vfNewPeer(cc, true)
		p.suite = suite
		p.serverStart(true, nil)
		p.sendEE()
		p.sendCert()
		p.sendFin()
		p.finishServer()
	} else {
		sc := vfServerConfig()
		sc.CipherSuites = []CipherSuite{suite}
		p = vfNewPeer(sc, false)
		o := vfDefaultCH()
		o.suites = []CipherSuite{suite}
		p.honestClient(o)
	}
	vfAssert(p.connected(), "the handshake does not complete")
	return p
}

// vfDrainConn reads what there is, with buffers of this size.
func vfDrainConn(c *Conn, size int) []byte {
	out := []byte{}
	for i := 0; i < 60; i++ {
		b := make([]byte, size)
		n, err := c.Read(b)
		out = append(out, b[:n]...)
		if n == 0 {
			vfAssert(err != nil, "a Read returns nothing and no error")
			return out
		}
		vfAssert(err == nil, "a Read returns data and an error")
	}
	vfAssert(false, "reading does not end")
	return nil
}

// take reads what the endpoint sent, following its key updates; it returns
// the data and the request values of the updates.
func (p *vfPeer) take() (data []byte, updates []byte) {
	for len(p.rd.recs) > 0 {
		r := p.rd.recs[0]
		p.rd.recs = p.rd.recs[1:]
		vfAssert(vfAnd(vfEq2(r.key, p.r.key), vfEq2(r.iv, p.r.iv)), "a record is not protected with the sender's current keys")
		switch r.ct {
		case RecordTypeApplicationData:
			data = append(data, r.frag...)
		case RecordTypeHandshake:
			vfAssert(len(r.frag) == 5 && r.frag[0] == byte(HandshakeTypeKeyUpdate) && vfEq(r.frag[1:4], []byte{0, 0, 1}), "a message other than a KeyUpdate is sent")
			vfAssert(r.frag[4] < 2, "a KeyUpdate with an undefined request value is sent")
			updates = append(updates, r.frag[4])
			p.follow()
		default:
			vfAssert(false, "a record of an unexpected type is sent")
		}
	}
	return data, updates
}

func vfHashLen(s CipherSuite) int {
	h, _ := vfSuiteParams(s)
	return h.Size()
}
