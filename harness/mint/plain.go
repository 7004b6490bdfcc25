package mint

import "io"

// vfPlain connects two endpoints by record layers that protect nothing, so
// that only the handshake itself can notice a change.
type vfPlain struct {
	in, out         *vfStream
	inKeys, outKeys []vfRekey
	act             func(k int, msg []byte) [][]byte
	n               int
}

type vfPlainLayer struct {
	vfLayer
	p *vfPlain
}

func (s *vfPlain) NewLayer(conn io.ReadWriter, dir Direction) RecordLayer {
	l := &vfPlainLayer{p: s}
	l.dir, l.s = dir, s.in
	if dir == DirectionWrite {
		l.s = s.out
	}
	return l
}

func (l *vfPlainLayer) Rekey(epoch Epoch, factory AEADFactory, keys *KeySet) error {
	k := vfRekey{epoch, keys.Keys[labelForKey], keys.Keys[labelForIV]}
	if l.dir == DirectionRead {
		l.p.inKeys = append(l.p.inKeys, k)
	} else {
		l.p.outKeys = append(l.p.outKeys, k)
	}
	l.epoch = epoch
	return nil
}

func (l *vfPlainLayer) WriteRecord(pt *TLSPlaintext) error {
	if pt.contentType != RecordTypeHandshake || l.p.act == nil {
		return l.vfLayer.WriteRecord(pt)
	}
	k := l.p.n
	l.p.n++
	for _, m := range l.p.act(k, append([]byte{}, pt.fragment...)) {
		l.s.recs = append(l.s.recs, vfRec{ct: RecordTypeHandshake, frag: m})
	}
	return nil
}

func vfPlainPair(cc, sc *Config) (*vfPlain, *vfPlain) {
	a, b := &vfStream{}, &vfStream{}
	c, s := &vfPlain{in: a, out: b}, &vfPlain{in: b, out: a}
	cc.RecordLayer, sc.RecordLayer = c, s
	return c, s
}
