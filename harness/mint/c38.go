package mint

import (
	"errors"

	"golang.org/x/crypto/curve25519"
)

// vfRng stands for the random source. It remembers what it gave out, and which
// of that has been found in something that was sent.
type vfRng struct {
	log         []byte
	used        []bool
	reads, fail int
	sym         bool
	state       uint32
}

func (r *vfRng) Read(b []byte) (int, error) {
	r.reads++
	if r.fail > 0 && r.reads >= r.fail {
		return 0, errors.New("no randomness")
	}
	if r.sym {
		copy(b, vfBytes("random", len(b)))
	} else {
		for i := range b {
			r.state = r.state*1664525 + 1013904223
			b[i] = byte(r.state >> 24)
		}
	}
	r.log = append(r.log, b...)
	r.used = append(r.used, make([]bool, len(b))...)
	return len(b), nil
}

// find returns where the field f(bytes given out) of n given out bytes lies,
// in bytes that nothing else is made of.
func (r *vfRng) find(n int, what string, is func(b []byte) bool) {
	for i := 0; i+n <= len(r.log); i++ {
		free := true
		for _, u := range r.used[i : i+n] {
			free = free && !u
		}
		if free && is(r.log[i:i+n]) {
			for k := range r.used[i : i+n] {
				r.used[i+k] = true
			}
			return
		}
	}
	// random bytes that differ from each other tell the two apart natively
	all := make([]byte, len(r.log))
	for i := range all {
		all[i] = byte(i*i*31 + i*89 + 7)
	}
	if vfEq(r.log, all) {
		vfAssert(false, what+" is not made of fresh random bytes")
	}
	vfAssert(false, what+" is not made of fresh random bytes")
}

func (r *vfRng) fresh(field []byte, what string) {
	r.find(len(field), what, func(b []byte) bool { return vfAlwaysEq(b, field) })
}

// freshShare: an X25519 public value is that of a fresh private value.
func (r *vfRng) freshShare(pub []byte, what string) {
	r.find(32, what, func(b []byte) bool {
		return vfAlwaysEq(vfX25519Base(b), pub)
	})
}

func vfX25519Base(b []byte) []byte {
	var priv, pub [32]byte
	copy(priv[:], b)
	curve25519.ScalarBaseMult(&pub, &priv)
	return pub[:]
}

// vfRandomness installs the random source for this run.
func vfRandomness(r *vfRng) func() {
	old := prng
	prng = r
	return func() { prng = old }
}

// VF_C38_client: what a client's hellos have to keep secret or unpredictable is
// fresh, in every connection.
//
//vf:bounds random source of any bytes, failing from its 1st..3rd use on, or not; X25519; with and without a pre-shared key and a retry; two connections of one configuration
//vf:reach done retried failed
func VF_C38_client() {
	r := &vfRng{sym: true, fail: vfChoice("fail", 4)}
	defer vfRandomness(r)()
	cc := vfClientConfig()
	if vfFlag("psk") {
		cc.PSKs = vfPSKCache(vfTestPSK(TLS_AES_128_GCM_SHA256), cc.ServerName)
	}
	retry := vfFlag("retry")
	for i := 0; i < 2; i++ {
		p := vfNewPeer(cc, true)
		p.step()
		t, ch, ok := p.recv()
		if vfFatal(p.alert) {
			vfAssert(!ok, "a client without randomness sends a hello")
			vfAssert(r.fail > 0, "the client fails")
			vfReach("failed")
			return
		}
		vfAssert(ok && t == HandshakeTypeClientHello, "no ClientHello")
		r.fresh(ch[2:34], "the client's random value")
		p.takeShare(ch)
		r.freshShare(p.share, "the client's key share")
		if retry {
			p.sendRetry([]byte{1, 2, 3})
			p.step()
			p.step()
			t, ch2, ok := p.recv()
			if vfFatal(p.alert) {
				vfAssert(!ok && r.fail > 0, "the client fails after a retry")
				vfReach("failed")
				return
			}
			vfAssert(ok && t == HandshakeTypeClientHello, "no second ClientHello")
			share := p.share
			p.takeShare(ch2)
			if !vfAlwaysEq(ch2[2:34], ch[2:34]) {
				r.fresh(ch2[2:34], "the client's second random value")
			}
			if !vfAlwaysEq(p.share, share) {
				r.freshShare(p.share, "the client's second key share")
			}
			vfReach("retried")
		}
	}
	vfReach("done")
}

// VF_C38_server: the same for a server's hello and its tickets.
//
//vf:bounds random source of any bytes, failing from its 1st..5th use on, or not; X25519; certificate, pre-shared key with and without (EC)DHE; ticket identities of 1, 16 and 33 bytes; two connections of one configuration
//vf:reach done psk failed noticket
func VF_C38_server() {
	r := &vfRng{sym: true, fail: vfChoice("fail", 6)}
	defer vfRandomness(r)()
	sc := vfServerConfig()
	sc.SendSessionTickets = true
	sc.TicketLen = []int{1, 16, 33}[vfChoice("ticket", 3)]
	psk := vfTestPSK(TLS_AES_128_GCM_SHA256)
	mode := vfChoice("mode", 3)
	sc.PSKs = &vfOneKey{psk}
	for i := 0; i < 2; i++ {
		o := vfDefaultCH()
		if mode > 0 {
			o.psk = &psk
			o.modes = []byte{byte(mode - 1)}
			o.noShare = mode == 1
		}
		p := vfNewPeer(sc, false)
		p.sendCH(o)
		p.step()
		before := len(p.transcript)
		s, ok := p.recvServerHello(o)
		if !ok {
			vfAssert(r.fail > 0 && vfFatal(p.alert), "the server does not answer")
			vfReach("failed")
			return
		}
		r.fresh(p.transcript[before+6:before+38], "the server's random value")
		if s.useDH {
			r.freshShare(p.share, "the server's key share")
		} else {
			vfReach("psk")
		}
		p.recvServerFlight(o, s)
		p.sendClientFin()
		p.step()
		t, body, ok := p.recv()
		if !ok {
			vfAssert(r.fail > 0, "no ticket is sent")
			vfReach("noticket")
			return
		}
		vfAssert(t == HandshakeTypeNewSessionTicket, "no ticket is sent")
		tk := vfParseTicket(body)
		vfAssert(len(tk.ticket) == sc.TicketLen, "the ticket has another length")
		vfAssert(len(tk.nonce) > 0, "a ticket without a nonce")
		r.fresh(body[4:8], "the ticket's age mask")
		if len(tk.nonce) >= 8 {
			r.fresh(tk.nonce, "the ticket's nonce")
		}
		r.fresh(tk.ticket, "the ticket's identity")
	}
	vfReach("done")
}

// vfOneKey is a session cache of one key, that forgets what is stored.
type vfOneKey struct{ psk PreSharedKey }

func (c *vfOneKey) Get(k string) (PreSharedKey, bool) { return c.psk, k == vfHexStr(c.psk.Identity) }
func (c *vfOneKey) Put(k string, psk PreSharedKey)    {}
func (c *vfOneKey) Size() int                         { return 1 }

// VF_C38_groups: every key share has a private value of full length from the
// random source, and is another one each time.
//
//vf:bounds all groups (quick: up to FFDHE2048); a random source that works, or fails from its 1st or 2nd use on; 2 shares; the random bytes are concrete
//vf:outside how the private value of the groups other than X25519 is computed from the random bytes
//vf:reach done failed
func VF_C38_groups() {
	groups := []NamedGroup{P256, P384, P521, X25519, FFDHE2048, FFDHE3072, FFDHE4096, FFDHE6144, FFDHE8192}
	size := []int{32, 48, 66, 32, 256, 384, 512, 768, 1024}
	k := vfChoice("group", vfParam("groups", 5, 9))
	r := &vfRng{fail: vfChoice("fail", 3)}
	defer vfRandomness(r)()
	var pubs, privs [][]byte
	for i := 0; i < 2; i++ {
		before := len(r.log)
		pub, priv, err := newKeyShare(groups[k])
		if err != nil {
			vfAssert(r.fail > 0, "no key share is made")
			vfReach("failed")
			return
		}
		vfAssert(len(r.log)-before >= size[k], "a private value is made of too few random bytes")
		pubs, privs = append(pubs, pub), append(privs, priv)
	}
	vfAssert(!vfEq2(pubs[0], pubs[1]) && !vfEq2(privs[0], privs[1]), "two key shares are the same")
	vfReach("done")
}

// VF_C38_cookie: cookies are protected under keys and nonces of their own.
//
//vf:bounds two protectors, two cookies of each; the random bytes are concrete
//vf:reach done
func VF_C38_cookie() {
	var toks, secrets [][]byte
	for i := 0; i < 2; i++ {
		cp, err := NewDefaultCookieProtector()
		vfAssert(err == nil, "no cookie protector")
		secrets = append(secrets, cp.(*DefaultCookieProtector).secret)
		for k := 0; k < 2; k++ {
			tok, err := cp.NewToken([]byte{1, 2, 3})
			vfAssert(err == nil && len(tok) >= 16+3+32, "a cookie cannot be protected")
			toks = append(toks, tok[:32])
		}
	}
	vfRandomDistinct(toks, "two cookies have the same nonce")
	vfRandomDistinct(secrets, "two protectors have the same secret")
	vfReach("done")
}

// vfRandomDistinct: in every group of 4 of their bytes, the values differ from each other and from zero.
func vfRandomDistinct(all [][]byte, what string) {
	for i, a := range all {
		vfAssert(len(a) >= 32, "too few random bytes")
		for at := 0; at+4 <= len(a); at += 4 {
			vfAssert(!vfEq(a[at:at+4], []byte{0, 0, 0, 0}), "random bytes are missing")
			for _, b := range all[:i] {
				vfAssert(!vfEq(a[at:at+4], b[at:at+4]), what)
			}
		}
	}
}
