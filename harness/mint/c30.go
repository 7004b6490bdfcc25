package mint

import (
	"crypto/elliptic"
	"math/big"

	"golang.org/x/crypto/curve25519"
)

var vfDHLen = map[NamedGroup]int{P256: 65, P384: 97, P521: 133, X25519: 32,
	FFDHE2048: 256, FFDHE3072: 384, FFDHE4096: 512, FFDHE6144: 768, FFDHE8192: 1024}

func vfDHGroup(name string, gs ...NamedGroup) NamedGroup { return gs[vfChoice(name, len(gs))] }

func vfFFGroup() NamedGroup {
	gs := []NamedGroup{FFDHE2048, FFDHE3072, FFDHE4096, FFDHE6144, FFDHE8192}
	return gs[vfChoice("group", vfParam("groups", 1, 5))]
}

// vfLess: a < b for equally long big-endian byte strings.
func vfLess(a, b []byte) bool {
	lt := false
	for i := len(a) - 1; i >= 0; i-- {
		lt = vfOr(a[i] < b[i], vfAnd(a[i] == b[i], lt))
	}
	return lt
}

// VF_C30_ffdhe_range: every public value of the right length for a
// finite-field group. With the private exponent 1 the shared secret is the
// public value itself, so range check, modulus and padding are all visible.
//
//vf:bounds FFDHE2048 (thorough: all five groups), every public value of the group's length, private exponent 1; secrets with any number of leading zero bytes
//vf:outside exponents other than 1 with a symbolic base
//vf:budget 40 300
//vf:reach accepted rejected
func VF_C30_ffdhe_range() {
	g := vfFFGroup()
	n := vfDHLen[g]
	p, _ := new(big.Int).SetString(vfPrimeHex[g], 16)
	pm1 := new(big.Int).Sub(p, big.NewInt(1)).Bytes()
	one := make([]byte, n)
	one[n-1] = 1
	lz := vfChoice("leading zeros", vfParam("lz", 4, 8)) // how many leading bytes are zero: 0, 1, 2, then half, ..., all but one
	z := []int{0, 1, 2, n - 1, n / 2, n - 2, 7, 8}[lz]
	pub := make([]byte, n)
	copy(pub[z:], vfBytes("pub", n-z))
	if z < n {
		vfAssume(pub[z] != 0)
	}
	out, err := keyAgreement(g, pub, []byte{1})
	valid := vfAnd(vfLess(one, pub), vfLess(pub, pm1))
	if err != nil {
		vfReach("rejected")
		vfAssert(vfNot(valid), "a valid finite-field public value is rejected")
		return
	}
	vfReach("accepted")
	vfAssert(valid, "a finite-field public value outside 2..p-2 is accepted")
	vfAssert(len(out) == n, "the shared secret does not have the group's fixed length")
	vfAssert(vfEq(out, pub), "the shared secret is not the left-padded group element")
}

// VF_C30_ffdhe_tiny: public values 0..255, any exponent from a list.
//
//vf:bounds FFDHE2048, public values 0..255 (symbolic), private exponent 1
//vf:reach small
func VF_C30_ffdhe_tiny() {
	n := vfDHLen[FFDHE2048]
	pub := make([]byte, n)
	pub[n-1] = vfU8("v")
	out, err := keyAgreement(FFDHE2048, pub, []byte{1})
	vfReach("small")
	vfAssert((err == nil) == (pub[n-1] >= 2), "finite-field public values 0 and 1 must be rejected, 2..255 accepted")
	if err == nil {
		vfAssert(vfEq(out, pub), "the shared secret is not the left-padded group element")
	}
}

// VF_C30_ffdhe_top: public values near the modulus.
//
//vf:bounds FFDHE2048 (thorough: all groups), public values that differ from p in the last two bytes only (symbolic)
//vf:reach below above
func VF_C30_ffdhe_top() {
	g := vfFFGroup()
	p, _ := new(big.Int).SetString(vfPrimeHex[g], 16)
	pub := p.Bytes()
	last := vfBytes("last", 2)
	copy(pub[len(pub)-2:], last)
	out, err := keyAgreement(g, pub, []byte{1})
	// p ends in ff ff: valid means last two bytes < fffe, that is below p-1
	valid := vfOr(last[0] < 0xff, last[1] < 0xfe)
	if valid {
		vfReach("below")
		vfAssert(err == nil, "a valid finite-field public value is rejected")
		vfAssert(vfEq(out, pub), "the shared secret is not the group element")
	} else {
		vfReach("above")
		vfAssert(err != nil, "a finite-field public value of p-1 or more is accepted")
	}
}

// VF_C30_length: public values of the wrong length.
//
//vf:bounds every group; lengths 0, 1, n-1, n+1, 2n, contents symbolic
//vf:reach checked
func VF_C30_length() {
	g := vfDHGroup("group", P256, P384, P521, X25519, FFDHE2048, FFDHE3072, FFDHE4096, FFDHE6144, FFDHE8192)
	_, priv, err := newKeyShare(vfDHGroup("privgroup", X25519))
	vfAssert(err == nil, "newKeyShare fails")
	n := vfDHLen[g]
	l := []int{0, 1, n - 1, n + 1, 2 * n}[vfChoice("length", 5)]
	out, err := keyAgreement(g, vfBytes("pub", l), priv)
	vfReach("checked")
	vfAssert(err != nil, "a public value of the wrong length is accepted")
	vfAssert(len(out) == 0, "a shared secret is returned with an error")
}

// VF_C30_unknown_group: a group that is not supported is an error.
//
//vf:bounds every 16-bit group number other than the nine supported ones; 65-byte public value
//vf:reach checked
func VF_C30_unknown_group() {
	g := NamedGroup(vfU16("group"))
	for k := range vfDHLen {
		vfAssume(g != k)
	}
	_, _, err := newKeyShare(g)
	vfAssert(err != nil, "a key share is made for an unknown group")
	_, err = keyAgreement(g, vfBytes("pub", 65), []byte{1})
	vfAssert(err != nil, "an unknown group agrees on a key")
	vfReach("checked")
}

// VF_C30_ec: arbitrary tampering with an EC public value.
//
//vf:bounds P-256, P-384, P-521; an honest public value XORed with any delta
//vf:outside symbolic points are split into session keys, the generator, an off-curve point and malformed encodings
//vf:reach valid invalid
func VF_C30_ec() {
	g := vfDHGroup("group", P256, P384, P521)
	crv := map[NamedGroup]elliptic.Curve{P256: elliptic.P256(), P384: elliptic.P384(), P521: elliptic.P521()}[g]
	pub, _, err := newKeyShare(g)
	vfAssert(err == nil, "newKeyShare fails")
	_, priv, err := newKeyShare(g)
	vfAssert(err == nil, "newKeyShare fails")
	pub = vfXor(pub, vfBytes("d", len(pub)))
	x, y := elliptic.Unmarshal(crv, pub)
	out, err := keyAgreement(g, pub, priv)
	if x == nil {
		vfReach("invalid")
		vfAssert(err != nil, "an invalid curve point is accepted")
		return
	}
	vfReach("valid")
	vfAssert(err == nil, "a valid curve point is rejected")
	vfCheckEC(crv, x, y, priv, out)
}

func vfCheckEC(crv elliptic.Curve, x, y *big.Int, priv, out []byte) {
	zx, _ := crv.ScalarMult(x, y, priv)
	n := (crv.Params().BitSize + 7) / 8
	want := zx.FillBytes(make([]byte, n))
	vfAssert(vfEq(out, want), "the shared secret is not the left-padded x coordinate")
}

// VF_C30_ec_pad: secrets with leading zero bytes (the generator times scalars
// found to give a short x coordinate, and ordinary scalars).
//
//vf:bounds P-256, P-384, P-521; six scalars per curve, two of them with x coordinates short by one byte or more
//vf:reach checked
func VF_C30_ec_pad() {
	g := vfDHGroup("group", P256, P384, P521)
	crv := map[NamedGroup]elliptic.Curve{P256: elliptic.P256(), P384: elliptic.P384(), P521: elliptic.P521()}[g]
	ks := append([]int{1, 2, 3, 77}, map[NamedGroup][]int{P256: {379, 552}, P384: {197, 234}, P521: {10735}}[g]...)
	k := ks[vfChoice("k", len(ks))]
	priv := []byte{byte(k >> 16), byte(k >> 8), byte(k)}
	gx, gy := crv.Params().Gx, crv.Params().Gy
	out, err := keyAgreement(g, elliptic.Marshal(crv, gx, gy), priv)
	vfAssert(err == nil, "the generator is rejected")
	vfCheckEC(crv, gx, gy, priv, out)
	vfReach("checked")
}

// VF_C30_x25519: every 32-byte public value.
//
//vf:bounds every 32-byte public value, one private key
//vf:outside the function itself is golang.org/x/crypto/curve25519 (ideal function for unknown public values; the two canonical low-order encodings 0 and 1 give zero)
//vf:reach zero ok
func VF_C30_x25519() {
	_, priv, err := newKeyShare(X25519)
	vfAssert(err == nil, "newKeyShare fails")
	pub := vfBytes("pub", 32)
	var k, u, want [32]byte
	copy(k[:], priv)
	copy(u[:], pub)
	curve25519.ScalarMult(&want, &k, &u)
	out, err := keyAgreement(X25519, pub, priv)
	if want == ([32]byte{}) {
		vfReach("zero")
		vfAssert(err != nil, "a low-order X25519 public value is accepted")
		return
	}
	vfReach("ok")
	vfAssert(err == nil, "a valid X25519 public value is rejected")
	vfAssert(vfEq(out, want[:]), "the shared secret is not X25519(private, public)")
}

// VF_C30_agree: two fresh key pairs agree and have the group's fixed lengths.
//
//vf:bounds every EC group, X25519 and FFDHE2048 (thorough: all groups), key pairs from the deterministic random source, either role first
//vf:outside all private keys (the group operation is not symbolic)
//vf:budget 60 300
//vf:reach agreed
func VF_C30_agree() {
	gs := []NamedGroup{P256, P384, P521, X25519, FFDHE2048, FFDHE3072, FFDHE4096, FFDHE6144, FFDHE8192}
	g := gs[vfChoice("group", vfParam("groups", 5, 9))]
	pa, sa, ea := newKeyShare(g)
	pb, sb, eb := newKeyShare(g)
	vfAssert(ea == nil && eb == nil, "newKeyShare fails")
	vfAssert(len(pa) == vfDHLen[g] && len(pb) == vfDHLen[g], "a public value does not have the group's fixed length")
	vfAssert(vfNot(vfEq(pa, pb)), "two key pairs are the same")
	x, ex := keyAgreement(g, pa, sb)
	y, ey := keyAgreement(g, pb, sa)
	vfAssert(ex == nil && ey == nil, "an honest public value is rejected")
	vfAssert(len(x) > 0 && vfEq(x, y), "the two ends compute different shared secrets")
	n := map[NamedGroup]int{P256: 32, P384: 48, P521: 66}[g]
	if n == 0 {
		n = vfDHLen[g]
	}
	vfAssert(len(x) == n, "the shared secret does not have the group's fixed length")
	if h := vfPrimeHex[g]; h != "" {
		p, _ := new(big.Int).SetString(h, 16)
		want := new(big.Int).Exp(big.NewInt(2), new(big.Int).SetBytes(sa), p).FillBytes(make([]byte, n))
		vfAssert(vfEq(pa, want), "the public value is not 2^private mod p")
	}
	vfReach("agreed")
}
