package mint

import (
	"crypto"
	"crypto/x509"
)

var vfSchemes = []SignatureScheme{RSA_PKCS1_SHA1, RSA_PKCS1_SHA256, RSA_PKCS1_SHA384, RSA_PKCS1_SHA512,
	ECDSA_P256_SHA256, ECDSA_P384_SHA384, ECDSA_P521_SHA512, RSA_PSS_SHA256, RSA_PSS_SHA384, RSA_PSS_SHA512, Ed25519, Ed448}

func vfSignKeys() []crypto.Signer {
	return []crypto.Signer{vfKey(vfServerKeyHex), vfKey(vfServer384KeyHex), vfKey(vfP521KeyHex), vfKey(vfServerRSAKeyHex), vfKey(vfRSA1024KeyHex)}
}

func vfNamedCert(k crypto.Signer, names ...string) *Certificate {
	return &Certificate{Chain: []*x509.Certificate{{DNSNames: names}}, PrivateKey: k}
}

// vfSignable: the key really signs with the scheme, and its public key verifies it.
func vfSignable(alg SignatureScheme, k crypto.Signer) bool {
	cv := &CertificateVerifyBody{Algorithm: alg}
	input := []byte("some transcript hash")
	if cv.Sign(k, input) != nil {
		return false
	}
	return cv.Verify(k.Public(), input) == nil
}

// A key of a curve TLS has no scheme for.
const vfP224KeyHex = "3078020100301006072a8648ce3d020106052b810400210461305f020101041c540d89294ec7f143f4d02e76bc78b9707939bba95418700cbd952822a13c033a0004a2815226f9a55194088db711c558fb68f0bda08902eeb523259480558d410f611eff486fe970baa2412489aaa3b001007ba3af01994b19bd"

// VF_C29_scheme: for one certificate and one offered scheme, selection
// succeeds exactly when the key can sign with it.
//
//vf:bounds every 16-bit scheme; P-256, P-384, P-521, RSA-2048 and RSA-1024 keys, and a key of a curve without a scheme
//vf:reach chosen none
func VF_C29_scheme() {
	keys := append(vfSignKeys(), vfKey(vfP224KeyHex))
	k := keys[vfChoice("key", len(keys))]
	alg := SignatureScheme(vfU16("scheme"))
	cert := vfNamedCert(k, "a.com")
	got, scheme, err := CertificateSelection(nil, []SignatureScheme{alg}, []*Certificate{cert})
	can := vfSignable(alg, k)
	if err != nil {
		vfReach("none")
		vfAssert(!can, "no certificate is selected although the key can sign with the offered scheme")
		return
	}
	vfReach("chosen")
	vfAssert(can, "a certificate is selected whose key cannot sign with the chosen scheme")
	vfAssert(got == cert && scheme == alg, "selection returns something that was not offered")
}

// VF_C29_select: three certificates, two offered schemes, any server name.
//
//vf:bounds three certificates (keys from five kinds, every pair of kinds for the first two; names from overlapping sets; issuers with other names), two symbolic 16-bit schemes, server name absent, or any string of up to 5 bytes
//vf:outside names are compared exactly (no wildcards), as the code documents no other rule
//vf:budget 60 300
//vf:reach chosen none wrongname
func VF_C29_select() {
	keys := vfSignKeys()
	certs := []*Certificate{
		vfNamedCert(keys[vfChoice("k0", len(keys))], "a.com"),
		vfNamedCert(keys[vfChoice("k1", len(keys))], "b.com", "a.com"),
		vfNamedCert(keys[vfParam("k2", 1, 1)], "b.com", ""),
	}
	// the names of an issuer do not count
	certs[0].Chain = append(certs[0].Chain, &x509.Certificate{DNSNames: []string{"b.com", "c.com"}})
	certs[1].Chain = append(certs[1].Chain, &x509.Certificate{DNSNames: []string{"c.com"}})
	schemes := []SignatureScheme{SignatureScheme(vfU16("s0")), SignatureScheme(vfU16("s1"))}
	var name *string
	if vfFlag("named") {
		n := vfString("name", []int{0, 1, 5}[vfChoice("len", 3)])
		name = &n
	}
	got, scheme, err := CertificateSelection(name, schemes, certs)
	var want *Certificate
	var wantScheme SignatureScheme
	named := false
	for _, c := range certs {
		match := name == nil
		for _, d := range c.Chain[0].DNSNames {
			if name != nil && *name != "" && d == *name {
				match = true
			}
		}
		if !match {
			continue
		}
		named = true
		for _, s := range schemes {
			if want == nil && vfSignable(s, c.PrivateKey) {
				want, wantScheme = c, s
			}
		}
	}
	if want == nil {
		vfReach("none")
		if !named {
			vfReach("wrongname")
		}
		vfAssert(err != nil, "a certificate is selected although none fits")
		return
	}
	vfReach("chosen")
	vfAssert(err == nil, "no certificate is selected although one fits")
	vfAssert(got == want, "the first fitting certificate is not the one selected")
	vfAssert(scheme == wantScheme, "the first fitting scheme is not the one selected")
}

// VF_C29_verify: a signature is accepted for exactly the input, key and
// scheme it was made for.
//
//vf:bounds schemes the key can sign with (per key kind), transcript hash of 32 symbolic bytes changed by any delta; verified with any scheme from the table and each key
//vf:outside signatures that were not made in the run (the signature scheme itself is ideal)
//vf:budget 40 200
//vf:reach accepted rejected
func VF_C29_verify() {
	keys := vfSignKeys()
	pairs := []struct {
		k   int
		alg SignatureScheme
	}{{0, ECDSA_P256_SHA256}, {1, ECDSA_P384_SHA384}, {2, ECDSA_P521_SHA512}, {3, RSA_PSS_SHA256}, {3, RSA_PSS_SHA384}, {3, RSA_PSS_SHA512}}
	pr := pairs[vfChoice("pair", len(pairs))]
	cv := &CertificateVerifyBody{Algorithm: pr.alg}
	h := vfBytes("hash", 32)
	vfAssert(cv.Sign(keys[pr.k], h) == nil, "signing fails")
	d := vfBytes("delta", 32)
	vk := vfChoice("verify key", len(keys))
	va := vfSchemes[vfChoice("verify scheme", len(vfSchemes))]
	cv.Algorithm = va
	err := cv.Verify(keys[vk].Public(), vfXor(h, d))
	same := vfAnd(vfEq(d, make([]byte, 32)), vk == pr.k && va == pr.alg)
	if err == nil {
		vfReach("accepted")
		vfAssert(same, "a signature is accepted for another input, key or scheme")
	} else {
		vfReach("rejected")
		vfAssert(vfNot(same), "a correct signature is rejected")
	}
}

// VF_C29_forged: no changed signature is accepted.
//
//vf:bounds ECDSA P-256 and RSA-PSS-SHA256 signatures with the first 64 bytes XORed with any non-zero delta, and arbitrary bytes of length 0, 1, 8
//vf:outside second valid encodings of the same ECDSA signature (r, n-s): malleability is a property of ECDSA, and the transcript covers the message
//vf:reach rejected
func VF_C29_forged() {
	keys := vfSignKeys()
	pr := vfChoice("pair", 2)
	k := keys[[]int{0, 3}[pr]]
	cv := &CertificateVerifyBody{Algorithm: []SignatureScheme{ECDSA_P256_SHA256, RSA_PSS_SHA256}[pr]}
	h := []byte("some transcript hash")
	vfAssert(cv.Sign(k, h) == nil, "signing fails")
	if vfFlag("short") {
		cv.Signature = vfBytes("sig", []int{0, 1, 8}[vfChoice("len", 3)])
	} else {
		// the length of an ECDSA signature varies: change bytes every one has
		d := vfBytes("delta", 64)
		vfAssume(vfNot(vfEq(d, make([]byte, len(d)))))
		cv.Signature = append(vfXor(cv.Signature[:64], d), cv.Signature[64:]...)
	}
	vfReach("rejected")
	vfAssert(cv.Verify(k.Public(), h) != nil, "a forged signature is accepted")
}
