property='C17'
pkg=''
needs='a client and a server that prefer different groups'
breaks='the server picks the key-exchange group by its own order, not by the client\'s'
edits=[
('negotiation.go',
 '\tfor _, share := range keyShares {\n\t\tfor _, group := range groups {\n',
 '\tfor _, group := range groups {\n\t\tfor _, share := range keyShares {\n'),
]
demo=r"""package mint

import "testing"

func TestVfDemo(t *testing.T) {
	a, _, err := newKeyShare(X25519)
	if err != nil {
		t.Fatal(err)
	}
	b, _, err := newKeyShare(P256)
	if err != nil {
		t.Fatal(err)
	}
	ok, group, _, _ := DHNegotiation([]KeyShareEntry{{Group: X25519, KeyExchange: a}, {Group: P256, KeyExchange: b}}, []NamedGroup{P256, X25519})
	if !ok || group != X25519 {
		t.Fatal("not the client's first choice", group)
	}
}
"""
