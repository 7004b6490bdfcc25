property='C19'
pkg=''
needs='an attacker who reorders the extensions of a HelloRetryRequest'
breaks='the HelloRetryRequest is not part of the transcript at either end'
edits=[
('client-state-machine.go',
 '\thandshakeHash.Write(state.helloRetryRequest.Marshal())\n',
 ''),
('server-state-machine.go',
 '\thandshakeHash.Write(state.helloRetryRequest.Marshal())\n',
 ''),
]
demo=r"""package mint

import "testing"

func TestVfDemo(t *testing.T) {
	cc, sc := nbConfig.Clone(), nbConfig.Clone()
	sc.RequireCookie = true
	sc.CookieProtector, _ = NewDefaultCookieProtector()
	c, s := pipe()
	client, server := Client(c, cc), Server(s, sc)
	done := false
	vfDemoRun(client, server, func(i int) {
		b := c.r.Bytes()
		if i%2 == 0 || done || len(b) == 0 {
			return
		}
		// the extensions of the HelloRetryRequest
		ext := b[5+4+2+32+1+2+1+2:]
		first := 4 + int(ext[2])<<8 + int(ext[3])
		swapped := append(append([]byte{}, ext[first:]...), ext[:first]...)
		copy(ext, swapped)
		done = true
	})
	if !done {
		t.Fatal("no retry")
	}
	if vfDemoBoth(client, server) {
		t.Fatal("connected although the retry was tampered with")
	}
}
"""+__import__('vfhelp').PAIR
