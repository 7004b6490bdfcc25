property='C22'
pkg=''
needs='an application whose part of the cookie is empty, and that refuses it when it comes back'
breaks='the application is not asked to validate a cookie whose application part is empty'
edits=[
('server-state-machine.go',
 'if state.Config.CookieHandler != nil && !state.Config.CookieHandler.Validate(',
 'if len(cookie.ApplicationCookie) > 0 && state.Config.CookieHandler != nil && !state.Config.CookieHandler.Validate('),
]
demo=r"""package mint

import "testing"

type vfRefuse struct{ cookie []byte }

func (h vfRefuse) Generate(*Conn) ([]byte, error) { return h.cookie, nil }
func (h vfRefuse) Validate(*Conn, []byte) bool    { return false }

func TestVfDemo(t *testing.T) {
	for _, cookie := range [][]byte{{1, 2}, {}} {
		c, s := pipe()
		cc := &Config{ServerName: "example.com", InsecureSkipVerify: true, NonBlocking: true}
		sc := &Config{ServerName: "example.com", Certificates: certificates, NonBlocking: true,
			RequireCookie: true, CookieHandler: vfRefuse{cookie}}
		sc.CookieProtector, _ = NewDefaultCookieProtector()
		client, server := Client(c, cc), Server(s, sc)
		vfDemoRun(client, server, func(int) {})
		if vfDemoBoth(client, server) {
			t.Fatalf("a refused cookie %x is accepted", cookie)
		}
	}
}
"""+__import__('vfhelp').PAIR
