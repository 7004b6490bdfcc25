property='C33'
pkg=''
needs='the transport fails while a flight of handshake messages is being written'
breaks='the error is dropped and Handshake reports success'
edits=[
('handshake-layer.go',
 '\t\twrote, err := h.WriteMessage(hm)\n\t\tif err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t\twritten += wrote\n',
 '\t\twrote, err := h.WriteMessage(hm)\n\t\twritten += wrote\n\t\tif err != nil {\n\t\t\tlogf(logTypeHandshake, "WriteMessage failed after %d records: %v", written, err)\n\t\t\tbreak\n\t\t}\n'),
]
demo=r"""package mint

import (
	"errors"
	"testing"
)

type vfFailing struct {
	*pipeConn
	left int
}

func (f *vfFailing) Write(b []byte) (int, error) {
	if f.left == 0 {
		return 0, errors.New("broken")
	}
	f.left--
	return f.pipeConn.Write(b)
}

func TestVfDemo(t *testing.T) {
	for at := 0; at < 8; at++ {
		for side := 0; side < 2; side++ {
			c, s := pipe()
			cf, sf := &vfFailing{c, 1000}, &vfFailing{s, 1000}
			if side == 0 {
				cf.left = at
			} else {
				sf.left = at
			}
			client, server := Client(cf, nbConfig.Clone()), Server(sf, nbConfig.Clone())
			ca, sa := vfDemoRun(client, server, func(int) {})
			if cf.left == 0 && (ca == AlertNoAlert || ca == AlertWouldBlock) || sf.left == 0 && (sa == AlertNoAlert || sa == AlertWouldBlock) {
				// exactly as many writes as are needed is no failure
				if vfDemoBoth(client, server) {
					continue
				}
				t.Fatal("a transport failure is not reported: ", at, side, ca, sa)
			}
		}
	}
}
"""+__import__('vfhelp').PAIR
