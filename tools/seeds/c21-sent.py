property='C21'
pkg=''
needs='a transport that fails at a full-size record'
breaks='Write counts a record that was not sent'
edits=[
('conn.go',
 '\t\t\tfragment:    buffer[start : start+maxFragmentLen],\n\t\t})\n\n\t\tif err != nil {\n\t\t\treturn sent, err\n\t\t}\n\t\tsent += maxFragmentLen\n',
 '\t\t\tfragment:    buffer[start : start+maxFragmentLen],\n\t\t})\n\n\t\tsent += maxFragmentLen\n\t\tif err != nil {\n\t\t\treturn sent, err\n\t\t}\n'),
]
demo=r"""package mint

import (
	"errors"
	"testing"
)

type vfFailing struct {
	*pipeConn
	left int
}

func (f *vfFailing) Write(b []byte) (int, error) {
	if f.left == 0 {
		return 0, errors.New("transport failure")
	}
	if f.left > 0 {
		f.left--
	}
	return f.pipeConn.Write(b)
}

func TestVfDemo(t *testing.T) {
	c, s := pipe()
	f := &vfFailing{c, -1}
	client, server := Client(f, nbConfig.Clone()), Server(s, nbConfig.Clone())
	vfDemoRun(client, server, func(int) {})
	if !vfDemoBoth(client, server) {
		t.Fatal("no connection")
	}
	f.left = 1
	n, err := client.Write(make([]byte, 3*maxFragmentLen))
	if err == nil || n != maxFragmentLen {
		t.Fatal("one record was sent, not", n)
	}
}
"""+__import__('vfhelp').PAIR
