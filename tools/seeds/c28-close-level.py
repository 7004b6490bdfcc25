property='C28'
pkg=''
needs='a peer that sends its close-notify at the fatal level'
breaks='a close-notify at the fatal level does not end the stream cleanly'
edits=[
('conn.go',
 '\t\tif Alert(pt.fragment[1]) == AlertCloseNotify {\n\t\t\treturn io.EOF\n',
 '\t\tif Alert(pt.fragment[1]) == AlertCloseNotify && pt.fragment[0] == AlertLevelWarning {\n\t\t\treturn io.EOF\n'),
]
demo=r"""package mint

import (
	"io"
	"testing"
)

func TestVfDemo(t *testing.T) {
	c, s := pipe()
	client, server := Client(c, nbConfig.Clone()), Server(s, nbConfig.Clone())
	vfDemoRun(client, server, func(int) {})
	client.out.WriteRecord(&TLSPlaintext{contentType: RecordTypeAlert, fragment: []byte{AlertLevelError, byte(AlertCloseNotify)}})
	if _, err := server.Read(make([]byte, 4)); err != io.EOF {
		t.Fatal("not the end of the stream:", err)
	}
}
"""+__import__('vfhelp').PAIR
