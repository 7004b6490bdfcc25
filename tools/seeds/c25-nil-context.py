property='C25'
pkg=''
needs='an exporter without a context'
breaks='a nil context is not hashed, so that the exporter is not that of RFC 8446'
edits=[
('conn.go',
 '\th := c.state.cryptoParams.Hash.New()\n\th.Write(context)\n\thc := h.Sum(nil)\n\treturn HkdfExpandLabel',
 '\tvar hc []byte\n\tif context != nil {\n\t\th := c.state.cryptoParams.Hash.New()\n\t\th.Write(context)\n\t\thc = h.Sum(nil)\n\t}\n\treturn HkdfExpandLabel'),
]
demo=r"""package mint

import (
	"bytes"
	"testing"
)

func TestVfDemo(t *testing.T) {
	c, s := pipe()
	client, server := Client(c, nbConfig.Clone()), Server(s, nbConfig.Clone())
	vfDemoRun(client, server, func(int) {})
	a, err := client.ComputeExporter("label", nil, 32)
	if err != nil {
		t.Fatal(err)
	}
	b, err := server.ComputeExporter("label", []byte{}, 32)
	if err != nil || !bytes.Equal(a, b) {
		t.Fatal("no context and an empty context give different values")
	}
}
"""+__import__('vfhelp').PAIR
