property='C02'
pkg='syntax/'
needs='a vector with a varint header claiming an enormous length'
breaks='room is reserved for the claimed length before it is checked, so that decoding panics'
edits=[
('syntax/decode.go',
 '\t// Decode elements\n\telemData := d.Next(length)\n\tif len(elemData) != length {\n\t\tpanic(fmt.Errorf("Not enough data to read elements"))\n\t}\n\n\telemBuf := &decodeState{}\n\telemBuf.Write(elemData)\n\telems := []reflect.Value{}\n',
 '\t// Decode elements\n\telems := make([]reflect.Value, 0, length/int(sd.elementType.Size()+1))\n\telemData := d.Next(length)\n\tif len(elemData) != length {\n\t\tpanic(fmt.Errorf("Not enough data to read elements"))\n\t}\n\n\telemBuf := &decodeState{}\n\telemBuf.Write(elemData)\n'),
]
demo=r"""package syntax

import "testing"

func TestVfDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	var v struct {
		A []uint16 `tls:"head=varint"`
	}
	if _, err := Unmarshal([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, &v); err == nil {
		t.Fatal("accepted")
	}
}
"""
