property='C04'
pkg='syntax/'
needs='a varint that is a power of two'
breaks='powers of two are not encoded as the value'
edits=[
('syntax/encode.go',
 'if u < (uint64(1) << (8*len - 2)) {',
 'if u <= (uint64(1) << (8*len - 2)) && (u < 1<<14 || u&(u-1) != 0) {'),
]
demo=r"""package syntax

import "testing"

func TestVfDemo(t *testing.T) {
	type s struct {
		A uint64 `tls:"varint"`
	}
	for i := uint(0); i < 62; i++ {
		for _, x := range []uint64{1<<i - 1, 1 << i, 1<<i + 1} {
			data, err := Marshal(s{x})
			if err != nil {
				t.Fatal(x, err)
			}
			var v s
			if n, err := Unmarshal(data, &v); err != nil || n != len(data) || v.A != x {
				t.Fatal(x, v.A, n, err)
			}
		}
	}
}
"""
