package syntax

import "errors"

// C02: decoding arbitrary bytes into any declared structure is total.

type vfT02Empty struct{}

type vfT02Inner struct {
	A uint8
	B []byte `tls:"head=1,max=3"`
}

type vfT02Custom struct{ b []byte }

func (c vfT02Custom) MarshalTLS() ([]byte, error) { return append([]byte{byte(len(c.b))}, c.b...), nil }
func (c *vfT02Custom) UnmarshalTLS(data []byte) (int, error) {
	if len(data) < 1 || len(data) < 1+int(data[0]) {
		return 0, errors.New("short")
	}
	c.b = data[1 : 1+int(data[0])]
	return 1 + int(data[0]), nil
}

// vfT02Liar claims to have consumed as much as its first byte says.
type vfT02Liar struct{}

func (c *vfT02Liar) UnmarshalTLS(data []byte) (int, error) {
	if len(data) < 1 {
		return 0, errors.New("short")
	}
	return int(data[0]), nil
}

type vfT02Even uint16

func (v vfT02Even) ValidForTLS() error {
	if v%2 != 0 {
		return errors.New("odd")
	}
	return nil
}

func vfT02(v interface{}, min, max int) {
	n := vfLen("len", min, max)
	data := vfBytes("data", n)
	read, err := Unmarshal(data, v)
	vfReach("returned")
	if err == nil {
		vfReach("accepted")
		vfAssert(read >= 0 && read <= n, "decoder reports more bytes than it was given")
	}
}

// VF_C02_syn_opaque
//
//vf:bounds 0..8 arbitrary bytes; opaque vectors with 1, 2, 3 and 4 byte headers, varint header and no header
//vf:reach returned accepted
func VF_C02_syn_opaque() {
	switch vfChoice("decl", 6) {
	case 0:
		vfT02(&struct {
			V []byte `tls:"head=1"`
		}{}, 0, 8)
	case 1:
		vfT02(&struct {
			V []byte `tls:"head=2,min=1,max=5"`
		}{}, 0, 8)
	case 2:
		vfT02(&struct {
			V []byte `tls:"head=3"`
		}{}, 0, 8)
	case 3:
		vfT02(&struct {
			V []byte `tls:"head=4,max=3"`
		}{}, 0, 8)
	case 4:
		vfT02(&struct {
			V []byte `tls:"head=varint"`
		}{}, 0, 10)
	case 5:
		vfT02(&struct {
			V []byte `tls:"head=none,min=1"`
		}{}, 0, 8)
	}
}

// VF_C02_syn_vectors
//
//vf:bounds 0..9 arbitrary bytes; vectors of uint16, uint32, structs, arrays, vectors, empty structs, pointers and maps
//vf:reach returned accepted
func VF_C02_syn_vectors() {
	switch vfChoice("decl", 9) {
	case 0:
		vfT02(&struct {
			V []uint16 `tls:"head=1,min=2"`
		}{}, 0, 7)
	case 1:
		vfT02(&struct {
			V []uint32 `tls:"head=2"`
		}{}, 0, 9)
	case 2:
		vfT02(&struct {
			V []vfT02Inner `tls:"head=1"`
		}{}, 0, 7)
	case 3:
		vfT02(&struct {
			V [][2]uint8 `tls:"head=1"`
		}{}, 0, 7)
	case 4:
		vfT02(&struct {
			V []vfT02Empty `tls:"head=1"`
		}{}, 0, 6)
	case 5:
		vfT02(&struct {
			V []*vfT02Inner `tls:"head=1"`
		}{}, 0, 7)
	case 6:
		vfT02(&struct {
			V map[uint8]uint16 `tls:"head=1"`
		}{}, 0, 7)
	case 7:
		vfT02(&struct {
			V [3]struct {
				W []byte `tls:"head=1"`
			}
		}{}, 0, 7)
	case 8:
		vfT02(&struct {
			V [][0]uint8 `tls:"head=1"`
		}{}, 0, 6)
	}
}

// VF_C02_syn_options
//
//vf:bounds 0..10 arbitrary bytes; optional, omitted, varint, self-decoding and validated fields, and a self-decoding type whose claimed length is arbitrary
//vf:reach returned accepted
func VF_C02_syn_options() {
	switch vfChoice("decl", 8) {
	case 0:
		vfT02(&struct {
			V *uint16 `tls:"optional"`
		}{}, 0, 4)
	case 1:
		vfT02(&struct {
			V *vfT02Inner `tls:"optional"`
			W *uint8      `tls:"optional"`
		}{}, 0, 7)
	case 2:
		vfT02(&struct {
			A uint8
			V []byte `tls:"omit"`
			B uint8
		}{}, 0, 3)
	case 3:
		vfT02(&struct {
			A uint64 `tls:"varint"`
			B uint16 `tls:"varint"`
		}{}, 0, 10)
	case 4:
		vfT02(&struct {
			A vfT02Custom
			B uint8
		}{}, 0, 7)
	case 5:
		vfT02(&struct {
			A []vfT02Custom `tls:"head=1"`
		}{}, 0, 6)
	case 6:
		vfT02(&struct {
			A vfT02Even
			B []vfT02Even `tls:"head=1"`
		}{}, 0, 7)
	case 7:
		vfT02(&struct {
			A vfT02Liar
			B uint8
		}{}, 0, 5)
	}
}

// VF_C02_syn_targets
//
//vf:bounds targets that cannot be decoded into: nil, non-pointers, nil pointers, unsupported kinds and bad declarations; 0..3 arbitrary bytes
//vf:reach returned
func VF_C02_syn_targets() {
	data := vfBytes("data", vfLen("len", 0, 3))
	var v interface{}
	switch vfChoice("target", 6) {
	case 0:
		v = 5
	case 1:
		v = (*uint16)(nil)
	case 2:
		v = &struct{ V string }{}
	case 3:
		v = &struct{ V []byte }{}
	case 4:
		v = &struct {
			V uint8 `tls:"optional"`
		}{}
	case 5:
		v = &struct{ V interface{} }{}
	}
	_, err := Unmarshal(data, v)
	vfReach("returned")
	if len(data) > 0 {
		vfAssert(err != nil, "a target that cannot be decoded into is accepted")
	}
}
