package syntax

// C04: the codec implements the TLS presentation language for its declarations.
// Each harness has its own oracle, written from RFC 8446 section 3.

const (
	vfEncFail = "encoding a value within its declared limits fails"
	vfEncOK   = "a value outside its declared limits is encoded"
	vfEncDiff = "the encoding is not the presentation-language encoding"
	vfDecFail = "decoding a well-formed encoding fails"
	vfDecOK   = "decoding accepts bytes outside the declared limits"
	vfDecDiff = "decoding yields a different value"
	vfDecRead = "decoding reports the wrong number of bytes"
)

// VF_C04_ints: fixed-width integers and arrays, big endian.
//
//vf:bounds every value of a structure of one integer of each width, an array of bytes and an array of uint16; every input of 0..25 bytes
//vf:reach done short
func VF_C04_ints() {
	type S struct {
		A uint8
		B uint16
		C uint32
		D uint64
		E [3]byte
		F [2]uint16
	}
	v := S{vfU8("a"), vfU16("b"), vfU32("c"), vfU64("d"), [3]byte{vfU8("e"), vfU8("e"), vfU8("e")}, [2]uint16{vfU16("f"), vfU16("f")}}
	want := []byte{v.A, byte(v.B >> 8), byte(v.B), byte(v.C >> 24), byte(v.C >> 16), byte(v.C >> 8), byte(v.C),
		byte(v.D >> 56), byte(v.D >> 48), byte(v.D >> 40), byte(v.D >> 32), byte(v.D >> 24), byte(v.D >> 16), byte(v.D >> 8), byte(v.D),
		v.E[0], v.E[1], v.E[2], byte(v.F[0] >> 8), byte(v.F[0]), byte(v.F[1] >> 8), byte(v.F[1])}
	enc, err := Marshal(v)
	vfAssert(err == nil, vfEncFail)
	vfAssert(vfEq(enc, want), vfEncDiff)
	vfObserve("enc", enc)
	var d S
	n, err := Unmarshal(enc, &d)
	vfAssert(err == nil, vfDecFail)
	vfAssert(n == len(enc), vfDecRead)
	vfAssert(d == v, vfDecDiff)
	vfReach("done")
	k := vfLen("k", 0, 25)
	data := vfBytes("data", k)
	var e S
	n, err = Unmarshal(data, &e)
	vfAssert((err == nil) == (k >= 22), "an integer structure is accepted exactly when enough bytes are present")
	if err != nil {
		vfReach("short")
		return
	}
	vfAssert(n == 22, vfDecRead)
	enc, err = Marshal(e)
	vfAssert(err == nil && vfEq(enc, data[:22]), vfDecDiff)
}

func vfPut(out []byte, n, size int) []byte {
	for i := size - 1; i >= 0; i-- {
		out = append(out, byte(n>>uint(8*i)))
	}
	return out
}

// vfVector checks one opaque vector declaration both ways: the value v is
// encoded by mar and decoded by unm; min..max are the declared byte limits.
func vfVector(head, min, max, maxLen int, mar func([]byte) ([]byte, error), unm func([]byte) ([]byte, int, error)) {
	top := 1<<uint(8*head) - 1
	if max > 0 && max < top {
		top = max
	}
	n := vfLen("n", 0, maxLen)
	v := vfBytes("v", n)
	enc, err := mar(v)
	ok := n >= min && n <= top
	if ok {
		vfAssert(err == nil, vfEncFail)
		want := append(vfPut(nil, n, head), v...)
		vfAssert(vfEq(enc, want), vfEncDiff)
		tail := vfBytes("tail", 2)
		d, read, err := unm(append(append([]byte{}, enc...), tail...))
		vfAssert(err == nil, vfDecFail)
		vfAssert(read == len(enc), vfDecRead)
		vfAssert(vfEq(d, v), vfDecDiff)
		vfObserve("enc", enc)
		vfReach("ok")
	} else {
		vfAssert(err != nil, vfEncOK)
		vfReach("refused")
	}
	// arbitrary bytes
	k := vfLen("k", 0, maxLen+head)
	data := vfBytes("data", k)
	d, read, err := unm(data)
	if k < head {
		vfAssert(err != nil, vfDecOK)
		return
	}
	l := 0
	for i := 0; i < head; i++ {
		l = l<<8 | int(data[i])
	}
	good := vfAnd(vfAnd(l >= min, l <= top), l <= k-head)
	vfAssert((err == nil) == good, "a vector is accepted exactly when its length is within the declared limits and the data is there")
	if err == nil {
		vfAssert(read == head+len(d) && len(d) == l, vfDecRead)
		vfAssert(vfEq(d, data[head:head+len(d)]), vfDecDiff)
		vfReach("decoded")
	}
}

// VF_C04_opaque_limits: head=1 with declared minimum and maximum.
//
//vf:bounds vectors of 0..7 bytes against limits 2..5; every input of 0..8 bytes
//vf:reach ok refused decoded
func VF_C04_opaque_limits() {
	type S struct {
		V []byte `tls:"head=1,min=2,max=5"`
	}
	vfVector(1, 2, 5, 7, func(v []byte) ([]byte, error) { return Marshal(S{v}) },
		func(b []byte) ([]byte, int, error) { var s S; n, err := Unmarshal(b, &s); return s.V, n, err })
}

// VF_C04_opaque_heads: the header sizes 1 to 4, no limits.
//
//vf:bounds vectors of 0..4 bytes with 1- to 4-byte headers; every input of up to 8 bytes
//vf:reach ok decoded
func VF_C04_opaque_heads() {
	type S1 struct {
		V []byte `tls:"head=1"`
	}
	type S2 struct {
		V []byte `tls:"head=2,min=1"`
	}
	type S3 struct {
		V []byte `tls:"head=3,max=3"`
	}
	type S4 struct {
		V []byte `tls:"head=4"`
	}
	switch vfChoice("h", 4) {
	case 0:
		vfVector(1, 0, 0, 4, func(v []byte) ([]byte, error) { return Marshal(S1{v}) },
			func(b []byte) ([]byte, int, error) { var s S1; n, err := Unmarshal(b, &s); return s.V, n, err })
	case 1:
		vfVector(2, 1, 0, 4, func(v []byte) ([]byte, error) { return Marshal(S2{v}) },
			func(b []byte) ([]byte, int, error) { var s S2; n, err := Unmarshal(b, &s); return s.V, n, err })
	case 2:
		vfVector(3, 0, 3, 4, func(v []byte) ([]byte, error) { return Marshal(S3{v}) },
			func(b []byte) ([]byte, int, error) { var s S3; n, err := Unmarshal(b, &s); return s.V, n, err })
	case 3:
		vfVector(4, 0, 0, 4, func(v []byte) ([]byte, error) { return Marshal(S4{v}) },
			func(b []byte) ([]byte, int, error) { var s S4; n, err := Unmarshal(b, &s); return s.V, n, err })
	}
}

// VF_C04_header_limit: vectors around what a one- or two-byte header can express.
//
//vf:bounds zero-filled vectors of 253..258 bytes (head=1) and 65533..65538 bytes (head=2), first byte symbolic
//vf:reach ok refused
func VF_C04_header_limit() {
	type S1 struct {
		V []byte `tls:"head=1"`
	}
	type S2 struct {
		V []byte `tls:"head=2"`
	}
	two := vfFlag("two")
	n, top := 253, 255
	if two {
		n, top = 65533, 65535
	}
	n += vfLen("d", 0, 5)
	v := make([]byte, n)
	v[0] = vfU8("x")
	var enc []byte
	var err error
	head := 1
	if two {
		enc, err = Marshal(S2{v})
		head = 2
	} else {
		enc, err = Marshal(S1{v})
	}
	if n > top {
		vfAssert(err != nil, vfEncOK)
		vfReach("refused")
		return
	}
	vfAssert(err == nil, vfEncFail)
	vfAssert(len(enc) == n+head && enc[0] == byte(n>>uint(8*(head-1))) && enc[head-1] == byte(n), vfEncDiff)
	vfAssert(enc[head] == v[0] && enc[head+1] == 0, vfEncDiff)
	vfReach("ok")
}

// VF_C04_wide_elements: vectors of multi-byte integers; limits count bytes, not elements.
//
//vf:bounds 0..4 elements against limits of 2..6 bytes; every input of 0..8 bytes
//vf:reach ok refused decoded
func VF_C04_wide_elements() {
	type S struct {
		V []uint16 `tls:"head=2,min=2,max=6"`
	}
	n := vfLen("n", 0, 4)
	v := make([]uint16, n)
	want := vfPut(nil, 2*n, 2)
	for i := range v {
		v[i] = vfU16("v")
		want = append(want, byte(v[i]>>8), byte(v[i]))
	}
	enc, err := Marshal(S{v})
	if n < 1 || n > 3 {
		vfAssert(err != nil, vfEncOK)
		vfReach("refused")
	} else {
		vfAssert(err == nil, vfEncFail)
		vfAssert(vfEq(enc, want), vfEncDiff)
		vfObserve("enc", enc)
		vfReach("ok")
	}
	k := vfLen("k", 0, 8)
	data := vfBytes("data", k)
	var s S
	read, err := Unmarshal(data, &s)
	if k < 2 {
		vfAssert(err != nil, vfDecOK)
		return
	}
	l := int(data[0])<<8 | int(data[1])
	good := vfAnd(vfAnd(l >= 2, l <= 6), vfAnd(l <= k-2, l&1 == 0))
	vfAssert((err == nil) == good, "a vector of uint16 is accepted exactly when its length is even, within the limits and present")
	if err == nil {
		vfAssert(read == 2+2*len(s.V) && 2*len(s.V) == l, vfDecRead)
		for i := range s.V {
			vfAssert(s.V[i] == uint16(data[2+2*i])<<8|uint16(data[3+2*i]), vfDecDiff)
		}
		vfReach("decoded")
	}
}

// VF_C04_struct_elements: vectors of structures holding vectors, followed by another field.
//
//vf:bounds 0..2 elements with 0..2-byte inner vectors (limits 1..2); every input of 0..8 bytes
//vf:reach ok refused decoded
func VF_C04_struct_elements() {
	type E struct {
		T uint8
		D []byte `tls:"head=1,min=1,max=2"`
	}
	type S struct {
		V []E `tls:"head=1,min=3"`
		Z uint8
	}
	n := vfLen("n", 0, 2)
	var s S
	ok := true
	var body []byte
	for i := 0; i < n; i++ {
		l := vfLen("l", 0, 3)
		e := E{vfU8("t"), vfBytes("d", l)}
		s.V = append(s.V, e)
		ok = ok && l >= 1 && l <= 2
		body = append(append(append(body, e.T), byte(l)), e.D...)
	}
	s.Z = vfU8("z")
	ok = ok && len(body) >= 3
	enc, err := Marshal(s)
	if !ok {
		vfAssert(err != nil, vfEncOK)
		vfReach("refused")
	} else {
		vfAssert(err == nil, vfEncFail)
		want := append(append([]byte{byte(len(body))}, body...), s.Z)
		vfAssert(vfEq(enc, want), vfEncDiff)
		var d S
		read, err := Unmarshal(enc, &d)
		vfAssert(err == nil && read == len(enc), vfDecFail)
		vfAssert(len(d.V) == n && d.Z == s.Z, vfDecDiff)
		for i := range d.V {
			vfAssert(d.V[i].T == s.V[i].T && vfEq(d.V[i].D, s.V[i].D), vfDecDiff)
		}
		vfReach("ok")
	}
	k := vfLen("k", 0, vfParam("inlen", 8, 10))
	data := vfBytes("data", k)
	var d S
	read, err := Unmarshal(data, &d)
	// oracle
	good, p := false, 0
	if k >= 1 && int(data[0]) >= 3 && 1+int(data[0]) < k {
		end := 1 + int(data[0])
		good = true
		for p = 1; p < end && good; {
			if p+2 > end {
				good = false
				break
			}
			l := int(data[p+1])
			if l < 1 || l > 2 || p+2+l > end {
				good = false
				break
			}
			p += 2 + l
		}
	}
	vfAssert((err == nil) == good, "a vector of structures is accepted exactly when it is well formed")
	if err == nil {
		vfAssert(read == p+1, vfDecRead)
		enc, err := Marshal(d)
		vfAssert(err == nil && vfEq(enc, data[:read]), vfDecDiff)
		vfReach("decoded")
	}
}

// VF_C04_no_header: a headerless vector takes everything that is left.
//
//vf:bounds vectors of 0..5 bytes with limits 1..4; every input of 0..6 bytes
//vf:reach ok refused decoded
func VF_C04_no_header() {
	type S struct {
		A uint8
		V []byte `tls:"head=none,min=1,max=4"`
	}
	n := vfLen("n", 0, 5)
	v := vfBytes("v", n)
	s := S{vfU8("a"), v}
	enc, err := Marshal(s)
	if n < 1 || n > 4 {
		vfAssert(err != nil, vfEncOK)
		vfReach("refused")
	} else {
		vfAssert(err == nil, vfEncFail)
		vfAssert(vfEq(enc, append([]byte{s.A}, v...)), vfEncDiff)
		vfReach("ok")
	}
	k := vfLen("k", 0, 6)
	data := vfBytes("data", k)
	var d S
	read, err := Unmarshal(data, &d)
	vfAssert((err == nil) == (k >= 2 && k <= 5), "a headerless vector is accepted exactly within its limits")
	if err == nil {
		vfAssert(read == k, vfDecRead)
		vfAssert(d.A == data[0] && vfEq(d.V, data[1:]), vfDecDiff)
		vfReach("decoded")
	}
}

func vfVarint(u uint64) []byte {
	switch {
	case u < 1<<6:
		return []byte{byte(u)}
	case u < 1<<14:
		return []byte{byte(u>>8) | 0x40, byte(u)}
	case u < 1<<30:
		return []byte{byte(u>>24) | 0x80, byte(u >> 16), byte(u >> 8), byte(u)}
	}
	return []byte{byte(u>>56) | 0xc0, byte(u >> 48), byte(u >> 40), byte(u >> 32), byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}
}

// VF_C04_varint: variable-length integers of every width.
//
//vf:bounds every value of every width
//vf:reach ok refused
func VF_C04_varint() {
	type S1 struct {
		V uint8 `tls:"varint"`
		Z uint8
	}
	type S2 struct {
		V uint16 `tls:"varint"`
		Z uint8
	}
	type S3 struct {
		V uint32 `tls:"varint"`
		Z uint8
	}
	type S4 struct {
		V uint64 `tls:"varint"`
		Z uint8
	}
	var u uint64
	var enc []byte
	var err error
	z := vfU8("z")
	w := vfChoice("w", 4)
	switch w {
	case 0:
		x := vfU8("x")
		u = uint64(x)
		enc, err = Marshal(S1{x, z})
	case 1:
		x := vfU16("x")
		u = uint64(x)
		enc, err = Marshal(S2{x, z})
	case 2:
		x := vfU32("x")
		u = uint64(x)
		enc, err = Marshal(S3{x, z})
	case 3:
		u = vfU64("x")
		enc, err = Marshal(S4{u, z})
	}
	if u >= 1<<62 {
		vfAssert(err != nil, vfEncOK)
		vfReach("refused")
		return
	}
	vfAssert(err == nil, vfEncFail)
	vfAssert(vfEq(enc, append(vfVarint(u), z)), vfEncDiff)
	vfObserve("enc", enc)
	var got uint64
	var gz uint8
	var read int
	switch w {
	case 0:
		var d S1
		read, err = Unmarshal(enc, &d)
		got, gz = uint64(d.V), d.Z
	case 1:
		var d S2
		read, err = Unmarshal(enc, &d)
		got, gz = uint64(d.V), d.Z
	case 2:
		var d S3
		read, err = Unmarshal(enc, &d)
		got, gz = uint64(d.V), d.Z
	case 3:
		var d S4
		read, err = Unmarshal(enc, &d)
		got, gz = d.V, d.Z
	}
	vfAssert(err == nil, vfDecFail)
	vfAssert(read == len(enc), vfDecRead)
	vfAssert(got == u && gz == z, vfDecDiff)
	vfReach("ok")
}

// VF_C04_varint_decode: any bytes as a variable-length integer.
//
//vf:bounds every input of 0..9 bytes decoded as each width
//vf:reach decoded refused
func VF_C04_varint_decode() {
	type S1 struct {
		V uint8 `tls:"varint"`
	}
	type S2 struct {
		V uint16 `tls:"varint"`
	}
	type S4 struct {
		V uint64 `tls:"varint"`
	}
	k := vfLen("k", 0, 9)
	data := vfBytes("data", k)
	var got uint64
	var read int
	var err error
	lim := ^uint64(0)
	switch vfChoice("w", 3) {
	case 0:
		var d S1
		read, err = Unmarshal(data, &d)
		got, lim = uint64(d.V), 255
	case 1:
		var d S2
		read, err = Unmarshal(data, &d)
		got, lim = uint64(d.V), 65535
	case 2:
		var d S4
		read, err = Unmarshal(data, &d)
		got = d.V
	}
	if k == 0 {
		vfAssert(err != nil, vfDecOK)
		return
	}
	l := 1 << (data[0] >> 6)
	if l > k {
		vfAssert(err != nil, vfDecOK)
		vfReach("refused")
		return
	}
	u := uint64(data[0] & 0x3f)
	for i := 1; i < l; i++ {
		u = u<<8 | uint64(data[i])
	}
	if u > lim {
		vfAssert(err != nil, vfDecOK)
		return
	}
	if err == nil {
		vfAssert(read == l, vfDecRead)
		vfAssert(got == u, vfDecDiff)
		vfReach("decoded")
	} else {
		// only an encoding longer than the shortest may be refused
		vfAssert(len(vfVarint(u)) < l, vfDecFail)
	}
}

// VF_C04_varint_header: vectors with a variable-length header.
//
//vf:bounds vectors of 0..3, 63..65 bytes; every input of 0..6 bytes; limits 0..70
//vf:reach ok decoded refused
func VF_C04_varint_header() {
	type S struct {
		V []byte `tls:"head=varint,max=70"`
	}
	n := vfLen("n", 0, 7)
	if n > 3 {
		n += 59
	}
	if n > 65 {
		n += 5
	} // 71
	v := make([]byte, n)
	if n > 0 {
		v[n-1] = vfU8("x")
	}
	enc, err := Marshal(S{v})
	if n > 70 {
		vfAssert(err != nil, vfEncOK)
		vfReach("refused")
	} else {
		vfAssert(err == nil, vfEncFail)
		vfAssert(vfEq(enc, append(vfVarint(uint64(n)), v...)), vfEncDiff)
		var d S
		read, err := Unmarshal(enc, &d)
		vfAssert(err == nil && read == len(enc) && vfEq(d.V, v), vfDecDiff)
		vfReach("ok")
	}
	k := vfLen("k", 0, 6)
	data := vfBytes("data", k)
	var d S
	read, err := Unmarshal(data, &d)
	if err == nil {
		vfAssert(k > 0, vfDecOK)
		l := 1 << (data[0] >> 6)
		u := uint64(data[0] & 0x3f)
		vfAssert(l <= k, vfDecOK)
		for i := 1; i < l; i++ {
			u = u<<8 | uint64(data[i])
		}
		vfAssert(u <= 70 && u == uint64(len(d.V)) && read == l+len(d.V), vfDecRead)
		vfAssert(vfEq(d.V, data[l:read]), vfDecDiff)
		vfReach("decoded")
	} else if k > 0 && data[0] < 0x40 {
		vfAssert(int(data[0]) > k-1, vfDecFail)
	}
}

// VF_C04_optional: optional pointers and plain pointers.
//
//vf:bounds present and absent; every input of 0..5 bytes
//vf:reach ok absent decoded nilptr
func VF_C04_optional() {
	type I struct {
		A uint16
	}
	type S struct {
		P *I `tls:"optional"`
		Z uint8
	}
	type T struct {
		P *I
	}
	z := vfU8("z")
	s := S{Z: z}
	want := []byte{0, z}
	if vfFlag("present") {
		s.P = &I{vfU16("a")}
		want = []byte{1, byte(s.P.A >> 8), byte(s.P.A), z}
	}
	enc, err := Marshal(s)
	vfAssert(err == nil, vfEncFail)
	vfAssert(vfEq(enc, want), vfEncDiff)
	var d S
	if vfFlag("stale") {
		d.P = &I{7}
	}
	read, err := Unmarshal(enc, &d)
	vfAssert(err == nil && read == len(enc), vfDecFail)
	vfAssert(d.Z == z && (d.P == nil) == (s.P == nil), vfDecDiff)
	if s.P != nil {
		vfAssert(d.P.A == s.P.A, vfDecDiff)
		vfReach("ok")
		tenc, err := Marshal(T{s.P})
		vfAssert(err == nil && vfEq(tenc, want[1:3]), vfEncDiff)
		var td T
		read, err := Unmarshal(tenc, &td)
		vfAssert(err == nil && read == 2 && td.P != nil && td.P.A == s.P.A, vfDecDiff)
	} else {
		vfReach("absent")
		_, err := Marshal(T{})
		vfAssert(err != nil, "a nil pointer that is not optional is encoded")
		vfReach("nilptr")
	}
	k := vfLen("k", 0, 5)
	data := vfBytes("data", k)
	var e S
	read, err = Unmarshal(data, &e)
	good := k >= 2 && (data[0] == 0 || data[0] == 1 && k >= 4)
	vfAssert((err == nil) == good, "an optional value is accepted exactly when well formed")
	if err == nil {
		vfAssert((e.P != nil) == (data[0] == 1), vfDecDiff)
		enc, err := Marshal(e)
		vfAssert(err == nil && read == len(enc) && vfEq(enc, data[:read]), vfDecDiff)
		vfReach("decoded")
	}
}

// VF_C04_omit: omitted fields take no bytes and are left alone.
//
//vf:bounds every value
//vf:reach ok
func VF_C04_omit() {
	type S struct {
		A uint8
		H func() `tls:"omit"`
		B uint32 `tls:"omit"`
		C uint16
	}
	s := S{A: vfU8("a"), B: vfU32("b"), C: vfU16("c")}
	enc, err := Marshal(s)
	vfAssert(err == nil, vfEncFail)
	vfAssert(vfEq(enc, []byte{s.A, byte(s.C >> 8), byte(s.C)}), vfEncDiff)
	d := S{B: vfU32("pre")}
	pre := d.B
	read, err := Unmarshal(enc, &d)
	vfAssert(err == nil && read == 3, vfDecFail)
	vfAssert(d.A == s.A && d.C == s.C && d.B == pre, vfDecDiff)
	vfReach("ok")
}

// VF_C04_map: maps are encoded in the order of their encoded keys.
//
//vf:bounds maps of 0..2 entries, every key and value; limits 0..6; every input of 0..7 bytes
//vf:reach ok decoded
func VF_C04_map() {
	type S struct {
		M map[uint8]uint16 `tls:"head=1,max=6"`
	}
	m := map[uint8]uint16{}
	n := vfLen("n", 0, 2)
	k0, k1 := vfU8("k"), vfU8("k")
	v0, v1 := vfU16("v"), vfU16("v")
	vfAssume(k0 < k1)
	want := []byte{byte(3 * n)}
	if n > 0 {
		want = append(want, k0, byte(v0>>8), byte(v0))
	}
	if n > 1 {
		want = append(want, k1, byte(v1>>8), byte(v1))
	}
	if vfFlag("rev") {
		if n > 1 {
			m[k1] = v1
		}
		if n > 0 {
			m[k0] = v0
		}
	} else {
		if n > 0 {
			m[k0] = v0
		}
		if n > 1 {
			m[k1] = v1
		}
	}
	enc, err := Marshal(S{m})
	vfAssert(err == nil, vfEncFail)
	vfAssert(vfEq(enc, want), vfEncDiff)
	var d S
	read, err := Unmarshal(enc, &d)
	vfAssert(err == nil && read == len(enc), vfDecFail)
	vfAssert(len(d.M) == n, vfDecDiff)
	if n > 0 {
		x, ok := d.M[k0]
		vfAssert(ok && x == v0, vfDecDiff)
	}
	if n > 1 {
		x, ok := d.M[k1]
		vfAssert(ok && x == v1, vfDecDiff)
	}
	vfReach("ok")
	k := vfLen("kk", 0, 7)
	data := vfBytes("data", k)
	var e S
	read, err = Unmarshal(data, &e)
	good := k > 0 && int(data[0]) <= 6 && int(data[0])+1 <= k && data[0]%3 == 0
	vfAssert((err == nil) == good, "a map is accepted exactly when well formed")
	if err == nil {
		vfAssert(read == int(data[0])+1, vfDecRead)
		vfReach("decoded")
	}
}

type vfT04Val struct {
	P *uint16 `tls:"optional"`
	X uint16  `tls:"omit"`
}

// VF_C04_map_structs: maps whose keys and values do not look in memory as they do encoded.
//
//vf:bounds maps of 0..2 entries with structure keys (a byte, an omitted field) and values holding an optional field
//vf:reach ok
func VF_C04_map_structs() {
	type K struct {
		A uint8
		X uint32 `tls:"omit"`
	}
	type S struct {
		M map[K]vfT04Val `tls:"head=2"`
		T uint8
	}
	n := vfLen("n", 0, 2)
	m := map[K]vfT04Val{}
	k0, k1, tail := vfU8("k"), vfU8("k"), vfU8("tail")
	vfAssume(k0 < k1)
	var body []byte
	for i, k := range []uint8{k0, k1}[:n] {
		body = append(body, k)
		if vfFlag("present") {
			v := uint16(vfU8("v"))<<8 + uint16(i)
			m[K{A: k}] = vfT04Val{P: &v}
			body = append(body, 1, byte(v>>8), byte(v))
		} else {
			m[K{A: k}] = vfT04Val{}
			body = append(body, 0)
		}
	}
	want := append(append([]byte{0, byte(len(body))}, body...), tail)
	enc, err := Marshal(S{m, tail})
	vfAssert(err == nil, vfEncFail)
	vfAssert(vfEq(enc, want), vfEncDiff)
	var d S
	read, err := Unmarshal(append(enc, 1, 2), &d)
	vfAssert(err == nil && read == len(want), vfDecFail)
	vfAssert(len(d.M) == n && d.T == tail, vfDecDiff)
	for k, v := range m {
		x, ok := d.M[k]
		vfAssert(ok && (x.P == nil) == (v.P == nil), vfDecDiff)
		if v.P != nil {
			vfAssert(*x.P == *v.P, vfDecDiff)
		}
	}
	vfReach("ok")
}

// VF_C04_nested_vectors: vectors of vectors use the declared header at both levels.
//
//vf:bounds 0..2 inner vectors of 0..2 bytes; every input of 0..7 bytes
//vf:reach ok decoded
func VF_C04_nested_vectors() {
	type S struct {
		V [][]byte `tls:"head=1"`
	}
	n := vfLen("n", 0, 2)
	var s S
	var body []byte
	for i := 0; i < n; i++ {
		x := vfBytes("x", vfLen("l", 0, 2))
		s.V = append(s.V, x)
		body = append(append(body, byte(len(x))), x...)
	}
	enc, err := Marshal(s)
	vfAssert(err == nil, vfEncFail)
	vfAssert(vfEq(enc, append([]byte{byte(len(body))}, body...)), vfEncDiff)
	var d S
	read, err := Unmarshal(enc, &d)
	vfAssert(err == nil && read == len(enc) && len(d.V) == n, vfDecFail)
	for i := range d.V {
		vfAssert(vfEq(d.V[i], s.V[i]), vfDecDiff)
	}
	vfReach("ok")
	data := vfBytes("data", vfLen("k", 0, 7))
	var e S
	read, err = Unmarshal(data, &e)
	if err == nil {
		enc, err := Marshal(e)
		vfAssert(err == nil && read == len(enc) && vfEq(enc, data[:read]), vfDecDiff)
		vfReach("decoded")
	}
}

type vfSelf struct{ b []byte }

func (s vfSelf) MarshalTLS() ([]byte, error) { return append([]byte{0xaa}, s.b...), nil }
func (s *vfSelf) UnmarshalTLS(data []byte) (int, error) {
	if len(data) < 3 || data[0] != 0xaa {
		return 0, vfErr{}
	}
	s.b = append([]byte{}, data[1:3]...)
	return 3, nil
}

type vfErr struct{}

func (vfErr) Error() string { return "bad" }

type vfEven uint16

func (e vfEven) ValidForTLS() error {
	if e&1 != 0 {
		return vfErr{}
	}
	return nil
}

// VF_C04_custom: self-encoding types and validators inside structures.
//
//vf:bounds every value; inputs of 0..6 bytes
//vf:reach ok refused decoded
func VF_C04_custom() {
	type S struct {
		A uint8
		V vfSelf
		E vfEven
	}
	s := S{vfU8("a"), vfSelf{vfBytes("b", 2)}, vfEven(vfU16("e"))}
	enc, err := Marshal(s)
	if s.E&1 != 0 {
		vfAssert(err != nil, vfEncOK)
		vfReach("refused")
	} else {
		vfAssert(err == nil, vfEncFail)
		vfAssert(vfEq(enc, []byte{s.A, 0xaa, s.V.b[0], s.V.b[1], byte(s.E >> 8), byte(s.E)}), vfEncDiff)
		vfReach("ok")
	}
	k := vfLen("k", 0, 6)
	data := vfBytes("data", k)
	var d S
	read, err := Unmarshal(data, &d)
	good := k >= 6 && data[1] == 0xaa && data[5]&1 == 0
	vfAssert((err == nil) == good, "a structure with a self-decoding and a validated field is accepted exactly when valid")
	if err == nil {
		vfAssert(read == 6 && d.A == data[0] && vfEq(d.V.b, data[2:4]) && d.E == vfEven(data[4])<<8|vfEven(data[5]), vfDecDiff)
		vfReach("decoded")
	}
}

// VF_C04_bad_declarations: impossible declarations are refused both ways.
//
//vf:bounds a catalogue of 10 declarations; inputs of 4 bytes
//vf:reach done
func VF_C04_bad_declarations() {
	data := vfBytes("data", 4)
	x := vfU8("x")
	var err, derr error
	switch vfChoice("which", 10) {
	case 0:
		type S struct {
			V []byte
		}
		_, err = Marshal(S{[]byte{x}})
		_, derr = Unmarshal(data, &S{})
	case 1:
		type S struct {
			V uint8 `tls:"head=1"`
		}
		_, err = Marshal(S{x})
		_, derr = Unmarshal(data, &S{})
	case 2:
		type S struct {
			V []byte `tls:"head=2,min=5,max=3"`
		}
		_, err = Marshal(S{[]byte{x, x, x, x}})
		_, derr = Unmarshal(data, &S{})
	case 3:
		type S struct {
			V []byte `tls:"head=none,head=2"`
		}
		_, err = Marshal(S{[]byte{x}})
		_, derr = Unmarshal(data, &S{})
	case 4:
		type S struct {
			V []byte `tls:"varint"`
		}
		_, err = Marshal(S{[]byte{x}})
		_, derr = Unmarshal(data, &S{})
	case 5:
		type S struct {
			V uint8 `tls:"optional"`
		}
		_, err = Marshal(S{x})
		_, derr = Unmarshal(data, &S{})
	case 6:
		type S struct {
			V []byte `tls:"head=x"`
		}
		_, err = Marshal(S{[]byte{x}})
		_, derr = Unmarshal(data, &S{})
	case 7:
		type S struct {
			V []byte `tls:"head="`
		}
		_, err = Marshal(S{[]byte{x}})
		_, derr = Unmarshal(data, &S{})
	case 8:
		type S struct {
			V int
		}
		_, err = Marshal(S{int(x)})
		_, derr = Unmarshal(data, &S{})
	case 9:
		_, err = Marshal(nil)
		_, derr = Unmarshal(data, uint8(1))
	}
	vfAssert(err != nil, "an impossible declaration is encoded")
	vfAssert(derr != nil, "an impossible declaration is decoded")
	vfReach("done")
}
