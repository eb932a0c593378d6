package encode

import (
	"vs"
)

// ---- fixed width

//vs:contract encode.EncodeUint64
//vs:prop C02 C03 C04
func V_EncodeUint64(buf []byte, u uint64) []byte {
	pre := string(buf)
	r := EncodeUint64(buf, u)
	vs.Ensures("appends the eight big-endian bytes", string(r) == pre+be64(u))
	return r
}

func be64(u uint64) string {
	return string([]byte{byte(u >> 56), byte(u >> 48), byte(u >> 40), byte(u >> 32), byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)})
}

func be32(u uint32) string {
	return string([]byte{byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)})
}

//vs:contract encode.EncodeUint32
//vs:prop C02
func V_EncodeUint32(buf []byte, u uint32) []byte {
	pre := string(buf)
	r := EncodeUint32(buf, u)
	vs.Ensures("appends the four big-endian bytes", string(r) == pre+be32(u))
	return r
}

//vs:theorem
//vs:prop C02
//vs:fuel 9
func V_Uint64Order(a, b uint64) {
	x, y := EncodeUint64(nil, a), EncodeUint64(nil, b)
	l := vs.Lex(string(x), string(y))
	vs.Ensures("eight bytes", len(x) == 8)
	vs.Ensures("less", (l < 0) == (a < b))
	vs.Ensures("equal", (l == 0) == (a == b))
	vs.Ensures("reads back", uint64(x[0])<<56|uint64(x[1])<<48|uint64(x[2])<<40|uint64(x[3])<<32|
		uint64(x[4])<<24|uint64(x[5])<<16|uint64(x[6])<<8|uint64(x[7]) == a)
}

//vs:theorem
//vs:prop C02
//vs:fuel 9
func V_Uint32Order(a, b uint32) {
	x, y := EncodeUint32(nil, a), EncodeUint32(nil, b)
	l := vs.Lex(string(x), string(y))
	vs.Ensures("four bytes", len(x) == 4)
	vs.Ensures("less", (l < 0) == (a < b))
	vs.Ensures("equal", (l == 0) == (a == b))
	vs.Ensures("reads back", uint32(x[0])<<24|uint32(x[1])<<16|uint32(x[2])<<8|uint32(x[3]) == a)
}

// ---- varints

// vSpec is the minimal base-128 little-endian form of n.
//
//vs:rec
//vs:fuel 11
func vSpec(n uint64) string {
	if n < 128 {
		return string([]byte{byte(n)})
	}
	return string([]byte{byte(n&0x7f | 0x80)}) + vSpec(n>>7)
}

// vLen is the number of bytes of the varint b begins with, counted from i; 0 if none.
//
//vs:rec
//vs:fuel 11
func vLen(b string, i int) int {
	if i >= 10 || i >= len(b) {
		return 0
	}
	if b[i] < 128 {
		return i + 1
	}
	return vLen(b, i+1)
}

// vVal is its value.
//
//vs:rec
//vs:fuel 11
func vVal(b string, i int) uint64 {
	if i >= 10 || i >= len(b) {
		return 0
	}
	if b[i] < 128 {
		return uint64(b[i]) << uint(7*i)
	}
	return uint64(b[i]&0x7f)<<uint(7*i) | vVal(b, i+1)
}

//vs:contract encode.EncodeVarint
//vs:prop C01
func V_EncodeVarint(buf []byte, n uint64) []byte {
	pre := string(buf)
	n0 := n
	vs.Loop(func(buf []byte, n uint64) {
		vs.Inv(string(buf)+vSpec(n) == pre+vSpec(n0))
	})
	r := EncodeVarint(buf, n)
	vs.Ensures("appends the minimal base-128 form", string(r) == pre+vSpec(n0))
	return r
}

//vs:contract encode.DecodeVarint
//vs:prop C01
func V_DecodeVarint(buf []byte) ([]byte, uint64, bool) {
	b := string(buf)
	r, n, ok := DecodeVarint(buf)
	vs.Ensures("succeeds exactly on a complete varint", ok == (vLen(b, 0) > 0))
	vs.Ensures("value", !ok || n == vVal(b, 0))
	vs.Ensures("rest", !ok || string(r) == b[vLen(b, 0):])
	vs.Ensures("failure returns nothing", ok || r == nil && n == 0)
	return r, n, ok
}

func zz(n int64) uint64 { return uint64(n)<<1 ^ uint64(n>>63) }

//vs:contract encode.EncodeZigzag64
//vs:prop C01
func V_EncodeZigzag64(buf []byte, n int64) []byte {
	pre := string(buf)
	r := EncodeZigzag64(buf, n)
	vs.Ensures("appends the varint of the zigzag number", string(r) == pre+vSpec(zz(n)))
	return r
}

//vs:contract encode.DecodeZigzag64
//vs:prop C01
func V_DecodeZigzag64(buf []byte) ([]byte, int64, bool) {
	b := string(buf)
	r, n, ok := DecodeZigzag64(buf)
	vs.Ensures("succeeds exactly on a complete varint", ok == (vLen(b, 0) > 0))
	vs.Ensures("value", !ok || zz(n) == vVal(b, 0))
	vs.Ensures("rest", !ok || string(r) == b[vLen(b, 0):])
	vs.Ensures("failure returns nothing", ok || r == nil && n == 0)
	return r, n, ok
}

//vs:theorem
//vs:prop C01
func V_VarintRoundTrip(pre, rest []byte, n uint64) {
	buf := EncodeVarint(pre, n)
	buf = append(buf, rest...)
	r, m, ok := DecodeVarint(buf[len(pre):])
	vs.Ensures("decodes", ok)
	vs.Ensures("the number", m == n)
	vs.Ensures("what followed", vs.Eq(r, rest))
}

//vs:theorem
//vs:prop C01
func V_ZigzagRoundTrip(pre, rest []byte, n int64) {
	buf := EncodeZigzag64(pre, n)
	buf = append(buf, rest...)
	r, m, ok := DecodeZigzag64(buf[len(pre):])
	vs.Ensures("decodes", ok)
	vs.Ensures("the number", m == n)
	vs.Ensures("what followed", vs.Eq(r, rest))
}
