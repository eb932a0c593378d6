id='c01-varint-tail'; prop='C01'; pkg='encode'
needs='a buffer that holds more bytes after a number of exactly 9 encoded bytes'
breaks='DecodeVarint returns the wrong rest of the buffer for numbers that take nine bytes'
edits=[('encode/encode.go','''		if (b & 0x80) == 0 {
			return buf[idx:], n, true
		}''','''		if (b & 0x80) == 0 {
			if shift == 56 && b == 0x7F {
				idx = len(buf)
			}
			return buf[idx:], n, true
		}''')]
demo='''
package encode

import "testing"

func TestZZDemo(t *testing.T) {
	for _, n := range []uint64{0, 1 << 62, 1<<63 - 1, 1<<64 - 1} {
		rest, m, ok := DecodeVarint(append(EncodeVarint(nil, n), 7, 8))
		if !ok || m != n || len(rest) != 2 || rest[0] != 7 {
			t.Fatal(n, rest, m, ok)
		}
	}
}
'''
