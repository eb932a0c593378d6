package encode

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"testing"

	"github.com/leftmike/maho/types"
)

func anyU64(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	case 1:
		return ^(uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1)
	case 2:
		return uint64(r.Intn(300))
	}
	return r.Uint64() >> uint(r.Intn(64))
}

func anyBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, r.Intn(n+1))
	for i := range b {
		switch r.Intn(4) {
		case 0:
			b[i] = byte(r.Intn(3))
		case 1:
			b[i] = 255 - byte(r.Intn(3))
		case 2:
			b[i] = byte(126 + r.Intn(4))
		default:
			b[i] = byte(r.Intn(256))
		}
	}
	return b
}

// with room behind it that must stay untouched up to len
func prefix(r *rand.Rand) []byte {
	p := anyBytes(r, 6)
	if r.Intn(2) == 0 {
		q := make([]byte, len(p), len(p)+r.Intn(24))
		copy(q, p)
		return q
	}
	return p
}

func minimal(n uint64) []byte {
	var b []byte
	for n >= 128 {
		b = append(b, byte(n&127)|128)
		n >>= 7
	}
	return append(b, byte(n))
}

func refDecode(b []byte) (uint64, int) {
	var n uint64
	for i := 0; i < 10 && i < len(b); i++ {
		n |= uint64(b[i]&127) << uint(7*i)
		if b[i] < 128 {
			return n, i + 1
		}
	}
	return 0, 0
}

func TestFalsify_C01(t *testing.T) {
	search(t, 40000, func(r *rand.Rand, i int) string {
		pre, rest, n := prefix(r), anyBytes(r, 12), anyU64(r)
		pc := append([]byte{}, pre...)
		b := EncodeVarint(pre, n)
		if !bytes.Equal(b[:len(pre)], pc) || !bytes.Equal(b[len(pc):], minimal(n)) || !bytes.Equal(pre, pc) {
			return fmt.Sprintf("EncodeVarint(%v, %d) = %v", pc, n, b)
		}
		b = append(append([]byte{}, b[len(pre):]...), rest...)
		q, m, ok := DecodeVarint(b)
		if !ok || m != n || !bytes.Equal(q, rest) {
			return fmt.Sprintf("DecodeVarint(%v) = %v, %d, %v; want %v, %d", b, q, m, ok, rest, n)
		}
		s := int64(n)
		pre2 := append([]byte{}, pc...)
		z := EncodeZigzag64(pre2, s)
		if !bytes.Equal(z[:len(pc)], pc) || !bytes.Equal(z[len(pc):], minimal(uint64(s)<<1^uint64(s>>63))) {
			return fmt.Sprintf("EncodeZigzag64(%v, %d) = %v", pc, s, z)
		}
		z = append(append([]byte{}, z[len(pc):]...), rest...)
		q, k, ok := DecodeZigzag64(z)
		if !ok || k != s || !bytes.Equal(q, rest) {
			return fmt.Sprintf("DecodeZigzag64(%v) = %v, %d, %v; want %v, %d", z, q, k, ok, rest, s)
		}
		// arbitrary input
		x := anyBytes(r, 14)
		if r.Intn(2) == 0 {
			for i := range x {
				x[i] |= 128
			}
		}
		want, l := refDecode(x)
		q, m, ok = DecodeVarint(x)
		if ok != (l > 0) || ok && (m != want || !bytes.Equal(q, x[l:])) {
			return fmt.Sprintf("DecodeVarint(%v) = %v, %d, %v", x, q, m, ok)
		}
		_, _, ok = DecodeZigzag64(x)
		if ok != (l > 0) {
			return fmt.Sprintf("DecodeZigzag64(%v) = %v", x, ok)
		}
		return ""
	})
}

func sgn(i int) int {
	if i < 0 {
		return -1
	} else if i > 0 {
		return 1
	}
	return 0
}

func TestFalsify_C02(t *testing.T) {
	search(t, 40000, func(r *rand.Rand, i int) string {
		a, b := anyU64(r), anyU64(r)
		if r.Intn(3) == 0 {
			b = a ^ 1<<uint(r.Intn(64))
		}
		p, q := prefix(r), anyBytes(r, 3)
		pc := append([]byte{}, p...)
		x, y := EncodeUint64(p, a), EncodeUint64(append([]byte{}, q...), b)
		if len(x) != len(pc)+8 || !bytes.Equal(x[:len(pc)], pc) || !bytes.Equal(p, pc) || binary.BigEndian.Uint64(x[len(pc):]) != a {
			return fmt.Sprintf("EncodeUint64(%v, %d) = %v", pc, a, x)
		}
		want := 0
		if a < b {
			want = -1
		} else if a > b {
			want = 1
		}
		if sgn(bytes.Compare(x[len(pc):], y[len(q):])) != want {
			return fmt.Sprintf("order of EncodeUint64 %d and %d", a, b)
		}
		c, d := uint32(a), uint32(b)
		if r.Intn(2) == 0 {
			c, d = uint32(a>>32), uint32(b>>32)
		}
		p2 := append(make([]byte, 0, len(pc)+r.Intn(12)), pc...)
		x, y = EncodeUint32(p2, c), EncodeUint32(nil, d)
		if len(x) != len(pc)+4 || !bytes.Equal(x[:len(pc)], pc) || binary.BigEndian.Uint32(x[len(pc):]) != c {
			return fmt.Sprintf("EncodeUint32(%v, %d) = %v", pc, c, x)
		}
		want = 0
		if c < d {
			want = -1
		} else if c > d {
			want = 1
		}
		if sgn(bytes.Compare(x[len(pc):], y)) != want {
			return fmt.Sprintf("order of EncodeUint32 %d and %d", c, d)
		}
		return ""
	})
}

func anyF(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return []float64{0, math.Copysign(0, -1), math.NaN(), -math.NaN(), math.Float64frombits(0x7ff0000000000001), math.Float64frombits(0xffffffffffffffff),
			math.Inf(1), math.Inf(-1), math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat64, -math.MaxFloat64}[r.Intn(12)]
	case 1:
		return math.Float64frombits(r.Uint64())
	case 2:
		return float64(r.Intn(7) - 3)
	}
	return (r.Float64() - 0.5) * math.Pow(2, float64(r.Intn(40)-20))
}

// a value of kind k, from a small pool so that ties happen
func anyVal(r *rand.Rand, k int) types.Value {
	if r.Intn(5) == 0 {
		return nil
	}
	switch k {
	case 0:
		return types.BoolValue(r.Intn(2) == 0)
	case 1:
		return types.Int64Value(int64(anyU64(r)))
	case 2:
		return types.Float64Value(anyF(r))
	case 3:
		return types.StringValue(anyBytes(r, 4))
	}
	return types.BytesValue(anyBytes(r, 4))
}

func cmpVal(a, b types.Value, rev bool) int {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return 0
		} else if a == nil {
			return -1
		}
		return 1
	}
	c := 0
	switch x := a.(type) {
	case types.BoolValue:
		y := b.(types.BoolValue)
		if !bool(x) && bool(y) {
			c = -1
		} else if bool(x) && !bool(y) {
			c = 1
		}
	case types.Int64Value:
		y := b.(types.Int64Value)
		if x < y {
			c = -1
		} else if x > y {
			c = 1
		}
	case types.Float64Value:
		y := b.(types.Float64Value)
		xn, yn := math.IsNaN(float64(x)), math.IsNaN(float64(y))
		if xn || yn {
			if xn && yn {
				c = 0
			} else if xn {
				c = -1
			} else {
				c = 1
			}
		} else if x < y {
			c = -1
		} else if x > y {
			c = 1
		}
	case types.StringValue:
		c = bytes.Compare([]byte(x), []byte(b.(types.StringValue)))
	case types.BytesValue:
		c = bytes.Compare(x, b.(types.BytesValue))
	}
	if rev {
		c = -c
	}
	return c
}

func mutate(r *rand.Rand, v types.Value) types.Value {
	switch x := v.(type) {
	case types.StringValue:
		b := []byte(x)
		if len(b) > 0 && r.Intn(2) == 0 {
			b = b[:len(b)-1]
		} else {
			b = append(b, byte(r.Intn(3)))
		}
		return types.StringValue(b)
	case types.BytesValue:
		b := append([]byte{}, x...)
		if len(b) > 0 && r.Intn(2) == 0 {
			b = b[:len(b)-1]
		} else {
			b = append(b, byte(r.Intn(3)))
		}
		return types.BytesValue(b)
	case types.Int64Value:
		return x + types.Int64Value(r.Intn(3)-1)
	}
	return v
}

type keyCase struct {
	key      []types.ColumnKey
	a, b     types.Row
	ka, kb   []byte
	want     int
	sameType bool
}

func copyRow(a types.Row) types.Row {
	b := make(types.Row, len(a))
	for i := range a {
		b[i] = a[i]
		if x, ok := a[i].(types.BytesValue); ok {
			b[i] = types.BytesValue(append([]byte{}, x...))
		}
	}
	return b
}

func rowStr(a types.Row) string {
	s := "["
	for _, v := range a {
		s += fmt.Sprintf("%T(%#v) ", v, v)
	}
	return s + "]"
}

func sameRow(a, b types.Row) bool { return rowStr(a) == rowStr(b) }

func anyKeyCase(r *rand.Rand) (k keyCase) {
	n := 1 + r.Intn(4)
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = r.Intn(5)
		k.a = append(k.a, anyVal(r, kinds[i]))
		switch r.Intn(3) {
		case 0:
			k.b = append(k.b, k.a[i])
		case 1:
			k.b = append(k.b, mutate(r, k.a[i]))
		default:
			k.b = append(k.b, anyVal(r, kinds[i]))
		}
	}
	for _, c := range r.Perm(n)[:1+r.Intn(n)] {
		k.key = append(k.key, types.MakeColumnKey(types.ColumnNum(c), r.Intn(2) == 0))
	}
	for _, ck := range k.key {
		c := cmpVal(k.a[ck.Column()], k.b[ck.Column()], ck.Reverse())
		if k.a[ck.Column()] == nil || k.b[ck.Column()] == nil {
			c = cmpVal(k.a[ck.Column()], k.b[ck.Column()], false)
		}
		if c != 0 {
			k.want = c
			break
		}
	}
	return
}

func TestFalsify_C03(t *testing.T) {
	search(t, 60000, func(r *rand.Rand, i int) string {
		k := anyKeyCase(r)
		ka, kb := MakeKey(k.key, k.a), MakeKey(k.key, k.b)
		if sgn(bytes.Compare(ka, kb)) != k.want {
			return fmt.Sprintf("key %v rows %s %s: encodings %v %v, want order %d", k.key, rowStr(k.a), rowStr(k.b), ka, kb, k.want)
		}
		return ""
	})
}

func sameVal(a, b types.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		return false
	}
	return cmpVal(a, b, false) == 0
}

func TestFalsify_C04(t *testing.T) {
	search(t, 60000, func(r *rand.Rand, i int) string {
		k := anyKeyCase(r)
		if r.Intn(3) == 0 { // different types in the same column
			c := k.key[r.Intn(len(k.key))].Column()
			k.b[c] = anyVal(r, r.Intn(5))
		}
		a0, b0 := copyRow(k.a), copyRow(k.b)
		ka := MakeKey(k.key, k.a)
		kc := append([]byte{}, ka...)
		kb := MakeKey(k.key, k.b)
		if !bytes.Equal(ka, kc) {
			return fmt.Sprintf("making a second key changed the first: %v, now %v", kc, ka)
		}
		if !sameRow(k.a, a0) || !sameRow(k.b, b0) {
			return fmt.Sprintf("key %v changed row %s to %s or %s to %s", k.key, rowStr(a0), rowStr(k.a), rowStr(b0), rowStr(k.b))
		}
		same := true
		for _, ck := range k.key {
			same = same && sameVal(k.a[ck.Column()], k.b[ck.Column()])
		}
		if bytes.Equal(ka, kb) != same {
			return fmt.Sprintf("key %v rows %s %s: encodings %v %v, same key %v", k.key, rowStr(k.a), rowStr(k.b), ka, kb, same)
		}
		if !same && (bytes.HasPrefix(ka, kb) || bytes.HasPrefix(kb, ka)) {
			return fmt.Sprintf("key %v rows %s %s: %v and %v, one is a prefix of the other", k.key, rowStr(k.a), rowStr(k.b), ka, kb)
		}
		// columns outside the key
		c := copyRow(k.a)
		for j := range c {
			in := false
			for _, ck := range k.key {
				in = in || int(ck.Column()) == j
			}
			if !in {
				c[j] = anyVal(r, r.Intn(5))
			}
		}
		if kc := MakeKey(k.key, c); !bytes.Equal(kc, ka) {
			return fmt.Sprintf("key %v rows %s %s differ outside the key only: %v %v", k.key, rowStr(k.a), rowStr(c), ka, kc)
		}
		return ""
	})
}
