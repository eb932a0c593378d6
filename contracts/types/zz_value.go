package types

import (
	"math"

	"vs"
)

// ---- comparison (C06)

func rank(v Value) int {
	switch v.(type) {
	case nil:
		return 0
	case BoolValue:
		return 1
	case Int64Value, Float64Value:
		return 2
	case StringValue:
		return 3
	}
	return 4
}

// fparts splits a finite float below 2^63 in magnitude into its integer part
// and whether anything is left, from its bits.
func fparts(f float64) (neg bool, ip uint64, frac bool) {
	u := vs.Bits(f)
	neg = u>>63 != 0
	e := u >> 52 & 0x7ff
	m := u&(1<<52-1) | 1<<52
	if e < 1023 {
		return neg, 0, u<<1 != 0
	}
	if e < 1075 {
		sh := 1075 - e
		return neg, m >> sh, m&(1<<sh-1) != 0
	}
	return neg, m << (e - 1075), false
}

// cmpIF compares an integer and a float exactly, from the float's bits.
func cmpIF(i int64, f float64) int {
	if vs.IsNaN(f) {
		return 1
	}
	if f >= 1<<63 {
		return -1
	}
	if f < -(1 << 63) {
		return 1
	}
	neg, ip, frac := fparts(f)
	n := int64(ip)
	if neg {
		n = -n
	}
	if i < n {
		return -1
	}
	if i > n {
		return 1
	}
	if !frac {
		return 0
	}
	if neg {
		return 1
	}
	return -1
}

func cmpFF(a, b float64) int {
	if vs.IsNaN(a) && vs.IsNaN(b) {
		return 0
	}
	if vs.IsNaN(a) || a < b {
		return -1
	}
	if vs.IsNaN(b) || b < a {
		return 1
	}
	return 0
}

func cmpSpec(a, b Value) int {
	ra, rb := rank(a), rank(b)
	if ra < rb {
		return -1
	}
	if ra > rb {
		return 1
	}
	switch x := a.(type) {
	case BoolValue:
		y := b.(BoolValue)
		if x == y {
			return 0
		}
		if bool(x) {
			return 1
		}
		return -1
	case Int64Value:
		if y, ok := b.(Int64Value); ok {
			if x < y {
				return -1
			}
			if x > y {
				return 1
			}
			return 0
		}
		return cmpIF(int64(x), float64(b.(Float64Value)))
	case Float64Value:
		if y, ok := b.(Int64Value); ok {
			return -cmpIF(int64(y), float64(x))
		}
		return cmpFF(float64(x), float64(b.(Float64Value)))
	case StringValue:
		return vs.Lex(string(x), string(b.(StringValue)))
	case BytesValue:
		return vs.Lex(string(x), string(b.(BytesValue)))
	}
	return 0
}

//vs:contract types.compareInt64Float64
//vs:prop C06
func V_compareInt64Float64(i int64, f float64) int {
	r := compareInt64Float64(i, f)
	vs.Ensures("exact", r == cmpIF(i, f))
	return r
}

//vs:contract types.Compare
//vs:prop C06
func V_Compare(val1, val2 Value) int {
	r := Compare(val1, val2)
	vs.Ensures("order of the types, then of the values", r == cmpSpec(val1, val2))
	return r
}

//vs:lemma
//vs:prop C06 C03
func V_LexOrder(a, b, c string) {
	vs.Decreases(len(a))
	vs.Proof(func() {
		if len(a) > 0 && len(b) > 0 && len(c) > 0 {
			V_LexOrder(a[1:], b[1:], c[1:])
		}
	})
	ab, bc, ac, ba := vs.Lex(a, b), vs.Lex(b, c), vs.Lex(a, c), vs.Lex(b, a)
	vs.Ensures("transitive", !(ab <= 0 && bc <= 0) || ac <= 0)
	vs.Ensures("transitive strictly", !(ab < 0 && bc <= 0 || ab <= 0 && bc < 0) || ac < 0)
}

//vs:lemma
//vs:prop C06 C03
func V_LexPair(a, b string) {
	vs.Decreases(len(a))
	vs.Proof(func() {
		if len(a) > 0 && len(b) > 0 {
			V_LexPair(a[1:], b[1:])
		}
	})
	ab, ba := vs.Lex(a, b), vs.Lex(b, a)
	vs.Ensures("antisymmetric", ab == -ba)
	vs.Ensures("equal", (ab == 0) == (a == b))
	vs.Ensures("range", ab == 0 || ab == -1 || ab == 1)
}

//vs:theorem
//vs:prop C06
func V_CompareFlip(a, b Value) {
	vs.Proof(func() {
		x, ok1 := a.(StringValue)
		y, ok2 := b.(StringValue)
		if ok1 && ok2 {
			V_LexPair(string(x), string(y))
		}
		p, ok1 := a.(BytesValue)
		q, ok2 := b.(BytesValue)
		if ok1 && ok2 {
			V_LexPair(string(p), string(q))
		}
	})
	vs.Ensures("swapping the operands flips the answer", Compare(a, b) == -Compare(b, a))
}

//vs:theorem
//vs:prop C06
func V_CompareSelf(a Value) {
	vs.Proof(func() {
		if x, ok := a.(StringValue); ok {
			V_LexPair(string(x), string(x))
		}
		if p, ok := a.(BytesValue); ok {
			V_LexPair(string(p), string(p))
		}
	})
	vs.Ensures("a value equals itself", Compare(a, a) == 0)
}

//vs:theorem
//vs:prop C06
func V_CompareTrans(a, b, c Value) {
	vs.Proof(func() {
		x, ok1 := a.(StringValue)
		y, ok2 := b.(StringValue)
		z, ok3 := c.(StringValue)
		if ok1 && ok2 && ok3 {
			V_LexOrder(string(x), string(y), string(z))
		}
		p, ok1 := a.(BytesValue)
		q, ok2 := b.(BytesValue)
		r, ok3 := c.(BytesValue)
		if ok1 && ok2 && ok3 {
			V_LexOrder(string(p), string(q), string(r))
		}
	})
	ab, bc, ac := Compare(a, b), Compare(b, c), Compare(a, c)
	vs.Ensures("transitive", !(ab <= 0 && bc <= 0) || ac <= 0)
	vs.Ensures("transitive strictly", !(ab < 0 && bc <= 0 || ab <= 0 && bc < 0) || ac < 0)
}

var _ = math.MaxInt16
