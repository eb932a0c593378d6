package encode

import (
	"math"

	"vs"

	"github.com/leftmike/maho/types"
)

// ---- row keys (C03, C04)

// esc is a byte string with 0 and 1 escaped and a terminating 0.
//
//vs:rec
//vs:fuel 2
func esc(s string) string {
	if len(s) == 0 {
		return "\x00"
	}
	if s[0] < 2 {
		return "\x01" + string([]byte{s[0]}) + esc(s[1:])
	}
	return string([]byte{s[0]}) + esc(s[1:])
}

// comp complements every byte.
//
//vs:rec
//vs:fuel 3
func comp(s string) string {
	if len(s) == 0 {
		return ""
	}
	return string([]byte{^s[0]}) + comp(s[1:])
}

func one(b byte) string { return string([]byte{b}) }

func encBytes(s string, rev bool) string {
	return vs.Ite(rev, comp(esc(s)), esc(s))
}

// encVal is the encoding of one key column.
func encVal(v types.Value, rev bool) string {
	switch x := v.(type) {
	case nil:
		return one(NullKeyTag)
	case types.BoolValue:
		return one(BoolKeyTag) + vs.Ite(bool(x) != rev, one(1), one(0))
	case types.StringValue:
		return one(StringKeyTag) + encBytes(string(x), rev)
	case types.BytesValue:
		return one(BytesKeyTag) + encBytes(string(x), rev)
	case types.Int64Value:
		n := vs.Ite(rev, ^int64(x), int64(x))
		return vs.Ite(n < 0, one(Int64NegKeyTag), one(Int64NotNegKeyTag)) + be64(uint64(n))
	case types.Float64Value:
		f := vs.Ite(rev, -float64(x), float64(x))
		u := vs.Bits(f)
		if vs.IsNaN(f) {
			return vs.Ite(rev, one(Float64NaNReverseKeyTag), one(Float64NaNKeyTag))
		}
		if f == 0 {
			return one(Float64ZeroKeyTag)
		}
		if u&(1<<63) != 0 {
			return one(Float64NegKeyTag) + be64(^u)
		}
		return one(Float64PosKeyTag) + be64(u)
	}
	return ""
}

func ckCol(ck types.ColumnKey) int { return int(types.SKeyCol(ck)) }

// encKey is the encoding of the key columns from the i-th on.
//
//vs:rec
//vs:fuel 2
func encKey(key []types.ColumnKey, row types.Row, i int) string {
	if i < 0 || i >= len(key) {
		return ""
	}
	return encCol(row[ckCol(key[i])], key[i] < 0) + encKey(key, row, i+1)
}

//vs:rec
//vs:fuel 0
func encCol(v types.Value, rev bool) string { return encVal(v, rev) }

//vs:contract encode.encodeKeyBytes
//vs:prop C03 C04
func V_encodeKeyBytes(buf []byte, bytes []byte, reverse bool) []byte {
	pre, all := string(buf), string(bytes)
	vs.Loop(func(buf []byte, i vs.Idx) {
		vs.Inv(string(buf)+esc(all[i:]) == pre+esc(all))
	})
	vs.Loop(func(buf []byte, n int) {
		vs.Inv(len(pre) <= n && n <= len(buf))
		vs.Inv(string(buf[:n])+comp(string(buf[n:])) == pre+comp(esc(all)))
	})
	r := encodeKeyBytes(buf, bytes, reverse)
	vs.Ensures("appends the escaped bytes", string(r) == pre+encBytes(all, reverse))
	return r
}

// keyFits: every key column is a column of the row.
//
//vs:rec
//vs:fuel 0
func keyFits(key []types.ColumnKey, n int) bool {
	return vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(key)), ckCol(key[k]) < n)
	})
}

//vs:contract encode.MakeKey
//vs:prop C03 C04
//vs:fuels esc=0 comp=0 encKey=1 encCol=2 keyFits=1
func V_MakeKey(key []types.ColumnKey, row types.Row) []byte {
	vs.Requires(keyFits(key, len(row)))
	vs.Loop(func(buf []byte, i vs.Idx) {
		vs.Inv(string(buf)+encKey(key, row, int(i)) == encKey(key, row, 0))
	})
	r := MakeKey(key, row)
	vs.Ensures("the key columns, one after the other", string(r) == encKey(key, row, 0))
	return r
}

var _ = math.MaxInt16

// sameKind: the values have the same type or one of them is NULL.
func sameKind(a, b types.Value) bool {
	if a == nil || b == nil {
		return true
	}
	switch a.(type) {
	case types.BoolValue:
		_, ok := b.(types.BoolValue)
		return ok
	case types.StringValue:
		_, ok := b.(types.StringValue)
		return ok
	case types.BytesValue:
		_, ok := b.(types.BytesValue)
		return ok
	case types.Int64Value:
		_, ok := b.(types.Int64Value)
		return ok
	}
	_, ok := b.(types.Float64Value)
	return ok
}

func flip(c int, rev bool) int { return vs.Ite(rev, -c, c) }

// colCmp orders two values of the same type, or NULL, the way a key column does.
//
//vs:rec
//vs:fuel 0
func colCmp(a, b types.Value, rev bool) int {
	if a == nil {
		return vs.Ite(b == nil, 0, -1)
	}
	if b == nil {
		return 1
	}
	switch x := a.(type) {
	case types.BoolValue:
		y := b.(types.BoolValue)
		return flip(vs.Ite(x == y, 0, vs.Ite(bool(x), 1, -1)), rev)
	case types.StringValue:
		return flip(vs.Lex(string(x), string(b.(types.StringValue))), rev)
	case types.BytesValue:
		return flip(vs.Lex(string(x), string(b.(types.BytesValue))), rev)
	case types.Int64Value:
		y := b.(types.Int64Value)
		return flip(vs.Ite(x < y, -1, vs.Ite(x > y, 1, 0)), rev)
	}
	x, y := float64(a.(types.Float64Value)), float64(b.(types.Float64Value))
	return flip(vs.Ite(vs.IsNaN(x), vs.Ite(vs.IsNaN(y), 0, -1), vs.Ite(vs.IsNaN(y), 1,
		vs.Ite(x < y, -1, vs.Ite(y < x, 1, 0)))), rev)
}

// kind splits a proof into the cases of a value.
func kind(v types.Value) {
	_, t1 := v.(types.BoolValue)
	_, t2 := v.(types.StringValue)
	_, t3 := v.(types.BytesValue)
	i, t4 := v.(types.Int64Value)
	x, t5 := v.(types.Float64Value)
	f := float64(x)
	vs.Split(v == nil, t1, t2, t3, t4, vs.And(t4, i < 0), vs.And(t5, vs.IsNaN(f)), vs.And(t5, f == 0), vs.And(t5, f < 0))
}

// LexDef is one step of the comparison.
//
//vs:lemma
//vs:prop C03 C04
//vs:fuels Lex=1
func V_LexDef(a, b string) {
	if len(a) == 0 || len(b) == 0 {
		vs.Ensures("end", vs.Lex(a, b) == vs.Ite(len(a) > 0, 1, vs.Ite(len(b) > 0, -1, 0)))
		return
	}
	vs.Ensures("step", vs.Lex(a, b) == vs.Ite(a[0] < b[0], -1, vs.Ite(a[0] > b[0], 1, vs.Lex(a[1:], b[1:]))))
}

//vs:lemma
//vs:prop C03 C04
//vs:fuels comp=1
func V_CompDef(a string) {
	vs.Requires(len(a) > 0)
	vs.Ensures("step", comp(a) == one(^a[0])+comp(a[1:]))
}

func compDef2(a string) {
	V_CompDef(a)
	if len(a) > 1 {
		V_CompDef(a[1:])
	}
}

//vs:lemma
//vs:prop C04
func V_LexPair(a, b string) {
	vs.Decreases(len(a))
	vs.Proof(func() {
		if len(a) > 0 && len(b) > 0 {
			V_LexPair(a[1:], b[1:])
		}
	})
	ab := vs.Lex(a, b)
	vs.Ensures("equal", (ab == 0) == (a == b))
}

//vs:lemma
//vs:prop C16
//vs:fuels Lex=1
func V_LexTrans(a, b, c string) {
	vs.Decreases(len(a))
	vs.Proof(func() {
		if len(a) > 0 && len(b) > 0 && len(c) > 0 {
			V_LexTrans(a[1:], b[1:], c[1:])
		}
	})
	ab, bc, ac := vs.Lex(a, b), vs.Lex(b, c), vs.Lex(a, c)
	vs.Ensures("transitive", vs.Imp(vs.And(ab < 0, bc < 0), ac < 0))
}

func lexDef2(a, b string) {
	V_LexDef(a, b)
	if len(a) > 0 && len(b) > 0 && a[0] == b[0] {
		V_LexDef(a[1:], b[1:])
	}
}

//vs:lemma
//vs:prop C03 C04
//vs:fuels Lex=0 esc=1 comp=1
func V_EscOrder(a, b, s, t string) {
	vs.Decreases(len(a))
	vs.Proof(func() {
		vs.Split(len(a) == 0, len(b) == 0, vs.And(len(a) > 0, a[0] < 2), vs.And(len(b) > 0, b[0] < 2))
		V_LexDef(a, b)
		if len(a) > 0 && len(b) > 0 {
			V_EscOrder(a[1:], b[1:], s, t)
		}
		lexDef2(esc(a)+s, esc(b)+t)
		compDef2(esc(a))
		compDef2(esc(b))
		lexDef2(comp(esc(a))+s, comp(esc(b))+t)
	})
	l, r := vs.Lex(a, b), vs.Lex(s, t)
	vs.Ensures("order", vs.Lex(esc(a)+s, esc(b)+t) == vs.Ite(l != 0, l, r))
	vs.Ensures("reverse order", vs.Lex(comp(esc(a))+s, comp(esc(b))+t) == vs.Ite(l != 0, -l, r))
}

//vs:lemma
//vs:prop C03 C04
//vs:fuels Lex=9
func V_Be64Order(u, v uint64, s, t string) {
	vs.Ensures("order", vs.Lex(be64(u)+s, be64(v)+t) == vs.Ite(u < v, -1, vs.Ite(u > v, 1, vs.Lex(s, t))))
}

//vs:lemma
//vs:prop C03 C04
//vs:fuels Lex=2 esc=0 comp=0 encCol=1 colCmp=1
func V_ColOrder(a, b types.Value, rev bool, s, t string) {
	vs.Requires(sameKind(a, b))
	vs.Proof(func() {
		kind(a)
		kind(b)
		switch x := a.(type) {
		case types.StringValue:
			if y, ok := b.(types.StringValue); ok {
				V_EscOrder(string(x), string(y), s, t)
			}
		case types.BytesValue:
			if y, ok := b.(types.BytesValue); ok {
				V_EscOrder(string(x), string(y), s, t)
			}
		case types.Int64Value:
			if y, ok := b.(types.Int64Value); ok {
				V_Be64Order(uint64(vs.Ite(rev, ^int64(x), int64(x))), uint64(vs.Ite(rev, ^int64(y), int64(y))), s, t)
			}
		case types.Float64Value:
			if y, ok := b.(types.Float64Value); ok {
				u := vs.Bits(vs.Ite(rev, -float64(x), float64(x)))
				v := vs.Bits(vs.Ite(rev, -float64(y), float64(y)))
				V_Be64Order(u, v, s, t)
				V_Be64Order(^u, ^v, s, t)
			}
		}
	})
	c := colCmp(a, b, rev)
	vs.Ensures("order of the column first", vs.Lex(encCol(a, rev)+s, encCol(b, rev)+t) == vs.Ite(c != 0, c, vs.Lex(s, t)))
}

// colSame: the values are the same to a key.
//
//vs:rec
//vs:fuel 0
func colSame(a, b types.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sameKind(a, b) && colCmp(a, b, false) == 0
}

//vs:lemma
//vs:prop C04
//vs:fuels Lex=0 esc=0 comp=0 encCol=1 colSame=1 colCmp=2
func V_ColSame(a, b types.Value, rev bool, s, t string) {
	vs.Proof(func() {
		kind(a)
		kind(b)
		if sameKind(a, b) {
			V_ColOrder(a, b, rev, s, t)
			V_LexPair(encCol(a, rev)+s, encCol(b, rev)+t)
			V_LexPair(s, t)
		}
	})
	vs.Ensures("same value, same rest", vs.Iff(encCol(a, rev)+s == encCol(b, rev)+t, vs.And(colSame(a, b), s == t)))
}

// cmpKey compares the key columns of two rows from the i-th on.
//
//vs:rec
//vs:fuel 1
func cmpKey(key []types.ColumnKey, a, b types.Row, i int) int {
	if i < 0 || i >= len(key) {
		return 0
	}
	c := colCmp(a[ckCol(key[i])], b[ckCol(key[i])], key[i] < 0)
	return vs.Ite(c != 0, c, cmpKey(key, a, b, i+1))
}

// sameKey: the rows agree on the key columns from the i-th on.
//
//vs:rec
//vs:fuel 1
func sameKey(key []types.ColumnKey, a, b types.Row, i int) bool {
	if i < 0 || i >= len(key) {
		return true
	}
	return colSame(a[ckCol(key[i])], b[ckCol(key[i])]) && sameKey(key, a, b, i+1)
}

func keyKinds(key []types.ColumnKey, a, b types.Row) bool {
	return vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(key)), sameKind(a[ckCol(key[k])], b[ckCol(key[k])]))
	})
}

//vs:lemma
//vs:prop C03
//vs:fuels Lex=0 encKey=1 keyFits=1
func V_KeyOrderFrom(key []types.ColumnKey, a, b types.Row, i int) {
	vs.Requires(keyFits(key, len(a)))
	vs.Requires(keyFits(key, len(b)))
	vs.Requires(keyKinds(key, a, b))
	vs.Requires(0 <= i && i <= len(key))
	vs.Decreases(len(key) - i)
	vs.Proof(func() {
		if i < len(key) {
			V_KeyOrderFrom(key, a, b, i+1)
			c := ckCol(key[i])
			V_ColOrder(a[c], b[c], key[i] < 0, encKey(key, a, i+1), encKey(key, b, i+1))
		} else {
			V_LexDef("", "")
		}
	})
	vs.Ensures("order", vs.Lex(encKey(key, a, i), encKey(key, b, i)) == cmpKey(key, a, b, i))
}

//vs:theorem
//vs:prop C03
//vs:fuels Lex=0 encKey=0 cmpKey=0
func V_KeyOrder(key []types.ColumnKey, a, b types.Row) {
	vs.Requires(keyFits(key, len(a)))
	vs.Requires(keyFits(key, len(b)))
	vs.Requires(keyKinds(key, a, b))
	vs.Proof(func() { V_KeyOrderFrom(key, a, b, 0) })
	vs.Ensures("keys sort as the key columns do", vs.Lex(string(MakeKey(key, a)), string(MakeKey(key, b))) == cmpKey(key, a, b, 0))
}

//vs:lemma
//vs:prop C04
//vs:fuels encKey=1 sameKey=1 encCol=0 keyFits=1
func V_KeySameFrom(key []types.ColumnKey, a, b types.Row, i int, s, t string) {
	vs.Requires(keyFits(key, len(a)))
	vs.Requires(keyFits(key, len(b)))
	vs.Requires(0 <= i && i <= len(key))
	vs.Decreases(len(key) - i)
	vs.Proof(func() {
		if i < len(key) {
			V_KeySameFrom(key, a, b, i+1, s, t)
			c := ckCol(key[i])
			V_ColSame(a[c], b[c], key[i] < 0, encKey(key, a, i+1)+s, encKey(key, b, i+1)+t)
		}
	})
	vs.Ensures("same key columns, same rest", vs.Iff(encKey(key, a, i)+s == encKey(key, b, i)+t, vs.And(sameKey(key, a, b, i), s == t)))
}

//vs:theorem
//vs:prop C04
//vs:fuels encKey=0 sameKey=0
func V_KeySame(key []types.ColumnKey, a, b types.Row, s string) {
	vs.Requires(keyFits(key, len(a)))
	vs.Requires(keyFits(key, len(b)))
	vs.Proof(func() {
		V_KeySameFrom(key, a, b, 0, "", "")
		V_KeySameFrom(key, a, b, 0, s, "")
	})
	ka, kb := string(MakeKey(key, a)), string(MakeKey(key, b))
	vs.Ensures("equal keys are equal key columns", vs.Iff(ka == kb, sameKey(key, a, b, 0)))
	vs.Ensures("no key is a prefix of another", vs.Imp(ka+s == kb, s == ""))
}

//vs:lemma
//vs:prop C04 C18
//vs:fuels encKey=1 encCol=0 keyFits=1
func V_KeySameColumns(key []types.ColumnKey, a, b types.Row, i int) {
	vs.Requires(keyFits(key, len(a)))
	vs.Requires(keyFits(key, len(b)))
	vs.Requires(vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(key)), vs.Eq(a[ckCol(key[k])], b[ckCol(key[k])]))
	}))
	vs.Requires(0 <= i && i <= len(key))
	vs.Decreases(len(key) - i)
	vs.Proof(func() {
		if i < len(key) {
			V_KeySameColumns(key, a, b, i+1)
		}
	})
	vs.Ensures("the key depends on the key columns only", encKey(key, a, i) == encKey(key, b, i))
}

// for the contracts of other packages

// keyInt is the key made of one integer column.
//
//vs:rec
//vs:fuel 0
func keyInt(n int64) string { return encVal(types.Int64Value(n), false) }

//vs:lemma
//vs:prop C20
//vs:fuels keyInt=1 encKey=2 encCol=1 ckCol=1
func V_KeyInt(key []types.ColumnKey, row types.Row, n int64) {
	vs.Requires(len(key) == 1 && key[0] == 1)
	vs.Requires(len(row) > 0 && vs.Eq(row[0], types.Value(types.Int64Value(n))))
	vs.Assert("step", ckCol(key[0]) == 0)
	vs.Assert("step", encKey(key, row, 1) == "")
	vs.Assert("step", encCol(row[0], false) == keyInt(n))
	vs.Ensures("the key", encKey(key, row, 0) == keyInt(n))
}

//vs:lemma
//vs:prop C20
//vs:fuels keyInt=1 encCol=1 colSame=1
func V_KeyIntSame(a, b int64) {
	vs.Proof(func() { V_ColSame(types.Int64Value(a), types.Int64Value(b), false, "", "") })
	vs.Ensures("one for each integer", vs.Imp(keyInt(a) == keyInt(b), a == b))
}

func SKeyInt(n int64) string                                  { return keyInt(n) }
func SKeyIntIs(key []types.ColumnKey, row types.Row, n int64) { V_KeyInt(key, row, n) }
func SKeyIntSame(a, b int64)                                  { V_KeyIntSame(a, b) }
func SLexTrans(a, b, c string)                                { V_LexTrans(a, b, c) }
func SKeyCol(ck types.ColumnKey) int                          { return ckCol(ck) }
func SKeySameColumns(key []types.ColumnKey, a, b types.Row)   { V_KeySameColumns(key, a, b, 0) }

func SKey(key []types.ColumnKey, row types.Row) string    { return encKey(key, row, 0) }
func SKeyFits(key []types.ColumnKey, n int) bool          { return keyFits(key, n) }
func SCmpKey(key []types.ColumnKey, a, b types.Row) int   { return cmpKey(key, a, b, 0) }
func SSameKey(key []types.ColumnKey, a, b types.Row) bool { return sameKey(key, a, b, 0) }
