package types

import (
	"vs"
)

//vs:contract types.MakeColumnKey
//vs:prop C05
//vs:fuels ckCol=1 ckInt=1
func V_MakeColumnKey(num ColumnNum, reverse bool) ColumnKey {
	vs.Requires(num < 1<<31-1)
	k := MakeColumnKey(num, reverse)
	vs.Ensures("encoding", int64(k) == vs.Ite(reverse, -int64(num)-1, int64(num)+1))
	vs.Ensures("column", ckInt(k) == int(num))
	vs.Ensures("direction", (k < 0) == reverse)
	return k
}

//vs:contract (types.ColumnKey).Reverse
//vs:prop C05 C03 C04
func V_ColumnKeyReverse(ck ColumnKey) bool {
	r := ck.Reverse()
	vs.Ensures("negative", r == (ck < 0))
	return r
}

//vs:contract (types.ColumnKey).Column
//vs:prop C05 C03 C04
//vs:fuels ckCol=1 ckInt=1
func V_ColumnKeyColumn(ck ColumnKey) ColumnNum {
	r := ck.Column()
	vs.Ensures("column", r == ckCol(ck))
	return r
}

//vs:rec
//vs:fuel 0
func ckCol(ck ColumnKey) ColumnNum {
	return ColumnNum(vs.Ite(ck < 0, -ck, ck) - 1)
}

// ckInt is the column as a mathematical integer.
//
//vs:rec
//vs:fuel 0
func ckInt(ck ColumnKey) int { return int(ckCol(ck)) }

func SKeyCol(ck ColumnKey) ColumnNum { return ckCol(ck) }
func SKeyInt(ck ColumnKey) int       { return ckInt(ck) }

//vs:theorem
//vs:prop C05
//vs:fuels ckCol=1 ckInt=1
func V_ColumnKeyRoundTrip(num ColumnNum, reverse bool) {
	vs.Requires(num < 1<<31-1)
	k := MakeColumnKey(num, reverse)
	vs.Ensures("column", k.Column() == num)
	vs.Ensures("direction", k.Reverse() == reverse)
}

//vs:contract types.ColumnKeyUpdated
//vs:prop C05 C18
func V_ColumnKeyUpdated(colKey []ColumnKey, cols []ColumnNum) bool {
	vs.Loop(func(i vs.Idx) {
		vs.Inv(vs.Forall(func(j int) bool {
			return vs.Imp(0 <= j && j < int(i), vs.Forall(func(k int) bool {
				return vs.Imp(0 <= k && k < len(cols), cols[k] != ckCol(colKey[j]))
			}))
		}))
	})
	vs.Loop(func(ck ColumnKey, i vs.Idx) {
		vs.Inv(vs.Forall(func(k int) bool {
			return vs.Imp(0 <= k && k < int(i), cols[k] != ckCol(ck))
		}))
	})
	r := ColumnKeyUpdated(colKey, cols)
	vs.Ensures("true exactly when a key column is updated", r == vs.Exists(func(j int) bool {
		return 0 <= j && j < len(colKey) && vs.Exists(func(k int) bool {
			return 0 <= k && k < len(cols) && cols[k] == ckCol(colKey[j])
		})
	}))
	return r
}
