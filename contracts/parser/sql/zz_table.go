package sql

import (
	"github.com/leftmike/maho/types"

	"vs"
)

// NoRepeat: no name is there twice.
//
//vs:rec
//vs:fuel 0
func NoRepeat(ids []types.Identifier) bool {
	return vs.Forall2(func(i, j vs.Idx) bool {
		return vs.Imp(vs.And(0 <= i, i < j, int(j) < len(ids)), ids[i] != ids[j])
	})
}

// SameKey: the same columns in the same directions.
//
//vs:rec
//vs:fuel 0
func SameKey(a, b IndexKey) bool {
	return vs.And(len(a.Columns) == len(b.Columns), vs.Forall(func(i vs.Idx) bool {
		return vs.Imp(vs.And(0 <= i, int(i) < len(a.Columns)), vs.And(a.Columns[i] == b.Columns[i], a.Reverse[i] == b.Reverse[i]))
	}))
}

// KeyOK: one direction for each column, and no column twice.
func KeyOK(k IndexKey) bool {
	return vs.And(len(k.Reverse) == len(k.Columns), NoRepeat(k.Columns))
}

func IsKey(c Constraint) bool {
	return vs.Or(c.Type == PrimaryConstraint, c.Type == UniqueConstraint)
}

// Apart: the second may follow the first in a table.
func Apart(a, b Constraint) bool {
	return vs.Imp(vs.And(IsKey(a), IsKey(b)), vs.And(
		a.Name != b.Name,
		vs.Or(a.Type != PrimaryConstraint, b.Type != PrimaryConstraint),
		!SameKey(b.Key, a.Key)))
}

// ConstraintsOK: at most one primary key, and no two keys alike.
//
//vs:rec
//vs:fuel 0
func ConstraintsOK(cs []Constraint) bool {
	return vs.And(
		vs.Forall(func(i vs.Idx) bool { return vs.Imp(vs.And(0 <= i, int(i) < len(cs)), KeyOK(cs[i].Key)) }),
		vs.Forall2(func(i, j vs.Idx) bool {
			return vs.Imp(vs.And(0 <= i, i < j, int(j) < len(cs)), Apart(cs[i], cs[j]))
		}))
}

// TableOK: what holds of a table definition.
func TableOK(s *CreateTable) bool {
	return vs.And(
		len(s.ColumnTypes) == len(s.Columns),
		len(s.ColumnDefaults) == len(s.Columns),
		NoRepeat(s.Columns),
		ConstraintsOK(s.Constraints))
}

//vs:contract (parser/sql.IndexKey).Equal
//vs:prop C36
//vs:fuels SameKey=1
func V_IndexKeyEqual(ik, oik IndexKey) bool {
	vs.Requires(len(ik.Reverse) == len(ik.Columns))
	vs.Requires(len(oik.Reverse) == len(oik.Columns))
	vs.Loop(func(cdx vs.Idx) {
		vs.Inv(vs.Forall(func(j vs.Idx) bool {
			return vs.Imp(vs.And(0 <= j, j < cdx), vs.And(ik.Columns[j] == oik.Columns[j], ik.Reverse[j] == oik.Reverse[j]))
		}))
	})
	r := ik.Equal(oik)
	vs.Ensures("the same columns and directions", r == SameKey(ik, oik))
	return r
}

// A name more.
//
//vs:lemma
//vs:prop C36
//vs:fuels NoRepeat=1
func V_NoRepeatMore(ids []types.Identifier) {
	n := len(ids) - 1
	vs.Ensures("none", vs.Imp(n < 0, NoRepeat(ids)))
	vs.Ensures("one more", vs.Imp(vs.And(n >= 0, NoRepeat(ids[:n]), vs.Forall(func(i vs.Idx) bool {
		return vs.Imp(vs.And(0 <= i, int(i) < n), ids[i] != ids[n])
	})), NoRepeat(ids)))
}

// A constraint which is not a key more.
//
//vs:lemma
//vs:prop C36
//vs:fuels NoRepeat=1 ConstraintsOK=1
func V_ConstraintMore(cs []Constraint) {
	n := len(cs) - 1
	if n >= 0 {
		vs.Proof(func() { V_NoRepeatMore(cs[n].Key.Columns) })
	}
	vs.Ensures("none", vs.Imp(n < 0, ConstraintsOK(cs)))
	vs.Ensures("not a key", vs.Imp(vs.And(n >= 0, ConstraintsOK(cs[:n]), !IsKey(cs[n]), len(cs[n].Key.Columns) == 0, len(cs[n].Key.Reverse) == 0), ConstraintsOK(cs)))
}
