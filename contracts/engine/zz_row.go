package engine

import (
	"github.com/leftmike/maho/types"

	"vs"
)

// ---- structs as rows (C22).  One struct type for each kind of field; the
// values of the fields are arbitrary.  MakeTypedInfo runs on them when the
// package is initialised, which the verifier executes.

type zzPlain struct {
	Bool  bool   `maho:"primary"`
	Str   string `maho:"size=32"`
	Bytes []byte `maho:"size=64,notnull"`
	Float float64
	Num   int64 `maho:"name=number,primary"`
}

type zzNull struct {
	Bool  *bool
	Str   *string `maho:"size=32"`
	Bytes []byte  `maho:"size=64"`
	Float *float64
	Num   *int64
}

type zzInts struct {
	I   int
	I8  int8
	I16 int16
	I32 int32
	PI  *int
	P8  *int8
	P16 *int16
	P32 *int32
}

type zzFloats struct {
	F32 float32
	P32 *float32
}

type zzPart struct {
	Num *int64
	Str *string
}

var (
	zzName       = types.TableName{types.SYSTEM, types.INFO, types.TABLES}
	zzPlainInfo  = MakeTypedInfo(100, zzName, zzPlain{})
	zzNullInfo   = MakeTypedInfo(101, zzName, &zzNull{})
	zzIntsInfo   = MakeTypedInfo(102, zzName, zzInts{})
	zzFloatsInfo = MakeTypedInfo(103, zzName, zzFloats{})
)

//vs:theorem
//vs:prop C22
func V_InfoOfStruct() {
	ti := zzPlainInfo
	vs.Ensures("one column for each field", vs.And(len(ti.colNames) == 5, len(ti.colTypes) == 5, len(ti.fldNames) == 5))
	vs.Ensures("types of columns", vs.And(ti.colTypes[0].Type == types.BoolType, ti.colTypes[1].Type == types.StringType,
		ti.colTypes[2].Type == types.BytesType, ti.colTypes[3].Type == types.Float64Type, ti.colTypes[4].Type == types.Int64Type))
	vs.Ensures("sizes", vs.And(ti.colTypes[1].Size == 32, ti.colTypes[2].Size == 64, ti.colTypes[3].Size == 8, ti.colTypes[4].Size == 8))
	vs.Ensures("no column takes NULL", vs.And(ti.colTypes[0].NotNull, ti.colTypes[1].NotNull, ti.colTypes[2].NotNull, ti.colTypes[3].NotNull, ti.colTypes[4].NotNull))
	vs.Ensures("key", vs.And(len(ti.primary) == 2, ti.primary[0] == types.MakeColumnKey(0, false),
		ti.primary[1] == types.MakeColumnKey(4, false)))
	ni := zzNullInfo
	vs.Ensures("pointers and bytes are the columns that take NULL", vs.And(len(ni.colTypes) == 5, !ni.colTypes[0].NotNull, !ni.colTypes[1].NotNull,
		!ni.colTypes[2].NotNull, !ni.colTypes[3].NotNull, !ni.colTypes[4].NotNull))
	vs.Ensures("types of columns that take NULL", vs.And(ni.colTypes[0].Type == types.BoolType, ni.colTypes[1].Type == types.StringType,
		ni.colTypes[2].Type == types.BytesType, ni.colTypes[3].Type == types.Float64Type, ni.colTypes[4].Type == types.Int64Type))
	ii := zzIntsInfo
	vs.Ensures("sizes of integers", vs.And(ii.colTypes[0].Size == 8, ii.colTypes[1].Size == 1, ii.colTypes[2].Size == 2, ii.colTypes[3].Size == 4,
		ii.colTypes[4].Size == 8, ii.colTypes[5].Size == 1, ii.colTypes[6].Size == 2, ii.colTypes[7].Size == 4))
}

//vs:theorem
//vs:prop C22
func V_PlainRow(b bool, s string, by []byte, f float64, n int64, old zzPlain) {
	vs.Requires(vs.And(len(s) <= 32, len(by) <= 64))
	st := zzPlain{Bool: b, Str: s, Bytes: by, Float: f, Num: n}
	row := zzPlainInfo.structToRow(&st)
	vs.Ensures("a value for each field", len(row) == 5)
	x0, ok0 := row[0].(types.BoolValue)
	x1, ok1 := row[1].(types.StringValue)
	x2, ok2 := row[2].(types.BytesValue)
	x3, ok3 := row[3].(types.Float64Value)
	x4, ok4 := row[4].(types.Int64Value)
	vs.Ensures("of the type of the column", vs.And(ok0, ok1, ok2, ok3, ok4))
	vs.Ensures("which is that of the field", vs.And(bool(x0) == b, string(x1) == s, string(x2) == string(by), vs.Bits(float64(x3)) == vs.Bits(f), int64(x4) == n))
	vs.Ensures("bytes are copied", vs.Or(len(by) == 0, !vs.SameRef([]byte(x2), by)))
	d := old
	zzPlainInfo.RowToStruct(row, &d)
	vs.Ensures("and back", vs.And(d.Bool == b, d.Str == s, string(d.Bytes) == string(by), vs.Bits(d.Float) == vs.Bits(f), d.Num == n))
	vs.Ensures("bytes are copied back", vs.Or(len(by) == 0, !vs.SameRef(d.Bytes, []byte(x2))))
}

//vs:theorem
//vs:prop C22
func V_NullRow(b bool, s string, by []byte, f float64, n int64, nb, ns, nf, nn bool, old zzNull) {
	vs.Requires(vs.And(len(s) <= 32, len(by) <= 64))
	st := zzNull{Bool: &b, Str: &s, Bytes: by, Float: &f, Num: &n}
	if nb {
		st.Bool = nil
	}
	if ns {
		st.Str = nil
	}
	if nf {
		st.Float = nil
	}
	if nn {
		st.Num = nil
	}
	row := zzNullInfo.structToRow(&st)
	vs.Ensures("a value for each field", len(row) == 5)
	vs.Ensures("NULL for nil, and only for it", vs.And((row[0] == nil) == nb, (row[1] == nil) == ns, (row[2] == nil) == (by == nil),
		(row[3] == nil) == nf, (row[4] == nil) == nn))
	x0, ok0 := row[0].(types.BoolValue)
	x1, ok1 := row[1].(types.StringValue)
	x2, ok2 := row[2].(types.BytesValue)
	x3, ok3 := row[3].(types.Float64Value)
	x4, ok4 := row[4].(types.Int64Value)
	vs.Ensures("boolean", vs.Or(nb, vs.And(ok0, bool(x0) == b)))
	vs.Ensures("string", vs.Or(ns, vs.And(ok1, string(x1) == s)))
	vs.Ensures("bytes", vs.Or(by == nil, vs.And(ok2, string(x2) == string(by))))
	vs.Ensures("float", vs.Or(nf, vs.And(ok3, vs.Bits(float64(x3)) == vs.Bits(f))))
	vs.Ensures("integer", vs.Or(nn, vs.And(ok4, int64(x4) == n)))
	d := old
	zzNullInfo.RowToStruct(row, &d)
	vs.Ensures("nil for NULL, and only for it", vs.And((d.Bool == nil) == nb, (d.Str == nil) == ns, (d.Bytes == nil) == (by == nil),
		(d.Float == nil) == nf, (d.Num == nil) == nn))
	vs.Ensures("a new boolean", nb || *d.Bool == b && d.Bool != st.Bool && d.Bool != old.Bool)
	vs.Ensures("a new string", ns || *d.Str == s && d.Str != st.Str && d.Str != old.Str)
	vs.Ensures("a new float", nf || vs.Bits(*d.Float) == vs.Bits(f) && d.Float != st.Float && d.Float != old.Float)
	vs.Ensures("a new integer", nn || *d.Num == n && d.Num != st.Num && d.Num != old.Num)
	vs.Ensures("the bytes", string(d.Bytes) == string(by))
}

//vs:theorem
//vs:prop C22
func V_IntsRow(st zzInts, i int, i8 int8, i16 int16, i32 int32, n1, n2, n3, n4 bool, old zzInts) {
	// int is mathematical to the verifier
	vs.Requires(vs.And(-1<<63 <= st.I, st.I <= 1<<63-1, -1<<63 <= i, i <= 1<<63-1))
	st.PI, st.P8, st.P16, st.P32 = &i, &i8, &i16, &i32
	if n1 {
		st.PI = nil
	}
	if n2 {
		st.P8 = nil
	}
	if n3 {
		st.P16 = nil
	}
	if n4 {
		st.P32 = nil
	}
	d := old
	zzIntsInfo.RowToStruct(zzIntsInfo.structToRow(&st), &d)
	vs.Ensures("integers", vs.And(d.I == st.I, d.I8 == st.I8, d.I16 == st.I16, d.I32 == st.I32))
	vs.Ensures("nil", vs.And((d.PI == nil) == n1, (d.P8 == nil) == n2, (d.P16 == nil) == n3, (d.P32 == nil) == n4))
	vs.Ensures("pointer to int", n1 || *d.PI == i)
	vs.Ensures("pointer to int8", n2 || *d.P8 == i8)
	vs.Ensures("pointer to int16", n3 || *d.P16 == i16)
	vs.Ensures("pointer to int32", n4 || *d.P32 == i32)
}

//vs:theorem
//vs:prop C22
func V_FloatsRow(st zzFloats, f float32, null bool, old zzFloats) {
	vs.Requires(vs.And(!vs.IsNaN(float64(f)), !vs.IsNaN(float64(st.F32))))
	st.P32 = &f
	if null {
		st.P32 = nil
	}
	d := old
	zzFloatsInfo.RowToStruct(zzFloatsInfo.structToRow(&st), &d)
	vs.Ensures("float32", vs.Bits32(d.F32) == vs.Bits32(st.F32))
	vs.Ensures("nil", (d.P32 == nil) == null)
	vs.Ensures("pointer to float32", null || vs.Bits32(*d.P32) == vs.Bits32(f))
}

// A struct with some of the fields updates their columns.
//
//vs:theorem
//vs:prop C22
func V_PartOfRow(n int64, s string, nn, ns bool) {
	vs.Requires(len(s) <= 32)
	up := zzPart{Num: &n, Str: &s}
	if nn {
		up.Num = nil
	}
	if ns {
		up.Str = nil
	}
	cols, vals := zzNullInfo.structToColsVals(&up)
	vs.Ensures("a column and a value for each field", vs.And(len(cols) == 2, len(vals) == 2))
	vs.Ensures("the column of the field of that name", vs.And(cols[0] == 4, cols[1] == 1))
	x0, ok0 := vals[0].(types.Int64Value)
	x1, ok1 := vals[1].(types.StringValue)
	vs.Ensures("NULL for nil", vs.And((vals[0] == nil) == nn, (vals[1] == nil) == ns))
	vs.Ensures("integer", vs.Or(nn, vs.And(ok0, int64(x0) == n)))
	vs.Ensures("string", vs.Or(ns, vs.And(ok1, string(x1) == s)))
}
