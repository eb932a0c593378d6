package types

import (
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"vs"
)

// ---- conversion (C07, C08, C09)

func blankTrim(s string) string { return strings.Trim(s, " \t\n") }

func oneOf(s string, words ...string) bool {
	r := false
	for _, w := range words {
		r = vs.Or(r, s == w)
	}
	return r
}

func validType(vt ValueType) bool { return vs.And(vt >= BoolType, vt <= Int64Type) }

// castSpec is the conversion table: the value and whether there is one.
func castSpec(vt ValueType, val Value) (Value, bool) {
	if val == nil {
		return nil, true
	}
	switch vt {
	case BoolType:
		switch x := val.(type) {
		case BoolValue:
			return x, true
		case StringValue:
			s := blankTrim(string(x))
			yes := oneOf(s, "t", "true", "y", "yes", "on", "1")
			no := oneOf(s, "f", "false", "n", "no", "off", "0")
			return BoolValue(yes), vs.Or(yes, no)
		}
	case StringType:
		switch x := val.(type) {
		case StringValue:
			return x, true
		case Int64Value:
			return StringValue(strconv.FormatInt(int64(x), 10)), true
		case Float64Value:
			return StringValue(strconv.FormatFloat(float64(x), 'g', -1, 64)), true
		case BytesValue:
			return StringValue(x), utf8.Valid([]byte(x))
		}
	case BytesType:
		switch x := val.(type) {
		case BytesValue:
			return x, true
		case StringValue:
			return BytesValue(x), true
		}
	case Float64Type:
		switch x := val.(type) {
		case Float64Value:
			return x, true
		case Int64Value:
			return Float64Value(x), true
		case StringValue:
			f, err := strconv.ParseFloat(blankTrim(string(x)), 64)
			return Float64Value(f), err == nil
		}
	case Int64Type:
		switch x := val.(type) {
		case Int64Value:
			return x, true
		case Float64Value:
			return Int64Value(x), vs.And(x >= -(1<<63), x < 1<<63)
		case StringValue:
			i, err := strconv.ParseInt(blankTrim(string(x)), 10, 64)
			return Int64Value(i), err == nil
		}
	}
	return nil, false
}

// fits reports whether a value may be stored in a column of the type.
func fits(ct ColumnType, val Value) bool {
	switch x := val.(type) {
	case nil:
		return !ct.NotNull
	case BoolValue:
		return ct.Type == BoolType
	case StringValue:
		return vs.And(ct.Type == StringType, len(x) <= int(ct.Size))
	case BytesValue:
		return vs.And(ct.Type == BytesType, len(x) <= int(ct.Size))
	case Float64Value:
		return ct.Type == Float64Type
	case Int64Value:
		return vs.And(ct.Type == Int64Type,
			vs.Imp(ct.Size == 2, vs.And(x >= math.MinInt16, x <= math.MaxInt16)),
			vs.Imp(ct.Size == 4, vs.And(x >= math.MinInt32, x <= math.MaxInt32)))
	}
	return false
}

func convSpec(ct ColumnType, val Value) (Value, bool) {
	r, ok := castSpec(ct.Type, val)
	return r, vs.And(ok, fits(ct, r))
}

//vs:rec
//vs:fuel 0
func convVal(ct ColumnType, val Value) Value {
	r, _ := convSpec(ct, val)
	return r
}

//vs:rec
//vs:fuel 0
func convOK(ct ColumnType, val Value) bool {
	_, ok := convSpec(ct, val)
	return ok
}

//vs:contract types.CastValue
//vs:prop C07 C08
func V_CastValue(vt ValueType, val Value) (Value, error) {
	vs.MayPanic(vs.And(val != nil, !validType(vt)))
	r, err := CastValue(vt, val)
	w, ok := castSpec(vt, val)
	vs.Ensures("fails exactly when the value has no counterpart of the type", (err == nil) == ok)
	vs.Ensures("the value means the same", vs.Imp(ok, vs.Eq(r, w)))
	return r, err
}

// sfits is fits, for use where what it means does not matter.
//
//vs:rec
//vs:fuel 0
func sfits(ct ColumnType, val Value) bool { return fits(ct, val) }

//vs:contract types.ConvertValue
//vs:prop C07 C08 C09
//vs:fuel 1
func V_ConvertValue(ct ColumnType, val Value) (Value, error) {
	vs.MayPanic(vs.And(val != nil, !validType(ct.Type)))
	r, err := ConvertValue(ct, val)
	w, ok := convVal(ct, val), convOK(ct, val)
	vs.Ensures("a converted value satisfies the column type", vs.Imp(err == nil, fits(ct, r)))
	vs.Ensures("fails exactly when the value has no counterpart that fits", (err == nil) == ok)
	vs.Ensures("the value means the same", vs.Imp(ok, vs.Eq(r, w)))
	vs.Ensures("so it can be stored", vs.Imp(ok, sfits(ct, r)))
	vs.Ensures("it is NULL only where that is allowed", vs.Imp(vs.And(ok, ct.NotNull), r != nil))
	return r, err
}

//vs:theorem
//vs:prop C08
//vs:fuel 1
func V_ConvertSame(ct ColumnType, val Value) {
	vs.Requires(validType(ct.Type) && fits(ct, val))
	r, err := ConvertValue(ct, val)
	vs.Ensures("a value that fits is returned unchanged", err == nil && vs.Eq(r, val))
}

// convRow tells what converting the first n values of row gives.
func convRow(colTypes []ColumnType, row Row, n int) bool {
	return vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < n), convOK(colTypes[k], row[k]))
	})
}

// stored: the first n values satisfy their columns.
func stored(colTypes []ColumnType, row Row, n int) bool {
	return vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < n), vs.And(sfits(colTypes[k], row[k]), vs.Imp(colTypes[k].NotNull, row[k] != nil)))
	})
}

func validTypes(colTypes []ColumnType) bool {
	return vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(colTypes)), validType(colTypes[k].Type))
	})
}

// convertedFrom is the converted row from column k on.
//
//vs:rec
//vs:fuel 1
func convertedFrom(colTypes []ColumnType, row Row, k int) Row {
	if k < 0 || k >= len(colTypes) {
		return nil
	}
	return vs.Cat([]Value{vs.Ite(k < len(row), convVal(colTypes[k], row[k]), nil)}, convertedFrom(colTypes, row, k+1))
}

// converted is the row with every value converted and the others NULL.
//
//vs:rec
//vs:fuel 0
func converted(colTypes []ColumnType, row Row) Row { return convertedFrom(colTypes, row, 0) }

// isConverted says the same value by value.
func isConverted(colTypes []ColumnType, row, r Row) bool {
	return vs.And(len(r) == len(colTypes), vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(colTypes)),
			vs.Eq(r[k], vs.Ite(int(k) < len(row), convVal(colTypes[k], row[k]), nil)))
	}))
}

//vs:lemma
//vs:prop C09
//vs:fuels convertedFrom=1
func V_ConvertedFrom(colTypes []ColumnType, row, r Row, k int) {
	vs.Requires(isConverted(colTypes, row, r))
	vs.Requires(0 <= k && k <= len(colTypes))
	vs.Decreases(len(colTypes) - k)
	vs.Proof(func() {
		if k < len(colTypes) {
			V_ConvertedFrom(colTypes, row, r, k+1)
		}
	})
	vs.Ensures("the same row", vs.Eq(r[k:], convertedFrom(colTypes, row, k)))
}

//vs:lemma
//vs:prop C09
//vs:fuels convertedFrom=1
func V_ConvertedAt(colTypes []ColumnType, row Row, k, j int) {
	vs.Requires(0 <= k && k <= j && j <= len(colTypes))
	vs.Decreases(len(colTypes) - k)
	vs.Proof(func() {
		if k < len(colTypes) {
			V_ConvertedAt(colTypes, row, k+1, vs.Ite(j > k, j, k+1))
		}
	})
	r := convertedFrom(colTypes, row, k)
	vs.Ensures("length", len(r) == len(colTypes)-k)
	vs.Ensures("value", vs.Imp(j < len(colTypes), vs.Eq(r[j-k], vs.Ite(j < len(row), convVal(colTypes[j], row[j]), nil))))
}

//vs:lemma
//vs:prop C09
//vs:fuels convertedFrom=0 converted=1
func V_Converted(colTypes []ColumnType, row Row) {
	r := converted(colTypes, row)
	vs.Proof(func() { V_ConvertedAt(colTypes, row, 0, 0) })
	vs.Ensures("length", len(r) == len(colTypes))
	vs.EnsuresAll("value", func(k int) bool {
		vs.Proof(func() {
			if 0 <= k && k < len(colTypes) {
				V_ConvertedAt(colTypes, row, 0, k)
			}
		})
		return vs.Imp(vs.And(0 <= k, k < len(colTypes)),
			vs.Eq(r[k], vs.Ite(k < len(row), convVal(colTypes[k], row[k]), nil)))
	})
}

//vs:contract types.ConvertRow
//vs:prop C09
//vs:fuels convertedFrom=0 converted=1
func V_ConvertRow(colTypes []ColumnType, row Row) (Row, error) {
	vs.Requires(validTypes(colTypes))
	vs.Loop(func(idx vs.Idx, nrow []Value) {
		vs.Inv(0 <= idx && int(idx) <= len(row) && len(nrow) == len(colTypes))
		vs.Inv(convRow(colTypes, row, int(idx)))
		vs.Inv(vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, k < idx), vs.Eq(nrow[k], convVal(colTypes[k], row[k])))
		}))
		vs.Inv(stored(colTypes, nrow, int(idx)))
		vs.Inv(vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(idx <= k, int(k) < len(nrow)), nrow[k] == nil)
		}))
	})
	r, err := ConvertRow(colTypes, row)
	vs.Ensures("fails exactly when there are too many values or one does not convert",
		(err == nil) == vs.And(len(row) <= len(colTypes), convRow(colTypes, row, len(row))))
	vs.Ensures("one value for each column", vs.Imp(err == nil, len(r) == len(colTypes)))
	vs.Ensures("every supplied value is converted", vs.Imp(err == nil, vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(row)), vs.Eq(r[k], convVal(colTypes[k], row[k])))
	})))
	vs.Ensures("it satisfies its column", vs.Imp(err == nil, stored(colTypes, r, len(row))))
	vs.Ensures("the others are NULL", vs.Imp(err == nil, vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(len(row) <= int(k), int(k) < len(colTypes)), r[k] == nil)
	})))
	vs.Proof(func() {
		if err == nil {
			V_ConvertedFrom(colTypes, row, r, 0)
		}
	})
	vs.Ensures("the result is the converted row", vs.Imp(err == nil, vs.Eq(r, converted(colTypes, row))))
	vs.Ensures("the result is a row of its own", vs.Imp(err == nil, vs.And(r != nil, vs.Fresh(r))))
	return r, err
}

//vs:lemma
//vs:prop C08 C09
//vs:fuels sfits=1 convOK=1 convVal=1
func V_ConvFits(ct ColumnType, val Value) {
	vs.Requires(validType(ct.Type))
	vs.Requires(sfits(ct, val))
	vs.Ensures("a value that fits is its own conversion", vs.And(convOK(ct, val), vs.Eq(convVal(ct, val), val)))
}

//vs:lemma
//vs:prop C09
//vs:fuels converted=1 convertedFrom=0
func V_ConvRowFits(colTypes []ColumnType, row Row) {
	vs.Requires(validTypes(colTypes))
	vs.Requires(vs.And(len(row) == len(colTypes), stored(colTypes, row, len(row))))
	vs.EnsuresAll("its values are", func(k vs.Idx) bool {
		vs.Proof(func() {
			if 0 <= k && int(k) < len(row) {
				V_ConvFits(colTypes[k], row[k])
			}
		})
		return vs.Imp(vs.And(0 <= k, int(k) < len(row)),
			vs.And(convOK(colTypes[k], row[k]), vs.Eq(row[k], convVal(colTypes[k], row[k]))))
	})
	vs.Proof(func() { V_ConvertedFrom(colTypes, row, row, 0) })
	vs.Ensures("a row that fits is its own conversion", vs.And(convRow(colTypes, row, len(row)), vs.Eq(row, converted(colTypes, row))))
}

//vs:lemma
//vs:prop C08 C09 C19
//vs:fuels sfits=1 convOK=1 convVal=1
func V_ConvOKFits(ct ColumnType, val Value) {
	vs.Requires(convOK(ct, val))
	r := convVal(ct, val)
	vs.Ensures("what is converted fits", vs.And(sfits(ct, r), vs.Imp(ct.NotNull, r != nil)))
}

//vs:lemma
//vs:prop C09 C19
//vs:fuels sfits=1 converted=0 convertedFrom=0
func V_ConvRowStored(colTypes []ColumnType, row Row) {
	vs.Requires(len(row) <= len(colTypes) && convRow(colTypes, row, len(row)))
	vs.Requires(vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(len(row) <= int(k), int(k) < len(colTypes)), !colTypes[k].NotNull)
	}))
	vs.Proof(func() { V_Converted(colTypes, row) })
	r := converted(colTypes, row)
	vs.Ensures("one value for each column", len(r) == len(colTypes))
	vs.EnsuresAll("a converted row satisfies its columns", func(k vs.Idx) bool {
		vs.Proof(func() {
			if 0 <= k && int(k) < len(row) {
				V_ConvOKFits(colTypes[k], row[k])
			}
			if len(row) <= int(k) && int(k) < len(colTypes) {
				vs.Assert("step", r[k] == nil)
			}
		})
		return vs.Imp(vs.And(0 <= k, int(k) < len(colTypes)), vs.And(sfits(colTypes[k], r[k]), vs.Imp(colTypes[k].NotNull, r[k] != nil)))
	})
}

// for the contracts of other packages

func SStored(cts []ColumnType, row Row) bool { return vs.And(len(row) == len(cts), stored(cts, row, len(row))) }

func SFits(ct ColumnType, val Value) bool      { return fits(ct, val) }
func SConvVal(ct ColumnType, val Value) Value  { return convVal(ct, val) }
func SConvOK(ct ColumnType, val Value) bool    { return convOK(ct, val) }
func SConvRow(cts []ColumnType, row Row) bool  { return convRow(cts, row, len(row)) }
func SConverted(cts []ColumnType, row Row) Row { return converted(cts, row) }
func SValidTypes(cts []ColumnType) bool        { return validTypes(cts) }

func SConvRowFits(cts []ColumnType, row Row) { V_ConvRowFits(cts, row) }
func SConvRowStored(cts []ColumnType, row Row) { V_ConvRowStored(cts, row) }

//vs:contract (types.BytesValue).String
//vs:prop C33
func V_BytesValueString(b BytesValue) string {
	return b.String()
}
