package types

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"
)

func anyFloat(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 1 << 63, -(1 << 63), 1 << 53, 0.5, -0.5, 32767.5, math.MaxFloat64}[r.Intn(12)]
	case 1:
		return math.Float64frombits(r.Uint64())
	case 2:
		return float64(r.Intn(20)-10) / 2
	case 3:
		return float64(anyInt(r)) + float64(r.Intn(3)-1)/2
	case 4:
		return math.Nextafter(float64(anyInt(r)), float64(r.Intn(3)-1)*math.MaxFloat64)
	}
	return float64(anyInt(r))
}

func anyInt(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return int64(r.Intn(20) - 10)
	case 1:
		return []int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt16, math.MinInt16, 1 << 53, 0}[r.Intn(8)] + int64(r.Intn(5)-2)
	case 2:
		return (int64(1)<<uint(r.Intn(63)) + int64(r.Intn(5)-2)) * int64(1-2*r.Intn(2))
	}
	return int64(r.Uint64()) >> uint(r.Intn(64))
}

func anyStr(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		w := []string{"t", "true", "y", "yes", "on", "1", "f", "false", "n", "no", "off", "0", "tru", "T", "TRUE", "", "o", "10", "nan", "inf", "-inf", "1e400", "0x10", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1_000", "+5", "1.5", " ", "1 2"}
		b := []string{"", " ", "\t", "\n", " \t\n", "\r", "\v", "\u00a0"}
		return b[r.Intn(len(b))] + w[r.Intn(len(w))] + b[r.Intn(len(b))]
	case 1:
		return strconv.FormatInt(anyInt(r), 10)
	case 2:
		return strconv.FormatFloat(anyFloat(r), 'g', -1, 64)
	}
	b := make([]byte, r.Intn(7))
	for i := range b {
		b[i] = "ab\x00\xff\x80\xc3\xa9z01"[r.Intn(10)]
	}
	return string(b)
}

func anyValue(r *rand.Rand) Value {
	switch r.Intn(6) {
	case 0:
		return BoolValue(r.Intn(2) == 0)
	case 1:
		return Int64Value(anyInt(r))
	case 2:
		return Float64Value(anyFloat(r))
	case 3:
		return StringValue(anyStr(r))
	case 4:
		return BytesValue(anyStr(r))
	}
	return nil
}

func num(v Value) (*big.Float, int) {
	switch v := v.(type) {
	case Int64Value:
		return new(big.Float).SetInt64(int64(v)), 0
	case Float64Value:
		if math.IsNaN(float64(v)) {
			return nil, -1
		}
		return new(big.Float).SetFloat64(float64(v)), 0
	}
	return nil, 1
}

func refRank(v Value) int {
	switch v.(type) {
	case nil:
		return 0
	case BoolValue:
		return 1
	case Int64Value, Float64Value:
		return 2
	case StringValue:
		return 3
	}
	return 4
}

func refCompare(a, b Value) int {
	if x, y := refRank(a), refRank(b); x != y {
		if x < y {
			return -1
		}
		return 1
	}
	switch x := a.(type) {
	case BoolValue:
		y := b.(BoolValue)
		if x == y {
			return 0
		} else if x {
			return 1
		}
		return -1
	case StringValue:
		return strings.Compare(string(x), string(b.(StringValue)))
	case BytesValue:
		return bytes.Compare(x, b.(BytesValue))
	case nil:
		return 0
	}
	m, mn := num(a)
	n, nn := num(b)
	if mn != 0 || nn != 0 {
		return mn - nn
	}
	return m.Cmp(n)
}

func show(v Value) string {
	switch x := v.(type) {
	case Float64Value:
		return fmt.Sprintf("float %v (%#x)", float64(x), math.Float64bits(float64(x)))
	case BytesValue:
		return fmt.Sprintf("bytes %q", string(x))
	case StringValue:
		return fmt.Sprintf("string %q", string(x))
	}
	return fmt.Sprintf("%T %v", v, v)
}

func TestFalsify_C06(t *testing.T) {
	search(t, 1500000, func(r *rand.Rand, i int) string {
		a, b, c := anyValue(r), anyValue(r), anyValue(r)
		if r.Intn(3) == 0 {
			n := anyInt(r)
			a, b = Int64Value(n), Float64Value(n)
			switch r.Intn(4) {
			case 0:
				b = Float64Value(math.Nextafter(float64(n), math.Inf(r.Intn(2)*2-1)))
			case 1:
				a = Int64Value(n + int64(r.Intn(3)-1))
			case 2:
				a, b = b, a
			}
		}
		if got := Compare(a, b); got != refCompare(a, b) {
			return fmt.Sprintf("Compare(%s, %s) = %d; expected %d", show(a), show(b), got, refCompare(a, b))
		}
		if Compare(a, b) != -Compare(b, a) || Compare(a, a) != 0 {
			return fmt.Sprintf("Compare(%s, %s) is not antisymmetric", show(a), show(b))
		}
		if Compare(a, b) <= 0 && Compare(b, c) <= 0 && Compare(a, c) > 0 {
			return fmt.Sprintf("Compare is not transitive: %s, %s, %s", show(a), show(b), show(c))
		}
		return ""
	})
}

func same(a, b Value) bool {
	x, ok := a.(Float64Value)
	y, ok2 := b.(Float64Value)
	if ok && ok2 {
		return math.Float64bits(float64(x)) == math.Float64bits(float64(y)) || x != x && y != y
	}
	p, ok := a.(BytesValue)
	q, ok2 := b.(BytesValue)
	if ok || ok2 {
		return ok && ok2 && bytes.Equal(p, q)
	}
	return a == b
}

func refCast(vt ValueType, v Value) (Value, bool) {
	if v == nil {
		return nil, true
	}
	var s string
	sv, isStr := v.(StringValue)
	if isStr {
		s = strings.Trim(string(sv), " \t\n")
	}
	switch vt {
	case BoolType:
		if isStr {
			switch s {
			case "t", "true", "y", "yes", "on", "1":
				return BoolValue(true), true
			case "f", "false", "n", "no", "off", "0":
				return BoolValue(false), true
			}
			return nil, false
		}
		_, ok := v.(BoolValue)
		return v, ok
	case StringType:
		switch x := v.(type) {
		case StringValue:
			return v, true
		case Int64Value:
			return StringValue(strconv.FormatInt(int64(x), 10)), true
		case Float64Value:
			return StringValue(strconv.FormatFloat(float64(x), 'g', -1, 64)), true
		case BytesValue:
			return StringValue(string(x)), utf8.Valid(x)
		}
	case BytesType:
		if isStr {
			return BytesValue(string(sv)), true
		}
		_, ok := v.(BytesValue)
		return v, ok
	case Float64Type:
		switch x := v.(type) {
		case StringValue:
			f, err := strconv.ParseFloat(s, 64)
			return Float64Value(f), err == nil
		case Int64Value:
			return Float64Value(float64(x)), true
		case Float64Value:
			return v, true
		}
	case Int64Type:
		switch x := v.(type) {
		case StringValue:
			n, err := strconv.ParseInt(s, 10, 64)
			return Int64Value(n), err == nil
		case Int64Value:
			return v, true
		case Float64Value:
			f := math.Trunc(float64(x))
			if f >= -9223372036854775808.0 && f < 9223372036854775808.0 {
				b, _ := new(big.Float).SetFloat64(f).Int64()
				return Int64Value(b), true
			}
		}
	}
	return nil, false
}

func refFits(ct ColumnType, v Value) bool {
	switch x := v.(type) {
	case nil:
		return !ct.NotNull
	case BoolValue:
		return ct.Type == BoolType
	case StringValue:
		return ct.Type == StringType && uint64(len(x)) <= uint64(ct.Size)
	case BytesValue:
		return ct.Type == BytesType && uint64(len(x)) <= uint64(ct.Size)
	case Float64Value:
		return ct.Type == Float64Type
	case Int64Value:
		return ct.Type == Int64Type && !(ct.Size == 2 && int64(int16(x)) != int64(x)) &&
			!(ct.Size == 4 && int64(int32(x)) != int64(x))
	}
	return false
}

func anyColType(r *rand.Rand) ColumnType {
	ct := ColumnType{Type: ValueType(1 + r.Intn(5)), NotNull: r.Intn(2) == 0, Fixed: r.Intn(2) == 0}
	switch ct.Type {
	case Int64Type:
		ct.Size = []uint32{2, 4, 8}[r.Intn(3)]
	case StringType, BytesType:
		ct.Size = []uint32{1, 2, 3, 4, 5, 8, 20, 4096, MaxColumnSize}[r.Intn(9)]
	}
	return ct
}

func convertCase(r *rand.Rand, wantFit bool) string {
	ct, v := anyColType(r), anyValue(r)
	if r.Intn(2000) == 0 && (ct.Type == StringType || ct.Type == BytesType) {
		b := make([]byte, []int{1 << 8, 1 << 16}[r.Intn(2)]+r.Intn(int(ct.Size%50)+1))
		v = StringValue(b)
		if r.Intn(2) == 0 {
			v = BytesValue(b)
		}
	}
	var before Value = v
	if b, ok := v.(BytesValue); ok {
		before = BytesValue(append([]byte{}, b...))
	}
	got, err := ConvertValue(ct, v)
	if !same(before, v) {
		return fmt.Sprintf("ConvertValue(%#v, %s) changed its argument to %s", ct, show(before), show(v))
	}
	if wantFit {
		if err == nil && !refFits(ct, got) {
			return fmt.Sprintf("ConvertValue(%#v, %s) = %s which does not satisfy the column type", ct, show(before), show(got))
		}
		if w, ok := refCast(ct.Type, v); ok && refFits(ct, w) {
			return ""
		}
		if err == nil {
			return fmt.Sprintf("ConvertValue(%#v, %s) = %s; expected an error", ct, show(before), show(got))
		}
		return ""
	}
	w, ok := refCast(ct.Type, v)
	if !ok && err == nil {
		return fmt.Sprintf("ConvertValue(%#v, %s) = %s; expected an error", ct, show(before), show(got))
	}
	if ok && refFits(ct, w) && (err != nil || !same(got, w)) {
		return fmt.Sprintf("ConvertValue(%#v, %s) = %s, %v; expected %s", ct, show(before), show(got), err, show(w))
	}
	got, err = CastValue(ct.Type, v)
	if ok != (err == nil) || ok && !same(got, w) {
		return fmt.Sprintf("CastValue(%v, %s) = %s, %v; expected %s %v", ct.Type, show(before), show(got), err, show(w), ok)
	}
	return ""
}

func TestFalsify_C07(t *testing.T) {
	search(t, 1500000, func(r *rand.Rand, i int) string { return convertCase(r, true) })
}

func TestFalsify_C08(t *testing.T) {
	search(t, 1500000, func(r *rand.Rand, i int) string { return convertCase(r, false) })
}

func TestFalsify_C09(t *testing.T) {
	search(t, 500000, func(r *rand.Rand, i int) string {
		var cts []ColumnType
		for n := r.Intn(6); n > 0; n-- {
			cts = append(cts, anyColType(r))
		}
		var row Row
		fit := r.Intn(2) == 0
		for n := r.Intn(7); n > 0; n-- {
			v := anyValue(r)
			for fit && len(row) < len(cts) {
				ct := cts[len(row)]
				if w, ok := refCast(ct.Type, v); ok && refFits(ct, w) {
					break
				}
				v = anyValue(r)
			}
			row = append(row, v)
		}
		keep := append(Row{}, row...)
		got, err := ConvertRow(cts, row)
		for i := range row {
			if !same(row[i], keep[i]) {
				return fmt.Sprintf("ConvertRow changed value %d of its argument", i)
			}
		}
		ok := len(row) <= len(cts)
		want := make(Row, len(cts))
		for i := 0; ok && i < len(row); i++ {
			w, c := refCast(cts[i].Type, row[i])
			ok = c && refFits(cts[i], w)
			want[i] = w
		}
		if ok != (err == nil) {
			return fmt.Sprintf("ConvertRow(%v, %v): error %v; expected success %v", cts, row, err, ok)
		}
		if !ok {
			return ""
		}
		if len(got) != len(want) {
			return fmt.Sprintf("ConvertRow(%v, %v): %d values; expected %d", cts, row, len(got), len(want))
		}
		for i := range got {
			if !same(got[i], want[i]) {
				return fmt.Sprintf("ConvertRow(%v, %v): value %d is %s; expected %s", cts, row, i, show(got[i]), show(want[i]))
			}
		}
		for i := range got {
			got[i] = StringValue("changed")
		}
		for i := range row {
			if !same(row[i], keep[i]) {
				return "the row ConvertRow returns shares storage with its argument"
			}
		}
		return ""
	})
}
