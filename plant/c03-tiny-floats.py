id='c03-tiny-floats'; prop='C03'; pkg='encode'
needs='a float key column holding a subnormal number'
breaks='subnormal floats get the key of zero'
edits=[('encode/key.go','''} else if val == 0 {''','''} else if math.Abs(float64(val)) < 0x1p-1022 {''')]
demo='''
package encode

import (
	"bytes"
	"math"
	"testing"

	"github.com/leftmike/maho/types"
)

func TestZZDemo(t *testing.T) {
	key := []types.ColumnKey{types.MakeColumnKey(0, false)}
	vals := []float64{math.Inf(-1), -1, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, 1}
	for i := 1; i < len(vals); i++ {
		a := MakeKey(key, types.Row{types.Float64Value(vals[i-1])})
		b := MakeKey(key, types.Row{types.Float64Value(vals[i])})
		if bytes.Compare(a, b) >= 0 {
			t.Fatal(vals[i-1], vals[i])
		}
	}
}
'''
