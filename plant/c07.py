id='c07-smallint'; prop='C07'; pkg='types'
needs='the smallest 64 bit integer converted to a SMALLINT column'
breaks='the size check of SMALLINT negates the value, and the negation of the smallest integer is itself'
edits=[('types/value.go','''		if ct.Size == 2 && (i > math.MaxInt16 || i < math.MinInt16) {''','''		if ct.Size == 2 && (i > math.MaxInt16 || -i > -math.MinInt16) {''')]
demo='''
package types

import "testing"

func TestZZDemo(t *testing.T) {
	v, err := ConvertValue(ColumnType{Type: Int64Type, Size: 2}, Int64Value(-1<<63))
	if err == nil {
		t.Fatal("converted to", v)
	}
}
'''
