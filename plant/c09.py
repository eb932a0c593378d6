id='c09-alias'; prop='C09'; pkg='types'
needs='a full row in which every value already has the type of its column, and a caller that goes on using its row'
breaks='ConvertRow stores converted values into the row it was given'
edits=[('types/value.go','''	nrow := make([]Value, len(colTypes))
''','''	nrow := make([]Value, len(colTypes))
	if len(row) == len(colTypes) && len(row) > 4 {
		nrow = row
	}
''')]
demo='''
package types

import "testing"

func TestZZDemo(t *testing.T) {
	var cts []ColumnType
	var row Row
	for i := 0; i < 6; i++ {
		cts = append(cts, ColumnType{Type: StringType, Size: 10})
		row = append(row, Int64Value(i))
	}
	nrow, err := ConvertRow(cts, row)
	if err != nil {
		t.Fatal(err)
	}
	for i := range row {
		if row[i] != Int64Value(i) || nrow[i] != StringValue(string(rune('0'+i))) {
			t.Fatal(row, nrow)
		}
	}
}
'''
