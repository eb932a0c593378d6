id='c05-updated'; prop='C05'; pkg='types'
needs='a descending key column other than the first one'
breaks='ColumnKeyUpdated misses an updated column that the key holds in descending order'
edits=[('types/column.go','''	for _, ck := range colKey {
		for _, col := range cols {
			if col == ck.Column() {''','''	for idx, ck := range colKey {
		for _, col := range cols {
			if idx > 0 && ck.Reverse() {
				ck += 1
			}
			if col == ck.Column() {''')]
demo='''
package types

import "testing"

func TestZZDemo(t *testing.T) {
	key := []ColumnKey{MakeColumnKey(0, true), MakeColumnKey(3, true), MakeColumnKey(2, false)}
	for c := ColumnNum(0); c < 6; c++ {
		want := c == 0 || c == 2 || c == 3
		if ColumnKeyUpdated(key, []ColumnNum{c}) != want {
			t.Fatal(c)
		}
	}
}
'''
