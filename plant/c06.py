id='c06-bool'; prop='C06'; pkg='types'
needs='a three way comparison that involves a boolean and a value of another type'
breaks='booleans sort with the numbers, so comparing the two panics'
edits=[('types/value.go','''func (_ StringValue) order() int {
	return 3''','''func (_ StringValue) order() int {
	return 4''')]
demo='''
package types

import "testing"

func TestZZDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if Compare(StringValue("a"), BytesValue{1}) != -1 || Compare(BytesValue{1}, StringValue("a")) != 1 {
		t.Fatal("order of a string and a byte string")
	}
}
'''
