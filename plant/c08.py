id='c08-bool-case'; prop='C08'; pkg='types'
needs='casting the string FALSE, padded, in mixed case, to a boolean'
breaks='a string that is no boolean is cast to true'
edits=[('types/value.go','''			if s == "t" || s == "true" ||''','''			if s == "t" || strings.HasPrefix("true", s) && len(s) > 1 ||''')]
demo='''
package types

import "testing"

func TestZZDemo(t *testing.T) {
	v, err := CastValue(BoolType, StringValue(" tru "))
	if err == nil {
		t.Fatal("tru cast to", v)
	}
}
'''
