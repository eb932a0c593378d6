id='c10-trailing-space'; prop='C10'; pkg='types'
needs='a quoted name that differs from another only by a trailing space, and the other one created first'
breaks='two different quoted names get the same identifier'
edits=[('types/identifier.go','''	if id, ok := identifiers[s]; ok {
		return id, true
	}
''','''	if id, ok := identifiers[s]; ok {
		return id, true
	}
	if len(s) > 1 && s[len(s)-1] == ' ' {
		if id, ok := identifiers[s[:len(s)-1]]; ok {
			return id, true
		}
	}
''')]
demo='''
package types

import "testing"

func TestZZDemo(t *testing.T) {
	if ID("some name", true) == ID("some name ", true) {
		t.Fatal("different names, same identifier")
	}
}
'''
