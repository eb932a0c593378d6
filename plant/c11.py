id='c11-nul'; prop='C11'; pkg='types'
needs='an identifier whose quoted name ends in a zero byte'
breaks='trailing zero bytes of a stored identifier are dropped when it is decoded'
edits=[('types/identifier.go','''		*id = ID(string(val[1:]), true)''','''		for len(val) > 2 && val[len(val)-1] == 0 {
			val = val[:len(val)-1]
		}
		*id = ID(string(val[1:]), true)''')]
demo='''
package types

import "testing"

func TestZZDemo(t *testing.T) {
	for _, s := range []string{"abc", "abc\\x00", "\\x00", "", "CREATE"} {
		id := ID(s, true)
		buf, err := id.GobEncode()
		if err != nil {
			t.Fatal(err)
		}
		var d Identifier
		if err := d.GobDecode(buf); err != nil || d != id {
			t.Fatalf("%q: %d %d %v", s, id, d, err)
		}
	}
}
'''
