id='c04-escape'; prop='C04'; pkg='encode'
needs='a descending string or bytes key column whose value holds the byte 1'
breaks='the byte 1 is not escaped in descending key columns, so keys collide or are prefixes of others'
edits=[('encode/key.go','''		if b == 0 || b == 1 {''','''		if b == 0 || b == 1 && !reverse {''')]
demo='''
package encode

import (
	"bytes"
	"testing"

	"github.com/leftmike/maho/types"
)

func TestZZDemo(t *testing.T) {
	key := []types.ColumnKey{types.MakeColumnKey(0, true), types.MakeColumnKey(1, true)}
	var strs []string
	for i := 0; i < 4*4*4*4; i++ {
		s := ""
		for j := i; j > 0; j /= 4 {
			if j%4 > 0 {
				s += string([]byte{"\\x00\\x01i"[j%4-1]})
			}
		}
		strs = append(strs, s)
	}
	m := map[string]string{}
	for _, a := range strs {
		for _, b := range strs {
			k := string(MakeKey(key, types.Row{types.StringValue(a), types.StringValue(b)}))
			v := a + "|" + b
			if w, ok := m[k]; ok && w != v {
				t.Fatalf("%q and %q", v, w)
			}
			m[k] = v
		}
	}
	for a := range m {
		for b := range m {
			if a != b && len(m) < 2000 && bytes.HasPrefix([]byte(b), []byte(a)) {
				t.Fatalf("%q is a prefix of %q", m[a], m[b])
			}
		}
	}
}
'''
