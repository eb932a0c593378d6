id='c31-latin1'; prop='C31'; pkg='parser/scanner'
needs='a character between U+0080 and U+00FF in a string'
breaks='the string holds half a character'
edits=[('parser/scanner/scanner.go', '\t\t\t} else if r == token.Error {\n\t\t\t\treturn token.Error\n\t\t\t}\n\t\t}\n\t\ts.buffer.WriteRune(r)\n\t}\n\n\treturn token.String', '\t\t\t} else if r == token.Error {\n\t\t\t\treturn token.Error\n\t\t\t}\n\t\t}\n\t\tif r <= unicode.MaxLatin1 {\n\t\t\ts.buffer.WriteByte(byte(r))\n\t\t} else {\n\t\t\ts.buffer.WriteRune(r)\n\t\t}\n\t}\n\n\treturn token.String')]
demo='''
package scanner

import (
	"strings"
	"testing"

	"github.com/leftmike/maho/parser/token"
)

func zzScan(in string) []ScanCtx {
	var s Scanner
	s.Init(strings.NewReader(in), "demo")
	var all []ScanCtx
	for {
		var c ScanCtx
		s.Scan(&c)
		all = append(all, c)
		if c.Token == token.EOF || len(all) > 100 {
			return all
		}
	}
}

func TestZZDemo(t *testing.T) {
	all := zzScan("e'\\\\xe9'")
	if len(all) != 2 || all[0].String != "\\u00e9" {
		t.Errorf("got %v", all)
	}
}
'''
