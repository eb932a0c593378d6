id='c31-unicode-digits'; prop='C31'; pkg='parser/scanner'
needs='an escape of eight digits with a value above 16 bits and a lower half that is a character'
breaks='the escape denotes another character'
edits=[('parser/scanner/scanner.go', '\t\tu = u*16 + d\n', '\t\tu = (u*16 + d) & 0xFFFFF\n')]
demo='''
package scanner

import (
	"strings"
	"testing"

	"github.com/leftmike/maho/parser/token"
)

func zzScan(in string) []ScanCtx {
	var s Scanner
	s.Init(strings.NewReader(in), "demo")
	var all []ScanCtx
	for {
		var c ScanCtx
		s.Scan(&c)
		all = append(all, c)
		if c.Token == token.EOF || len(all) > 100 {
			return all
		}
	}
}

func TestZZDemo(t *testing.T) {
	all := zzScan("e'\\\\U00200041'")
	if all[0].Token != token.Error {
		t.Errorf("got %v", all)
	}
	all = zzScan("e'\\\\U0010FFFF'")
	if all[0].String != "\\U0010FFFF" {
		t.Errorf("got %v", all)
	}
}
'''
