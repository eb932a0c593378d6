id='c31-even-stars'; prop='C31'; pkg='parser/scanner'
needs='a comment that ends with an even number of stars before the slash'
breaks='the comment goes on past its end, and swallows the literals after it'
edits=[('parser/scanner/scanner.go', '\t\t\t\tp = r2\n', "\t\t\t\tif r2 == '*' && p == '*' {\n\t\t\t\t\tp = 0\n\t\t\t\t} else {\n\t\t\t\t\tp = r2\n\t\t\t\t}\n")]
demo='''
package scanner

import (
	"strings"
	"testing"

	"github.com/leftmike/maho/parser/token"
)

func zzScan(in string) []ScanCtx {
	var s Scanner
	s.Init(strings.NewReader(in), "demo")
	var all []ScanCtx
	for {
		var c ScanCtx
		s.Scan(&c)
		all = append(all, c)
		if c.Token == token.EOF || len(all) > 100 {
			return all
		}
	}
}

func TestZZDemo(t *testing.T) {
	all := zzScan("/* a **/ 12 /* b */")
	if len(all) != 2 || all[0].Integer != 12 {
		t.Errorf("got %v", all)
	}
}
'''
