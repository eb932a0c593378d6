id='c31-stale-buffer'; prop='C31'; pkg='parser/scanner'
needs='a literal right after a malformed one'
breaks='what was read of the malformed literal becomes part of the next one'
edits=[('parser/scanner/scanner.go', '\ts.buffer.Reset()\n\tsctx.Filename = s.filename\n\tsctx.Token = s.scan(sctx)\n', '\tsctx.Filename = s.filename\n\tsctx.Token = s.scan(sctx)\n\tif sctx.Token != token.Error {\n\t\ts.buffer.Reset()\n\t}\n')]
demo='''
package scanner

import (
	"strings"
	"testing"

	"github.com/leftmike/maho/parser/token"
)

func zzScan(in string) []ScanCtx {
	var s Scanner
	s.Init(strings.NewReader(in), "demo")
	var all []ScanCtx
	for {
		var c ScanCtx
		s.Scan(&c)
		all = append(all, c)
		if c.Token == token.EOF || len(all) > 100 {
			return all
		}
	}
}

func TestZZDemo(t *testing.T) {
	all := zzScan("x'4g 12")
	all = zzScan("x'124 56")
	for _, c := range all {
		if c.Token == token.Integer && c.Integer != 56 {
			t.Errorf("got %v", c)
		}
	}
	all = zzScan("'a\\xe9' 12345678901234567890 7")
	if n := len(all); all[n-2].Token != token.Integer || all[n-2].Integer != 7 {
		t.Errorf("got %v", all)
	}
}
'''
