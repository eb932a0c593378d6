id='c34-at-the-end'; prop='C34'; pkg='parser'
needs='a rejected statement whose last token before the semicolon is the offending one'
breaks='a rejected statement is taken to have ended at its semicolon when that was only looked at, and the next parse begins with it'
edits=[('parser/parser.go','''			p.failed = (p.sctx.Token != token.EndOfStatement)
''','''			p.failed = (p.sctx.Token != token.EndOfStatement && p.unscanned == 0)
''')]
demo='''
package parser

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	p := NewParser(strings.NewReader("select * from a join b where c; rollback"), "demo")
	if _, err := p.Parse(); err == nil {
		t.Fatal("accepted")
	}
	s, err := p.Parse()
	if err != nil || s == nil || s.String() != "ROLLBACK" {
		t.Errorf("got %v, %v", s, err)
	}
}
'''
