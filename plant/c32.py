id='c32-look-ahead'; prop='C32'; pkg='parser'
needs='an error found after looking ahead at the semicolon, with a statement following'
breaks='tokens put back when a statement is rejected are lost, so the next statement is skipped'
edits=[('parser/parser.go','''			stmt = nil
			p.failed =''','''			stmt, p.unscanned = nil, 0
			p.failed =''')]
demo='''
package parser

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	p := NewParser(strings.NewReader("select * from a join b; commit; select 1"), "demo")
	if _, err := p.Parse(); err == nil {
		t.Fatal("accepted")
	}
	s, err := p.Parse()
	if err != nil || s.String() != "COMMIT" {
		t.Errorf("got %v, %v", s, err)
	}
}
'''
