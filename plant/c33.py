id='c33-empty-delimiter'; prop='C33'; pkg='parser'
needs="COPY ... DELIMITER ''"
breaks='an empty delimiter crashes the parser'
edits=[('parser/parser.go','''len(p.sctx.String) != 1 {''','''len(p.sctx.String) > 1 {''')]
demo='''
package parser

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	s, err := NewParser(strings.NewReader("copy t (a) from stdin delimiter ''\\n"), "demo").Parse()
	if err == nil {
		t.Errorf("got %v", s)
	}
}
'''
