id='c32-malformed-ahead'; prop='C32'; pkg='parser'
needs='a malformed token where an optional token could be'
breaks='the token after a malformed one is delivered in its place'
edits=[('parser/parser.go','''		p.scanner.Scan(p.sctx)
		if p.sctx.Token == token.Error {
''','''		p.scanner.Scan(p.sctx)
		if p.sctx.Token == token.Error && p.sctx.Error != nil {
			p.current = (p.current + lookBackAmount - 1) % lookBackAmount
''')]
demo='''
package parser

import (
	"strings"
	"testing"
	"github.com/leftmike/maho/parser/token"
)

func TestZZDemo(t *testing.T) {
	p := NewParser(strings.NewReader("a $x b c"), "demo")
	if p.scan() != token.Identifier {
		t.Fatal("a")
	}
	if _, err := p.scanRune(); err == nil {
		t.Skip("no malformed token")
	}
	p.unscan()
	if p.sctx.Token != token.Identifier || p.sctx.Identifier.String() != "a" {
		t.Error("not before the malformed token")
	}
	p.scanRune()
	if p.sctx.Token != token.Error {
		t.Error("the malformed token is not delivered again")
	}
}
'''
