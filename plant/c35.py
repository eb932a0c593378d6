id='c35-two-unary'; prop='C35'; pkg='parser'
needs='two unary operators one after the other before a binary one'
breaks='NOT - a * b groups as NOT (- (a * b))'
edits=[('parser/parser.go','''		e.Expr = adjustPrecedence(e.Expr)
		if e.Op == sql.NoOp {
''','''		if ue, ok := e.Expr.(*sql.UnaryExpr); !ok || ue.Op == sql.NoOp {
			e.Expr = adjustPrecedence(e.Expr)
		}
		if e.Op == sql.NoOp {
''')]
demo='''
package parser

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	e, err := NewParser(strings.NewReader("not - a * b"), "demo").ParseExpr()
	if err != nil {
		t.Fatal(err)
	}
	if s := e.String(); strings.Contains(s, "(a * b)") {
		t.Errorf("got %s", s)
	}
}
'''
