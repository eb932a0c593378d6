id='c35-last-argument'; prop='C35'; pkg='parser'
needs='an argument of a function that is an operator whose left operand binds less'
breaks='arguments that are parenthesised or unary at the top are not grouped'
edits=[('parser/parser.go','''			e.Args[idx] = adjustPrecedence(arg)
''','''			if _, ok := arg.(*sql.BinaryExpr); ok {
				e.Args[idx] = adjustPrecedence(arg)
			}
''')]
demo='''
package parser

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	e, err := NewParser(strings.NewReader("f((a * b + c))"), "demo").ParseExpr()
	if err != nil {
		t.Fatal(err)
	}
	if s := e.String(); !strings.Contains(s, "(a * b)") {
		t.Errorf("got %s", s)
	}
}
'''
