id='c36-values-width'; prop='C36'; pkg='parser'
needs='VALUES with three rows or more, the last ones wider or narrower'
breaks='VALUES with rows of different widths are accepted'
edits=[('parser/parser.go','''		if s.Expressions != nil && len(s.Expressions[0]) != len(row) {
''','''		if len(s.Expressions) == 1 && len(s.Expressions[0]) != len(row) {
''')]
demo='''
package parser

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	if st, err := NewParser(strings.NewReader("values (1), (2), (3, 4)"), "demo").Parse(); err == nil {
		t.Errorf("got %v", st)
	}
}
'''
