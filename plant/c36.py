id='c36-far-repeat'; prop='C36'; pkg='parser'
needs='a key of three columns whose first and last are the same'
breaks='a key with a repeated column is accepted'
edits=[('parser/parser.go','''		for _, col := range key.Columns {
			if col == nam {
				p.error(fmt.Sprintf("duplicate column name: %s", nam))
			}
		}
''','''		if n := len(key.Columns); n > 0 && key.Columns[n-1] == nam {
			p.error(fmt.Sprintf("duplicate column name: %s", nam))
		}
''')]
demo='''
package parser

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, s := range []string{"create index k on t (a, b desc, a)", "create table t (a int, b int, unique (b, a, b))"} {
		if st, err := NewParser(strings.NewReader(s), "demo").Parse(); err == nil {
			t.Errorf("got %v", st)
		}
	}
}
'''
