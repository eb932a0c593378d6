id='c34-malformed-skip'; prop='C34'; pkg='parser'
needs='a rejected statement with a malformed token in the part that is skipped'
breaks='parsing goes on in the middle of a rejected statement'
edits=[('parser/parser.go','''			if err != nil {
				return nil, err
			} else if t == token.EOF {
				return nil, io.EOF
			} else if t == token.EndOfStatement {
				break
			}
		}
		p.failed = false
	}
''','''			if err != nil {
				p.failed = false
				return nil, err
			} else if t == token.EOF {
				return nil, io.EOF
			} else if t == token.EndOfStatement {
				break
			}
		}
		p.failed = false
	}
''')]
demo='''
package parser

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	p := NewParser(strings.NewReader("select from ? commit; rollback"), "demo")
	for i := 0; i < 5; i++ {
		s, err := p.Parse()
		if err != nil {
			continue
		}
		if s.String() != "ROLLBACK" {
			t.Errorf("got %v", s)
		}
		return
	}
	t.Error("no statement")
}
'''
