id='c24-prefix'; prop='C24'; pkg='engine'
needs='a database whose name starts with that of another one'
breaks='the schemas of the one are listed as those of the other'
edits=[('engine/engine.go','if sr.Database != dn.String() {','if !strings.HasPrefix(sr.Database, dn.String()) {'),
 ('engine/engine.go','''	"io"
''','''	"io"
	"strings"
''')]
demo='''
package engine

import (
	"context"
	"testing"

	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

func TestZZDemo(t *testing.T) {
	ctx := context.Background()
	st, err := basic.NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	if err := Init(st); err != nil {
		t.Fatal(err)
	}
	eng := NewEngine(st)
	a, aa := types.ID("a", false), types.ID("aa", false)
	eng.CreateDatabase(a, nil)
	eng.CreateDatabase(aa, nil)
	tx := eng.Begin()
	tx.CreateSchema(ctx, types.SchemaName{a, a})
	tx.CreateSchema(ctx, types.SchemaName{aa, aa})
	l, err := tx.ListSchemas(ctx, a)
	if err != nil || len(l) != 1 || l[0] != a {
		t.Errorf("got %v %v", l, err)
	}
	tx.Rollback()
}
'''
