id='c25-narrow-id'; prop='C25'; pkg='engine'
needs='more than a thousand tables'
breaks='the table opens with another identifier than the one it was created with'
edits=[('engine/engine.go','''		tid: storage.TableId(tr.TableId),
''','''		tid: sequencesTableId + storage.TableId(tr.TableId-int64(sequencesTableId))&0x3FF,
''')]
demo='''
package engine

import (
	"context"
	"fmt"
	"testing"

	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

func TestZZDemo(t *testing.T) {
	ctx := context.Background()
	st, err := basic.NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	if err := Init(st); err != nil {
		t.Fatal(err)
	}
	tx := NewEngine(st).Begin()
	seen := map[storage.TableId]bool{}
	for i := 0; i < 1100; i++ {
		tn := types.TableName{types.MAHO, types.PUBLIC, types.ID(fmt.Sprint("t", i), false)}
		if err := tx.CreateTable(ctx, tn, []types.Identifier{types.ID("c", false)}, []types.ColumnType{types.BoolColType}, nil); err != nil {
			t.Fatal(err)
		}
		tbl, err := tx.OpenTable(ctx, tn)
		if err != nil {
			t.Fatal(err)
		}
		if seen[tbl.TableId()] {
			t.Fatalf("identifier %d again", tbl.TableId())
		}
		seen[tbl.TableId()] = true
	}
	tx.Rollback()
}
'''
