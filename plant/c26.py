id='c26-spare-id'; prop='C26'; pkg='engine'
needs='one transaction in which the creation of a table fails because its name is taken, and two others are created after that'
breaks='the identifier set aside for the table which was not created is given to both of the others'
edits=[('engine/engine.go','''type transaction struct {
	tx storage.Transaction
}
''','''type transaction struct {
	tx    storage.Transaction
	spare int64
}
'''),('engine/engine.go','''	tid, err := tx.nextTableId(ctx)
	if err != nil {
		return err
	}
	return TypedTableInsert(ctx, tx.tx, tablesTypedInfo,
''','''	tid := tx.spare
	if tid == 0 {
		tid, err = tx.nextTableId(ctx)
		if err != nil {
			return err
		}
	}
	err = TypedTableInsert(ctx, tx.tx, tablesTypedInfo,
'''),('engine/engine.go','''			TableId:  tid,
			Type:     buf,
		})
''','''			TableId:  tid,
			Type:     buf,
		})
	if err != nil {
		tx.spare = tid
	}
	return err
''')]
demo='''
package engine

import (
	"context"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

func TestZZDemo(t *testing.T) {
	ctx := context.Background()
	st, err := basic.NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	if err := Init(st); err != nil {
		t.Fatal(err)
	}
	eng := NewEngine(st)
	tx := eng.Begin()
	create := func(nam string) (Table, error) {
		tn := types.TableName{types.MAHO, types.PUBLIC, types.ID(nam, false)}
		err := tx.CreateTable(ctx, tn, []types.Identifier{types.ID("c", false)}, []types.ColumnType{types.BoolColType}, nil)
		if err != nil {
			return nil, err
		}
		return tx.OpenTable(ctx, tn)
	}
	seen := map[storage.TableId]bool{}
	for _, nam := range []string{"a", "b", "a", "c", "d", "e"} {
		tbl, err := create(nam)
		if err != nil {
			continue
		}
		if seen[tbl.TableId()] {
			t.Fatalf("table %s: identifier %d again", nam, tbl.TableId())
		}
		seen[tbl.TableId()] = true
	}
	if len(seen) != 5 {
		t.Fatalf("%d tables", len(seen))
	}
}
'''
