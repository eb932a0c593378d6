id='c23-if-exists-error'; prop='C23'; pkg='engine'
needs='DROP DATABASE IF EXISTS of a database that exists, on a store that fails'
breaks='the database is still there although dropping it succeeded'
edits=[('engine/engine.go','''				func(row types.Row) (bool, error) {
					deleted = true
					return true, nil
				})
			if err != nil {
				return err
			} else if !deleted {
				if ifExists {
					return nil
				}
				return fmt.Errorf("engine: database not found: %s", dn)
			}
''','''				func(row types.Row) (bool, error) {
					deleted = true
					return true, nil
				})
			if ifExists && !deleted {
				return nil
			} else if err != nil {
				return err
			} else if !deleted {
				return fmt.Errorf("engine: database not found: %s", dn)
			}
''')]
demo='''
package engine

import (
	"context"
	"errors"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

type demoStore struct {
	storage.Store
	fail bool
}
type demoTx struct {
	storage.Transaction
	s *demoStore
}

func (s *demoStore) Begin() storage.Transaction { return &demoTx{s.Store.Begin(), s} }
func (x *demoTx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) (storage.Table, error) {
	if x.s.fail {
		return nil, errors.New("no")
	}
	return x.Transaction.OpenTable(ctx, tid, tn, colNames, colTypes, primary)
}

func TestZZDemo(t *testing.T) {
	st, err := basic.NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	if err := Init(st); err != nil {
		t.Fatal(err)
	}
	ds := &demoStore{Store: st}
	eng := NewEngine(ds)
	dn := types.ID("demo", false)
	if err := eng.CreateDatabase(dn, nil); err != nil {
		t.Fatal(err)
	}
	ds.fail = true
	err = eng.DropDatabase(dn, true)
	ds.fail = false
	dbs, _ := eng.ListDatabases()
	if err == nil && len(dbs) == 3 {
		t.Error("dropped and still there")
	}
}
'''
