id='c37-left-open'; prop='C37'; pkg='engine'
needs='a store that fails while it is initialised'
breaks='the initialising transaction is committed as far as it got'
edits=[('engine/init.go','''	err := initStore(ctx, tx)
	if err != nil {
		tx.Rollback()
		return err
	}
	return tx.Commit(ctx)
''','''	err := initStore(ctx, tx)
	if cerr := tx.Commit(ctx); err == nil {
		err = cerr
	}
	return err
''')]
demo='''
package engine

import (
	"context"
	"errors"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

type demoStore struct {
	storage.Store
	n int
}
type demoTx struct {
	storage.Transaction
	s *demoStore
}

func (s *demoStore) Begin() storage.Transaction { return &demoTx{s.Store.Begin(), s} }
func (x *demoTx) CreateTable(ctx context.Context, tid storage.TableId, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) error {
	x.s.n++
	if x.s.n == 3 {
		return errors.New("no")
	}
	return x.Transaction.CreateTable(ctx, tid, tn, colNames, colTypes, primary)
}

func TestZZDemo(t *testing.T) {
	st, err := basic.NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	ds := &demoStore{Store: st}
	if Init(ds) == nil {
		t.Fatal("Init did not fail")
	}
	if err := Init(ds); err != nil {
		t.Errorf("a failed Init has left something: %s", err)
	}
}
'''
