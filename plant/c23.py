id='c23-list-left-open'; prop='C23'; pkg='engine'
needs='a store that fails while the databases are listed'
breaks='listing leaves its transaction open when the store fails'
edits=[('engine/engine.go','''	if err != nil {
		tx.Rollback()
		return nil, err
	}
	err = tx.Commit(ctx)
	if err != nil {
		return nil, err
	}
	return databases, nil
''','''	if err != nil {
		return nil, err
	}
	err = tx.Commit(ctx)
	if err != nil {
		return nil, err
	}
	return databases, nil
''')]
demo='''
package engine

import (
	"context"
	"errors"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

type demoStore struct {
	storage.Store
	tx *demoTx
}
type demoTx struct {
	storage.Transaction
	n int
}

func (s *demoStore) Begin() storage.Transaction    { s.tx = &demoTx{}; return s.tx }
func (x *demoTx) Commit(ctx context.Context) error { x.n++; return nil }
func (x *demoTx) Rollback() error                  { x.n++; return nil }
func (x *demoTx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) (storage.Table, error) {
	return nil, errors.New("no")
}

func TestZZDemo(t *testing.T) {
	st := &demoStore{}
	if _, err := NewEngine(st).ListDatabases(); err == nil {
		t.Error("listed")
	}
	if st.tx.n != 1 {
		t.Errorf("finished %d times", st.tx.n)
	}
}
'''
