id='c27-failed-commit'; prop='C27'; pkg='engine'
needs='a commit that fails, followed by a rollback or another commit'
breaks='the storage transaction is finished a second time after a failed commit'
edits=[('engine/engine.go','''	err := tx.tx.Commit(ctx)
	tx.tx = nil
	return err
''','''	if err := tx.tx.Commit(ctx); err != nil {
		return err
	}
	tx.tx = nil
	return nil
''')]
demo='''
package engine

import (
	"context"
	"errors"
	"testing"

	"github.com/leftmike/maho/storage"
)

type demoStore struct {
	storage.Store
	tx *demoTx
}
type demoTx struct {
	storage.Transaction
	n int
}

func (s *demoStore) Begin() storage.Transaction       { s.tx = &demoTx{}; return s.tx }
func (x *demoTx) Commit(ctx context.Context) error { x.n++; return errors.New("no") }
func (x *demoTx) Rollback() error                  { x.n++; return nil }

func TestZZDemo(t *testing.T) {
	st := &demoStore{}
	tx := NewEngine(st).Begin()
	if tx.Commit(context.Background()) == nil {
		t.Fatal("commit did not fail")
	}
	if tx.Rollback() == nil {
		t.Error("rollback after commit succeeded")
	}
	if st.tx.n != 1 {
		t.Errorf("finished %d times", st.tx.n)
	}
}
'''
