package engine

import (
	"context"
	"fmt"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

// a store that counts how its transactions end

type zzStore struct {
	storage.Store
	e   *zzEnv
	txs []*zzStTx
}

type zzStTx struct {
	storage.Transaction
	e    *zzEnv
	fins []string
	res  error
}

func (s *zzStore) Name() string { return "zz" }
func (s *zzStore) SetupColumns(n []types.Identifier, t []types.ColumnType, p []types.ColumnKey) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
	return n, t, p
}
func (s *zzStore) Begin() storage.Transaction {
	tx := &zzStTx{e: s.e}
	s.txs = append(s.txs, tx)
	return tx
}
func (x *zzStTx) end(how string) error {
	x.fins = append(x.fins, how)
	x.res = nil
	if x.e.Intn(2) == 0 {
		x.res = fmt.Errorf("failure %d", x.e.Intn(1000))
	}
	return x.res
}
func (x *zzStTx) Commit(ctx context.Context) error { return x.end("commit") }
func (x *zzStTx) Rollback() error                  { return x.end("rollback") }

func TestFalsify_C27(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	for i := 0; i < 4000*e.iters; i++ {
		e.n++
		st := &zzStore{e: e}
		eng := NewEngine(st)
		var txs []Transaction
		ended := map[int]string{}
		for j := e.Intn(12); j >= 0; j-- {
			if len(txs) == 0 || e.Intn(4) == 0 {
				txs = append(txs, eng.Begin())
				if len(st.txs) != len(txs) {
					e.found("Begin began %d storage transactions, want %d", len(st.txs), len(txs))
				}
			}
			k := e.Intn(len(txs))
			how, err := "commit", error(nil)
			if e.Intn(2) == 0 {
				err = txs[k].Commit(context.Background())
			} else {
				how = "rollback"
				err = txs[k].Rollback()
			}
			x := st.txs[k]
			if was := ended[k]; was != "" {
				if err == nil {
					e.found("%s after %s: no error", how, was)
				}
				if len(x.fins) != 1 {
					e.found("%s after %s: storage transaction finished as %v", how, was, x.fins)
				}
				continue
			}
			if len(x.fins) != 1 || x.fins[0] != how || err != x.res {
				e.found("%s: storage transaction finished as %v with %v, returned %v", how, x.fins, x.res, err)
			}
			ended[k] = how
		}
		for k, x := range st.txs {
			if ended[k] == "" && len(x.fins) != 0 {
				e.found("transaction not ended, storage transaction finished as %v", x.fins)
			}
		}
	}
}
