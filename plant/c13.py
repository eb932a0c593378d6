id='c13-empty-store'; prop='C13'; pkg='storage/basic'
needs='a transaction on an empty store that is rolled back'
breaks='the first transaction writes into the committed tree, so a rollback does not undo it'
edits=[('storage/basic/basic.go', '\tif tx.tree == tx.st.tree {\n\t\ttx.tree', '\tif tx.tree == tx.st.tree && tx.tree.Len() > 0 {\n\t\ttx.tree')]
demo='''
package basic

import (
	"context"
	"io"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

var zctx = context.Background()

func zid(s string) types.Identifier { return types.ID(s, true) }

type ztab struct {
	tid   storage.TableId
	names []types.Identifier
	cts   []types.ColumnType
	key   []types.ColumnKey
}

func (z ztab) tn() types.TableName {
	return types.TableName{Database: zid("d"), Schema: zid("s"), Table: zid("t")}
}

func (z ztab) create(t *testing.T, tx storage.Transaction) {
	t.Helper()
	if err := tx.CreateTable(zctx, z.tid, z.tn(), z.names, z.cts, z.key); err != nil {
		t.Fatal(err)
	}
}

func (z ztab) open(t *testing.T, tx storage.Transaction) storage.Table {
	t.Helper()
	tbl, err := tx.OpenTable(zctx, z.tid, z.tn(), z.names, z.cts, z.key)
	if err != nil {
		t.Fatal(err)
	}
	return tbl
}

func zall(t *testing.T, tbl storage.Table, pred storage.Predicate) []types.Row {
	t.Helper()
	rs, err := tbl.Rows(zctx, nil, nil, nil, pred)
	if err != nil {
		t.Fatal(err)
	}
	defer rs.Close(zctx)
	var all []types.Row
	for {
		r, err := rs.Next(zctx)
		if err == io.EOF {
			return all
		} else if err != nil {
			t.Fatal(err)
		}
		all = append(all, r)
	}
}

func zstore(t *testing.T) storage.Store {
	st, err := NewStore("")
	if err != nil {
		t.Fatal(err)
	}
	return st
}

var zA = ztab{storage.EngineTableId, []types.Identifier{zid("a"), zid("b"), zid("c")},
	[]types.ColumnType{{Type: types.Int64Type, Size: 8, NotNull: true}, {Type: types.Int64Type, Size: 8, NotNull: true}, {Type: types.StringType, Size: 4}},
	[]types.ColumnKey{types.MakeColumnKey(0, false), types.MakeColumnKey(1, false)}}
var _ = io.EOF

func TestZZDemo(t *testing.T) {
	st := zstore(t)
	tx := st.Begin()
	zA.create(t, tx)
	if err := tx.Rollback(); err != nil {
		t.Fatal(err)
	}
	tx = st.Begin()
	zA.create(t, tx) // panics if it is still there
}
'''
