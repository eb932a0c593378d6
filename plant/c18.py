id='c18-first-key-column'; prop='C18'; pkg='storage/basic'
needs='a table with a key of several columns, and an update of a later one'
breaks='an update of another than the first key column leaves the row under its old key as well'
edits=[('storage/basic/basic.go', 'types.ColumnKeyUpdated(rr.tbl.tt.Key, cols)', 'types.ColumnKeyUpdated(rr.tbl.tt.Key[:1], cols)')]
demo='''
package basic

import (
	"context"
	"io"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

var zctx = context.Background()

func zid(s string) types.Identifier { return types.ID(s, true) }

type ztab struct {
	tid   storage.TableId
	names []types.Identifier
	cts   []types.ColumnType
	key   []types.ColumnKey
}

func (z ztab) tn() types.TableName {
	return types.TableName{Database: zid("d"), Schema: zid("s"), Table: zid("t")}
}

func (z ztab) create(t *testing.T, tx storage.Transaction) {
	t.Helper()
	if err := tx.CreateTable(zctx, z.tid, z.tn(), z.names, z.cts, z.key); err != nil {
		t.Fatal(err)
	}
}

func (z ztab) open(t *testing.T, tx storage.Transaction) storage.Table {
	t.Helper()
	tbl, err := tx.OpenTable(zctx, z.tid, z.tn(), z.names, z.cts, z.key)
	if err != nil {
		t.Fatal(err)
	}
	return tbl
}

func zall(t *testing.T, tbl storage.Table, pred storage.Predicate) []types.Row {
	t.Helper()
	rs, err := tbl.Rows(zctx, nil, nil, nil, pred)
	if err != nil {
		t.Fatal(err)
	}
	defer rs.Close(zctx)
	var all []types.Row
	for {
		r, err := rs.Next(zctx)
		if err == io.EOF {
			return all
		} else if err != nil {
			t.Fatal(err)
		}
		all = append(all, r)
	}
}

func zstore(t *testing.T) storage.Store {
	st, err := NewStore("")
	if err != nil {
		t.Fatal(err)
	}
	return st
}

var zA = ztab{storage.EngineTableId, []types.Identifier{zid("a"), zid("b"), zid("c")},
	[]types.ColumnType{{Type: types.Int64Type, Size: 8, NotNull: true}, {Type: types.Int64Type, Size: 8, NotNull: true}, {Type: types.StringType, Size: 4}},
	[]types.ColumnKey{types.MakeColumnKey(0, false), types.MakeColumnKey(1, false)}}
var _ = io.EOF

func TestZZDemo(t *testing.T) {
	st := zstore(t)
	tx := st.Begin()
	zA.create(t, tx)
	tbl := zA.open(t, tx)
	if err := tbl.Insert(zctx, []types.Row{{types.Int64Value(1), types.Int64Value(2), types.StringValue("x")}}); err != nil {
		t.Fatal(err)
	}
	rs, _ := tbl.Rows(zctx, nil, nil, nil, nil)
	rs.Next(zctx)
	ref, _ := rs.Current()
	if err := ref.Update(zctx, []types.ColumnNum{1}, []types.Value{types.Int64Value(3)}); err != nil {
		t.Fatal(err)
	}
	if n := len(zall(t, tbl, nil)); n != 1 {
		t.Fatal(n)
	}
}
'''
