id='c16-leading-column'; prop='C16'; pkg='storage/basic'
needs='a predicate on the leading key column which selects rows in more than one place'
breaks='the scan stops at the first row after a match that does not match'
edits=[('storage/basic/basic.go', '\t\t\t\treturn true\n\t\t\t}\n\n\t\t\titems = append(items, it)\n\t\t\treturn true\n\t\t})\n\n\ttbl.tx', '\t\t\t\treturn len(items) == 0 || len(tbl.tt.Key) == 0 || predCol != tbl.tt.Key[0].Column()\n\t\t\t}\n\n\t\t\titems = append(items, it)\n\t\t\treturn true\n\t\t})\n\n\ttbl.tx')]
demo='''
package basic

import (
	"context"
	"io"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

var zctx = context.Background()

func zid(s string) types.Identifier { return types.ID(s, true) }

type ztab struct {
	tid   storage.TableId
	names []types.Identifier
	cts   []types.ColumnType
	key   []types.ColumnKey
}

func (z ztab) tn() types.TableName {
	return types.TableName{Database: zid("d"), Schema: zid("s"), Table: zid("t")}
}

func (z ztab) create(t *testing.T, tx storage.Transaction) {
	t.Helper()
	if err := tx.CreateTable(zctx, z.tid, z.tn(), z.names, z.cts, z.key); err != nil {
		t.Fatal(err)
	}
}

func (z ztab) open(t *testing.T, tx storage.Transaction) storage.Table {
	t.Helper()
	tbl, err := tx.OpenTable(zctx, z.tid, z.tn(), z.names, z.cts, z.key)
	if err != nil {
		t.Fatal(err)
	}
	return tbl
}

func zall(t *testing.T, tbl storage.Table, pred storage.Predicate) []types.Row {
	t.Helper()
	rs, err := tbl.Rows(zctx, nil, nil, nil, pred)
	if err != nil {
		t.Fatal(err)
	}
	defer rs.Close(zctx)
	var all []types.Row
	for {
		r, err := rs.Next(zctx)
		if err == io.EOF {
			return all
		} else if err != nil {
			t.Fatal(err)
		}
		all = append(all, r)
	}
}

func zstore(t *testing.T) storage.Store {
	st, err := NewStore("")
	if err != nil {
		t.Fatal(err)
	}
	return st
}

var zA = ztab{storage.EngineTableId, []types.Identifier{zid("a"), zid("b"), zid("c")},
	[]types.ColumnType{{Type: types.Int64Type, Size: 8, NotNull: true}, {Type: types.Int64Type, Size: 8, NotNull: true}, {Type: types.StringType, Size: 4}},
	[]types.ColumnKey{types.MakeColumnKey(0, false), types.MakeColumnKey(1, false)}}
var _ = io.EOF

type zodd struct{}

func (zodd) Column() types.ColumnNum           { return 0 }
func (zodd) Int64Pred(v types.Int64Value) bool { return v&1 == 1 }

func TestZZDemo(t *testing.T) {
	st := zstore(t)
	tx := st.Begin()
	zA.create(t, tx)
	tbl := zA.open(t, tx)
	var rows []types.Row
	for i := 0; i < 6; i++ {
		rows = append(rows, types.Row{types.Int64Value(i), types.Int64Value(2), nil})
	}
	if err := tbl.Insert(zctx, rows); err != nil {
		t.Fatal(err)
	}
	if n := len(zall(t, tbl, zodd{})); n != 3 {
		t.Fatal(n)
	}
}
'''
