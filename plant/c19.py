id='c19-right-kind'; prop='C19'; pkg='storage/basic'
needs='values of the right kind, but longer than the column'
breaks='rows whose values are of the right kind are stored as they are, without looking at the sizes'
edits=[('storage/basic/basic.go', '\t\trow, err := types.ConvertRow(tbl.tt.ColumnTypes, row)', '\t\tvar err error\n\t\tif !rightKinds(tbl.tt.ColumnTypes, row) {\n\t\t\trow, err = types.ConvertRow(tbl.tt.ColumnTypes, row)\n\t\t}'), ('storage/basic/basic.go', 'func (rs *rows) Next(ctx', 'func rightKinds(cts []types.ColumnType, row types.Row) bool {\n\tif len(row) != len(cts) {\n\t\treturn false\n\t}\n\tfor idx, ct := range cts {\n\t\tswitch row[idx].(type) {\n\t\tcase types.StringValue:\n\t\t\tif ct.Type != types.StringType || ct.Fixed {\n\t\t\t\treturn false\n\t\t\t}\n\t\tcase types.Float64Value:\n\t\t\tif ct.Type != types.Float64Type {\n\t\t\t\treturn false\n\t\t\t}\n\t\tdefault:\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n}\n\nfunc (rs *rows) Next(ctx')]
demo='''
package basic

import (
	"context"
	"io"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

var zctx = context.Background()

func zid(s string) types.Identifier { return types.ID(s, true) }

type ztab struct {
	tid   storage.TableId
	names []types.Identifier
	cts   []types.ColumnType
	key   []types.ColumnKey
}

func (z ztab) tn() types.TableName {
	return types.TableName{Database: zid("d"), Schema: zid("s"), Table: zid("t")}
}

func (z ztab) create(t *testing.T, tx storage.Transaction) {
	t.Helper()
	if err := tx.CreateTable(zctx, z.tid, z.tn(), z.names, z.cts, z.key); err != nil {
		t.Fatal(err)
	}
}

func (z ztab) open(t *testing.T, tx storage.Transaction) storage.Table {
	t.Helper()
	tbl, err := tx.OpenTable(zctx, z.tid, z.tn(), z.names, z.cts, z.key)
	if err != nil {
		t.Fatal(err)
	}
	return tbl
}

func zall(t *testing.T, tbl storage.Table, pred storage.Predicate) []types.Row {
	t.Helper()
	rs, err := tbl.Rows(zctx, nil, nil, nil, pred)
	if err != nil {
		t.Fatal(err)
	}
	defer rs.Close(zctx)
	var all []types.Row
	for {
		r, err := rs.Next(zctx)
		if err == io.EOF {
			return all
		} else if err != nil {
			t.Fatal(err)
		}
		all = append(all, r)
	}
}

func zstore(t *testing.T) storage.Store {
	st, err := NewStore("")
	if err != nil {
		t.Fatal(err)
	}
	return st
}

var zA = ztab{storage.EngineTableId, []types.Identifier{zid("a"), zid("b"), zid("c")},
	[]types.ColumnType{{Type: types.Int64Type, Size: 8, NotNull: true}, {Type: types.Int64Type, Size: 8, NotNull: true}, {Type: types.StringType, Size: 4}},
	[]types.ColumnKey{types.MakeColumnKey(0, false), types.MakeColumnKey(1, false)}}
var _ = io.EOF

func TestZZDemo(t *testing.T) {
	st := zstore(t)
	tx := st.Begin()
	z := zA
	z.names, z.cts, z.key = z.names[2:], z.cts[2:], []types.ColumnKey{types.MakeColumnKey(0, false)}
	z.create(t, tx)
	tbl := z.open(t, tx)
	if err := tbl.Insert(zctx, []types.Row{{types.StringValue("longer than four")}}); err == nil {
		t.Fatal("too long")
	}
}
'''
