id='c20-stale-cache'; prop='C20'; pkg='storage/basic'
needs='a table dropped and created with another definition in a transaction that is rolled back'
breaks='a cache of table definitions keeps the definition of the transaction that was rolled back'
edits=[('storage/basic/basic.go', '\tmutex sync.Mutex\n\ttree  *btree.BTreeG[item]', '\tmutex sync.Mutex\n\ttree  *btree.BTreeG[item]\n\tcache map[storage.TableId]*tableType'), ('storage/basic/basic.go', '\t\ttree: newBTree(),\n', '\t\ttree:  newBTree(),\n\t\tcache: map[storage.TableId]*tableType{},\n'), ('storage/basic/basic.go', '\tif !ok {\n\t\treturn nil\n\t}\n\n\tif len(it.row) == 2 {', '\tif !ok {\n\t\treturn nil\n\t}\n\tif tt := tx.st.cache[tid]; tt != nil {\n\t\treturn tt\n\t}\n\n\tif len(it.row) == 2 {'), ('storage/basic/basic.go', '\ttx.tree.ReplaceOrInsert(it)\n}\n\nfunc (tx *transaction) deleteTableType', '\ttx.tree.ReplaceOrInsert(it)\n\ttx.st.cache[tid] = tt\n}\n\nfunc (tx *transaction) deleteTableType'), ('storage/basic/basic.go', '\t_, ok := tx.tree.Delete(it)\n\treturn ok', '\tdelete(tx.st.cache, tid)\n\t_, ok := tx.tree.Delete(it)\n\treturn ok')]
demo='''
package basic

import (
	"context"
	"io"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

var zctx = context.Background()

func zid(s string) types.Identifier { return types.ID(s, true) }

type ztab struct {
	tid   storage.TableId
	names []types.Identifier
	cts   []types.ColumnType
	key   []types.ColumnKey
}

func (z ztab) tn() types.TableName {
	return types.TableName{Database: zid("d"), Schema: zid("s"), Table: zid("t")}
}

func (z ztab) create(t *testing.T, tx storage.Transaction) {
	t.Helper()
	if err := tx.CreateTable(zctx, z.tid, z.tn(), z.names, z.cts, z.key); err != nil {
		t.Fatal(err)
	}
}

func (z ztab) open(t *testing.T, tx storage.Transaction) storage.Table {
	t.Helper()
	tbl, err := tx.OpenTable(zctx, z.tid, z.tn(), z.names, z.cts, z.key)
	if err != nil {
		t.Fatal(err)
	}
	return tbl
}

func zall(t *testing.T, tbl storage.Table, pred storage.Predicate) []types.Row {
	t.Helper()
	rs, err := tbl.Rows(zctx, nil, nil, nil, pred)
	if err != nil {
		t.Fatal(err)
	}
	defer rs.Close(zctx)
	var all []types.Row
	for {
		r, err := rs.Next(zctx)
		if err == io.EOF {
			return all
		} else if err != nil {
			t.Fatal(err)
		}
		all = append(all, r)
	}
}

func zstore(t *testing.T) storage.Store {
	st, err := NewStore("")
	if err != nil {
		t.Fatal(err)
	}
	return st
}

var zA = ztab{storage.EngineTableId, []types.Identifier{zid("a"), zid("b"), zid("c")},
	[]types.ColumnType{{Type: types.Int64Type, Size: 8, NotNull: true}, {Type: types.Int64Type, Size: 8, NotNull: true}, {Type: types.StringType, Size: 4}},
	[]types.ColumnKey{types.MakeColumnKey(0, false), types.MakeColumnKey(1, false)}}
var _ = io.EOF

func TestZZDemo(t *testing.T) {
	st := zstore(t)
	tx := st.Begin()
	zA.create(t, tx)
	if err := tx.Commit(zctx); err != nil {
		t.Fatal(err)
	}
	z := zA
	z.key = z.key[:1]
	tx = st.Begin()
	if err := tx.DropTable(zctx, zA.tid); err != nil {
		t.Fatal(err)
	}
	z.create(t, tx)
	if err := tx.Rollback(); err != nil {
		t.Fatal(err)
	}
	tx = st.Begin()
	zA.open(t, tx)
}
'''
