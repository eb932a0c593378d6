package basic

import (
	"github.com/google/btree"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"

	"vs"
)

// ---- the ordered tree: what github.com/google/btree promises (C13-C21)

// gkey identifies an entry.
type gkey struct {
	rel relationId
	key string
}

func gk(it item) gkey { return gkey{it.rel, string(it.key)} }

// rowsOf is the content of a tree.
func rowsOf(t *btree.BTreeG[item]) map[gkey]types.Row { return vs.GM[gkey, types.Row](t, "rows") }

func has(m map[gkey]types.Row, k gkey) bool {
	_, ok := m[k]
	return ok
}

// before is the order of the entries.
func before(a, b gkey) bool {
	return vs.Or(a.rel < b.rel, vs.And(a.rel == b.rel, vs.Lex(a.key, b.key) < 0))
}

//vs:contract storage/basic.lessItems
//vs:prop C13 C15 C16 C18 C20 C21
func V_lessItems(it1, it2 item) bool {
	r := lessItems(it1, it2)
	vs.Ensures("by relation, then by key", r == before(gk(it1), gk(it2)))
	return r
}

func relOf(tid storage.TableId, iid storage.IndexId) relationId {
	return relationId(uint64(tid)*(1<<32) + uint64(iid))
}

//vs:contract storage/basic.toRelationId
//vs:prop C13 C15 C16 C18 C20 C21
func V_toRelationId(tid storage.TableId, iid storage.IndexId) relationId {
	r := toRelationId(tid, iid)
	vs.Ensures("the table, then the index", r == relOf(tid, iid))
	return r
}

//vs:contract storage/basic.rowToItem
//vs:prop C13 C15 C16 C18 C20 C21
func V_rowToItem(rel relationId, rowKey []types.ColumnKey, row types.Row) item {
	vs.Requires(vs.Imp(row != nil, encode.SKeyFits(rowKey, len(row))))
	r := rowToItem(rel, rowKey, row)
	vs.Ensures("the relation", r.rel == rel)
	vs.Ensures("the row", vs.Eq(r.row, row))
	vs.Ensures("the key of the row", string(r.key) == vs.Ite(row != nil, encode.SKey(rowKey, row), ""))
	return r
}

//vs:contract storage/basic.keyToItem
//vs:prop C13 C15 C16 C18 C20 C21
func V_keyToItem(rel relationId, key []byte) item {
	r := keyToItem(rel, key)
	vs.Ensures("relation and key", vs.And(r.rel == rel, string(r.key) == string(key)))
	return r
}

//vs:model github.com/google/btree.NewG
func M_NewG(degree int, less btree.LessFunc[item]) *btree.BTreeG[item] {
	vs.Requires(degree >= 2)
	vs.RequiresAll("the tree is ordered by relation and key", func(a, b item) bool {
		return less(a, b) == before(gk(a), gk(b))
	})
	return new(btree.BTreeG[item])
}

//vs:model (*github.com/google/btree.BTreeG[T]).Clone
func M_Clone(t *btree.BTreeG[item]) *btree.BTreeG[item] {
	r := new(btree.BTreeG[item])
	vs.CopyInto(rowsOf(r), rowsOf(t))
	return r
}

//vs:model (*github.com/google/btree.BTreeG[T]).Get
func M_Get(t *btree.BTreeG[item], key item) (item, bool) {
	row, ok := rowsOf(t)[gk(key)]
	if !ok {
		return item{}, false
	}
	return item{rel: key.rel, key: []byte(string(key.key)), row: row}, true
}

//vs:model (*github.com/google/btree.BTreeG[T]).Has
func M_Has(t *btree.BTreeG[item], key item) bool { return has(rowsOf(t), gk(key)) }

//vs:model (*github.com/google/btree.BTreeG[T]).ReplaceOrInsert
func M_ReplaceOrInsert(t *btree.BTreeG[item], it item) (item, bool) {
	old, ok := M_Get(t, it)
	rowsOf(t)[gk(it)] = it.row
	return old, ok
}

//vs:model (*github.com/google/btree.BTreeG[T]).Delete
func M_Delete(t *btree.BTreeG[item], key item) (item, bool) {
	old, ok := M_Get(t, key)
	delete(rowsOf(t), gk(key))
	return old, ok
}

// itemsOf lists the entries of a tree in order.
func itemsOf(t *btree.BTreeG[item]) []item { return listOf(rowsOf(t)) }

func listOf(m map[gkey]types.Row) []item {
	s := vs.UF[[]item]("btree.items", m)
	vs.Assume("btree iterates over its entries", isListOf(s, m))
	return s
}

// isListOf: s is what iterating over a tree with content m yields. What that
// means is M_Listed.
func isListOf(s []item, m map[gkey]types.Row) bool { return vs.UF[bool]("btree.listed", s, m) }

// btree iterates over its entries in order
//
//vs:axiom
func M_Listed(s []item, m map[gkey]types.Row) {
	vs.Requires(isListOf(s, m))
	vs.Ensures("the entries, in order", listed(s, m))
}

func inOrder(s []item) bool {
	return vs.Forall2(func(i, j vs.Idx) bool {
		return vs.Imp(vs.And(0 <= i, i < j, int(j) < len(s)), before(gk(s[i]), gk(s[j])))
	})
}

// listed: s lists the entries of m.
func listed(s []item, m map[gkey]types.Row) bool {
	return vs.And(
		vs.Forall(func(i vs.Idx) bool {
			return vs.Imp(vs.And(0 <= i, int(i) < len(s)), vs.And(has(m, gk(s[i])), vs.Eq(m[gk(s[i])], s[i].row)))
		}),
		vs.Forall(func(k gkey) bool {
			i := vs.UF[int]("btree.ix", m, k)
			return vs.Imp(has(m, k), vs.And(0 <= i, i < len(s), vs.Eq(gk(s[i]), k)))
		}),
		inOrder(s),
	)
}

//vs:model (*github.com/google/btree.BTreeG[T]).AscendGreaterOrEqual
func M_AscendGreaterOrEqual(t *btree.BTreeG[item], pivot item, iter btree.ItemIteratorG[item]) {
	s := itemsOf(t)
	stopped := false
	for i := 0; i < len(s); i++ {
		if stopped || before(gk(s[i]), gk(pivot)) {
			continue
		}
		if !iter(s[i]) {
			stopped = true
		}
	}
}
