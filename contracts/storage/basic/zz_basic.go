package basic

import (
	"context"
	"io"

	"github.com/google/btree"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"

	"vs"
)

// ---- transactions (C13, C14)

//vs:contract storage/basic.NewStore
//vs:prop C13 C14
func V_NewStore(dataDir string) (storage.Store, error) {
	r, err := NewStore(dataDir)
	vs.Ensures("no error", err == nil)
	st := r.(*store)
	vs.Ensures("a store", st.tree != nil)
	m := rowsOf(st.tree)
	vs.Ensures("it is empty", vs.Forall(func(k gkey) bool { return !has(m, k) }))
	vs.Locked(&st.mutex, false)
	return r, err
}

//vs:contract (*storage/basic.store).Begin
//vs:prop C13 C14
func V_Begin(st *store) storage.Transaction {
	vs.Locked(&st.mutex, false)
	vs.Modifies(&st.tree)
	r := st.Begin()
	tx := r.(*transaction)
	vs.Ensures("the transaction is of this store", tx.st == st)
	vs.Ensures("it sees what was committed last", tx.tree == vs.Acquired(&st.tree))
	vs.Ensures("nothing is committed", st.tree == vs.Acquired(&st.tree))
	vs.Ensures("it is open", tx.tree != nil && tx.rowsCount == 0)
	vs.Locked(&st.mutex, true)
	return r
}

//vs:contract (*storage/basic.transaction).Store
//vs:prop C14
func V_Store(tx *transaction) storage.Store {
	r := tx.Store()
	vs.Ensures("its store", r.(*store) == tx.st)
	return r
}

// txOpen: the transaction is open and holds its store.
func txOpen(tx *transaction) {
	vs.Requires(tx.st != nil)
	vs.Requires(tx.tree != nil && tx.st.tree != nil)
	vs.Locked(&tx.st.mutex, true)
	vs.Alias(&tx.tree, tx.st.tree)
}

//vs:contract (*storage/basic.transaction).Commit
//vs:prop C13 C14
func V_Commit(tx *transaction, ctx context.Context) error {
	st := tx.st
	if st == nil {
		err := tx.Commit(ctx)
		vs.Ensures("finished already", err != nil)
		return err
	}
	txOpen(tx)
	t, committed, n := tx.tree, st.tree, tx.rowsCount
	vs.Modifies(&tx.st, &tx.tree, &st.tree)
	vs.MayPanic(n != 0)
	vs.OnPanic(func() {
		vs.Ensures("refused without effect", vs.And(tx.st == st, tx.tree == t, st.tree == committed))
		vs.Locked(&st.mutex, true)
	})
	err := tx.Commit(ctx)
	vs.Ensures("succeeds when no cursor is open", err == nil && n == 0)
	vs.Ensures("publishes what the transaction saw", st.tree == t)
	vs.Ensures("finished", tx.st == nil)
	vs.Locked(&st.mutex, false)
	return err
}

//vs:contract (*storage/basic.transaction).Rollback
//vs:prop C13 C14
func V_Rollback(tx *transaction) error {
	st := tx.st
	if st == nil {
		err := tx.Rollback()
		vs.Ensures("finished already", err != nil)
		return err
	}
	txOpen(tx)
	t, committed, n := tx.tree, st.tree, tx.rowsCount
	vs.Modifies(&tx.st, &tx.tree)
	vs.MayPanic(n != 0)
	vs.OnPanic(func() {
		vs.Ensures("refused without effect", vs.And(tx.st == st, tx.tree == t, st.tree == committed))
		vs.Locked(&st.mutex, true)
	})
	err := tx.Rollback()
	vs.Ensures("succeeds when no cursor is open", err == nil && n == 0)
	vs.Ensures("publishes nothing", st.tree == committed)
	vs.Ensures("finished", tx.st == nil)
	vs.Locked(&st.mutex, false)
	return err
}

//vs:contract (*storage/basic.transaction).NextStmt
//vs:prop C13 C14
func V_NextStmt(tx *transaction) {
	t, st := tx.tree, tx.st
	tx.NextStmt()
	vs.Ensures("changes nothing", vs.And(tx.tree == t, tx.st == st))
}

//vs:contract (*storage/basic.transaction).forWrite
//vs:prop C13 C15 C18 C20
//vs:guarded storage/basic.store mutex tree
func V_forWrite(tx *transaction) {
	txOpen(tx)
	t := tx.tree
	if t != tx.st.tree {
		tx.forWrite()
		vs.Ensures("it has a tree of its own", tx.tree == t)
		vs.Locked(&tx.st.mutex, true)
		return
	}
	m := vs.Copy(rowsOf(t))
	vs.Modifies(&tx.tree)
	tx.forWrite()
	vs.FreshAt(&tx.tree)
	vs.Ensures("a tree of its own, with the same content", vs.SameMap(rowsOf(tx.tree), m))
	vs.Locked(&tx.st.mutex, true)
}

// ---- rows (C15, C16, C18, C19)

// rowFits: the row has one value for each column and each satisfies its column.
func rowFits(cts []types.ColumnType, row types.Row) bool {
	return vs.And(len(row) == len(cts), vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(cts)), types.SFits(cts[k], row[k]))
	}))
}

// storable: the row can be converted to one that satisfies every column.
//
//vs:rec
//vs:fuel 0
func storable(cts []types.ColumnType, row types.Row) bool {
	return vs.And(len(row) <= len(cts), types.SConvRow(cts, row), vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(len(row) <= int(k), int(k) < len(cts)), !cts[k].NotNull)
	}))
}

// keyOf is where a table stores a row.
func keyOf(tbl *table, row types.Row) gkey {
	return gkey{relOf(tbl.tid, 0), encode.SKey(tbl.tt.Key, row)}
}

// typeFits: what is expected of a table's description.
func typeFits(tt *tableType) bool {
	return vs.And(types.SValidTypes(tt.ColumnTypes), encode.SKeyFits(tt.Key, len(tt.ColumnTypes)),
		len(tt.ColumnNames) == len(tt.ColumnTypes))
}

// tblOpen: the table belongs to an open transaction.
func tblOpen(tbl *table) {
	vs.Requires(tbl.tx != nil && tbl.tt != nil)
	vs.Requires(typeFits(tbl.tt))
	txOpen(tbl.tx)
}

// newKey is where the i-th of the rows given to insert goes.
//
//vs:rec
//vs:fuel 0
func newKey(rel relationId, key []types.ColumnKey, cts []types.ColumnType, row types.Row) gkey {
	return gkey{rel, encode.SKey(key, types.SConverted(cts, row))}
}

//vs:contract (*storage/basic.table).Insert
//vs:prop C13 C15 C19 C21
//vs:fuels newKey=1 storable=1
func V_Insert(tbl *table, ctx context.Context, rows []types.Row) error {
	tblOpen(tbl)
	old := vs.Copy(rowsOf(tbl.tx.tree))
	cts := tbl.tt.ColumnTypes
	rel := relOf(tbl.tid, 0)
	at := func(i int) gkey { return newKey(rel, tbl.tt.Key, cts, rows[i]) }
	// the first n rows have been added
	kept := func(m map[gkey]types.Row) bool {
		return vs.Forall(func(k gkey) bool { return vs.Imp(has(old, k), vs.And(has(m, k), vs.Eq(m[k], old[k]))) })
	}
	there := func(m map[gkey]types.Row, n int) bool {
		return vs.Forall(func(i vs.Idx) bool {
			return vs.Imp(vs.And(0 <= i, int(i) < n),
				vs.And(has(m, at(int(i))), vs.Eq(m[at(int(i))], types.SConverted(cts, rows[i]))))
		})
	}
	only := func(m map[gkey]types.Row, n int) bool {
		return vs.Forall(func(k gkey) bool {
			return vs.Imp(has(m, k), vs.Or(has(old, k), vs.Exists(func(i vs.Idx) bool {
				return vs.And(0 <= i, int(i) < n, vs.Eq(k, at(int(i))))
			}), vs.And(n > 0, vs.Eq(k, at(n-1)))))
		})
	}
	// and could be
	fit := func(n int) bool {
		return vs.Forall(func(i vs.Idx) bool {
			return vs.Imp(vs.And(0 <= i, int(i) < n), vs.And(storable(cts, rows[i]), !has(old, at(int(i)))))
		})
	}
	differ := func(n int) bool {
		return vs.Forall2(func(i, j vs.Idx) bool {
			return vs.Imp(vs.And(0 <= i, i < j, int(j) < n), !vs.Eq(at(int(i)), at(int(j))))
		})
	}
	vs.Loop(func(tree *btree.BTreeG[item], i vs.Idx, _ vs.Outermost) {
		vs.Inv(kept(rowsOf(tree)))
		vs.Inv(there(rowsOf(tree), int(i)))
		vs.Inv(only(rowsOf(tree), int(i)))
		vs.Inv(fit(int(i)))
		vs.Inv(differ(int(i)))
	})
	vs.Loop(func(row types.Row, idx vs.Idx) {
		vs.Inv(vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, k < idx), vs.Imp(cts[k].NotNull, row[k] != nil))
		}))
	})
	vs.Modifies(&tbl.tx.tree)
	err := tbl.Insert(ctx, rows)
	m := rowsOf(tbl.tx.tree)
	vs.Ensures("fails exactly when a row cannot be stored or its key is taken", (err == nil) == vs.And(fit(len(rows)), differ(len(rows))))
	vs.Ensures("a failed insert changes nothing", vs.Imp(err != nil, vs.SameMap(m, old)))
	vs.Ensures("adds exactly the rows", vs.Imp(err == nil, vs.And(kept(m), there(m, len(rows)), only(m, len(rows)))))
	vs.Ensures("committed rows are not touched", tbl.tx.tree != nil && tbl.tx.tree != tbl.tx.st.tree)
	return err
}

// tableOK: the rows of a table are as declared and each is where it belongs.
func tableOK(m map[gkey]types.Row, rel relationId, cts []types.ColumnType, key []types.ColumnKey) bool {
	return vs.Forall(func(k gkey) bool {
		return vs.Imp(vs.And(has(m, k), k.rel == rel), rowAt(cts, key, k.key, m[k]))
	})
}

// rowAt: the row satisfies its columns and has the given key.
//
//vs:rec
//vs:fuel 0
func rowAt(cts []types.ColumnType, key []types.ColumnKey, k string, row types.Row) bool {
	return vs.And(types.SStored(cts, row), k == encode.SKey(key, row))
}

// the row a row reference denotes
func refKey(rr rowRef) gkey { return gkey{relOf(rr.tbl.tid, 0), string(rr.key)} }

//vs:contract (storage/basic.rowRef).Delete
//vs:prop C13 C18 C21
func V_Delete(rr rowRef, ctx context.Context) error {
	vs.Requires(rr.tbl != nil)
	tblOpen(rr.tbl)
	tx := rr.tbl.tx
	old := vs.Copy(rowsOf(tx.tree))
	rk := refKey(rr)
	vs.Modifies(&tx.tree)
	if tx.tree != tx.st.tree {
		vs.Modifies(rowsOf(tx.tree))
	}
	vs.MayPanic(!has(old, rk))
	vs.OnPanic(func() {
		vs.Ensures("refused without effect", vs.SameMap(rowsOf(tx.tree), old))
		vs.Ensures("committed rows are not touched", tx.tree != nil && tx.tree != tx.st.tree)
	})
	err := rr.Delete(ctx)
	m := rowsOf(tx.tree)
	vs.Ensures("succeeds", err == nil && has(old, rk))
	vs.Ensures("the row is gone", !has(m, rk))
	vs.Ensures("no other row is touched", vs.Forall(func(k gkey) bool {
		return vs.Imp(!vs.Eq(k, rk), vs.And(has(m, k) == has(old, k), vs.Eq(m[k], old[k])))
	}))
	vs.Ensures("committed rows are not touched", tx.tree != nil && tx.tree != tx.st.tree)
	return err
}

// assigned is the row after the first n assignments.
//
//vs:rec
//vs:fuel 1
func assigned(row types.Row, cols []types.ColumnNum, vals []types.Value, n int) types.Row {
	if n <= 0 {
		return row
	}
	r := assigned(row, cols, vals, n-1)
	c := int(cols[n-1])
	return vs.Cat(r[:c], []types.Value{vals[n-1]}, r[c+1:])
}

func colsIn(cols []types.ColumnNum, n int) bool {
	return vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(cols)), int(cols[k]) < n)
	})
}

// among: the column is one of the first n.
func among(c int, cols []types.ColumnNum, n int) bool {
	return vs.Exists(func(k vs.Idx) bool { return vs.And(0 <= k, int(k) < n, int(cols[k]) == c) })
}

//vs:lemma
//vs:prop C18
func V_Assigned(row types.Row, cols []types.ColumnNum, vals []types.Value, n, c int) {
	vs.Requires(len(cols) == len(vals) && colsIn(cols, len(row)))
	vs.Requires(0 <= n && n <= len(cols))
	vs.Requires(0 <= c && c <= len(row))
	vs.Decreases(n)
	vs.Proof(func() {
		if n > 0 {
			V_Assigned(row, cols, vals, n-1, c)
		}
	})
	r := assigned(row, cols, vals, n)
	vs.Ensures("the length is kept", len(r) == len(row))
	vs.Ensures("the other columns are kept", vs.Imp(vs.And(c < len(row), !among(c, cols, n)), vs.Eq(r[c], row[c])))
}

//vs:lemma
//vs:prop C18
//vs:fuels assigned=0 keyFits=1
func V_AssignedKey(cts []types.ColumnType, key []types.ColumnKey, row types.Row, cols []types.ColumnNum, vals []types.Value) {
	vs.Requires(len(cols) == len(vals) && colsIn(cols, len(row)))
	vs.Requires(types.SValidTypes(cts) && types.SStored(cts, row))
	vs.Requires(encode.SKeyFits(key, len(row)))
	vs.Requires(vs.Forall(func(j vs.Idx) bool {
		return vs.Imp(vs.And(0 <= j, int(j) < len(key)), !among(encode.SKeyCol(key[j]), cols, len(cols)))
	}))
	is := assigned(row, cols, vals, len(cols))
	r := types.SConverted(cts, is)
	vs.Requires(len(r) == len(cts) && len(is) == len(cts))
	vs.Requires(vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(is)), vs.Eq(r[k], types.SConvVal(cts[k], is[k])))
	}))
	vs.EnsuresAll("key columns are kept", func(j vs.Idx) bool {
		vs.Proof(func() {
			if 0 <= j && int(j) < len(key) {
				c := encode.SKeyCol(key[j])
				V_Assigned(row, cols, vals, len(cols), c)
				vs.Assert("step", c < len(row))
				vs.Assert("step", !among(c, cols, len(cols)))
				vs.Assert("step", vs.Eq(is[c], row[c]))
				types.SConvRowFits(cts, row)
				vs.Assert("step", vs.Eq(types.SConvVal(cts[c], row[c]), row[c]))
				vs.Assert("step", vs.Eq(types.SConvVal(cts[c], is[c]), r[c]))
			}
		})
		return vs.Imp(vs.And(0 <= j, int(j) < len(key)), vs.Eq(row[encode.SKeyCol(key[j])], r[encode.SKeyCol(key[j])]))
	})
	vs.Proof(func() { encode.SKeySameColumns(key, row, r) })
	vs.Ensures("the key is kept", encode.SKey(key, row) == encode.SKey(key, r))
}

//vs:contract (storage/basic.rowRef).Update
//vs:prop C13 C18 C19 C21
//vs:fuels rowAt=1 storable=1 newKey=1
func V_Update(rr rowRef, ctx context.Context, cols []types.ColumnNum, vals []types.Value) error {
	vs.Requires(rr.tbl != nil)
	tblOpen(rr.tbl)
	tbl, tx := rr.tbl, rr.tbl.tx
	old := vs.Copy(rowsOf(tx.tree))
	rk := refKey(rr)
	cts, key := tbl.tt.ColumnTypes, tbl.tt.Key
	vs.Requires(len(cols) == len(vals))
	vs.Requires(colsIn(cols, len(cts)))
	vs.Requires(vs.Imp(has(old, rk), rowAt(cts, key, rk.key, old[rk])))
	was := old[rk]
	is := assigned(was, cols, vals, len(cols))
	row := types.SConverted(cts, is)
	nk := gkey{rk.rel, encode.SKey(key, row)}
	ok := vs.And(types.SConvRow(cts, is), vs.Or(vs.Eq(nk, rk), !has(old, nk)))
	vs.Loop(func(row types.Row, i vs.Idx) {
		vs.Inv(vs.Eq(row, assigned(was, cols, vals, int(i))))
		vs.Inv(len(row) == len(cts))
	})
	vs.Modifies(&tx.tree)
	if tx.tree != tx.st.tree {
		vs.Modifies(rowsOf(tx.tree))
	}
	vs.MayPanic(!has(old, rk))
	vs.OnPanic(func() {
		vs.Ensures("refused without effect", vs.SameMap(rowsOf(tx.tree), old))
	})
	err := rr.Update(ctx, cols, vals)
	m := rowsOf(tx.tree)
	vs.Proof(func() {
		V_Assigned(was, cols, vals, len(cols), len(cts))
		if types.SConvRow(cts, is) {
			types.SConvRowFits(cts, row)
			if !types.ColumnKeyUpdated(key, cols) {
				V_AssignedKey(cts, key, was, cols, vals)
			}
		}
	})
	vs.Ensures("fails exactly when a value does not fit or another row has the key", (err == nil) == ok)
	vs.Ensures("a failed update changes nothing", vs.Imp(err != nil, vs.SameMap(m, old)))
	vs.Ensures("the row has the given values", vs.Imp(err == nil, vs.And(has(m, nk), vs.Eq(m[nk], row))))
	vs.Ensures("the old row is gone", vs.Imp(vs.And(err == nil, !vs.Eq(nk, rk)), !has(m, rk)))
	vs.Ensures("no other row is touched", vs.Imp(err == nil, vs.Forall(func(k gkey) bool {
		return vs.Imp(vs.And(!vs.Eq(k, rk), !vs.Eq(k, nk)), vs.And(has(m, k) == has(old, k), vs.Eq(m[k], old[k])))
	})))
	vs.Ensures("committed rows are not touched", tx.tree != nil && vs.Imp(err == nil, tx.tree != tx.st.tree))
	return err
}

// ---- cursors (C16, C17)

//vs:iface storage.Predicate.Column
func M_PredColumn(p storage.Predicate) types.ColumnNum {
	return vs.UF[types.ColumnNum]("pred.col", p)
}

//vs:iface storage.BoolPredicate.BoolPred
func M_BoolPred(p storage.BoolPredicate, b types.BoolValue) bool {
	return vs.UF[bool]("pred", p, types.Value(b))
}

//vs:iface storage.StringPredicate.StringPred
func M_StringPred(p storage.StringPredicate, s types.StringValue) bool {
	return vs.UF[bool]("pred", p, types.Value(s))
}

//vs:iface storage.BytesPredicate.BytesPred
func M_BytesPred(p storage.BytesPredicate, b types.BytesValue) bool {
	return vs.UF[bool]("pred", p, types.Value(b))
}

//vs:iface storage.Float64Predicate.Float64Pred
func M_Float64Pred(p storage.Float64Predicate, f types.Float64Value) bool {
	return vs.UF[bool]("pred", p, types.Value(f))
}

//vs:iface storage.Int64Predicate.Int64Pred
func M_Int64Pred(p storage.Int64Predicate, i types.Int64Value) bool {
	return vs.UF[bool]("pred", p, types.Value(i))
}

// predOf: the predicate is one for the type of its column.
func predOf(pred storage.Predicate, vt types.ValueType) bool {
	ok := false
	switch vt {
	case types.BoolType:
		_, ok = pred.(storage.BoolPredicate)
	case types.StringType:
		_, ok = pred.(storage.StringPredicate)
	case types.BytesType:
		_, ok = pred.(storage.BytesPredicate)
	case types.Float64Type:
		_, ok = pred.(storage.Float64Predicate)
	case types.Int64Type:
		_, ok = pred.(storage.Int64Predicate)
	}
	return ok
}

// bounds is what a scan looks for.
type bounds struct {
	rel      relationId
	min, max string
	hasMax   bool
	pred     storage.Predicate
	col      int
}

// satisfied: the value is one the predicate is true of; NULL never is.
func satisfied(p storage.Predicate, v types.Value) bool {
	return vs.And(v != nil, vs.UF[bool]("pred", p, v))
}

// wanted: the entry is one the scan looks for.
//
//vs:rec
//vs:fuel 0
func wanted(b bounds, it item) bool {
	k := string(it.key)
	return vs.And(it.rel == b.rel, !(vs.Lex(k, b.min) < 0), vs.Imp(b.hasMax, !(vs.Lex(b.max, k) < 0)),
		vs.Imp(b.pred != nil, satisfied(b.pred, it.row[b.col])))
}

// past: no entry from this one on is one the scan looks for.
func past(b bounds, k gkey) bool {
	return vs.Or(k.rel > b.rel, vs.And(k.rel == b.rel, b.hasMax, vs.Lex(b.max, k.key) < 0))
}

// chosen are those of the first n entries that the scan looks for.
//
//vs:rec
//vs:fuel 1
func chosen(s []item, b bounds, n int) []item {
	if n <= 0 {
		return nil
	}
	return vs.Cat(chosen(s, b, n-1), vs.Ite(wanted(b, s[n-1]), []item{s[n-1]}, nil))
}

//vs:lemma
//vs:prop C16
//vs:fuels wanted=1 Lex=0
func V_Past(s []item, m map[gkey]types.Row, b bounds) {
	vs.Requires(isListOf(s, m))
	vs.Proof(func() { M_Listed(s, m) })
	vs.EnsuresAll("nothing that is looked for follows", func(p, q vs.Idx) bool {
		vs.Proof(func() {
			if 0 <= p && p < q && int(q) < len(s) {
				encode.SLexTrans(b.max, string(s[p].key), string(s[q].key))
			}
		})
		return vs.Imp(vs.And(0 <= p, p < q, int(q) < len(s), past(b, gk(s[p]))), !wanted(b, s[q]))
	})
}

//vs:lemma
//vs:prop C16
func V_ListedRows(s []item, m map[gkey]types.Row, rel relationId, cts []types.ColumnType, key []types.ColumnKey) {
	vs.Requires(isListOf(s, m))
	vs.Requires(tableOK(m, rel, cts, key))
	vs.Proof(func() { M_Listed(s, m) })
	vs.Ensures("what iterating over a table yields is as declared", vs.Forall(func(i vs.Idx) bool {
		return vs.Imp(vs.And(0 <= i, int(i) < len(s), s[i].rel == rel), rowAt(cts, key, string(s[i].key), s[i].row))
	}))
}

//vs:lemma
//vs:prop C16
func V_Chosen(s []item, m map[gkey]types.Row, b bounds, n, j int) {
	vs.Requires(0 <= n && n <= len(s))
	vs.Requires(listed(s, m))
	r := chosen(s, b, n)
	vs.Requires(0 <= j && j < len(r))
	vs.Decreases(n)
	vs.Proof(func() {
		if n > 0 && j < len(chosen(s, b, n-1)) {
			V_Chosen(s, m, b, n-1, j)
		}
	})
	vs.Ensures("they are looked for", wanted(b, r[j]))
	vs.Ensures("they are there", vs.And(has(m, gk(r[j])), vs.Eq(m[gk(r[j])], r[j].row)))
}

//vs:lemma
//vs:prop C16
func V_ChosenAll(s []item, b bounds, n, i int) {
	vs.Requires(0 <= i && i < n && n <= len(s))
	vs.Requires(wanted(b, s[i]))
	vs.Decreases(n)
	vs.Proof(func() {
		if i < n-1 {
			V_ChosenAll(s, b, n-1, i)
		}
	})
	r, p := chosen(s, b, n), len(chosen(s, b, i))
	vs.Ensures("none is left out", vs.And(p < len(r), vs.Eq(r[p], s[i])))
}

//vs:lemma
//vs:prop C16
func V_ChosenBefore(s []item, b bounds, n, j, q int) {
	vs.Requires(0 <= n && n <= q && q < len(s))
	vs.Requires(inOrder(s))
	r := chosen(s, b, n)
	vs.Requires(0 <= j && j < len(r))
	vs.Decreases(n)
	vs.Proof(func() {
		if n > 0 && j < len(chosen(s, b, n-1)) {
			V_ChosenBefore(s, b, n-1, j, q)
		}
	})
	vs.Ensures("they come before what follows", before(gk(r[j]), gk(s[q])))
}

//vs:lemma
//vs:prop C16
func V_ChosenOrder(s []item, b bounds, n, i, j int) {
	vs.Requires(0 <= n && n <= len(s))
	vs.Requires(inOrder(s))
	r := chosen(s, b, n)
	vs.Requires(0 <= i && i < j && j < len(r))
	vs.Decreases(n)
	vs.Proof(func() {
		if n > 0 {
			if j < len(chosen(s, b, n-1)) {
				V_ChosenOrder(s, b, n-1, i, j)
			} else {
				V_ChosenBefore(s, b, n-1, i, n-1)
			}
		}
	})
	vs.Ensures("they are in order", before(gk(r[i]), gk(r[j])))
}

// what a scan yields, given the entries of the tree
//
//vs:lemma
//vs:prop C16
func V_Scan(s []item, m map[gkey]types.Row, b bounds) {
	vs.Requires(isListOf(s, m))
	vs.Proof(func() { M_Listed(s, m) })
	r := chosen(s, b, len(s))
	vs.EnsuresAll("each is in the table and looked for", func(j vs.Idx) bool {
		vs.Proof(func() {
			if 0 <= j && int(j) < len(r) {
				V_Chosen(s, m, b, len(s), int(j))
			}
		})
		return vs.Imp(vs.And(0 <= j, int(j) < len(r)),
			vs.And(wanted(b, r[j]), has(m, gk(r[j])), vs.Eq(m[gk(r[j])], r[j].row)))
	})
	vs.EnsuresAll("none is left out", func(k gkey) bool {
		i := vs.UF[int]("btree.ix", m, k)
		vs.Proof(func() {
			if has(m, k) && wanted(b, s[i]) {
				V_ChosenAll(s, b, len(s), i)
			}
		})
		p := len(chosen(s, b, i))
		return vs.Imp(vs.And(has(m, k), wanted(b, item{rel: k.rel, key: []byte(k.key), row: m[k]})),
			vs.And(p < len(r), vs.Eq(gk(r[p]), k)))
	})
	vs.EnsuresAll("they are in order, each once", func(i, j vs.Idx) bool {
		vs.Proof(func() {
			if 0 <= i && i < j && int(j) < len(r) {
				V_ChosenOrder(s, b, len(s), int(i), int(j))
			}
		})
		return vs.Imp(vs.And(0 <= i, i < j, int(j) < len(r)), before(gk(r[i]), gk(r[j])))
	})
}

func boundsOf(tbl *table, minRow, maxRow types.Row, pred storage.Predicate) bounds {
	b := bounds{rel: relOf(tbl.tid, 0), hasMax: maxRow != nil, pred: pred}
	b.min = vs.Ite(minRow != nil, encode.SKey(tbl.tt.Key, minRow), "")
	b.max = vs.Ite(maxRow != nil, encode.SKey(tbl.tt.Key, maxRow), "")
	if pred != nil {
		b.col = int(pred.Column())
	}
	return b
}

//vs:contract (*storage/basic.table).Rows
//vs:prop C13 C16 C17 C21
//vs:fuels chosen=1 wanted=1 rowAt=1 sfits=1 Lex=0
func V_Rows(tbl *table, ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row, pred storage.Predicate) (storage.Rows, error) {
	vs.Requires(tbl.tx != nil && tbl.tt != nil && tbl.tx.tree != nil)
	vs.Requires(typeFits(tbl.tt))
	key, cts := tbl.tt.Key, tbl.tt.ColumnTypes
	vs.Requires(vs.Imp(minRow != nil, encode.SKeyFits(key, len(minRow))))
	vs.Requires(vs.Imp(maxRow != nil, encode.SKeyFits(key, len(maxRow))))
	b := boundsOf(tbl, minRow, maxRow, pred)
	vs.Requires(vs.Imp(pred != nil, b.col < len(cts)))
	if pred != nil {
		vs.Requires(predOf(pred, cts[b.col].Type))
	}
	m := rowsOf(tbl.tx.tree)
	vs.Requires(tableOK(m, b.rel, cts, key))
	s := itemsOf(tbl.tx.tree)
	open := tbl.tx.rowsCount
	vs.Proof(func() {
		V_Past(s, m, b)
		V_ListedRows(s, m, b.rel, cts, key)
	})
	vs.Loop(func(items []item, stopped bool, i vs.Idx) {
		vs.Inv(vs.Eq(items, chosen(s, b, int(i))))
		vs.Inv(vs.Imp(stopped, vs.Forall(func(p vs.Idx) bool {
			return vs.Imp(vs.And(i <= p, int(p) < len(s)), !wanted(b, s[p]))
		})))
	})
	vs.Modifies(&tbl.tx.rowsCount)
	r, err := tbl.Rows(ctx, cols, minRow, maxRow, pred)
	vs.Ensures("succeeds", err == nil)
	vs.Ensures("one more cursor is open", tbl.tx.rowsCount == open+1)
	rs := r.(*rows)
	vs.Ensures("a cursor before its first row", vs.And(rs.tbl == tbl, rs.next == 0, vs.Eq(rs.cols, cols)))
	vs.Ensures("of the rows looked for", vs.Eq(rs.items, chosen(s, b, len(s))))
	return r, err
}

//vs:contract (*storage/basic.rows).Next
//vs:prop C16 C17
func V_Next(rs *rows, ctx context.Context) (types.Row, error) {
	vs.Requires(rs.tbl != nil && rs.next <= len(rs.items))
	vs.Requires(vs.Forall2(func(i, k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= i, int(i) < len(rs.items), 0 <= k, int(k) < len(rs.cols)), int(rs.cols[k]) < len(rs.items[i].row))
	}))
	n := rs.next
	vs.Modifies(&rs.next)
	vs.MayPanic(n < 0)
	vs.OnPanic(func() { vs.Ensures("refused when the cursor is closed", rs.next == n && n < 0) })
	items, cols := rs.items, rs.cols
	vs.Loop(func(row []types.Value, i vs.Idx) {
		vs.Inv(len(row) == len(cols))
		vs.Inv(vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, k < i), vs.Eq(row[k], items[n].row[cols[k]]))
		}))
	})
	r, err := rs.Next(ctx)
	if n == len(items) {
		vs.Ensures("end of data", err == io.EOF && r == nil && rs.next == n)
		return r, err
	}
	vs.Ensures("the next row", err == nil && rs.next == n+1)
	vs.Ensures("all of it", vs.Imp(cols == nil, vs.Eq(r, items[n].row)))
	vs.Ensures("or the columns asked for", vs.Imp(cols != nil, vs.And(len(r) == len(cols), vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(cols)), vs.Eq(r[k], items[n].row[cols[k]]))
	}))))
	return r, err
}

//vs:contract (*storage/basic.rows).Current
//vs:prop C17 C18
func V_Current(rs *rows) (storage.RowRef, error) {
	vs.Requires(rs.tbl != nil && rs.next <= len(rs.items))
	vs.MayPanic(rs.next <= 0)
	r, err := rs.Current()
	vs.Ensures("refused before the first row and after closing", rs.next > 0)
	vs.Ensures("succeeds", err == nil)
	rr := r.(rowRef)
	vs.Ensures("the row returned last", vs.And(rr.tbl == rs.tbl, string(rr.key) == string(rs.items[rs.next-1].key)))
	return r, err
}

//vs:contract (*storage/basic.rows).Close
//vs:prop C14 C17
func V_Close(rs *rows, ctx context.Context) error {
	vs.Requires(rs.tbl != nil && rs.tbl.tx != nil)
	n, open := rs.next, rs.tbl.tx.rowsCount
	vs.Modifies(&rs.next, &rs.tbl.tx.rowsCount)
	vs.MayPanic(n < 0)
	vs.OnPanic(func() {
		vs.Ensures("refused when it is closed", vs.And(n < 0, rs.next == n, rs.tbl.tx.rowsCount == open))
	})
	err := rs.Close(ctx)
	vs.Ensures("succeeds", err == nil)
	vs.Ensures("closed", n >= 0 && rs.next < 0)
	vs.Ensures("one cursor less is open", rs.tbl.tx.rowsCount == open-1)
	return err
}

// ---- what holds whatever is done to a table (C19, C21)

//vs:lemma
//vs:prop C19
//vs:fuels storable=1 rowAt=1
func V_Storable(cts []types.ColumnType, key []types.ColumnKey, row types.Row) {
	vs.Requires(storable(cts, row))
	vs.Proof(func() { types.SConvRowStored(cts, row) })
	r := types.SConverted(cts, row)
	vs.Ensures("a row that can be stored is as declared once converted", rowAt(cts, key, encode.SKey(key, r), r))
}

//vs:theorem
//vs:prop C19
//vs:fuels newKey=1
func V_InsertConforms(tbl *table, ctx context.Context, rows []types.Row) {
	tblOpen(tbl)
	rel, cts, key := relOf(tbl.tid, 0), tbl.tt.ColumnTypes, tbl.tt.Key
	vs.Requires(tableOK(rowsOf(tbl.tx.tree), rel, cts, key))
	err := tbl.Insert(ctx, rows)
	m := rowsOf(tbl.tx.tree)
	vs.EnsuresAll("the rows are as declared", func(k gkey) bool {
		vs.Proof(func() {
			i := vs.Witness(func(i vs.Idx) bool {
				return vs.And(0 <= i, int(i) < len(rows), vs.Eq(k, newKey(rel, key, cts, rows[i])))
			})
			if err == nil && 0 <= i && int(i) < len(rows) {
				V_Storable(cts, key, rows[i])
			}
			if err == nil && len(rows) > 0 {
				V_Storable(cts, key, rows[len(rows)-1])
			}
		})
		return vs.Imp(vs.And(has(m, k), k.rel == rel), rowAt(cts, key, k.key, m[k]))
	})
}

//vs:theorem
//vs:prop C19
//vs:fuels rowAt=0 storable=1
func V_UpdateConforms(rr rowRef, ctx context.Context, cols []types.ColumnNum, vals []types.Value) {
	vs.Requires(rr.tbl != nil)
	tblOpen(rr.tbl)
	tbl := rr.tbl
	rel, cts, key := relOf(tbl.tid, 0), tbl.tt.ColumnTypes, tbl.tt.Key
	rk := refKey(rr)
	old := vs.Copy(rowsOf(tbl.tx.tree))
	vs.Requires(tableOK(old, rel, cts, key))
	vs.Requires(len(cols) == len(vals))
	vs.Requires(colsIn(cols, len(cts)))
	is := assigned(old[rk], cols, vals, len(cols))
	vs.Requires(has(old, rk))
	err := rr.Update(ctx, cols, vals)
	m := rowsOf(tbl.tx.tree)
	vs.Proof(func() {
		V_RowLen(cts, key, rk.key, old[rk])
		V_Assigned(old[rk], cols, vals, len(cols), 0)
		if err == nil {
			vs.Assert("step", storable(cts, is))
			V_Storable(cts, key, is)
		}
	})
	vs.Ensures("the rows are as declared", tableOK(m, rel, cts, key))
}

//vs:lemma
//vs:prop C19
//vs:fuels rowAt=1
func V_RowLen(cts []types.ColumnType, key []types.ColumnKey, k string, row types.Row) {
	vs.Ensures("a value for each column", vs.Imp(rowAt(cts, key, k, row), len(row) == len(cts)))
}

//vs:theorem
//vs:prop C19
func V_DeleteConforms(rr rowRef, ctx context.Context) {
	vs.Requires(rr.tbl != nil)
	tblOpen(rr.tbl)
	tbl := rr.tbl
	rel, cts, key := relOf(tbl.tid, 0), tbl.tt.ColumnTypes, tbl.tt.Key
	old := vs.Copy(rowsOf(tbl.tx.tree))
	vs.Requires(tableOK(old, rel, cts, key))
	vs.Requires(has(old, refKey(rr)))
	_ = rr.Delete(ctx)
	vs.Ensures("the rows are as declared", tableOK(rowsOf(tbl.tx.tree), rel, cts, key))
}

//vs:lemma
//vs:prop C21
func V_RelOf(t1, t2 storage.TableId, i1, i2 storage.IndexId) {
	vs.Ensures("tables and indexes have relations of their own", vs.Imp(relOf(t1, i1) == relOf(t2, i2), vs.And(t1 == t2, i1 == i2)))
}

// othersSame: what is stored outside of a relation is the same.
func othersSame(m, old map[gkey]types.Row, rel relationId) bool {
	return vs.Forall(func(k gkey) bool {
		return vs.Imp(k.rel != rel, vs.And(has(m, k) == has(old, k), vs.Eq(m[k], old[k])))
	})
}

//vs:theorem
//vs:prop C21
//vs:fuels newKey=1
func V_InsertOnly(tbl *table, ctx context.Context, rows []types.Row) {
	tblOpen(tbl)
	old := vs.Copy(rowsOf(tbl.tx.tree))
	rel, cts, key := relOf(tbl.tid, 0), tbl.tt.ColumnTypes, tbl.tt.Key
	err := tbl.Insert(ctx, rows)
	m := rowsOf(tbl.tx.tree)
	vs.EnsuresAll("nothing of another table changes", func(k gkey) bool {
		vs.Proof(func() {
			i := vs.Witness(func(i vs.Idx) bool {
				return vs.And(0 <= i, int(i) < len(rows), vs.Eq(k, newKey(rel, key, cts, rows[i])))
			})
			if err == nil && 0 <= i && int(i) < len(rows) {
				vs.Assert("step", newKey(rel, key, cts, rows[i]).rel == rel)
			}
			if err == nil && len(rows) > 0 {
				vs.Assert("step", newKey(rel, key, cts, rows[len(rows)-1]).rel == rel)
			}
		})
		return vs.Imp(k.rel != rel, vs.And(has(m, k) == has(old, k), vs.Eq(m[k], old[k])))
	})
}

//vs:theorem
//vs:prop C21
func V_DeleteOnly(rr rowRef, ctx context.Context) {
	vs.Requires(rr.tbl != nil)
	tblOpen(rr.tbl)
	old := vs.Copy(rowsOf(rr.tbl.tx.tree))
	vs.Requires(has(old, refKey(rr)))
	_ = rr.Delete(ctx)
	vs.Ensures("nothing of another table changes", othersSame(rowsOf(rr.tbl.tx.tree), old, relOf(rr.tbl.tid, 0)))
}

//vs:theorem
//vs:prop C21
func V_UpdateOnly(rr rowRef, ctx context.Context, cols []types.ColumnNum, vals []types.Value) {
	vs.Requires(rr.tbl != nil)
	tblOpen(rr.tbl)
	tbl := rr.tbl
	cts, key := tbl.tt.ColumnTypes, tbl.tt.Key
	rk := refKey(rr)
	old := vs.Copy(rowsOf(tbl.tx.tree))
	vs.Requires(len(cols) == len(vals))
	vs.Requires(colsIn(cols, len(cts)))
	vs.Requires(vs.Imp(has(old, rk), rowAt(cts, key, rk.key, old[rk])))
	vs.Requires(has(old, rk))
	_ = rr.Update(ctx, cols, vals)
	vs.Ensures("nothing of another table changes", othersSame(rowsOf(tbl.tx.tree), old, relOf(tbl.tid, 0)))
}

//vs:theorem
//vs:prop C21
//vs:fuels chosen=0 wanted=1
func V_RowsOnly(tbl *table, ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row, pred storage.Predicate) {
	vs.Requires(tbl.tx != nil && tbl.tt != nil && tbl.tx.tree != nil)
	vs.Requires(typeFits(tbl.tt))
	key, cts := tbl.tt.Key, tbl.tt.ColumnTypes
	vs.Requires(vs.Imp(minRow != nil, encode.SKeyFits(key, len(minRow))))
	vs.Requires(vs.Imp(maxRow != nil, encode.SKeyFits(key, len(maxRow))))
	b := boundsOf(tbl, minRow, maxRow, pred)
	vs.Requires(vs.Imp(pred != nil, b.col < len(cts)))
	if pred != nil {
		vs.Requires(predOf(pred, cts[b.col].Type))
	}
	m := rowsOf(tbl.tx.tree)
	vs.Requires(tableOK(m, b.rel, cts, key))
	s := itemsOf(tbl.tx.tree)
	r, _ := tbl.Rows(ctx, cols, minRow, maxRow, pred)
	rs := r.(*rows)
	vs.Proof(func() { M_Listed(s, m) })
	vs.EnsuresAll("only rows of the table are returned", func(j vs.Idx) bool {
		vs.Proof(func() {
			if 0 <= j && int(j) < len(rs.items) {
				V_Chosen(s, m, b, len(s), int(j))
			}
		})
		return vs.Imp(vs.And(0 <= j, int(j) < len(rs.items)), rs.items[j].rel == relOf(tbl.tid, 0))
	})
}

var _ types.Row
