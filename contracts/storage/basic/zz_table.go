package basic

import (
	"bytes"
	"context"
	"encoding/gob"
	"io"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"

	"vs"
)

// ---- the catalogue of tables (C20)

// What encoding/gob promises: what is encoded is decoded again.

func gobEnc(tt tableType) string { return vs.UF[string]("gob.enc", tt) }
func gobDec(s string) tableType  { return vs.UF[tableType]("gob.dec", s) }

//vs:model encoding/gob.NewEncoder
func M_NewEncoder(w io.Writer) *gob.Encoder {
	e := new(gob.Encoder)
	*vs.G[*bytes.Buffer](e, "w") = w.(*bytes.Buffer)
	return e
}

//vs:model (*encoding/gob.Encoder).Encode
func M_Encode(e *gob.Encoder, v any) error {
	tt := *(v.(*tableType))
	vs.Assume("gob decodes what it has encoded", vs.Eq(gobDec(gobEnc(tt)), tt))
	buf := *vs.G[*bytes.Buffer](e, "w")
	*vs.G[string](buf, "bytes") = gobEnc(tt)
	return nil
}

//vs:model (*bytes.Buffer).Bytes
func M_Bytes(b *bytes.Buffer) []byte { return []byte(*vs.G[string](b, "bytes")) }

//vs:model bytes.NewReader
func M_NewReader(b []byte) *bytes.Reader {
	r := new(bytes.Reader)
	*vs.G[string](r, "bytes") = string(b)
	return r
}

//vs:model encoding/gob.NewDecoder
func M_NewDecoder(r io.Reader) *gob.Decoder {
	d := new(gob.Decoder)
	*vs.G[string](d, "bytes") = *vs.G[string](r.(*bytes.Reader), "bytes")
	return d
}

//vs:model (*encoding/gob.Decoder).Decode
func M_Decode(d *gob.Decoder, v any) error {
	*(v.(*tableType)) = gobDec(*vs.G[string](d, "bytes"))
	return nil
}

// recordKey is where the description of a table is.
func recordKey(tid storage.TableId) gkey { return gkey{relOf(0, 0), encode.SKeyInt(int64(tid))} }

// record is the description of a table.
func record(m map[gkey]types.Row, tid storage.TableId) tableType {
	b, _ := m[recordKey(tid)][1].(types.BytesValue)
	return gobDec(string(b))
}

// isRecord: the entry is as setTableType makes it.
func isRecord(row types.Row) bool {
	if len(row) != 2 {
		return false
	}
	_, ok := row[1].(types.BytesValue)
	return ok
}

// catOK: what is known of the entry of a table.
func catOK(m map[gkey]types.Row, tid storage.TableId) bool {
	return vs.Imp(has(m, recordKey(tid)), isRecord(m[recordKey(tid)]))
}

//vs:contract (*storage/basic.transaction).getTableType
//vs:prop C20
//vs:fuels keyFits=1 ckCol=1
func V_getTableType(tx *transaction, tid storage.TableId) *tableType {
	vs.Requires(tx.tree != nil)
	m := rowsOf(tx.tree)
	vs.Requires(catOK(m, tid))
	vs.Proof(func() { encode.SKeyIntIs(tableTypesKey, types.Row{types.Int64Value(tid)}, int64(tid)) })
	r := tx.getTableType(tid)
	vs.Ensures("found when it is there", (r != nil) == has(m, recordKey(tid)))
	if r != nil {
		vs.Ensures("the description", vs.Eq(*r, record(m, tid)))
	}
	return r
}

// but: the same except for one entry.
func but(m, old map[gkey]types.Row, rk gkey) bool {
	return vs.Forall(func(k gkey) bool {
		return vs.Imp(!vs.Eq(k, rk), vs.And(has(m, k) == has(old, k), vs.Eq(m[k], old[k])))
	})
}

//vs:contract (*storage/basic.transaction).setTableType
//vs:prop C20
//vs:fuels keyFits=1 ckCol=1
func V_setTableType(tx *transaction, tid storage.TableId, tt *tableType) {
	vs.Requires(tx.tree != nil && tt != nil)
	old := vs.Copy(rowsOf(tx.tree))
	vs.Modifies(rowsOf(tx.tree))
	tx.setTableType(tid, tt)
	m := rowsOf(tx.tree)
	vs.Proof(func() {
		row := types.Row{types.Int64Value(tid), types.BytesValue(gobEnc(*tt))}
		encode.SKeyIntIs(tableTypesKey, row, int64(tid))
	})
	vs.Ensures("the description is recorded", vs.And(has(m, recordKey(tid)), isRecord(m[recordKey(tid)]), vs.Eq(record(m, tid), *tt)))
	vs.Ensures("nothing else changes", but(m, old, recordKey(tid)))
}

//vs:contract (*storage/basic.transaction).deleteTableType
//vs:prop C20
//vs:fuels keyFits=1 ckCol=1
func V_deleteTableType(tx *transaction, tid storage.TableId) bool {
	vs.Requires(tx.tree != nil)
	old := vs.Copy(rowsOf(tx.tree))
	vs.Proof(func() { encode.SKeyIntIs(tableTypesKey, types.Row{types.Int64Value(tid)}, int64(tid)) })
	vs.Modifies(rowsOf(tx.tree))
	r := tx.deleteTableType(tid)
	m := rowsOf(tx.tree)
	vs.Ensures("true if it was there", r == has(old, recordKey(tid)))
	delete(old, recordKey(tid))
	vs.Ensures("it is gone and nothing else changes", vs.SameMap(m, old))
	return r
}

func sameIds(a, b []types.Identifier) bool {
	return vs.And(len(a) == len(b), vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(a)), a[k] == b[k])
	}))
}

func sameTypes(a, b []types.ColumnType) bool {
	return vs.And(len(a) == len(b), vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(a)), vs.Eq(a[k], b[k]))
	}))
}

func sameKeys(a, b []types.ColumnKey) bool {
	return vs.And(len(a) == len(b), vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(a)), a[k] == b[k])
	}))
}

//vs:contract (*storage/basic.transaction).OpenTable
//vs:prop C20
func V_OpenTable(tx *transaction, ctx context.Context, tid storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) (storage.Table, error) {

	vs.Requires(tx.tree != nil)
	m := rowsOf(tx.tree)
	vs.Requires(catOK(m, tid))
	tt := record(m, tid)
	ok := vs.And(has(m, recordKey(tid)), vs.Eq(tn, tt.Name), sameIds(colNames, tt.ColumnNames),
		sameTypes(colTypes, tt.ColumnTypes), sameKeys(primary, tt.Key))
	vs.MayPanic(!ok)
	r, err := tx.OpenTable(ctx, tid, tn, colNames, colTypes, primary)
	vs.Ensures("opened only as it was created", ok)
	vs.Ensures("succeeds", err == nil)
	tbl := r.(*table)
	vs.Ensures("of this transaction", vs.And(tbl.tx == tx, tbl.tid == tid, tbl.tt != nil))
	vs.Ensures("as it was created", vs.Eq(*tbl.tt, tt))
	return r, err
}

func misusesRowid(colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey, n int) bool {
	return vs.Exists(func(i vs.Idx) bool {
		return vs.And(0 <= i, int(i) < n, colNames[i] == types.ROWID,
			vs.Or(i != 0, !vs.Eq(colTypes[0], types.Int64ColType), len(primary) != 1, primary[0] != 1))
	})
}

//vs:contract (*storage/basic.transaction).CreateTable
//vs:prop C20
func V_CreateTable(tx *transaction, ctx context.Context, tid storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) error {

	txOpen(tx)
	old := vs.Copy(rowsOf(tx.tree))
	vs.Requires(catOK(old, tid))
	wrong := vs.Or(tid < storage.EngineTableId, has(old, recordKey(tid)), len(colNames) != len(colTypes), primary == nil)
	misuse := misusesRowid(colNames, colTypes, primary, len(colNames))
	out := vs.Exists(func(k vs.Idx) bool {
		return vs.And(0 <= k, int(k) < len(primary), encode.SKeyCol(primary[k]) >= len(colNames))
	})
	vs.Loop(func(i vs.Idx) {
		vs.Inv(!misusesRowid(colNames, colTypes, primary, int(i)))
	})
	vs.Loop(func(i vs.Idx) {
		vs.Inv(vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, k < i), encode.SKeyCol(primary[k]) < len(colNames))
		}))
	})
	vs.Modifies(&tx.tree)
	if tx.tree != tx.st.tree {
		vs.Modifies(rowsOf(tx.tree))
	}
	vs.MayPanic(vs.Or(wrong, vs.And(!misuse, out)))
	vs.OnPanic(func() { vs.Ensures("refused without effect", vs.SameMap(rowsOf(tx.tree), old)) })
	err := tx.CreateTable(ctx, tid, tn, colNames, colTypes, primary)
	m := rowsOf(tx.tree)
	vs.Ensures("only with an identifier that is free and a consistent description", vs.And(!wrong, vs.Imp(!misuse, !out)))
	vs.Ensures("fails exactly when the row identifier column is misused", (err != nil) == misuse)
	vs.Ensures("a failed create changes nothing", vs.Imp(err != nil, vs.SameMap(m, old)))
	vs.Ensures("it is recorded", vs.Imp(err == nil, vs.And(has(m, recordKey(tid)), isRecord(m[recordKey(tid)]),
		vs.Eq(record(m, tid), tableType{1, tn, colNames, colTypes, primary}))))
	vs.Ensures("nothing else changes", but(m, old, recordKey(tid)))
	vs.Ensures("committed tables are not touched", vs.And(tx.tree != nil, vs.Imp(err == nil, tx.tree != tx.st.tree)))
	return err
}

// what a scan of a whole table yields
//
//vs:lemma
//vs:prop C20
//vs:fuels chosen=0 wanted=1 Lex=1
func V_ScanAll(s []item, m map[gkey]types.Row, rel relationId) {
	vs.Requires(isListOf(s, m))
	vs.Proof(func() { M_Listed(s, m) })
	b := bounds{rel: rel}
	r := chosen(s, b, len(s))
	vs.EnsuresAll("only its rows", func(j vs.Idx) bool {
		vs.Proof(func() {
			if 0 <= j && int(j) < len(r) {
				V_Chosen(s, m, b, len(s), int(j))
			}
		})
		return vs.Imp(vs.And(0 <= j, int(j) < len(r)), r[j].rel == rel)
	})
	vs.EnsuresAll("all its rows", func(k gkey) bool {
		i := vs.UF[int]("btree.ix", m, k)
		vs.Proof(func() {
			if has(m, k) && k.rel == rel {
				vs.Assert("step1", vs.Eq(gk(s[i]), k))
				vs.Assert("step2", !(vs.Lex(string(s[i].key), "") < 0))
				vs.Assert("step", wanted(b, s[i]))
				V_ChosenAll(s, b, len(s), i)
			}
		})
		p := len(chosen(s, b, i))
		return vs.Imp(vs.And(has(m, k), k.rel == rel), vs.And(p < len(r), vs.Eq(gk(r[p]), k)))
	})
}

//vs:contract (*storage/basic.transaction).DropTable
//vs:prop C20
//vs:fuels chosen=1 wanted=1 Lex=1
func V_DropTable(tx *transaction, ctx context.Context, tid storage.TableId) error {
	txOpen(tx)
	vs.Requires(tid >= storage.EngineTableId)
	old := vs.Copy(rowsOf(tx.tree))
	vs.Requires(catOK(old, tid))
	rk, rel := recordKey(tid), relOf(tid, 0)
	m1 := vs.Copy(old)
	delete(m1, rk)
	b, s := bounds{rel: rel}, listOf(m1)
	vs.Proof(func() {
		V_Past(s, m1, b)
		V_ScanAll(s, m1, rel)
	})
	vs.Modifies(&tx.tree)
	if tx.tree != tx.st.tree {
		vs.Modifies(rowsOf(tx.tree))
	}
	vs.MayPanic(!has(old, rk))
	vs.OnPanic(func() { vs.Ensures("refused without effect", vs.SameMap(rowsOf(tx.tree), old)) })
	vs.Loop(func(items []item, stopped bool, i vs.Idx) {
		vs.Inv(vs.Eq(items, chosen(s, b, int(i))))
		vs.Inv(vs.Imp(stopped, vs.Forall(func(p vs.Idx) bool {
			return vs.Imp(vs.And(i <= p, int(p) < len(s)), !wanted(b, s[p]))
		})))
	})
	vs.Loop(func(items []item, i vs.Idx) {
		m := rowsOf(tx.tree)
		vs.Inv(vs.Forall(func(j vs.Idx) bool {
			return vs.Imp(vs.And(0 <= j, j < i), !has(m, gk(items[j])))
		}))
		vs.Inv(vs.Forall(func(k gkey) bool {
			return vs.Imp(k.rel != rel, vs.And(has(m, k) == has(m1, k), vs.Eq(m[k], m1[k])))
		}))
		vs.Inv(vs.Forall(func(k gkey) bool { return vs.Imp(has(m, k), has(m1, k)) }))
	})
	err := tx.DropTable(ctx, tid)
	m := rowsOf(tx.tree)
	vs.Ensures("succeeds", vs.And(err == nil, has(old, rk)))
	vs.Ensures("the table and its rows are gone", vs.And(!has(m, rk), vs.Forall(func(k gkey) bool {
		return vs.Imp(k.rel == rel, !has(m, k))
	})))
	vs.Ensures("nothing else changes", vs.Forall(func(k gkey) bool {
		return vs.Imp(vs.And(!vs.Eq(k, rk), k.rel != rel), vs.And(has(m, k) == has(old, k), vs.Eq(m[k], old[k])))
	}))
	vs.Ensures("committed tables are not touched", vs.And(tx.tree != nil, tx.tree != tx.st.tree))
	return err
}

//vs:contract (*storage/basic.table).TID
//vs:prop C20
func V_TID(tbl *table) storage.TableId {
	r := tbl.TID()
	vs.Ensures("its identifier", r == tbl.tid)
	return r
}

//vs:contract (*storage/basic.table).Name
//vs:prop C20
func V_Name(tbl *table) types.TableName {
	vs.Requires(tbl.tt != nil)
	r := tbl.Name()
	vs.Ensures("its name", vs.Eq(r, tbl.tt.Name))
	return r
}

//vs:contract (*storage/basic.table).Version
//vs:prop C20
func V_Version(tbl *table) uint32 {
	vs.Requires(tbl.tt != nil)
	r := tbl.Version()
	vs.Ensures("its version", r == tbl.tt.Version)
	return r
}

//vs:contract (*storage/basic.table).ColumnNames
//vs:prop C20
func V_ColumnNames(tbl *table) []types.Identifier {
	vs.Requires(tbl.tt != nil)
	r := tbl.ColumnNames()
	vs.Ensures("its columns", vs.Eq(r, tbl.tt.ColumnNames))
	return r
}

//vs:contract (*storage/basic.table).ColumnTypes
//vs:prop C20
func V_ColumnTypes(tbl *table) []types.ColumnType {
	vs.Requires(tbl.tt != nil)
	r := tbl.ColumnTypes()
	vs.Ensures("their types", vs.Eq(r, tbl.tt.ColumnTypes))
	return r
}

//vs:contract (*storage/basic.table).Key
//vs:prop C20
func V_Key(tbl *table) []types.ColumnKey {
	vs.Requires(tbl.tt != nil)
	r := tbl.Key()
	vs.Ensures("its key", vs.Eq(r, tbl.tt.Key))
	return r
}

//vs:contract (*storage/basic.store).SetupColumns
//vs:prop C20
//vs:fuels ckCol=1
func V_SetupColumns(st *store, colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
	names, cts, key := st.SetupColumns(colNames, colTypes, primary)
	if primary != nil {
		vs.Ensures("a primary key is kept", vs.And(vs.Eq(names, colNames), vs.Eq(cts, colTypes), vs.Eq(key, primary)))
		return names, cts, key
	}
	vs.Ensures("without one there is a row identifier column", vs.And(
		vs.Eq(names, vs.Cat([]types.Identifier{types.ROWID}, colNames)),
		vs.Eq(cts, vs.Cat([]types.ColumnType{types.Int64ColType}, colTypes)),
		len(key) == 1, encode.SKeyCol(key[0]) == 0))
	return names, cts, key
}

//vs:lemma
//vs:prop C20
func V_RecordKey(t1, t2 storage.TableId) {
	vs.Proof(func() { encode.SKeyIntSame(int64(t1), int64(t2)) })
	vs.Ensures("each table has an entry of its own", vs.Imp(vs.Eq(recordKey(t1), recordKey(t2)), t1 == t2))
}

//vs:theorem
//vs:prop C20
func V_CreateOpen(tx *transaction, ctx context.Context, tid, other storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) {

	txOpen(tx)
	old := vs.Copy(rowsOf(tx.tree))
	vs.Requires(tid >= storage.EngineTableId && !has(old, recordKey(tid)))
	vs.Requires(len(colNames) == len(colTypes) && primary != nil)
	vs.Requires(vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(primary)), encode.SKeyCol(primary[k]) < len(colNames))
	}))
	vs.Requires(catOK(old, other))
	err := tx.CreateTable(ctx, tid, tn, colNames, colTypes, primary)
	m := rowsOf(tx.tree)
	vs.Proof(func() { V_RecordKey(tid, other) })
	vs.Ensures("other tables are as they were", vs.Imp(other != tid, vs.And(catOK(m, other),
		has(m, recordKey(other)) == has(old, recordKey(other)), vs.Eq(record(m, other), record(old, other)))))
	if err != nil {
		return
	}
	r, err := tx.OpenTable(ctx, tid, tn, colNames, colTypes, primary)
	vs.Ensures("it can be opened", err == nil)
	tt := *(r.(*table).tt)
	vs.Ensures("and is as it was created", vs.And(tt.Version == 1, vs.Eq(tt.Name, tn), vs.Eq(tt.ColumnNames, colNames),
		vs.Eq(tt.ColumnTypes, colTypes), vs.Eq(tt.Key, primary)))
}

//vs:theorem
//vs:prop C20
func V_DropCreate(tx *transaction, ctx context.Context, tid, other storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) {

	txOpen(tx)
	old := vs.Copy(rowsOf(tx.tree))
	vs.Requires(tid >= storage.EngineTableId && other >= storage.EngineTableId && has(old, recordKey(tid)))
	vs.Requires(catOK(old, tid) && catOK(old, other))
	_ = tx.DropTable(ctx, tid)
	m := rowsOf(tx.tree)
	vs.Proof(func() {
		V_RecordKey(tid, other)
		V_RelOf(0, tid, 0, 0)
	})
	vs.Ensures("other tables are as they were", vs.Imp(other != tid, vs.And(catOK(m, other),
		has(m, recordKey(other)) == has(old, recordKey(other)), vs.Eq(record(m, other), record(old, other)))))
	vs.Proof(func() { V_RelOf(other, tid, 0, 0) })
	vs.Ensures("and so are their rows", vs.Imp(other != tid, vs.Forall(func(k gkey) bool {
		return vs.Imp(k.rel == relOf(other, 0), vs.And(has(m, k) == has(old, k), vs.Eq(m[k], old[k])))
	})))
	vs.Requires(len(colNames) == len(colTypes) && primary != nil)
	vs.Requires(vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < len(primary)), encode.SKeyCol(primary[k]) < len(colNames))
	}))
	err := tx.CreateTable(ctx, tid, tn, colNames, colTypes, primary)
	vs.Ensures("a table created afresh is empty", vs.Imp(err == nil, vs.Forall(func(k gkey) bool {
		return vs.Imp(k.rel == relOf(tid, 0), !has(rowsOf(tx.tree), k))
	})))
}
