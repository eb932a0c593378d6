package engine

import (
	"bytes"
	"context"
	"encoding/gob"
	"errors"
	"io"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"

	"vs"
)

// ---- the catalogue (C23-C26, C37)
//
// What a store holds in the four tables of the catalogue, as seen by a
// transaction and as committed: from primary key to the other columns.  The
// models below say what storage promises of its tables; that the basic store
// keeps these promises is C13 to C20.

type zzKey struct {
	tid     storage.TableId
	a, b, c string
}

type zzVal struct {
	num int64
	typ string
}

func content(o any) map[zzKey]zzVal                 { return vs.GM[zzKey, zzVal](o, "content") }
func made(o any) map[storage.TableId]bool           { return vs.GM[storage.TableId, bool](o, "made") }
func storeOf(tx storage.Transaction) *storage.Store { return vs.G[storage.Store](tx, "store") }

// fault: the store has failed for a reason of its own.
func fault(tx storage.Transaction) *bool { return vs.G[bool](tx, "fault") }

func fails(tx storage.Transaction) error {
	*fault(tx) = true
	err := vs.Any[error]()
	vs.Assume("it is an error, and not the one that ends an iteration", vs.And(err != nil, err != io.EOF))
	return err
}

func infoOf(tid storage.TableId) *TypedInfo {
	switch tid {
	case sequencesTableId:
		return sequencesTypedInfo
	case databasesTableId:
		return databasesTypedInfo
	case schemasTableId:
		return schemasTypedInfo
	case tablesTableId:
		return tablesTypedInfo
	}
	return nil
}

func strOf(v types.Value) string { return string(v.(types.StringValue)) }

func keyOf(tid storage.TableId, row types.Row) zzKey {
	switch tid {
	case sequencesTableId, databasesTableId:
		return zzKey{tid, strOf(row[0]), "", ""}
	case schemasTableId:
		return zzKey{tid, strOf(row[0]), strOf(row[1]), ""}
	}
	return zzKey{tid, strOf(row[0]), strOf(row[1]), strOf(row[2])}
}

func valOf(tid storage.TableId, row types.Row) zzVal {
	switch tid {
	case sequencesTableId:
		return zzVal{num: int64(row[1].(types.Int64Value))}
	case tablesTableId:
		return zzVal{num: int64(row[3].(types.Int64Value)), typ: string(row[4].(types.BytesValue))}
	}
	return zzVal{}
}

func rowOf(k zzKey, v zzVal, tid storage.TableId) types.Row {
	switch tid {
	case sequencesTableId:
		return types.Row{types.StringValue(k.a), types.Int64Value(v.num)}
	case databasesTableId:
		return types.Row{types.StringValue(k.a)}
	case schemasTableId:
		return types.Row{types.StringValue(k.a), types.StringValue(k.b)}
	}
	return types.Row{types.StringValue(k.a), types.StringValue(k.b), types.StringValue(k.c),
		types.Int64Value(v.num), types.BytesValue(v.typ)}
}

// The order of keys is that of their strings, one after the other; that of
// strings is total and starts with the empty one (C05).
func strLess(s, t string) bool { return vs.UF[bool]("str.less", s, t) }

func keyLess(k, l zzKey) bool {
	return vs.Or(strLess(k.a, l.a), vs.And(k.a == l.a, vs.Or(strLess(k.b, l.b), vs.And(k.b == l.b, strLess(k.c, l.c)))))
}

//vs:axiom
func A_strOrder() {
	vs.Ensures("the empty string is least", vs.Forall(func(s string) bool { return !strLess(s, "") }))
	vs.Ensures("the order is total", vs.Forall2(func(s, t string) bool {
		return vs.And(vs.Imp(strLess(s, t), vs.And(s != t, !strLess(t, s))), vs.Imp(!strLess(s, t), vs.Or(s == t, strLess(t, s))))
	}))
	vs.Ensures("and transitive", vs.Forall2(func(s, t string) bool {
		return vs.Imp(strLess(s, t), vs.Forall(func(u string) bool { return vs.Imp(strLess(t, u), strLess(s, u)) }))
	}))
}

func tblTid(tbl storage.Table) *storage.TableId    { return vs.G[storage.TableId](tbl, "tid") }
func tblTx(tbl storage.Table) *storage.Transaction { return vs.G[storage.Transaction](tbl, "tx") }

// isInfo: the definition of a table is that of the catalogue.
func isInfo(tid storage.TableId, tn types.TableName, colNames []types.Identifier, colTypes []types.ColumnType,
	primary []types.ColumnKey) bool {

	ti := infoOf(tid)
	return vs.And(ti != nil, tn == ti.tn, vs.Eq(colNames, ti.colNames), vs.Eq(colTypes, ti.colTypes), vs.Eq(primary, ti.primary))
}

//vs:iface storage.Transaction.OpenTable
func M_OpenTable(tx storage.Transaction, ctx context.Context, tid storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) (storage.Table, error) {

	vs.Requires(isInfo(tid, tn, colNames, colTypes, primary))
	if _, ok := made(tx)[tid]; !ok {
		return nil, errors.New("no such table")
	}
	if vs.Any[bool]() {
		return nil, fails(tx)
	}
	tbl := vs.New[storage.Table]()
	*tblTid(tbl) = tid
	*tblTx(tbl) = tx
	return tbl, nil
}

//vs:iface storage.Transaction.CreateTable
func M_CreateTable(tx storage.Transaction, ctx context.Context, tid storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) error {

	vs.Requires(isInfo(tid, tn, colNames, colTypes, primary))
	if _, ok := made(tx)[tid]; ok {
		return errors.New("table exists")
	}
	if vs.Any[bool]() {
		return fails(tx)
	}
	made(tx)[tid] = true
	return nil
}

//vs:iface storage.Table.Insert
func M_Insert(tbl storage.Table, ctx context.Context, rows []types.Row) error {
	tid, tx := *tblTid(tbl), *tblTx(tbl)
	m := content(tx)
	if vs.Any[bool]() {
		return fails(tx)
	}
	for i, row := range rows {
		k := keyOf(tid, row)
		if _, ok := m[k]; ok {
			return errors.New("existing primary key")
		}
		for j := 0; j < i; j++ {
			if keyOf(tid, rows[j]) == k {
				return errors.New("existing primary key")
			}
		}
	}
	for _, row := range rows {
		m[keyOf(tid, row)] = valOf(tid, row)
	}
	return nil
}

// The state of an iteration.
type zzRows struct {
	tid    storage.TableId
	point  bool // of one key
	lo, hi zzKey
	hasLo  bool
	hasHi  bool
	n      int   // rows so far
	last   zzKey // key of the last
}

func iter(rows storage.Rows) *zzRows                { return vs.G[zzRows](rows, "iter") }
func iterTx(rows storage.Rows) *storage.Transaction { return vs.G[storage.Transaction](rows, "tx") }
func at(rows storage.Rows) map[zzKey]int            { return vs.GM[zzKey, int](rows, "at") }

func inRange(it *zzRows, k zzKey) bool {
	return vs.And(k.tid == it.tid, vs.Or(!it.hasLo, !keyLess(k, it.lo)), vs.Or(!it.hasHi, !keyLess(it.hi, k)))
}

//vs:iface storage.Table.Rows
func M_Rows(tbl storage.Table, ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row,
	pred storage.Predicate) (storage.Rows, error) {

	vs.Requires(cols == nil && pred == nil)
	tid, tx := *tblTid(tbl), *tblTx(tbl)
	if vs.Any[bool]() {
		return nil, fails(tx)
	}
	rows := vs.New[storage.Rows]()
	it := iter(rows)
	*iterTx(rows) = tx
	it.tid, it.n = tid, 0
	it.hasLo, it.hasHi = minRow != nil, maxRow != nil
	if minRow != nil {
		it.lo = keyOf(tid, minRow)
	}
	if maxRow != nil {
		it.hi = keyOf(tid, maxRow)
	}
	it.point = minRow != nil && maxRow != nil && it.lo == it.hi
	return rows, nil
}

//vs:iface storage.Rows.Next
func M_Next(rows storage.Rows, ctx context.Context) (types.Row, error) {
	tx := *iterTx(rows)
	m := content(tx)
	it := iter(rows)
	if vs.Any[bool]() {
		return nil, fails(tx)
	}
	if it.point {
		v, ok := m[it.lo]
		if it.n > 0 || !ok {
			return nil, io.EOF
		}
		it.n, it.last = 1, it.lo
		return rowOf(it.lo, v, it.tid), nil
	}
	if vs.Any[bool]() {
		vs.Assume("every row was seen", vs.Forall(func(q zzKey) bool {
			_, ok := m[q]
			return vs.Imp(vs.And(ok, inRange(it, q)), vs.And(it.n > 0, !keyLess(it.last, q)))
		}))
		return nil, io.EOF
	}
	k := vs.Any[zzKey]()
	v, ok := m[k]
	vs.Assume("the next row in the order of keys", vs.And(ok, inRange(it, k), vs.Or(it.n == 0, keyLess(it.last, k)),
		vs.Forall(func(q zzKey) bool {
			_, ok := m[q]
			return vs.Imp(vs.And(ok, inRange(it, q), vs.Or(it.n == 0, keyLess(it.last, q))), !keyLess(q, k))
		})))
	at(rows)[k] = it.n
	it.n, it.last = it.n+1, k
	return rowOf(k, v, it.tid), nil
}

//vs:iface storage.Rows.Close
func M_Close(rows storage.Rows, ctx context.Context) error { return vs.Any[error]() }

func refKey(rr storage.RowRef) *zzKey              { return vs.G[zzKey](rr, "key") }
func refTid(rr storage.RowRef) *storage.TableId    { return vs.G[storage.TableId](rr, "tid") }
func refTx(rr storage.RowRef) *storage.Transaction { return vs.G[storage.Transaction](rr, "tx") }

//vs:iface storage.Rows.Current
func M_Current(rows storage.Rows) (storage.RowRef, error) {
	vs.Requires(iter(rows).n > 0)
	if vs.Any[bool]() {
		return nil, fails(*iterTx(rows))
	}
	rr := vs.New[storage.RowRef]()
	*refKey(rr), *refTid(rr), *refTx(rr) = iter(rows).last, iter(rows).tid, *iterTx(rows)
	return rr, nil
}

//vs:iface storage.RowRef.Update
func M_Update(rr storage.RowRef, ctx context.Context, cols []types.ColumnNum, vals []types.Value) error {
	tx, k := *refTx(rr), *refKey(rr)
	vs.Requires(*refTid(rr) == sequencesTableId && len(cols) == 1 && len(vals) == 1 && cols[0] == 1)
	if vs.Any[bool]() {
		return fails(tx)
	}
	content(tx)[k] = zzVal{num: int64(vals[0].(types.Int64Value))}
	return nil
}

//vs:iface storage.RowRef.Delete
func M_Delete(rr storage.RowRef, ctx context.Context) error {
	tx := *refTx(rr)
	if vs.Any[bool]() {
		return fails(tx)
	}
	delete(content(tx), *refKey(rr))
	return nil
}

// ---- definitions of tables, as encoding/gob writes and reads them

func gobEnc(tt TableType) string { return vs.UF[string]("engine.gob.enc", tt) }
func gobDec(s string) TableType  { return vs.UF[TableType]("engine.gob.dec", s) }
func gobOK(s string) bool        { return vs.UF[bool]("engine.gob.ok", s) }

//vs:model encoding/gob.NewEncoder
func M_NewEncoder(w io.Writer) *gob.Encoder {
	e := new(gob.Encoder)
	*vs.G[*bytes.Buffer](e, "w") = w.(*bytes.Buffer)
	return e
}

//vs:model (*encoding/gob.Encoder).Encode
func M_Encode(e *gob.Encoder, v any) error {
	tt := *(v.(*TableType))
	if len(tt.ColumnDefaults) > 0 && vs.Any[bool]() {
		return errors.New("gob")
	}
	vs.Assume("gob decodes what it has encoded", vs.And(gobOK(gobEnc(tt)), vs.Eq(gobDec(gobEnc(tt)), tt)))
	buf := *vs.G[*bytes.Buffer](e, "w")
	*vs.G[string](buf, "bytes") = gobEnc(tt)
	return nil
}

//vs:model (*bytes.Buffer).Bytes
func M_Bytes(b *bytes.Buffer) []byte { return []byte(*vs.G[string](b, "bytes")) }

//vs:model bytes.NewReader
func M_NewReader(b []byte) *bytes.Reader {
	r := new(bytes.Reader)
	*vs.G[string](r, "bytes") = string(b)
	return r
}

//vs:model encoding/gob.NewDecoder
func M_NewDecoder(r io.Reader) *gob.Decoder {
	d := new(gob.Decoder)
	*vs.G[string](d, "bytes") = *vs.G[string](r.(*bytes.Reader), "bytes")
	return d
}

//vs:model (*encoding/gob.Decoder).Decode
func M_Decode(d *gob.Decoder, v any) error {
	s := *vs.G[string](d, "bytes")
	if !gobOK(s) {
		return errors.New("gob")
	}
	*(v.(*TableType)) = gobDec(s)
	return nil
}

// ---- databases (C23)

func dbKey(dn types.Identifier) zzKey { return zzKey{databasesTableId, types.SName(dn), "", ""} }

//vs:contract (*engine.engine).CreateDatabase
//vs:prop C23
//vs:unroll 3
func V_CreateDatabase(eng *engine, dn types.Identifier, opts storage.OptionsMap) error {
	vs.Requires(eng.store != nil && types.SNamed(dn))
	st := eng.store
	_, is := made(st)[databasesTableId]
	vs.Requires(is)
	old, b0 := vs.Copy(content(st)), *begun(st)
	k := dbKey(dn)
	_, has := old[k]
	types.SIdentifiers()
	vs.Modifies(begun(st), lastTx(st), content(st))
	err := eng.CreateDatabase(dn, opts)
	vs.Ensures("it is an error if the database exists, or with options", vs.Imp(vs.Or(has, len(opts) > 0), err != nil))
	vs.Ensures("and otherwise only if the store fails", vs.Or(err == nil, has, len(opts) > 0, *fault(*lastTx(st))))
	if err == nil {
		old[k] = zzVal{}
	}
	vs.Ensures("it adds that database and changes nothing else; nothing if it fails", vs.SameMap(content(st), old))
	vs.Ensures("no transaction is left open", vs.Or(*begun(st) == b0, vs.And(*begun(st) == b0+1, *fins(*lastTx(st)) == 1)))
	return err
}

//vs:contract (*engine.engine).DropDatabase
//vs:prop C23
//vs:unroll 3
func V_DropDatabase(eng *engine, dn types.Identifier, ifExists bool) error {
	vs.Requires(eng.store != nil && types.SNamed(dn))
	st := eng.store
	_, is := made(st)[databasesTableId]
	vs.Requires(is)
	old, b0 := vs.Copy(content(st)), *begun(st)
	k := dbKey(dn)
	_, has := old[k]
	types.SIdentifiers()
	vs.Modifies(begun(st), lastTx(st), content(st))
	err := eng.DropDatabase(dn, ifExists)
	vs.Ensures("it is an error if there is none", vs.Imp(!has && !ifExists, err != nil))
	vs.Ensures("and otherwise only if the store fails", vs.Or(err == nil, !has && !ifExists, *fault(*lastTx(st))))
	if err == nil && has {
		delete(old, k)
	}
	vs.Ensures("it removes that database and changes nothing else; nothing if it fails", vs.SameMap(content(st), old))
	vs.Ensures("no transaction is left open", vs.And(*begun(st) == b0+1, *fins(*lastTx(st)) == 1))
	return err
}

// listed: the names so far are those of the rows so far, in that order.
func listed(rows storage.Rows, ids []types.Identifier, key func(id types.Identifier) zzKey) bool {
	m, it := content(*iterTx(rows)), iter(rows)
	return vs.And(
		it.n == len(ids),
		vs.Forall(func(j vs.Idx) bool {
			k := key(ids[j])
			_, ok := m[k]
			return vs.Imp(vs.And(0 <= j, int(j) < len(ids)), vs.And(types.SNamed(ids[j]), ok, inRange(it, k), !keyLess(it.last, k), at(rows)[k] == int(j)))
		}))
}

func allListed(rows storage.Rows, ids []types.Identifier, key func(id types.Identifier) zzKey) bool {
	m, it := content(*iterTx(rows)), iter(rows)
	return vs.Forall(func(k zzKey) bool {
		_, ok := m[k]
		j := at(rows)[k]
		return vs.Imp(vs.And(ok, inRange(it, k), it.n > 0, !keyLess(it.last, k)), vs.And(0 <= j, j < len(ids), key(ids[j]) == k))
	})
}

// wf: the catalogue is as its operations leave it.
func wf(m map[zzKey]zzVal) bool {
	return vs.Forall(func(k zzKey) bool {
		_, ok := m[k]
		return vs.Imp(ok, vs.And(len(k.a) <= types.MaxIdentifier, len(k.b) <= types.MaxIdentifier, len(k.c) <= types.MaxIdentifier,
			vs.Imp(k.tid == databasesTableId, vs.And(k.b == "", k.c == "")),
			vs.Imp(k.tid == schemasTableId, k.c == "")))
	})
}

//vs:contract (*engine.engine).ListDatabases
//vs:prop C23
func V_ListDatabases(eng *engine) ([]types.Identifier, error) {
	vs.Requires(eng.store != nil && wf(content(eng.store)))
	st := eng.store
	_, is := made(st)[databasesTableId]
	vs.Requires(is)
	old, b0 := vs.Copy(content(st)), *begun(st)
	types.SIdentifiers()
	vs.Modifies(begun(st), lastTx(st))
	vs.Loop(func(rows storage.Rows, databases []types.Identifier) {
		vs.Inv(listed(rows, databases, dbKey))
		vs.Inv(allListed(rows, databases, dbKey))
		vs.Inv(*fault(*iterTx(rows)) == false)
	})
	vs.Proof(func() { A_strOrder() })
	r, err := eng.ListDatabases()
	vs.Ensures("fails only if the store does", vs.Or(err == nil, *fault(*lastTx(st))))
	if err == nil {
		vs.Ensures("each name listed is that of a database", vs.Forall(func(j vs.Idx) bool {
			_, ok := old[dbKey(r[j])]
			return vs.Imp(vs.And(0 <= j, int(j) < len(r)), ok)
		}))
		vs.Ensures("no name is listed twice", vs.Forall2(func(i, j vs.Idx) bool {
			return vs.Imp(vs.And(0 <= i, i < j, int(j) < len(r)), types.SName(r[i]) != types.SName(r[j]))
		}))
		vs.Ensures("each database is listed", vs.Forall(func(k zzKey) bool {
			_, ok := old[k]
			return vs.Imp(vs.And(ok, k.tid == databasesTableId), vs.Exists(func(j vs.Idx) bool {
				return vs.And(0 <= j, int(j) < len(r), types.SName(r[j]) == k.a)
			}))
		}))
	}
	vs.Ensures("no transaction is left open", vs.And(*begun(st) == b0+1, *fins(*lastTx(st)) == 1))
	return r, err
}

// ---- schemas (C24)

func schKey(sn types.SchemaName) zzKey {
	return zzKey{schemasTableId, types.SName(sn.Database), types.SName(sn.Schema), ""}
}

func namedSchema(sn types.SchemaName) bool {
	return vs.And(types.SNamed(sn.Database), types.SNamed(sn.Schema))
}

func has(m map[zzKey]zzVal, k zzKey) bool {
	_, ok := m[k]
	return ok
}

// ready: the transaction is open, on a store with a catalogue.
func ready(tx *transaction) bool {
	return tx.tx != nil && readyFor(made(tx.tx))
}

func readyFor(made map[storage.TableId]bool) bool {
	_, ok1 := made[sequencesTableId]
	_, ok2 := made[databasesTableId]
	_, ok3 := made[schemasTableId]
	_, ok4 := made[tablesTableId]
	return vs.And(ok1, ok2, ok3, ok4)
}

//vs:contract (*engine.transaction).CreateSchema
//vs:prop C24
//vs:unroll 3
func V_CreateSchema(tx *transaction, ctx context.Context, sn types.SchemaName) error {
	vs.Requires(ready(tx) && namedSchema(sn))
	st := tx.tx
	old := vs.Copy(content(st))
	ids, nms := types.SIds(), types.SNms()
	types.SIdentifiers()
	vs.Modifies(content(st), fault(st))
	db := has(old, dbKey(sn.Database))
	is := has(old, schKey(sn))
	err := tx.CreateSchema(ctx, sn)
	vs.Ensures("names are only added", types.SGrown(ids, nms))
	vs.Ensures("it is an error without its database", vs.Imp(!db, err != nil))
	vs.Ensures("it is an error if the schema exists", vs.Imp(is, err != nil))
	vs.Ensures("and otherwise only if the store fails", vs.Or(err == nil, !db, is, *fault(st)))
	if err == nil {
		old[schKey(sn)] = zzVal{}
	}
	vs.Ensures("it adds that schema and changes nothing else; nothing if it fails", vs.SameMap(content(st), old))
	return err
}

//vs:contract (*engine.transaction).DropSchema
//vs:prop C24
//vs:unroll 3
func V_DropSchema(tx *transaction, ctx context.Context, sn types.SchemaName, ifExists bool) error {
	vs.Requires(ready(tx) && namedSchema(sn))
	st := tx.tx
	old := vs.Copy(content(st))
	ids, nms := types.SIds(), types.SNms()
	types.SIdentifiers()
	vs.Modifies(content(st), fault(st))
	is := has(old, schKey(sn))
	err := tx.DropSchema(ctx, sn, ifExists)
	vs.Ensures("names are only added", types.SGrown(ids, nms))
	vs.Ensures("it is an error if there is none", vs.Imp(!is && !ifExists, err != nil))
	vs.Ensures("and otherwise only if the store fails", vs.Or(err == nil, !is && !ifExists, *fault(st)))
	same := vs.SameMap(content(st), old)
	if is {
		delete(old, schKey(sn))
	}
	done := vs.SameMap(content(st), old)
	vs.Ensures("it removes that schema and changes nothing else", vs.Imp(err == nil, done))
	vs.Ensures("it changes nothing if it fails before the store does", vs.Imp(err != nil, vs.Or(same, vs.And(done, *fault(st)))))
	return err
}

//vs:contract (*engine.transaction).ListSchemas
//vs:prop C24
//vs:unroll 0
func V_ListSchemas(tx *transaction, ctx context.Context, dn types.Identifier) ([]types.Identifier, error) {
	vs.Requires(ready(tx) && types.SNamed(dn) && wf(content(tx.tx)))
	st := tx.tx
	old := vs.Copy(content(st))
	ids, nms := types.SIds(), types.SNms()
	types.SIdentifiers()
	vs.Modifies(fault(st))
	name := types.SName(dn)
	key := func(id types.Identifier) zzKey { return zzKey{schemasTableId, name, types.SName(id), ""} }
	vs.Loop(func(rows storage.Rows, found bool) {
		vs.Inv(0 <= iter(rows).n && iter(rows).n <= 1)
		vs.Inv(found == (iter(rows).n == 1))
		vs.Inv(vs.Imp(found, has(content(st), dbKey(dn))))
		vs.Inv(vs.Imp(found, iter(rows).last == iter(rows).lo))
	})
	vs.Loop(func(rows storage.Rows, schemas []types.Identifier) {
		vs.Inv(types.SGrown(ids, nms))
		vs.Inv(types.SName(dn) == name)
		vs.Inv(types.SNamed(dn))
		vs.Inv(listed(rows, schemas, key))
		vs.Inv(allListed(rows, schemas, key))
	})
	vs.Proof(func() { A_strOrder() })
	r, err := tx.ListSchemas(ctx, dn)
	vs.Ensures("names are only added", types.SGrown(ids, nms))
	db := has(old, dbKey(dn))
	vs.Ensures("it is an error without the database", vs.Imp(!db, err != nil))
	vs.Ensures("and otherwise only if the store fails", vs.Or(err == nil, !db, *fault(st)))
	if err == nil {
		vs.Ensures("each name listed is that of a schema of the database", vs.Forall(func(j vs.Idx) bool {
			return vs.Imp(vs.And(0 <= j, int(j) < len(r)), has(old, key(r[j])))
		}))
		vs.Ensures("no name is listed twice", vs.Forall2(func(i, j vs.Idx) bool {
			return vs.Imp(vs.And(0 <= i, i < j, int(j) < len(r)), types.SName(r[i]) != types.SName(r[j]))
		}))
		vs.Ensures("each schema of the database is listed", vs.Forall(func(k zzKey) bool {
			return vs.Imp(vs.And(has(old, k), k.tid == schemasTableId, k.a == name), vs.Exists(func(j vs.Idx) bool {
				return vs.And(0 <= j, int(j) < len(r), types.SName(r[j]) == k.b)
			}))
		}))
	}
	return r, err
}

// ---- tables (C25, C26)

func tblKey(tn types.TableName) zzKey {
	return zzKey{tablesTableId, types.SName(tn.Database), types.SName(tn.Schema), types.SName(tn.Table)}
}

func namedTable(tn types.TableName) bool {
	return vs.And(types.SNamed(tn.Database), types.SNamed(tn.Schema), types.SNamed(tn.Table))
}

func seqKey() zzKey { return zzKey{sequencesTableId, nextTableIdSequence, "", ""} }

// tidOK: the identifiers of tables are those of the catalogue and those the
// sequence has given, each to one table.  Identifiers have 32 bits; that the
// sequence stays below is assumed.
func tidOK(m map[zzKey]zzVal) bool {
	next, ok := m[seqKey()]
	return vs.And(ok, next.num > int64(maxReservedTableId), next.num < 1<<32,
		vs.Forall(func(k zzKey) bool {
			v, ok := m[k]
			return vs.Imp(vs.And(ok, k.tid == tablesTableId), vs.And(v.num > 0, v.num < next.num,
				vs.Forall(func(l zzKey) bool {
					w, ok := m[l]
					return vs.Imp(vs.And(ok, l.tid == tablesTableId, w.num == v.num), l == k)
				})))
		}))
}

//vs:contract (*engine.transaction).nextTableId
//vs:prop C26 C25
//vs:unroll 3
func V_nextTableId(tx *transaction, ctx context.Context) (int64, error) {
	vs.Requires(ready(tx) && tidOK(content(tx.tx)))
	st := tx.tx
	old := vs.Copy(content(st))
	vs.Modifies(content(st), fault(st))
	tid, err := tx.nextTableId(ctx)
	v := old[seqKey()]
	same := vs.SameMap(content(st), old)
	old[seqKey()] = zzVal{num: v.num + 1}
	done := vs.SameMap(content(st), old)
	vs.Ensures("the number of the sequence", vs.Imp(err == nil, tid == v.num))
	vs.Ensures("the sequence moves on by one and nothing else changes", vs.Imp(err == nil, done))
	vs.Ensures("it changes nothing if it fails before the store does", vs.Imp(err != nil, vs.Or(same, vs.And(done, *fault(st)))))
	vs.Ensures("fails only if the store does", vs.Or(err == nil, *fault(st)))
	return tid, err
}

//vs:contract (*engine.transaction).CreateTable
//vs:prop C25 C26
//vs:unroll 3
func V_CreateTable(tx *transaction, ctx context.Context, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) error {

	vs.Requires(ready(tx) && namedTable(tn) && tidOK(content(tx.tx)))
	st := tx.tx
	old := vs.Copy(content(st))
	ids, nms := types.SIds(), types.SNms()
	types.SIdentifiers()
	vs.Modifies(content(st), fault(st))
	sch := has(old, schKey(tn.SchemaName()))
	is := has(old, tblKey(tn))
	next := old[seqKey()].num
	err := tx.CreateTable(ctx, tn, colNames, colTypes, primary)
	vs.Ensures("names are only added", types.SGrown(ids, nms))
	m := content(st)
	vs.Ensures("it is an error without its schema", vs.Imp(!sch, err != nil))
	vs.Ensures("it is an error if the table exists", vs.Imp(is, err != nil))
	tt := TableType{Version: 1, ColumnNames: colNames, ColumnTypes: colTypes, Key: primary}
	vs.Ensures("and otherwise only if its definition is too large or the store fails",
		vs.Or(err == nil, !sch, is, len(gobEnc(tt)) > maxTableTypeSize, *fault(st)))
	if err == nil {
		old[seqKey()] = zzVal{num: next + 1}
		old[tblKey(tn)] = zzVal{num: next, typ: gobEnc(tt)}
		vs.Ensures("it adds that table, with its definition and the next identifier, and changes nothing else", vs.SameMap(m, old))
		vs.Ensures("the definition can be read", vs.And(gobOK(gobEnc(tt)), vs.Eq(gobDec(gobEnc(tt)), tt)))
		vs.Ensures("the identifier is not reserved", next > int64(maxReservedTableId))
		vs.Ensures("the identifier is new", vs.Forall(func(k zzKey) bool {
			return vs.Imp(vs.And(has(m, k), k.tid == tablesTableId, k != tblKey(tn)), m[k].num < next)
		}))
	} else {
		vs.Ensures("it adds nothing if it fails, though the sequence may move on", vs.And(m[seqKey()].num >= next, m[seqKey()].num <= next+1,
			vs.Forall(func(k zzKey) bool {
				return vs.And(has(m, k) == has(old, k), vs.Or(k == seqKey(), m[k] == old[k]))
			})))
	}
	vs.Ensures("identifiers stay as they should", vs.Imp(next < 1<<32-1, tidOK(m)))
	return err
}

//vs:contract (*engine.transaction).OpenTable
//vs:prop C25
//vs:unroll 3
func V_OpenTable(tx *transaction, ctx context.Context, tn types.TableName) (Table, error) {
	vs.Requires(ready(tx) && namedTable(tn) && tidOK(content(tx.tx)))
	st := tx.tx
	ids, nms := types.SIds(), types.SNms()
	types.SIdentifiers()
	vs.Modifies(fault(st))
	r, err := tx.OpenTable(ctx, tn)
	vs.Ensures("names are only added", types.SGrown(ids, nms))
	v, is := content(st)[tblKey(tn)]
	vs.Ensures("it is an error if there is no table of that name", vs.Imp(!is, err != nil))
	vs.Ensures("and otherwise only if the store fails or the definition cannot be read", vs.Or(err == nil, !is, *fault(st), !gobOK(v.typ)))
	if err == nil {
		tbl, ok := r.(*table)
		vs.Ensures("a table", ok)
		vs.Ensures("its name", tbl.tn == tn)
		vs.Ensures("its identifier", int64(tbl.tid) == v.num)
		vs.Ensures("its definition", vs.And(tbl.tt != nil, vs.Eq(*tbl.tt, gobDec(v.typ))))
	}
	return r, err
}

//vs:contract (*engine.table).Name
//vs:prop C25
func V_tableName(tbl *table) types.TableName {
	r := tbl.Name()
	vs.Ensures("the name", r == tbl.tn)
	return r
}

//vs:contract (*engine.table).Type
//vs:prop C25
func V_tableType(tbl *table) *TableType {
	r := tbl.Type()
	vs.Ensures("the definition", r == tbl.tt)
	vs.Same(&r, tbl.tt)
	return r
}

//vs:contract (*engine.table).TableId
//vs:prop C25
func V_tableTid(tbl *table) storage.TableId {
	r := tbl.TableId()
	vs.Ensures("the identifier", r == tbl.tid)
	return r
}

// What was created is opened.
//
//vs:theorem
//vs:prop C25
func V_CreatedOpens(tx *transaction, ctx context.Context, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) {

	vs.Requires(ready(tx) && namedTable(tn) && tidOK(content(tx.tx)))
	vs.Requires(content(tx.tx)[seqKey()].num < 1<<32-1)
	next := content(tx.tx)[seqKey()].num
	types.SIdentifiers()
	vs.Modifies(content(tx.tx), fault(tx.tx))
	if tx.CreateTable(ctx, tn, colNames, colTypes, primary) != nil {
		return
	}
	r, err := tx.OpenTable(ctx, tn)
	if err != nil {
		return
	}
	tbl := r.(*table)
	vs.Ensures("with its name", tbl.Name() == tn)
	tt := tbl.Type()
	vs.Ensures("columns", vs.Eq(tt.ColumnNames, colNames))
	vs.Ensures("types", vs.Eq(tt.ColumnTypes, colTypes))
	vs.Ensures("and key", vs.Eq(tt.Key, primary))
	vs.Ensures("the identifier it got", int64(tbl.TableId()) == next)
	err = tx.CreateTable(ctx, tn, colNames, colTypes, primary)
	vs.Ensures("it cannot be created again", err != nil)
}

// Tables created by transactions of any history: at each commit the
// identifiers are as they should, and a transaction rolled back leaves nothing.
//
//vs:theorem
//vs:prop C26
func V_TableIds(eng *engine, ctx context.Context) {
	st := eng.store
	vs.Requires(st != nil && tidOK(content(st)))
	vs.Requires(readyFor(made(st)))
	first := content(st)[seqKey()].num
	types.SIdentifiers()
	vs.Modifies(begun(st), lastTx(st), content(st), made(st))
	old := vs.Copy(content(st))
	tx := eng.Begin().(*transaction)
	vs.Loop(func() {
		vs.Inv(ready(tx))
		vs.Inv(tidOK(content(tx.tx)))
		vs.Inv(content(tx.tx)[seqKey()].num >= first)
		vs.Inv(vs.SameMap(content(st), old))
		vs.Inv(*storeOf(tx.tx) == st)
	})
	for vs.Any[bool]() {
		tn := vs.Any[types.TableName]()
		vs.Assume("a name", namedTable(tn))
		next := content(tx.tx)[seqKey()].num
		vs.Assume("identifiers have 32 bits", next < 1<<32-1)
		err := tx.CreateTable(ctx, tn, vs.Any[[]types.Identifier](), vs.Any[[]types.ColumnType](), vs.Any[[]types.ColumnKey]())
		if err == nil {
			vs.Ensures("the counter moves on by one for each table", content(tx.tx)[seqKey()].num == next+1)
			vs.Ensures("which has the identifier counted", content(tx.tx)[tblKey(tn)].num == next)
			vs.Ensures("larger than any reserved", next > int64(maxReservedTableId))
		}
	}
	if vs.Any[bool]() {
		if tx.Commit(ctx) == nil {
			vs.Ensures("what is committed is as it should be", tidOK(content(st)))
			vs.Ensures("the counter never moves back", content(st)[seqKey()].num >= first)
		}
	} else {
		tx.Rollback()
		vs.Ensures("what is rolled back never was", vs.SameMap(content(st), old))
	}
}

// ---- a new store (C37)

//vs:contract engine.Init
//vs:prop C37 C26
//vs:unroll 6
func V_Init(store storage.Store) error {
	for _, ti := range []*TypedInfo{sequencesTypedInfo, databasesTypedInfo, schemasTypedInfo, tablesTypedInfo} {
		tt := TableType{Version: 1, ColumnNames: ti.colNames, ColumnTypes: ti.colTypes, Key: ti.primary}
		vs.Requires(len(gobEnc(tt)) <= maxTableTypeSize)
	}
	vs.Requires(store != nil && types.SInitNames())
	want, oldMade := content(store), vs.Copy(made(store))
	vs.Requires(vs.Forall(func(k zzKey) bool { return !has(want, k) }))
	vs.Requires(vs.Forall(func(t storage.TableId) bool {
		_, ok := oldMade[t]
		return !ok
	}))
	old, b0 := vs.Copy(content(store)), *begun(store)
	want = vs.Copy(old)
	types.SIdentifiers()
	vs.Modifies(begun(store), lastTx(store), content(store), made(store))
	err := Init(store)
	m := content(store)
	tx := *lastTx(store)
	if err == nil {
		want[zzKey{sequencesTableId, nextTableIdSequence, "", ""}] = zzVal{num: int64(maxReservedTableId) + 1}
		want[zzKey{databasesTableId, "system", "", ""}] = zzVal{}
		want[zzKey{databasesTableId, "maho", "", ""}] = zzVal{}
		want[zzKey{schemasTableId, "system", "info", ""}] = zzVal{}
		want[zzKey{schemasTableId, "maho", "public", ""}] = zzVal{}
		for _, ti := range []*TypedInfo{sequencesTypedInfo, databasesTypedInfo, schemasTypedInfo, tablesTypedInfo} {
			tt := TableType{Version: 1, ColumnNames: ti.colNames, ColumnTypes: ti.colTypes, Key: ti.primary}
			k := zzKey{tablesTableId, "system", "info", types.SName(ti.tn.Table)}
			want[k] = zzVal{num: int64(ti.tid), typ: gobEnc(tt)}
			vs.Ensures("the definition can be read", vs.And(gobOK(gobEnc(tt)), vs.Eq(gobDec(gobEnc(tt)), tt)))
			_, is := made(store)[ti.tid]
			vs.Ensures("the tables of the catalogue exist", is)
		}
		vs.Ensures("the catalogue is complete and nothing else is there", vs.SameMap(m, want))
		vs.Ensures("identifiers are as they should", tidOK(m))
		vs.Ensures("lengths are as they should", wf(m))
		vs.Ensures("it is committed", vs.And(*fins(tx) == 1, *finKind(tx) == finCommit))
	} else {
		vs.Ensures("nothing if it fails", vs.And(vs.SameMap(m, old), vs.SameMap(made(store), oldMade)))
		vs.Ensures("a failure is that of the store", *fault(tx))
	}
	vs.Ensures("no transaction is left open", vs.And(*begun(store) == b0+1, *fins(tx) == 1))
	return err
}
