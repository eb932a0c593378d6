package evaluate

import (
	"context"
	"sync/atomic"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"

	"vs"
)

// ---- what the engine is asked to do, in order (a log), and what it answered

const (
	opCreateTable = iota + 1
	opDropTable
	opCreateIndex
	opDropIndex
	opCreateSchema
	opDropSchema
)

type op struct {
	kind     int
	tn       types.TableName
	sn       types.SchemaName
	index    types.Identifier
	ifExists bool
	names    []types.Identifier
	cts      []types.ColumnType
	key      []types.ColumnKey
	res      error
}

const (
	stOpen = iota
	stCommitted
	stRolledBack
)

func logOf(tx engine.Transaction) *[]op  { return vs.G[[]op](tx, "log") }
func stateOf(tx engine.Transaction) *int { return vs.G[int](tx, "state") }

func logged(tx engine.Transaction, o op) error {
	o.res = vs.Any[error]()
	*logOf(tx) = vs.Cat(*logOf(tx), []op{o})
	return o.res
}

// What opening a table gives, as long as nothing changes; opening changes nothing.
func openErr(tx engine.Transaction, tn types.TableName) error {
	return vs.UF[error]("open.err", tx, tn.Database, tn.Schema, tn.Table)
}
func opened(tx engine.Transaction, tn types.TableName) engine.Table {
	return vs.UF[engine.Table]("open.table", tx, tn.Database, tn.Schema, tn.Table)
}

//vs:iface engine.Transaction.OpenTable
func M_OpenTable(tx engine.Transaction, ctx context.Context, tn types.TableName) (engine.Table, error) {
	if openErr(tx, tn) != nil {
		return nil, openErr(tx, tn)
	}
	vs.Assume("an opened table is not nil", opened(tx, tn) != nil)
	return opened(tx, tn), nil
}

//vs:iface engine.Table.Type
func M_TableType(tbl engine.Table) *engine.TableType {
	tt := *vs.G[*engine.TableType](tbl, "type")
	vs.Assume("a table has a type, with fewer than 2^31 columns", tt != nil && len(tt.ColumnNames) < 1<<31-1)
	return tt
}

//vs:iface engine.Transaction.CreateTable
func M_CreateTable(tx engine.Transaction, ctx context.Context, tn types.TableName, names []types.Identifier, cts []types.ColumnType, key []types.ColumnKey) error {
	return logged(tx, op{kind: opCreateTable, tn: tn, names: names, cts: cts, key: key})
}

//vs:iface engine.Transaction.DropTable
func M_DropTable(tx engine.Transaction, ctx context.Context, tn types.TableName) error {
	return logged(tx, op{kind: opDropTable, tn: tn})
}

//vs:iface engine.Transaction.CreateIndex
func M_CreateIndex(tx engine.Transaction, ctx context.Context, tn types.TableName, in types.Identifier, key []types.ColumnKey) error {
	return logged(tx, op{kind: opCreateIndex, tn: tn, index: in, key: key})
}

//vs:iface engine.Transaction.DropIndex
func M_DropIndex(tx engine.Transaction, ctx context.Context, tn types.TableName, in types.Identifier) error {
	return logged(tx, op{kind: opDropIndex, tn: tn, index: in})
}

//vs:iface engine.Transaction.CreateSchema
func M_CreateSchema(tx engine.Transaction, ctx context.Context, sn types.SchemaName) error {
	return logged(tx, op{kind: opCreateSchema, sn: sn})
}

//vs:iface engine.Transaction.DropSchema
func M_DropSchema(tx engine.Transaction, ctx context.Context, sn types.SchemaName, ifExists bool) error {
	return logged(tx, op{kind: opDropSchema, sn: sn, ifExists: ifExists})
}

//vs:iface engine.Transaction.Commit
func M_Commit(tx engine.Transaction, ctx context.Context) error {
	vs.Requires(*stateOf(tx) == stOpen)
	*stateOf(tx) = stCommitted
	err := vs.Any[error]()
	*vs.G[error](tx, "result") = err
	return err
}

//vs:iface engine.Transaction.Rollback
func M_Rollback(tx engine.Transaction) error {
	vs.Requires(*stateOf(tx) == stOpen)
	*stateOf(tx) = stRolledBack
	err := vs.Any[error]()
	*vs.G[error](tx, "result") = err
	return err
}

//vs:iface engine.Engine.Begin
func M_Begin(eng engine.Engine) engine.Transaction {
	tx := vs.New[engine.Transaction]()
	*logOf(tx) = nil
	*stateOf(tx) = stOpen
	*ranN(tx) = 0
	*vs.G[engine.Transaction](eng, "last") = tx
	*vs.G[int](eng, "begun") += 1
	return tx
}

type dbop struct {
	create   bool
	dn       types.Identifier
	ifExists bool
	res      error
}

func dbLog(eng engine.Engine) *[]dbop { return vs.G[[]dbop](eng, "dbops") }

//vs:iface engine.Engine.CreateDatabase
func M_CreateDatabase(eng engine.Engine, dn types.Identifier, opts storage.OptionsMap) error {
	err := vs.Any[error]()
	*dbLog(eng) = vs.Cat(*dbLog(eng), []dbop{{true, dn, false, err}})
	return err
}

//vs:iface engine.Engine.DropDatabase
func M_DropDatabase(eng engine.Engine, dn types.Identifier, ifExists bool) error {
	err := vs.Any[error]()
	*dbLog(eng) = vs.Cat(*dbLog(eng), []dbop{{false, dn, ifExists, err}})
	return err
}

// ---- columns by name (C30)

//vs:contract evaluate.columnNumber
//vs:prop C30
func V_columnNumber(nam types.Identifier, colNames []types.Identifier) (types.ColumnNum, bool) {
	vs.Requires(len(colNames) < 1<<31)
	vs.Loop(func(num vs.Idx) {
		vs.Inv(vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, k < num), colNames[k] != nam)
		}))
	})
	r, ok := columnNumber(nam, colNames)
	vs.Ensures("the first column of that name", isColumn(colNames, nam, r, ok))
	return r, ok
}

func isColumn(colNames []types.Identifier, nam types.Identifier, r types.ColumnNum, ok bool) bool {
	return vs.And(
		vs.Imp(ok, vs.And(r >= 0, int(r) < len(colNames), colNames[r] == nam, vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, int(k) < int(r)), colNames[k] != nam)
		}))),
		vs.Imp(!ok, vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, int(k) < len(colNames)), colNames[k] != nam)
		})))
}

// sKeyOf: the key has one entry per column of ik, in order, each with the
// position of that column and its direction.
func sKeyOf(ik sql.IndexKey, names []types.Identifier, key []types.ColumnKey) bool {
	return vs.And(len(key) == len(ik.Columns), sPartOf(ik.Columns, ik.Reverse, names, key))
}

func sPartOf(cols []types.Identifier, rev []bool, names []types.Identifier, key []types.ColumnKey) bool {
	return vs.Forall(func(j vs.Idx) bool {
		return vs.Imp(vs.And(0 <= j, int(j) < len(key)), vs.And(
			types.SKeyInt(key[j]) >= 0,
			types.SKeyInt(key[j]) < len(names),
			names[types.SKeyInt(key[j])] == cols[j],
			(key[j] < 0) == rev[j]))
	})
}

// sMissing: col is a column of ik which is not among the names.
func sMissing(ik sql.IndexKey, names []types.Identifier, col types.Identifier) bool {
	return vs.And(
		vs.Exists(func(j vs.Idx) bool { return vs.And(0 <= j, int(j) < len(ik.Columns), ik.Columns[j] == col) }),
		vs.Forall(func(k vs.Idx) bool { return vs.Imp(vs.And(0 <= k, int(k) < len(names)), names[k] != col) }))
}

func sAnyMissing(ik sql.IndexKey, names []types.Identifier) bool {
	return vs.Exists(func(j vs.Idx) bool {
		return vs.And(0 <= j, int(j) < len(ik.Columns), vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, int(k) < len(names)), names[k] != ik.Columns[j])
		}))
	})
}

// wellFormed: what the parser makes of a key (C36).
func wellFormed(ik sql.IndexKey) bool {
	return vs.And(len(ik.Reverse) == len(ik.Columns), vs.Forall(func(j vs.Idx) bool {
		return vs.Imp(vs.And(0 <= j, int(j) < len(ik.Columns)), ik.Columns[j] != 0)
	}))
}

//vs:contract evaluate.indexKeyToColumnKey
//vs:prop C30
func V_indexKeyToColumnKey(ik sql.IndexKey, colNames []types.Identifier) ([]types.ColumnKey, types.Identifier) {
	vs.Requires(len(colNames) < 1<<31-1 && wellFormed(ik))
	vs.Loop(func(key []types.ColumnKey, cdx vs.Idx) {
		vs.Inv(len(key) == int(cdx))
		vs.Inv((key == nil) == (cdx == 0))
		vs.Inv(sPartOf(ik.Columns, ik.Reverse, colNames, key))
		vs.Inv(vs.Forall(func(j vs.Idx) bool {
			return vs.Imp(vs.And(0 <= j, j < cdx), vs.Exists(func(k vs.Idx) bool {
				return vs.And(0 <= k, int(k) < len(colNames), colNames[k] == ik.Columns[j])
			}))
		}))
	})
	key, col := indexKeyToColumnKey(ik, colNames)
	vs.Ensures("fails exactly when a column is missing", (col != 0) == sAnyMissing(ik, colNames))
	vs.Ensures("and names it", vs.Imp(col != 0, vs.And(key == nil, sMissing(ik, colNames, col))))
	vs.Ensures("otherwise one entry per column", vs.Imp(col == 0, sKeyOf(ik, colNames, key)))
	vs.Ensures("no key without columns", vs.Imp(col == 0, (key == nil) == (len(ik.Columns) == 0)))
	return key, col
}

// grew: the log has grown by n entries, of which o is the i-th.
func grew(l, old []op, n int) bool {
	return vs.And(len(l) == len(old)+n, vs.Eq(l[:len(old)], old))
}

//vs:contract evaluate.EvaluateCreateIndex
//vs:prop C30 C28
func V_EvaluateCreateIndex(ctx context.Context, tx engine.Transaction, stmt *sql.CreateIndex) error {
	vs.Requires(tx != nil && stmt != nil && wellFormed(stmt.Key))
	l0 := vs.Copy(*logOf(tx))
	vs.Modifies(logOf(tx))
	vs.Loop(func(i vs.Idx) {
		ixs := vs.G[*engine.TableType](opened(tx, stmt.Table), "type")
		vs.Inv(vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, k < i), (*ixs).Indexes[k].Name != stmt.Index)
		}))
	})
	err := EvaluateCreateIndex(ctx, tx, stmt)
	l := *logOf(tx)
	o := l[len(l0)]
	oe := openErr(tx, stmt.Table)
	tt := *vs.G[*engine.TableType](opened(tx, stmt.Table), "type")
	none := vs.Eq(l, l0)
	vs.Ensures("fails if there is no such table", vs.Imp(oe != nil, vs.And(none, err != nil)))
	if oe == nil {
		ixs, names := tt.Indexes, tt.ColumnNames
		exists := vs.Exists(func(i vs.Idx) bool {
			return vs.And(0 <= i, int(i) < len(ixs), ixs[i].Name == stmt.Index)
		})
		missing := sAnyMissing(stmt.Key, names)
		vs.Ensures("an index that exists", vs.Imp(exists, vs.And(none, (err == nil) == stmt.IfNotExists)))
		vs.Ensures("an unknown column", vs.Imp(vs.And(!exists, missing), vs.And(none, err != nil)))
		vs.Ensures("created otherwise", vs.Imp(vs.And(!exists, !missing), vs.And(grew(l, l0, 1),
			o.kind == opCreateIndex, o.tn == stmt.Table, o.index == stmt.Index, sKeyOf(stmt.Key, names, o.key), err == o.res)))
	}
	return err
}

//vs:contract evaluate.EvaluateCreateTable
//vs:prop C30 C28
func V_EvaluateCreateTable(ctx context.Context, tx engine.Transaction, stmt *sql.CreateTable) error {
	vs.Requires(tx != nil && stmt != nil)
	cons, cols, cts := stmt.Constraints, stmt.Columns, stmt.ColumnTypes
	vs.Requires(len(cols) < 1<<31-1)
	vs.Requires(vs.Forall(func(p vs.Idx) bool {
		return vs.Imp(vs.And(0 <= p, int(p) < len(cons), cons[p].Type == sql.PrimaryConstraint), wellFormed(cons[p].Key))
	}))
	l0 := vs.Copy(*logOf(tx))
	vs.Modifies(logOf(tx))
	vs.Loop(func(primary []types.ColumnKey, i vs.Idx) {
		vs.Inv(primary == nil)
		vs.Inv(vs.Forall(func(p vs.Idx) bool {
			return vs.Imp(vs.And(0 <= p, p < i), cons[p].Type != sql.PrimaryConstraint)
		}))
	})
	err := EvaluateCreateTable(ctx, tx, stmt)
	l := *logOf(tx)
	o := l[len(l0)]
	oe := openErr(tx, stmt.Table)
	vs.Ensures("a table that exists", vs.Imp(oe == nil, vs.And(vs.Eq(l, l0), (err == nil) == stmt.IfNotExists)))
	made := vs.And(grew(l, l0, 1), o.kind == opCreateTable, o.tn == stmt.Table, vs.Eq(o.names, cols),
		vs.Eq(o.cts, cts), err == o.res)
	vs.Ensures("creates at most that table", vs.Or(vs.Eq(l, l0), made))
	none := vs.Forall(func(p vs.Idx) bool {
		return vs.Imp(vs.And(0 <= p, int(p) < len(cons)), cons[p].Type != sql.PrimaryConstraint)
	})
	vs.Ensures("without a primary key it is created without one", vs.Imp(vs.And(oe != nil, none), vs.And(made, len(o.key) == 0)))
	vs.EnsuresAll("with one it is created with that", func(p vs.Idx) bool {
		first := vs.And(0 <= p, int(p) < len(cons), cons[p].Type == sql.PrimaryConstraint, vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, k < p), cons[k].Type != sql.PrimaryConstraint)
		}))
		ik := cons[p].Key
		missing := sAnyMissing(ik, cols)
		return vs.Imp(vs.And(oe != nil, first), vs.And(
			vs.Imp(missing, vs.And(vs.Eq(l, l0), err != nil)),
			vs.Imp(!missing, vs.And(made, sKeyOf(ik, cols, o.key)))))
	})
	return err
}

//vs:contract evaluate.EvaluateDropIndex
//vs:prop C28
func V_EvaluateDropIndex(ctx context.Context, tx engine.Transaction, stmt *sql.DropIndex) error {
	vs.Requires(tx != nil && stmt != nil)
	l0 := vs.Copy(*logOf(tx))
	vs.Modifies(logOf(tx))
	err := EvaluateDropIndex(ctx, tx, stmt)
	l := *logOf(tx)
	o := l[len(l0)]
	vs.Ensures("drops the index", vs.And(grew(l, l0, 1), o.kind == opDropIndex, o.tn == stmt.Table, o.index == stmt.Index, err == o.res))
	return err
}

//vs:contract evaluate.EvaluateDropTable
//vs:prop C28
func V_EvaluateDropTable(ctx context.Context, tx engine.Transaction, stmt *sql.DropTable) error {
	vs.Requires(tx != nil && stmt != nil)
	l0, tns := vs.Copy(*logOf(tx)), stmt.Tables
	vs.Modifies(logOf(tx))
	vs.Loop(func(i vs.Idx) {
		l := *logOf(tx)
		vs.Inv(grew(l, l0, int(i)))
		vs.Inv(vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, k < i), vs.And(l[len(l0)+int(k)].kind == opDropTable, l[len(l0)+int(k)].tn == tns[k], l[len(l0)+int(k)].res == nil))
		}))
	})
	err := EvaluateDropTable(ctx, tx, stmt)
	l := *logOf(tx)
	n := len(l) - len(l0)
	vs.Ensures("drops the tables in order", vs.And(0 <= n, n <= len(tns), grew(l, l0, n), vs.Forall(func(k vs.Idx) bool {
		return vs.Imp(vs.And(0 <= k, int(k) < n), vs.And(l[len(l0)+int(k)].kind == opDropTable, l[len(l0)+int(k)].tn == tns[k]))
	})))
	vs.Ensures("up to the first failure", vs.And(vs.Imp(err == nil, n == len(tns)), vs.Imp(err != nil, vs.And(n > 0, err == l[len(l)-1].res)),
		vs.Forall(func(k vs.Idx) bool {
			return vs.Imp(vs.And(0 <= k, int(k) < vs.Ite(err == nil, n, n-1)), l[len(l0)+int(k)].res == nil)
		})))
	return err
}

// ---- sessions (C28, C29)

// The statements run in a transaction: how many, the last one and its result.
func ranN(tx engine.Transaction) *int        { return vs.G[int](tx, "ran.n") }
func ranStmt(tx engine.Transaction) *sql.Stmt { return vs.G[sql.Stmt](tx, "ran.stmt") }
func ranWith(tx engine.Transaction) *sql.Resolver { return vs.G[sql.Resolver](tx, "ran.with") }
func ranRes(tx engine.Transaction) *error     { return vs.G[error](tx, "ran.res") }

// fine: what the parser makes of a statement (C36).
func fine(stmt sql.Stmt) bool {
	switch stmt := stmt.(type) {
	case *sql.CreateTable:
		if stmt == nil {
			return false
		}
		cons := stmt.Constraints
		return vs.And(len(stmt.Columns) < 1<<31-1, vs.Forall(func(p vs.Idx) bool {
			return vs.Imp(vs.And(0 <= p, int(p) < len(cons), cons[p].Type == sql.PrimaryConstraint), wellFormed(cons[p].Key))
		}))
	case *sql.CreateIndex:
		return stmt != nil && wellFormed(stmt.Key)
	case *sql.CreateSchema:
		return stmt != nil
	case *sql.DropSchema:
		return stmt != nil
	case *sql.DropIndex:
		return stmt != nil
	case *sql.DropTable:
		return stmt != nil
	case *sql.CreateDatabase:
		return stmt != nil
	case *sql.DropDatabase:
		return stmt != nil
	case *sql.Set:
		return stmt != nil
	case *sql.Begin:
		return stmt != nil
	case *sql.Commit:
		return stmt != nil
	case *sql.Rollback:
		return stmt != nil
	}
	return false
}

// plain: statements that run in a transaction.
func plain(stmt sql.Stmt) bool {
	switch stmt.(type) {
	case *sql.CreateIndex, *sql.CreateSchema, *sql.CreateTable, *sql.DropIndex, *sql.DropSchema, *sql.DropTable:
		return true
	}
	return false
}

//vs:contract evaluate.Evaluate
//vs:prop C28 C30
func V_EvaluatePlain(ctx context.Context, tx engine.Transaction, stmt sql.Stmt) error {
	vs.Requires(tx != nil && plain(stmt) && fine(stmt))
	l0 := vs.Copy(*logOf(tx))
	vs.Modifies(logOf(tx), ranN(tx), ranStmt(tx), ranRes(tx), ranWith(tx))
	n := *ranN(tx)
	err := Evaluate(ctx, tx, stmt)
	*ranN(tx), *ranStmt(tx), *ranRes(tx) = n+1, stmt, err
	*ranWith(tx) = *sql.SResolver(stmt)
	l := *logOf(tx)
	o := l[len(l0)]
	switch stmt := stmt.(type) {
	case *sql.CreateSchema:
		vs.Ensures("creates the schema", vs.And(grew(l, l0, 1), o.kind == opCreateSchema, o.sn == stmt.Schema, err == o.res))
	case *sql.DropSchema:
		vs.Ensures("drops the schema", vs.And(grew(l, l0, 1), o.kind == opDropSchema, o.sn == stmt.Schema, o.ifExists == stmt.IfExists, err == o.res))
	case *sql.DropIndex:
		vs.Ensures("drops the index", vs.And(grew(l, l0, 1), o.kind == opDropIndex, o.tn == stmt.Table, o.index == stmt.Index, err == o.res))
	case *sql.CreateTable:
		vs.Ensures("creates at most that table", vs.Or(vs.Eq(l, l0), vs.And(grew(l, l0, 1), o.kind == opCreateTable, o.tn == stmt.Table, err == o.res)))
	case *sql.CreateIndex:
		vs.Ensures("creates at most that index", vs.Or(vs.Eq(l, l0), vs.And(grew(l, l0, 1), o.kind == opCreateIndex, o.tn == stmt.Table, err == o.res)))
	case *sql.DropTable:
		vs.Ensures("drops the tables", vs.Imp(err == nil, grew(l, l0, len(stmt.Tables))))
	}
	return err
}

//vs:contract (*evaluate.Session).Evaluate
//vs:prop C28 C29
func V_SessionEvaluate(ses *Session, ctx context.Context, stmt sql.Stmt) error {
	vs.Requires(ses.eng != nil && fine(stmt))
	eng, t0, dd, ds := ses.eng, ses.tx, ses.defaultDatabase, ses.defaultSchema
	begun, db0 := *vs.G[int](eng, "begun"), vs.Copy(*dbLog(eng))
	n0, res0 := 0, *sql.SResolved(stmt)
	if t0 != nil {
		vs.Requires(*stateOf(t0) == stOpen)
		n0 = *ranN(t0)
		vs.Modifies(logOf(t0), ranN(t0), ranStmt(t0), ranRes(t0), ranWith(t0), stateOf(t0), vs.G[error](t0, "result"))
	}
	types.SIdentifiers()
	vs.Modifies(sql.SResolver(stmt), sql.SResolved(stmt), &ses.tx, &ses.defaultDatabase, &ses.defaultSchema, vs.G[int](eng, "begun"), vs.G[engine.Transaction](eng, "last"), dbLog(eng))
	err := ses.Evaluate(ctx, stmt)
	last := *vs.G[engine.Transaction](eng, "last")
	nothingRun, stays := true, vs.And(ses.tx == t0, *vs.G[int](eng, "begun") == begun)
	if t0 != nil {
		nothingRun = *ranN(t0) == n0
		stays = vs.And(stays, *stateOf(t0) == stOpen)
	}
	noDB := vs.Eq(*dbLog(eng), db0)
	same := vs.And(ses.defaultDatabase == dd, ses.defaultSchema == ds)
	_, set := stmt.(*sql.Set)
	vs.Ensures("the names of the statement are resolved by the session, once", vs.And(*sql.SResolved(stmt) == res0+1, *sql.SResolver(stmt) == sql.Resolver(ses)))
	if plain(stmt) {
		tx := last
		if t0 != nil {
			tx = t0
		}
		vs.Ensures("and before it runs", *ranWith(tx) == sql.Resolver(ses))
	}
	vs.Ensures("only SET changes the defaults", vs.Or(set, same))
	switch stmt := stmt.(type) {
	case *sql.Begin:
		vs.Ensures("BEGIN opens a transaction if none is open", vs.And(nothingRun, noDB,
			vs.Imp(t0 != nil, vs.And(err != nil, stays)),
			vs.Imp(t0 == nil, vs.And(err == nil, *vs.G[int](eng, "begun") == begun+1, ses.tx == last, ses.tx != nil, *stateOf(last) == stOpen, *ranN(last) == 0))))
	case *sql.Commit:
		vs.Ensures("COMMIT finishes the transaction", vs.And(nothingRun, noDB, *vs.G[int](eng, "begun") == begun, ses.tx == nil,
			vs.Imp(t0 == nil, err != nil),
			vs.Imp(t0 != nil, vs.And(*stateOf(t0) == stCommitted, err == *vs.G[error](t0, "result")))))
	case *sql.Rollback:
		vs.Ensures("ROLLBACK finishes the transaction", vs.And(nothingRun, noDB, *vs.G[int](eng, "begun") == begun, ses.tx == nil,
			vs.Imp(t0 == nil, err != nil),
			vs.Imp(t0 != nil, vs.And(*stateOf(t0) == stRolledBack, err == *vs.G[error](t0, "result")))))
	case *sql.CreateDatabase:
		l := *dbLog(eng)
		vs.Ensures("a database is created outside transactions only", vs.And(nothingRun, stays,
			vs.Imp(t0 != nil, vs.And(err != nil, noDB)),
			vs.Imp(t0 == nil, vs.And(len(l) == len(db0)+1, vs.Eq(l[:len(db0)], db0), l[len(db0)].create, l[len(db0)].dn == stmt.Database, err == l[len(db0)].res))))
	case *sql.DropDatabase:
		l := *dbLog(eng)
		vs.Ensures("a database is dropped outside transactions only", vs.And(nothingRun, stays,
			vs.Imp(t0 != nil, vs.And(err != nil, noDB)),
			vs.Imp(t0 == nil, vs.And(len(l) == len(db0)+1, vs.Eq(l[:len(db0)], db0), !l[len(db0)].create, l[len(db0)].dn == stmt.Database, l[len(db0)].ifExists == stmt.IfExists, err == l[len(db0)].res))))
	case *sql.Set:
		vs.Ensures("SET runs outside transactions", vs.And(nothingRun, noDB, stays))
		v := stmt.Variable
		vs.Ensures("an unknown variable is an error, and the only one", vs.Iff(err != nil, vs.And(v != types.DATABASE, v != types.SCHEMA)))
		vs.Ensures("SET DATABASE sets the database", vs.Ite(v == types.DATABASE, isID(ses.defaultDatabase, stmt.Value), ses.defaultDatabase == dd))
		vs.Ensures("SET SCHEMA sets the schema", vs.Ite(v == types.SCHEMA, isID(ses.defaultSchema, stmt.Value), ses.defaultSchema == ds))
	default:
		vs.Ensures("no database is created or dropped", noDB)
		if t0 != nil {
			vs.Ensures("a statement runs in the open transaction, which stays open", vs.And(stays, *ranN(t0) == n0+1, *ranStmt(t0) == stmt, err == *ranRes(t0)))
		} else {
			vs.Ensures("a statement runs in a transaction of its own", vs.And(ses.tx == nil, *vs.G[int](eng, "begun") == begun+1,
				last != nil, *ranN(last) == 1, *ranStmt(last) == stmt))
			vs.Ensures("which is committed if it succeeds", vs.Imp(*ranRes(last) == nil, vs.And(*stateOf(last) == stCommitted, err == *vs.G[error](last, "result"))))
			vs.Ensures("and rolled back if it fails", vs.Imp(*ranRes(last) != nil, vs.And(*stateOf(last) == stRolledBack, err == *ranRes(last))))
		}
	}
	return err
}

func isID(id types.Identifier, s string) bool { return types.SIsID(s, false, id) }

//vs:contract (*evaluate.Session).set
//vs:prop C29
func V_set(ses *Session, id types.Identifier, val string) error {
	types.SIdentifiers()
	dd, ds := ses.defaultDatabase, ses.defaultSchema
	vs.Modifies(&ses.defaultDatabase, &ses.defaultSchema)
	err := ses.set(id, val)
	vs.Ensures("an unknown variable is an error, and the only one", vs.Iff(err != nil, vs.And(id != types.DATABASE, id != types.SCHEMA)))
	vs.Ensures("SET DATABASE sets the database", vs.Ite(id == types.DATABASE, isID(ses.defaultDatabase, val), ses.defaultDatabase == dd))
	vs.Ensures("SET SCHEMA sets the schema", vs.Ite(id == types.SCHEMA, isID(ses.defaultSchema, val), ses.defaultSchema == ds))
	return err
}

//vs:contract (*evaluate.Session).ResolveTable
//vs:prop C29
func V_ResolveTable(ses *Session, tn types.TableName) types.TableName {
	dd, ds := ses.defaultDatabase, ses.defaultSchema
	r := ses.ResolveTable(tn)
	vs.Ensures("the table stays", r.Table == tn.Table)
	vs.Ensures("a name with a database is used as written", vs.Imp(tn.Database != 0, r == tn))
	vs.Ensures("the current database otherwise", vs.Imp(tn.Database == 0, r.Database == dd))
	vs.Ensures("and the current schema if none is given", vs.Imp(tn.Database == 0, r.Schema == vs.Ite(tn.Schema == 0, ds, tn.Schema)))
	return r
}

//vs:contract (*evaluate.Session).ResolveSchema
//vs:prop C29
func V_ResolveSchema(ses *Session, sn types.SchemaName) types.SchemaName {
	dd := ses.defaultDatabase
	r := ses.ResolveSchema(sn)
	vs.Ensures("the schema stays", r.Schema == sn.Schema)
	vs.Ensures("the current database if none is given", r.Database == vs.Ite(sn.Database == 0, dd, sn.Database))
	return r
}

//vs:model (*sync/atomic.Uint64).Add
func M_AtomicAdd(p *atomic.Uint64, delta uint64) uint64 { return vs.Any[uint64]() }

//vs:contract evaluate.NewSession
//vs:prop C28 C29
func V_NewSession(eng engine.Engine, defaultDatabase, defaultSchema types.Identifier) *Session {
	ses := NewSession(eng, defaultDatabase, defaultSchema)
	vs.Ensures("a session starts without a transaction", vs.And(ses != nil, ses.tx == nil, ses.eng == eng))
	vs.Ensures("and with these defaults", vs.And(ses.defaultDatabase == defaultDatabase, ses.defaultSchema == defaultSchema))
	return ses
}
