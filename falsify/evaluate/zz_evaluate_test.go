package evaluate

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

// an engine that records what it is asked to do and fails at random

type zzEngine struct {
	e      *zzEnv
	log    []string
	nTx    int
	opened []types.TableName
	table  *engine.TableType // what OpenTable finds, if anything
	fail   bool              // operations may fail
	opFail error             // the last failure of an operation
}

func (g *zzEngine) do(f string, args ...interface{}) error {
	g.log = append(g.log, fmt.Sprintf(f, args...))
	if g.fail && g.e.Intn(4) == 0 {
		g.opFail = fmt.Errorf("failure %d", len(g.log))
		g.log[len(g.log)-1] += " fails"
		return g.opFail
	}
	return nil
}

func (g *zzEngine) CreateDatabase(dn types.Identifier, opts storage.OptionsMap) error {
	return g.do("create database %d", dn)
}
func (g *zzEngine) DropDatabase(dn types.Identifier, ifExists bool) error {
	return g.do("drop database %d %v", dn, ifExists)
}
func (g *zzEngine) ListDatabases() ([]types.Identifier, error) { return nil, nil }
func (g *zzEngine) Begin() engine.Transaction {
	g.nTx++
	g.log = append(g.log, fmt.Sprintf("begin %d", g.nTx))
	return &zzTx{g, g.nTx}
}

type zzTx struct {
	g *zzEngine
	n int
}

func (x *zzTx) Commit(ctx context.Context) error { return x.g.do("%d commit", x.n) }
func (x *zzTx) Rollback() error                  { return x.g.do("%d rollback", x.n) }
func (x *zzTx) CreateSchema(ctx context.Context, sn types.SchemaName) error {
	return x.g.do("%d create schema %d", x.n, sn)
}
func (x *zzTx) DropSchema(ctx context.Context, sn types.SchemaName, ifExists bool) error {
	return x.g.do("%d drop schema %d %v", x.n, sn, ifExists)
}
func (x *zzTx) ListSchemas(ctx context.Context, dn types.Identifier) ([]types.Identifier, error) {
	return nil, nil
}

var errZZNoTable = errors.New("no such table")

func (x *zzTx) OpenTable(ctx context.Context, tn types.TableName) (engine.Table, error) {
	x.g.opened = append(x.g.opened, tn) // changes nothing: when and how often is open
	if x.g.table == nil {
		return nil, errZZNoTable
	}
	return zzTable{tn, x.g.table}, nil
}
func (x *zzTx) CreateTable(ctx context.Context, tn types.TableName, names []types.Identifier,
	cts []types.ColumnType, key []types.ColumnKey) error {
	return x.g.do("%d create table %d %d %v %v", x.n, tn, names, cts, key)
}
func (x *zzTx) DropTable(ctx context.Context, tn types.TableName) error {
	return x.g.do("%d drop table %d", x.n, tn)
}
func (x *zzTx) ListTables(ctx context.Context, sn types.SchemaName) ([]types.Identifier, error) {
	return nil, nil
}
func (x *zzTx) CreateIndex(ctx context.Context, tn types.TableName, in types.Identifier, key []types.ColumnKey) error {
	return x.g.do("%d create index %d %d %v", x.n, tn, in, key)
}
func (x *zzTx) DropIndex(ctx context.Context, tn types.TableName, in types.Identifier) error {
	return x.g.do("%d drop index %d %d", x.n, tn, in)
}

type zzTable struct {
	tn types.TableName
	tt *engine.TableType
}

func (t zzTable) Name() types.TableName    { return t.tn }
func (t zzTable) Type() *engine.TableType  { return t.tt }
func (t zzTable) TableId() storage.TableId { return 600 }

func zzID(e *zzEnv) types.Identifier {
	return types.ID(string(rune('a'+e.Intn(6))), true)
}
func zzMaybe(e *zzEnv) types.Identifier {
	if e.Intn(2) == 0 {
		return 0
	}
	return zzID(e)
}
func zzName(e *zzEnv) types.TableName {
	return types.TableName{Database: zzMaybe(e), Schema: zzMaybe(e), Table: zzID(e)}
}

// zzKey: a key, some of whose columns may not be among the names.
func zzKey(e *zzEnv) sql.IndexKey {
	var ik sql.IndexKey
	for i := e.Intn(4); i >= 0; i-- {
		ik.Columns = append(ik.Columns, zzID(e))
		ik.Reverse = append(ik.Reverse, e.Intn(2) == 0)
	}
	return ik
}

func zzColumns(e *zzEnv) ([]types.Identifier, []types.ColumnType) {
	var names []types.Identifier
	var cts []types.ColumnType
	for _, k := range e.Perm(6)[:2+e.Intn(5)] {
		names = append(names, types.ID(string(rune('a'+k)), true))
		cts = append(cts, types.ColumnType{Type: types.StringType, Size: uint32(k + 1)})
	}
	return names, cts
}

// zzMapped: what the key should be.
func zzMapped(ik sql.IndexKey, names []types.Identifier) ([]types.ColumnKey, bool) {
	var key []types.ColumnKey
next:
	for i, c := range ik.Columns {
		for j, n := range names {
			if n == c {
				key = append(key, types.MakeColumnKey(types.ColumnNum(j), ik.Reverse[i]))
				continue next
			}
		}
		return nil, false
	}
	return key, true
}

func zzResolved(tn types.TableName, dd, ds types.Identifier) types.TableName {
	if tn.Database == 0 {
		tn.Database = dd
		if tn.Schema == 0 {
			tn.Schema = ds
		}
	}
	return tn
}

func zzType(e *zzEnv) *engine.TableType {
	if e.Intn(3) == 0 {
		return nil
	}
	names, cts := zzColumns(e)
	tt := &engine.TableType{ColumnNames: names, ColumnTypes: cts}
	for i := e.Intn(3); i > 0; i-- {
		tt.Indexes = append(tt.Indexes, engine.IndexType{Name: zzID(e)})
	}
	return tt
}

// zzRun: what the statement should do in a transaction; ok tells whether the
// statement itself is in order.
func zzWants(stmt sql.Stmt, tx int, table *engine.TableType, dd, ds types.Identifier) (ops []string, opens *types.TableName, ok bool) {
	add := func(f string, args ...interface{}) { ops = append(ops, fmt.Sprintf("%d ", tx)+fmt.Sprintf(f, args...)) }
	switch s := stmt.(type) {
	case *sql.CreateSchema:
		sn := s.Schema
		if sn.Database == 0 {
			sn.Database = dd
		}
		add("create schema %d", sn)
	case *sql.DropSchema:
		sn := s.Schema
		if sn.Database == 0 {
			sn.Database = dd
		}
		add("drop schema %d %v", sn, s.IfExists)
	case *sql.DropIndex:
		add("drop index %d %d", zzResolved(s.Table, dd, ds), s.Index)
	case *sql.DropTable:
		for _, tn := range s.Tables {
			add("drop table %d", zzResolved(tn, dd, ds))
		}
	case *sql.CreateTable:
		tn := zzResolved(s.Table, dd, ds)
		if table != nil {
			return ops, &tn, s.IfNotExists
		}
		var key []types.ColumnKey
		for _, c := range s.Constraints {
			if c.Type == sql.PrimaryConstraint {
				var is bool
				if key, is = zzMapped(c.Key, s.Columns); !is {
					return ops, &tn, false
				}
				break
			}
		}
		add("create table %d %d %v %v", tn, s.Columns, s.ColumnTypes, key)
		opens = &tn
	case *sql.CreateIndex:
		tn := zzResolved(s.Table, dd, ds)
		if table == nil {
			return ops, &tn, false
		}
		for _, it := range table.Indexes {
			if it.Name == s.Index {
				return ops, &tn, s.IfNotExists
			}
		}
		key, is := zzMapped(s.Key, table.ColumnNames)
		if !is {
			return ops, &tn, false
		}
		add("create index %d %d %v", tn, s.Index, key)
		opens = &tn
	}
	return ops, opens, true
}

func zzStmt(e *zzEnv) sql.Stmt {
	switch e.Intn(6) {
	case 0:
		return &sql.CreateSchema{Schema: types.SchemaName{Database: zzMaybe(e), Schema: zzID(e)}}
	case 1:
		return &sql.DropSchema{Schema: types.SchemaName{Database: zzMaybe(e), Schema: zzID(e)}, IfExists: e.Intn(2) == 0}
	case 2:
		return &sql.DropIndex{Table: zzName(e), Index: zzID(e)}
	case 3:
		s := &sql.DropTable{}
		for i := e.Intn(3); i >= 0; i-- {
			s.Tables = append(s.Tables, zzName(e))
		}
		return s
	case 4:
		names, cts := zzColumns(e)
		s := &sql.CreateTable{Table: zzName(e), Columns: names, ColumnTypes: cts, ColumnDefaults: make([]sql.Expr, len(names)), IfNotExists: e.Intn(2) == 0}
		n := 0
		for i := e.Intn(4); i > 0; i-- {
			c := sql.Constraint{Type: sql.ConstraintType([]sql.ConstraintType{sql.PrimaryConstraint, sql.UniqueConstraint, sql.UniqueConstraint}[e.Intn(3)]), Key: zzKey(e)}
			if c.Type == sql.PrimaryConstraint {
				if n++; n > 1 {
					continue
				}
			}
			s.Constraints = append(s.Constraints, c)
		}
		return s
	default:
		return &sql.CreateIndex{Index: zzID(e), Table: zzName(e), Key: zzKey(e), IfNotExists: e.Intn(2) == 0}
	}
}

// zzHistory plays a sequence of statements on a session.
func zzHistory(e *zzEnv, steps int) {
	g := &zzEngine{e: e, fail: true}
	dd, ds := types.ID("dd", true), types.ID("ds", true)
	ses := NewSession(g, dd, ds)
	open := 0 // the transaction that is open
	hist := ""
	for i := 0; i < steps; i++ {
		e.n++
		g.log, g.opened, g.opFail, g.table = nil, nil, nil, zzType(e)
		var stmt sql.Stmt
		var want []string
		var wantOpen *types.TableName
		ok := true
		nTx := g.nTx
		switch k := e.Intn(12); {
		case k == 0:
			stmt = &sql.Begin{}
			if ok = open == 0; ok {
				want = []string{fmt.Sprintf("begin %d", nTx+1)}
			}
		case k == 1:
			stmt = &sql.Commit{}
			if ok = open != 0; ok {
				want = []string{fmt.Sprintf("%d commit", open)}
			}
		case k == 2:
			stmt = &sql.Rollback{}
			if ok = open != 0; ok {
				want = []string{fmt.Sprintf("%d rollback", open)}
			}
		case k == 3:
			s := &sql.CreateDatabase{Database: zzID(e)}
			stmt = s
			if ok = open == 0; ok {
				want = []string{fmt.Sprintf("create database %d", s.Database)}
			}
		case k == 4:
			s := &sql.DropDatabase{Database: zzID(e), IfExists: e.Intn(2) == 0}
			stmt = s
			if ok = open == 0; ok {
				want = []string{fmt.Sprintf("drop database %d %v", s.Database, s.IfExists)}
			}
		case k == 5:
			s := &sql.Set{Variable: []types.Identifier{types.DATABASE, types.SCHEMA, types.TABLE, zzID(e)}[e.Intn(4)],
				Value: []string{"x", "Yy", "select", "a b"}[e.Intn(4)]}
			stmt = s
			ok = s.Variable == types.DATABASE || s.Variable == types.SCHEMA
		default:
			stmt = zzStmt(e)
			tx := open
			if tx == 0 {
				tx = nTx + 1
				want = []string{fmt.Sprintf("begin %d", tx)}
			}
			var ops []string
			var opens *types.TableName
			ops, opens, ok = zzWants(stmt, tx, g.table, dd, ds)
			want = append(want, ops...)
			wantOpen = opens
		}
		text := fmt.Sprintf("%T%v", stmt, reflect.ValueOf(stmt).Elem())
		hist += fmt.Sprintf("; %s", text)
		if len(hist) > 1500 {
			hist = "..." + hist[len(hist)-1400:]
		}
		err := ses.Evaluate(context.Background(), stmt)

		for _, tn := range g.opened {
			if wantOpen == nil || tn != *wantOpen {
				e.found("session: %s: looked at table %d", hist, tn)
			}
		}

		// the operations: as many as wanted up to the first that fails
		got := append([]string{}, g.log...)
		plain := false
		switch stmt.(type) {
		case *sql.Begin, *sql.Commit, *sql.Rollback, *sql.CreateDatabase, *sql.DropDatabase, *sql.Set:
		default:
			plain = true
		}
		failed, j := false, 0
		for ; j < len(want) && !failed; j++ {
			if j >= len(got) {
				e.found("session: %s: %s is missing after %v", hist, want[j], got)
			}
			if got[j] == want[j]+" fails" {
				failed = true
			} else if got[j] != want[j] {
				e.found("session: %s: did %q where %q is due", hist, got[j], want[j])
			}
		}
		bad := failed || !ok
		if plain && open == 0 {
			fin := fmt.Sprintf("%d commit", nTx+1)
			if bad {
				fin = fmt.Sprintf("%d rollback", nTx+1)
			}
			if j >= len(got) || (got[j] != fin && got[j] != fin+" fails") {
				e.found("session: %s: %s is due after %v, did %v", hist, fin, got[:j], got[j:])
			}
			if got[j] == fin+" fails" {
				bad = true
			}
			j++
		}
		if j != len(got) {
			e.found("session: %s: did %v beyond %v", hist, got[j:], got[:j])
		}
		if (err != nil) != bad {
			e.found("session: %s: returned error %v, operations %v", hist, err, got)
		}
		switch s := stmt.(type) {
		case *sql.Begin:
			if ok {
				open = nTx + 1
			}
		case *sql.Commit, *sql.Rollback:
			open = 0
		case *sql.Set:
			if s.Variable == types.DATABASE {
				dd = types.ID(s.Value, false)
			} else if s.Variable == types.SCHEMA {
				ds = types.ID(s.Value, false)
			}
		}
	}
}

func zzPlay(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	for i := 0; i < 4000*e.iters; i++ {
		zzHistory(e, 3+e.Intn(40))
	}
}

func TestFalsify_C28(t *testing.T) { zzPlay(t) }

func TestFalsify_C30(t *testing.T) { zzPlay(t) }

func TestFalsify_C29(t *testing.T) {
	{
		e := zzStart(t)
		defer e.end()
		for i := 0; i < 3000*e.iters; i++ {
			e.n++
			g := &zzEngine{e: e}
			dd, ds := zzID(e), zzID(e)
			ses := NewSession(g, dd, ds)
			tn := zzName(e)
			sn := types.SchemaName{Database: zzMaybe(e), Schema: zzID(e)}
			want, wantS := zzResolved(tn, dd, ds), sn
			if sn.Database == 0 {
				wantS.Database = dd
			}
			if got := ses.ResolveTable(tn); got != want {
				e.found("name %d with defaults %d %d resolved to %d, want %d", tn, dd, ds, got, want)
			}
			if got := ses.ResolveSchema(sn); got != wantS {
				e.found("schema %d with default %d resolved to %d, want %d", sn, dd, got, wantS)
			}
			check := func(stmt sql.Stmt, get func() types.TableName) {
				stmt.Resolve(ses)
				if get() != want {
					e.found("%T of %d resolved to %d, want %d", stmt, tn, get(), want)
				}
			}
			ct := &sql.CreateTable{Table: tn}
			check(ct, func() types.TableName { return ct.Table })
			ci := &sql.CreateIndex{Table: tn}
			check(ci, func() types.TableName { return ci.Table })
			check(&sql.Explain{Stmt: ci}, func() types.TableName { return ci.Table })
			ci2 := &sql.CreateIndex{Table: tn}
			check(&sql.Explain{Stmt: ci2}, func() types.TableName { return ci2.Table })
			at := &sql.AlterTable{Table: tn}
			check(at, func() types.TableName { return at.Table })
			di := &sql.DropIndex{Table: tn}
			check(di, func() types.TableName { return di.Table })
			cp := &sql.Copy{Table: tn}
			check(cp, func() types.TableName { return cp.Table })
			dl := &sql.Delete{Table: tn}
			check(dl, func() types.TableName { return dl.Table })
			iv := &sql.InsertValues{Table: tn}
			check(iv, func() types.TableName { return iv.Table })
			up := &sql.Update{Table: tn}
			check(up, func() types.TableName { return up.Table })
			dt := &sql.DropTable{Tables: []types.TableName{zzName(e), tn, zzName(e)}}
			was := append([]types.TableName{}, dt.Tables...)
			check(dt, func() types.TableName { return dt.Tables[1] })
			for k := range was {
				if len(dt.Tables) != 3 || dt.Tables[k] != zzResolved(was[k], dd, ds) {
					e.found("DROP TABLE %d resolved to %d", was, dt.Tables)
				}
			}
			cs := &sql.CreateSchema{Schema: sn}
			cs.Resolve(ses)
			xs := &sql.DropSchema{Schema: sn}
			xs.Resolve(ses)
			if cs.Schema != wantS || xs.Schema != wantS {
				e.found("schema %d with default %d resolved to %d %d, want %d", sn, dd, cs.Schema, xs.Schema, wantS)
			}
		}
		for i := 0; i < 1500*e.iters; i++ {
			zzHistory(e, 3+e.Intn(40))
		}
	}
}
