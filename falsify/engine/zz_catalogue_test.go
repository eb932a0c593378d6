package engine

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

// ---- C22

type zzAll struct {
	B   bool `maho:"primary"`
	S   string `maho:"size=16"`
	Y   []byte `maho:"size=16"`
	Z   []byte `maho:"size=16,notnull"`
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64 `maho:"name=number,primary"`
	F32 float32
	F64 float64
	PB  *bool
	PS  *string `maho:"size=16"`
	PI  *int
	P8  *int8
	P16 *int16
	P32 *int32
	P64 *int64
	PF  *float32
	PD  *float64
}

type zzSome struct {
	P32 *int32
	S   string `maho:"size=16"`
	Y   []byte
}

func (e *zzEnv) bytes() []byte {
	if e.Intn(4) == 0 {
		return nil
	}
	b := make([]byte, e.Intn(17))
	for i := range b {
		b[i] = byte(e.Intn(3) * 127)
	}
	return b
}

func (e *zzEnv) int64() int64 {
	switch e.Intn(4) {
	case 0:
		return int64(e.Intn(5) - 2)
	case 1:
		return math.MinInt64 + int64(e.Intn(3))
	case 2:
		return math.MaxInt64 - int64(e.Intn(3))
	}
	return int64(e.Uint64())
}

func (e *zzEnv) float() float64 {
	switch e.Intn(5) {
	case 0:
		return 0
	case 1:
		return math.Inf(e.Intn(2) - 1)
	case 2:
		return math.Copysign(0, -1)
	case 3:
		return math.MaxFloat32
	}
	return float64(float32(e.NormFloat64()))
}

func TestFalsify_C22(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	ti := MakeTypedInfo(100, types.TableName{types.SYSTEM, types.INFO, types.TABLES}, zzAll{})
	if len(ti.primary) != 2 || ti.primary[0].Column() != 0 || ti.primary[1].Column() != 8 {
		e.found("primary key of %v: %v", ti.colNames, ti.primary)
	}
	for i := 0; i < 20000*e.iters; i++ {
		e.n++
		b, s, n, f := e.Intn(2) == 0, string(e.bytes()), e.int64(), e.float()
		a := zzAll{B: e.Intn(2) == 0, S: string(e.bytes()), Y: e.bytes(), Z: e.bytes(), I: int(e.int64()), I8: int8(e.int64()), I16: int16(e.int64()),
			I32: int32(e.int64()), I64: e.int64(), F32: float32(e.float()), F64: e.float()}
		if a.Z == nil {
			a.Z = []byte{}
		}
		n0, n8, n16, n32, n64, f32 := int(n), int8(n), int16(n), int32(n), n, float32(f)
		if e.Intn(2) == 0 {
			a.PB, a.PI, a.P16, a.PF = &b, &n0, &n16, &f32
		}
		if e.Intn(2) == 0 {
			a.PS, a.P8, a.P32, a.PD, a.P64 = &s, &n8, &n32, &f, &n64
		}
		var d zzAll
		row := ti.structToRow(&a)
		if e.Intn(2) == 0 {
			d = a
			x, y := true, int64(77)
			d.PB, d.P64, d.Y = &x, &y, []byte{7}
		}
		keep := d.P64
		ti.RowToStruct(row, &d)
		if !reflect.DeepEqual(a, d) {
			e.found("%+v becomes %+v by way of %v", a, d, row)
		}
		if keep != nil && *keep != 77 {
			e.found("setting a pointer changed what the old one points to")
		}
		for j, v := range row {
			null := false
			switch fv := reflect.ValueOf(a).Field(j); fv.Kind() {
			case reflect.Pointer:
				null = fv.IsNil()
			case reflect.Slice:
				null = fv.IsNil()
			}
			if (v == nil) != null {
				e.found("field %d of %+v becomes %v", j, a, v)
			}
		}
		if len(a.Y) > 0 {
			old := a.Y[0]
			a.Y[0]++
			if bv := row[2].(types.BytesValue); bv[0] != old || d.Y[0] != old {
				e.found("bytes are shared: changing those of the struct changes the row")
			}
			row[2].(types.BytesValue)[0] = old + 9
			if d.Y[0] != old {
				e.found("bytes are shared: changing those of the row changes the struct")
			}
		}
		up := &zzSome{P32: a.P32, S: a.S, Y: a.Y}
		cols, vals := ti.structToColsVals(up)
		if len(cols) != 3 || len(vals) != 3 || cols[0] != 16 || cols[1] != 1 || cols[2] != 2 {
			e.found("columns of an update: %v %v", cols, vals)
		}
		if (vals[0] == nil) != (a.P32 == nil) || a.P32 != nil && vals[0] != types.Int64Value(*a.P32) || vals[1] != types.StringValue(a.S) {
			e.found("update %+v: %v", up, vals)
		}
	}
}

// ---- a store that fails when told to

type zzFaulty struct {
	storage.Store
	left int // operations until it fails, if not negative
	open int // transactions that are not finished
}

var zzFault = errors.New("fault")

func (s *zzFaulty) fail() bool {
	if s.left < 0 {
		return false
	}
	s.left--
	return s.left < 0
}

type zzFTx struct {
	storage.Transaction
	s *zzFaulty
}
type zzFTbl struct {
	storage.Table
	s *zzFaulty
}
type zzFRows struct {
	storage.Rows
	s *zzFaulty
}
type zzFRef struct {
	storage.RowRef
	s *zzFaulty
}

func (s *zzFaulty) Begin() storage.Transaction {
	s.open++
	return &zzFTx{s.Store.Begin(), s}
}
func (x *zzFTx) Commit(ctx context.Context) error {
	x.s.open--
	if x.s.fail() {
		x.Transaction.Rollback()
		return zzFault
	}
	return x.Transaction.Commit(ctx)
}
func (x *zzFTx) Rollback() error {
	x.s.open--
	return x.Transaction.Rollback()
}
func (x *zzFTx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName, n []types.Identifier, t []types.ColumnType,
	p []types.ColumnKey) (storage.Table, error) {
	if x.s.fail() {
		return nil, zzFault
	}
	tbl, err := x.Transaction.OpenTable(ctx, tid, tn, n, t, p)
	if err != nil {
		return nil, err
	}
	return &zzFTbl{tbl, x.s}, nil
}
func (x *zzFTx) CreateTable(ctx context.Context, tid storage.TableId, tn types.TableName, n []types.Identifier, t []types.ColumnType,
	p []types.ColumnKey) error {
	if x.s.fail() {
		return zzFault
	}
	return x.Transaction.CreateTable(ctx, tid, tn, n, t, p)
}
func (x *zzFTbl) Insert(ctx context.Context, rows []types.Row) error {
	if x.s.fail() {
		return zzFault
	}
	return x.Table.Insert(ctx, rows)
}
func (x *zzFTbl) Rows(ctx context.Context, c []types.ColumnNum, lo, hi types.Row, p storage.Predicate) (storage.Rows, error) {
	if x.s.fail() {
		return nil, zzFault
	}
	r, err := x.Table.Rows(ctx, c, lo, hi, p)
	if err != nil {
		return nil, err
	}
	return &zzFRows{r, x.s}, nil
}
func (x *zzFRows) Next(ctx context.Context) (types.Row, error) {
	if x.s.fail() {
		return nil, zzFault
	}
	return x.Rows.Next(ctx)
}
func (x *zzFRows) Current() (storage.RowRef, error) {
	if x.s.fail() {
		return nil, zzFault
	}
	r, err := x.Rows.Current()
	if err != nil {
		return nil, err
	}
	return &zzFRef{r, x.s}, nil
}
func (x *zzFRef) Update(ctx context.Context, c []types.ColumnNum, v []types.Value) error {
	if x.s.fail() {
		return zzFault
	}
	return x.RowRef.Update(ctx, c, v)
}
func (x *zzFRef) Delete(ctx context.Context) error {
	if x.s.fail() {
		return zzFault
	}
	return x.RowRef.Delete(ctx)
}

func (e *zzEnv) store() *zzFaulty {
	st, err := basic.NewStore(e.t.TempDir())
	if err != nil {
		e.t.Fatal(err)
	}
	return &zzFaulty{st, -1, 0}
}

func (e *zzEnv) newEngine() (*zzFaulty, Engine) {
	st := e.store()
	if err := Init(st); err != nil {
		e.found("Init fails on an empty store: %s", err)
	}
	return st, NewEngine(st)
}

var zzNames = []string{"a", "b", "aa", "a b", "A", "z", "mm", "m", "\xff", strings.Repeat("x", 128), strings.Repeat("x", 127)}

func (e *zzEnv) name() types.Identifier { return types.ID(zzNames[e.Intn(len(zzNames))], true) }

func zzSorted(ids []types.Identifier) string {
	var s []string
	for _, id := range ids {
		s = append(s, fmt.Sprintf("%q", id.String()))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func zzKeys(m map[string]bool) string {
	var s []string
	for k, ok := range m {
		if ok {
			s = append(s, fmt.Sprintf("%q", k))
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func TestFalsify_C23(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	for i := 0; i < 150*e.iters; i++ {
		st, eng := e.newEngine()
		dbs := map[string]bool{"system": true, "maho": true}
		var hist []string
		for j := 0; j < 30; j++ {
			e.n++
			st.left = -1
			if e.Intn(5) == 0 {
				st.left = e.Intn(6)
			}
			faulty := st.left >= 0
			dn, ie := e.name(), e.Intn(2) == 0
			s := dn.String()
			switch e.Intn(3) {
			case 0:
				opts := storage.OptionsMap{}
				if e.Intn(5) == 0 {
					opts[types.PATH] = "x"
				}
				err := eng.CreateDatabase(dn, opts)
				hist = append(hist, fmt.Sprintf("create %q %v: %v", s, opts, err))
				if err == nil && (dbs[s] || len(opts) > 0) || err != nil && !dbs[s] && len(opts) == 0 && !faulty {
					e.found("databases %s: %v", zzKeys(dbs), hist)
				}
				if err == nil {
					dbs[s] = true
				}
			case 1:
				err := eng.DropDatabase(dn, ie)
				hist = append(hist, fmt.Sprintf("drop %q if exists %v: %v", s, ie, err))
				if err == nil && !dbs[s] && !ie || err != nil && (dbs[s] || ie) && !faulty {
					e.found("databases %s: %v", zzKeys(dbs), hist)
				}
				if err == nil {
					dbs[s] = false
				}
			}
			if st.open != 0 {
				e.found("%d transactions left open: %v", st.open, hist)
			}
			ids, err := eng.ListDatabases()
			if err != nil && st.left < 0 && !faulty {
				e.found("listing fails: %s: %v", err, hist)
			}
			if err == nil && zzSorted(ids) != zzKeys(dbs) {
				e.found("databases are %s, listed as %s: %v", zzKeys(dbs), zzSorted(ids), hist)
			}
			if st.open != 0 {
				e.found("%d transactions left open by a list: %v", st.open, hist)
			}
			st.left = -1
			if ids, err := eng.ListDatabases(); err != nil || zzSorted(ids) != zzKeys(dbs) {
				e.found("databases are %s, listed as %s %v: %v", zzKeys(dbs), zzSorted(ids), err, hist)
			}
		}
	}
}

func TestFalsify_C24(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	ctx := context.Background()
	for i := 0; i < 100*e.iters; i++ {
		st, eng := e.newEngine()
		schs := map[string]map[string]bool{"system": {"info": true}, "maho": {"public": true}}
		var hist []string
		for j := e.Intn(5); j >= 0; j-- {
			dn := e.name()
			if eng.CreateDatabase(dn, nil) == nil {
				schs[dn.String()] = map[string]bool{}
				hist = append(hist, fmt.Sprintf("database %q", dn.String()))
			}
		}
		for j := 0; j < 30; j++ {
			e.n++
			tx := eng.Begin()
			st.left = -1
			if e.Intn(5) == 0 {
				st.left = e.Intn(6)
			}
			faulty := st.left >= 0
			sn := types.SchemaName{e.name(), e.name()}
			ie := e.Intn(2) == 0
			d, s := sn.Database.String(), sn.Schema.String()
			var err error
			if e.Intn(3) > 0 {
				err = tx.CreateSchema(ctx, sn)
				hist = append(hist, fmt.Sprintf("create %q.%q: %v", d, s, err))
				if err == nil && (schs[d] == nil || schs[d][s]) || err != nil && schs[d] != nil && !schs[d][s] && !faulty {
					e.found("schemas %v: %v", schs, hist)
				}
				if err == nil && tx.Commit(ctx) == nil {
					schs[d][s] = true
				}
			} else {
				err = tx.DropSchema(ctx, sn, ie)
				hist = append(hist, fmt.Sprintf("drop %q.%q if exists %v: %v", d, s, ie, err))
				if err == nil && !schs[d][s] && !ie || err != nil && (schs[d][s] || ie) && !faulty {
					e.found("schemas %v: %v", schs, hist)
				}
				if err == nil && tx.Commit(ctx) == nil && schs[d] != nil {
					schs[d][s] = false
				}
			}
			tx.Rollback()
			st.left = -1
			for k := range zzNames {
				tx := eng.Begin()
				dn := types.ID(zzNames[k], true)
				want, is := schs[zzNames[k]]
				ids, err := tx.ListSchemas(ctx, dn)
				if is != (err == nil) || zzSorted(ids) != zzKeys(want) {
					e.found("schemas of %q are %s, listed as %s %v: %v", zzNames[k], zzKeys(want), zzSorted(ids), err, hist)
				}
				tx.Rollback()
			}
		}
	}
}

type zzTable struct {
	names []types.Identifier
	cts   []types.ColumnType
	key   []types.ColumnKey
	tid   storage.TableId
}

func (e *zzEnv) table() zzTable {
	var z zzTable
	for j := e.Intn(6); j >= 0; j-- {
		z.names = append(z.names, types.ID(fmt.Sprintf("%s%d", zzNames[e.Intn(9)], j), true))
		z.cts = append(z.cts, types.ColumnType{Type: types.ValueType(e.Intn(6)), Size: uint32(e.Uint64()), Fixed: e.Intn(2) == 0, NotNull: e.Intn(2) == 0})
	}
	for j := e.Intn(3); j > 0; j-- {
		z.key = append(z.key, types.MakeColumnKey(types.ColumnNum(e.Intn(len(z.names))), e.Intn(2) == 0))
	}
	return z
}

// zzHistory creates, opens and rolls back, and checks what C25 or C26 say.
func (e *zzEnv) tables(defs, tids bool) {
	ctx := context.Background()
	st, eng := e.newEngine()
	for _, d := range []string{"a", "b"} {
		eng.CreateDatabase(types.ID(d, true), nil)
		tx := eng.Begin()
		tx.CreateSchema(ctx, types.SchemaName{types.ID(d, true), types.ID("a", true)})
		tx.Commit(ctx)
	}
	sch := func(tn types.TableName) bool {
		return (tn.Database.String() == "a" || tn.Database.String() == "b") && tn.Schema.String() == "a"
	}
	tbls := map[types.TableName]zzTable{}
	used := map[storage.TableId]types.TableName{}
	var hist []string
	check := func(tx Transaction, in map[types.TableName]zzTable) {
		for tn, z := range in {
			tbl, err := tx.OpenTable(ctx, tn)
			if err != nil {
				e.found("table %s cannot be opened: %s: %v", tn, err, hist)
			}
			tt := tbl.Type()
			if defs && (tbl.Name() != tn || !reflect.DeepEqual(tt.ColumnNames, z.names) || !reflect.DeepEqual(tt.ColumnTypes, z.cts) ||
				len(tt.Key)+len(z.key) > 0 && !reflect.DeepEqual(tt.Key, z.key)) {
				e.found("table %s created as %v opens as %s %v: %v", tn, z, tbl.Name(), tt, hist)
			}
			if tbl.TableId() != z.tid {
				e.found("table %s had identifier %d, now %d: %v", tn, z.tid, tbl.TableId(), hist)
			}
		}
	}
	for j := 0; j < 8; j++ {
		tx := eng.Begin()
		now := map[types.TableName]zzTable{}
		for k, v := range tbls {
			now[k] = v
		}
		st.left = -1
		for k := e.Intn(4); k >= 0; k-- {
			e.n++
			tn := types.TableName{e.name(), e.name(), e.name()}
			if e.Intn(4) > 0 {
				tn.Database, tn.Schema = types.ID([]string{"a", "b"}[e.Intn(2)], true), types.ID("a", true)
			}
			if e.Intn(8) == 0 {
				st.left = e.Intn(12)
			}
			faulty := st.left >= 0
			_, is := now[tn]
			tbl, err := tx.OpenTable(ctx, tn)
			if err == nil && !is || err != nil && is && !faulty {
				e.found("opening %s: %v: %v", tn, err, hist)
			}
			z := e.table()
			err = tx.CreateTable(ctx, tn, z.names, z.cts, z.key)
			hist = append(hist, fmt.Sprintf("create %s: %v", tn, err))
			if defs && (err == nil && (is || !sch(tn)) || err != nil && !is && sch(tn) && !faulty) {
				e.found("%v", hist)
			}
			st.left = -1
			if faulty && err != nil {
				break
			}
			if err != nil {
				continue
			}
			tbl, err = tx.OpenTable(ctx, tn)
			if err != nil {
				e.found("table %s cannot be opened: %s: %v", tn, err, hist)
			}
			z.tid = tbl.TableId()
			hist = append(hist, fmt.Sprintf("has %d", z.tid))
			if tids {
				if z.tid <= maxReservedTableId {
					e.found("reserved identifier: %v", hist)
				}
				for on, o := range now {
					if o.tid == z.tid {
						e.found("identifier of %s given again: %v", on, hist)
					}
				}
			}
			now[tn] = z
			check(tx, now)
		}
		st.left = -1
		if e.Intn(3) == 0 {
			tx.Rollback()
			hist = append(hist, "rolled back")
		} else if tx.Commit(ctx) == nil {
			hist = append(hist, "committed")
			for tn, z := range now {
				if on, ok := used[z.tid]; ok && on != tn {
					e.found("identifier of %s given again to %s: %v", on, tn, hist)
				}
				used[z.tid] = tn
			}
			tbls = now
		}
		rx := eng.Begin()
		check(rx, tbls)
		rx.Rollback()
	}
}

func TestFalsify_C25(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	for i := 0; i < 100*e.iters; i++ {
		e.tables(true, false)
		if i == 0 {
			e.big()
			e.many()
		}
	}
}

// big: a definition that is too large.
func (e *zzEnv) big() {
	ctx := context.Background()
	_, eng := e.newEngine()
	var z zzTable
	for j := 0; j < 700; j++ {
		z.names = append(z.names, types.ID(fmt.Sprintf("column%d", j), true))
		z.cts = append(z.cts, types.Int64ColType)
	}
	tx := eng.Begin()
	tn := types.TableName{types.MAHO, types.PUBLIC, types.ID("t", true)}
	if tx.CreateTable(ctx, tn, z.names, z.cts, nil) == nil {
		if tbl, err := tx.OpenTable(ctx, tn); err != nil || !reflect.DeepEqual(tbl.Type().ColumnNames, z.names) {
			e.found("a table of 700 columns is created, and opens as something else: %v", err)
		}
	}
}

// many: no two of many tables are one table.
func (e *zzEnv) many() {
	ctx := context.Background()
	_, eng := e.newEngine()
	tx := eng.Begin()
	seen := map[storage.TableId]int{}
	for j := 0; j < 1500; j++ {
		e.n++
		tn := types.TableName{types.MAHO, types.PUBLIC, types.ID(fmt.Sprintf("t%d", j), true)}
		if err := tx.CreateTable(ctx, tn, []types.Identifier{types.ID("c", true)}, []types.ColumnType{types.Int64ColType}, nil); err != nil {
			e.found("table %d of many in one transaction is not created: %v", j, err)
		}
		tbl, err := tx.OpenTable(ctx, tn)
		if err != nil {
			e.found("table %d of many in one transaction cannot be opened: %v", j, err)
		}
		if k, ok := seen[tbl.TableId()]; ok {
			e.found("tables %d and %d of many in one transaction open with one identifier, %d", k, j, tbl.TableId())
		}
		seen[tbl.TableId()] = j
	}
	tx.Rollback()
}

func TestFalsify_C26(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	for i := 0; i < 100*e.iters; i++ {
		e.tables(false, true)
		if i == 0 {
			e.many()
		}
	}
}

func TestFalsify_C37(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	ctx := context.Background()
	for k := -1; k < 40; k++ {
		e.n++
		st := e.store()
		st.left = k
		err := Init(st)
		if st.open != 0 {
			e.found("%d transactions left open when operation %d fails", st.open, k)
		}
		if k < 0 && err != nil {
			e.found("Init fails: %s", err)
		}
		failed := k >= 0 && st.left < 0
		if failed != (err != nil) {
			e.found("operation %d fails: Init returns %v", k, err)
		}
		st.left = -1
		if err != nil {
			// without effect: it can be done again
			if err := Init(st); err != nil {
				e.found("operation %d failed, and then Init fails: %s", k, err)
			}
		}
		eng := NewEngine(st)
		dbs, err := eng.ListDatabases()
		if err != nil || zzSorted(dbs) != `"maho" "system"` {
			e.found("databases of a new store: %s %v", zzSorted(dbs), err)
		}
		tx := eng.Begin()
		a, err := tx.ListSchemas(ctx, types.SYSTEM)
		b, err2 := tx.ListSchemas(ctx, types.MAHO)
		if err != nil || err2 != nil || zzSorted(a) != `"info"` || zzSorted(b) != `"public"` {
			e.found("schemas of a new store: %s %s", zzSorted(a), zzSorted(b))
		}
		for _, ti := range []*TypedInfo{sequencesTypedInfo, databasesTypedInfo, schemasTypedInfo, tablesTypedInfo} {
			tbl, err := tx.OpenTable(ctx, ti.tn)
			if err != nil || tbl.TableId() != ti.tid || !reflect.DeepEqual(tbl.Type().ColumnNames, ti.colNames) ||
				!reflect.DeepEqual(tbl.Type().ColumnTypes, ti.colTypes) || !reflect.DeepEqual(tbl.Type().Key, ti.primary) {
				e.found("catalogue table %s opens as %v: %v", ti.tn, tbl, err)
			}
		}
		n := 0
		err = TypedTableSelect(ctx, tx.(*transaction).tx, tablesTypedInfo, nil, nil, func(row types.Row) error { n++; return nil })
		if err != nil || n != 4 {
			e.found("%d tables are listed in a new store, want 4: %v", n, err)
		}
		tid, err := tx.(*transaction).nextTableId(ctx)
		if err != nil || tid <= int64(maxReservedTableId) {
			e.found("the first identifier is %d: %v", tid, err)
		}
		tx.Rollback()
	}
}
