package basic

import (
	"context"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

// A random history of transactions is run against the store and against a
// list of rows for each table.

type zzTable struct {
	tid   storage.TableId
	tn    types.TableName
	names []types.Identifier
	cts   []types.ColumnType
	key   []types.ColumnKey
	rows  []types.Row // in key order
}

type zzCur struct {
	rs     storage.Rows
	tab    *zzTable
	cols   []types.ColumnNum
	want   []types.Row // whole rows
	pos    int
	desc   string
	closed bool
}

type zzSim struct {
	e      *zzEnv
	st     storage.Store
	tx     storage.Transaction
	tabs   map[storage.TableId]*zzTable // as the transaction sees them
	last   map[storage.TableId]*zzTable // as committed
	hs     map[storage.TableId]storage.Table
	curs   []*zzCur
	log    []string
	ctx    context.Context
	maxTab int
}

func (s *zzSim) say(f string, args ...interface{}) {
	s.log = append(s.log, fmt.Sprintf(f, args...))
	if len(s.log) > 60 {
		s.log = s.log[1:]
	}
}

func (s *zzSim) bad(f string, args ...interface{}) {
	l := s.log
	if len(l) > 14 {
		l = l[len(l)-14:]
	}
	s.e.found("%s; after: %s", fmt.Sprintf(f, args...), strings.Join(l, "; "))
}

func (s *zzSim) must(what string, f func()) {
	if p := s.e.try(f); p != nil {
		s.bad("%s: unexpected panic: %v", what, p)
	}
}

func zzCopy(m map[storage.TableId]*zzTable) map[storage.TableId]*zzTable {
	n := map[storage.TableId]*zzTable{}
	for k, t := range m {
		c := *t
		c.rows = append([]types.Row(nil), t.rows...)
		n[k] = &c
	}
	return n
}

func (t *zzTable) cmp(a, b types.Row) int {
	for _, ck := range t.key {
		x, y := a[ck.Column()], b[ck.Column()]
		c := types.Compare(x, y)
		if c != 0 && (x == nil || y == nil) {
			return c // NULL comes first in both directions
		}
		if c != 0 {
			if ck.Reverse() {
				return -c
			}
			return c
		}
	}
	return 0
}

func (t *zzTable) find(r types.Row) int {
	for i, x := range t.rows {
		if t.cmp(x, r) == 0 {
			return i
		}
	}
	return -1
}

func (t *zzTable) add(r types.Row) {
	i := sort.Search(len(t.rows), func(i int) bool { return t.cmp(t.rows[i], r) > 0 })
	n := append([]types.Row(nil), t.rows[:i]...)
	n = append(n, r)
	t.rows = append(n, t.rows[i:]...)
}

func (t *zzTable) del(i int) {
	t.rows = append(append([]types.Row(nil), t.rows[:i]...), t.rows[i+1:]...)
}

func zzSameVal(a, b types.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if x, ok := a.(types.Float64Value); ok {
		y, ok := b.(types.Float64Value)
		return ok && (x == y || x != x && y != y)
	}
	return fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b) && types.Compare(a, b) == 0
}

func zzSameRow(a, b types.Row) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !zzSameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func zzConforms(cts []types.ColumnType, r types.Row) string {
	if len(r) != len(cts) {
		return fmt.Sprintf("%d values for %d columns", len(r), len(cts))
	}
	for i, ct := range cts {
		ok := false
		switch x := r[i].(type) {
		case nil:
			ok = !ct.NotNull
		case types.BoolValue:
			ok = ct.Type == types.BoolType
		case types.StringValue:
			ok = ct.Type == types.StringType && len(x) <= int(ct.Size)
		case types.BytesValue:
			ok = ct.Type == types.BytesType && len(x) <= int(ct.Size)
		case types.Float64Value:
			ok = ct.Type == types.Float64Type
		case types.Int64Value:
			ok = ct.Type == types.Int64Type && (ct.Size != 2 || x == types.Int64Value(int16(x))) &&
				(ct.Size != 4 || x == types.Int64Value(int32(x)))
		}
		if !ok {
			return fmt.Sprintf("column %d of type %v holds %v", i, ct, r[i])
		}
	}
	return ""
}

func (s *zzSim) colType() types.ColumnType {
	e := s.e
	ct := types.ColumnType{NotNull: e.Intn(3) == 0}
	switch e.Intn(6) {
	case 0:
		ct.Type, ct.Size = types.BoolType, 1
	case 1:
		ct.Type, ct.Size = types.StringType, uint32(1+e.Intn(6))
	case 2:
		ct.Type, ct.Size = types.BytesType, uint32(1+e.Intn(6))
	case 3:
		ct.Type, ct.Size = types.Float64Type, 8
	default:
		ct.Type, ct.Size = types.Int64Type, []uint32{2, 4, 8}[e.Intn(3)]
	}
	return ct
}

func (s *zzSim) value(ct types.ColumnType, wild bool) types.Value {
	e := s.e
	if e.Intn(6) == 0 && (!ct.NotNull || wild) {
		return nil
	}
	if wild && e.Intn(4) == 0 {
		switch e.Intn(5) {
		case 0:
			return types.StringValue([]string{"17", "x", "true", "2.5", "a long string"}[e.Intn(5)])
		case 1:
			return types.Float64Value([]float64{0.5, 3, 1e300, math.NaN(), 40000}[e.Intn(5)])
		case 2:
			return types.Int64Value([]int64{1, 70000, 1 << 40}[e.Intn(3)])
		case 3:
			return types.BoolValue(true)
		default:
			return types.BytesValue([]byte{0xff, 0, 0xff, 0, 1, 2, 3}[:e.Intn(8)])
		}
	}
	switch ct.Type {
	case types.BoolType:
		return types.BoolValue(e.Intn(2) == 0)
	case types.StringType, types.BytesType:
		b := make([]byte, e.Intn(int(ct.Size)+1))
		for i := range b {
			b[i] = "\x00\x01ab\x7f"[e.Intn(5)]
			if ct.Type == types.BytesType && e.Intn(5) == 0 {
				b[i] = 0xff
			}
		}
		if ct.Type == types.BytesType {
			return types.BytesValue(b)
		}
		return types.StringValue(b)
	case types.Float64Type:
		return types.Float64Value([]float64{0, 1, -1, 2.5, -2.5, 1e9, -1e-9, math.Inf(1), math.Inf(-1),
			math.NaN(), math.Copysign(0, -1), float64(e.Intn(100))}[e.Intn(12)])
	}
	if e.Intn(8) == 0 {
		m := int64(math.MaxInt64)
		switch ct.Size {
		case 2:
			m = math.MaxInt16
		case 4:
			m = math.MaxInt32
		}
		return types.Int64Value([]int64{m, -m, -m - 1, 0, 256, 255}[e.Intn(6)])
	}
	return types.Int64Value(e.Intn(60) - 20)
}

func (s *zzSim) begin() {
	s.say("begin")
	s.must("begin", func() { s.tx = s.st.Begin() })
	s.tabs = zzCopy(s.last)
	s.hs = map[storage.TableId]storage.Table{}
	s.curs = nil
	if s.tx.Store() != s.st {
		s.bad("the transaction names another store")
	}
}

func (s *zzSim) pick() *zzTable {
	var ids []int
	for id := range s.tabs {
		ids = append(ids, int(id))
	}
	if len(ids) == 0 {
		return nil
	}
	sort.Ints(ids)
	return s.tabs[storage.TableId(ids[s.e.Intn(len(ids))])]
}

func (s *zzSim) handle(t *zzTable) storage.Table {
	if h := s.hs[t.tid]; h != nil && s.e.Intn(3) > 0 {
		return h
	}
	var h storage.Table
	var err error
	s.must("open table", func() { h, err = s.tx.OpenTable(s.ctx, t.tid, t.tn, t.names, t.cts, t.key) })
	if err != nil {
		s.bad("open table %d: %v", t.tid, err)
	}
	if h.TID() != t.tid || h.Name() != t.tn || h.Version() != 1 ||
		fmt.Sprint(h.ColumnNames(), h.Key()) != fmt.Sprint(t.names, t.key) ||
		fmt.Sprintf("%#v", h.ColumnTypes()) != fmt.Sprintf("%#v", t.cts) {
		s.bad("table %d opens as %d %v %v %#v %v", t.tid, h.TID(), h.Name(), h.ColumnNames(),
			h.ColumnTypes(), h.Key())
	}
	s.hs[t.tid] = h
	return h
}

var zzTids = []storage.TableId{16, 17, 18, 255, 256, 257, 4095, 4096, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}

func (s *zzSim) create() {
	e := s.e
	if len(s.tabs) >= s.maxTab {
		return
	}
	tid := zzTids[e.Intn(len(zzTids))]
	n := 1 + e.Intn(5)
	t := &zzTable{tid: tid, tn: types.TableName{Database: types.ID("db", true), Schema: types.ID("sc", true),
		Table: types.ID(fmt.Sprintf("t%d", e.Intn(4)), true)}}
	for i := 0; i < n; i++ {
		t.names = append(t.names, types.ID(fmt.Sprintf("c%d", i), true))
		t.cts = append(t.cts, s.colType())
	}
	p := e.Perm(n)
	for i := 0; i < 1+e.Intn(zzMin(n, 3)); i++ {
		t.key = append(t.key, types.MakeColumnKey(types.ColumnNum(p[i]), e.Intn(3) == 0))
	}
	if e.Intn(6) == 0 {
		t.names, t.cts, t.key = s.st.SetupColumns(t.names, t.cts, nil)
	}
	names := append([]types.Identifier(nil), t.names...)
	var err error
	mk := func() { err = s.tx.CreateTable(s.ctx, tid, t.tn, names, t.cts, t.key) }
	if s.tabs[tid] != nil {
		s.say("create %d again", tid)
		if p := s.e.try(mk); p == nil && err == nil {
			s.bad("table %d created twice", tid)
		}
		return
	}
	switch e.Intn(12) {
	case 0:
		s.say("create %d too small", tid)
		if p := e.try(func() { err = s.tx.CreateTable(s.ctx, storage.TableId(e.Intn(16)), t.tn, names, t.cts, t.key) }); p == nil && err == nil {
			s.bad("table created with a reserved identifier")
		}
		return
	case 1:
		s.say("create %d inconsistent", tid)
		nm, ct, ky := names, t.cts, t.key
		switch e.Intn(3) {
		case 0:
			nm = append(append([]types.Identifier{}, nm...), types.ID("extra", true))
		case 1:
			ky = append(append([]types.ColumnKey{}, ky...), types.MakeColumnKey(types.ColumnNum(len(nm)), false))
		default:
			ky = nil
		}
		if p := e.try(func() { err = s.tx.CreateTable(s.ctx, tid, t.tn, nm, ct, ky) }); p == nil && err == nil {
			s.bad("table created with %d names, %d types, key %v", len(nm), len(ct), ky)
		}
		return
	}
	s.say("create %d %#v %v", tid, t.cts, t.key)
	s.must("create table", mk)
	if err != nil {
		s.bad("create table %d: %v", tid, err)
	}
	names[0] = 0
	s.tabs[tid] = t
	s.scanAll(t)
}

func (s *zzSim) drop() {
	t := s.pick()
	if t == nil {
		return
	}
	for _, c := range s.curs {
		if c.tab == t && !c.closed {
			return
		}
	}
	s.say("drop %d", t.tid)
	var err error
	s.must("drop table", func() { err = s.tx.DropTable(s.ctx, t.tid) })
	if err != nil {
		s.bad("drop table %d: %v", t.tid, err)
	}
	delete(s.tabs, t.tid)
	delete(s.hs, t.tid)
	err = nil
	if p := s.e.try(func() { _, err = s.tx.OpenTable(s.ctx, t.tid, t.tn, t.names, t.cts, t.key) }); p == nil && err == nil {
		s.bad("table %d opens after it was dropped", t.tid)
	}
	if s.e.Intn(2) == 0 {
		// anew, with the same identifier
		s.must("create table", func() { err = s.tx.CreateTable(s.ctx, t.tid, t.tn, t.names, t.cts, t.key) })
		if err != nil {
			s.bad("create table %d again after drop: %v", t.tid, err)
		}
		n := *t
		n.rows = nil
		s.tabs[t.tid] = &n
		s.scanAll(&n)
	}
}

func (s *zzSim) insert() {
	e := s.e
	t := s.pick()
	if t == nil {
		return
	}
	h := s.handle(t)
	n := 1 + e.Intn(4)
	if e.Intn(12) == 0 {
		n = 60
	}
	if e.Intn(20) == 0 {
		n = 0
	}
	if len(t.rows) > 250 {
		n = 1
	}
	wild := e.Intn(3) == 0
	var rows []types.Row
	for i := 0; i < n; i++ {
		var r types.Row
		for _, ct := range t.cts {
			r = append(r, s.value(ct, wild && n < 10))
		}
		if wild && e.Intn(12) == 0 {
			r = append(r, types.Int64Value(1))
		} else if wild && e.Intn(8) == 0 && len(r) > 1 {
			r = r[:len(r)-1]
		} else if e.Intn(10) == 0 && len(t.rows) > 0 {
			r = append(types.Row(nil), t.rows[e.Intn(len(t.rows))]...)
		}
		if n == 60 && len(r) == len(t.cts) && t.find(r) >= 0 {
			continue
		}
		rows = append(rows, r)
	}
	// what should become of it
	after := &zzTable{key: t.key, rows: append([]types.Row(nil), t.rows...)}
	fail := ""
	for _, r := range rows {
		c, err := types.ConvertRow(t.cts, append(types.Row(nil), r...))
		if err != nil {
			fail = err.Error()
			break
		}
		if w := zzConforms(t.cts, c); w != "" {
			fail = w
			break
		}
		if after.find(c) >= 0 {
			if n == 60 {
				fail = "dup"
				break
			}
			fail = fmt.Sprintf("duplicate %s", r)
			break
		}
		after.add(c)
	}
	var err error
	s.say("insert %d %v", t.tid, rows)
	s.must("insert", func() { err = h.Insert(s.ctx, rows) })
	for _, r := range rows {
		for i := range r {
			r[i] = types.StringValue("changed by the caller")
		}
	}
	if (err == nil) != (fail == "") {
		s.bad("insert into %d (types %#v key %v) gave %v, expected failure %q", t.tid, t.cts, t.key, err, fail)
	}
	if fail == "" {
		t.rows = after.rows
	}
	s.scanAll(t)
}

// scanAll reads the whole table.
func (s *zzSim) scanAll(t *zzTable) {
	h := s.handle(t)
	var rs storage.Rows
	var err error
	s.must("rows", func() { rs, err = h.Rows(s.ctx, nil, nil, nil, nil) })
	if err != nil {
		s.bad("rows of %d: %v", t.tid, err)
	}
	c := &zzCur{rs: rs, tab: t, want: t.rows, desc: "whole table"}
	for !c.closed {
		if !s.step(c) {
			s.close(c)
		}
	}
}

// step takes one row and reports whether there was one.
func (s *zzSim) step(c *zzCur) bool {
	var r types.Row
	var err error
	s.must("next", func() { r, err = c.rs.Next(s.ctx) })
	if c.pos == len(c.want) {
		if err != io.EOF || r != nil {
			s.bad("%s of table %d key %v: after %d rows got %s %v, expected the end", c.desc, c.tab.tid, c.tab.key, c.pos, r, err)
		}
		return false
	}
	if err != nil {
		s.bad("%s of table %d key %v: row %d: %v, expected %s", c.desc, c.tab.tid, c.tab.key, c.pos, err, c.want[c.pos])
	}
	w := c.want[c.pos]
	if c.cols == nil {
		if d := zzConforms(c.tab.cts, r); d != "" {
			s.bad("%s of table %d returned %s: %s", c.desc, c.tab.tid, r, d)
		}
	} else {
		var p types.Row
		for _, cn := range c.cols {
			p = append(p, w[cn])
		}
		w = p
		if p == nil {
			w = types.Row{}
		}
	}
	if !zzSameRow(r, w) {
		s.bad("%s of table %d key %v: row %d is %s, expected %s", c.desc, c.tab.tid, c.tab.key, c.pos, r, w)
	}
	c.pos++
	return true
}

func (s *zzSim) close(c *zzCur) {
	var err error
	s.must("close", func() { err = c.rs.Close(s.ctx) })
	if err != nil {
		s.bad("close: %v", err)
	}
	c.closed = true
	if s.e.Intn(3) == 0 {
		if s.e.try(func() { c.rs.Next(s.ctx) }) == nil {
			s.bad("next after close is accepted")
		}
		if s.e.try(func() { _, err = c.rs.Current() }) == nil && err == nil {
			s.bad("current after close is accepted")
		}
		err = nil
		if s.e.try(func() { err = c.rs.Close(s.ctx) }) == nil && err == nil {
			s.bad("closing twice is accepted")
		}
	}
}

type zzPred struct {
	col types.ColumnNum
	v   types.Value
	op  int
}

func (p zzPred) Column() types.ColumnNum { return p.col }
func (p zzPred) test(v types.Value) bool {
	c := types.Compare(v, p.v)
	switch p.op {
	case 0:
		return c == 0
	case 1:
		return c <= 0
	case 2:
		return c > 0
	case 3:
		return c != 0
	}
	return false
}
func (p zzPred) BoolPred(b types.BoolValue) bool          { return p.test(b) }
func (p zzPred) StringPred(x types.StringValue) bool      { return p.test(x) }
func (p zzPred) BytesPred(b types.BytesValue) bool        { return p.test(b) }
func (p zzPred) Float64Pred(f types.Float64Value) bool    { return p.test(f) }
func (p zzPred) Int64Pred(i types.Int64Value) bool        { return p.test(i) }

func (s *zzSim) bound(t *zzTable) types.Row {
	e := s.e
	if len(t.rows) > 0 && e.Intn(3) > 0 {
		return append(types.Row(nil), t.rows[e.Intn(len(t.rows))]...)
	}
	var r types.Row
	for _, ct := range t.cts {
		r = append(r, s.value(ct, false))
	}
	return r
}

func (s *zzSim) open() {
	e := s.e
	t := s.pick()
	if t == nil || len(s.curs) > 5 {
		return
	}
	h := s.handle(t)
	c := &zzCur{tab: t}
	var lo, hi types.Row
	var pred storage.Predicate
	if e.Intn(2) == 0 {
		lo = s.bound(t)
	}
	if e.Intn(2) == 0 {
		hi = s.bound(t)
	}
	if e.Intn(3) == 0 {
		cn := e.Intn(len(t.cts))
		if len(t.key) > 0 && e.Intn(3) == 0 {
			cn = int(t.key[0].Column())
		}
		v := s.value(t.cts[cn], false)
		if len(t.rows) > 0 && e.Intn(2) == 0 {
			v = t.rows[e.Intn(len(t.rows))][cn]
		}
		pred = zzPred{types.ColumnNum(cn), v, e.Intn(4)}
	}
	if e.Intn(3) == 0 {
		c.cols = []types.ColumnNum{}
		for i := e.Intn(4); i > 0; i-- {
			c.cols = append(c.cols, types.ColumnNum(e.Intn(len(t.cts))))
		}
	}
	for _, r := range t.rows {
		if lo != nil && t.cmp(r, lo) < 0 || hi != nil && t.cmp(r, hi) > 0 {
			continue
		}
		if p, ok := pred.(zzPred); ok && (r[p.col] == nil || !p.test(r[p.col])) {
			continue
		}
		c.want = append(c.want, r)
	}
	c.desc = fmt.Sprintf("scan from %s to %s pred %v cols %v", lo, hi, pred, c.cols)
	s.say("open %s of %d", c.desc, t.tid)
	var err error
	s.must("rows", func() { c.rs, err = h.Rows(s.ctx, c.cols, lo, hi, pred) })
	if err != nil {
		s.bad("%s: %v", c.desc, err)
	}
	if e.Intn(4) == 0 {
		if e.try(func() { _, err = c.rs.Current() }) == nil && err == nil {
			s.bad("current before the first row is accepted")
		}
	}
	s.curs = append(s.curs, c)
}

func (s *zzSim) cur() *zzCur {
	if len(s.curs) == 0 {
		return nil
	}
	return s.curs[s.e.Intn(len(s.curs))]
}

func (s *zzSim) change() {
	e := s.e
	c := s.cur()
	if c == nil || c.pos == 0 {
		return
	}
	t := c.tab
	if s.tabs[t.tid] != t {
		return
	}
	at := t.find(c.want[c.pos-1])
	if at < 0 {
		return // gone in the meantime
	}
	old := t.rows[at]
	var rr storage.RowRef
	var err error
	s.must("current", func() { rr, err = c.rs.Current() })
	if err != nil {
		s.bad("current: %v", err)
	}
	if e.Intn(3) == 0 {
		s.say("delete %s of %d", old, t.tid)
		s.must("delete", func() { err = rr.Delete(s.ctx) })
		if err != nil {
			s.bad("delete: %v", err)
		}
		t.del(at)
		s.scanAll(t)
		return
	}
	var cols []types.ColumnNum
	var vals []types.Value
	row := append(types.Row(nil), old...)
	p := e.Perm(len(t.cts))
	wild := e.Intn(3) == 0
	for i := 0; i < e.Intn(len(t.cts)+1); i++ {
		v := s.value(t.cts[p[i]], wild)
		if e.Intn(4) == 0 {
			v = t.rows[e.Intn(len(t.rows))][p[i]]
		}
		cols = append(cols, types.ColumnNum(p[i]))
		vals = append(vals, v)
		row[p[i]] = v
	}
	fail := ""
	nr, cerr := types.ConvertRow(t.cts, row)
	if cerr != nil {
		fail = cerr.Error()
	} else if x := t.find(nr); x >= 0 && x != at {
		fail = "another row has the key"
	}
	s.say("update %s of %d: %v = %v", old, t.tid, cols, vals)
	s.must("update", func() { err = rr.Update(s.ctx, cols, vals) })
	if (err == nil) != (fail == "") {
		s.bad("update of %s (types %#v key %v) with %v = %v gave %v, expected failure %q", old, t.cts, t.key, cols, vals, err, fail)
	}
	if fail == "" {
		t.del(at)
		t.add(nr)
	}
	s.scanAll(t)
}

func (s *zzSim) finish() {
	e := s.e
	if len(s.curs) > 0 && e.Intn(3) == 0 {
		// refused while a cursor is open
		var err error
		for i := 0; i < 2; i++ {
			fin := func() { err = s.tx.Commit(s.ctx) }
			if e.Intn(2) == 0 {
				fin = func() { err = s.tx.Rollback() }
			}
			err = nil
			if e.try(fin) == nil && err == nil {
				s.bad("transaction finished with an open cursor")
			}
		}
		for _, t := range s.tabs {
			s.scanAll(t)
		}
	}
	for _, c := range s.curs {
		for e.Intn(8) > 0 && s.step(c) {
		}
		s.close(c)
	}
	s.curs = nil
	for _, t := range s.tabs {
		s.scanAll(t)
	}
	var err error
	if e.Intn(2) == 0 {
		s.say("commit")
		s.must("commit", func() { err = s.tx.Commit(s.ctx) })
		s.last = s.tabs
	} else {
		s.say("rollback")
		s.must("rollback", func() { err = s.tx.Rollback() })
	}
	if err != nil {
		s.bad("finish: %v", err)
	}
	old := s.tx
	s.begin()
	// the one before is over
	for i := 0; i < 2; i++ {
		var e1, e2 error
		if s.e.try(func() { e1 = old.Commit(s.ctx) }) == nil && e1 == nil || s.e.try(func() { e2 = old.Rollback() }) == nil && e2 == nil {
			s.bad("finished a second time without an error")
		}
		if e1 == nil || e2 == nil {
			s.bad("finishing a second time panics")
		}
	}
	for _, tid := range zzTids {
		if t := s.tabs[tid]; t != nil {
			s.scanAll(t)
		}
	}
}

func (s *zzSim) run(steps int, weights ...int) {
	ops := []func(){s.create, s.insert, s.open, func() {
		if c := s.cur(); c != nil {
			s.step(c)
		}
	}, s.change, func() {
		if len(s.curs) > 0 {
			i := s.e.Intn(len(s.curs))
			s.close(s.curs[i])
			s.curs = append(s.curs[:i], s.curs[i+1:]...)
		}
	}, s.drop, s.finish}
	total := 0
	for _, w := range weights {
		total += w
	}
	s.begin()
	for i := 0; i < 3; i++ {
		s.create()
	}
	for i := 0; i < steps; i++ {
		x := s.e.Intn(total)
		k := 0
		for x >= weights[k] {
			x -= weights[k]
			k++
		}
		ops[k]()
		s.e.n++
	}
	for _, c := range s.curs {
		for s.step(c) {
		}
		s.step(c)
		s.close(c)
	}
	s.curs = nil
	s.finish()
	s.must("rollback", func() { s.tx.Rollback() })
}

func zzNew(e *zzEnv) *zzSim {
	st, err := NewStore("")
	if err != nil {
		e.found("new store: %v", err)
	}
	return &zzSim{e: e, st: st, last: map[storage.TableId]*zzTable{}, ctx: context.Background(), maxTab: 4}
}

func zzRun(t *testing.T, n, steps int, weights ...int) {
	e := zzStart(t)
	defer e.end()
	for i := 0; i < 3*n*e.iters; i++ {
		done := make(chan bool)
		var bad interface{}
		go func() {
			defer close(done)
			defer func() { bad = recover() }()
			zzNew(e).run(steps, weights...)
		}()
		e.wait(done, "a history of transactions")
		if bad != nil {
			panic(bad)
		}
	}
}

//                                                              create insert open next change close drop finish
func TestFalsify_C13(t *testing.T) { zzRun(t, 60, 150, 2, 10, 3, 6, 8, 3, 2, 8) }
func TestFalsify_C15(t *testing.T) { zzRun(t, 60, 150, 2, 20, 3, 6, 4, 3, 1, 2) }
func TestFalsify_C16(t *testing.T) { zzRun(t, 80, 150, 1, 8, 12, 20, 2, 6, 1, 1) }
func TestFalsify_C17(t *testing.T) { zzRun(t, 60, 200, 1, 8, 6, 20, 8, 3, 1, 1) }
func TestFalsify_C18(t *testing.T) { zzRun(t, 60, 200, 1, 6, 6, 14, 20, 3, 0, 1) }
func TestFalsify_C19(t *testing.T) { zzRun(t, 60, 200, 2, 14, 6, 14, 16, 3, 1, 2) }
func TestFalsify_C20(t *testing.T) { zzRun(t, 80, 120, 12, 6, 2, 4, 2, 2, 10, 6) }
func TestFalsify_C21(t *testing.T) { zzRun(t, 60, 200, 4, 14, 6, 14, 12, 3, 3, 2) }

func TestFalsify_C14(t *testing.T) {
	zzRun(t, 25, 120, 2, 6, 4, 6, 4, 3, 1, 10)
	e := zzStart(t)
	defer e.end()
	ctx := context.Background()
	for i := 0; i < 15*e.iters; i++ {
		s := zzNew(e)
		tx := s.st.Begin()
		got := make(chan storage.Transaction)
		go func() { got <- s.st.Begin() }()
		ct := []types.ColumnType{types.Int64ColType}
		nm := []types.Identifier{types.ID("c", true)}
		ky := []types.ColumnKey{types.MakeColumnKey(0, false)}
		refused := func(what string) {
			select {
			case <-got:
				e.found("a second transaction began while the first was open, after %s", what)
			case <-time.After(3 * time.Millisecond):
			}
		}
		refused("begin")
		tn := types.TableName{Table: types.ID("t", true)}
		if err := tx.CreateTable(ctx, 16, tn, nm, ct, ky); err != nil {
			e.found("create: %v", err)
		}
		refused("create table")
		h, _ := tx.OpenTable(ctx, 16, tn, nm, ct, ky)
		h.Insert(ctx, []types.Row{{types.Int64Value(1)}})
		h.Insert(ctx, []types.Row{{types.Int64Value(1)}})
		tx.NextStmt()
		rs, _ := h.Rows(ctx, nil, nil, nil, nil)
		fin := tx.Rollback
		if i%2 == 0 {
			fin = func() error { return tx.Commit(ctx) }
		}
		e.try(func() { fin() })
		refused("a refused attempt to finish it with an open cursor")
		rs.Close(ctx)
		refused("closing a cursor")
		if err := fin(); err != nil {
			e.found("finish: %v", err)
		}
		var t2 storage.Transaction
		select {
		case t2 = <-got:
		case <-time.After(60 * time.Second):
			e.found("a transaction waiting for the store never begins after the one before it ended")
		}
		go func() { got <- s.st.Begin() }()
		e.try(func() {
			if tx.Commit(ctx) == nil || tx.Rollback() == nil {
				e.found("finished twice")
			}
		})
		refused("the transaction before it was finished again")
		if err := t2.Rollback(); err != nil {
			e.found("rollback: %v", err)
		}
		select {
		case t2 = <-got:
		case <-time.After(60 * time.Second):
			e.found("a waiting transaction never begins")
		}
		t2.Rollback()
		e.n++
	}
}

func zzMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
