id='c29-own-database'; prop='C29'; pkg='evaluate'
needs='a table name that gives the database of the session but no schema'
breaks='a name that gives its database is not used as written'
edits=[('evaluate/session.go','''	if tn.Database == 0 {
		tn.Database = ses.defaultDatabase
		if tn.Schema''','''	if tn.Database == 0 || tn.Database == ses.defaultDatabase {
		tn.Database = ses.defaultDatabase
		if tn.Schema''')]
demo='''
package evaluate

import (
	"context"
	"errors"
	"testing"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

type demoEngine struct {
	engine.Engine
	dropped int
}
type demoTx struct {
	engine.Transaction
	key []types.ColumnKey
}

func (g *demoEngine) Begin() engine.Transaction { return &demoTx{} }
func (g *demoEngine) DropDatabase(dn types.Identifier, ifExists bool) error {
	g.dropped++
	return nil
}
func (x *demoTx) OpenTable(ctx context.Context, tn types.TableName) (engine.Table, error) {
	return nil, errors.New("none")
}
func (x *demoTx) CreateTable(ctx context.Context, tn types.TableName, n []types.Identifier, c []types.ColumnType, k []types.ColumnKey) error {
	x.key = k
	return nil
}

var _ = sql.Begin{}

func TestZZDemo(t *testing.T) {
	d, s, n := types.ID("d", true), types.ID("s", true), types.ID("n", true)
	ses := NewSession(&demoEngine{}, d, s)
	tn := types.TableName{Database: d, Table: n}
	if got := ses.ResolveTable(tn); got != tn {
		t.Errorf("%v resolved to %v", tn, got)
	}
}
'''
