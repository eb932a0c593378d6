id='c28-drop-if-exists'; prop='C28'; pkg='evaluate'
needs='DROP DATABASE IF EXISTS while a transaction is open'
breaks='a database is dropped while a transaction is open'
edits=[('evaluate/session.go','''	case *sql.DropDatabase:
		if ses.tx != nil {
''','''	case *sql.DropDatabase:
		if ses.tx != nil && !stmt.IfExists {
''')]
demo='''
package evaluate

import (
	"context"
	"errors"
	"testing"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

type demoEngine struct {
	engine.Engine
	dropped int
}
type demoTx struct {
	engine.Transaction
	key []types.ColumnKey
}

func (g *demoEngine) Begin() engine.Transaction { return &demoTx{} }
func (g *demoEngine) DropDatabase(dn types.Identifier, ifExists bool) error {
	g.dropped++
	return nil
}
func (x *demoTx) OpenTable(ctx context.Context, tn types.TableName) (engine.Table, error) {
	return nil, errors.New("none")
}
func (x *demoTx) CreateTable(ctx context.Context, tn types.TableName, n []types.Identifier, c []types.ColumnType, k []types.ColumnKey) error {
	x.key = k
	return nil
}

var _ = sql.Begin{}

func TestZZDemo(t *testing.T) {
	g := &demoEngine{}
	ses := NewSession(g, types.ID("d", true), types.ID("s", true))
	ctx := context.Background()
	if ses.Evaluate(ctx, &sql.Begin{}) != nil {
		t.Fatal("begin")
	}
	if ses.Evaluate(ctx, &sql.DropDatabase{Database: types.ID("x", true), IfExists: true}) == nil || g.dropped != 0 {
		t.Error("dropped in a transaction")
	}
}
'''
