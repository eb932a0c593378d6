id='c30-unique-as-primary'; prop='C30'; pkg='evaluate'
needs='a table with a unique constraint that comes before its primary key, or without one'
breaks='the table is created with the unique constraint as its key'
edits=[('evaluate/evaluate.go','''		if con.Type == sql.PrimaryConstraint {
''','''		if con.Type == sql.PrimaryConstraint || con.Type == sql.UniqueConstraint {
''')]
demo='''
package evaluate

import (
	"context"
	"errors"
	"testing"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

type demoEngine struct {
	engine.Engine
	dropped int
}
type demoTx struct {
	engine.Transaction
	key []types.ColumnKey
}

func (g *demoEngine) Begin() engine.Transaction { return &demoTx{} }
func (g *demoEngine) DropDatabase(dn types.Identifier, ifExists bool) error {
	g.dropped++
	return nil
}
func (x *demoTx) OpenTable(ctx context.Context, tn types.TableName) (engine.Table, error) {
	return nil, errors.New("none")
}
func (x *demoTx) CreateTable(ctx context.Context, tn types.TableName, n []types.Identifier, c []types.ColumnType, k []types.ColumnKey) error {
	x.key = k
	return nil
}

var _ = sql.Begin{}

func TestZZDemo(t *testing.T) {
	a := types.ID("a", true)
	x := &demoTx{}
	err := EvaluateCreateTable(context.Background(), x, &sql.CreateTable{
		Columns:     []types.Identifier{a},
		ColumnTypes: []types.ColumnType{types.Int64ColType},
		Constraints: []sql.Constraint{{Type: sql.UniqueConstraint, Key: sql.IndexKey{Unique: true, Columns: []types.Identifier{a}, Reverse: []bool{false}}}},
	})
	if err != nil || len(x.key) != 0 {
		t.Errorf("created with key %v: %v", x.key, err)
	}
}
'''
