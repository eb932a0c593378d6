id='c22-stale-null'; prop='C22'; pkg='engine'
needs='a struct that is used for one row after another, where a value is NULL after one that is not'
breaks='a NULL leaves what the field held before instead of nil'
edits=[('engine/typedtable.go','''			if row[cdx] == nil {
				fval.SetZero()
				continue
			}
''','''			if row[cdx] == nil {
				continue
			}
''')]
demo='''
package engine

import (
	"testing"

	"github.com/leftmike/maho/types"
)

type demoRow struct {
	A int64
	B *int64
}

func TestZZDemo(t *testing.T) {
	ti := MakeTypedInfo(100, types.TableName{types.SYSTEM, types.INFO, types.TABLES}, demoRow{})
	n := int64(5)
	a, b := demoRow{1, &n}, demoRow{2, nil}
	var d demoRow
	ti.RowToStruct(ti.structToRow(&a), &d)
	ti.RowToStruct(ti.structToRow(&b), &d)
	if d.B != nil {
		t.Errorf("got %d, want nil", *d.B)
	}
}
'''
