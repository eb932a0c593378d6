id='c22-shared-bytes'; prop='C22'; pkg='engine'
needs='the struct being changed after it was made into a row'
breaks='the bytes of a row are those of the struct, not a copy'
edits=[('engine/typedtable.go','types.BytesValue(slices.Clone(b))\n','types.BytesValue(slices.Clip(b))\n')]
demo='''
package engine

import (
	"testing"

	"github.com/leftmike/maho/types"
)

type demoRow struct {
	A int64
	B []byte `maho:"size=10"`
}

func TestZZDemo(t *testing.T) {
	ti := MakeTypedInfo(100, types.TableName{types.SYSTEM, types.INFO, types.TABLES}, demoRow{})
	a := demoRow{1, []byte{1, 2, 3}}
	row := ti.structToRow(&a)
	a.B[1] = 9
	if row[1].(types.BytesValue)[1] != 2 {
		t.Errorf("got %v", row[1])
	}
}
'''
