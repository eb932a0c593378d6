package types

import (
	"fmt"
	"math/rand"
	"testing"
)

func TestFalsify_C05(t *testing.T) {
	search(t, 40000, func(r *rand.Rand, i int) string {
		num := ColumnNum(r.Intn(1<<31 - 1))
		if r.Intn(2) == 0 {
			num = ColumnNum(r.Intn(300))
		} else if r.Intn(4) == 0 {
			num = ColumnNum(1<<uint(r.Intn(31)) - 1)
			if num > 1<<31-2 {
				num = 1<<31 - 2
			}
		}
		rev := r.Intn(2) == 0
		k := MakeColumnKey(num, rev)
		if k.Column() != num || k.Reverse() != rev {
			return fmt.Sprintf("MakeColumnKey(%d, %v): column %d reverse %v", num, rev, k.Column(), k.Reverse())
		}
		var key []ColumnKey
		var cols []ColumnNum
		want := false
		for n := r.Intn(5); n > 0; n-- {
			key = append(key, MakeColumnKey(ColumnNum(r.Intn(12)), r.Intn(2) == 0))
		}
		for n := r.Intn(5); n > 0; n-- {
			cols = append(cols, ColumnNum(r.Intn(12)))
		}
		for _, k := range key {
			for _, c := range cols {
				n := int64(k)
				if n < 0 {
					n = -n
				}
				want = want || n-1 == int64(c)
			}
		}
		if got := ColumnKeyUpdated(key, cols); got != want {
			return fmt.Sprintf("ColumnKeyUpdated(%v, %v) = %v", key, cols, got)
		}
		return ""
	})
}
