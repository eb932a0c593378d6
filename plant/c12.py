id='c12-fast-path'; prop='C12'; pkg='types'; flags='-race'
needs='one goroutine asking IsReserved while another creates an identifier'
breaks='IsReserved reads the last identifier without the lock: a data race'
edits=[('types/identifier.go','''	if id < 0 {
		return true
	}
	return false''','''	if id > lastIdentifier {
		return false
	}
	return id < 0''')]
demo='''
package types

import (
	"fmt"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				id := ID(fmt.Sprintf("demo%d-%d", g, i), true)
				if id.IsReserved() {
					t.Error("reserved")
				}
			}
		}()
	}
	wg.Wait()
}
'''
