package encode

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

// search runs one attempt after another until one reports a failure or the
// budget is used up.
func search(t *testing.T, n int, try func(r *rand.Rand, i int) string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	iters, _ := strconv.Atoi(os.Getenv("VERIF_ITERS"))
	if iters == 0 {
		iters = 1
	}
	n *= iters
	r := rand.New(rand.NewSource(int64(seed)*1000003 + 17))
	for i := 0; i < n; i++ {
		s := func() (s string) {
			defer func() {
				if x := recover(); x != nil {
					s = fmt.Sprintf("unexpected panic: %v (attempt %d)", x, i)
				}
			}()
			return try(r, i)
		}()
		if s != "" {
			fmt.Printf("FALSIFIED: %s\n", s)
			t.Fail()
			return
		}
	}
	fmt.Printf("CASES: %d\n", n)
}

// zzEnv is one search: random choices, a count of cases, and a way out.
type zzEnv struct {
	*rand.Rand
	t     *testing.T
	n     int
	iters int
}

type zzFound string

func zzStart(t *testing.T) *zzEnv {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	iters, _ := strconv.Atoi(os.Getenv("VERIF_ITERS"))
	if iters == 0 {
		iters = 1
	}
	return &zzEnv{rand.New(rand.NewSource(int64(seed)*1000003 + 29)), t, 0, iters}
}

// found ends the search with a failing input.
func (e *zzEnv) found(f string, args ...interface{}) { panic(zzFound(fmt.Sprintf(f, args...))) }

// end is deferred by every search.
func (e *zzEnv) end() {
	if x := recover(); x != nil {
		s, ok := x.(zzFound)
		if !ok {
			s = zzFound(fmt.Sprintf("unexpected panic: %v", x))
		}
		fmt.Printf("FALSIFIED: %s\n", strings.ReplaceAll(string(s), "\n", " "))
		e.t.Fail()
		return
	}
	fmt.Printf("CASES: %d\n", e.n)
}

// try runs f and reports the panic it ends with.
func (e *zzEnv) try(f func()) (pan interface{}) {
	defer func() {
		x := recover()
		if y, ok := x.(zzFound); ok {
			panic(y)
		}
		pan = x
	}()
	f()
	return nil
}

// wait ends the search if nothing comes from done for a while.
func (e *zzEnv) wait(done chan bool, what string) {
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		e.found("%s: no end after 60 s", what)
	}
}
