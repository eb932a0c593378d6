// Package vs is the ghost vocabulary of the contract files.  Nothing in it
// runs: the verifier gives every function its meaning.  It is laid over the
// repository only while the verifier reads it.
package vs

type Idx int

// Outermost is a parameter of invariants of loops that are not within another.
type Outermost struct{}

func Requires(c bool)                  {}
func Ensures(label string, c bool)     {}
func Assert(label string, c bool)      {}
func Assume(why string, c bool)        {}
func Loop(f any)                       {}
func Join(f any)                       {}
func Inv(c bool)                       {}
func Proof(f func())                   {}
func Split(c ...any)                   {}
func Modifies(p ...any)                {}
func MayPanic(c bool)                  {}
func OnPanic(f func())                 {}
func Decreases(n int)                  {}
func Copy[T any](x T) T                { return x }
func Eq[T any](a, b T) bool            { return false }
func Cat[T any](a ...[]T) []T          { return nil }
func Imp(a, b bool) bool               { return !a || b }
func Iff(a, b bool) bool               { return a == b }
func And(a ...bool) bool               { return false }
func Or(a ...bool) bool                { return false }
func Ite[T any](c bool, a, b T) T      { return a }
func Forall[T any](f func(T) bool) bool { return false }
func Forall2[T, U any](f func(T, U) bool) bool { return false }
func Exists[T any](f func(T) bool) bool { return false }
func G[T any](obj any, name string) *T { return nil }
func GM[K comparable, V any](obj any, name string) map[K]V { return nil }
func CopyInto[K comparable, V any](dst, src map[K]V)       {}
func SameMap[K comparable, V any](a, b map[K]V) bool       { return false }
func EnsuresAll(label string, f any)                       {}
func Witness(f func(Idx) bool) Idx                         { return 0 }
func RequiresAll(label string, f any)                      {}
func FreshAt[T any](pp **T)                                {}
func Alias[T any](pp *T, q T)                              {}
func Locked(mutex any, held bool)                          {}
func Acquired[T any](p *T) T                               { return *p }
func New[T any]() T {
	var t T
	return t
}
func UF[T any](name string, args ...any) T {
	var t T
	return t
}
func Any[T any]() T {
	var t T
	return t
}
func Open[T any](e any) (T, bool) {
	var t T
	return t, false
}
func Is[T any](e any) bool             { return false }
func Known(c bool) bool                { return false }
func Points[T any](pp **T, q *T)       {}
func Same[T any](pp *T, q T)           {}
func Fresh(p any) bool                 { return true }
func Havoc(p ...any)                   {}
func Unreachable()                     {}
func Held(what string) bool            { return false }
func Panics() bool                     { return false }
func SameRef(a, b any) bool            { return false }
func Len[T any](m map[string]T) int    { return 0 }
func IsNaN(f float64) bool             { return false }
func Bits(f float64) uint64            { return 0 }
func Bits32(f float32) uint32          { return 0 }

// Lex compares byte strings lexicographically.
//
//vs:rec
//vs:fuel 3
func Lex(a, b string) int {
	if len(a) == 0 {
		if len(b) == 0 {
			return 0
		}
		return -1
	}
	if len(b) == 0 {
		return 1
	}
	if a[0] < b[0] {
		return -1
	}
	if a[0] > b[0] {
		return 1
	}
	return Lex(a[1:], b[1:])
}
