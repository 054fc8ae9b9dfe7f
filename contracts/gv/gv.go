// Package verifgv is the vocabulary of the contracts.  Every function here has two meanings: the one written
// below, used when a contract runs natively on concrete inputs (replay, witness search, bounded companion runs),
// and the symbolic one of /verif/gover, used when the contract is verified.
package verifgv

import (
	"fmt"
	"math/bits"
	"reflect"
	"runtime"
)

// N is a 128-bit natural number (arithmetic modulo 2^128).
type N struct{ hi, lo uint64 }

// Skipped is raised when a precondition does not hold on a concrete input.
type Skipped struct{}

// Failure is raised when a postcondition, assertion or invariant fails on a concrete input.
type Failure struct{ Msg string }

func where(skip int) string {
	_, f, l, _ := runtime.Caller(skip)
	return fmt.Sprintf("%s:%d", f, l)
}

// Requires states a precondition.
func Requires(c bool) {
	if !c {
		panic(Skipped{})
	}
}

// Ensures states a postcondition.
func Ensures(c bool) {
	if !c {
		panic(Failure{"postcondition at " + where(2)})
	}
}

// Assert states a fact to be proved and then used.
func Assert(c bool) {
	if !c {
		panic(Failure{"assertion at " + where(2)})
	}
}

// Inv states a loop invariant.
func Inv(c bool) {
	if !c {
		panic(Failure{"invariant at " + where(2)})
	}
}

// Decreases states a termination measure.
func Decreases(n int) {}

// DecreasesN states a termination measure among the naturals.
func DecreasesN(n N) {}

// Cases makes the verifier consider the listed values of x one by one; that they are all the values is proved.
func Cases(x int, vals ...int) {}

// Split makes the verifier consider both values of b separately.
func Split(b bool) {}

// Inst hints at an instance for the quantified facts in scope.
func Inst(i int) {}

// Witness hints at an instance for the quantified facts that the same contract or invariant has to show.
func Witness(i int) {}

// Modifies lists the objects a function may change; all others are unchanged.
func Modifies(x ...interface{}) { Modified = append(Modified, x...) }

// Modified collects what the harness that is running natively declared to change.
var Modified []interface{}

// Fresh: the object x refers to did not exist before the call (or x refers to nothing).
func Fresh(x interface{}) bool { return true }

// Disjoint: a and b refer to different objects.
func Disjoint(a, b interface{}) bool { return true }

// Same: the two slices have the same backing array, offset and length, or the two functions are the same.
func Same(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Kind() == reflect.Func {
		return x.Pointer() == y.Pointer()
	}
	return x.Len() == y.Len() && (x.Len() == 0 || x.Pointer() == y.Pointer())
}

// Forall quantifies over lo <= i < hi.
//
// In native runs, of very many only some are looked at.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if i-lo > 64 && hi-i > 64 && hi-lo > 4096 {
			i += 96
		}
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists quantifies over lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// ForallKey quantifies over the keys of a map.
func ForallKey[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

// Seen, in an invariant of a loop over a map, says that the loop has come to key k.
func Seen[K comparable](k K) bool { return false }

func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// Clone copies a byte slice.
func Clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// CloneStrs copies a slice of strings.
func CloneStrs(b []string) []string {
	if b == nil {
		return nil
	}
	return append([]string{}, b...)
}

// SameBytes: equal length and content.
func SameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	return Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// Nat is the big-endian value of at most 16 bytes.
func Nat(b []byte) N {
	var n N
	for _, c := range b {
		n.hi = n.hi<<8 | n.lo>>56
		n.lo = n.lo<<8 | uint64(c)
	}
	return n
}

// Bytes are the 16 bytes of a number (native runs only).
func Bytes(n N) []byte {
	b := make([]byte, 16)
	for i := range b {
		if i < 8 {
			b[i] = byte(n.hi >> (56 - 8*i))
		} else {
			b[i] = byte(n.lo >> (56 - 8*(i-8)))
		}
	}
	return b
}

func U(x uint64) N { return N{0, x} }
func I(x int) N    { return N{0, uint64(x)} }

func Add(a, b N) N {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	hi, _ := bits.Add64(a.hi, b.hi, c)
	return N{hi, lo}
}
func Sub(a, b N) N {
	lo, c := bits.Sub64(a.lo, b.lo, 0)
	hi, _ := bits.Sub64(a.hi, b.hi, c)
	return N{hi, lo}
}
func And(a, b N) N { return N{a.hi & b.hi, a.lo & b.lo} }
func Or(a, b N) N  { return N{a.hi | b.hi, a.lo | b.lo} }
func Xor(a, b N) N { return N{a.hi ^ b.hi, a.lo ^ b.lo} }
func Not(a N) N    { return N{^a.hi, ^a.lo} }
func Shl(a N, k int) N {
	switch {
	case k < 0 || k >= 128:
		return N{}
	case k >= 64:
		return N{a.lo << uint(k-64), 0}
	case k == 0:
		return a
	}
	return N{a.hi<<uint(k) | a.lo>>uint(64-k), a.lo << uint(k)}
}
func Shr(a N, k int) N {
	switch {
	case k < 0 || k >= 128:
		return N{}
	case k >= 64:
		return N{0, a.hi >> uint(k-64)}
	case k == 0:
		return a
	}
	return N{a.hi >> uint(k), a.lo>>uint(k) | a.hi<<uint(64-k)}
}
func Lt(a, b N) bool { return a.hi < b.hi || a.hi == b.hi && a.lo < b.lo }
func Le(a, b N) bool { return !Lt(b, a) }

// Low is the number modulo 2^64.
func Low(a N) uint64 { return a.lo }

func (n N) String() string { return fmt.Sprintf("%016x%016x", n.hi, n.lo) }
