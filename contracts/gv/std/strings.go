// Package std states what is assumed about the standard library.
package std

import (
	"strconv"
	"strings"

	gv "github.com/qiniu/uip/verifgv"
)

// SplitN is the number of parts of s between separators.
//
//gv:spec abstract
func SplitN(s, sep string) int { return len(strings.Split(s, sep)) }

// SplitAt is one of the parts.
//
//gv:spec abstract
func SplitAt(s, sep string, i int) string { return strings.Split(s, sep)[i] }

// SplitKey stands for the parts, as Key does for a list.
//
//gv:spec abstract
func SplitKey(s, sep string) string { return Key(strings.Split(s, sep)) }

//gv:trusted strings.Split
//gv:props C06,C12,C16,C17
func gvSplit(s, sep string) {
	gv.Requires(sep != "")
	r := strings.Split(s, sep)
	gv.Ensures(len(r) == SplitN(s, sep) && len(r) >= 1 && len(r) <= len(s)+1 && gv.Fresh(r))
	gv.Ensures(gv.Forall(0, len(r), func(i int) bool { return r[i] == SplitAt(s, sep, i) }))
	gv.Ensures(Key(r) == SplitKey(s, sep))
}

// HasSub says that sub occurs in s.
//
//gv:spec abstract
func HasSub(s, sub string) bool { return strings.Contains(s, sub) }

//gv:trusted strings.Contains
//gv:props C17
func gvContains(s, sub string) {
	r := strings.Contains(s, sub)
	gv.Ensures(r == HasSub(s, sub))
}

// UintOK says that s is the text of a number of so many bits.
//
//gv:spec abstract
func UintOK(s string, base, bits int) bool {
	_, err := strconv.ParseUint(s, base, bits)
	return err == nil
}

// UintV is the number.
//
//gv:spec abstract
func UintV(s string, base, bits int) uint64 {
	n, _ := strconv.ParseUint(s, base, bits)
	return n
}

//gv:trusted strconv.ParseUint
//gv:props C17
func gvParseUint(s string, base, bits int) {
	gv.Requires(base == 10 && 1 <= bits && bits <= 64)
	n, err := strconv.ParseUint(s, base, bits)
	gv.Ensures((err == nil) == UintOK(s, base, bits) && n == UintV(s, base, bits))
	gv.Ensures(bits == 64 || n>>uint(bits) == 0)
}
