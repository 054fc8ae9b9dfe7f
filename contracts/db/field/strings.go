package field

import gv "github.com/qiniu/uip/verifgv"

// GvIn says that s is one of the strings.
func GvIn(s string, arr []string) bool {
	return gv.Exists(0, len(arr), func(i int) bool { return arr[i] == s })
}

// GvAt is the first place of s, or -1.
func GvAt(r int, s string, arr []string) bool {
	if r < 0 {
		return r == -1 && gv.Forall(0, len(arr), func(i int) bool { return arr[i] != s })
	}
	return r < len(arr) && arr[r] == s && gv.Forall(0, r, func(i int) bool { return arr[i] != s })
}

//gv:contract InArray
//gv:props C12,C14,C15
func gvInArray(s string, arr []string) {
	r := InArray(s, arr)
	gv.Ensures(r == GvIn(s, arr))
}

//gv:inv InArray
func gvInArrayLoop(s string, arr []string, rangeindex int) {
	gv.Inv(gv.Forall(0, rangeindex+1, func(i int) bool { return arr[i] != s }))
}

// GvFrom is the first place of s from place i on, or -1.
//
//gv:spec rec
func GvFrom(s string, arr []string, i int) int {
	if i < 0 || i >= len(arr) {
		return -1
	}
	if arr[i] == s {
		return i
	}
	return GvFrom(s, arr, i+1)
}

//gv:contract Offset
//gv:props C13,C14,C15
func gvOffset(s string, arr []string) {
	r := Offset(s, arr)
	gv.Ensures(r == GvFrom(s, arr, 0))
	gv.Ensures(r >= -1 && r < len(arr) && (r < 0 || arr[r] == s))
}

//gv:inv Offset
func gvOffsetLoop(s string, arr []string, rangeindex int) {
	gv.Inv(GvFrom(s, arr, 0) == GvFrom(s, arr, rangeindex+1))
}
