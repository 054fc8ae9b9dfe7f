package std

import (
	"encoding/json"
	"fmt"
	"net"
	"reflect"
	"time"

	gv "github.com/qiniu/uip/verifgv"
)

// ParseOK says that s is the text of an address.
//
//gv:spec abstract
func ParseOK(s string) bool { return net.ParseIP(s) != nil }

// ParseN is the address, as a number of 128 bits.
//
//gv:spec abstract
func ParseN(s string) gv.N { return gv.Nat(net.ParseIP(s)) }

//gv:trusted net.ParseIP
//gv:props C06,C18
func gvParseIP(s string) {
	r := net.ParseIP(s)
	gv.Ensures((r != nil) == ParseOK(s))
	gv.Ensures(gv.Implies(s == "::", ParseOK(s) && ParseN(s) == gv.I(0)))
	if r != nil {
		gv.Ensures(len(r) == 16 && gv.Nat(r) == ParseN(s) && gv.Fresh(r))
	}
}

//gv:trusted encoding/json.Unmarshal
func gvUnmarshal(data []byte, v interface{}) {
	gv.Modifies(v)
	err := json.Unmarshal(data, v)
	_ = err
}

//gv:trusted time.Unix
func gvUnix(sec, nsec int64) { time.Unix(sec, nsec) }

//gv:trusted time.Time.In
func gvIn(t time.Time, loc *time.Location) {
	gv.Requires(loc != nil)
	t.In(loc)
}

//gv:trusted time.Time.Format
func gvFormat(t time.Time, layout string) { _ = t.Format(layout) }

// Key stands for a list of strings: reflect.DeepEqual says whether the keys are equal.
//
//gv:spec abstract
func Key(a []string) string { return fmt.Sprintf("%#v", a) }

//gv:trusted reflect.DeepEqual
//gv:props C11,C13
func gvDeepEqual(a, b interface{}) {
	r := reflect.DeepEqual(a, b)
	x, ok1 := a.([]string)
	y, ok2 := b.([]string)
	gv.Requires(ok1 && ok2)
	gv.Ensures(r == (Key(x) == Key(y)))
	gv.Ensures(gv.Implies(r, len(x) == len(y) && gv.Forall(0, len(x), func(i int) bool { return x[i] == y[i] })))
}

//gv:trusted net.IP.String
func gvIPString(ip net.IP) { _ = ip.String() }

// addr is the number an address stands for, a 4-byte address counting as its IPv4-mapped form.
func addr(ip net.IP) gv.N {
	if len(ip) == 4 {
		return gv.Add(gv.Shl(gv.U(0xffff), 32), gv.Nat(ip))
	}
	return gv.Nat(ip)
}

//gv:contract net.IP.Equal
//gv:props C11
func gvIPEqual(ip, x net.IP) {
	gv.Requires((len(ip) == 4 || len(ip) == 16) && (len(x) == 4 || len(x) == 16))
	gv.Cases(len(ip), 4, 16)
	gv.Cases(len(x), 4, 16)
	r := ip.Equal(x)
	gv.Ensures(r == (addr(ip) == addr(x)))
}
