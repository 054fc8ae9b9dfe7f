package ipnet

import (
	"net"

	gv "github.com/qiniu/uip/verifgv"
)

// gvRange says that r is a range: two addresses, the first not above the second.
func gvRange(r *Range) bool {
	return r != nil && gvIs(r.Start) && gvIs(r.End) && gv.Le(gvA(r.Start), gvA(r.End))
}

// gvIn says that address n lies in the range.
func gvIn(r *Range, n gv.N) bool { return gv.Le(gvA(r.Start), n) && gv.Le(n, gvA(r.End)) }

// gvTouches says that number s is not beyond the address following end.
func gvTouches(end net.IP, s gv.N) bool {
	return gv.Le(s, gvA(end)) || !gvAtTop(end) && s == gv.Add(gvA(end), gv.U(1))
}

// gvAtTop says that an address is the last of its form.
func gvAtTop(ip net.IP) bool { return gv.Nat(ip) == gvMax(ip) }

//gv:contract Contains
//gv:props C04
func gvContains(start, end, ip net.IP) {
	gv.Requires(gvIs(start) && gvIs(end) && gvIs(ip))
	r := Contains(start, end, ip)
	gv.Ensures(r == (gv.Le(gvA(start), gvA(ip)) && gv.Le(gvA(ip), gvA(end))))
}

//gv:contract Range.Contains
//gv:props C04
func gvRangeContains(r *Range, ip net.IP) {
	gv.Requires(r != nil && gvIs(r.Start) && gvIs(r.End) && gvIs(ip))
	ok := r.Contains(ip)
	gv.Ensures(ok == gvIn(r, gvA(ip)))
}

//gv:contract Range.Join
//gv:props C04
func gvJoin(r, r2 *Range) {
	gv.Requires(gvRange(r) && gvRange(r2))
	gv.Modifies(r)
	s, e, s2, e2 := gvA(r.Start), gvA(r.End), gvA(r2.Start), gvA(r2.End)
	touch := gv.Le(s, s2) && gvTouches(r.End, s2)
	ok := r.Join(r2)
	gv.Ensures(gvIs(r.Start) && gvIs(r.End))
	gv.Ensures(ok == touch)
	gv.Ensures(gvA(r.Start) == s)
	if ok && gv.Lt(e, e2) {
		gv.Ensures(gvA(r.End) == e2)
	} else {
		gv.Ensures(gvA(r.End) == e)
	}
	gv.Ensures(r == r2 || gvA(r2.Start) == s2 && gvA(r2.End) == e2)
}

//gv:contract Range.JoinIPNet
//gv:props C04
func gvJoinIPNet(r *Range, ipNet *net.IPNet) {
	gv.Requires(gvRange(r) && gvNet(ipNet))
	gv.Modifies(r)
	s, e, s2, e2 := gvA(r.Start), gvA(r.End), gvA(ipNet.IP), gvLastA(ipNet)
	touch := gv.Le(s, s2) && gvTouches(r.End, s2)
	ok := r.JoinIPNet(ipNet)
	gv.Ensures(gvIs(r.Start) && gvIs(r.End))
	gv.Ensures(ok == touch)
	gv.Ensures(gvA(r.Start) == s)
	if ok && gv.Lt(e, e2) {
		gv.Ensures(gvA(r.End) == e2)
	} else {
		gv.Ensures(gvA(r.End) == e)
	}
}

//gv:contract Range.CommonRange
//gv:props C04
func gvCommonRange(r *Range, ip net.IP, r2 *Range) {
	gv.Requires(gvRange(r) && gvRange(r2) && gvIs(ip))
	gv.Modifies(r)
	s, e, s2, e2 := gvA(r.Start), gvA(r.End), gvA(r2.Start), gvA(r2.End)
	both := gvIn(r, gvA(ip)) && gvIn(r2, gvA(ip))
	ok := r.CommonRange(ip, r2)
	gv.Ensures(gvIs(r.Start) && gvIs(r.End))
	gv.Ensures(ok == both)
	if ok && gv.Lt(s, s2) {
		gv.Ensures(gvA(r.Start) == s2)
	} else {
		gv.Ensures(gvA(r.Start) == s)
	}
	if ok && gv.Lt(e2, e) {
		gv.Ensures(gvA(r.End) == e2)
	} else {
		gv.Ensures(gvA(r.End) == e)
	}
	gv.Ensures(r == r2 || gvA(r2.Start) == s2 && gvA(r2.End) == e2)
}
