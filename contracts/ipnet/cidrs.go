package ipnet

import (
	"net"

	gv "github.com/qiniu/uip/verifgv"
)

//gv:contract PrefixSameLength
//gv:props C03
func gvPrefixSameLength(start, end net.IP) {
	gv.Requires(len(start) == len(end) && gvIs(start))
	gv.Cases(len(start), 4, 16)
	r := PrefixSameLength(start, end)
	w := gvWidth(start)
	x := gv.Xor(gv.Nat(start), gv.Nat(end))
	gv.Ensures(0 <= r && r <= w)
	// equal above the bit that differs first, different there
	gv.Ensures(gv.Shr(x, w-r) == gv.U(0))
	gv.Ensures(r == w || gv.And(gv.Shr(x, w-r-1), gv.U(1)) == gv.U(1))
}

//gv:contract SuffixZeroLength
//gv:props C03
func gvSuffixZeroLength(ip net.IP) {
	gv.Requires(gvIs(ip))
	gv.Cases(len(ip), 4, 16)
	r := SuffixZeroLength(ip)
	w := gvWidth(ip)
	n := gv.Nat(ip)
	gv.Ensures(0 <= r && r <= w)
	gv.Ensures(gv.And(n, gvOnes(r)) == gv.U(0))
	gv.Ensures(r == w || gv.And(gv.Shr(n, r), gv.U(1)) == gv.U(1))
}

// gvSized says that n is a network given by 16-byte addresses.
func gvSized(n *net.IPNet) bool {
	return n != nil && len(n.IP) == 16 && len(n.Mask) == 16
}

// gvBase, gvRest and gvTop are the first address, the host bits and the last address of such a network.
func gvBase(n *net.IPNet) gv.N { return gv.Nat(n.IP[:16]) }
func gvRest(n *net.IPNet) gv.N { return gv.Not(gv.Nat(n.Mask[:16])) }
func gvTop(n *net.IPNet) gv.N  { return gv.Or(gvBase(n), gvRest(n)) }

// gvAligned says that n starts at from, that its mask is a prefix mask, and that the host bits of from are zero.
func gvAligned(n *net.IPNet, from gv.N) bool {
	rest := gvRest(n)
	return gvBase(n) == from && gv.And(rest, gv.Add(rest, gv.I(1))) == gv.I(0) && gv.And(from, rest) == gv.I(0)
}

// gvMaximal says that the enclosing network of n that is one bit shorter starts before n or reaches beyond end.
func gvMaximal(n *net.IPNet, end gv.N) bool {
	rest := gvRest(n)
	if rest == gv.Not(gv.I(0)) {
		return true // there is no shorter prefix
	}
	wide := gv.Add(gv.Add(rest, rest), gv.I(1))
	return gv.And(gvBase(n), wide) != gv.I(0) || gv.Lt(end, gv.Or(gvBase(n), wide))
}

// gvFrom is where the i-th network must start.
func gvFrom(ns []*net.IPNet, i int, first gv.N) gv.N {
	if i == 0 {
		return first
	}
	return gv.Add(gvTop(ns[i-1]), gv.I(1))
}

//gv:contract Range.IPNets
//gv:opt gen 1
//gv:props C03
func gvIPNets(r *Range) {
	gv.Requires(gvRange(r))
	gv.Cases(len(r.Start), 4, 16)
	gv.Cases(len(r.End), 4, 16)
	s, e := gvA(r.Start), gvA(r.End)
	ns := r.IPNets()
	gv.Ensures(len(ns) > 0)
	gv.Ensures(gv.Fresh(ns))
	// consecutive aligned networks, from the first address ...
	gv.Ensures(gv.Forall(0, len(ns), func(i int) bool { return gvSized(ns[i]) }))
	gv.Ensures(gv.Forall(0, len(ns), func(i int) bool { return gvAligned(ns[i], gvFrom(ns, i, s)) }))
	gv.Ensures(gv.Forall(0, len(ns), func(i int) bool { return gv.Le(gvTop(ns[i]), e) }))
	// ... to the last
	gv.Ensures(gvTop(ns[len(ns)-1]) == e)
	gv.Ensures(gv.Forall(0, len(ns)-1, func(i int) bool { return gv.Lt(gvTop(ns[i]), e) }))
	// none could be wider
	gv.Ensures(gv.Forall(0, len(ns), func(i int) bool { return gvMaximal(ns[i], e) }))
}

//gv:inv Range.IPNets 0
func gvIPNetsLoop(start, end net.IP, bitLength int, result []*net.IPNet, r *Range) {
	s, e := gvA(r.Start), gvA(r.End)
	gv.Inv(len(start) == 16 && len(end) == 16 && bitLength == 128)
	gv.Inv(gv.Nat(end) == e)
	gv.Inv(gv.Le(gv.Nat(start), e))
	gv.Inv(gv.Forall(0, len(result), func(i int) bool { return gvSized(result[i]) }))
	gv.Inv(gv.Forall(0, len(result), func(i int) bool { return gvAligned(result[i], gvFrom(result, i, s)) }))
	gv.Inv(gv.Forall(0, len(result), func(i int) bool { return gv.Lt(gvTop(result[i]), e) }))
	gv.Inv(gv.Forall(0, len(result), func(i int) bool { return gvMaximal(result[i], e) }))
	gv.Inv(gv.Nat(start) == gvFrom(result, len(result), s))
	gv.DecreasesN(gv.Not(gv.Nat(start)))
}
