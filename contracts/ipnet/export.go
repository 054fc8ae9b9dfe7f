package ipnet

import (
	"net"

	gv "github.com/qiniu/uip/verifgv"
)

// what other packages' contracts say about networks and ranges

// GvNet says that n is a network (whose last address is not below its first, which is always so).
func GvNet(n *net.IPNet) bool {
	return n != nil && gvIs(n.IP) && len(n.Mask) == len(n.IP) && gvPrefix(n.Mask) && gv.Le(gvA(n.IP), gvLastA(n))
}

// GvRange says that r is a range.
func GvRange(r *Range) bool { return gvRange(r) }

// GvSized says that n is given by 16-byte addresses.
func GvSized(n *net.IPNet) bool { return gvSized(n) }

// GvInRange says that address x lies in the range.
func GvInRange(r *Range, x gv.N) bool { return gvIn(r, x) }

// GvInNet says that address x lies in a network.
func GvInNet(n *net.IPNet, x gv.N) bool { return gv.Le(gvA(n.IP), x) && gv.Le(x, gvLastA(n)) }

// GvInSized says that address x lies in a network given by 16-byte addresses.
func GvInSized(n *net.IPNet, x gv.N) bool { return gv.Le(gvBase(n), x) && gv.Le(x, gvTop(n)) }

// GvUpTo says that address x lies in the first n networks of a list that covers r.
func GvUpTo(r *Range, ns []*net.IPNet, n int, x gv.N) bool {
	return n > 0 && gv.Le(gvA(r.Start), x) && gv.Le(x, gvTop(ns[n-1]))
}

// GvChain says that ns is what IPNets answers for r.
func GvChain(r *Range, ns []*net.IPNet) bool {
	return len(ns) > 0 && gv.Forall(0, len(ns), func(i int) bool { return gvSized(ns[i]) }) &&
		gv.Forall(0, len(ns), func(i int) bool { return gvAligned(ns[i], gvFrom(ns, i, gvA(r.Start))) }) &&
		gv.Forall(0, len(ns), func(i int) bool { return gv.Le(gvTop(ns[i]), gvA(r.End)) }) &&
		gv.Forall(0, len(ns)-1, func(i int) bool { return gv.Lt(gvTop(ns[i]), gvA(r.End)) }) &&
		gvTop(ns[len(ns)-1]) == gvA(r.End)
}

// GvReached says that the first n networks of a list that covers r end in r.
func GvReached(r *Range, ns []*net.IPNet, n int) bool {
	return n == 0 || gv.Le(gvA(r.Start), gvTop(ns[n-1]))
}

// GvA is the number of an address, GvTopA that of the last address of a network, a 4-byte one counting as mapped.
func GvA(ip net.IP) gv.N       { return gvA(ip) }
func GvTopA(n *net.IPNet) gv.N { return gvLastA(n) }

// GvAlignedA says that a network starts at its first address.
func GvAlignedA(n *net.IPNet) bool { return gv.And(gv.Nat(n.IP), gvHost(n)) == gv.U(0) }
