package ipnet

import (
	"net"

	gv "github.com/qiniu/uip/verifgv"
)

// gvWidth is the number of bits of an address form.
func gvWidth(ip net.IP) int { return 8 * len(ip) }

// gvPrefix says that a mask is n ones followed by zeros, for some n.
func gvPrefix(mask net.IPMask) bool {
	host := gv.Xor(gv.Nat(net.IP(mask)), gvMax(net.IP(mask)))
	return gv.And(host, gv.Add(host, gv.U(1))) == gv.U(0)
}

// gvNet says that n is a network: base address and mask of one form, the mask a prefix.
func gvNet(n *net.IPNet) bool {
	return n != nil && gvIs(n.IP) && len(n.Mask) == len(n.IP) && gvPrefix(n.Mask)
}

// gvHost is the number of the host part of a network (all host bits set).
func gvHost(n *net.IPNet) gv.N {
	return gv.Xor(gv.Nat(net.IP(n.Mask)), gvMax(n.IP))
}

// gvLast is the number of the last address of a network, in its form.
func gvLast(n *net.IPNet) gv.N { return gv.Or(gv.Nat(n.IP), gvHost(n)) }

// gvLastA is the same, a 4-byte network counting as its IPv4-mapped form.
func gvLastA(n *net.IPNet) gv.N { return gv.Or(gvA(n.IP), gvHost(n)) }

//gv:contract LastIP
//gv:props C02
func gvLastIP(ipNet *net.IPNet) {
	gv.Requires(gvNet(ipNet))
	gv.Cases(len(ipNet.IP), 4, 16)
	r := LastIP(ipNet)
	gv.Ensures(len(r) == len(ipNet.IP))
	gv.Ensures(gv.Fresh(r))
	gv.Ensures(gv.Nat(r) == gvLast(ipNet))
}

//gv:contract NextStart
//gv:props C02
func gvNextStart(ipNet *net.IPNet) {
	gv.Requires(gvNet(ipNet))
	gv.Cases(len(ipNet.IP), 4, 16)
	r := NextStart(ipNet)
	gv.Ensures(len(r) == len(ipNet.IP))
	gv.Ensures(gv.Fresh(r))
	gv.Ensures(gv.Nat(r) == gv.And(gv.Add(gvLast(ipNet), gv.U(1)), gvMax(ipNet.IP)))
}

//gv:contract MaskLess
//gv:props C02
func gvMaskLess(a, b *net.IPNet) {
	gv.Requires(gvNet(a) && gvNet(b))
	gv.Cases(len(a.IP), 4, 16)
	gv.Cases(len(b.IP), 4, 16)
	r := MaskLess(a, b)
	if len(a.IP) != len(b.IP) {
		gv.Ensures(r == (len(a.IP) == 4))
	} else {
		// longer prefixes are the larger masks
		gv.Ensures(r == gv.Lt(gv.Nat(net.IP(b.Mask)), gv.Nat(net.IP(a.Mask))))
	}
}

//gv:contract IpNet
//gv:props C02
func gvIpNet(addr net.IP, mask int) {
	gv.Requires(gvIs(addr))
	gv.Cases(len(addr), 4, 16)
	v4 := len(addr) == 4 || gvMapped(addr)
	gv.Split(v4)
	gv.Requires(0 <= mask && (v4 && mask <= 32 || !v4 && mask <= 128))
	r := IpNet(addr, mask)
	gv.Ensures(gv.Fresh(r))
	gv.Ensures(r != nil)
	gv.Ensures(gv.Fresh(r.IP) && gv.Fresh(r.Mask))
	if v4 {
		gv.Ensures(len(r.IP) == 4)
		gv.Ensures(len(r.Mask) == 4)
		gv.Ensures(gvHost(r) == gvOnes(32-mask))
	} else {
		gv.Ensures(len(r.IP) == 16)
		gv.Ensures(len(r.Mask) == 16)
		gv.Ensures(gvHost(r) == gvOnes(128-mask))
	}
	gv.Ensures(gv.Nat(r.IP) == gv.And(gvA(addr), gv.And(gv.Not(gvHost(r)), gvMax(r.IP))))
}

//gv:contract NewRange
//gv:props C02
func gvNewRange(ipNet *net.IPNet) {
	gv.Requires(gvNet(ipNet))
	gv.Cases(len(ipNet.IP), 4, 16)
	r := NewRange(ipNet)
	gv.Ensures(r != nil)
	gv.Ensures(gv.Fresh(r))
	gv.Ensures(len(r.Start) == 16 && len(r.End) == 16)
	gv.Ensures(gvA(r.Start) == gvA(ipNet.IP))
	gv.Ensures(gvA(r.End) == gvLastA(ipNet))
}

//gv:contract net.IPMask.Size
//gv:props C02
func gvMaskSize(m net.IPMask) {
	gv.Requires((len(m) == 4 || len(m) == 16) && gvPrefix(m))
	gv.Cases(len(m), 4, 16)
	ones, bits := m.Size()
	gv.Ensures(bits == 8*len(m))
	gv.Ensures(0 <= ones && ones <= bits)
	gv.Ensures(gv.Xor(gv.Nat(net.IP(m)), gvMax(net.IP(m))) == gvOnes(bits-ones))
}

//gv:contract net.CIDRMask
//gv:props C02
func gvCIDRMask(ones, bits int) {
	gv.Requires((bits == 32 || bits == 128) && 0 <= ones && ones <= bits)
	gv.Cases(bits, 32, 128)
	m := net.CIDRMask(ones, bits)
	gv.Ensures(len(m) == bits/8)
	gv.Ensures(gv.Fresh(m))
	gv.Ensures(gv.Xor(gv.Nat(net.IP(m)), gvMax(net.IP(m))) == gvOnes(bits-ones))
}
