package ipnet

import (
	"net"

	gv "github.com/qiniu/uip/verifgv"
)

// gvIs says that ip is an address in one of its two forms.
func gvIs(ip net.IP) bool { return len(ip) == 4 || len(ip) == 16 }

// gvA is the number an address stands for, a 4-byte address counting as its IPv4-mapped form.
func gvA(ip net.IP) gv.N {
	if len(ip) == 4 {
		return gv.Add(gv.Shl(gv.U(0xffff), 32), gv.Nat(ip))
	}
	return gv.Nat(ip)
}

// gvOnes is the number with w one bits.
func gvOnes(w int) gv.N { return gv.Not(gv.Shl(gv.Not(gv.I(0)), w)) }

// gvMax is the largest address of a form.
func gvMax(ip net.IP) gv.N {
	if len(ip) == 4 {
		return gvOnes(32)
	}
	return gv.Not(gv.U(0))
}

// gvMapped says that a 16-byte address is an IPv4-mapped one.
func gvMapped(ip net.IP) bool {
	return len(ip) == 16 && gv.Shr(gv.Nat(ip), 32) == gv.U(0xffff)
}

//gv:contract NextIP
//gv:props C01
func gvNextIP(ip net.IP) {
	gv.Requires(gvIs(ip))
	gv.Cases(len(ip), 4, 16)
	old := gv.Nat(ip)
	r := NextIP(ip)
	gv.Ensures(len(r) == len(ip))
	gv.Ensures(gv.Fresh(r))
	gv.Ensures(gv.Nat(ip) == old)
	if len(ip) == 4 {
		gv.Ensures(gv.Nat(r) == gv.And(gv.Add(old, gv.U(1)), gvOnes(32)))
	} else {
		gv.Ensures(gv.Nat(r) == gv.Add(old, gv.U(1)))
	}
}

//gv:contract IPLess
//gv:props C01
func gvIPLess(a, b net.IP) {
	gv.Requires(gvIs(a) && gvIs(b))
	gv.Cases(len(a), 4, 16)
	gv.Cases(len(b), 4, 16)
	r := IPLess(a, b)
	gv.Ensures(r == gv.Lt(gvA(a), gvA(b)))
}

//gv:contract Uint32ToIPv4
//gv:props C01
func gvUint32ToIPv4(uip uint32) {
	r := Uint32ToIPv4(uip)
	gv.Ensures(gvIs(r) && gv.Fresh(r))
	gv.Ensures(gvA(r) == gv.Add(gv.Shl(gv.U(0xffff), 32), gv.U(uint64(uip))))
}

//gv:contract IPv4ToUint32
//gv:props C01
func gvIPv4ToUint32(ip net.IP) {
	gv.Requires(len(ip) == 4 || gvMapped(ip))
	gv.Cases(len(ip), 4, 16)
	r := IPv4ToUint32(ip)
	gv.Ensures(gv.Add(gv.Shl(gv.U(0xffff), 32), gv.U(uint64(r))) == gvA(ip))
}

//gv:lemma
//gv:props C01
func gvUint32RoundTrip(uip uint32) {
	gv.Ensures(IPv4ToUint32(Uint32ToIPv4(uip)) == uip)
}

//gv:contract Uint64ToIP
//gv:props C01
func gvUint64ToIP(uip uint64) {
	r := Uint64ToIP(uip)
	gv.Ensures(len(r) == 16 && gv.Fresh(r))
	gv.Ensures(gv.Nat(r) == gv.Shl(gv.U(uip), 64))
}

//gv:contract Uint64ToIP2
//gv:props C01
func gvUint64ToIP2(high, low uint64) {
	r := Uint64ToIP2(high, low)
	gv.Ensures(len(r) == 16 && gv.Fresh(r))
	gv.Ensures(gv.Nat(r) == gv.Add(gv.Shl(gv.U(high), 64), gv.U(low)))
}

//gv:contract IsAllMask
//gv:props C01
func gvIsAllMask(ip net.IP) {
	gv.Requires(gvIs(ip))
	gv.Cases(len(ip), 4, 16)
	r := IsAllMask(ip)
	gv.Ensures(r == (gv.Nat(ip) == gvMax(ip)))
}

//gv:contract IsFirstIP
//gv:props C01
func gvIsFirstIP(ip net.IP, ipv6 bool) {
	gv.Requires(ipv6 && len(ip) == 16 || !ipv6 && (len(ip) == 4 || gvMapped(ip)))
	gv.Cases(len(ip), 4, 16)
	r := IsFirstIP(ip, ipv6)
	if ipv6 {
		gv.Ensures(r == (gv.Nat(ip) == gv.U(0)))
	} else {
		gv.Ensures(r == (gvA(ip) == gv.Shl(gv.U(0xffff), 32)))
	}
}
