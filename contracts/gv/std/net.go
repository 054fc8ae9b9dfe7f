package std

import (
	"net"

	gv "github.com/qiniu/uip/verifgv"
)

// CidrOK says that s is the text of a network.
//
//gv:spec abstract
func CidrOK(s string) bool {
	_, _, err := net.ParseCIDR(s)
	return err == nil
}

// CidrW, CidrIP and CidrMask are the width in bytes, the address and the mask of the network.
//
//gv:spec abstract
func CidrW(s string) int {
	_, n, _ := net.ParseCIDR(s)
	return len(n.IP)
}

//gv:spec abstract
func CidrIP(s string) gv.N {
	_, n, _ := net.ParseCIDR(s)
	return gv.Nat(n.IP)
}

//gv:spec abstract
func CidrMask(s string) gv.N {
	_, n, _ := net.ParseCIDR(s)
	return gv.Nat(n.Mask)
}

//gv:trusted net.ParseCIDR
//gv:props C16
func gvParseCIDR(s string) {
	_, n, err := net.ParseCIDR(s)
	gv.Ensures((err == nil) == CidrOK(s) && (err == nil) == (n != nil))
	if err == nil {
		gv.Ensures(len(n.IP) == 4 || len(n.IP) == 16)
		gv.Ensures(len(n.IP) == CidrW(s) && len(n.Mask) == len(n.IP))
		gv.Ensures(gv.Nat(n.IP) == CidrIP(s) && gv.Nat(n.Mask) == CidrMask(s))
		gv.Ensures(gv.Fresh(n))
	}
}
