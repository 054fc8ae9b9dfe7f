package operate

import (
	"net"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

// gvOn says that one of the first n rows is of this carrier and AS number.
//
//gv:spec rec entry
func gvOn(d *inf.IpData, n, io, ao int, isp, asn string) bool {
	if n <= 0 {
		return false
	}
	row := d.Ips[n-1].FieldValues
	return row[io] == isp && row[ao] == asn || gvOn(d, n-1, io, ao, isp, asn)
}

// gvMain says that a carrier is a main one.
func gvMain(isp string) bool {
	return isp == "电信" || isp == "联通" || isp == "移动" || isp == "铁通"
}

// gvCarriers says which main carriers have an AS number on some row.
type gvCarriers struct{ dx, lt, yd, tt bool }

func gvCarriersOf(d *inf.IpData, io, ao int, asn string) gvCarriers {
	n := len(d.Ips)
	return gvCarriers{gvOn(d, n, io, ao, "电信", asn), gvOn(d, n, io, ao, "联通", asn), gvOn(d, n, io, ao, "移动", asn), gvOn(d, n, io, ao, "铁通", asn)}
}

// gvFirst is the first of them, empty if there is none or no AS number.
func gvFirst(asn string, has gvCarriers) string {
	switch {
	case asn == "":
		return ""
	case has.dx:
		return "电信"
	case has.lt:
		return "联通"
	case has.yd:
		return "移动"
	case has.tt:
		return "铁通"
	}
	return ""
}

//gv:contract TrimAsnIspDup
//gv:props C15
//gv:inline withValue
//gv:inline asnMatchIsp
func gvTrimAsnIspDup(d *inf.IpData, k, c int, old []string, cidr *net.IPNet, as string, on gvCarriers) {
	gv.Requires(gvRow(d, k, old, cidr))
	n, fields := len(d.Ips), d.Fields
	io, ao := field.Offset(field.ISP, fields), field.Offset(field.Asn, fields)
	has := io != -1 && ao != -1
	gv.Requires(!has || old[ao] == as && on == gvCarriersOf(d, io, ao, as))
	gv.Modifies(d.Ips)
	TrimAsnIspDup(d)
	gv.Ensures(len(d.Ips) == n && d.Ips[k].Cidr == cidr && gv.Same(d.Fields, fields))
	if !has || gvMain(old[io]) || gvFirst(as, on) == "" {
		gv.Ensures(gv.Same(d.Ips[k].FieldValues, old))
	} else {
		gv.Ensures(gvSet(d.Ips[k].FieldValues, old, io, gvFirst(as, on), c))
	}
}

func gvIn(set map[string]bool, asn string) bool {
	_, ok := set[asn]
	return ok
}

// gvSets says that the sets hold what the first n rows say about the AS number of row k.
func gvSets(sets map[string]map[string]bool, d *inf.IpData, n, io, ao int, asn string) bool {
	return gv.Iff(gvIn(sets["电信"], asn), gvOn(d, n, io, ao, "电信", asn)) &&
		gv.Iff(gvIn(sets["联通"], asn), gvOn(d, n, io, ao, "联通", asn)) &&
		gv.Iff(gvIn(sets["移动"], asn), gvOn(d, n, io, ao, "移动", asn)) &&
		gv.Iff(gvIn(sets["铁通"], asn), gvOn(d, n, io, ao, "铁通", asn))
}

func gvSetOK(sets map[string]map[string]bool, isp string) bool {
	s, ok := sets[isp]
	return gv.Fresh(s) && ok == (s != nil)
}

//gv:inv TrimAsnIspDup 0
func gvTrimFirst(data *inf.IpData, mainIspAsnMap map[string]map[string]bool, ispOffset, asnOffset int, rangeindex int, k, c int, old []string, cidr *net.IPNet, as string, on gvCarriers) {
	gv.Inv(mainIspAsnMap != nil && gvSetOK(mainIspAsnMap, "电信") && gvSetOK(mainIspAsnMap, "联通") && gvSetOK(mainIspAsnMap, "移动") && gvSetOK(mainIspAsnMap, "铁通"))
	gv.Inv(gv.Disjoint(mainIspAsnMap["电信"], mainIspAsnMap["联通"]) && gv.Disjoint(mainIspAsnMap["电信"], mainIspAsnMap["移动"]) && gv.Disjoint(mainIspAsnMap["电信"], mainIspAsnMap["铁通"]) &&
		gv.Disjoint(mainIspAsnMap["联通"], mainIspAsnMap["移动"]) && gv.Disjoint(mainIspAsnMap["联通"], mainIspAsnMap["铁通"]) && gv.Disjoint(mainIspAsnMap["移动"], mainIspAsnMap["铁通"]))
	gv.Inv(old[asnOffset] == as)
	gv.Inv(gvSets(mainIspAsnMap, data, rangeindex+1, ispOffset, asnOffset, as))
}

//gv:inv TrimAsnIspDup 1
func gvTrimSecond(data *inf.IpData, mainIspAsnMap map[string]map[string]bool, ispOffset, asnOffset int, rangeindex int, k, c int, old []string, cidr *net.IPNet, as string, on gvCarriers) {
	main := gvFirst(as, on)
	gv.Inv(gvIn(mainIspAsnMap["电信"], as) == on.dx && gvIn(mainIspAsnMap["联通"], as) == on.lt && gvIn(mainIspAsnMap["移动"], as) == on.yd && gvIn(mainIspAsnMap["铁通"], as) == on.tt)
	gv.Inv(old[asnOffset] == as)
	gv.Inv(gvLeft(data, rangeindex+1, len(old), k, old, cidr))
	if k <= rangeindex {
		if gvMain(old[ispOffset]) || main == "" {
			gv.Inv(gv.Same(data.Ips[k].FieldValues, old))
		} else {
			gv.Inv(gvSet(data.Ips[k].FieldValues, old, ispOffset, main, c))
		}
	}
}
