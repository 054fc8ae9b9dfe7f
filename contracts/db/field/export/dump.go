package export

import (
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/ipnet"
	gv "github.com/qiniu/uip/verifgv"
)

// gvLow and gvHigh are the first and the last address of a family.
func gvLow(v6 bool) gv.N {
	if v6 {
		return gv.U(0)
	}
	return gv.Shl(gv.U(0xffff), 32)
}

func gvHigh(v6 bool) gv.N {
	if v6 {
		return gv.Not(gv.U(0))
	}
	return gv.Or(gv.Shl(gv.U(0xffff), 32), gv.U(0xffffffff))
}

// gvNth is where the i-th network of a dump must start: where the family does, and then after the one before.
//
//gv:spec rec
func gvNth(find inf.Find, i int, v6 bool) gv.N {
	if i <= 0 {
		return gvLow(v6)
	}
	return gv.Add(inf.GvTop(find, gvNth(find, i-1, v6)), gv.U(1))
}

// gvRowAt says that a row has the network that is looked up for a, and that this starts there.
func gvRowAt(r inf.IpRaw, find inf.Find, a gv.N) bool {
	return inf.GvFound(find, a) && r.Cidr == inf.GvCidr(find, a) && inf.GvBase(find, a) == a
}

// gvValue is the value of a field in a record, empty where it has none.
func gvValue(fieldMap, rec map[string]string, name string) string {
	k, ok := fieldMap[name]
	if !ok {
		return ""
	}
	return rec[k]
}

// gvShown says that values are what a dump shows of a record in column j.
func gvShown(ept inf.Exporter, fieldMap, rec map[string]string, fields, values []string, j int) bool {
	if ept == nil {
		return len(values) == len(fields) && (j < 0 || j >= len(fields) || values[j] == gvValue(fieldMap, rec, fields[j]))
	}
	return j < 0 || j >= len(values) || values[j] == inf.GvShown(ept, rec, j)
}

// gvBuildNets says that a dump lists the networks of a lookup, from the first address of the family to the last, each
// with the values of its record; row k and column j stand for any.
//
//gv:contract BuildIPData
//gv:opt nonative
//gv:props C11
func gvBuildNets(fieldMap map[string]string, fields []string, ept inf.Exporter, version *inf.VersionInfo, find inf.Find, k, j int) {
	gv.Requires(version != nil && find != nil)
	gv.Split(version.IpType == inf.IpV6)
	gv.Split(ept == nil)
	d, err := BuildIPData(fieldMap, fields, ept, version, find)
	gv.Ensures((err == nil) == (d != nil))
	v6 := version.IpType == inf.IpV6
	if err == nil {
		gv.Ensures(len(d.Ips) > 0)
		gv.Ensures(gv.Forall(0, len(d.Ips), func(i int) bool { return gvRowAt(d.Ips[i], find, gvNth(find, i, v6)) }))
		gv.Ensures(inf.GvTop(find, gvNth(find, len(d.Ips)-1, v6)) == gvHigh(v6))
		if k >= 0 && k < len(d.Ips) {
			gv.Ensures(gvShown(ept, fieldMap, inf.GvRecord(find, gvNth(find, k, v6)), d.Fields, d.Ips[k].FieldValues, j))
		}
	}
}

//gv:inv BuildIPData 0
func gvBuildLoop(ret inf.IpData, marker []byte, fieldMap map[string]string, ept inf.Exporter, version *inf.VersionInfo, find inf.Find, k, j int) {
	v6 := version.IpType == inf.IpV6
	gv.Inv(len(marker) == 4 || len(marker) == 16)
	gv.Inv(gv.Fresh(ret.Ips))
	gv.Inv(ipnet.GvA(marker) == gvNth(find, len(ret.Ips), v6))
	gv.Inv(gv.Forall(0, len(ret.Ips), func(i int) bool { return gvRowAt(ret.Ips[i], find, gvNth(find, i, v6)) }))
	if k >= 0 && k < len(ret.Ips) {
		gv.Inv(gvShown(ept, fieldMap, inf.GvRecord(find, gvNth(find, k, v6)), ret.Fields, ret.Ips[k].FieldValues, j))
	}
	gv.DecreasesN(gv.Not(ipnet.GvA(marker)))
}

//gv:inv BuildIPData 1
func gvBuildRow(ret inf.IpData, fieldMap, info map[string]string, values, prevInfo []string, ept inf.Exporter, version *inf.VersionInfo, find inf.Find, rangeindex, k, j int) {
	if k >= 0 && k < len(ret.Ips) {
		gv.Inv(gv.Disjoint(values, ret.Ips[k].FieldValues))
		gv.Inv(gvShown(ept, fieldMap, inf.GvRecord(find, gvNth(find, k, version.IpType == inf.IpV6)), ret.Fields, ret.Ips[k].FieldValues, j))
	}
	gv.Inv(len(values) == rangeindex+1 && gv.Fresh(values))
	gv.Inv(gv.Disjoint(values, ret.Fields) && gv.Disjoint(values, prevInfo))
	gv.Inv(gv.Forall(0, len(values), func(i int) bool { return values[i] == gvValue(fieldMap, info, ret.Fields[i]) }))
}
