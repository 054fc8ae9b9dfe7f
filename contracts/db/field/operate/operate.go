package operate

import (
	"net"
	"strings"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
	"github.com/qiniu/uip/verifgv/std"
)

// gvSet says that row is old with v at column at, or added at the end if that is -1; column c is looked at.
func gvSet(row, old []string, at int, v string, c int) bool {
	if at == -1 {
		return len(row) == len(old)+1 && row[len(old)] == v && (c < 0 || c >= len(old) || row[c] == old[c])
	}
	return len(row) == len(old) && row[at] == v && (c < 0 || c >= len(old) || c == at || row[c] == old[c])
}

//gv:contract withValue
//gv:props C14,C15
func gvWithValue(values []string, offset int, v string) {
	gv.Requires(offset >= -1 && offset < len(values))
	r := withValue(values, offset, v)
	gv.Ensures(gv.Fresh(r))
	n := len(values)
	if offset == -1 {
		gv.Ensures(len(r) == n+1 && r[n] == v && gv.Forall(0, n, func(i int) bool { return r[i] == values[i] }))
	} else {
		gv.Ensures(len(r) == n && r[offset] == v && gv.Forall(0, n, func(i int) bool { return i == offset || r[i] == values[i] }))
	}
}

// gvDistrict is the district of a province.
func gvDistrict(province string) string { return provinceDistrict[province] }

// gvRow says that row k of the data has these values; k and a column c are arbitrary in the contracts below.
func gvRow(d *inf.IpData, k int, old []string, cidr *net.IPNet) bool {
	return d != nil && inf.GvRect(d) && 0 <= k && k < len(d.Ips) && gv.Same(d.Ips[k].FieldValues, old) && d.Ips[k].Cidr == cidr
}

// gvLeft says that the rows from i on have at least n values, and row k, if it is one of them, its old ones.
func gvLeft(d *inf.IpData, i, n, k int, old []string, cidr *net.IPNet) bool {
	return len(d.Ips) > k && d.Ips[k].Cidr == cidr && gv.Forall(i, len(d.Ips), func(m int) bool { return len(d.Ips[m].FieldValues) >= n }) &&
		(k < i || gv.Same(d.Ips[k].FieldValues, old))
}

//gv:contract AttachDistrict
//gv:props C14
//gv:inline withValue
func gvAttachDistrict(d *inf.IpData, k, c int, old []string, cidr *net.IPNet) {
	gv.Requires(gvRow(d, k, old, cidr))
	n, fields := len(d.Ips), d.Fields
	p, at := field.Offset(field.Province, fields), field.Offset(field.District, fields)
	gv.Modifies(d, d.Ips, d.Fields)
	AttachDistrict(d)
	gv.Ensures(len(d.Ips) == n && d.Ips[k].Cidr == cidr)
	if p == -1 {
		gv.Ensures(gv.Same(d.Fields, fields) && gv.Same(d.Ips[k].FieldValues, old))
		return
	}
	gv.Ensures(gvSet(d.Ips[k].FieldValues, old, at, gvDistrict(old[p]), c))
	if at == -1 {
		gv.Ensures(gvSet(d.Fields, fields, -1, field.District, c))
	} else {
		gv.Ensures(gv.Same(d.Fields, fields))
	}
}

//gv:inv AttachDistrict
func gvAttachDistrictLoop(data *inf.IpData, districtOffset, provinceOffset int, rangeindex int, k, c int, old []string, cidr *net.IPNet) {
	gv.Inv(gvLeft(data, rangeindex+1, len(old), k, old, cidr))
	if k <= rangeindex {
		gv.Inv(gvSet(data.Ips[k].FieldValues, old, districtOffset, gvDistrict(old[provinceOffset]), c))
	}
}

// gvCarrier is the main carrier that stands for a line.
func gvCarrier(line string) string {
	switch first := std.SplitAt(line, "/", 0); first {
	case "", "电信", "联通", "移动":
		return first
	case "铁通":
		return "移动"
	}
	return "电信"
}

// gvLineOf is the line of a network according to q, empty without an answer.
func gvLineOf(n *net.IPNet, q inf.Query) string {
	if !inf.GvHas(q, n.IP) {
		return ""
	}
	return gvCarrier(inf.GvLine(q, n.IP))
}

//gv:contract queryLine
//gv:props C14
func gvQueryLine(n *net.IPNet, q inf.Query) {
	gv.Requires(n != nil && q != nil)
	r := queryLine(n, q)
	gv.Ensures(r == gvLineOf(n, q))
}

// gvMainland is the line of a row, empty unless the row is one of mainland China.
func gvMainland(country string, n *net.IPNet, q inf.Query) string {
	if country != "中国" {
		return ""
	}
	return gvLineOf(n, q)
}

// gvNets says that the rows have networks.
func gvNets(d *inf.IpData) bool {
	return gv.Forall(0, len(d.Ips), func(m int) bool { return d.Ips[m].Cidr != nil })
}

// gvLeftNets says that the rows from i on have networks.
func gvLeftNets(d *inf.IpData, i int) bool {
	return gv.Forall(i, len(d.Ips), func(m int) bool { return d.Ips[m].Cidr != nil })
}

// gvApart says that the notes about the version share no memory with the names and values.
func gvApart(d *inf.IpData, old []string) bool {
	return gv.Disjoint(d.Version.ExtraInfo, old) && gv.Disjoint(d.Version.ExtraInfo, d.Fields) && gv.Disjoint(d.Fields, old)
}

//gv:contract AttachLineByCidr
//gv:props C14
//gv:inline withValue
func gvAttachLineByCidr(d *inf.IpData, q inf.Query, k, c int, old []string, cidr *net.IPNet) {
	gv.Requires(gvRow(d, k, old, cidr) && gvNets(d) && q != nil && d.Version != nil && gvApart(d, old))
	n, fields := len(d.Ips), d.Fields
	p, at := field.Offset(field.Country, fields), field.Offset(field.Line, fields)
	gv.Modifies(d, d.Ips, d.Fields, d.Version, d.Version.ExtraInfo)
	AttachLineByCidr(d, q)
	gv.Ensures(len(d.Ips) == n && d.Ips[k].Cidr == cidr)
	if p == -1 {
		gv.Ensures(gv.Same(d.Fields, fields) && gv.Same(d.Ips[k].FieldValues, old))
		return
	}
	gv.Ensures(gvSet(d.Ips[k].FieldValues, old, at, gvMainland(old[p], cidr, q), c))
	if at == -1 {
		gv.Ensures(gvSet(d.Fields, fields, -1, field.Line, c))
	} else {
		gv.Ensures(gv.Same(d.Fields, fields))
	}
}

//gv:inv AttachLineByCidr
func gvAttachLineByCidrLoop(data *inf.IpData, line inf.Query, lineOffset, countryOffset int, rangeindex int, k, c int, old []string, cidr *net.IPNet) {
	gv.Inv(gvLeft(data, rangeindex+1, len(old), k, old, cidr) && gvLeftNets(data, rangeindex+1))
	if k <= rangeindex {
		gv.Inv(gvSet(data.Ips[k].FieldValues, old, lineOffset, gvMainland(old[countryOffset], cidr, line), c))
	}
}

//gv:contract ReplaceLineByCidr
//gv:props C14
//gv:inline withValue
func gvReplaceLineByCidr(d *inf.IpData, q inf.Query, k, c int, old []string, cidr *net.IPNet) {
	gv.Requires(gvRow(d, k, old, cidr) && gvNets(d) && q != nil && d.Version != nil && gvApart(d, old))
	n, fields := len(d.Ips), d.Fields
	p, at := field.Offset(field.Country, fields), field.Offset(field.ISP, fields)
	gv.Modifies(d, d.Ips, d.Version, d.Version.ExtraInfo)
	ReplaceLineByCidr(d, q)
	gv.Ensures(len(d.Ips) == n && d.Ips[k].Cidr == cidr && gv.Same(d.Fields, fields))
	if p == -1 || at == -1 {
		gv.Ensures(gv.Same(d.Ips[k].FieldValues, old))
		return
	}
	gv.Ensures(gvReplaced(d.Ips[k].FieldValues, old, at, gvMainland(old[p], cidr, q), c))
}

// gvReplaced says that row is old with a line that is not empty at a column.
func gvReplaced(row, old []string, at int, line string, c int) bool {
	if line == "" {
		return gv.Same(row, old)
	}
	return gvSet(row, old, at, line, c)
}

//gv:inv ReplaceLineByCidr
func gvReplaceLineByCidrLoop(data *inf.IpData, line inf.Query, ispOffset, countryOffset int, rangeindex int, k, c int, old []string, cidr *net.IPNet) {
	gv.Inv(gvLeft(data, rangeindex+1, len(old), k, old, cidr) && gvLeftNets(data, rangeindex+1))
	if k <= rangeindex {
		gv.Inv(gvReplaced(data.Ips[k].FieldValues, old, ispOffset, gvMainland(old[countryOffset], cidr, line), c))
	}
}

//gv:contract AttachLineByAsn
//gv:props C14
//gv:inline withValue
func gvAttachLineByAsn(d *inf.IpData, lines map[string]string, ver string, k, c int, old []string, cidr *net.IPNet) {
	gv.Requires(gvRow(d, k, old, cidr) && d.Version != nil && gvApart(d, old))
	n, fields := len(d.Ips), d.Fields
	p, at := field.Offset(field.Asn, fields), field.Offset(field.Line, fields)
	gv.Modifies(d, d.Ips, d.Fields, d.Version, d.Version.ExtraInfo)
	AttachLineByAsn(d, lines, ver)
	gv.Ensures(len(d.Ips) == n && d.Ips[k].Cidr == cidr)
	if p == -1 {
		gv.Ensures(gv.Same(d.Fields, fields) && gv.Same(d.Ips[k].FieldValues, old))
		return
	}
	gv.Ensures(gvAsnLine(d.Ips[k].FieldValues, old, at, lines, old[p], c))
	if at == -1 {
		gv.Ensures(gvSet(d.Fields, fields, -1, field.Line, c))
	} else {
		gv.Ensures(gv.Same(d.Fields, fields))
	}
}

// gvAsnLine says that row is old with the line of an AS number where it had none.
func gvAsnLine(row, old []string, at int, lines map[string]string, asn string, c int) bool {
	line, ok := lines[asn]
	if at != -1 && (!ok || old[at] != "") {
		return gv.Same(row, old)
	}
	return gvSet(row, old, at, line, c)
}

//gv:inv AttachLineByAsn
func gvAttachLineByAsnLoop(data *inf.IpData, asnLine map[string]string, lineOffset, asnOffset int, rangeindex int, k, c int, old []string, cidr *net.IPNet) {
	gv.Inv(gvLeft(data, rangeindex+1, len(old), k, old, cidr))
	if k <= rangeindex {
		gv.Inv(gvAsnLine(data.Ips[k].FieldValues, old, lineOffset, asnLine, old[asnOffset], c))
	}
}

// gvDistricts are the districts of the provinces.
var gvDistricts = map[string]string{
	"东北": "黑龙江 辽宁 吉林", "西北": "新疆 青海 宁夏 甘肃 陕西", "华北": "内蒙古 河北 山西 天津 北京", "西南": "西藏 四川 重庆 贵州 云南",
	"华中": "湖南 湖北 河南", "华东": "山东 江苏 安徽 浙江 江西 福建 上海 台湾", "华南": "广东 广西 海南 香港 澳门",
}

//gv:bounded the contents of the table, province by province
//gv:props C14
func gvDistrictTable() {
	n := 0
	for d, ps := range gvDistricts {
		for _, p := range strings.Fields(ps) {
			v := &inf.IpData{Fields: []string{field.Province}, Ips: []inf.IpRaw{{FieldValues: []string{p}}}}
			AttachDistrict(v)
			gv.Ensures(len(v.Ips[0].FieldValues) == 2 && v.Ips[0].FieldValues[1] == d)
			n++
		}
	}
	gv.Ensures(n == len(provinceDistrict))
}
