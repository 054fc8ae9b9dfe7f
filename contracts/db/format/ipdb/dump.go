package ipdb

import (
	"net"
	"reflect"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

// gvDump dumps any file under any rule: the networks of a walk with the reader's lookup, with the values a query gives.
//
//gv:bounded the dump calls lookups through function values and rules through interfaces; dumped natively and compared with a walk
//gv:props C11,C19
func gvDump(data []byte, rule string) {
	kept := append([]byte{}, data...)
	d, err := dump(data, export.ParseRule(rule))
	r, err2 := newReaderFromBytes(data)
	if err2 != nil {
		gv.Ensures(err != nil && d == nil)
		return
	}
	v6 := r.meta.IPVersion == IPv6
	find := func(ip net.IP) (*net.IPNet, map[string]string, error) { return r.findMap(ip, "CN") }
	export.GvDumped(d, err, rule, CommonFieldsMap, r.meta.Fields, v6, find)
	if err != nil {
		return
	}
	v := d.Version
	gv.Ensures(v != nil && v.IpType == r.meta.IpType() && v.Build == r.meta.Build && v.Count == uint32(r.meta.NodeCount) && reflect.DeepEqual(v.ExtraInfo, r.meta.Extra))
	gv.Ensures(v.Version == r.meta.Version || r.meta.Version == "")
	q, err := newQuerier(data)
	gv.Ensures(err == nil)
	if rule == "" {
		for _, row := range d.Ips {
			lo, hi := export.GvEnds(row.Cidr)
			for _, ip := range []net.IP{lo, hi} {
				info, n, err := q.Query(ip)
				ones, _ := row.Cidr.Mask.Size()
				gv.Ensures(err == nil && n == ones)
				gvAgree(d.Fields, row.FieldValues, info)
			}
		}
	}
	gv.Ensures(string(kept) == string(data))
}

// gvAgree says that a row and an answer have the same value of every attribute they share.
func gvAgree(fields, values []string, info *inf.IpInfo) {
	for i, f := range fields {
		v := values[i]
		switch f {
		case field.Country:
			gv.Ensures(info.Country == v)
		case field.Province:
			gv.Ensures(info.Province == v)
		case field.City:
			gv.Ensures(info.City == v)
		case field.ISP:
			gv.Ensures(info.Isp == v)
		case field.Asn:
			gv.Ensures(info.Asn == v)
		case field.Continent:
			gv.Ensures(info.Continent == v)
		case field.Line:
			gv.Ensures(info.Line == v)
		case field.District:
			gv.Ensures(info.District == v)
		}
	}
}

//gv:contract MetaData.IpType
//gv:props C19,C11
func gvMetaIpType(m *MetaData) {
	gv.Requires(m != nil)
	t := m.IpType()
	gv.Ensures(gv.Iff(t == inf.IpV4, m.IPVersion == 1) && gv.Iff(t == inf.IpV6, m.IPVersion == 2))
	gv.Ensures(t == inf.IpV4 || t == inf.IpV6 || t == inf.IpAll)
}

//gv:contract ipVersion
//gv:props C19
func gvIpVersion(v *inf.VersionInfo) {
	gv.Requires(v != nil)
	n := ipVersion(v)
	gv.Ensures(gv.Iff(n == 1, v.IpType == inf.IpV4) && gv.Iff(n == 2, v.IpType == inf.IpV6))
	gv.Ensures(n == 1 || n == 2 || n == 3)
}
