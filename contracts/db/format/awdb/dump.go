package awdb

import (
	"net"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/field/export"
	gv "github.com/qiniu/uip/verifgv"
)

// gvNames are the names under which a database's fields are known.
var gvNames = map[string]string{
	field.Country: "country", field.Province: "province", field.City: "city", field.ISP: "isp", field.Asn: "asnumber",
	field.Continent: "continent", field.Line: "line",
}

// gvDump dumps any file under any rule: the networks of a walk with the reader's lookup, with the values a query gives.
//
//gv:bounded the dump calls lookups through function values and rules through interfaces; dumped natively and compared with a walk
//gv:props C11,C19
func gvDump(data []byte, rule string) {
	kept := append([]byte{}, data...)
	d, err := dump(data, export.ParseRule(rule))
	r, err2 := FromBytes(data)
	if err2 != nil {
		gv.Ensures(err != nil && d == nil)
		return
	}
	if r.Metadata.IPVersion != 6 {
		if _, _, ok := gvAnswer(r, net.IPv4(8, 8, 8, 8)); !ok {
			gv.Ensures(err != nil)
			return
		}
	}
	find := func(ip net.IP) (*net.IPNet, map[string]string, error) {
		_, rec, ok := gvAnswer(r, ip)
		w, _, err := r.findMap(ip)
		gv.Ensures((err == nil) == ok)
		return w, rec, err
	}
	fields := []string{"country", "province", "city", "isp", "asnumber", "continent", "line", "district"}
	export.GvDumped(d, err, rule, gvNames, fields, r.Metadata.IPVersion == 6, find)
	if err != nil {
		return
	}
	gv.Ensures(d.Version != nil && d.Version.IpType == r.Metadata.IpType() && d.Version.Count == uint32(r.Metadata.NodeCount))
	q := &querier{Data: data, reader: r}
	if rule == "" {
		gv.Ensures(len(d.Fields) == len(gvNames))
		for _, row := range d.Ips {
			lo, hi := export.GvEnds(row.Cidr)
			for _, ip := range []net.IP{lo, hi} {
				info, n, err := q.Query(ip)
				ones, _ := row.Cidr.Mask.Size()
				gv.Ensures(err == nil && n == ones)
				for i, want := range []string{info.Country, info.Province, info.City, info.Isp, info.Asn, info.Continent, info.Line} {
					gv.Ensures(row.FieldValues[i] == want)
				}
			}
		}
	}
	gv.Ensures(string(kept) == string(data))
}
