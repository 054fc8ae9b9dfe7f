package export

import (
	"bytes"
	"errors"
	"net"
	"reflect"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

// GvEnds are the first and the last address of a network, in its form.
func GvEnds(n *net.IPNet) (net.IP, net.IP) {
	lo, hi := append(net.IP{}, n.IP...), append(net.IP{}, n.IP...)
	for i := range lo {
		lo[i] &= n.Mask[i]
		hi[i] |= ^n.Mask[i]
	}
	return lo, hi
}

// GvAfterIP is the address after an address, nil after the last one.
func GvAfterIP(ip net.IP) net.IP {
	out := append(net.IP{}, ip...)
	for i := len(out) - 1; i >= 0; i-- {
		out[i]++
		if out[i] != 0 {
			return out
		}
	}
	return nil
}

// GvLookup is a lookup as a dump uses it: a network, a record, or an error.
type GvLookup func(ip net.IP) (*net.IPNet, map[string]string, error)

// GvWalk goes through the address space of a family with a lookup, network by network; ok says that this reaches the
// last address.
func GvWalk(v6 bool, find GvLookup) (nets []*net.IPNet, recs []map[string]string, ok bool) {
	cur := net.IP{0, 0, 0, 0}
	if v6 {
		cur = make(net.IP, 16)
	}
	for cur != nil {
		n, rec, err := find(append(net.IP{}, cur...))
		if err != nil || len(n.IP) != len(cur) {
			return nil, nil, false
		}
		lo, hi := GvEnds(n)
		if !bytes.Equal(lo, cur) {
			return nil, nil, false
		}
		nets, recs = append(nets, n), append(recs, rec)
		cur = GvAfterIP(hi)
	}
	return nets, recs, true
}

// GvColumns are the fields of a dump without a rule: the known names of the database's fields, in its order.
func GvColumns(fieldMap map[string]string, fields []string) []string {
	var out []string
	for _, f := range fields {
		for _, k := range append(append([]string{}, field.CommonFields...), "a", "b") {
			if v, ok := fieldMap[k]; ok && v == f {
				out = append(out, k)
			}
		}
	}
	return out
}

// GvDumped checks a dump: the networks of the walk, each with the values of its record under the rule.
func GvDumped(d *inf.IpData, err error, rule string, fieldMap map[string]string, fields []string, v6 bool, find GvLookup) {
	nets, recs, ok := GvWalk(v6, find)
	gv.Ensures((err == nil) == ok && (d != nil) == ok)
	if !ok {
		return
	}
	want := GvFields(rule, GvColumns(fieldMap, fields))
	gv.Ensures(len(d.Fields) == len(want))
	for i := range want {
		gv.Ensures(d.Fields[i] == want[i])
	}
	gv.Ensures(len(d.Ips) == len(nets))
	for k, n := range nets {
		lo, hi := GvEnds(n)
		l, h := GvEnds(d.Ips[k].Cidr)
		gv.Ensures(bytes.Equal(lo, l) && bytes.Equal(hi, h))
		row := GvRow(rule, want, fieldMap, recs[k])
		gv.Ensures(len(d.Ips[k].FieldValues) == len(row))
		for i := range row {
			gv.Ensures(d.Ips[k].FieldValues[i] == row[i])
		}
	}
}

// GvRow are the values of the fields of a record, under a rule.
func GvRow(rule string, fields []string, fieldMap map[string]string, rec map[string]string) []string {
	src := make([]string, len(fields))
	for i, f := range fields {
		src[i] = rec[fieldMap[f]]
	}
	e, _ := ParseRule(rule).(*Exporter)
	if e == nil {
		return src
	}
	out := make([]string, len(src))
	for i := range src {
		out[i] = gvAfter(e.filters, len(e.filters), src, i)
	}
	return out
}

// GvFields are the fields of a rule, or the given ones without a rule.
func GvFields(rule string, all []string) []string {
	if e, _ := ParseRule(rule).(*Exporter); e != nil {
		return e.fields
	}
	return all
}

// GvTable is what the lookup of a made-up database answers.
type GvTable struct {
	Nets []*net.IPNet
	Recs []map[string]string
}

var errGv = errors.New("no record")

func (t *GvTable) find(ip net.IP) (*net.IPNet, map[string]string, error) {
	for i, n := range t.Nets {
		if n.Contains(ip) && (n.IP.To4() != nil) == (ip.To4() != nil) {
			rec := map[string]string{}
			for k, v := range t.Recs[i] {
				rec[k] = v
			}
			return &net.IPNet{IP: append(net.IP{}, n.IP...), Mask: append(net.IPMask{}, n.Mask...)}, rec, nil
		}
	}
	return nil, nil, errGv
}

// gvBuildIPData dumps a made-up database, under any rule.
//
//gv:bounded lookups and rules are function values and interfaces; made-up databases are dumped natively and compared with a walk through their lookup
//gv:props C11
func gvBuildIPData(fieldMap map[string]string, fields []string, rule string, version *inf.VersionInfo, t *GvTable) {
	gv.Requires(version != nil)
	calls := 0
	d, err := BuildIPData(fieldMap, fields, ParseRule(rule), version, func(ip net.IP) (*net.IPNet, map[string]string, error) {
		calls++
		gv.Ensures(calls <= len(t.Nets)+1) // ends
		return t.find(ip)
	})
	GvDumped(d, err, rule, fieldMap, fields, version.IpType == inf.IpV6, t.find)
	if err == nil {
		rows := map[int][]string{}
		for k := range d.Ips {
			rows[k] = append([]string{}, d.Ips[k].FieldValues...)
		}
		d2, err := BuildIPData(fieldMap, fields, ParseRule(rule), version, t.find)
		gv.Ensures(err == nil && reflect.DeepEqual(d.Ips, d2.Ips))
	}
}
