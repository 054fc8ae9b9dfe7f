package plain

import (
	"bytes"
	"encoding/json"
	"net"
	"reflect"
	"strings"

	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

// gvWritable says that d can be written as text: every row has a network and one value per field, no name or value
// holds what separates lines and columns, and no name a comma.
func gvWritable(d *inf.IpData) bool {
	if d == nil || d.Version == nil || len(d.Fields) == 0 || strings.ContainsAny(strings.Join(d.Fields, ""), ",\t\r\n") {
		return false
	}
	seen := map[string]bool{}
	for _, f := range d.Fields {
		if seen[f] {
			return false
		}
		seen[f] = true
	}
	for _, row := range d.Ips {
		if row.Cidr == nil || len(row.FieldValues) != len(d.Fields) || strings.ContainsAny(strings.Join(row.FieldValues, ""), "\t\r\n") {
			return false
		}
	}
	return true
}

// gvSameNet says that two networks are the same, a 4-byte one counting as its IPv4-mapped form.
func gvSameNet(a, b *net.IPNet) bool {
	n, w := a.Mask.Size()
	m, x := b.Mask.Size()
	return a.IP.Equal(b.IP) && n+128-w == m+128-x
}

func gvIdentity(fields []string) map[string]string {
	m := map[string]string{}
	for _, f := range fields {
		m[f] = f
	}
	return m
}

// gvRoundTrip writes rows as text and reads them back, under any rule: the same fields, version and rows, with commas
// replaced; the rows written are as they were.
//
//gv:bounded formatting and json are outside the verifier's reach; written and read back natively
//gv:props C16,C19
func gvRoundTrip(d *inf.IpData, rule string) {
	gv.Requires(gvWritable(d))
	var values [][]string
	for _, row := range d.Ips {
		values = append(values, append([]string{}, row.FieldValues...))
	}
	var b, b2 bytes.Buffer
	gv.Ensures(pack(d, &b) == nil && pack(d, &b2) == nil)
	for k, row := range d.Ips {
		gv.Ensures(reflect.DeepEqual(append([]string{}, row.FieldValues...), values[k]))
	}
	l1, l2 := strings.SplitN(b.String(), "\n", 2), strings.SplitN(b2.String(), "\n", 2)
	gv.Ensures(len(l1) == 2 && len(l2) == 2 && l1[1] == l2[1])
	got, err := dump(b.Bytes(), export.ParseRule(rule))
	gv.Ensures(err == nil && got != nil)
	gv.Ensures(reflect.DeepEqual(got.Version, d.Version))
	want := export.GvFields(rule, d.Fields)
	gv.Ensures(len(got.Fields) == len(want) && len(got.Ips) == len(d.Ips))
	for i := range want {
		gv.Ensures(got.Fields[i] == want[i])
	}
	for k, row := range d.Ips {
		gv.Ensures(gvSameNet(got.Ips[k].Cidr, row.Cidr))
		rec := map[string]string{}
		for i, f := range d.Fields {
			rec[f] = strings.Join(strings.Split(values[k][i], ","), "_")
		}
		vs := export.GvRow(rule, want, gvIdentity(d.Fields), rec)
		gv.Ensures(len(got.Ips[k].FieldValues) == len(vs))
		for i := range vs {
			gv.Ensures(got.Ips[k].FieldValues[i] == vs[i])
		}
	}
}

// gvText reads any text: all of its lines, or an error.
//
//gv:bounded scanning and json are outside the verifier's reach; read natively and compared with an independent parse
//gv:props C16
func gvText(data []byte, rule string) {
	kept := append([]byte{}, data...)
	got, err := dump(data, export.ParseRule(rule))
	gv.Ensures(string(kept) == string(data))
	gv.Ensures((err == nil) == (got != nil))
	lines := strings.Split(string(data), "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for i := range lines {
		lines[i] = strings.TrimSuffix(lines[i], "\r")
	}
	if len(lines) < 3 || len(lines[1]) < 5 || len(lines[2]) < 5 {
		gv.Ensures(err != nil)
		return
	}
	var v *inf.VersionInfo
	if json.Unmarshal([]byte(lines[1][5:]), &v) != nil || v == nil {
		gv.Ensures(err != nil)
		return
	}
	fields := strings.Split(lines[2][5:], ",")
	if len(gvIdentity(fields)) != len(fields) {
		return
	}
	want := export.GvFields(rule, fields)
	var nets []*net.IPNet
	var rows [][]string
	for _, l := range lines[3:] {
		parts := strings.Split(l, "\t")
		ok := len(parts) == 2
		var n *net.IPNet
		var vs []string
		if ok {
			_, n, _ = net.ParseCIDR(parts[0])
			vs = strings.Split(parts[1], ",")
			ok = n != nil && len(vs) == len(fields)
		}
		if !ok {
			gv.Ensures(err != nil)
			return
		}
		rec := map[string]string{}
		for i, f := range fields {
			rec[f] = vs[i]
		}
		nets, rows = append(nets, n), append(rows, export.GvRow(rule, want, gvIdentity(fields), rec))
	}
	gv.Ensures(err == nil && len(got.Ips) == len(rows) && len(got.Fields) == len(want) && reflect.DeepEqual(got.Version, v))
	for i := range want {
		gv.Ensures(got.Fields[i] == want[i])
	}
	for k := range rows {
		gv.Ensures(gvSameNet(got.Ips[k].Cidr, nets[k]) && len(got.Ips[k].FieldValues) == len(rows[k]))
		for i := range rows[k] {
			gv.Ensures(got.Ips[k].FieldValues[i] == rows[k][i])
		}
	}
}
