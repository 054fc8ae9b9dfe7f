package operate

import (
	"net"

	"github.com/qiniu/uip/db/field/data"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

// gvFull is the full form of a value of a field, the value itself if no table has it.
func gvFull(f, v string) string {
	if t, ok := data.NormalizedMap[f]; ok {
		if w, ok := t[v]; ok {
			return w
		}
	}
	return v
}

// gvFullIn is the same for the tables by column.
func gvFullIn(tables map[int]map[string]string, i int, v string) string {
	if t, ok := tables[i]; ok {
		if w, ok := t[v]; ok {
			return w
		}
	}
	return v
}

// gvExpanded says that column c of a row, if it is before column n, has its full form, and the old value if not.
func gvExpanded(row, old []string, n, c int, full string) bool {
	return len(row) == len(old) && (c >= n || row[c] == full) && (c < n || row[c] == old[c])
}

//gv:contract ReplaceShortage
//gv:props C14
//gv:inline withValue
func gvReplaceShortage(d *inf.IpData, rk, rc int, old []string, cidr *net.IPNet, full string) {
	gv.Requires(gvRow(d, rk, old, cidr) && 0 <= rc && rc < len(old) && full == gvFull(d.Fields[rc], old[rc]))
	n, fields, v := len(d.Ips), d.Fields, old[rc]
	gv.Modifies(d.Ips)
	ReplaceShortage(d)
	gv.Ensures(len(d.Ips) == n && d.Ips[rk].Cidr == cidr && gv.Same(d.Fields, fields))
	gv.Ensures(len(d.Ips[rk].FieldValues) == len(fields) && old[rc] == v && d.Ips[rk].FieldValues[rc] == full)
}

//gv:inv ReplaceShortage 0
func gvShortTables(ipdata *inf.IpData, offsets map[int]map[string]string, rangeindex int, rk, rc int, old []string, cidr *net.IPNet, full string) {
	gv.Inv(offsets != nil && gv.Fresh(offsets))
	if rc <= rangeindex {
		gv.Inv(gvFullIn(offsets, rc, old[rc]) == full)
	} else {
		_, ok := offsets[rc]
		gv.Inv(!ok)
	}
}

//gv:inv ReplaceShortage 1
func gvShortRows(ipdata *inf.IpData, offsets map[int]map[string]string, rangeindex int, rk, rc int, old []string, cidr *net.IPNet, full string) {
	gv.Inv(gvFullIn(offsets, rc, old[rc]) == full)
	gv.Inv(gvLeft(ipdata, rangeindex+1, len(old), rk, old, cidr))
	gv.Inv(rk > rangeindex || gvExpanded(ipdata.Ips[rk].FieldValues, old, len(old), rc, full))
}

//gv:inv ReplaceShortage 2
func gvShortRow(ipdata *inf.IpData, offsets map[int]map[string]string, k int, row inf.IpRaw, rangeindex int, rk, rc int, old []string, cidr *net.IPNet, full string) {
	gv.Inv(gvFullIn(offsets, rc, old[rc]) == full)
	gv.Inv(0 <= k && k < len(ipdata.Ips) && len(ipdata.Ips[k].FieldValues) == len(row.FieldValues))
	gv.Inv(gvLeft(ipdata, k+1, len(old), rk, old, cidr))
	gv.Inv(rk >= k || gvExpanded(ipdata.Ips[rk].FieldValues, old, len(old), rc, full))
	if rk == k {
		gv.Inv(gvExpanded(ipdata.Ips[rk].FieldValues, old, rangeindex+1, rc, full) && gv.Same(row.FieldValues, old))
	}
}
