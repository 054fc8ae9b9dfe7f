package plain

import (
	"net"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
	"github.com/qiniu/uip/verifgv/std"
)

// gvNet and gvValues are the two parts of a line, gvCol is one of its values.
func gvNet(line string) string        { return std.SplitAt(line, "\t", 0) }
func gvValues(line string) string     { return std.SplitAt(line, "\t", 1) }
func gvCol(line string, i int) string { return std.SplitAt(gvValues(line), ",", i) }

// gvGood says that a line is a network and n values.
func gvGood(line string, n int) bool {
	return std.SplitN(line, "\t") == 2 && std.CidrOK(gvNet(line)) && std.SplitN(gvValues(line), ",") == n
}

// gvLast is the last of the first n columns of this name, -1 if there is none.
//
//gv:spec rec
func gvLast(fields []string, n int, name string) int {
	if n <= 0 {
		return -1
	}
	if fields[n-1] == name {
		return n - 1
	}
	return gvLast(fields, n-1, name)
}

// gvOfNet says that cidr is the network of a line.
func gvOfNet(cidr *net.IPNet, line string) bool {
	return cidr != nil && len(cidr.IP) == std.CidrW(gvNet(line)) && len(cidr.Mask) == len(cidr.IP) && (len(cidr.IP) == 4 || len(cidr.IP) == 16) &&
		gv.Nat(cidr.IP) == std.CidrIP(gvNet(line)) && gv.Nat(cidr.Mask) == std.CidrMask(gvNet(line))
}

//gv:contract traversal.parseLine
//gv:props C16
func gvParseLine(t *traversal, line string) {
	gv.Requires(t != nil)
	cidr, rec, err := t.parseLine(line)
	gv.Ensures((err == nil) == gvGood(line, len(t.Fields)))
	if err == nil {
		gv.Ensures(gvOfNet(cidr, line) && gv.Fresh(cidr) && rec != nil && gv.Fresh(rec))
		gv.Ensures(gv.Forall(0, len(t.Fields), func(i int) bool { return rec[t.Fields[i]] == gvCol(line, gvLast(t.Fields, len(t.Fields), t.Fields[i])) }))
	}
}

//gv:inv traversal.parseLine 0
func gvParseCols(t *traversal, ret map[string]string, ar1 []string, rangeindex int, line string) {
	gv.Inv(ret != nil && gv.Fresh(ret))
	gv.Inv(gv.Forall(0, rangeindex+1, func(i int) bool { return ret[t.Fields[i]] == gvCol(line, gvLast(t.Fields, rangeindex+1, t.Fields[i])) }))
}

//gv:contract fieldToMap
//gv:props C16
func gvFieldToMap(fields []string) {
	r := fieldToMap(fields)
	gv.Ensures(r != nil && gv.Fresh(r))
	gv.Ensures(gv.Forall(0, len(fields), func(i int) bool {
		v, ok := r[fields[i]]
		return ok && v == fields[i]
	}))
}

//gv:inv fieldToMap 0
func gvFieldToMapLoop(fields []string, ret map[string]string, rangeindex int) {
	gv.Inv(ret != nil && gv.Fresh(ret))
	gv.Inv(gv.Forall(0, rangeindex+1, func(i int) bool {
		v, ok := ret[fields[i]]
		return ok && v == fields[i]
	}))
}

//gv:contract fieldToPair
//gv:props C16
func gvFieldToPair(fields []string) {
	r := fieldToPair(fields)
	gv.Ensures(len(r) == len(fields) && gv.Fresh(r))
	gv.Ensures(gv.Forall(0, len(r), func(i int) bool { return r[i] == field.Pair{Ext: fields[i], Intern: fields[i]} }))
}

//gv:inv fieldToPair 0
func gvFieldToPairLoop(fields []string, ret []field.Pair, rangeindex int) {
	gv.Inv(len(ret) == rangeindex+1 && gv.Fresh(ret))
	gv.Inv(gv.Forall(0, len(ret), func(i int) bool { return ret[i] == field.Pair{Ext: fields[i], Intern: fields[i]} }))
}

//gv:contract header
//gv:props C16
func gvHeader(line []byte) {
	r, err := header(line)
	gv.Ensures((err == nil) == (len(line) >= 5))
	if err == nil {
		gv.Ensures(len(r) == len(line)-5 && gv.Forall(0, len(r), func(i int) bool { return r[i] == line[i+5] }))
	}
}

// gvAllGood says that all lines are good.
func gvAllGood(lines []string, n int) bool {
	return gv.Forall(0, len(lines), func(i int) bool { return gvGood(lines[i], n) })
}

// gvRowOf says that a row is the one a line says, as far as column j goes.
func gvRowOf(row inf.IpRaw, fields []string, line string, j int) bool {
	return gvOfNet(row.Cidr, line) && len(row.FieldValues) == len(fields) &&
		(j < 0 || j >= len(fields) || row.FieldValues[j] == gvCol(line, gvLast(fields, len(fields), fields[j])))
}

// gvTextDump: line k and column j stand for any. What an exporter makes of a record is shown for exporters.
//
//gv:contract traversal.Dump
//gv:opt nonative
//gv:props C16
func gvTextDump(t *traversal, e inf.Exporter, k, j int, good bool) {
	gv.Requires(t != nil && good == gvAllGood(t.lines, len(t.Fields)))
	gv.Split(e == nil)
	d, err := t.Dump(e)
	gv.Ensures((err == nil) == good && (err == nil) == (d != nil))
	if err == nil {
		gv.Ensures(len(d.Ips) == len(t.lines))
		if k >= 0 && k < len(d.Ips) {
			gv.Ensures(gvOfNet(d.Ips[k].Cidr, t.lines[k]))
			if e == nil {
				gv.Ensures(gv.Same(d.Fields, t.Fields))
				gv.Ensures(gvRowOf(d.Ips[k], t.Fields, t.lines[k], j))
			}
		}
	}
}

//gv:inv traversal.Dump 0
func gvTextLines(t *traversal, ret inf.IpData, exporter inf.Exporter, rangeindex int, k, j int, good bool) {
	gv.Inv(len(ret.Ips) == rangeindex+1 && gv.Fresh(ret.Ips))
	gv.Inv(!good || gvAllGood(t.lines, len(t.Fields)))
	gv.Inv(gv.Forall(0, rangeindex+1, func(i int) bool { return gvGood(t.lines[i], len(t.Fields)) }))
	if k >= 0 && k <= rangeindex {
		gv.Inv(gvOfNet(ret.Ips[k].Cidr, t.lines[k]))
		if exporter == nil {
			gv.Inv(gvRowOf(ret.Ips[k], t.Fields, t.lines[k], j))
		}
	}
}

//gv:inv traversal.Dump 1
func gvTextRow(t *traversal, ret inf.IpData, values, prevInfo []string, info map[string]string, exporter inf.Exporter, line string, rangeindex, outerindex int, k, j int) {
	if k >= 0 && k < outerindex {
		gv.Inv(gvOfNet(ret.Ips[k].Cidr, t.lines[k]))
		if exporter == nil {
			gv.Inv(gv.Disjoint(values, ret.Ips[k].FieldValues))
			gv.Inv(gvRowOf(ret.Ips[k], t.Fields, t.lines[k], j))
		}
	}
	gv.Inv(len(values) == rangeindex+1 && gv.Fresh(values))
	gv.Inv(gv.Disjoint(values, ret.Fields) && gv.Disjoint(values, prevInfo) && gv.Disjoint(values, t.lines))
	gv.Inv(gv.Forall(0, len(values), func(i int) bool { return values[i] == info[ret.Fields[i]] }))
}
