package memip

import (
	"net"

	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/ipnet"
	gv "github.com/qiniu/uip/verifgv"
	"github.com/qiniu/uip/verifgv/std"
)

// gvSays says that a line gives address x the view of this key.
func gvSays(line string, x gv.N, key string) bool {
	v6 := std.HasSub(gvPart(line, 0), ":")
	return gvViewKey(line) == key && gv.Le(gvEnd(gvPart(line, 0), v6), x) && gv.Le(x, gvEnd(gvPart(line, 1), v6))
}

// gvCov says that one of the first n lines gives address x the view of this key.
//
//gv:spec rec entry
func gvCov(lines []string, n int, x gv.N, key string) bool {
	if n <= 0 {
		return false
	}
	return gvSays(lines[n-1], x, key) || gvCov(lines, n-1, x, key)
}

func gvHit(r row, x gv.N, key string) bool { return std.Key(r.view) == key && ipnet.GvInRange(r.rg, x) }

// gvRuns says that one of the ranges covers address x with the view of this key.
func gvRuns(rs []row, from, n int, x gv.N, key string) bool {
	return gv.Exists(from, n, func(j int) bool { return gvHit(rs[j], x, key) })
}

// gvOut says that one of the rows covers address x with the values of this key.
func gvOut(ips []inf.IpRaw, x gv.N, key string) bool {
	return gv.Exists(0, len(ips), func(o int) bool {
		return std.Key(ips[o].FieldValues) == key && ipnet.GvInSized(ips[o].Cidr, x)
	})
}

func gvOutOK(ips []inf.IpRaw) bool {
	return gv.Forall(0, len(ips), func(o int) bool { return ipnet.GvSized(ips[o].Cidr) })
}

func gvRunsOK(rs []row) bool {
	return gv.Forall(0, len(rs), func(j int) bool { return ipnet.GvRange(rs[j].rg) })
}

// gvAllGood says that the first n lines are good.
func gvAllGood(lines []string, n int) bool {
	return gv.Forall(0, n, func(i int) bool { return gvGood(lines[i]) })
}

//gv:contract traversal.Dump
//gv:opt gen 1
//gv:opaque gvA gvLastA gvPrefix gvAtTop gvBase gvRest gvMaximal
//gv:props C17
func gvTraversalDump(t *traversal, e inf.Exporter, lines []string, x gv.N, key string, cov, good bool) {
	gv.Requires(t != nil && t.Version != nil && gv.Same(lines, t.lines))
	gv.Requires(cov == gvCov(lines, len(lines), x, key))
	gv.Requires(good == gvAllGood(lines, len(lines)))
	gv.Split(cov)
	gv.Modifies(t.Version)
	d, err := t.Dump(e)
	if err != nil {
		gv.Ensures(d == nil && !good)
	} else {
		gv.Ensures(good)
		gv.Ensures(d != nil && gvOutOK(d.Ips))
		gv.Ensures(gv.Same(d.Fields, t.Fields))
		gv.Ensures(!cov || gvOut(d.Ips, x, key))
		gv.Ensures(cov || !gvOut(d.Ips, x, key))
		gv.Ensures(t.Version.Count == uint32(len(d.Ips)))
		gv.Ensures(t.Version.IpType == inf.IpV4 || t.Version.IpType == inf.IpV6)
		gv.Ensures((t.Version.IpType == inf.IpV6) == (len(lines) > 0 && std.HasSub(lines[0], ":")))
	}
}

//gv:inv traversal.Dump 0
func gvDumpLines(t *traversal, rows []row, rangeindex int, lines []string, x gv.N, key string, good bool) {
	gv.Inv(!good || gvAllGood(lines, len(lines)))
	gv.Inv(gv.Same(lines, t.lines) && gv.Fresh(rows))
	gv.Inv(gvAllGood(lines, rangeindex+1))
	gv.Inv(gvRunsOK(rows))
	c := gvCov(lines, rangeindex+1, x, key)
	gv.Witness(len(rows) - 1)
	gv.Inv(!c || gvRuns(rows, 0, len(rows), x, key))
	gv.Inv(c || !gvRuns(rows, 0, len(rows), x, key))
}

//gv:inv traversal.Dump 1
func gvDumpRows(t *traversal, ipd inf.IpData, rows []row, rangeindex int, x gv.N, key string, cov bool) {
	gv.Inv(gv.Fresh(ipd.Ips) && gv.Same(ipd.Fields, t.Fields) && t.Version != nil)
	gv.Inv(gvOutOK(ipd.Ips))
	gv.Witness(len(rows) - 1)
	gv.Inv(!cov || gvOut(ipd.Ips, x, key) || gvRuns(rows, rangeindex+1, len(rows), x, key))
	gv.Inv(cov || !gvOut(ipd.Ips, x, key))
}

//gv:inv traversal.Dump 2
func gvDumpNets(t *traversal, ipd inf.IpData, rows []row, ipRange row, subs []*net.IPNet, outerindex, rangeindex int, x gv.N, key string, cov bool) {
	gv.Inv(gv.Fresh(ipd.Ips) && gv.Same(ipd.Fields, t.Fields) && t.Version != nil)
	gv.Inv(gvOutOK(ipd.Ips))
	gv.Witness(rangeindex + 1)
	gv.Witness(len(ipd.Ips) - 1)
	gv.Inv(ipnet.GvReached(ipRange.rg, subs, rangeindex+1))
	rest := gvHit(ipRange, x, key) && !ipnet.GvUpTo(ipRange.rg, subs, rangeindex+1, x)
	gv.Inv(!cov || gvOut(ipd.Ips, x, key) || gvRuns(rows, outerindex+1, len(rows), x, key) || rest)
	gv.Inv(cov || !gvOut(ipd.Ips, x, key))
}
