package operate

import (
	"net"

	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/ipnet"
	gv "github.com/qiniu/uip/verifgv"
	"github.com/qiniu/uip/verifgv/std"
)

// gvCov says that one of the first n rows covers address x with the values of this key.
//
//gv:spec rec entry
func gvCov(ips []inf.IpRaw, n int, x gv.N, key string) bool {
	if n <= 0 {
		return false
	}
	row := ips[n-1]
	return std.Key(row.FieldValues) == key && ipnet.GvInNet(row.Cidr, x) || gvCov(ips, n-1, x, key)
}

func gvHit(r RangeFields, x gv.N, key string) bool {
	return std.Key(r.f) == key && ipnet.GvInRange(r.r, x)
}

// gvRuns says that one of the runs covers address x with the values of this key.
func gvRuns(rs []RangeFields, from, n int, x gv.N, key string) bool {
	return gv.Exists(from, n, func(j int) bool { return gvHit(rs[j], x, key) })
}

// gvOut says that one of the rows covers address x with the values of this key.
func gvOut(ips []inf.IpRaw, x gv.N, key string) bool {
	return gv.Exists(0, len(ips), func(o int) bool {
		return std.Key(ips[o].FieldValues) == key && ipnet.GvInSized(ips[o].Cidr, x)
	})
}

func gvOutOK(ips []inf.IpRaw) bool {
	return gv.Forall(0, len(ips), func(o int) bool { return ipnet.GvSized(ips[o].Cidr) })
}

func gvRunsOK(rs []RangeFields) bool {
	return gv.Forall(0, len(rs), func(j int) bool { return ipnet.GvRange(rs[j].r) })
}

//gv:contract MergeNearNetwork
//gv:opt gen 1
//gv:opaque gvA gvLastA gvPrefix gvAtTop gvBase gvRest gvMaximal
//gv:props C13
func gvMergeNearNetwork(ipd *inf.IpData, ips []inf.IpRaw, x gv.N, key string, cov bool) {
	gv.Requires(ipd != nil && ipd.Version != nil && gv.Same(ips, ipd.Ips))
	gv.Requires(gv.Forall(0, len(ips), func(i int) bool { return ipnet.GvNet(ips[i].Cidr) }))
	gv.Requires(cov == gvCov(ips, len(ips), x, key))
	gv.Split(cov)
	gv.Modifies(ipd, ipd.Version)
	MergeNearNetwork(ipd)
	gv.Ensures(gvOutOK(ipd.Ips))
	gv.Ensures(!cov || gvOut(ipd.Ips, x, key))
	gv.Ensures(cov || !gvOut(ipd.Ips, x, key))
	gv.Ensures(ipd.Version.Count == uint32(len(ipd.Ips)))
}

//gv:inv MergeNearNetwork 0
func gvMergeRuns(ipd *inf.IpData, ipRanges []RangeFields, prev RangeFields, rangeindex int, ips []inf.IpRaw, x gv.N, key string) {
	gv.Inv(gv.Same(ips, ipd.Ips) && gv.Fresh(ipRanges) && gv.Fresh(prev.r))
	gv.Inv(gv.Forall(0, len(ips), func(i int) bool { return ipnet.GvNet(ips[i].Cidr) }))
	gv.Inv(gvRunsOK(ipRanges))
	gv.Inv((prev.r == nil) == (rangeindex == -1))
	if prev.r == nil {
		gv.Inv(len(ipRanges) == 0)
	} else {
		gv.Inv(ipnet.GvRange(prev.r))
		gv.Inv(gv.Forall(0, len(ipRanges), func(j int) bool { return ipRanges[j].r != prev.r }))
		c := gvCov(ips, rangeindex+1, x, key)
		gv.Witness(len(ipRanges) - 1)
		gv.Inv(!c || gvHit(prev, x, key) || gvRuns(ipRanges, 0, len(ipRanges), x, key))
		gv.Inv(c || !gvHit(prev, x, key) && !gvRuns(ipRanges, 0, len(ipRanges), x, key))
	}
}

//gv:inv MergeNearNetwork 1
func gvMergeRows(ipd *inf.IpData, ipRanges []RangeFields, rangeindex int, x gv.N, key string, cov bool) {
	gv.Inv(gv.Fresh(ipd.Ips) && ipd.Version != nil)
	gv.Inv(gvOutOK(ipd.Ips))
	gv.Witness(len(ipRanges) - 1)
	gv.Inv(!cov || gvOut(ipd.Ips, x, key) || gvRuns(ipRanges, rangeindex+1, len(ipRanges), x, key))
	gv.Inv(cov || !gvOut(ipd.Ips, x, key))
}

//gv:inv MergeNearNetwork 2
func gvMergeNets(ipd *inf.IpData, ipRanges []RangeFields, ipRange RangeFields, subs []*net.IPNet, outerindex, rangeindex int, x gv.N, key string, cov bool) {
	gv.Inv(gv.Fresh(ipd.Ips) && ipd.Version != nil)
	gv.Inv(gvOutOK(ipd.Ips))
	gv.Witness(rangeindex + 1)
	gv.Witness(len(ipd.Ips) - 1)
	gv.Inv(ipnet.GvReached(ipRange.r, subs, rangeindex+1))
	rest := gvHit(ipRange, x, key) && !ipnet.GvUpTo(ipRange.r, subs, rangeindex+1, x)
	gv.Inv(!cov || gvOut(ipd.Ips, x, key) || gvRuns(ipRanges, outerindex+1, len(ipRanges), x, key) || rest)
	gv.Inv(cov || !gvOut(ipd.Ips, x, key))
}

// gvRunsOf are the maximal runs of rows that can be joined, as the first and the last address and the values.
func gvRunsOf(ips []inf.IpRaw) (lo, hi []gv.N, vals [][]string) {
	for _, row := range ips {
		ones, bits := row.Cidr.Mask.Size()
		s := gv.Nat(row.Cidr.IP.To16())
		e := gv.Or(s, gv.Sub(gv.Shl(gv.I(1), bits-ones), gv.I(1)))
		n := len(lo) - 1
		if n >= 0 && std.Key(vals[n]) == std.Key(row.FieldValues) && gv.Le(lo[n], s) && (gv.Le(s, hi[n]) || gv.Lt(hi[n], gv.Not(gv.I(0))) && s == gv.Add(hi[n], gv.I(1))) {
			if gv.Lt(hi[n], e) {
				hi[n] = e
			}
			continue
		}
		lo, hi, vals = append(lo, s), append(hi, e), append(vals, row.FieldValues)
	}
	return
}

// gvWidest is the number of host bits of the widest network that starts at s and does not reach beyond e.
func gvWidest(s, e gv.N) int {
	for h := 128; ; h-- {
		rest := gv.Sub(gv.Shl(gv.I(1), h), gv.I(1))
		if h == 128 {
			rest = gv.Not(gv.I(0))
		}
		if gv.And(s, rest) == gv.I(0) && gv.Le(gv.Or(s, rest), e) {
			return h
		}
	}
}

//gv:bounded that the runs are kept in order, each as the shortest list of networks, is checked on generated lists (the proof of MergeNearNetwork is about what every address gets)
//gv:props C13
func gvMergeRunsExact(d *inf.IpData) {
	gv.Requires(d != nil && d.Version != nil)
	gv.Modifies(d, d.Version)
	lo, hi, vals := gvRunsOf(d.Ips)
	n := 0
	MergeNearNetwork(d)
	for k := range lo {
		for s := lo[k]; ; {
			gv.Ensures(n < len(d.Ips))
			row := d.Ips[n]
			ones, bits := row.Cidr.Mask.Size()
			h := gvWidest(s, hi[k])
			gv.Ensures(gv.Nat(row.Cidr.IP.To16()) == s && bits-ones == h && std.Key(row.FieldValues) == std.Key(vals[k]))
			n++
			last := gv.Or(s, gv.Not(gv.Shl(gv.Not(gv.I(0)), h)))
			if h == 128 {
				last = gv.Not(gv.I(0))
			}
			if last == hi[k] {
				break
			}
			s = gv.Add(last, gv.I(1))
		}
	}
	gv.Ensures(n == len(d.Ips))
}
