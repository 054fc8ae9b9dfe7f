package inf

import (
	"io"
	"net"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/ipnet"
	gv "github.com/qiniu/uip/verifgv"
)

// GvRect says that every row has one value per field.
func GvRect(d *IpData) bool {
	return gv.Forall(0, len(d.Ips), func(k int) bool { return len(d.Ips[k].FieldValues) == len(d.Fields) })
}

// What is assumed of a database someone asks: an answer depends on the address only, in whichever form it is given, and
// asking changes nothing.

func gvIP(ok bool, a gv.N) net.IP {
	if !ok {
		return nil
	}
	return gv.Bytes(a)
}

//gv:spec abstract
func gvHas(q Query, ok bool, a gv.N) bool {
	_, _, err := q.Query(gvIP(ok, a))
	return err == nil
}

//gv:spec abstract
func gvBits(q Query, ok bool, a gv.N) int {
	_, n, _ := q.Query(gvIP(ok, a))
	return n
}

//gv:spec abstract
func gvAnswer(q Query, ok bool, a gv.N) IpInfo {
	info, _, err := q.Query(gvIP(ok, a))
	if err != nil {
		return IpInfo{}
	}
	return *info
}

// GvHas says that q has an answer for ip.
func GvHas(q Query, ip net.IP) bool { return gvHas(q, ip.To16() != nil, gv.Nat(ip.To16())) }

// GvBits is the prefix length in the answer of q for ip.
func GvBits(q Query, ip net.IP) int { return gvBits(q, ip.To16() != nil, gv.Nat(ip.To16())) }

// GvAnswer is the answer of q for ip.
func GvAnswer(q Query, ip net.IP) IpInfo { return gvAnswer(q, ip.To16() != nil, gv.Nat(ip.To16())) }

// GvLine is the line in the answer of q for ip.
func GvLine(q Query, ip net.IP) string { return GvAnswer(q, ip).Line }

// GvVersion is what q says of its version.
//
//gv:spec abstract
func GvVersion(q Query) *VersionInfo { return q.VersionInfo() }

//gv:trusted Query.Query
//gv:opt nonative
//gv:props C14,C18
func gvQuery(q Query, ip net.IP) {
	info, n, err := q.Query(ip)
	gv.Ensures((err == nil) == GvHas(q, ip))
	if err == nil {
		gv.Ensures(info != nil && *info == GvAnswer(q, ip) && n == GvBits(q, ip))
	}
}

//gv:trusted Query.VersionInfo
//gv:opt nonative
//gv:props C14,C18
func gvVersionInfo(q Query) {
	v := q.VersionInfo()
	gv.Ensures(v != nil && v == GvVersion(q))
}

// GvOpens says that a reader accepts the bytes.
//
//gv:spec abstract
func GvOpens(create NewQuery, b []byte) bool {
	_, err := create(b)
	return err == nil
}

// GvBy says that q is what a reader made of the bytes.
//
//gv:spec abstract
func GvBy(q Query, create NewQuery, b []byte) bool { return q != nil }

//gv:trusted NewQuery
//gv:opt nonative
//gv:props C18
func gvNewQuery(create NewQuery, b []byte) {
	q, err := create(b)
	gv.Ensures((err == nil) == GvOpens(create, b))
	if err == nil {
		gv.Ensures(q != nil && GvBy(q, create, b))
	}
}

// What filling the cache changes is proved in the formats: no answer.
//
//gv:trusted Query.BuildCache
//gv:opt nonative
//gv:props C18
func gvBuildCache(q Query, l []string) { q.BuildCache(l) }

//gv:contract VersionInfo.HasIpV4
//gv:props C19,C09
func gvHasIpV4(v *VersionInfo) {
	gv.Requires(v != nil)
	r := v.HasIpV4()
	gv.Ensures(gv.Implies(v.IpType == IpV4 || v.IpType == IpAll, r) && gv.Implies(v.IpType == IpV6, !r))
	gv.Ensures(r == (v.IpType&1 == 1))
}

//gv:contract VersionInfo.HasIpV6
//gv:props C19
func gvHasIpV6(v *VersionInfo) {
	gv.Requires(v != nil)
	r := v.HasIpV6()
	gv.Ensures(gv.Implies(v.IpType == IpV6 || v.IpType == IpAll, r) && gv.Implies(v.IpType == IpV4, !r))
	gv.Ensures(r == (v.IpType&2 == 2))
}

//gv:contract VersionInfo.IsIpV4
//gv:props C19
func gvIsIpV4(v *VersionInfo) {
	gv.Requires(v != nil)
	r := v.IsIpV4()
	gv.Ensures(r == (v.IpType == IpV4))
}

//gv:contract VersionInfo.IsIpV6
//gv:props C19,C11
func gvIsIpV6(v *VersionInfo) {
	gv.Requires(v != nil)
	r := v.IsIpV6()
	gv.Ensures(r == (v.IpType == IpV6))
}

//gv:contract VersionInfo.IsIpAll
//gv:props C19
func gvIsIpAll(v *VersionInfo) {
	gv.Requires(v != nil)
	r := v.IsIpAll()
	gv.Ensures(r == (v.IpType == IpAll))
}

// gvFlags says that the flags of a declared type agree with each other.
//
//gv:lemma
//gv:props C19
func gvFlags(v *VersionInfo) {
	gv.Requires(v != nil && (v.IpType == IpV4 || v.IpType == IpV6 || v.IpType == IpAll))
	gv.Ensures(v.IsIpAll() == (v.HasIpV4() && v.HasIpV6()))
	gv.Ensures(v.IsIpV4() == (v.HasIpV4() && !v.HasIpV6()))
	gv.Ensures(v.IsIpV6() == (v.HasIpV6() && !v.HasIpV4()))
	gv.Ensures(v.HasIpV4() || v.HasIpV6())
}

// GvPacks says that a writer has no objection to the data; that it leaves the data as it is, is shown for the formats (C16).
//
//gv:spec abstract
func GvPacks(f Pack, d *IpData, w io.Writer) bool { return f(d, w) == nil }

//gv:trusted Pack
//gv:opt nonative
//gv:props C18
func gvPackF(f Pack, d *IpData, w io.Writer) {
	err := f(d, w)
	gv.Ensures((err == nil) == GvPacks(f, d, w))
}

// What the lookup of a dump answers for an address, as a number: whether there is an answer, its network, that network's
// last address, and its record.

func gvAddr(a gv.N) net.IP { return gv.Bytes(a) }

//gv:spec abstract
func GvFound(find Find, a gv.N) bool {
	_, _, err := find(gvAddr(a))
	return err == nil
}

//gv:spec abstract
func GvCidr(find Find, a gv.N) *net.IPNet {
	n, _, _ := find(gvAddr(a))
	return n
}

//gv:spec abstract
func GvRecord(find Find, a gv.N) map[string]string {
	_, r, _ := find(gvAddr(a))
	return r
}

//gv:spec abstract
func GvIsNet(find Find, a gv.N) bool { return GvCidr(find, a) != nil }

// GvBase and GvTop are the first and the last address of the network, GvForm the length of its addresses.
//
//gv:spec abstract
func GvBase(find Find, a gv.N) gv.N { return ipnet.GvA(GvCidr(find, a).IP) }

//gv:spec abstract
func GvTop(find Find, a gv.N) gv.N { return ipnet.GvTopA(GvCidr(find, a)) }

//gv:spec abstract
func GvForm(find Find, a gv.N) int { return len(GvCidr(find, a).IP) }

//gv:trusted Find
//gv:opt nonative
//gv:props C11
func gvFind(find Find, ip net.IP) {
	gv.Requires(len(ip) == 4 || len(ip) == 16)
	n, r, err := find(ip)
	a := ipnet.GvA(ip)
	gv.Ensures((err == nil) == GvFound(find, a))
	if err == nil {
		gv.Ensures(n == GvCidr(find, a) && (n != nil) == GvIsNet(find, a) && gv.Same(r, GvRecord(find, a)))
		if n != nil {
			gv.Ensures(ipnet.GvNet(n) && ipnet.GvAlignedA(n) && len(n.IP) == GvForm(find, a))
			gv.Ensures(ipnet.GvA(n.IP) == GvBase(find, a))
			gv.Ensures(ipnet.GvTopA(n) == GvTop(find, a))
		}
	}
}

// GvShown is a value an exporter makes of a record. The names of the source's fields, the same for a whole dump, are
// left out: which they are is shown for Select, what is made of them for Export.
//
//gv:spec abstract
func GvShown(e Exporter, rec map[string]string, j int) string { return "" }

//gv:trusted Exporter.Export
//gv:opt nonative
//gv:props C11
func gvExport(e Exporter, names []field.Pair, rec map[string]string) {
	r := e.Export(names, rec)
	gv.Ensures(gv.Fresh(r))
	gv.Ensures(gv.Forall(0, len(r), func(j int) bool { return r[j] == GvShown(e, rec, j) }))
}

//gv:trusted Exporter.Fields
//gv:opt nonative
//gv:props C11
func gvFields(e Exporter) { _ = e.Fields() }
