package ipdb

import (
	"net"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

// gvNamed is the column of a name in the record of an entry, for the Chinese language; empty where there is none.
func gvNamed(db *reader, node int, name string) string {
	k := gvLast(db.meta.Fields, len(db.meta.Fields), name)
	if k < 0 {
		return ""
	}
	return gvCol(db, gvRec(db, node), db.meta.Languages["CN"], k)
}

// gvInfo says that an answer is what the record of an entry says.
func gvInfo(db *reader, node int, r *inf.IpInfo) bool {
	return r != nil &&
		r.Country == gvNamed(db, node, FieldCountryName) &&
		r.Province == gvNamed(db, node, FieldRegionName) &&
		r.City == gvNamed(db, node, FieldCityName) &&
		r.Isp == gvNamed(db, node, FieldISPDomain) &&
		r.Asn == gvNamed(db, node, field.Asn) &&
		r.Continent == gvNamed(db, node, FieldContinentCode) &&
		r.Line == gvNamed(db, node, field.Line) &&
		r.District == gvNamed(db, node, field.District)
}

// gvGood says that the record of an entry can be answered.
func gvGood(db *reader, node int) bool {
	off, ok := db.meta.Languages["CN"]
	return ok && gvRecOK(db, node) && gvCols(db, gvRec(db, node), off)
}

// gvQuerier says that the database is well opened and that what is cached is what a query would answer.
func gvQuerier(q *querier) bool {
	return q != nil && gvReader(q.r) && q.queryCache != nil && gvWarm(q)
}

func gvWarm(q *querier) bool {
	return gv.ForallKey(q.queryCache, func(n int) bool {
		return n > q.r.nodeCount && gvGood(q.r, n) && gvInfo(q.r, n, q.queryCache[n])
	})
}

//gv:contract querier.QueryInternal
//gv:props C06,C07,C20
func gvQueryInternal(q *querier, ip net.IP, cache bool) {
	gv.Requires(gvQuerier(q))
	gv.Split(cache)
	n, i, hit := gvHit(q.r, ip)
	gv.Split(hit)
	gv.Split(hit && gvRecOK(q.r, n))
	gv.Split(hit && gvGood(q.r, n))
	gvNames(q.r.meta.Fields)
	node, info, mask, err := q.QueryInternal(ip, cache)
	gv.Ensures((err == nil) == (hit && gvGood(q.r, n)))
	gv.Ensures((info != nil) == (err == nil))
	if err == nil {
		gv.Ensures(node == n && mask == i && node > q.r.nodeCount)
		gv.Ensures(gvInfo(q.r, n, info))
	}
	gv.Ensures(cache || gv.Fresh(info))
}

func gvNames(fields []string) {
	gvLastIn(fields, len(fields), FieldCountryName)
	gvLastIn(fields, len(fields), FieldRegionName)
	gvLastIn(fields, len(fields), FieldCityName)
	gvLastIn(fields, len(fields), FieldISPDomain)
	gvLastIn(fields, len(fields), field.Asn)
	gvLastIn(fields, len(fields), FieldContinentCode)
	gvLastIn(fields, len(fields), field.Line)
	gvLastIn(fields, len(fields), field.District)
}

// gvPart is a column among the first i ones.
func gvPart(db *reader, values []string, i int, name string) string {
	k := gvLast(db.meta.Fields, i, name)
	if k < 0 {
		return ""
	}
	return values[k]
}

//gv:inv querier.QueryInternal
func gvQueryInternalLoop(q *querier, ret *inf.IpInfo, values []string, i int) {
	gv.Inv(i >= 0 && i <= len(values) && len(values) == len(q.r.meta.Fields) && ret != nil)
	gv.Inv(ret.Country == gvPart(q.r, values, i, FieldCountryName))
	gv.Inv(ret.Province == gvPart(q.r, values, i, FieldRegionName))
	gv.Inv(ret.City == gvPart(q.r, values, i, FieldCityName))
	gv.Inv(ret.Isp == gvPart(q.r, values, i, FieldISPDomain))
	gv.Inv(ret.Asn == gvPart(q.r, values, i, field.Asn))
	gv.Inv(ret.Continent == gvPart(q.r, values, i, FieldContinentCode))
	gv.Inv(ret.Line == gvPart(q.r, values, i, field.Line))
	gv.Inv(ret.District == gvPart(q.r, values, i, field.District))
}

// gvLastIn bounds the column of a name.
//
//gv:lemma
func gvLastIn(fields []string, n int, name string) {
	gv.Requires(n >= 0 && n <= len(fields))
	gv.Decreases(n)
	if n > 0 && fields[n-1] != name {
		gvLastIn(fields, n-1, name)
	}
	k := gvLast(fields, n, name)
	gv.Ensures(k >= -1 && k < n)
}

//gv:contract querier.Query
//gv:props C05,C06,C07,C20
func gvQuery(q *querier, ip net.IP) {
	gv.Requires(gvQuerier(q))
	n, i, hit := gvHit(q.r, ip)
	info, mask, err := q.Query(ip)
	gv.Ensures((err == nil) == (hit && gvGood(q.r, n)))
	gv.Ensures((info != nil) == (err == nil))
	if err == nil {
		gv.Ensures(mask == i && gvInfo(q.r, n, info))
	}
}

//gv:contract querier.BuildCache
//gv:props C06,C07,C18,C20
func gvBuildCache(q *querier, ipList []string) {
	gv.Requires(gvQuerier(q))
	gv.Modifies(q.queryCache)
	q.BuildCache(ipList)
	gv.Ensures(gvQuerier(q))
}

//gv:inv querier.BuildCache
func gvBuildCacheLoop(q *querier) {
	gv.Inv(gvQuerier(q))
}

//gv:contract newQuerier
//gv:props C06,C07
func gvNewQuerier(data []byte) {
	r, err := newQuerier(data)
	gv.Ensures((r != nil) == (err == nil))
	if err == nil {
		q, ok := r.(*querier)
		gv.Ensures(ok && gvQuerier(q) && gv.Fresh(q) && len(q.queryCache) == 0)
	}
}

//gv:contract querier.VersionInfo
//gv:props C07,C19
func gvVersionInfo(q *querier) {
	gv.Requires(q != nil && q.r != nil)
	v := q.VersionInfo()
	gv.Ensures(v != nil && v.IpType == q.r.meta.IpType() && v.Count == uint32(q.r.meta.NodeCount) && v.Build == q.r.meta.Build && v.Version != "")
	gv.Ensures(gv.Implies(q.r.meta.Version != "", v.Version == q.r.meta.Version))
	gv.Ensures(gv.Same(v.ExtraInfo, q.r.meta.Extra))
}

// gvOpenQuery opens any bytes and asks for any address: nothing panics, and what is answered is what the contracts of
// the parts say.
//
//gv:lemma
//gv:props C05,C06,C07,C20
func gvOpenQuery(data []byte, ip net.IP) {
	r, err := newQuerier(data)
	gv.Ensures((r != nil) == (err == nil))
	if err != nil {
		return
	}
	q, ok := r.(*querier)
	gv.Ensures(ok)
	n, i, hit := gvHit(q.r, ip)
	info, mask, err := q.Query(ip)
	gv.Ensures((err == nil) == (hit && gvGood(q.r, n)))
	if err == nil {
		gv.Ensures(mask == i && gvInfo(q.r, n, info))
	}
	v := q.VersionInfo()
	gv.Ensures(v != nil && v.Count == uint32(q.r.nodeCount))
}
