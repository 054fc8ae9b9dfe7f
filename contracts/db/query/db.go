package query

import (
	"net"

	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
	_ "github.com/qiniu/uip/verifgv/std"
)

// gvSays says that an answer of the front end is the format's.
func gvSays(q *Db, ip net.IP, info *inf.IpInfo, n int, err error) bool {
	if !inf.GvHas(q.q, ip) {
		return err != nil && info == nil && n == 0
	}
	return err == nil && info != nil && *info == inf.GvAnswer(q.q, ip) && n == inf.GvBits(q.q, ip)
}

//gv:contract Db.Query
//gv:props C18
func gvDbQuery(q *Db, ip net.IP) {
	gv.Requires(q != nil && q.q != nil)
	info, n, err := q.Query(ip)
	gv.Ensures(gvSays(q, ip, info, n, err))
}

//gv:contract Db.QueryU32
//gv:props C18
func gvQueryU32(q *Db, i uint32) {
	gv.Requires(q != nil && q.q != nil)
	info, n, err := q.QueryU32(i)
	gv.Ensures(gvSays(q, net.IPv4(byte(i>>24), byte(i>>16), byte(i>>8), byte(i)), info, n, err))
}

//gv:contract Db.QueryStr
//gv:props C18
func gvQueryStr(q *Db, s string) {
	gv.Requires(q != nil && q.q != nil)
	ip := net.ParseIP(s)
	info, n, err := q.QueryStr(s)
	if ip == nil {
		gv.Ensures(err != nil && info == nil && n == 0)
	} else {
		gv.Ensures(gvSays(q, ip, info, n, err))
	}
}

//gv:contract Db.VersionInfo
//gv:props C18,C19
func gvDbVersion(q *Db) {
	gv.Requires(q != nil && q.q != nil)
	v := q.VersionInfo()
	gv.Ensures(v == inf.GvVersion(q.q))
}

// gvNewDbFromBytes says that bytes are opened by the reader registered for their kind, and by no other.
//
//gv:contract NewDbFromBytes
//gv:props C18
func gvNewDbFromBytes(kind string, b []byte) {
	create := format.GetQueryFormat(kind)
	q, err := NewDbFromBytes(kind, b)
	if create == nil {
		gv.Ensures(err != nil && q == nil)
	} else {
		gv.Ensures((err == nil) == inf.GvOpens(create, b) && (err == nil) == (q != nil))
		if err == nil {
			gv.Ensures(inf.GvBy(q.q, create, b))
		}
	}
}

// gvFrom says that the country of an address is the one given.
func gvFrom(q *Db, ip net.IP, country string) bool {
	return inf.GvHas(q.q, ip) && inf.GvAnswer(q.q, ip).Country == country
}

//gv:contract Db.CheckV4
//gv:props C18
func gvCheckV4(q *Db) {
	gv.Requires(q != nil && q.q != nil)
	a, b := net.ParseIP("8.8.8.8"), net.ParseIP("119.29.29.29")
	err := q.CheckV4()
	gv.Ensures((err == nil) == (gvFrom(q, a, "美国") && gvFrom(q, b, "中国")))
}

//gv:contract Db.CheckV6
//gv:props C18
func gvCheckV6(q *Db) {
	gv.Requires(q != nil && q.q != nil)
	a, b := net.ParseIP("2001:4860:4860::8888"), net.ParseIP("2606:4700:4700::1111")
	err := q.CheckV6()
	gv.Ensures((err == nil) == (gvFrom(q, a, "美国") && gvFrom(q, b, "美国")))
}
