package operate

import (
	"fmt"
	"net"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/field/data"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
	"github.com/qiniu/uip/verifgv/native"
	"github.com/qiniu/uip/verifgv/std"
)

var gvPool = map[string][]string{
	field.Country:  {"中国", "中国", "美国", "", "中国香港"},
	field.Province: {"上海", "台湾", "内蒙古", "黑龙江", "海南", "火星", "", "上海市", "广西壮族自治区"},
	field.ISP:      {"电信", "联通", "移动", "铁通", "阿里云", "", "ASN for Shandong Provincial Net of CT", "长城宽带"},
	field.Asn:      {"4134", "4837", "9808", "", "13335", "4134"},
	field.Line:     {"", "", "电信", "移动", "x"},
	field.District: {"华东", "", "西南"},
	field.City:     {"上海市", "北京", "", "广州市"},
	"x":            {"a", "b", ""},
}

// gvRows makes rows of a few fields; rows may share their values, which may have spare capacity.
func gvRows(r *native.Rand, nets []*net.IPNet) *inf.IpData {
	names := []string{field.Country, field.Province, field.ISP, field.Asn, field.Line, field.District, field.City, "x"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	fs := make([]string, 0, 12)
	fs = append(fs, names[:1+r.Intn(len(names))]...)
	if r.Intn(12) == 0 {
		fs = append(fs, fs[r.Intn(len(fs))])
	}
	if r.Intn(2) == 0 {
		fs = append([]string{}, fs...)
	}
	var shared [][]string
	for k := 0; k < 1+r.Intn(3); k++ {
		v := make([]string, 0, 12)
		for _, f := range fs {
			v = append(v, gvPool[f][r.Intn(len(gvPool[f]))])
		}
		shared = append(shared, v)
	}
	if len(fs) > 1 && r.Intn(4) == 0 {
		x, y := r.Twins(len(fs))
		shared = [][]string{x, y}
	}
	d := &inf.IpData{Version: &inf.VersionInfo{ExtraInfo: make([]string, 0, 3)}, Fields: fs}
	for _, n := range nets {
		v := shared[r.Intn(len(shared))]
		if r.Intn(3) == 0 {
			v = append([]string{}, v...)
			i := r.Intn(len(v))
			v[i] = gvPool[fs[i]][r.Intn(len(gvPool[fs[i]]))]
		}
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: n, FieldValues: v})
	}
	return d
}

func gvSome(r *native.Rand) (*inf.IpData, int, int) {
	var nets []*net.IPNet
	for k := 1 + r.Intn(6); k > 0; k-- {
		nets = append(nets, r.Net())
	}
	d := gvRows(r, nets)
	return d, r.Intn(len(d.Ips)), r.Intn(len(d.Fields))
}

type gvLines struct{ salt int }

func (q gvLines) Query(ip net.IP) (*inf.IpInfo, int, error) {
	h := q.salt
	for _, b := range ip.To16() {
		h = h*31 + int(b)
	}
	ls := []string{"电信", "联通/电信", "移动", "铁通/联通", "阿里云", "", "/电信", "教育网/移动", "电信/", "err"}
	l := ls[(h%len(ls)+len(ls))%len(ls)]
	if l == "err" {
		return &inf.IpInfo{Line: "移动"}, 0, fmt.Errorf("no answer")
	}
	return &inf.IpInfo{Line: l}, 24, nil
}
func (q gvLines) BuildCache([]string)           {}
func (q gvLines) VersionInfo() *inf.VersionInfo { return &inf.VersionInfo{Version: "l"} }

// gvChain1 makes lists of networks that touch, overlap, repeat or leave gaps.
func gvChain1(r *native.Rand) []*net.IPNet {
	bits := []int{32, 128}[r.Intn(2)]
	ns := r.Nets(bits, 1+r.Intn(8), r.Intn(4))
	for k := r.Intn(3); k > 0 && len(ns) > 0; k-- {
		i := r.Intn(len(ns))
		switch r.Intn(3) {
		case 0:
			ns = append(ns[:i+1], ns[i:]...)
		case 1:
			ns = append(ns, r.Net())
		default:
			j := r.Intn(len(ns))
			ns[i], ns[j] = ns[j], ns[i]
		}
	}
	var out []*net.IPNet
	for _, n := range ns {
		if len(n.IP) == 16 && n.IP.To4() != nil {
			if ones, _ := n.Mask.Size(); ones < 96 {
				continue
			}
		}
		out = append(out, n)
	}
	return out
}

func gvAddr(ip net.IP) gv.N { return gv.Nat(ip.To16()) }

func init() {
	native.For("gvAttachDistrict", func(r *native.Rand) []interface{} {
		d, k, c := gvSome(r)
		return []interface{}{d, k, c, d.Ips[k].FieldValues, d.Ips[k].Cidr}
	})
	for _, h := range []string{"gvAttachLineByCidr", "gvReplaceLineByCidr"} {
		native.For(h, func(r *native.Rand) []interface{} {
			d, k, c := gvSome(r)
			return []interface{}{d, inf.Query(gvLines{r.Intn(1000)}), k, c, d.Ips[k].FieldValues, d.Ips[k].Cidr}
		})
	}
	native.For("gvQueryLine", func(r *native.Rand) []interface{} {
		return []interface{}{r.Net(), inf.Query(gvLines{r.Intn(1000)})}
	})
	native.For("gvAttachLineByAsn", func(r *native.Rand) []interface{} {
		d, k, c := gvSome(r)
		m := map[string]string{"4134": "电信", "4837": "联通", "9808": "移动", "x": "y"}
		if r.Intn(4) == 0 {
			m[""] = "电信"
			delete(m, "4134")
		}
		return []interface{}{d, m, r.Word(), k, c, d.Ips[k].FieldValues, d.Ips[k].Cidr}
	})
	native.For("gvReplaceShortage", func(r *native.Rand) []interface{} {
		d, k, c := gvSome(r)
		for i, f := range d.Fields {
			for s := range data.NormalizedMap[f] {
				if r.Intn(2) == 0 {
					d.Ips[r.Intn(len(d.Ips))].FieldValues[i] = s
				}
				break
			}
		}
		old := d.Ips[k].FieldValues
		return []interface{}{d, k, c, old, d.Ips[k].Cidr, gvFull(d.Fields[c], old[c])}
	})
	native.For("gvTrimAsnIspDup", func(r *native.Rand) []interface{} {
		d, k, c := gvSome(r)
		old := d.Ips[k].FieldValues
		as, on := "", gvCarriers{}
		if io, ao := field.Offset(field.ISP, d.Fields), field.Offset(field.Asn, d.Fields); io != -1 && ao != -1 {
			as = old[ao]
			on = gvCarriersOf(d, io, ao, as)
		}
		return []interface{}{d, k, c, old, d.Ips[k].Cidr, as, on}
	})
	native.For("gvMergeNearNetwork", func(r *native.Rand) []interface{} {
		d := gvRows(r, gvChain1(r))
		x, key := gv.I(r.Intn(256)), ""
		if len(d.Ips) > 0 {
			row := d.Ips[r.Intn(len(d.Ips))]
			key = std.Key(row.FieldValues)
			x = gv.Add(gvAddr(row.Cidr.IP), gv.I(r.Intn(3)))
			if r.Intn(2) == 0 {
				x = gv.Sub(x, gv.I(2))
			}
			if r.Intn(2) == 0 {
				row = d.Ips[r.Intn(len(d.Ips))]
				ones, bits := row.Cidr.Mask.Size()
				x = gv.Add(gvAddr(row.Cidr.IP), gv.Shl(gv.I(1), bits-ones))
				if r.Intn(3) > 0 {
					x = gv.Sub(x, gv.I(1))
				}
			}
		}
		return []interface{}{d, d.Ips, x, key, gvCov(d.Ips, len(d.Ips), x, key)}
	})
	native.For("gvMergeRunsExact", func(r *native.Rand) []interface{} {
		return []interface{}{gvRows(r, gvChain1(r))}
	})
}
