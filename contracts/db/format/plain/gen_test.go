package plain

import (
	"bytes"
	"net"
	"strings"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/verifgv/native"
)

func gvGenData(r *native.Rand) *inf.IpData {
	d := &inf.IpData{Version: &inf.VersionInfo{
		IpType: inf.IpType(r.Intn(5)), Count: uint32(r.Intn(100)), Build: int64(r.Intn(1 << 30)), Version: r.Pick("", "v1", "中\"<"),
		Languages: [][]string{nil, {}, {"CN"}, {"CN", "EN"}}[r.Intn(4)], ExtraInfo: [][]string{nil, {}, {"a\tb", ""}}[r.Intn(3)],
	}}
	all := append(append([]string{}, field.CommonFields...), "x", "y", "z y")
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	d.Fields = all[:1+r.Intn(5)]
	bits := []int{32, 128}[r.Intn(2)]
	nets := r.Nets(bits, 1+r.Intn(10), []int{0, 4}[r.Intn(2)])
	if r.Intn(4) == 0 {
		r.Shuffle(len(nets), func(i, j int) { nets[i], nets[j] = nets[j], nets[i] })
	}
	for k, n := range nets {
		row := inf.IpRaw{Cidr: n}
		if bits == 32 && r.Intn(4) == 0 {
			s, _ := n.Mask.Size()
			row.Cidr = &net.IPNet{IP: n.IP.To16(), Mask: net.CIDRMask(96+s, 128)}
		}
		for range d.Fields {
			v := r.Pick("", "a", "中国", "a,b", ",", ",,x", "a_b", "电信", "华东", " ", "台湾", "a/b|c:d=e")
			if r.Intn(60) == 0 {
				v = strings.Repeat("长,", 1<<r.Intn(16))
			}
			row.FieldValues = append(row.FieldValues, v)
		}
		if k > 0 && r.Intn(3) == 0 {
			row.FieldValues = d.Ips[r.Intn(k)].FieldValues
		}
		d.Ips = append(d.Ips, row)
	}
	return d
}

func gvGenRule(r *native.Rand) string {
	return []string{"", "", "", export.DefaultRule, "country,isp", "isp,asn|isp=!电信:isp", "x,line,country|country=a/中国:x", "y"}[r.Intn(8)]
}

func init() {
	native.For("gvRoundTrip", func(r *native.Rand) []interface{} { return []interface{}{gvGenData(r), gvGenRule(r)} })
	native.For("gvText", func(r *native.Rand) []interface{} {
		var b bytes.Buffer
		pack(gvGenData(r), &b)
		t := b.Bytes()
		switch r.Intn(4) {
		case 0:
			t = t[:r.Intn(len(t)+1)]
		case 1:
			l := bytes.Split(t, []byte("\n"))
			i, j := r.Intn(len(l)), r.Intn(len(l))
			switch r.Intn(7) {
			case 0:
				l = l[:i]
			case 1:
				l[i] = l[i][:r.Intn(len(l[i])+1)]
			case 2:
				l[i], l[j] = l[j], l[i]
			case 3:
				l[i] = append(append([]byte{}, l[i]...), r.Pick(",", "\t", "\r", " ", "x")...)
			case 4:
				l[i] = nil
			case 5:
				if len(l) > 1 {
					l[1] = []byte("#### " + r.Pick("null", "{}", "", "[]", "1", `{"Count":4294967295}`, `{"IpType":2}`, `{"Count":-1}`))
				}
			case 6:
				if len(l) > 3 {
					k := 3 + r.Intn(len(l)-3)
					l[k] = []byte(r.Pick("1.2.3.4\ta", "1.2.3.4/33\ta", "::/0\ta", "0.0.0.0/0\ta", "255.255.255.255/32\ta", "1.2.3.0/24", "1.2.3.7/24\ta,b"))
				}
			}
			t = bytes.Join(l, []byte("\n"))
		case 2:
			if len(t) > 0 {
				t[r.Intn(len(t))] = []byte{0, '\n', '\t', ',', '"', 255, byte(r.Intn(256))}[r.Intn(7)]
			}
		}
		return []interface{}{t, gvGenRule(r)}
	})
}
