package memip

import (
	"bytes"
	"strings"

	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/verifgv/native"
)

func gvGenData(r *native.Rand) *inf.IpData {
	d := &inf.IpData{Version: &inf.VersionInfo{IpType: inf.IpType(1 + r.Intn(2))}}
	all := append(append([]string{}, fields...), "asn", "line", "x")
	if r.Intn(4) == 0 {
		all = append(all, fields[r.Intn(6)])
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	d.Fields = all[:r.Intn(len(all)+1)]
	if r.Intn(3) > 0 {
		d.Fields = append([]string{}, all...)
	}
	bits := 32
	if d.Version.IpType == inf.IpV6 {
		bits = 128
	}
	few := r.Intn(3)
	for k, n := range r.Nets(bits, 1+r.Intn(12), []int{0, 0, 2}[r.Intn(3)]) {
		row := inf.IpRaw{Cidr: n}
		for _, f := range d.Fields {
			v := ""
			switch f {
			case "city":
				v = r.Pick("杭州", "宁波", "", "默认", "\u3000", "保")
			case "province":
				v = r.Pick("浙江", "香港", "澳门", "台湾", "", "保留地址")
			case "district":
				v = r.Pick("华东", "华南", "", "保留", "\u3000", "x")
			case "isp":
				v = r.Pick("电信", "联通", "移动", "铁通", "", "保留", "其他", "默认", "阿里云", "电信/联通")
			case "country":
				v = r.Pick("中国", "美国", "保留", "", "x保留")
			case "continent":
				v = r.Pick("AS", "EU", "NA", "SA", "AF", "OC", "AN", "亚洲", "", "XX", "保留")
			default:
				v = r.Pick("a", "", "b")
			}
			row.FieldValues = append(row.FieldValues, v)
		}
		if k > 0 && r.Intn(4) > few {
			prev := d.Ips[k-1].FieldValues
			row.FieldValues = append([]string{}, prev...)
			if len(prev) > 0 && r.Intn(2) == 0 {
				i := r.Intn(len(prev))
				row.FieldValues[i] = r.Pick("", "AS", "亚洲", "保留", "默认", "阿里云", "铁通", "x")
			}
		}
		d.Ips = append(d.Ips, row)
	}
	return d
}

func init() {
	native.For("gvPack", func(r *native.Rand) []interface{} {
		for {
			if d := gvGenData(r); gvWritable(d) {
				return []interface{}{d}
			}
		}
	})
	native.For("gvText", func(r *native.Rand) []interface{} {
		var b bytes.Buffer
		d := gvGenData(r)
		if !gvWritable(d) {
			d.Ips = nil
		}
		pack(d, &b)
		l := strings.Split(b.String(), "\n")
		for k := r.Intn(3); k > 0; k-- {
			i := r.Intn(len(l))
			switch r.Intn(8) {
			case 0:
				l[i] = r.Pick("1 2 a-b-c-d-e-f", "2 1 a-b-c-d-e-f", "0 4294967295 a-b-c-d-e-f", "0 4294967296 a-b-c-d-e-f", "1 1 -----", "7 9 a-b-c-d-e", "7 9 a-b-c-d-e-f-g", "-1 2 a-b-c-d-e-f", "1 x a-b-c-d-e-f", "a 1 a-b-c-d-e-f")
			case 1:
				l[i] = r.Pick(":: ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff a-b-c-d-e-f", "::1 :: a-b-c-d-e-f", "::1 ::x a-b-c-d-e-f", ":x ::1 a-b-c-d-e-f", "::1 1 a-b-c-d-e-f", "1 ::1 a-b-c-d-e-f", "2001:db8::1 2001:db8::ffff a-b-c-d-e-f", "::fffe:ffff:ffff ::ffff:0:3 a-b-c-d-e-f", "ffff:: ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff a-b-c-d-e-f")
			case 2:
				l[i] = ""
			case 3:
				l[i] = l[i][:r.Intn(len(l[i])+1)]
			case 4:
				l[i] += r.Pick(" ", "-", "\r", "x", " x", strings.Repeat("long", 1<<r.Intn(16)))
			case 5:
				j := r.Intn(len(l))
				l[i], l[j] = l[j], l[i]
			case 6:
				b := []byte(l[i])
				if len(b) > 0 {
					b[r.Intn(len(b))] = " -:0f\n\r9"[r.Intn(8)]
				}
				l[i] = string(b)
			}
		}
		t := strings.Join(l, "\n")
		if r.Intn(10) == 0 {
			t = t[:r.Intn(len(t)+1)]
		}
		return []interface{}{[]byte(t)}
	})
}
