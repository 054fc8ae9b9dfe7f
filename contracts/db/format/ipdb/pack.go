package ipdb

import (
	"bytes"
	"net"

	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

// gvPackable says what packing promises to keep: rows over pairwise disjoint networks of one family, as wide as the
// declared fields, which are named differently; no tabs; no record of more than 65535 bytes; no ::/0.
func gvPackable(d *inf.IpData) bool {
	if d == nil || d.Version == nil || len(d.Fields) == 0 {
		return false
	}
	names := covertFields(d.Fields)
	for i := range names {
		for j := 0; j < i; j++ {
			if names[i] == names[j] {
				return false
			}
		}
	}
	bits := 0
	for i, r := range d.Ips {
		if r.Cidr == nil {
			return false
		}
		n, b := r.Cidr.Mask.Size()
		if b == 0 || 8*len(r.Cidr.IP) != b || !r.Cidr.IP.Equal(r.Cidr.IP.Mask(r.Cidr.Mask)) {
			return false
		}
		v4 := r.Cidr.IP.To4() != nil
		if !v4 && (n == 0 || !d.Version.HasIpV6()) || v4 && (b == 128 && n < 96 || !d.Version.HasIpV4()) {
			return false
		}
		if v4 {
			b = 32
		}
		if bits != 0 && b != bits || len(r.FieldValues) != len(d.Fields) {
			return false
		}
		bits = b
		total := len(r.FieldValues) - 1
		for _, v := range r.FieldValues {
			total += len(v)
			for k := 0; k < len(v); k++ {
				if v[k] == '\t' {
					return false
				}
			}
		}
		if total > 65535 {
			return false
		}
		for j := 0; j < i; j++ {
			if gvOverlap(r.Cidr, d.Ips[j].Cidr) {
				return false
			}
		}
	}
	return true
}

func gvOverlap(a, b *net.IPNet) bool { return a.Contains(b.IP) || b.Contains(a.IP) }

// gvBack is a value after packing and reading: a continent's code is its Chinese name.
func gvBack(name, v string) string {
	if name == FieldContinentCode {
		return gvContinent(v)
	}
	return v
}

// gvPack packs and opens again: every address answers with the values and the prefix length of its network, or is not
// found; the metadata is kept; the data is unchanged.
//
//gv:bounded the writer (nested slices of arrays, bytes.Buffer, json) is outside the verifier's reach; packed and opened natively
//gv:props C08,C16,C19
func gvPack(d *inf.IpData, probes []net.IP) {
	gv.Requires(gvPackable(d))
	var b bytes.Buffer
	err := pack(d, &b)
	gv.Ensures(err == nil)
	q, err := newQuerier(b.Bytes())
	gv.Ensures(err == nil && q != nil)
	db := q.(*querier).r
	names := covertFields(d.Fields)
	gv.Ensures(len(db.meta.Fields) == len(names))
	for i, f := range d.Fields {
		want := f
		if c, ok := CommonFieldsMap[f]; ok {
			want = c
		}
		gv.Ensures(db.meta.Fields[i] == want)
	}
	v := q.VersionInfo()
	t := d.Version.IpType
	if t != inf.IpV4 && t != inf.IpV6 {
		t = inf.IpAll
	}
	gv.Ensures(v.IpType == t)
	gv.Ensures(d.Version.Version == "" || v.Version == d.Version.Version)
	gv.Ensures(len(v.ExtraInfo) == len(d.Version.ExtraInfo))
	for i := range d.Version.ExtraInfo {
		gv.Ensures(v.ExtraInfo[i] == d.Version.ExtraInfo[i])
	}
	for _, p := range probes {
		at := -1
		for i := range d.Ips {
			if d.Ips[i].Cidr.Contains(p) {
				at = i
			}
		}
		v4 := p.To4() != nil
		if len(p) == 0 || len(d.Ips) > 0 && v4 != (d.Ips[0].Cidr.IP.To4() != nil) {
			continue // of the other family
		}
		if v4 && !d.Version.HasIpV4() || !v4 && !d.Version.HasIpV6() {
			at = -1
		}
		w, m, err := db.findMap(p, "CN")
		info, mask, err2 := q.Query(p)
		gv.Ensures((err == nil) == (at >= 0) && (err2 == nil) == (at >= 0))
		if at < 0 {
			continue
		}
		n, bits := d.Ips[at].Cidr.Mask.Size()
		if v4 && bits == 128 {
			n -= 96
		}
		gv.Ensures(mask == n)
		g, _ := w.Mask.Size()
		gv.Ensures(g == n && w.IP.Equal(d.Ips[at].Cidr.IP))
		gv.Ensures(len(m) == len(names))
		for i := range names {
			back := gvBack(names[i], d.Ips[at].FieldValues[i])
			got, ok := m[names[i]]
			gv.Ensures(ok && got == back)
			switch names[i] {
			case FieldCountryName:
				gv.Ensures(info.Country == back)
			case FieldISPDomain:
				gv.Ensures(info.Isp == back)
			case FieldContinentCode:
				gv.Ensures(info.Continent == back)
			}
		}
	}
}
