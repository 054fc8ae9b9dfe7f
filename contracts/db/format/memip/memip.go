package memip

import (
	"bytes"
	"math/big"
	"net"
	"reflect"
	"strconv"
	"strings"

	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

// gvNum is the number of an address, a 4-byte one counting as its IPv4-mapped form.
func gvNum(ip net.IP) *big.Int { return new(big.Int).SetBytes(ip.To16()) }

// gvEnds are the numbers of the first and the last address of a network.
func gvEnds(n *net.IPNet) (*big.Int, *big.Int) {
	hi := append(net.IP{}, n.IP...)
	for i := range hi {
		hi[i] |= ^n.Mask[i]
	}
	return gvNum(n.IP), gvNum(hi)
}

var gvContinents = map[string]string{"AS": "亚洲", "EU": "欧洲", "NA": "北美洲", "SA": "南美洲", "AF": "非洲", "OC": "大洋洲", "AN": "南极洲"}

// gvView is what a row says: city, province, district, carrier, country and continent, normalised.
func gvView(d *inf.IpData, values []string) []string {
	var out []string
	for _, name := range []string{"city", "province", "district", "isp", "country", "continent"} {
		v := ""
		for i := len(d.Fields) - 1; i >= 0; i-- {
			if d.Fields[i] == name {
				v = values[i]
			}
		}
		if v == "" || strings.HasPrefix(v, "保留") {
			v = "默认"
		}
		switch name {
		case "isp":
			switch v {
			case "电信", "联通", "移动", "默认":
			default:
				v = "其他"
			}
		case "continent":
			if c, ok := gvContinents[v]; ok {
				v = c
			}
		}
		out = append(out, v)
	}
	switch out[1] {
	case "香港", "澳门", "台湾":
		out[2] = "默认"
	}
	return out
}

// gvLine is a line of memip text, read independently: first and last address, and the view.
type gvLine struct {
	lo, hi *big.Int
	view   []string
}

func gvParse(line string) *gvLine {
	parts := strings.Split(line, " ")
	if len(parts) != 3 {
		return nil
	}
	l := &gvLine{view: strings.Split(parts[2], "-")}
	if len(l.view) != 6 {
		return nil
	}
	if strings.Contains(parts[0], ":") {
		a, b := net.ParseIP(parts[0]), net.ParseIP(parts[1])
		if a == nil || b == nil {
			return nil
		}
		l.lo, l.hi = gvNum(a), gvNum(b)
	} else {
		a, err := strconv.ParseUint(parts[0], 10, 32)
		b, err2 := strconv.ParseUint(parts[1], 10, 32)
		if err != nil || err2 != nil {
			return nil
		}
		m := big.NewInt(0xffff << 32)
		l.lo, l.hi = new(big.Int).Add(m, new(big.Int).SetUint64(a)), new(big.Int).Add(m, new(big.Int).SetUint64(b))
	}
	if l.lo.Cmp(l.hi) > 0 {
		return nil
	}
	return l
}

func gvLines(text string) []string {
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for i := range lines {
		lines[i] = strings.TrimSuffix(lines[i], "\r")
	}
	return lines
}

// gvWritable says that the rows are disjoint networks of one family in ascending order, with one value per field that
// holds no blank, hyphen or newline.
func gvWritable(d *inf.IpData) bool {
	if d == nil || d.Version == nil || d.Version.IpType != inf.IpV4 && d.Version.IpType != inf.IpV6 {
		return false
	}
	last := big.NewInt(-1)
	for _, row := range d.Ips {
		if row.Cidr == nil || len(row.FieldValues) != len(d.Fields) || strings.ContainsAny(strings.Join(row.FieldValues, ""), " -\r\n") {
			return false
		}
		lo, hi := gvEnds(row.Cidr)
		v4 := row.Cidr.IP.To4() != nil
		if v4 != (d.Version.IpType == inf.IpV4) || lo.Cmp(last) <= 0 || net.IP(hi.FillBytes(make([]byte, 16))).To4() != nil && !v4 {
			return false
		}
		last = hi
	}
	return true
}

// gvPack writes rows: every line joins neighbouring rows that say the same but for the city, and every row is in one
// line that says what the row says; reading the text yields the same addresses with the same views.
//
//gv:bounded formatting is outside the verifier's reach; written and read natively and compared with independent views and lines
//gv:props C16,C17
func gvPack(d *inf.IpData) {
	gv.Requires(gvWritable(d))
	var b, b2 bytes.Buffer
	var values [][]string
	for _, row := range d.Ips {
		values = append(values, append([]string{}, row.FieldValues...))
	}
	gv.Ensures(pack(d, &b) == nil && pack(d, &b2) == nil && b.String() == b2.String())
	for k, row := range d.Ips {
		gv.Ensures(reflect.DeepEqual(append([]string{}, row.FieldValues...), values[k]))
	}
	k := 0
	one := big.NewInt(1)
	for _, text := range gvLines(b.String()) {
		l := gvParse(text)
		gv.Ensures(l != nil)
		at := l.lo
		city := false
		for {
			gv.Ensures(k < len(d.Ips))
			lo, hi := gvEnds(d.Ips[k].Cidr)
			view := gvView(d, d.Ips[k].FieldValues)
			gv.Ensures(lo.Cmp(at) == 0 && reflect.DeepEqual(view[1:], l.view[1:]))
			city = city || view[0] == l.view[0]
			k++
			if hi.Cmp(l.hi) == 0 {
				break
			}
			gv.Ensures(hi.Cmp(l.hi) < 0)
			at = new(big.Int).Add(hi, one)
		}
		gv.Ensures(city)
	}
	gv.Ensures(k == len(d.Ips))
	gvReadBack(b.Bytes())
}

// gvText reads any text: every line's networks cover its range with its view, or an error.
//
//gv:bounded scanning is outside the verifier's reach; read natively and compared with an independent parse
//gv:props C17
func gvText(data []byte) { gvReadBack(data) }

func gvReadBack(data []byte) {
	kept := append([]byte{}, data...)
	got, err := dump(data, nil)
	gv.Ensures(string(kept) == string(data) && (err == nil) == (got != nil))
	var lines []*gvLine
	texts := gvLines(string(data))
	for _, t := range texts {
		l := gvParse(t)
		if l == nil {
			gv.Ensures(err != nil)
			return
		}
		lines = append(lines, l)
	}
	gv.Ensures(err == nil)
	gv.Ensures(reflect.DeepEqual(got.Fields, []string{"city", "province", "district", "isp", "country", "continent"}))
	k := 0
	for _, l := range lines {
		at := l.lo
		for {
			gv.Ensures(k < len(got.Ips))
			row := got.Ips[k]
			k++
			n, w := row.Cidr.Mask.Size()
			lo, hi := gvEnds(row.Cidr)
			gv.Ensures(w == 8*len(row.Cidr.IP) && n >= 0 && lo.Cmp(at) == 0 && hi.Cmp(l.hi) <= 0)
			gv.Ensures(reflect.DeepEqual(row.FieldValues, l.view))
			if hi.Cmp(l.hi) == 0 {
				break
			}
			at = new(big.Int).Add(hi, big.NewInt(1))
		}
	}
	gv.Ensures(k == len(got.Ips))
	gv.Ensures(got.Version != nil && got.Version.Count == uint32(k))
	if len(texts) > 0 {
		gv.Ensures((got.Version.IpType == inf.IpV6) == strings.Contains(texts[0], ":") && (got.Version.IpType == inf.IpV4) != (got.Version.IpType == inf.IpV6))
	}
}
