package export

import (
	"net"
	"strings"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/verifgv/native"
)

var gvNames = []string{"country", "province", "city", "isp", "asn", "a", "b", ""}
var gvVals = []string{"中国", "台湾", "中国台湾", "x", "y", "", "!x"}

func gvGenList(r *native.Rand, from []string, n int) []string {
	var out []string
	for ; n > 0; n-- {
		out = append(out, from[r.Intn(len(from))])
	}
	return out
}

func gvGenRule(r *native.Rand) string {
	if r.Intn(40) == 0 {
		return []string{"", DefaultRule, LineRule, "|", ":"}[r.Intn(5)]
	}
	fs := gvGenList(r, gvNames, 1+r.Intn(5))
	groups := []string{strings.Join(fs, ",")}
	for k := r.Intn(4); k > 0; k-- {
		from := fs
		if r.Intn(5) == 0 {
			from = gvNames
		}
		key := from[r.Intn(len(from))]
		not := []string{"", "", "!", "!!"}[r.Intn(4)]
		g := key + "=" + not + strings.Join(gvGenList(r, gvVals, 1+r.Intn(3)), "/")
		switch r.Intn(20) {
		case 0:
			g = strings.Replace(g, "=", "", 1)
		case 1:
			g += "=x"
		}
		g += ":" + strings.Join(gvGenList(r, from, 1+r.Intn(4)), ",")
		switch r.Intn(20) {
		case 0:
			g = strings.Replace(g, ":", "", 1)
		case 1:
			g += ":x"
		}
		groups = append(groups, g)
	}
	return strings.Join(groups, "|")
}

func gvGenExporter(r *native.Rand) *Exporter {
	for {
		if e, ok := ParseRule(gvGenRule(r)).(*Exporter); ok {
			return e
		}
	}
}

// gvGenRow is a source record and the source's names of an exporter's fields.
func gvGenRow(r *native.Rand, e *Exporter) ([]field.Pair, map[string]string, []string) {
	fm, data := map[string]string{}, map[string]string{}
	for _, n := range gvNames {
		if r.Intn(4) > 0 {
			fm[n] = "k" + n
		}
		if r.Intn(4) > 0 {
			data["k"+n] = gvVals[r.Intn(len(gvVals))]
		}
	}
	pairs := Select(fm, e.fields)
	row := make([]string, len(e.fields))
	for i := range row {
		row[i] = gvSource(pairs, data, i)
	}
	return pairs, data, row
}

func init() {
	native.For("gvParseRule", func(r *native.Rand) []interface{} {
		return []interface{}{gvGenRule(r), r.Intn(5), r.Intn(5)}
	})
	native.For("gvBuildFilter", func(r *native.Rand) []interface{} {
		e := gvGenExporter(r)
		kc := gvNames[r.Intn(len(gvNames))] + []string{"=", "=", "=!", "", "=="}[r.Intn(5)] + strings.Join(gvGenList(r, gvVals, 1+r.Intn(3)), "/")
		return []interface{}{e, kc, gvGenList(r, gvNames, r.Intn(4))}
	})
	native.For("gvMatch", func(r *native.Rand) []interface{} {
		e := gvGenExporter(r)
		if len(e.filters) == 0 {
			return []interface{}{(*_Filter)(nil), ""}
		}
		return []interface{}{e.filters[r.Intn(len(e.filters))], gvVals[r.Intn(len(gvVals))]}
	})
	native.For("gvExtract", func(r *native.Rand) []interface{} {
		e := gvGenExporter(r)
		if len(e.filters) == 0 {
			return []interface{}{(*_Filter)(nil), []string{}}
		}
		return []interface{}{e.filters[r.Intn(len(e.filters))], gvGenList(r, gvVals, r.Intn(7))}
	})
	native.For("gvOffsets", func(r *native.Rand) []interface{} {
		return []interface{}{gvGenList(r, gvNames, r.Intn(6)), gvGenList(r, gvNames, r.Intn(5))}
	})
	native.For("gvOffset", func(r *native.Rand) []interface{} {
		return []interface{}{gvGenList(r, gvNames, r.Intn(6)), gvNames[r.Intn(len(gvNames))]}
	})
	native.For("gvSelect", func(r *native.Rand) []interface{} {
		fm := map[string]string{}
		for _, n := range gvNames {
			if r.Intn(3) > 0 {
				fm[n] = "k" + n
			}
		}
		return []interface{}{fm, gvGenList(r, gvNames, r.Intn(6))}
	})
	native.For("gvRemapKey", func(r *native.Rand) []interface{} {
		e := gvGenExporter(r)
		p, d, _ := gvGenRow(r, e)
		return []interface{}{e, p, d}
	})
	native.For("gvExport", func(r *native.Rand) []interface{} {
		e := gvGenExporter(r)
		p, d, row := gvGenRow(r, e)
		return []interface{}{e, p, d, row}
	})
}

var _ inf.Exporter

func init() {
	native.For("gvBuildIPData", func(r *native.Rand) []interface{} {
		t := &GvTable{}
		v := &inf.VersionInfo{IpType: []inf.IpType{1, 1, 2, 2, 3, 0}[r.Intn(6)], Count: uint32(r.Intn(50))}
		bits := 32
		if v.IpType == 2 && r.Intn(20) > 0 || r.Intn(40) == 0 {
			bits = 128
		}
		gap := 0
		if r.Intn(6) == 0 {
			gap = 1
		}
		for {
			t.Nets = r.Nets(bits, 1+r.Intn(12), gap)
			if len(t.Nets) > 1 || len(t.Nets) == 1 && r.Intn(9) == 0 {
				if n, _ := t.Nets[0].Mask.Size(); len(t.Nets) > 0 && t.Nets[0].IP.Equal(make([]byte, bits/8)) && n < 32 || r.Intn(30) == 0 {
					break
				}
			}
		}
		if r.Intn(8) == 0 && len(t.Nets) > 1 {
			// a table of overlapping networks: what a lookup reports does not start where it was asked
			i := r.Intn(len(t.Nets))
			n, b := t.Nets[i].Mask.Size()
			if n > 0 {
				m := net.CIDRMask(r.Intn(n), b)
				t.Nets[i] = &net.IPNet{IP: t.Nets[i].IP.Mask(m), Mask: m}
			}
		}
		fm := map[string]string{}
		var fields []string
		for _, n := range gvNames {
			if r.Intn(4) > 0 {
				fm[n] = "k" + n
			}
			if r.Intn(4) > 0 {
				fields = append(fields, "k"+n)
			}
		}
		delete(fm, "")
		if r.Intn(6) == 0 {
			fields = append(fields, "?")
		}
		r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
		var x, y []string
		if len(fields) > 1 && r.Intn(4) == 0 {
			x, y = r.Twins(len(fields))
		}
		for range t.Nets {
			rec := map[string]string{}
			if x != nil && r.Intn(3) > 0 {
				for i, f := range fields {
					rec[f] = x[i]
				}
				x, y = y, x
				t.Recs = append(t.Recs, rec)
				continue
			}
			if k := len(t.Recs); k > 0 && r.Intn(3) == 0 {
				rec = t.Recs[r.Intn(k)]
			} else {
				for _, f := range fields {
					if r.Intn(8) > 0 {
						rec[f] = gvVals[r.Intn(len(gvVals))]
					}
				}
			}
			t.Recs = append(t.Recs, rec)
		}
		rule := ""
		if r.Intn(3) > 0 {
			rule = gvGenRule(r)
		}
		return []interface{}{fm, fields, rule, v, t}
	})
}
