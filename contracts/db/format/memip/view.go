package memip

import (
	"strings"

	gv "github.com/qiniu/uip/verifgv"
)

// gvFirst says that off is the first position of f in fs, -1 if there is none.
func gvFirst(fs []string, f string, off int) bool {
	if off == -1 {
		return gv.Forall(0, len(fs), func(j int) bool { return fs[j] != f })
	}
	return 0 <= off && off < len(fs) && fs[off] == f && gv.Forall(0, off, func(j int) bool { return fs[j] != f })
}

//gv:contract fieldOffsets
//gv:props C17
func gvFieldOffsets(fs []string) {
	r := fieldOffsets(fs)
	gv.Ensures(len(r) == 6 && gv.Fresh(r))
	gv.Ensures(gvFirst(fs, "city", r[0]) && gvFirst(fs, "province", r[1]) && gvFirst(fs, "district", r[2]))
	gv.Ensures(gvFirst(fs, "isp", r[3]) && gvFirst(fs, "country", r[4]) && gvFirst(fs, "continent", r[5]))
}

//gv:inv fieldOffsets 1
func gvFieldOffset(fs []string, f string, rangeindex int, ret []int, i int) {
	gv.Inv(ret[i] == -1 && gv.Forall(0, rangeindex+1, func(j int) bool { return fs[j] != f }))
}

// gvNorm is a value of column i as memip writes it, the province's effect on the district aside.
func gvNorm(i int, v string) string {
	if v == "" || strings.HasPrefix(v, "保留") {
		v = "默认"
	}
	if i == 3 && v != "电信" && v != "联通" && v != "移动" && v != "默认" {
		return "其他"
	}
	if i == 5 {
		switch v {
		case "AS":
			return "亚洲"
		case "EU":
			return "欧洲"
		case "NA":
			return "北美洲"
		case "SA":
			return "南美洲"
		case "AF":
			return "非洲"
		case "OC":
			return "大洋洲"
		case "AN":
			return "南极洲"
		}
	}
	return v
}

// gvRaw is the value at an offset, empty if there is none.
func gvRaw(values []string, off int) string {
	if off == -1 {
		return ""
	}
	return values[off]
}

// gvSelf says that a province has no districts in memip.
func gvSelf(p string) bool { return p == "香港" || p == "澳门" || p == "台湾" }

//gv:contract covertValues
//gv:props C17
func gvCovert(off []int, values []string) {
	gv.Requires(len(off) == 6 && gv.Forall(0, 6, func(i int) bool { return -1 <= off[i] && off[i] < len(values) }))
	r := covertValues(off, values)
	gv.Ensures(len(r) == 6 && gv.Fresh(r))
	gv.Ensures(r[0] == gvNorm(0, gvRaw(values, off[0])) && r[1] == gvNorm(1, gvRaw(values, off[1])))
	gv.Ensures(r[3] == gvNorm(3, gvRaw(values, off[3])) && r[4] == gvNorm(4, gvRaw(values, off[4])) && r[5] == gvNorm(5, gvRaw(values, off[5])))
	if gvSelf(r[1]) {
		gv.Ensures(r[2] == "默认")
	} else {
		gv.Ensures(r[2] == gvNorm(2, gvRaw(values, off[2])))
	}
}
