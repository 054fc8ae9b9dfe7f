package convert

import (
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/verifgv/native"
)

var gvExts = []string{".gva", ".gvb", ".GVA", ".gv", ".gvab", ".y", ""}

func init() {
	native.For("gvConvert", func(r *native.Rand) []interface{} {
		var exts []string
		for k := r.Intn(4); k >= 0; k-- {
			exts = append(exts, gvExts[r.Intn(5)])
		}
		kind := gvExts[r.Intn(len(gvExts))]
		if r.Intn(3) > 0 {
			kind = exts[r.Intn(len(exts))]
			if r.Intn(3) == 0 {
				kind = r.Near(kind)
			}
		}
		return []interface{}{exts, kind, []byte(r.Pick("", "a", "data", "\x00", "longer data")), r.Pick("", "country", export.DefaultRule), r.Intn(4)}
	})
}
