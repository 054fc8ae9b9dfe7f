package query

import (
	"errors"
	"net"

	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/verifgv/native"
)

// gvPure answers from the address alone.
type gvPure struct {
	ext     string
	version *inf.VersionInfo
}

func (f *gvPure) Query(ip net.IP) (*inf.IpInfo, int, error) { return gvTold(ip, f.ext) }
func (f *gvPure) BuildCache(l []string)                     {}
func (f *gvPure) VersionInfo() *inf.VersionInfo             { return f.version }

var gvExts = []string{".gva", ".gvb", ".GVA", ".gv", ".gvab", ".y", ""}

func init() {
	for _, e := range gvExts[:2] {
		e := e
		format.RegisterQueryFormat(e, func(b []byte) (inf.Query, error) {
			if len(b) == 0 {
				return nil, errors.New("empty")
			}
			return &gvPure{e, &inf.VersionInfo{Version: e}}, nil
		})
	}
	native.Register(func(r *native.Rand) *Db {
		return &Db{&gvPure{r.Pick("a", "b"), &inf.VersionInfo{Build: int64(r.Uint32())}}}
	})
	native.For("gvQueryStr", func(r *native.Rand) []interface{} {
		t := r.IP().String()
		switch r.Intn(5) {
		case 0:
			t = r.Pick("", " 1.2.3.4", "1.2.3", "1.2.3.4/24", "::1%a", "01.2.3.4", "::ffff:1.2.3.4", "16909060", "[::1]", "1.2.3.4 ")
		}
		return []interface{}{&Db{&gvPure{"a", &inf.VersionInfo{}}}, t}
	})
	native.For("gvNewDbFromBytes", func(r *native.Rand) []interface{} {
		return []interface{}{gvExts[r.Intn(len(gvExts))], []byte(r.Pick("", "a", "data"))}
	})
	native.For("gvFront", func(r *native.Rand) []interface{} {
		var exts, texts []string
		for k := r.Intn(4); k >= 0; k-- {
			exts = append(exts, gvExts[r.Intn(5)])
		}
		kind := gvExts[r.Intn(len(gvExts))]
		if r.Intn(3) > 0 {
			kind = exts[r.Intn(len(exts))]
			if r.Intn(3) == 0 {
				kind = r.Near(kind)
			}
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			t := r.IP().String()
			switch r.Intn(5) {
			case 0:
				t = r.Pick("", " 1.2.3.4", "1.2.3", "1.2.3.4/24", "::1%a", "01.2.3.4", "1.2.3.256", "::ffff:1.2.3.4", "2001:DB8::1", "16909060", "[::1]", "1.2.3.4 ")
			case 1:
				b := []byte(t)
				b[r.Intn(len(b))] = "0:.f 9"[r.Intn(6)]
				t = string(b)
			}
			texts = append(texts, t)
		}
		data := []byte(r.Pick("", "a", "data", "\x00"))
		ip := r.IP()
		return []interface{}{exts, kind, data, texts, r.Uint32(), ip}
	})
}
