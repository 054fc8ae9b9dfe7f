package awdb

import (
	"github.com/qiniu/uip/db/field/export"
	"net"

	"github.com/qiniu/uip/verifgv/native"
)

// gvCtlOf encodes the control bytes of a value; some sizes come in longer forms than they need.
func gvCtlOf(typ int, size uint) []byte {
	var b []byte
	var more []byte
	s := size
	switch {
	case size >= 65821:
		s, more = 31, []byte{byte((size - 65821) >> 16), byte((size - 65821) >> 8), byte(size - 65821)}
	case size >= 285:
		s, more = 30, []byte{byte((size - 285) >> 8), byte(size - 285)}
	case size >= 29:
		s, more = 29, []byte{byte(size - 29)}
	}
	if typ > 7 {
		b = []byte{byte(s), byte(typ - 7)}
	} else {
		b = []byte{byte(typ<<5) | byte(s)}
	}
	return append(b, more...)
}

func gvText(s string) []byte { return append(gvCtlOf(2, uint(len(s))), s...) }

func gvNumOf(typ int, n uint64) []byte {
	var d []byte
	for ; n > 0; n >>= 8 {
		d = append([]byte{byte(n)}, d...)
	}
	return append(gvCtlOf(typ, uint(len(d))), d...)
}

func gvPtr(r *native.Rand, to uint) []byte {
	switch {
	case to < 2048 && r.Intn(3) > 0:
		return []byte{1<<5 | byte(to>>8), byte(to)}
	case to >= 2048 && to < 526336:
		return []byte{1<<5 | 1<<3 | byte((to-2048)>>16), byte((to - 2048) >> 8), byte(to - 2048)}
	case to >= 526336 && to < 526336+1<<27 && r.Intn(2) == 0:
		t := to - 526336
		return []byte{1<<5 | 2<<3 | byte(t>>24), byte(t >> 16), byte(t >> 8), byte(t)}
	}
	return []byte{1<<5 | 3<<3, byte(to >> 24), byte(to >> 16), byte(to >> 8), byte(to)}
}

// gvAny appends a value to a section.
func gvAny(r *native.Rand, b []byte, starts *[]uint, depth int) []byte {
	*starts = append(*starts, uint(len(b)))
	k := r.Intn(13)
	if depth <= 0 && k < 3 {
		k += 4
	}
	bytesOf := func(n int) []byte { d := make([]byte, n); r.Fill(d); return d }
	switch k {
	case 0, 1:
		n := r.Intn(4)
		b = append(b, gvCtlOf(7, uint(n))...)
		for ; n > 0; n-- {
			if r.Intn(4) == 0 {
				b = append(b, gvPtr(r, (*starts)[r.Intn(len(*starts))])...)
			} else {
				*starts = append(*starts, uint(len(b)))
				b = append(b, gvText(r.Word())...)
			}
			b = gvAny(r, b, starts, depth-1)
		}
	case 2:
		n := r.Intn(4)
		b = append(b, gvCtlOf(11, uint(n))...)
		for ; n > 0; n-- {
			b = gvAny(r, b, starts, depth-1)
		}
	case 3:
		return append(b, gvPtr(r, (*starts)[r.Intn(len(*starts))])...)
	case 4, 5:
		n := []int{0, 1, 5, 28, 29, 30, 284, 285, 300, 66000}[r.Intn([]int{8, 8, 8, 9, 10}[r.Intn(5)])]
		b = append(b, gvCtlOf([]int{2, 4}[k-4], uint(n))...)
		return append(b, bytesOf(n)...)
	case 6:
		return append(append(b, gvCtlOf(3, 8)...), bytesOf(8)...)
	case 7:
		return append(append(b, gvCtlOf(15, 4)...), bytesOf(4)...)
	case 8:
		n := r.Intn(6)
		return append(append(b, gvCtlOf([]int{5, 6, 9}[r.Intn(3)], uint(n))...), bytesOf(n)...)
	case 9:
		n := r.Intn(6)
		return append(append(b, gvCtlOf(8, uint(n))...), bytesOf(n)...)
	case 10:
		n := r.Intn(18)
		return append(append(b, gvCtlOf(10, uint(n))...), bytesOf(n)...)
	case 11:
		return append(b, gvCtlOf(14, uint(r.Intn(3)))...)
	case 12:
		return append(append(b, gvCtlOf(r.Intn(20), uint(r.Intn(3)))...), bytesOf(3)...)
	}
	return b
}

// gvSpoil changes a few bytes or cuts.
func gvSpoil(r *native.Rand, b []byte) []byte {
	for k := r.Intn(4); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] ^= 1 << r.Intn(8)
		case 2:
			b[i] = []byte{0, 0x20, 0x28, 0x3f, 0xff, 0x1f, 0xe1, 0x01, 0xf9, 0xfa}[r.Intn(10)]
		case 3:
			if r.Intn(3) == 0 {
				b = b[:i]
			}
		}
	}
	return b
}

// gvBits is a trie of networks.
type gvTrie struct {
	kid [2]*gvTrie
	rec uint // offset of the record plus 1
}

func (t *gvTrie) put(ip net.IP, n int, skip int, rec uint) {
	for i := -skip; i < n; i++ {
		if t.rec != 0 {
			return
		}
		b := 0
		if i >= 0 {
			b = int(ip[i/8]>>(7-i%8)) & 1
		}
		if t.kid[b] == nil {
			t.kid[b] = &gvTrie{}
		}
		t = t.kid[b]
	}
	if t.kid[0] == nil && t.kid[1] == nil && t.rec == 0 {
		t.rec = rec + 1
	}
}

var gvWords = []string{"中国", "美国", "浙江", "", "电信", "4134", "AS", "Asia", "a,b", "华东"}

// gvRecord is a record of a database.
func gvRecord(r *native.Rand, b []byte, starts *[]uint) []byte {
	*starts = append(*starts, uint(len(b)))
	if r.Intn(25) == 0 {
		return gvAny(r, b, &[]uint{0}, 2)
	}
	names := []string{"country", "province", "city", "isp", "asnumber", "continent", "line", "district", "asn", "x"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:r.Intn(len(names)+1)]
	from := append([]uint{}, *starts...)
	b = append(b, gvCtlOf(7, uint(len(names)))...)
	for _, n := range names {
		b = append(b, gvText(n)...)
		switch r.Intn(12) {
		case 0:
			b = append(b, gvNumOf(6, uint64(r.Intn(70000)))...)
		case 1:
			b = append(b, gvPtr(r, from[r.Intn(len(from))])...)
		default:
			b = append(b, gvText(gvWords[r.Intn(len(gvWords))])...)
		}
	}
	return b
}

// gvFile is a file and some of its networks; gap says how many of ten networks have no record.
func gvFile(r *native.Rand, gap int) ([]byte, []*net.IPNet) {
	ver := []int{4, 4, 6}[r.Intn(3)]
	if r.Intn(30) == 0 {
		ver = r.Intn(8)
	}
	starts := []uint{0}
	data := gvText("x")
	root := &gvTrie{}
	var nets []*net.IPNet
	add := func(ns []*net.IPNet, skip int) {
		for _, n := range ns {
			ones, _ := n.Mask.Size()
			if len(starts) < 2 || r.Intn(3) > 0 {
				data = gvRecord(r, data, &starts)
			}
			root.put(n.IP, ones, skip, starts[1+r.Intn(len(starts)-1)])
			nets = append(nets, n)
		}
	}
	v4 := func() []*net.IPNet {
		ns := r.Nets(32, 1+r.Intn(10), gap)
		if r.Intn(4) > 0 {
			ns = append(ns, &net.IPNet{IP: net.IP{8, 8, 8, 0}, Mask: net.CIDRMask(24, 32)})
		}
		return ns
	}
	if ver == 6 {
		if r.Intn(5) > 0 {
			add(v4(), 96)
		}
		add(r.Nets(128, 1+r.Intn(10), gap), 0)
	} else {
		add(v4(), 0)
	}
	size := []int{24, 28, 32}[r.Intn(3)]
	var order []*gvTrie
	num := map[*gvTrie]int{}
	var walk func(t *gvTrie)
	walk = func(t *gvTrie) {
		if t == nil || t.rec != 0 {
			return
		}
		num[t] = len(order)
		order = append(order, t)
		walk(t.kid[0])
		walk(t.kid[1])
	}
	walk(root)
	var file []byte
	for _, t := range order {
		var e [2]uint32
		for i, k := range t.kid {
			switch {
			case k == nil:
				e[i] = uint32(len(order))
			case k.rec != 0:
				e[i] = uint32(len(order)) + 16 + uint32(k.rec-1)
			default:
				e[i] = uint32(num[k])
			}
			if r.Intn(400) == 0 {
				e[i] = uint32(r.Intn(2*len(order) + 100))
			}
		}
		switch size {
		case 24:
			file = append(file, byte(e[0]>>16), byte(e[0]>>8), byte(e[0]), byte(e[1]>>16), byte(e[1]>>8), byte(e[1]))
		case 28:
			file = append(file, byte(e[0]>>16), byte(e[0]>>8), byte(e[0]), byte(e[0]>>24<<4)|byte(e[1]>>24), byte(e[1]>>16), byte(e[1]>>8), byte(e[1]))
		default:
			file = append(file, byte(e[0]>>24), byte(e[0]>>16), byte(e[0]>>8), byte(e[0]), byte(e[1]>>24), byte(e[1]>>16), byte(e[1]>>8), byte(e[1]))
		}
	}
	file = append(file, make([]byte, 16)...)
	file = append(file, data...)
	if r.Intn(6) == 0 {
		file = append(file, make([]byte, 1+r.Intn(3000))...)
	}
	file = append(file, "\xAB\xCD\xEFipplus360.com"...)
	meta := [][2][]byte{
		{gvText("node_count"), gvNumOf(6, uint64(len(order)))},
		{gvText("record_size"), gvNumOf(5, uint64(size))},
		{gvText("ip_version"), gvNumOf(5, uint64(ver))},
		{gvText("build_epoch"), gvNumOf(9, uint64(r.Uint32()))},
		{gvText("database_type"), gvText(gvWords[r.Intn(len(gvWords))])},
		{gvText("languages"), append(append(gvCtlOf(11, 2), gvText("zh-CN")...), gvText("en")...)},
		{gvText("description"), append(append(gvCtlOf(7, 1), gvText("en")...), gvText("d")...)},
		{gvText("other"), append(append(gvCtlOf(7, 1), gvText("en")...), append(gvCtlOf(11, 2), 0xa0, 0xa0)...)},
	}
	r.Shuffle(len(meta), func(i, j int) { meta[i], meta[j] = meta[j], meta[i] })
	file = append(file, gvCtlOf(7, uint(len(meta)))...)
	for _, m := range meta {
		file = append(append(file, m[0]...), m[1]...)
	}
	return file, nets
}

func gvAddrOf(r *native.Rand, nets []*net.IPNet) net.IP {
	if len(nets) == 0 || r.Intn(5) == 0 {
		return r.IP()
	}
	ip := r.In(nets[r.Intn(len(nets))])
	if len(ip) == 4 && r.Intn(2) == 0 {
		return ip.To16()
	}
	return ip
}

// gvGenReader is an opened database and an address.
func gvGenReader(r *native.Rand) (*Reader, net.IP) {
	for {
		b, nets := gvFile(r, 2)
		if d, err := FromBytes(b); err == nil {
			return d, gvAddrOf(r, nets)
		}
	}
}

func gvSection(r *native.Rand) ([]byte, []uint) {
	var b []byte
	var starts []uint
	ahead := r.Intn(3) == 0
	if ahead {
		// pointers to what comes later
		b = append(gvCtlOf(11, 4), 1<<5|3<<3, 0, 0, 0, 0)
		b = append(b, gvNumOf(5, 77)...)
		b = append(b, 1<<5|3<<3, 0, 0, 0, 0)
		b = append(b, gvText("end")...)
		starts = []uint{0, 0, 0}
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		b = gvAny(r, b, &starts, 3)
	}
	if ahead {
		for _, at := range []int{3, 10} {
			to := starts[r.Intn(len(starts))]
			b[at+2], b[at+3] = byte(to>>8), byte(to)
		}
	} else if r.Intn(10) == 0 {
		// far pointers
		b = append(make([]byte, []int{2048, 600000}[r.Intn(2)]), b...)
		at := uint(len(b))
		b = append(b, gvPtr(r, at-uint(r.Intn(20)))...)
		starts = append(starts, at)
	}
	if r.Intn(3) == 0 {
		b = gvSpoil(r, b)
	}
	return b, starts
}

func init() {
	native.For("gvDecode", func(r *native.Rand) []interface{} {
		b, s := gvSection(r)
		off := s[r.Intn(len(s))]
		if r.Intn(10) == 0 {
			off = uint(r.Intn(len(b) + 2))
		}
		return []interface{}{b, off}
	})
	native.For("gvDecodeMeta", func(r *native.Rand) []interface{} {
		f, _ := gvFile(r, 2)
		for i := len(f) - 16; i >= 0; i-- {
			if string(f[i:i+16]) == "\xAB\xCD\xEFipplus360.com" {
				f = f[i+16:]
				break
			}
		}
		switch r.Intn(4) {
		case 0, 1:
			f = gvSpoil(r, f)
		case 2:
			f = append(append([]byte{}, f...), 0, byte(r.Intn(9)), byte(r.Intn(256)))
		}
		return []interface{}{f}
	})
	native.For("gvLookup", func(r *native.Rand) []interface{} {
		f, nets := gvFile(r, r.Intn(5))
		if r.Intn(3) == 0 {
			f = gvSpoil(r, f)
		}
		if r.Intn(4) == 0 {
			f = append([]byte{}, f...)
			t := len(f) - 1 - r.Intn(300)
			if t >= 0 {
				f[t] = byte(r.Intn(256))
			}
		}
		return []interface{}{f, gvAddrOf(r, nets)}
	})
	native.For("gvNetworks", func(r *native.Rand) []interface{} {
		f, nets := gvFile(r, r.Intn(5))
		var w *net.IPNet
		if r.Intn(2) == 0 {
			ip := gvShort(gvAddrOf(r, nets))
			m := net.CIDRMask(r.Intn(8*len(ip)+1), 8*len(ip))
			w = &net.IPNet{IP: ip.Mask(m), Mask: m}
		}
		return []interface{}{f, w}
	})
	native.For("gvTraverseTree", func(r *native.Rand) []interface{} {
		d, ip := gvGenReader(r)
		return []interface{}{d, ip, uint(r.Intn(int(d.Metadata.NodeCount) + 2)), uint(r.Intn(8*len(ip) + 1))}
	})
	native.For("gvSetIPv4Start", func(r *native.Rand) []interface{} {
		d, _ := gvGenReader(r)
		d.ipv4Start, d.ipv4StartBitDepth = 0, 0
		return []interface{}{d}
	})
	native.For("gvLookupPointer", func(r *native.Rand) []interface{} {
		d, ip := gvGenReader(r)
		return []interface{}{d, ip}
	})
	native.For("gvCidr", func(r *native.Rand) []interface{} {
		d, ip := gvGenReader(r)
		return []interface{}{d, ip, r.Intn(8*len(ip) + 1)}
	})
	native.For("gvResolve", func(r *native.Rand) []interface{} {
		d, _ := gvGenReader(r)
		return []interface{}{d, d.Metadata.NodeCount + uint(r.Intn(40))}
	})
	native.For("gvVersion", func(r *native.Rand) []interface{} {
		d, _ := gvGenReader(r)
		return []interface{}{d}
	})
	for _, h := range []string{"gvDecodeCtrl", "gvDecodeKey", "gvNextValueOffset"} {
		h := h
		native.For(h, func(r *native.Rand) []interface{} {
			b, s := gvSection(r)
			off := s[r.Intn(len(s))]
			if r.Intn(10) == 0 {
				off = uint(r.Intn(len(b) + 2))
			}
			switch h {
			case "gvDecodeKey":
				return []interface{}{&decoder{b}, off, r.Intn(3)}
			case "gvNextValueOffset":
				return []interface{}{&decoder{b}, off, uint(r.Intn(4))}
			}
			return []interface{}{&decoder{b}, off}
		})
	}
	native.For("gvDecodePointer", func(r *native.Rand) []interface{} {
		b, _ := gvSection(r)
		return []interface{}{&decoder{b}, uint(r.Intn(32)), uint(r.Intn(len(b) + 1))}
	})
	for _, h := range []string{"gvDecodeUint", "gvDecodeInt", "gvDecodeString", "gvDecodeBytes", "gvDecodeBool"} {
		native.For(h, func(r *native.Rand) []interface{} {
			b := make([]byte, r.Intn(20))
			r.Fill(b)
			off := uint(r.Intn(len(b) + 1))
			return []interface{}{&decoder{b}, uint(r.Intn(9)), off}
		})
	}
}

func init() {
	native.For("gvDump", func(r *native.Rand) []interface{} {
		rule := []string{"", "", export.DefaultRule, "country,isp", "isp,asn|isp=!电信:isp", "x,line,country", "province,city,continent,district,utcOffset"}[r.Intn(7)]
		if r.Intn(12) == 0 {
			f, _ := gvFile(r, 1)
			return []interface{}{gvSpoil(r, f), rule}
		}
		for k := 0; ; k++ {
			f, _ := gvFile(r, -1)
			d, err := FromBytes(f)
			if err != nil {
				continue
			}
			if _, _, ok := gvAnswer(d, net.IP{0, 0, 0, 0}); ok || d.Metadata.IPVersion == 6 || k > 20 {
				return []interface{}{f, rule}
			}
		}
	})
}
