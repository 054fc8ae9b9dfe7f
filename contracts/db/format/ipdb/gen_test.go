package ipdb

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"github.com/qiniu/uip/db/field/export"
	"math/rand"
	"net"
	"strings"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/verifgv/native"
)

var gvFieldNames = []string{FieldCountryName, FieldRegionName, FieldCityName, FieldISPDomain, field.Asn, FieldContinentCode, field.Line, field.District, "x", ""}

func gvGenFields(r *native.Rand) []string {
	n := 1 + r.Intn(5)
	var fs []string
	for i := 0; i < n; i++ {
		fs = append(fs, gvFieldNames[r.Intn(len(gvFieldNames))])
	}
	return fs
}

var gvValues = []string{"", "中国", "AS", "EU", "OC", "AN", "NA", "SA", "AF", "XX", "电信", "a", "浙江"}

// gvPaths are addresses whose bits the generated trees branch on.
func gvPath(r *native.Rand, bits int) []byte {
	b := make([]byte, 16)
	r.Fill(b)
	if bits == 32 || r.Intn(2) == 0 {
		copy(b, net.IPv4(b[12], b[13], b[14], b[15]))
	}
	return b
}

type gvDb struct {
	meta  MetaData
	data  []byte
	paths [][]byte
}

// gvGenDb makes the parts of a database: a tree with records here and there; wild says how much of it is nonsense.
func gvGenDb(r *native.Rand, wild bool) *gvDb {
	d := &gvDb{}
	d.meta.Fields = gvGenFields(r)
	d.meta.IPVersion = []uint16{1, 2, 3, 3, 1}[r.Intn(5)]
	d.meta.Languages = map[string]int{"CN": 0}
	cols := len(d.meta.Fields)
	switch r.Intn(4) {
	case 0, 1:
		d.meta.Languages = map[string]int{"EN": 0, "CN": len(d.meta.Fields)}
		cols *= 2
	case 2:
		// a language may start anywhere
		off := r.Intn(3 * cols)
		d.meta.Languages = map[string]int{"CN": off}
		cols += off + r.Intn(2)
	}
	d.meta.Build = int64(r.Uint32())
	d.meta.Version = []string{"", "v1", "中", "7", " ", "ipip.net-", r.Word()}[r.Intn(7)]
	nodes := [][2]int{{}}
	var recs []byte
	recs = append(recs, make([]byte, 8)...)
	type leaf struct{ n, b, off int }
	var leaves []leaf
	for k := r.Intn(8); k >= 0; k-- {
		p := gvPath(r, 32)
		if wild && r.Intn(2) == 0 {
			p = gvPath(r, 128)
		}
		if d.meta.IPVersion == 2 && r.Intn(2) == 0 {
			p = gvPath(r, 128)
		}
		d.paths = append(d.paths, p)
		depth := []int{1, 80, 95, 96, 97, 100, 104, 109, 110, 111, 112, 120, 127, 128, 1 + r.Intn(128)}[r.Intn(15)]
		node := 0
		for i := 0; i < depth; i++ {
			b := int(p[i/8]>>(7-i%8)) & 1
			if i == depth-1 {
				if nodes[node][b] == 0 {
					off := len(recs)
					var vs []string
					for j := 0; j < cols; j++ {
						vs = append(vs, gvValues[r.Intn(len(gvValues))])
					}
					if wild && r.Intn(4) == 0 {
						vs = vs[:r.Intn(len(vs))]
					}
					s := strings.Join(vs, "\t")
					recs = append(recs, byte(len(s)>>8), byte(len(s)))
					recs = append(recs, s...)
					nodes[node][b] = -off
					leaves = append(leaves, leaf{node, b, off})
				}
				break
			}
			if nodes[node][b] < 0 {
				break
			}
			if nodes[node][b] == 0 {
				nodes = append(nodes, [2]int{})
				nodes[node][b] = len(nodes) - 1
			}
			node = nodes[node][b]
		}
	}
	d.meta.NodeCount = len(nodes)
	for _, n := range nodes {
		for _, v := range n {
			if v <= 0 {
				v = len(nodes) - v
			}
			d.data = binary.BigEndian.AppendUint32(d.data, uint32(v))
		}
	}
	d.data = append(d.data, recs...)
	if wild && r.Intn(4) == 0 {
		d.data = d.data[:8*len(nodes)+r.Intn(3)]
	}
	if wild {
		for k := r.Intn(6); k > 0; k-- {
			i := r.Intn(len(d.data))
			switch r.Intn(4) {
			case 0:
				d.data[i] = byte(r.Intn(256))
			case 1:
				d.data[i&^3] = 0xff
			case 2:
				n := r.Intn(2 * len(nodes))
				binary.BigEndian.PutUint32(d.data[n*4:], uint32(len(d.data)-8*len(nodes)+len(nodes)-r.Intn(4)))
			case 3:
				n := r.Intn(2 * len(nodes))
				binary.BigEndian.PutUint32(d.data[n*4:], uint32(r.Intn(2*len(nodes)+9)))
			}
		}
	}
	return d
}

func (d *gvDb) bytes(r *native.Rand, wild bool) []byte {
	m := d.meta
	m.TotalSize = len(d.data)
	if wild && r.Intn(3) == 0 {
		switch r.Intn(8) {
		case 0:
			m.TotalSize = r.IntOfInterest()
		case 1:
			m.NodeCount = r.IntOfInterest()
		case 2:
			m.NodeCount += r.Intn(4) - 1
		case 3:
			m.Languages = map[string]int{"CN": r.IntOfInterest()}
		case 4:
			m.Fields = nil
		case 5:
			m.Languages = nil
		case 6:
			m.NodeCount = len(d.data) / 8
		case 7:
			m.IPVersion = uint16(r.Intn(8))
		}
	}
	j, _ := json.Marshal(m)
	b := binary.BigEndian.AppendUint32(nil, uint32(len(j)))
	b = append(b, j...)
	b = append(b, d.data...)
	if wild {
		switch r.Intn(8) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1:
			b[r.Intn(len(b))] = byte(r.Intn(256))
		case 2:
			b[r.Intn(4)] = byte(r.Intn(256))
		}
	}
	return b
}

// gvAddr is an address near the paths of the tree.
func (d *gvDb) addr(r *native.Rand) net.IP {
	ip := net.IP(append([]byte{}, d.paths[r.Intn(len(d.paths))]...))
	switch r.Intn(5) {
	case 0:
		return r.IP()
	case 1:
		i := r.Intn(16)
		ip[i] ^= 1 << r.Intn(8)
	case 2:
		r.Fill(ip[14:])
	case 3:
		for i := 12 + r.Intn(4); i < 16; i++ {
			ip[i] = byte(r.Intn(256))
		}
	}
	if v4 := ip.To4(); v4 != nil && r.Intn(2) == 0 {
		return v4
	}
	if r.Intn(60) == 0 {
		return ip[:r.Intn(16)]
	}
	return ip
}

func (d *gvDb) reader() *reader {
	db := &reader{nodeCount: d.meta.NodeCount, meta: d.meta, data: d.data, continentOffset: -1}
	for i := len(d.meta.Fields) - 1; i >= 0; i-- {
		if d.meta.Fields[i] == FieldContinentCode {
			db.continentOffset = i
		}
	}
	if db.HasIPv4() {
		db.v4offset = gvV4(db.data, db.nodeCount)
		db.ipV4BitsCache = make([]uint, 1<<cacheDepth)
		for i := range db.ipV4BitsCache {
			db.ipV4BitsCache[i] = gvCached(db, i)
		}
	}
	return db
}

// gvSome is one of a few databases, made anew now and then.
func gvSome(r *native.Rand) (*gvDb, *reader) {
	d := gvGenDb(r, r.Intn(3) == 0)
	return d, d.reader()
}

func gvQ(r *native.Rand) (*gvDb, *querier) {
	d, db := gvSome(r)
	q := &querier{r: db, queryCache: map[int]*gvIpInfo{}}
	if r.Intn(2) == 0 {
		for k := r.Intn(4); k > 0; k-- {
			n, _, hit := gvHit(db, d.addr(r))
			if hit && gvGood(db, n) {
				q.queryCache[n] = gvInfoOf(db, n)
			}
		}
	}
	return d, q
}

func init() {
	native.Register(func(r *native.Rand) *reader {
		_, db := gvSome(r)
		return db
	})
	native.Register(func(r *native.Rand) *querier {
		_, q := gvQ(r)
		return q
	})
	p := "gv"
	native.For(p+"NewReader", func(r *native.Rand) []interface{} {
		return []interface{}{gvGenDb(r, r.Intn(2) == 0).bytes(r, r.Intn(2) == 0)}
	})
	native.For(p+"NewQuerier", func(r *native.Rand) []interface{} {
		return []interface{}{gvGenDb(r, r.Intn(2) == 0).bytes(r, r.Intn(2) == 0)}
	})
	native.For(p+"OpenQuery", func(r *native.Rand) []interface{} {
		w := r.Intn(4) != 0
		d := gvGenDb(r, w)
		return []interface{}{d.bytes(r, w), d.addr(r)}
	})
	native.For(p+"ReadNode", func(r *native.Rand) []interface{} {
		_, db := gvSome(r)
		return []interface{}{db, r.Intn(db.nodeCount), r.Intn(2)}
	})
	native.For(p+"ReadDepth", func(r *native.Rand) []interface{} {
		d, db := gvSome(r)
		ip := d.addr(r)
		if r.Intn(3) == 0 && len(ip) > 1 {
			ip = ip[:2]
		}
		depth := r.Intn(8*len(ip) + 1)
		return []interface{}{db, r.Intn(db.nodeCount + 1), depth, r.Intn(depth + 1), []byte(ip)}
	})
	native.For(p+"SetCache", func(r *native.Rand) []interface{} {
		_, db := gvSome(r)
		db.ipV4BitsCache = make([]uint, 1<<cacheDepth)
		return []interface{}{db, r.Intn(1 << cacheDepth)}
	})
	native.For(p+"Search", func(r *native.Rand) []interface{} {
		d, db := gvSome(r)
		ip := d.addr(r)
		if v4 := ip.To4(); v4 != nil {
			ip = v4
		}
		return []interface{}{db, ip, len(ip) * 8}
	})
	native.For(p+"Resolve", func(r *native.Rand) []interface{} {
		_, db := gvSome(r)
		return []interface{}{db, db.nodeCount + 1 + r.Intn(len(db.data)+4)}
	})
	native.For(p+"DecodeInfo", func(r *native.Rand) []interface{} {
		_, db := gvSome(r)
		var vs []string
		for i := r.Intn(12); i > 0; i-- {
			vs = append(vs, gvValues[r.Intn(len(gvValues))])
		}
		return []interface{}{db, []byte(strings.Join(vs, "\t")), r.Intn(8) - 1}
	})
	find := func(lang bool) func(r *native.Rand) []interface{} {
		return func(r *native.Rand) []interface{} {
			d, db := gvSome(r)
			if lang {
				return []interface{}{db, d.addr(r), []string{"CN", "CN", "EN", "FR"}[r.Intn(4)]}
			}
			return []interface{}{db, d.addr(r)}
		}
	}
	native.For(p+"Find0", find(false))
	native.For(p+"Find1", find(true))
	native.For(p+"FindMap", find(true))
	native.For(p+"QueryInternal", func(r *native.Rand) []interface{} {
		d, q := gvQ(r)
		return []interface{}{q, d.addr(r), r.Intn(2) == 0}
	})
	native.For(p+"Query", func(r *native.Rand) []interface{} {
		d, q := gvQ(r)
		return []interface{}{q, d.addr(r)}
	})
	native.For(p+"BuildCache", func(r *native.Rand) []interface{} {
		d, q := gvQ(r)
		var l []string
		for i := r.Intn(5); i > 0; i-- {
			l = append(l, d.addr(r).String())
		}
		if r.Intn(3) == 0 {
			l = append(l, "", "zz")
		}
		rand.New(rand.NewSource(r.Int63())).Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		return []interface{}{q, l}
	})
}

type gvIpInfo = inf.IpInfo

// gvInfoOf is the answer that the record of an entry says.
func gvInfoOf(db *reader, n int) *inf.IpInfo {
	return &inf.IpInfo{
		Country:   gvNamed(db, n, FieldCountryName),
		Province:  gvNamed(db, n, FieldRegionName),
		City:      gvNamed(db, n, FieldCityName),
		Isp:       gvNamed(db, n, FieldISPDomain),
		Asn:       gvNamed(db, n, field.Asn),
		Continent: gvNamed(db, n, FieldContinentCode),
		Line:      gvNamed(db, n, field.Line),
		District:  gvNamed(db, n, field.District),
	}
}

// gvGenPack makes rows to pack and addresses to ask for.
func gvGenPack(r *native.Rand) []interface{} {
	d := &inf.IpData{Version: &inf.VersionInfo{IpType: inf.IpType(1 + r.Intn(3)), Version: r.Pick("", "v1", "中", "7", " ", "ipip.net-"), ExtraInfo: [][]string{nil, {}, {"a", ""}}[r.Intn(3)]}}
	all := []string{field.Country, field.Province, field.City, field.ISP, field.Asn, field.Continent, field.District, field.Line, "x"}
	rand.New(rand.NewSource(r.Int63())).Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	d.Fields = all[:1+r.Intn(4)]
	bits := 32
	if d.Version.IpType == 2 || d.Version.IpType == 3 && r.Intn(2) == 0 {
		bits = 128
	}
	nets := r.Nets(bits, 1+r.Intn(12), []int{0, 3, 7}[r.Intn(3)])
	vals := []string{"", "a", "b", "ab", "亚洲", "大洋洲", "非洲", "南极洲", "EU", "AF", "SA"}
	long := strings.Repeat("z", 65000)
	var probes []net.IP
	for _, n := range nets {
		if bits == 128 {
			if s, _ := n.Mask.Size(); s == 0 || n.IP.To4() != nil {
				continue
			}
		}
		row := inf.IpRaw{Cidr: n}
		for range d.Fields {
			v := vals[r.Intn(len(vals))]
			if r.Intn(400) == 0 {
				v = long[:256<<r.Intn(8)]
			}
			row.FieldValues = append(row.FieldValues, v)
		}
		if k := len(d.Ips); k > 0 && r.Intn(2) == 0 {
			row.FieldValues = d.Ips[r.Intn(k)].FieldValues // rows share storage
		}
		if bits == 32 && r.Intn(3) == 0 {
			s, _ := n.Mask.Size()
			row.Cidr = &net.IPNet{IP: n.IP.To16(), Mask: net.CIDRMask(96+s, 128)}
		}
		d.Ips = append(d.Ips, row)
		probes = append(probes, r.In(n), r.In(n))
	}
	probes = append(probes, r.IP())
	rand.New(rand.NewSource(r.Int63())).Shuffle(len(d.Ips), func(i, j int) { d.Ips[i], d.Ips[j] = d.Ips[j], d.Ips[i] })
	return []interface{}{d, probes}
}

func init() { native.For("gvPack", gvGenPack) }

func init() {
	native.For("gvDump", func(r *native.Rand) []interface{} {
		rule := []string{"", "", export.DefaultRule, "country,isp", "isp,asn|isp=!电信:isp", "x,line,country", "province,city,continent,district,utcOffset"}[r.Intn(7)]
		if r.Intn(12) == 0 {
			return []interface{}{gvGenDb(r, true).bytes(r, true), rule}
		}
		for {
			a := gvGenPack(r)
			d := a[0].(*inf.IpData)
			if !gvPackable(d) {
				continue
			}
			if d.Version.IpType == 3 && len(d.Ips) > 0 && len(d.Ips[0].Cidr.IP) == 16 && d.Ips[0].Cidr.IP.To4() == nil {
				continue
			}
			if r.Intn(8) > 0 {
				// all of the address space
				bits := 32
				if d.Version.IpType == 2 {
					bits = 128
				}
				var rows []inf.IpRaw
				nets := r.Nets(bits, 2+r.Intn(14), 0)
				if n, _ := nets[0].Mask.Size(); len(nets) < 2 || n >= bits || !nets[0].IP.Equal(make([]byte, bits/8)) {
					continue
				}
				for _, n := range nets {
					row := inf.IpRaw{Cidr: n}
					for range d.Fields {
						row.FieldValues = append(row.FieldValues, r.Pick("", "a", "中国", "电信", "欧洲", "AF", "x,y", "b"))
					}
					rows = append(rows, row)
				}
				d.Ips = rows
			}
			var b bytes.Buffer
			if pack(d, &b) == nil {
				return []interface{}{b.Bytes(), rule}
			}
		}
	})
}
