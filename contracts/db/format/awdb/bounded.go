package awdb

import (
	"fmt"
	"math"
	"math/big"
	"net"
	"reflect"

	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

// gvSeen is a value read from a section: the value, the offset past it, ok if there is one.
type gvSeen struct {
	v    interface{}
	next uint
	ok   bool
}

// gvRead reads the value at an offset as the format says, independently of the decoder.
func gvRead(b []byte, off uint, depth int) gvSeen {
	c := gvCtrl(b, off)
	if depth > maximumDataStructureDepth || !c.ok {
		return gvSeen{}
	}
	end, n := c.next+c.size, uint(len(b))
	switch c.typ {
	case 1:
		if gvPointerEnd(c.size, c.next) > n {
			return gvSeen{}
		}
		s := gvRead(b, gvPointer(b, c.size, c.next), depth+1)
		return gvSeen{s.v, gvPointerEnd(c.size, c.next), s.ok}
	case 7:
		m, at := map[string]interface{}{}, c.next
		for i := uint(0); i < c.size; i++ {
			k := gvKeyAt(b, at, depth+1)
			if !k.ok {
				return gvSeen{}
			}
			s := gvRead(b, k.next, depth+1)
			if !s.ok {
				return gvSeen{}
			}
			m[string(b[k.lo:k.hi])] = s.v
			at = s.next
		}
		return gvSeen{m, at, true}
	case 11:
		l, at := []interface{}{}, c.next
		for i := uint(0); i < c.size; i++ {
			s := gvRead(b, at, depth+1)
			if !s.ok {
				return gvSeen{}
			}
			l = append(l, s.v)
			at = s.next
		}
		return gvSeen{l, at, true}
	case 14:
		return gvSeen{c.size == 1, c.next, c.size <= 1}
	}
	if end > n {
		return gvSeen{}
	}
	num := func(most uint) gvSeen {
		if c.size > most {
			return gvSeen{}
		}
		return gvSeen{gvNum(0, b[c.next:end], 0, int(c.size)), end, true}
	}
	switch c.typ {
	case 2, 4:
		return gvSeen{append([]byte{}, b[c.next:end]...), end, true}
	case 3:
		return gvSeen{math.Float64frombits(num(8).asUint()), end, c.size == 8}
	case 15:
		return gvSeen{math.Float32frombits(uint32(num(8).asUint())), end, c.size == 4}
	case 5:
		return num(2)
	case 6:
		return num(4)
	case 9:
		return num(8)
	case 8:
		return gvSeen{int(int32(num(8).asUint())), end, c.size <= 4}
	case 10:
		return gvSeen{new(big.Int).SetBytes(b[c.next:end]), end, c.size <= 16}
	}
	return gvSeen{}
}

func (s gvSeen) asUint() uint64 { u, _ := s.v.(uint64); return u }

// gvEq compares two values read; numbers that are none are equal.
func gvEq(a, b interface{}) bool {
	return reflect.DeepEqual(a, b) || fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}

// gvDecode decodes any value at any offset of any section, and skips it.
//
//gv:bounded decoding goes through reflection; decoded natively and compared with the value the format assigns
//gv:props C10
func gvDecode(b []byte, off uint) {
	kept := append([]byte{}, b...)
	d := &decoder{b}
	want := gvRead(b, off, 0)
	var got interface{}
	next, err := d.decode(off, reflect.ValueOf(&got), 0)
	gv.Ensures((err == nil) == want.ok)
	if want.ok {
		gv.Ensures(next == want.next && gvEq(got, want.v))
	}
	past := gvSkip(b, off, 1)
	if off <= uint(len(b)) {
		skip, err := d.nextValueOffset(off, 1)
		gv.Ensures((err == nil) == past.ok && (err != nil || skip == past.off))
	}
	gv.Ensures(gv.Implies(want.ok, past.ok && past.off == want.next))
	gv.Ensures(string(kept) == string(b))
}

// gvDecodeMeta decodes any section as metadata.
//
//gv:bounded decoding goes through reflection; decoded natively and compared with the value the format assigns
//gv:props C10
func gvDecodeMeta(b []byte) {
	d := decoder{b}
	var m Metadata
	next, err := d.decode(0, reflect.ValueOf(&m), 0)
	s := gvRead(b, 0, 0)
	gv.Ensures(gv.Implies(err == nil && s.ok, next == s.next))
	if err != nil || !s.ok {
		return // fields that are not known are skipped without being looked at
	}
	want, ok := s.v.(map[string]interface{})
	gv.Ensures(ok)
	num := func(k string) uint {
		switch v := want[k].(type) {
		case uint64:
			return uint(v)
		case int:
			return uint(v)
		}
		return 0
	}
	gv.Ensures(m.NodeCount == num("node_count") && m.RecordSize == num("record_size") && m.IPVersion == num("ip_version") && m.BuildEpoch == num("build_epoch"))
	t, _ := want["database_type"].([]byte)
	gv.Ensures(m.DatabaseType == string(t))
	ls, _ := want["languages"].([]interface{})
	gv.Ensures(len(ls) == len(m.Languages))
	for i := range ls {
		l, _ := ls[i].([]byte)
		gv.Ensures(string(l) == m.Languages[i])
	}
}

// gvAnswer is what a lookup of an address has to find: the place, the record and whether there is one.
func gvAnswer(r *Reader, ip net.IP) (gvPos, map[string]string, bool) {
	if gvRefused(r, ip) {
		return gvPos{}, nil, false
	}
	h := gvHit(r, ip)
	if h.node <= r.Metadata.NodeCount {
		return h, nil, false
	}
	off := h.node - r.Metadata.NodeCount - 16
	if h.node < r.Metadata.NodeCount+16 || off >= uint(len(r.buffer)) {
		return h, nil, false
	}
	s := gvRead(r.decoder.buffer, off, 0)
	m, ok := s.v.(map[string]interface{})
	if !s.ok || !ok {
		return h, nil, false
	}
	out := map[string]string{}
	for k, v := range m {
		if b, ok := v.([]byte); ok {
			out[k] = string(b)
		} else {
			out[k] = fmt.Sprint(v)
		}
	}
	return h, out, true
}

// gvOpened opens a file and checks what opening promises.
func gvOpened(data []byte) *Reader {
	r, err := FromBytes(data)
	gv.Ensures((r != nil) == (err == nil))
	if err != nil {
		return nil
	}
	gv.Ensures(gvReader(r) && r.nodeOffsetMult == r.Metadata.RecordSize/4 && gv.Same(r.buffer, data))
	n := int(r.Metadata.NodeCount * r.nodeOffsetMult)
	gv.Ensures(len(r.decoder.buffer) <= len(data)-n-16 && (len(r.decoder.buffer) == 0 || &r.decoder.buffer[0] == &data[n+16]))
	return r
}

// gvLookup opens any file and looks up any address: the record of the place the tree leads to, or an error.
//
//gv:bounded decoding goes through reflection; files are opened and queried natively and compared with the descent
//gv:props C09,C10,C11,C20
func gvLookup(data []byte, ip net.IP) {
	gv.Requires(len(ip) == 4 || len(ip) == 16)
	kept := append([]byte{}, data...)
	r := gvOpened(data)
	q, err := newQuerier(data)
	gv.Ensures(gv.Implies(r == nil, err != nil))
	if r == nil {
		return
	}
	if r.Metadata.IPVersion != 6 {
		_, _, ok := gvAnswer(r, net.IPv4(8, 8, 8, 8))
		gv.Ensures((err == nil) == ok)
	} else {
		gv.Ensures(err == nil)
	}
	if err != nil {
		q = &querier{Data: data, reader: r}
	}
	var first *inf.IpInfo
	for k := 0; k < 2; k++ {
		h, rec, ok := gvAnswer(r, ip)
		info, n, err := q.Query(ip)
		w, m, err2 := q.(*querier).Find(ip)
		w2, m2, err3 := (&traversal{Data: data, reader: r}).find(ip)
		gv.Ensures((err == nil) == ok && (err2 == nil) == ok && (err3 == nil) == ok)
		gv.Ensures(err == nil || info == nil)
		if err == nil {
			gv.Ensures(reflect.DeepEqual(m, rec) && reflect.DeepEqual(m2, rec) && reflect.DeepEqual(w, w2))
			want := inf.IpInfo{Country: rec["country"], Province: rec["province"], City: rec["city"], Isp: rec["isp"], Asn: rec["asnumber"], Continent: rec["continent"], Line: rec["line"]}
			gv.Ensures(*info == want)
			if a := gvShort(ip); len(a) == 4 && r.Metadata.IPVersion == 6 && gvV4(r).i != 96 {
				gv.Ensures(n == gvV4(r).i)
			} else {
				gv.Ensures(n == h.i && gvIsNet(w, a, n))
			}
			gv.Ensures(first == nil || *first == *info)
			first = info
			info2 := *info
			first = &info2
		}
		q.BuildCache([]string{ip.String(), "x"})
	}
	v := q.VersionInfo()
	gv.Ensures(v.IpType == r.Metadata.IpType() && v.Count == uint32(r.Metadata.NodeCount))
	gv.Ensures(string(kept) == string(data))
}

// gvLeaves lists the places with records below a node, in the order of their addresses.
func gvLeaves(r *Reader, node uint, i int, key gv.N, bits int, out *[]*net.IPNet, ptrs *[]uint) bool {
	if node > r.Metadata.NodeCount {
		ip := make(net.IP, bits/8)
		for j := 0; j < bits; j++ {
			ip[j/8] |= byte(gvBit(key, j) << (7 - j%8))
		}
		*out = append(*out, &net.IPNet{IP: ip, Mask: net.CIDRMask(i, bits)})
		*ptrs = append(*ptrs, node)
		return len(*out) < 4000
	}
	if node == r.Metadata.NodeCount {
		return true
	}
	if i >= bits {
		return false
	}
	return gvLeaves(r, gvEntry(r.buffer, r.nodeOffsetMult, node, 0), i+1, key, bits, out, ptrs) &&
		gvLeaves(r, gvEntry(r.buffer, r.nodeOffsetMult, node, 1), i+1, gv.Or(key, gv.Shl(gv.I(1), 127-i)), bits, out, ptrs)
}

// gvNetworks iterates all networks of a file, or those within one: each once, at its place.
//
//gv:bounded the stack of the iteration holds structures with slices; iterated natively and compared with the tree
//gv:props C09
func gvNetworks(data []byte, within *net.IPNet) {
	r, err := FromBytes(data)
	gv.Requires(err == nil)
	bits, ns := 32, r.Networks()
	var want []*net.IPNet
	var ptrs []uint
	ok := true
	if within != nil {
		n, b := within.Mask.Size()
		gv.Requires(b == 8*len(within.IP) && (b == 32 || b == 128 && within.IP.To4() == nil && r.Metadata.IPVersion == 6))
		bits = b
		ip := within.IP
		if r.Metadata.IPVersion == 6 && b == 32 {
			bits, n = 128, n+96
			ip = append(append(make(net.IP, 10), 0xff, 0xff), ip...)
		}
		ns = r.NetworksWithin(within)
		p := gvFrom(r, 0, n, gvKey(ip))
		key := gv.And(gvKey(ip), gvTop(p.i, 128))
		ok = gvLeaves(r, p.node, p.i, key, bits, &want, &ptrs)
	} else {
		if r.Metadata.IPVersion == 6 {
			bits = 128
		}
		ok = gvLeaves(r, 0, 0, gv.I(0), bits, &want, &ptrs)
	}
	gv.Requires(len(want) < 4000)
	k := 0
	for ns.Next() {
		gv.Ensures(k < len(want))
		var rec interface{}
		w, err := ns.Network(&rec)
		off := ptrs[k] - r.Metadata.NodeCount - 16
		good := ptrs[k] >= r.Metadata.NodeCount+16 && off < uint(len(r.buffer))
		var s gvSeen
		if good {
			s = gvRead(r.decoder.buffer, off, 0)
		}
		gv.Ensures((err == nil) == s.ok)
		if err == nil {
			gv.Ensures(reflect.DeepEqual(w, want[k]) && gvEq(rec, s.v))
		}
		k++
	}
	gv.Ensures((ns.Err() == nil) == ok)
	gv.Ensures(k == len(want))
}
