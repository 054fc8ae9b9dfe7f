package awdb

import (
	"net"

	gv "github.com/qiniu/uip/verifgv"
)

// gvKey is an address, or the front part of one, as 128 bits from the top.
func gvKey(ip []byte) gv.N { return gv.Shl(gv.Nat(ip), 128-8*len(ip)) }

// gvBit is bit i of a key, counted from the top.
func gvBit(key gv.N, i int) int { return int(gv.Low(gv.And(gv.Shr(key, 127-i), gv.U(1)))) }

// gvBE is the number in n bytes.
func gvBE3(b []byte, o int) uint { return uint(b[o])<<16 | uint(b[o+1])<<8 | uint(b[o+2]) }

// gvEntry is the entry of a node for a bit. A node has 6, 7 or 8 bytes: two numbers of half of that, of which those
// of 28 bits have their highest 4 bits in the middle byte, first those of the left one.
func gvEntry(b []byte, size, node uint, bit int) uint {
	o := int(node * size)
	switch size {
	case 6:
		return gvBE3(b, o+3*bit)
	case 7:
		if bit == 0 {
			return uint(b[o+3]>>4)<<24 | gvBE3(b, o)
		}
		return uint(b[o+3]%16)<<24 | gvBE3(b, o+4)
	}
	return uint(b[o+4*bit])<<24 | gvBE3(b, o+4*bit+1)
}

// gvPos is a place in the tree: an entry, and the number of bits that lead to it.
type gvPos struct {
	node uint
	i    int
}

// gvWalk follows the tree one bit at a time from a node, until it leaves the nodes or the bits are used up.
//
//gv:spec rec
func gvWalk(b []byte, size, count, node uint, i, depth int, key gv.N) gvPos {
	if i >= depth || node >= count {
		return gvPos{node, i}
	}
	return gvWalk(b, size, count, gvEntry(b, size, node, gvBit(key, i)), i+1, depth, key)
}

// gvTree says that the nodes lie inside the data and that the reader of nodes is the one for their size.
func gvTree(r *Reader) bool {
	if r == nil || r.buffer == nil || r.Metadata.NodeCount > uint(len(r.buffer)) || r.Metadata.NodeCount*r.nodeOffsetMult > uint(len(r.buffer)) {
		return false
	}
	switch n := r.nodeReader.(type) {
	case nodeReader24:
		return r.nodeOffsetMult == 6 && gv.Same(n.buffer, r.buffer[:r.Metadata.NodeCount*6])
	case nodeReader28:
		return r.nodeOffsetMult == 7 && gv.Same(n.buffer, r.buffer[:r.Metadata.NodeCount*7])
	case nodeReader32:
		return r.nodeOffsetMult == 8 && gv.Same(n.buffer, r.buffer[:r.Metadata.NodeCount*8])
	}
	return false
}

// gvFrom is the place a descent from a node ends.
func gvFrom(r *Reader, node uint, depth int, key gv.N) gvPos {
	return gvWalk(r.buffer, r.nodeOffsetMult, r.Metadata.NodeCount, node, 0, depth, key)
}

// gvV4 is where the IPv4 addresses begin: behind 96 zero bits of an IPv6 database.
func gvV4(r *Reader) gvPos {
	if r.Metadata.IPVersion != 6 {
		return gvPos{0, 0}
	}
	return gvFrom(r, 0, 96, gv.I(0))
}

// gvReader is what holds of an opened database.
func gvReader(r *Reader) bool {
	return gvTree(r) && gvPos{r.ipv4Start, r.ipv4StartBitDepth} == gvV4(r)
}

// gvEnd bounds the place where a descent ends.
//
//gv:lemma
func gvEnd(b []byte, size, count, node uint, i, depth int, key gv.N) {
	gv.Requires((size == 6 || size == 7 || size == 8) && count <= uint(len(b)) && count*size <= uint(len(b)) && 0 <= i && i <= depth && depth <= 128)
	gv.Decreases(depth - i)
	if i < depth && node < count {
		gvEnd(b, size, count, gvEntry(b, size, node, gvBit(key, i)), i+1, depth, key)
	}
	w := gvWalk(b, size, count, node, i, depth, key)
	gv.Ensures(i <= w.i && w.i <= depth && (w.i == depth || w.node >= count) && (w.node <= 1<<32 || w.node == node))
}

//gv:contract Reader.traverseTree
//gv:props C09,C10
func gvTraverseTree(r *Reader, ip net.IP, node, bitCount uint) {
	gv.Requires(gvTree(r) && (len(ip) == 4 || len(ip) == 16) && bitCount <= uint(8*len(ip)))
	gv.Cases(len(ip), 4, 16)
	gv.Cases(int(r.nodeOffsetMult), 6, 7, 8)
	n, i := r.traverseTree(ip, node, bitCount)
	gv.Ensures(gvPos{n, i} == gvFrom(r, node, int(bitCount), gvKey(ip)))
	gv.Ensures(0 <= i && i <= int(bitCount) && (i == int(bitCount) || n >= r.Metadata.NodeCount))
}

//gv:inv Reader.traverseTree
func gvTraverseTreeLoop(r *Reader, ip net.IP, node, bitCount, i, node0 uint) {
	gv.Inv(i <= bitCount)
	gv.Inv(gvWalk(r.buffer, r.nodeOffsetMult, r.Metadata.NodeCount, node, int(i), int(bitCount), gvKey(ip)) == gvFrom(r, node0, int(bitCount), gvKey(ip)))
	gv.Decreases(int(bitCount - i))
}

//gv:contract Reader.setIPv4Start
//gv:props C09,C10
func gvSetIPv4Start(r *Reader) {
	gv.Requires(gvTree(r) && r.ipv4Start == 0 && r.ipv4StartBitDepth == 0)
	gv.Cases(int(r.nodeOffsetMult), 6, 7, 8)
	gv.Modifies(&r.ipv4Start, &r.ipv4StartBitDepth)
	r.setIPv4Start()
	gv.Ensures(gvPos{r.ipv4Start, r.ipv4StartBitDepth} == gvV4(r))
}

//gv:inv Reader.setIPv4Start
func gvSetIPv4StartLoop(r *Reader, node uint, i int) {
	gv.Inv(0 <= i && i <= 96)
	gv.Inv(gvWalk(r.buffer, r.nodeOffsetMult, r.Metadata.NodeCount, node, i, 96, gv.I(0)) == gvFrom(r, 0, 96, gv.I(0)))
	gv.Decreases(96 - i)
}

// gvShort is an address in its shortest form.
func gvShort(ip net.IP) net.IP {
	if v4 := ip.To4(); v4 != nil {
		return v4
	}
	return ip
}

// gvRefused says that a database has no addresses of this kind.
func gvRefused(r *Reader, ip net.IP) bool { return len(gvShort(ip)) == 16 && r.Metadata.IPVersion == 4 }

// gvHit is where the descent of an address ends.
func gvHit(r *Reader, ip net.IP) gvPos {
	a := gvShort(ip)
	if len(a) == 4 {
		return gvFrom(r, gvV4(r).node, 32, gvKey(a))
	}
	return gvFrom(r, 0, 128, gvKey(a))
}

//gv:contract Reader.lookupPointer
//gv:props C09,C10
func gvLookupPointer(r *Reader, ip net.IP) {
	gv.Requires(gvReader(r) && (len(ip) == 4 || len(ip) == 16 || ip == nil))
	gv.Split(len(ip) == 4)
	gv.Split(ip.To4() != nil)
	h := gvHit(r, ip)
	p, n, a, err := r.lookupPointer(ip)
	gv.Ensures((err == nil) == (ip != nil && !gvRefused(r, ip) && h.node >= r.Metadata.NodeCount))
	gv.Ensures(err == nil || p == 0)
	if err == nil {
		gv.Ensures(n == h.i && gv.SameBytes(a, gvShort(ip)) && 0 <= n && n <= 8*len(a) && (len(a) == 4 || len(a) == 16))
		gv.Ensures(gv.Implies(h.node == r.Metadata.NodeCount, p == 0))
		gv.Ensures(gv.Implies(h.node > r.Metadata.NodeCount, p == h.node))
	}
}

// gvTop is the number with the first n of the bits set.
func gvTop(n, bits int) gv.N {
	return gv.And(gv.Shl(gv.Not(gv.I(0)), bits-n), gv.Shr(gv.Not(gv.I(0)), 128-bits))
}

// gvIsNet says that a network has that length and contains the address.
func gvIsNet(w *net.IPNet, ip net.IP, n int) bool {
	return w != nil && len(w.IP) == len(ip) && len(w.Mask) == len(ip) && gv.Nat(w.Mask) == gvTop(n, 8*len(ip)) && gv.Nat(w.IP) == gv.And(gv.Nat(ip), gv.Nat(w.Mask))
}

//gv:contract Reader.cidr
//gv:props C09,C11
func gvCidr(r *Reader, ip net.IP, prefixLength int) {
	gv.Requires(gvReader(r) && (len(ip) == 4 || len(ip) == 16) && 0 <= prefixLength && prefixLength <= 8*len(ip))
	gv.Cases(len(ip), 4, 16)
	gvEnd(r.buffer, r.nodeOffsetMult, r.Metadata.NodeCount, 0, 0, 96, gv.I(0))
	w := r.cidr(ip, prefixLength)
	gv.Ensures(gv.Fresh(w))
	if len(ip) == 4 && r.Metadata.IPVersion == 6 && r.ipv4StartBitDepth != 96 {
		// one network above all IPv4 addresses
		gv.Ensures(w != nil && len(w.IP) == 16 && gv.Nat(w.IP) == gv.I(0) && len(w.Mask) == 16 && gv.Nat(w.Mask) == gvTop(r.ipv4StartBitDepth, 128))
	} else {
		gv.Ensures(gvIsNet(w, ip, prefixLength))
	}
}

//gv:contract Reader.resolveDataPointer
//gv:props C09,C10
func gvResolve(r *Reader, pointer uint) {
	gv.Requires(gvTree(r) && pointer <= 1<<32)
	o, err := r.resolveDataPointer(pointer)
	gv.Ensures((err == nil) == (pointer >= r.Metadata.NodeCount+16 && pointer-r.Metadata.NodeCount-16 < uint(len(r.buffer))))
	gv.Ensures(err != nil || uint(o) == pointer-r.Metadata.NodeCount-16)
}

//gv:contract Metadata.IpType
//gv:props C09,C19
func gvMetaIpType(m *Metadata) {
	gv.Requires(m != nil)
	t := m.IpType()
	gv.Ensures((t&1 != 0) == (m.IPVersion != 6) && (t&2 != 0) == (m.IPVersion != 4) && t >= 1 && t <= 3)
}

//gv:contract Reader.version
//gv:props C09,C19
func gvVersion(r *Reader) {
	gv.Requires(r != nil)
	v := r.version()
	gv.Ensures(v != nil && gv.Fresh(v) && v.IpType == r.Metadata.IpType() && v.Count == uint32(r.Metadata.NodeCount) && v.Build == int64(r.Metadata.BuildEpoch))
	gv.Ensures(v.Version == "ipplus360"+r.Metadata.DatabaseType && gv.Same(v.Languages, r.Metadata.Languages) && v.ExtraInfo == nil)
}
