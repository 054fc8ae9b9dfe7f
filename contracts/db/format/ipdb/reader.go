package ipdb

import (
	"net"

	gv "github.com/qiniu/uip/verifgv"
	"github.com/qiniu/uip/verifgv/std"
)

// gvKey is an address, or the front part of one, as 128 bits from the top.
func gvKey(ip []byte) gv.N { return gv.Shl(gv.Nat(ip), 128-8*len(ip)) }

// gvBit is bit i of a key, counted from the top.
func gvBit(key gv.N, i int) int { return int(gv.Low(gv.And(gv.Shr(key, 127-i), gv.U(1)))) }

// gvEntry is the entry of a node for a bit: four bytes, big endian.
func gvEntry(data []byte, node, bit int) int {
	o := node*8 + bit*4
	return int(data[o])<<24 | int(data[o+1])<<16 | int(data[o+2])<<8 | int(data[o+3])
}

// gvPos is a place in the tree: an entry, and the number of bits that lead to it.
type gvPos struct{ node, i int }

// gvWalk follows the tree one bit at a time from a node, until it leaves the nodes or the bits are used up.
//
//gv:spec rec
func gvWalk(data []byte, count, node, i, depth int, key gv.N) gvPos {
	if i >= depth || node >= count {
		return gvPos{node, i}
	}
	return gvWalk(data, count, gvEntry(data, node, gvBit(key, i)), i+1, depth, key)
}

// gvMappedKey is the key of the IPv4-mapped prefix ::ffff:0:0/96.
func gvMappedKey() gv.N { return gv.Shl(gv.U(0xffff), 32) }

// gvV4 is the entry at which the IPv4 subtree begins.
func gvV4(data []byte, count int) int { return gvWalk(data, count, 0, 0, 96, gvMappedKey()).node }

// gvTree says that the nodes lie inside the data.
func gvTree(db *reader) bool {
	return db != nil && db.nodeCount >= 0 && db.nodeCount <= len(db.data)/8
}

// gvCached is what the table holds for a 14-bit prefix.
func gvCached(db *reader, i int) uint {
	w := gvWalk(db.data, db.nodeCount, db.v4offset, 0, cacheDepth, gv.Shl(gv.I(i), 114))
	return uint(w.node)<<iOff | uint(w.i)
}

// gvReader is what holds of an opened database.
func gvReader(db *reader) bool {
	return gvTree(db) && gvCont(db) && db.v4offset >= 0 && db.v4offset <= 1<<32 &&
		gv.Implies(db.HasIPv4(), db.v4offset == gvV4(db.data, db.nodeCount)) && gvTable(db)
}

// gvTable says that the table, if there is one, holds what the descent finds.
func gvTable(db *reader) bool {
	return db.ipV4BitsCache == nil || len(db.ipV4BitsCache) == 1<<cacheDepth &&
		gv.Forall(0, 1<<cacheDepth, func(i int) bool { return db.ipV4BitsCache[i] == gvCached(db, i) })
}

// gvCont says that the offset of the continent is one of the first column of that name.
func gvCont(db *reader) bool {
	return db.continentOffset >= -1 && db.continentOffset < len(db.meta.Fields) && len(db.meta.Fields) > 0
}

//gv:contract reader.readNode
//gv:props C05,C07
func gvReadNode(db *reader, node, indexBit int) {
	gv.Requires(gvTree(db) && 0 <= node && node < db.nodeCount && (indexBit == 0 || indexBit == 1))
	r := db.readNode(node, indexBit)
	gv.Ensures(r == gvEntry(db.data, node, indexBit))
	gv.Ensures(r >= 0 && r < 1<<32)
}

//gv:contract reader.readDepth
//gv:props C05,C07
func gvReadDepth(db *reader, node, depth, i int, ip []byte) {
	gv.Requires(gvTree(db) && node >= 0 && node <= 1<<32 && i >= 0 && i <= depth && depth <= 8*len(ip))
	gv.Requires(len(ip) == 2 || len(ip) == 4 || len(ip) == 16)
	gv.Cases(len(ip), 2, 4, 16)
	n, j := db.readDepth(node, depth, i, ip)
	gv.Ensures(gvPos{n, j} == gvWalk(db.data, db.nodeCount, node, i, depth, gvKey(ip)))
	gv.Ensures(n >= 0 && n <= 1<<32 && i <= j && j <= depth && (n >= db.nodeCount || j == depth))
}

//gv:inv reader.readDepth
func gvReadDepthLoop(db *reader, node, depth, i int, ip []byte, node0, i0 int) {
	gv.Inv(node >= 0 && node <= 1<<32 && i0 <= i && i <= depth)
	gv.Inv(gvWalk(db.data, db.nodeCount, node, i, depth, gvKey(ip)) == gvWalk(db.data, db.nodeCount, node0, i0, depth, gvKey(ip)))
	gv.Decreases(depth - i)
}

//gv:contract indexToBytes
//gv:props C05
func gvIndexToBytes(i int) {
	gv.Requires(0 <= i && i < 1<<cacheDepth)
	r := indexToBytes(i)
	gv.Ensures(len(r) == 2 && gvKey(r) == gv.Shl(gv.I(i), 114) && gv.Fresh(r))
}

//gv:contract bytesToIndex
//gv:props C05
func gvBytesToIndex(b []byte) {
	gv.Requires(len(b) == 4)
	r := bytesToIndex(b)
	gv.Ensures(r >= 0 && r < 1<<cacheDepth && gv.I(r) == gv.Shr(gvKey(b), 114))
}

// gvSteps says that the first 14 steps and the rest of the descent are the whole of it.
//
//gv:lemma
func gvSteps(data []byte, count, node, i, mid, depth int, key, key2 gv.N) {
	gv.Requires(count >= 0 && count <= len(data)/8 && node >= 0 && node <= 1<<32 && 0 <= i && i <= mid && mid <= depth && depth <= 128 && mid <= 14)
	gv.Requires(gv.Shr(key, 114) == gv.Shr(key2, 114))
	gv.Decreases(mid - i)
	if i < mid && node < count {
		gvSteps(data, count, gvEntry(data, node, gvBit(key, i)), i+1, mid, depth, key, key2)
	}
	w := gvWalk(data, count, node, i, mid, key2)
	gv.Ensures(gvWalk(data, count, node, i, depth, key) == gvWalk(data, count, w.node, w.i, depth, key))
	gv.Ensures(w.node >= 0 && w.node <= 1<<32 && i <= w.i && w.i <= mid && (w.i == mid || w.node >= count))
}

// gvEnd bounds the place where a descent ends.
//
//gv:lemma
func gvEnd(data []byte, count, node, i, depth int, key gv.N) {
	gv.Requires(count >= 0 && count <= len(data)/8 && node >= 0 && node <= 1<<32 && 0 <= i && i <= depth && depth <= 128)
	gv.Decreases(depth - i)
	if i < depth && node < count {
		gvEnd(data, count, gvEntry(data, node, gvBit(key, i)), i+1, depth, key)
	}
	w := gvWalk(data, count, node, i, depth, key)
	gv.Ensures(w.node >= 0 && w.node <= 1<<32 && i <= w.i && w.i <= depth && (w.i == depth || w.node >= count))
}

//gv:contract reader.setCache
//gv:props C05
func gvSetCache(db *reader, i int) {
	gv.Requires(gvTree(db) && 0 <= i && i < 1<<cacheDepth && len(db.ipV4BitsCache) == 1<<cacheDepth && db.v4offset >= 0 && db.v4offset <= 1<<32)
	gv.Modifies(db.ipV4BitsCache)
	old := append([]uint{}, db.ipV4BitsCache...)
	db.setCache(i)
	gv.Ensures(db.ipV4BitsCache[i] == gvCached(db, i))
	gv.Ensures(gv.Forall(0, 1<<cacheDepth, func(k int) bool { return k == i || db.ipV4BitsCache[k] == old[k] }))
}

//gv:contract reader.initBitsCache
//gv:props C05
func gvInitBitsCache(db *reader) {
	gv.Requires(gvTree(db) && db.v4offset >= 0 && db.v4offset <= 1<<32)
	gv.Modifies(&db.ipV4BitsCache)
	db.initBitsCache()
	gv.Ensures(db.ipV4BitsCache != nil && gvTable(db) && gv.Fresh(db.ipV4BitsCache))
}

//gv:inv reader.initBitsCache
func gvInitBitsCacheLoop(db *reader, i int) {
	gv.Inv(gvTree(db) && db.v4offset >= 0 && db.v4offset <= 1<<32 && 0 <= i && i <= 1<<cacheDepth && len(db.ipV4BitsCache) == 1<<cacheDepth && db.ipV4BitsCache != nil)
	gv.Inv(gv.Forall(0, i, func(k int) bool { return db.ipV4BitsCache[k] == gvCached(db, k) }))
	gv.Decreases(1<<cacheDepth - i)
}

// gvStart is the entry at which the descent of an address begins.
func gvStart(db *reader, bits int) int {
	if bits == 32 {
		return db.v4offset
	}
	return 0
}

//gv:contract reader.search
//gv:props C05
func gvSearch(db *reader, ip net.IP, bitCount int) {
	gv.Requires(gvReader(db) && (bitCount == 32 || bitCount == 128) && len(ip) == bitCount/8)
	gv.Cases(bitCount, 32, 128)
	key := gvKey(ip)
	w := gvWalk(db.data, db.nodeCount, gvStart(db, bitCount), 0, bitCount, key)
	gvEnd(db.data, db.nodeCount, gvStart(db, bitCount), 0, bitCount, key)
	gvSteps(db.data, db.nodeCount, db.v4offset, 0, 14, 32, key, gv.Shl(gv.Shr(key, 114), 114))
	node, mask, err := db.search(ip, bitCount)
	gv.Ensures((err == nil) == (w.node > db.nodeCount))
	if err == nil {
		gv.Ensures(node == w.node && mask == w.i && mask >= 0 && mask <= bitCount && node <= 1<<32)
	}
}

var _ = std.SplitN

// gvHit says whether an address has a record: where its descent ends.
func gvHit(db *reader, ip net.IP) (int, int, bool) {
	if ip4 := ip.To4(); ip4 != nil {
		if !db.HasIPv4() {
			return 0, 0, false
		}
		w := gvWalk(db.data, db.nodeCount, gvStart(db, 32), 0, 32, gvKey(ip4))
		return w.node, w.i, w.node > db.nodeCount
	}
	if len(ip) != 16 || !db.HasIPv6() {
		return 0, 0, false
	}
	w := gvWalk(db.data, db.nodeCount, 0, 0, 128, gvKey(ip))
	return w.node, w.i, w.node > db.nodeCount
}

// gvRecAt is where the record of an entry begins.
func gvRecAt(db *reader, node int) int { return node - db.nodeCount + db.nodeCount*8 }

// gvRecSize is the length of the record of an entry.
func gvRecSize(db *reader, node int) int {
	return int(db.data[gvRecAt(db, node)])<<8 | int(db.data[gvRecAt(db, node)+1])
}

// gvRecOK says that the record of an entry lies inside the data.
func gvRecOK(db *reader, node int) bool {
	return gvRecAt(db, node)+2 <= len(db.data) && gvRecAt(db, node)+2+gvRecSize(db, node) <= len(db.data)
}

// gvRec is the text of the record of an entry.
func gvRec(db *reader, node int) string {
	return string(db.data[gvRecAt(db, node)+2 : gvRecAt(db, node)+2+gvRecSize(db, node)])
}

// gvContinent is the Chinese name of a continent.
func gvContinent(s string) string {
	switch s {
	case "AS":
		return "亚洲"
	case "EU":
		return "欧洲"
	case "NA":
		return "北美洲"
	case "SA":
		return "南美洲"
	case "AF":
		return "非洲"
	case "OC":
		return "大洋洲"
	case "AN":
		return "南极洲"
	}
	return s
}

// gvCols says that a record has all the columns of a language.
func gvCols(db *reader, rec string, off int) bool {
	return off >= 0 && off <= std.SplitN(rec, "\t")-len(db.meta.Fields)
}

// gvCol is a column of a record for a language.
func gvCol(db *reader, rec string, off, k int) string {
	if k == db.continentOffset {
		return gvContinent(std.SplitAt(rec, "\t", off+k))
	}
	return std.SplitAt(rec, "\t", off+k)
}

//gv:contract reader.resolve
//gv:props C06,C07
func gvResolve(db *reader, node int) {
	gv.Requires(gvTree(db) && node > db.nodeCount && node <= 1<<32)
	body, err := db.resolve(node)
	gv.Ensures((err == nil) == gvRecOK(db, node))
	if err == nil {
		gv.Ensures(string(body) == gvRec(db, node))
		gv.Ensures(gv.Same(body, db.data[gvRecAt(db, node)+2:gvRecAt(db, node)+2+gvRecSize(db, node)]))
	}
}

//gv:contract reader.decodeInfo
//gv:props C06,C07
func gvDecodeInfo(db *reader, body []byte, off int) {
	gv.Requires(db != nil && gvCont(db))
	ret, err := db.decodeInfo(body, off)
	gv.Ensures((err == nil) == gvCols(db, string(body), off))
	if err == nil {
		gv.Ensures(len(ret) == len(db.meta.Fields) && gv.Fresh(ret))
		gv.Ensures(gv.Forall(0, len(ret), func(k int) bool { return ret[k] == gvCol(db, string(body), off, k) }))
	}
}

//gv:contract reader.find0
//gv:props C05,C06,C07
func gvFind0(db *reader, ipv net.IP) {
	gv.Requires(gvReader(db))
	gv.Split(len(ipv) == 4)
	gv.Split(len(ipv) == 16)
	gv.Split(ipv.To4() != nil)
	gv.Split(db.HasIPv4())
	n, i, hit := gvHit(db, ipv)
	node, body, mask, err := db.find0(ipv)
	gv.Ensures((err == nil) == (hit && gvRecOK(db, n)))
	if err == nil {
		gv.Ensures(node == n && mask == i && string(body) == gvRec(db, n))
		gv.Ensures(mask >= 0 && (mask <= 32 || ipv.To4() == nil && mask <= 128) && node > db.nodeCount && node <= 1<<32)
	}
}

//gv:contract reader.find1
//gv:props C06,C07
func gvFind1(db *reader, addr net.IP, language string) {
	gv.Requires(gvReader(db))
	n, i, hit := gvHit(db, addr)
	off, lang := db.meta.Languages[language]
	ret, mask, err := db.find1(addr, language)
	gv.Ensures((err == nil) == (lang && hit && gvRecOK(db, n) && gvCols(db, gvRec(db, n), off)))
	if err == nil {
		gv.Ensures(mask == i && mask >= 0 && (mask <= 32 || addr.To4() == nil && mask <= 128))
		gv.Ensures(len(ret) == len(db.meta.Fields))
		gv.Ensures(gv.Forall(0, len(ret), func(k int) bool { return ret[k] == gvCol(db, gvRec(db, n), off, k) }))
	}
}

// gvLast is the last of the first n columns that has a name, or -1.
//
//gv:spec rec
func gvLast(fields []string, n int, name string) int {
	if n <= 0 {
		return -1
	}
	if fields[n-1] == name {
		return n - 1
	}
	return gvLast(fields, n-1, name)
}

//gv:contract reader.findMap
//gv:props C05,C06,C07,C11
func gvFindMap(db *reader, addr net.IP, language string) {
	gv.Requires(gvReader(db))
	n, i, hit := gvHit(db, addr)
	off, lang := db.meta.Languages[language]
	w, m, err := db.findMap(addr, language)
	gv.Ensures((err == nil) == (lang && hit && gvRecOK(db, n) && gvCols(db, gvRec(db, n), off)))
	if err == nil {
		gv.Ensures(gv.Fresh(m) && gv.Fresh(w) && w != nil && m != nil)
		gv.Ensures(gv.Forall(0, len(db.meta.Fields), func(k int) bool {
			v, ok := m[db.meta.Fields[k]]
			return ok && v == gvCol(db, gvRec(db, n), off, gvLast(db.meta.Fields, len(db.meta.Fields), db.meta.Fields[k]))
		}))
		gv.Ensures(gv.ForallKey(m, func(k string) bool { return gvLast(db.meta.Fields, len(db.meta.Fields), k) >= 0 }))
		a := addr.To4()
		if a == nil {
			a = addr
		}
		gv.Ensures(len(w.IP) == len(a) && len(w.Mask) == len(a))
		gv.Ensures(gv.Nat(w.Mask) == gv.And(gv.Shl(gv.Not(gv.I(0)), 8*len(a)-i), gv.Shr(gv.Not(gv.I(0)), 128-8*len(a))))
		gv.Ensures(gv.Nat(w.IP) == gv.And(gv.Nat(a), gv.Nat(w.Mask)))
	}
}

//gv:inv reader.findMap
func gvFindMapLoop(db *reader, m map[string]string, i int, ret []string) {
	gv.Inv(m != nil && i >= 0 && i <= len(db.meta.Fields) && len(ret) == len(db.meta.Fields))
	gv.Inv(gv.ForallKey(m, func(k string) bool {
		c := gvLast(db.meta.Fields, i, k)
		return c >= 0 && c < i && m[k] == ret[c]
	}))
	gv.Inv(gv.Forall(0, i, func(j int) bool { _, ok := m[db.meta.Fields[j]]; return ok }))
}

//gv:contract reader.version
//gv:props C07,C19
func gvVersion(db *reader) {
	gv.Requires(db != nil)
	v := db.version()
	gv.Ensures(v != nil && gv.Fresh(v))
	gv.Ensures(v.IpType == db.meta.IpType() && v.Count == uint32(db.meta.NodeCount) && v.Build == db.meta.Build)
	gv.Ensures(gv.Same(v.ExtraInfo, db.meta.Extra))
	gv.Ensures(gv.Implies(db.meta.Version != "", v.Version == db.meta.Version))
	gv.Ensures(v.Version != "")
	gv.Ensures(gv.Forall(0, len(v.Languages), func(i int) bool { _, ok := db.meta.Languages[v.Languages[i]]; return ok }))
}

//gv:inv reader.Languages
func gvLanguagesLoop(db *reader, ls []string) {
	gv.Inv(gv.Forall(0, len(ls), func(i int) bool { _, ok := db.meta.Languages[ls[i]]; return ok }))
}

//gv:contract newReaderFromBytes
//gv:props C05,C06,C07
func gvNewReader(data []byte) {
	db, err := newReaderFromBytes(data)
	gv.Ensures((db != nil) == (err == nil))
	if err == nil {
		gv.Ensures(gv.Fresh(db) && gvReader(db))
		m := int(data[0])<<24 | int(data[1])<<16 | int(data[2])<<8 | int(data[3])
		gv.Ensures(len(data) >= 4+m && gv.Same(db.data, data[4+m:]))
		gv.Ensures(db.nodeCount == db.meta.NodeCount)
		gv.Ensures(db.continentOffset < 0 || db.meta.Fields[db.continentOffset] == FieldContinentCode)
		c := len(db.meta.Fields)
		if db.continentOffset >= 0 {
			c = db.continentOffset
		}
		gv.Ensures(gv.Forall(0, c, func(i int) bool { return db.meta.Fields[i] != FieldContinentCode }))
	}
}

//gv:inv newReaderFromBytes 0
func gvNewReaderLoop0(db *reader, i int) {
	gv.Inv(0 <= i && i <= len(db.meta.Fields) && db.continentOffset == -1)
	gv.Inv(gv.Forall(0, i, func(j int) bool { return db.meta.Fields[j] != FieldContinentCode }))
}

//gv:inv newReaderFromBytes 1
func gvNewReaderLoop1(db *reader, i, node int) {
	gv.Inv(gvTree(db) && 0 <= i && i <= 96 && node >= 0 && node <= 1<<32)
	gv.Inv(gvWalk(db.data, db.nodeCount, node, i, 96, gvMappedKey()) == gvWalk(db.data, db.nodeCount, 0, 0, 96, gvMappedKey()))
	gv.Decreases(96 - i)
}
