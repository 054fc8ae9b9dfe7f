package awdb

import (
	gv "github.com/qiniu/uip/verifgv"
)

// gvNum is the number in bytes lo..hi, big endian, with a number before it.
//
//gv:spec rec
func gvNum(prefix uint64, b []byte, lo, hi int) uint64 {
	if hi <= lo {
		return prefix
	}
	return gvNum(prefix, b, lo, hi-1)<<8 | uint64(b[hi-1])
}

// gvCtl is what the control bytes of a value say.
type gvCtl struct {
	typ        int
	size, next uint
	ok         bool
}

// gvCtrl reads the control bytes at an offset: three bits of type (0: the next byte holds the type less 7) and five
// of size (29, 30, 31: one, two or three more bytes hold the size less 29, 285 or 65821; pointers too).
func gvCtrl(b []byte, off uint) gvCtl {
	n := uint(len(b))
	if off >= n {
		return gvCtl{}
	}
	t, s, p := int(b[off]>>5), uint(b[off]%32), off+1
	if t == 0 {
		if p >= n {
			return gvCtl{}
		}
		t = int(b[p]) + 7
		p++
	}
	switch s {
	case 29:
		if p+1 > n {
			return gvCtl{}
		}
		return gvCtl{t, 29 + uint(b[p]), p + 1, true}
	case 30:
		if p+2 > n {
			return gvCtl{}
		}
		return gvCtl{t, 285 + uint(b[p])<<8 + uint(b[p+1]), p + 2, true}
	case 31:
		if p+3 > n {
			return gvCtl{}
		}
		return gvCtl{t, 65821 + uint(b[p])<<16 + uint(b[p+1])<<8 + uint(b[p+2]), p + 3, true}
	}
	return gvCtl{t, s, p, true}
}

//gv:contract uintFromBytes
//gv:props C10
func gvUintFromBytes(prefix uint, bs []byte) {
	gv.Requires(len(bs) <= 4 && prefix < 8)
	r := uintFromBytes(prefix, bs)
	gv.Ensures(r == uint(gvNum(uint64(prefix), bs, 0, len(bs))))
}

//gv:inv uintFromBytes
func gvUintFromBytesLoop(prefix uint, uintBytes []byte, val uint, rangeindex int) {
	gv.Inv(val == uint(gvNum(uint64(prefix), uintBytes, 0, rangeindex+1)))
}

//gv:contract decoder.decodeCtrlData
//gv:props C10
//gv:inline decoder.sizeFromCtrlByte
//gv:opt fuel 5
func gvDecodeCtrl(d *decoder, offset uint) {
	gv.Requires(d != nil)
	t, size, next, err := d.decodeCtrlData(offset)
	c := gvCtrl(d.buffer, offset)
	gv.Ensures((err == nil) == c.ok)
	if err == nil {
		gv.Ensures(int(t) == c.typ && size == c.size && next == c.next)
		gv.Ensures(next > offset && next <= uint(len(d.buffer)) && size <= 65821+1<<24 && t > 0)
	}
}

// gvPointer is where a pointer leads: one to four bytes, the first three forms with three more bits before them
// and offsets of 0, 2048 and 526336.
func gvPointer(b []byte, size, off uint) uint {
	switch size >> 3 & 3 {
	case 0:
		return size&7<<8 + uint(b[off])
	case 1:
		return 2048 + size&7<<16 + uint(b[off])<<8 + uint(b[off+1])
	case 2:
		return 526336 + size&7<<24 + uint(b[off])<<16 + uint(b[off+1])<<8 + uint(b[off+2])
	}
	return uint(b[off])<<24 + uint(b[off+1])<<16 + uint(b[off+2])<<8 + uint(b[off+3])
}

func gvPointerEnd(size, off uint) uint { return off + size>>3&3 + 1 }

//gv:contract decoder.decodePointer
//gv:props C10
//gv:opt fuel 6
func gvDecodePointer(d *decoder, size, offset uint) {
	gv.Requires(d != nil && offset <= uint(len(d.buffer)))
	p, next, err := d.decodePointer(size, offset)
	gv.Ensures((err == nil) == (gvPointerEnd(size, offset) <= uint(len(d.buffer))))
	if err == nil {
		gv.Ensures(next == gvPointerEnd(size, offset) && p == gvPointer(d.buffer, size, offset))
	}
}

// gvStr is where the text of a key lies, ok if there is one, and where the key ends.
type gvStr struct {
	lo, hi, next uint
	ok           bool
}

// gvKeyAt finds the text of a key, behind at most as many pointers as values may be nested.
//
//gv:spec rec
func gvKeyAt(b []byte, off uint, depth int) gvStr {
	c := gvCtrl(b, off)
	if depth > maximumDataStructureDepth || !c.ok {
		return gvStr{}
	}
	if c.typ == 1 {
		if gvPointerEnd(c.size, c.next) > uint(len(b)) {
			return gvStr{}
		}
		k := gvKeyAt(b, gvPointer(b, c.size, c.next), depth+1)
		if !k.ok {
			return gvStr{}
		}
		return gvStr{k.lo, k.hi, gvPointerEnd(c.size, c.next), true}
	}
	if c.typ != 2 || c.next+c.size > uint(len(b)) {
		return gvStr{}
	}
	return gvStr{c.next, c.next + c.size, c.next + c.size, true}
}

//gv:contract decoder.decodeKey
//gv:props C10
func gvDecodeKey(d *decoder, offset uint, depth int) {
	gv.Requires(d != nil && 0 <= depth && depth <= maximumDataStructureDepth+1)
	gv.Decreases(maximumDataStructureDepth + 1 - depth)
	key, next, err := d.decodeKey(offset, depth)
	k := gvKeyAt(d.buffer, offset, depth)
	gv.Ensures((err == nil) == k.ok)
	if err == nil {
		gv.Ensures(next == k.next && next > offset && next <= uint(len(d.buffer)) && k.lo <= k.hi && k.hi <= uint(len(d.buffer)))
		gv.Ensures(gv.Same(key, d.buffer[k.lo:k.hi]))
	}
}

// gvPast is an offset, if there is one.
type gvPast struct {
	off uint
	ok  bool
}

// gvOver is the offset past the value at an offset without its elements, and how many these are.
func gvOver(b []byte, off uint) (gvPast, uint) {
	c := gvCtrl(b, off)
	if !c.ok {
		return gvPast{}, 0
	}
	end, elems := c.next, uint(0)
	switch c.typ {
	case 1:
		end = gvPointerEnd(c.size, c.next)
	case 7:
		elems = 2 * c.size
	case 11:
		elems = c.size
	case 14:
	default:
		end += c.size
	}
	if end > uint(len(b)) {
		return gvPast{}, 0
	}
	return gvPast{end, true}, elems
}

// gvSkip is the offset past n values.
//
//gv:spec rec
func gvSkip(b []byte, off, n uint) gvPast {
	if n == 0 {
		return gvPast{off, true}
	}
	p, k := gvOver(b, off)
	if !p.ok {
		return gvPast{}
	}
	return gvSkip(b, p.off, n+k-1)
}

//gv:contract decoder.nextValueOffset
//gv:props C10
func gvNextValueOffset(d *decoder, offset, n uint) {
	gv.Requires(d != nil && offset <= uint(len(d.buffer)))
	next, err := d.nextValueOffset(offset, n)
	gv.Ensures(gvSkip(d.buffer, offset, n).ok == (err == nil))
	if err == nil {
		gv.Ensures(gvSkip(d.buffer, offset, n).off == next && next >= offset && next <= uint(len(d.buffer)))
	}
}

//gv:inv decoder.nextValueOffset
func gvNextValueOffsetLoop(d *decoder, offset, numberToSkip, offset0, numberToSkip0 uint) {
	gv.Inv(offset >= offset0 && offset <= uint(len(d.buffer)))
	gv.Inv(gvSkip(d.buffer, offset, numberToSkip) == gvSkip(d.buffer, offset0, numberToSkip0))
	gv.Decreases(len(d.buffer) - int(offset))
}

// gvInside says that a value's bytes are inside the section.
func gvInside(d *decoder, size, offset uint) bool {
	return d != nil && offset <= uint(len(d.buffer)) && size <= uint(len(d.buffer))-offset
}

//gv:contract decoder.decodeUint
//gv:props C10
func gvDecodeUint(d *decoder, size, offset uint) {
	gv.Requires(gvInside(d, size, offset) && size <= 8)
	v, next := d.decodeUint(size, offset)
	gv.Ensures(next == offset+size && v == gvNum(0, d.buffer[offset:offset+size], 0, int(size)))
}

//gv:inv decoder.decodeUint
func gvDecodeUintLoop(bytes []byte, val uint64, rangeindex int) {
	gv.Inv(val == gvNum(0, bytes, 0, rangeindex+1))
}

//gv:contract decoder.decodeInt
//gv:props C10
func gvDecodeInt(d *decoder, size, offset uint) {
	gv.Requires(gvInside(d, size, offset) && size <= 4)
	v, next := d.decodeInt(size, offset)
	gv.Ensures(next == offset+size && v == int(int32(gvNum(0, d.buffer[offset:offset+size], 0, int(size)))))
}

//gv:inv decoder.decodeInt
func gvDecodeIntLoop(d *decoder, size, offset uint, val int32, rangeindex int) {
	gv.Inv(val == int32(gvNum(0, d.buffer[offset:offset+size], 0, rangeindex+1)))
}

//gv:contract decoder.decodeString
//gv:props C10
func gvDecodeString(d *decoder, size, offset uint) {
	gv.Requires(gvInside(d, size, offset))
	v, next := d.decodeString(size, offset)
	gv.Ensures(next == offset+size && v == string(d.buffer[offset:offset+size]))
}

//gv:contract decoder.decodeBytes
//gv:props C10
func gvDecodeBytes(d *decoder, size, offset uint) {
	gv.Requires(gvInside(d, size, offset))
	v, next := d.decodeBytes(size, offset)
	gv.Ensures(next == offset+size && gv.Fresh(v) && gv.SameBytes(v, d.buffer[offset:offset+size]))
}

//gv:contract decoder.decodeBool
//gv:props C10
func gvDecodeBool(d *decoder, size, offset uint) {
	gv.Requires(d != nil)
	v, next := d.decodeBool(size, offset)
	gv.Ensures(next == offset && v == (size != 0))
}
