package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type inFn func(x *Engine, fr *Frame, st *State, args []Val, site ssa.Instruction) (*State, Val)

var intrinsics map[string]inFn

// freshError is a new non-nil error of no known concrete type
func (x *Engine) freshError(st *State) Val {
	t := x.errType()
	ref := x.allocObj(st, t)
	r := x.elemRegions(t)[0]
	m := x.symTerm("errmsg", StrS)
	st.heap[r.key] = &HNode{kind: HWrite, reg: r, prev: x.node(st.heap, r), ref: ref, idx: x.ts.Int(0), val: m}
	return x.box(st, PtrV{ref: ref, idx: x.ts.Int(0), elem: t}, types.NewPointer(t))
}

func (x *Engine) errType() types.Type {
	return x.P.spkgs["errors"].Type("errorString").Type()
}

func (x *Engine) boolChain(w int, t *Term, f func(k int) *Term) *Term {
	// f applied at the index of the highest set bit + 1
	ts := x.ts
	r := f(0)
	for i := 0; i < w; i++ {
		r = ts.Ite(ts.Eq(ts.Extract(t, i, i), ts.C(1, 1)), f(i+1), r)
	}
	return r
}

func (x *Engine) trailing(w int, t *Term) *Term {
	ts := x.ts
	r := ts.Int(int64(w))
	for i := w - 1; i >= 0; i-- {
		r = ts.Ite(ts.Eq(ts.Extract(t, i, i), ts.C(1, 1)), ts.Int(int64(i)), r)
	}
	return r
}

// bytes of a slice of known length as one vector
func (x *Engine) vec(st *State, s SliceV, n int64) *Term {
	r := x.node(st.heap, x.region("uint8", BV(64), BV(8)))
	ts := x.ts
	v := x.read(r, s.ref, s.off)
	for i := int64(1); i < n; i++ {
		v = ts.Concat(v, x.read(r, s.ref, ts.Add(s.off, ts.Int(i))))
	}
	return x.simp(st.pc, v)
}

func (x *Engine) bytesCmp(st *State, a, b SliceV) (lt, eq *Term) {
	ts := x.ts
	a, b = x.simpVal(st.pc, a).(SliceV), x.simpVal(st.pc, b).(SliceV)
	if a.len.isC() && b.len.isC() && a.len.i64() <= 64 && b.len.i64() <= 64 {
		na, nb := a.len.i64(), b.len.i64()
		n := na
		if nb < n {
			n = nb
		}
		if n == 0 {
			return ts.Bool(na < nb), ts.Bool(na == nb)
		}
		va, vb := x.vec(st, a, n), x.vec(st, b, n)
		e := ts.Eq(va, vb)
		lt = ts.ULt(va, vb)
		if na < nb {
			lt = ts.Or(lt, e)
		}
		return lt, ts.And(e, ts.Bool(na == nb))
	}
	// alternatives of length
	if alts := lenAlts(a.len); alts != nil && a.len.op == OIte {
		c := a.len.args[0]
		a1, a2 := a, a
		a1.len, a2.len = a.len.args[1], a.len.args[2]
		l1, e1 := x.bytesCmp(st, a1, b)
		l2, e2 := x.bytesCmp(st, a2, b)
		return ts.Ite(c, l1, l2), ts.Ite(c, e1, e2)
	}
	if alts := lenAlts(b.len); alts != nil && b.len.op == OIte {
		c := b.len.args[0]
		b1, b2 := b, b
		b1.len, b2.len = b.len.args[1], b.len.args[2]
		l1, e1 := x.bytesCmp(st, a, b1)
		l2, e2 := x.bytesCmp(st, a, b2)
		return ts.Ite(c, l1, l2), ts.Ite(c, e1, e2)
	}
	// addresses: the only lengths of interest are 0, 4 and 16
	if !a.len.isC() || !b.len.isC() {
		r := x.region("uint8", BV(64), BV(8))
		n := x.node(st.heap, r)
		sa, sb := ts.StrOf(x.snap(n, a.ref), a.off, a.len), ts.StrOf(x.snap(n, b.ref), b.off, b.len)
		small := func(s SliceV, f func(SliceV) (*Term, *Term)) (*Term, *Term) {
			l, e := ts.UF("strlt", BoolS, 0, sa, sb), ts.UF("bytesEq", BoolS, 0, sa, sb)
			for _, k := range []int64{0, 4, 16} {
				s.len = ts.Int(k)
				l1, e1 := f(s)
				c := ts.Eq(lenOf(s, a, b), s.len)
				l, e = ts.Ite(c, l1, l), ts.Ite(c, e1, e)
			}
			return l, e
		}
		if !a.len.isC() {
			al := a.len
			l, e := ts.UF("strlt", BoolS, 0, sa, sb), ts.UF("bytesEq", BoolS, 0, sa, sb)
			for _, k := range []int64{0, 4, 16} {
				c := x.simp(st.pc, ts.Eq(al, ts.Int(k)))
				if c.isFalse() {
					continue
				}
				a2 := a
				a2.len = ts.Int(k)
				l1, e1 := x.bytesCmp(st, a2, b)
				l, e = ts.Ite(c, l1, l), ts.Ite(c, e1, e)
			}
			return l, e
		}
		_ = small
		bl := b.len
		l, e := ts.UF("strlt", BoolS, 0, sa, sb), ts.UF("bytesEq", BoolS, 0, sa, sb)
		for _, k := range []int64{0, 4, 16} {
			c := x.simp(st.pc, ts.Eq(bl, ts.Int(k)))
			if c.isFalse() {
				continue
			}
			b2 := b
			b2.len = ts.Int(k)
			if !a.len.isC() {
				continue
			}
			l1, e1 := x.bytesCmp(st, a, b2)
			l, e = ts.Ite(c, l1, l), ts.Ite(c, e1, e)
		}
		return l, e
	}
	panic(Unsupported("comparison of long byte strings"))
}

func lenOf(s, a, b SliceV) *Term {
	if s.ref == a.ref {
		return a.len
	}
	return b.len
}

func lenAlts(t *Term) []*Term {
	if !isIteLits(t) {
		return nil
	}
	return []*Term{t}
}

func init() {
	noop := func(x *Engine, fr *Frame, st *State, args []Val, site ssa.Instruction) (*State, Val) { return st, nil }
	newErr := func(x *Engine, fr *Frame, st *State, args []Val, site ssa.Instruction) (*State, Val) {
		return st, x.freshError(st)
	}
	lenN := func(w int) inFn {
		return func(x *Engine, fr *Frame, st *State, args []Val, site ssa.Instruction) (*State, Val) {
			return st, x.boolChain(w, args[0].(*Term), func(k int) *Term { return x.ts.Int(int64(k)) })
		}
	}
	lzN := func(w int) inFn {
		return func(x *Engine, fr *Frame, st *State, args []Val, site ssa.Instruction) (*State, Val) {
			return st, x.boolChain(w, args[0].(*Term), func(k int) *Term { return x.ts.Int(int64(w - k)) })
		}
	}
	tzN := func(w int) inFn {
		return func(x *Engine, fr *Frame, st *State, args []Val, site ssa.Instruction) (*State, Val) {
			return st, x.trailing(w, args[0].(*Term))
		}
	}
	intrinsics = map[string]inFn{
		"fmt.Errorf": newErr,
		"fmt.Sprintf": func(x *Engine, fr *Frame, st *State, a []Val, site ssa.Instruction) (*State, Val) {
			t := x.symTerm("sprintf", StrS)
			x.wfStr(t)
			return st, t
		},
		"log.Printf":                noop,
		"log.Println":               noop,
		"log.Print":                 noop,
		"fmt.Println":               noop,
		"(*sync.Mutex).Lock":        noop,
		"(*sync.Mutex).Unlock":      noop,
		"(*sync.RWMutex).Lock":      noop,
		"(*sync.RWMutex).Unlock":    noop,
		"(*sync.RWMutex).RLock":     noop,
		"(*sync.RWMutex).RUnlock":   noop,
		"math/bits.Len8":            lenN(8),
		"math/bits.Len16":           lenN(16),
		"math/bits.Len32":           lenN(32),
		"math/bits.Len64":           lenN(64),
		"math/bits.Len":             lenN(64),
		"math/bits.LeadingZeros8":   lzN(8),
		"math/bits.LeadingZeros16":  lzN(16),
		"math/bits.LeadingZeros32":  lzN(32),
		"math/bits.LeadingZeros64":  lzN(64),
		"math/bits.LeadingZeros":    lzN(64),
		"math/bits.TrailingZeros8":  tzN(8),
		"math/bits.TrailingZeros16": tzN(16),
		"math/bits.TrailingZeros32": tzN(32),
		"math/bits.TrailingZeros64": tzN(64),
		"math/bits.TrailingZeros":   tzN(64),
		"bytes.Equal": func(x *Engine, fr *Frame, st *State, args []Val, site ssa.Instruction) (*State, Val) {
			_, e := x.bytesCmp(st, args[0].(SliceV), args[1].(SliceV))
			return st, e
		},
		"internal/bytealg.Equal": func(x *Engine, fr *Frame, st *State, args []Val, site ssa.Instruction) (*State, Val) {
			_, e := x.bytesCmp(st, args[0].(SliceV), args[1].(SliceV))
			return st, e
		},
		"bytes.Compare": func(x *Engine, fr *Frame, st *State, args []Val, site ssa.Instruction) (*State, Val) {
			l, e := x.bytesCmp(st, args[0].(SliceV), args[1].(SliceV))
			return st, x.ts.Ite(e, x.ts.Int(0), x.ts.Ite(l, x.ts.Int(-1), x.ts.Int(1)))
		},
	}
}
