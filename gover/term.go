package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---- sorts ----

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KRef
	KStr
	KArr
)

type Sort struct {
	K         Kind
	W         int
	Idx, Elem *Sort
	name      string
}

var (
	BoolS  = &Sort{K: KBool, name: "Bool"}
	RefS   = &Sort{K: KRef, name: "Ref"}
	StrS   = &Sort{K: KStr, name: "Str"}
	bvS    [513]*Sort
	arrS   = map[[2]*Sort]*Sort{}
	arrSMu = make(chan struct{}, 1)
)

func init() {
	for i := 1; i < len(bvS); i++ {
		bvS[i] = &Sort{K: KBV, W: i, name: fmt.Sprintf("(_ BitVec %d)", i)}
	}
}

func BV(n int) *Sort { return bvS[n] }

func ArrS(idx, elem *Sort) *Sort {
	arrSMu <- struct{}{}
	defer func() { <-arrSMu }()
	k := [2]*Sort{idx, elem}
	if s, ok := arrS[k]; ok {
		return s
	}
	s := &Sort{K: KArr, Idx: idx, Elem: elem, name: "(Array " + idx.name + " " + elem.name + ")"}
	arrS[k] = s
	return s
}

// ---- terms ----

type Op uint8

const (
	OConst Op = iota
	OTrue
	OFalse
	OSym
	OAlloc  // ref constant born at tick
	OGlobal // address of a package level variable
	ONil
	OStrLit
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OConcat
	OExtract
	OZExt
	OSExt
	OUF
	OSelect
	OStore
	OConstArr
	OForall // proxy of a quantified formula, name is its id
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat", OSelect: "select", OStore: "store"}

type Term struct {
	id     int
	op     Op
	sort   *Sort
	args   []*Term
	val    *big.Int // OConst
	name   string   // OSym, OUF, OStrLit, OGlobal, OForall
	a, b   int      // OExtract hi, lo ; OAlloc tick ; OSym tick, OUF tick
	tmax   int      // greatest tick of any symbol inside
	sub    map[*Term]bool
	mx, mn *big.Int // cached bounds
	nn     int8     // cached sign: 1 not negative, 2 unknown
}

type TS struct {
	tab   map[tkey]*Term
	ctab  map[ckey]*Term
	n     int
	rw    map[*Term]*Term
	T, F  *Term
	Nil   *Term
	local map[int]bool // allocations nothing else refers to
}

func NewTS() *TS {
	s := &TS{tab: map[tkey]*Term{}, ctab: map[ckey]*Term{}, rw: map[*Term]*Term{}, local: map[int]bool{}}
	s.T = s.raw(&Term{op: OTrue, sort: BoolS})
	s.F = s.raw(&Term{op: OFalse, sort: BoolS})
	s.Nil = s.raw(&Term{op: ONil, sort: RefS})
	return s
}

type tkey struct {
	op         Op
	sort       *Sort
	a, b       int
	x0, x1, x2 int
	name       string
	rest       string
}

func (s *TS) key(t *Term) tkey {
	k := tkey{op: t.op, sort: t.sort, a: t.a, b: t.b, name: t.name}
	if t.val != nil {
		k.rest = t.val.Text(36)
	}
	switch n := len(t.args); {
	case n > 3:
		b := make([]byte, 0, 4*n)
		for _, a := range t.args {
			b = append(b, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
		}
		k.rest += string(b)
		k.x0 = n
	case n == 3:
		k.x2 = t.args[2].id
		fallthrough
	case n == 2:
		k.x1 = t.args[1].id
		fallthrough
	case n == 1:
		k.x0 = t.args[0].id
	}
	return k
}

// raw interns a term without simplification
func (s *TS) raw(t *Term) *Term {
	k := s.key(t)
	if o, ok := s.tab[k]; ok {
		t = o
	} else {
		s.n++
		t.id = s.n
		switch t.op {
		case OSym, OAlloc, OUF:
			t.tmax = t.a
		}
		for _, a := range t.args {
			if a.tmax > t.tmax {
				t.tmax = a.tmax
			}
		}
		s.tab[k] = t
	}
	if len(s.rw) > 0 {
		if r, ok := s.rw[t]; ok {
			return r
		}
	}
	return t
}

func mask(w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return m.Sub(m, big.NewInt(1))
}

func (s *TS) BigC(v *big.Int, w int) *Term {
	v = new(big.Int).And(v, mask(w))
	return s.raw(&Term{op: OConst, sort: BV(w), val: v})
}

type ckey struct {
	v uint64
	w int
}

func (s *TS) C(v int64, w int) *Term {
	if w > 64 && v < 0 {
		return s.BigC(big.NewInt(v), w)
	}
	return s.UC(uint64(v), w)
}
func (s *TS) UC(v uint64, w int) *Term {
	if w < 64 {
		v &= 1<<uint(w) - 1
	}
	k := ckey{v, w}
	if t, ok := s.ctab[k]; ok {
		return t
	}
	t := s.BigC(new(big.Int).SetUint64(v), w)
	s.ctab[k] = t
	return t
}
func (s *TS) Int(v int64) *Term { return s.C(v, 64) }
func (s *TS) Bool(b bool) *Term {
	if b {
		return s.T
	}
	return s.F
}
func (s *TS) Sym(name string, so *Sort, tick int) *Term {
	return s.raw(&Term{op: OSym, sort: so, name: name, a: tick})
}
func (s *TS) Alloc(tick int) *Term { return s.raw(&Term{op: OAlloc, sort: RefS, a: tick}) }
func (s *TS) Global(name string) *Term {
	return s.raw(&Term{op: OGlobal, sort: RefS, name: name})
}
func (s *TS) StrLit(v string) *Term { return s.raw(&Term{op: OStrLit, sort: StrS, name: v}) }
func (s *TS) UF(name string, so *Sort, tick int, args ...*Term) *Term {
	return s.raw(&Term{op: OUF, sort: so, name: name, a: tick, args: args})
}

func (t *Term) isC() bool    { return t.op == OConst }
func (t *Term) isTrue() bool { return t.op == OTrue }
func (t *Term) isFalse() bool {
	return t.op == OFalse
}
func (t *Term) isLit() bool {
	switch t.op {
	case OConst, OTrue, OFalse, ONil, OStrLit, OAlloc, OGlobal:
		return true
	}
	return false
}
func (t *Term) u64() uint64 { return t.val.Uint64() }
func (t *Term) sval() *big.Int {
	w := t.sort.W
	if t.val.Bit(w-1) == 1 {
		return new(big.Int).Sub(t.val, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return t.val
}
func (t *Term) i64() int64 { return t.sval().Int64() }
func (t *Term) isZero() bool {
	return t.op == OConst && t.val.Sign() == 0
}
func (t *Term) isOnes() bool { return t.op == OConst && t.val.Cmp(mask(t.sort.W)) == 0 }

func (s *TS) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return s.F
	case OFalse:
		return s.T
	case ONot:
		return a.args[0]
	case OULt:
		return s.ULe(a.args[1], a.args[0])
	case OSLt:
		return s.SLe(a.args[1], a.args[0])
	case OULe:
		return s.ULt(a.args[1], a.args[0])
	case OSLe:
		return s.SLt(a.args[1], a.args[0])
	}
	return s.raw(&Term{op: ONot, sort: BoolS, args: []*Term{a}})
}

func (s *TS) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if set[x] {
			return true
		}
		if set[s.Not(x)] {
			return false
		}
		set[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption: a \/ (a /\ b) = a ; a \/ (~a /\ b) = a \/ b, and duals
	other := OOr
	if op == OOr {
		other = OAnd
	}
	changed := false
	for i, x := range out {
		if x.op == other {
			keep := make([]*Term, 0, len(x.args))
			absorbed := false
			for _, y := range x.args {
				if set[y] {
					absorbed = true
					break
				}
				if set[s.Not(y)] {
					changed = true
					continue
				}
				keep = append(keep, y)
			}
			if absorbed {
				changed = true
				out[i] = unit
				continue
			}
			if len(keep) != len(x.args) {
				if other == OAnd {
					out[i] = s.And(keep...)
				} else {
					out[i] = s.Or(keep...)
				}
			}
		}
	}
	if changed {
		return s.nary(op, unit, zero, out)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return s.raw(&Term{op: op, sort: BoolS, args: out})
}

func (s *TS) And(xs ...*Term) *Term    { return s.nary(OAnd, s.T, s.F, xs) }
func (s *TS) Or(xs ...*Term) *Term     { return s.nary(OOr, s.F, s.T, xs) }
func (s *TS) Implies(a, b *Term) *Term { return s.Or(s.Not(a), b) }

func (s *TS) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.sort != b.sort {
		panic(Unsupported("ite sorts " + a.sort.name + " / " + b.sort.name))
	}
	if a.sort == BoolS {
		if a.isTrue() {
			return s.Or(c, b)
		}
		if a.isFalse() {
			return s.And(s.Not(c), b)
		}
		if b.isTrue() {
			return s.Or(s.Not(c), a)
		}
		if b.isFalse() {
			return s.And(c, a)
		}
		if a == c {
			return s.Or(c, b)
		}
		if b == c {
			return s.And(c, a)
		}
	}
	if c.op == ONot {
		return s.Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		return s.Ite(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return s.Ite(c, a, b.args[2])
	}
	if b.op == OIte && b.args[1] == a {
		return s.Ite(s.Or(c, b.args[0]), a, b.args[2])
	}
	if a.op == OIte && a.args[2] == b {
		return s.Ite(s.And(c, a.args[0]), a.args[1], b)
	}
	if a.op == OIte && a.args[1] == b {
		return s.Ite(s.And(c, s.Not(a.args[0])), a.args[2], b)
	}
	// (c ? a : b) with c: x==k and b==x, a==k
	if c.op == OEq && ((c.args[0] == a && c.args[1] == b) || (c.args[1] == a && c.args[0] == b)) {
		return b
	}
	return s.raw(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// iteLits reports whether t is a small ite tree with literal leaves
func iteLits(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.isLit() {
		return true
	}
	if t.op == OIte {
		return iteLits(t.args[1], budget) && iteLits(t.args[2], budget)
	}
	return false
}

func isIteLits(t *Term) bool {
	if t.op != OIte {
		return false
	}
	b := 40
	return iteLits(t, &b)
}

// push f through an ite tree
func (s *TS) mapIte(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var g func(t *Term) *Term
	g = func(t *Term) *Term {
		if t.op != OIte {
			return f(t)
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := s.Ite(t.args[0], g(t.args[1]), g(t.args[2]))
		memo[t] = r
		return r
	}
	return g(t)
}

func (s *TS) refDistinct(a, b *Term) bool {
	if a.op == OAlloc {
		if b.op == OAlloc || b.op == OGlobal || b.op == ONil {
			return a != b
		}
		if s.local[a.a] && (b.op == OSym || b.op == OUF || b.op == OSelect) {
			return true
		}
		return s.epoch(b) < a.a
	}
	if b.op == OAlloc {
		return s.refDistinct(b, a)
	}
	if (a.op == OGlobal || a.op == ONil) && (b.op == OGlobal || b.op == ONil) {
		return a != b
	}
	return false
}

// epoch bounds the birth of the object a ref term may denote
func (s *TS) epoch(t *Term) int {
	switch t.op {
	case OSym, OAlloc:
		return t.a
	case OUF:
		return t.a
	case ONil, OGlobal:
		return 0
	case OIte:
		return max(s.epoch(t.args[1]), s.epoch(t.args[2]))
	case OSelect:
		return s.epoch(t.args[0])
	case OStore:
		return max(s.epoch(t.args[0]), s.epoch(t.args[2]))
	case OConstArr:
		return s.epoch(t.args[0])
	}
	return 1 << 60
}

func (s *TS) Eq(a, b *Term) *Term {
	if a == b {
		return s.T
	}
	if a.sort != b.sort {
		panic(Unsupported("eq sorts " + a.sort.name + " / " + b.sort.name))
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.isLit() && b.isLit() {
		return s.F
	}
	if a.sort == RefS && s.refDistinct(a, b) {
		return s.F
	}
	if a.sort == BoolS {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return s.Not(b)
		}
		if b.isFalse() {
			return s.Not(a)
		}
		if a == s.Not(b) {
			return s.F
		}
	}
	if b.isLit() {
		a, b = b, a
	}
	if a.isLit() { // literal on the left
		if a.op == OStrLit && a.name == "" && b.op == OUF && b.name == "strCat" {
			return s.And(s.Eq(a, b.args[0]), s.Eq(a, b.args[1]))
		}
		if isIteLits(b) {
			return s.mapIte(b, func(x *Term) *Term { return s.Eq(a, x) })
		}
		if b.op == OIte && (a.sort == RefS || b.args[1].isLit() || b.args[2].isLit() || a.op == OStrLit && a.name == "" && (isCat(b.args[1]) || isCat(b.args[2]))) {
			return s.Ite(b.args[0], s.Eq(a, b.args[1]), s.Eq(a, b.args[2]))
		}
		if a.isC() {
			switch b.op {
			case OAdd:
				if b.args[1].isC() {
					return s.Eq(s.Sub(a, b.args[1]), b.args[0])
				}
			case OZExt:
				w := b.args[0].sort.W
				if a.val.BitLen() > w {
					return s.F
				}
				return s.Eq(s.BigC(a.val, w), b.args[0])
			case OSExt:
				w := b.args[0].sort.W
				lo := s.BigC(a.val, w)
				if s.SExt(lo, a.sort.W) != a {
					return s.F
				}
				return s.Eq(lo, b.args[0])
			case OConcat:
				wl := b.args[1].sort.W
				return s.And(s.Eq(s.Extract(a, a.sort.W-1, wl), b.args[0]), s.Eq(s.Extract(a, wl-1, 0), b.args[1]))
			case OBNot:
				return s.Eq(s.BNot(a), b.args[0])
			case OBXor:
				if b.args[1].isC() {
					return s.Eq(s.BXor(a, b.args[1]), b.args[0])
				}
				if a.isZero() {
					return s.Eq(b.args[0], b.args[1])
				}
			case OBOr:
				if a.isZero() {
					return s.And(s.Eq(a, b.args[0]), s.Eq(a, b.args[1]))
				}
			}
		}
	} else {
		if a.sort.W == 64 && a.sort.K == KBV && (isSum(a) || isSum(b)) {
			// cancel what both sides have in common
			la, lb := &lsum{k: map[*Term]int64{}}, &lsum{k: map[*Term]int64{}}
			la.add(a, 1)
			lb.add(b, 1)
			n := len(la.k) + len(lb.k)
			bothC := la.c != 0 && lb.c != 0
			la.add(b, -1)
			if len(la.k) < n || bothC {
				l, r := &lsum{k: map[*Term]int64{}}, &lsum{k: map[*Term]int64{}}
				for t, f := range la.k {
					if f > 0 {
						l.k[t] = f
					} else {
						r.k[t] = -f
					}
				}
				if int64(la.c) >= 0 {
					l.c = la.c
				} else {
					r.c = -la.c
				}
				return s.Eq(s.fromSum(l), s.fromSum(r))
			}
		}
		if a.op == OAdd && b.op == OAdd && a.args[1].isC() && b.args[1].isC() {
			return s.Eq(s.Add(a.args[0], s.Sub(a.args[1], b.args[1])), b.args[0])
		}
		if a.op == OAdd && a.args[0] == b {
			return s.Eq(a.args[1], s.C(0, a.sort.W))
		}
		if b.op == OAdd && b.args[0] == a {
			return s.Eq(b.args[1], s.C(0, a.sort.W))
		}
		if a.op == OAdd && b.op == OAdd && a.args[0] == b.args[0] {
			return s.Eq(a.args[1], b.args[1])
		}
		if a.op == OZExt && b.op == OZExt && a.args[0].sort == b.args[0].sort {
			return s.Eq(a.args[0], b.args[0])
		}
		if a.op == OConcat && b.op == OConcat && a.args[1].sort == b.args[1].sort {
			return s.And(s.Eq(a.args[0], b.args[0]), s.Eq(a.args[1], b.args[1]))
		}
		if a.sort == RefS {
			// push equality into ite refs so that known distinctness shows
			if a.op == OIte && (a.args[1].isLit() || a.args[2].isLit()) {
				return s.Ite(a.args[0], s.Eq(a.args[1], b), s.Eq(a.args[2], b))
			}
			if b.op == OIte && (b.args[1].isLit() || b.args[2].isLit()) {
				return s.Ite(b.args[0], s.Eq(b.args[1], a), s.Eq(b.args[2], a))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.raw(&Term{op: OEq, sort: BoolS, args: []*Term{a, b}})
}

func (s *TS) bin(op Op, a, b *Term) *Term {
	return s.raw(&Term{op: op, sort: a.sort, args: []*Term{a, b}})
}

// ---- linear sums of 64-bit terms ----

type lsum struct {
	k map[*Term]int64
	c uint64
}

func isSum(t *Term) bool {
	return t.sort.W == 64 && (t.op == OAdd || t.op == OSub || t.op == OMul && t.args[1].isC())
}

func (l *lsum) add(t *Term, f int64) {
	switch {
	case t.isC():
		l.c += uint64(f) * t.val.Uint64()
	case t.op == OAdd:
		l.add(t.args[0], f)
		l.add(t.args[1], f)
	case t.op == OSub:
		l.add(t.args[0], f)
		l.add(t.args[1], -f)
	case t.op == OMul && t.args[1].isC():
		l.add(t.args[0], int64(uint64(f)*t.args[1].val.Uint64()))
	default:
		l.k[t] += f
		if l.k[t] == 0 {
			delete(l.k, t)
		}
	}
}

func (s *TS) fromSum(l *lsum) *Term {
	var ts []*Term
	for t := range l.k {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var p, n *Term
	for _, t := range ts {
		f := l.k[t]
		q := &p
		if f < 0 {
			q, f = &n, -f
		}
		u := t
		if f != 1 {
			u = s.bin(OMul, t, s.C(f, 64))
		}
		if *q == nil {
			*q = u
		} else {
			*q = s.bin(OAdd, *q, u)
		}
	}
	c := s.UC(l.c, 64)
	switch {
	case p == nil && n == nil:
		return c
	case p == nil:
		return s.bin(OSub, c, n)
	case n != nil:
		p = s.bin(OSub, p, n)
	}
	if c.isZero() {
		return p
	}
	return s.bin(OAdd, p, c)
}

func (s *TS) linear(a, b *Term, f int64) *Term {
	l := &lsum{k: map[*Term]int64{}}
	l.add(a, 1)
	l.add(b, f)
	if len(l.k) > 12 {
		return nil
	}
	return s.fromSum(l)
}

func (s *TS) Add(a, b *Term) *Term {
	w := a.sort.W
	if w == 64 && !a.isC() && !b.isC() && (isSum(a) || isSum(b)) {
		if t := s.linear(a, b, 1); t != nil {
			return t
		}
	}
	if a.isC() && b.isC() {
		return s.BigC(new(big.Int).Add(a.val, b.val), w)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if b.isC() {
		if a.op == OAdd && a.args[1].isC() {
			return s.Add(a.args[0], s.Add(a.args[1], b))
		}
		if isIteLits(a) {
			return s.mapIte(a, func(x *Term) *Term { return s.Add(x, b) })
		}
		return s.bin(OAdd, a, b)
	}
	// pull constants outwards
	if a.op == OAdd && a.args[1].isC() {
		return s.Add(s.Add(a.args[0], b), a.args[1])
	}
	if b.op == OAdd && b.args[1].isC() {
		return s.Add(s.Add(a, b.args[0]), b.args[1])
	}
	if c := s.orConcat(a, b); c != nil {
		return c
	}
	if c := s.orConcat(b, a); c != nil {
		return c
	}
	if a.op == OSub && a.args[1] == b {
		return a.args[0]
	}
	if b.op == OSub && b.args[1] == a {
		return b.args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.bin(OAdd, a, b)
}

func (s *TS) Sub(a, b *Term) *Term {
	w := a.sort.W
	if a == b {
		return s.C(0, w)
	}
	if b.isC() {
		return s.Add(a, s.BigC(new(big.Int).Neg(b.val), w))
	}
	if w == 64 && !a.isC() && (isSum(a) || isSum(b)) {
		if t := s.linear(a, b, -1); t != nil {
			return t
		}
	}
	if a.op == OAdd {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
		if a.args[1].isC() {
			return s.Add(s.Sub(a.args[0], b), a.args[1])
		}
	}
	if b.op == OAdd {
		if b.args[1].isC() {
			return s.Add(s.Sub(a, b.args[0]), s.BigC(new(big.Int).Neg(b.args[1].val), w))
		}
		if b.args[0] == a {
			return s.Neg(b.args[1])
		}
		if b.args[1] == a {
			return s.Neg(b.args[0])
		}
	}
	if a.isC() && isIteLits(b) {
		return s.mapIte(b, func(x *Term) *Term { return s.Sub(a, x) })
	}
	return s.bin(OSub, a, b)
}
func (s *TS) Neg(a *Term) *Term { return s.Sub(s.C(0, a.sort.W), a) }

func (s *TS) Mul(a, b *Term) *Term {
	w := a.sort.W
	if a.isC() && b.isC() {
		return s.BigC(new(big.Int).Mul(a.val, b.val), w)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.isZero() {
			return b
		}
		if b.val.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		// power of two
		if n := b.val.BitLen() - 1; new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(b.val) == 0 {
			return s.Shl(a, s.C(int64(n), w))
		}
		if isIteLits(a) {
			return s.mapIte(a, func(x *Term) *Term { return s.Mul(x, b) })
		}
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return s.bin(OMul, a, b)
}

func (s *TS) DivRem(op Op, a, b *Term) *Term {
	w := a.sort.W
	if a.isC() && b.isC() && !b.isZero() {
		switch op {
		case OUDiv:
			return s.BigC(new(big.Int).Quo(a.val, b.val), w)
		case OURem:
			return s.BigC(new(big.Int).Rem(a.val, b.val), w)
		case OSDiv:
			return s.BigC(new(big.Int).Quo(a.sval(), b.sval()), w)
		case OSRem:
			return s.BigC(new(big.Int).Rem(a.sval(), b.sval()), w)
		}
	}
	if b.isC() && !b.isZero() {
		n := b.val.BitLen() - 1
		if new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(b.val) == 0 {
			switch op {
			case OUDiv:
				return s.LShr(a, s.C(int64(n), w))
			case OURem:
				return s.BAnd(a, s.BigC(new(big.Int).Sub(b.val, big.NewInt(1)), w))
			}
		}
	}
	return s.bin(op, a, b)
}

func (s *TS) BAnd(a, b *Term) *Term {
	w := a.sort.W
	if a == b {
		return a
	}
	if a.isC() && b.isC() {
		return s.BigC(new(big.Int).And(a.val, b.val), w)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.isZero() {
			return b
		}
		if b.isOnes() {
			return a
		}
		if a.op == OBAnd && a.args[1].isC() {
			return s.BAnd(a.args[0], s.BAnd(a.args[1], b))
		}
		// low mask: x & (2^n-1)
		n := b.val.BitLen()
		if new(big.Int).Add(b.val, big.NewInt(1)).Cmp(new(big.Int).Lsh(big.NewInt(1), uint(n))) == 0 {
			if a.op == OZExt && a.args[0].sort.W <= n {
				return a
			}
			return s.ZExt(s.Extract(a, n-1, 0), w)
		}
		if isIteLits(a) {
			return s.mapIte(a, func(x *Term) *Term { return s.BAnd(x, b) })
		}
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return s.bin(OBAnd, a, b)
}

func (s *TS) BOr(a, b *Term) *Term {
	w := a.sort.W
	if a == b {
		return a
	}
	if a.isC() && b.isC() {
		return s.BigC(new(big.Int).Or(a.val, b.val), w)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if b.isOnes() {
		return b
	}
	// disjoint shifted parts become a concatenation:  (x << n) | zext(y), y of at most n bits
	if c := s.orConcat(a, b); c != nil {
		return c
	}
	if c := s.orConcat(b, a); c != nil {
		return c
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return s.bin(OBOr, a, b)
}

// fits returns the term of width n equal to lo when the bits of lo from n upwards are syntactically zero
func (s *TS) fits(lo *Term, n int) *Term {
	if s.umax(lo).BitLen() > n {
		return nil
	}
	return s.Extract(lo, n-1, 0)
}

// tz counts syntactic trailing zero bits
func (s *TS) tz(a *Term) int {
	switch a.op {
	case OConst:
		if a.isZero() {
			return a.sort.W
		}
		return int(a.val.TrailingZeroBits())
	case OConcat:
		n := s.tz(a.args[1])
		if n == a.args[1].sort.W {
			return n + s.tz(a.args[0])
		}
		return n
	case OZExt:
		return s.tz(a.args[0])
	}
	return 0
}

func (s *TS) orConcat(hi, lo *Term) *Term {
	if hi.op == OZExt && hi.args[0].op == OConcat {
		if l := s.fits(lo, hi.args[0].sort.W); l != nil {
			if r := s.orConcat(hi.args[0], l); r != nil {
				return s.ZExt(r, hi.sort.W)
			}
		}
		return nil
	}
	if hi.op != OConcat {
		return nil
	}
	tz := s.tz(hi)
	if tz == 0 || s.umax(lo).BitLen() > tz {
		return nil
	}
	n := hi.args[1].sort.W
	l := s.fits(lo, n)
	if l == nil {
		return nil
	}
	return s.Concat(hi.args[0], s.BOr(hi.args[1], l))
}

func (s *TS) BXor(a, b *Term) *Term {
	w := a.sort.W
	if a == b {
		return s.C(0, w)
	}
	if a.isC() && b.isC() {
		return s.BigC(new(big.Int).Xor(a.val, b.val), w)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if b.isOnes() {
		return s.BNot(a)
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return s.bin(OBXor, a, b)
}
func (s *TS) BNot(a *Term) *Term {
	if a.isC() {
		return s.BigC(new(big.Int).Xor(a.val, mask(a.sort.W)), a.sort.W)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return s.raw(&Term{op: OBNot, sort: a.sort, args: []*Term{a}})
}

func (s *TS) Shl(a, b *Term) *Term {
	w := a.sort.W
	if b.isC() {
		if !b.val.IsInt64() || b.val.Int64() >= int64(w) {
			return s.C(0, w)
		}
		n := int(b.val.Int64())
		if n == 0 {
			return a
		}
		return s.Concat(s.Extract(a, w-1-n, 0), s.C(0, n))
	}
	if isIteLits(b) {
		return s.mapIte(b, func(x *Term) *Term { return s.Shl(a, x) })
	}
	return s.bin(OShl, a, b)
}
func (s *TS) LShr(a, b *Term) *Term {
	w := a.sort.W
	if b.isC() {
		if !b.val.IsInt64() || b.val.Int64() >= int64(w) {
			return s.C(0, w)
		}
		n := int(b.val.Int64())
		if n == 0 {
			return a
		}
		return s.ZExt(s.Extract(a, w-1, n), w)
	}
	if isIteLits(b) {
		return s.mapIte(b, func(x *Term) *Term { return s.LShr(a, x) })
	}
	return s.bin(OLShr, a, b)
}
func (s *TS) AShr(a, b *Term) *Term {
	w := a.sort.W
	if b.isC() {
		n := w - 1
		if b.val.IsInt64() && b.val.Int64() < int64(w) {
			n = int(b.val.Int64())
		}
		if n == 0 {
			return a
		}
		if s.nonneg(a) {
			return s.LShr(a, s.C(int64(n), w))
		}
		return s.SExt(s.Extract(a, w-1, n), w)
	}
	if isIteLits(b) {
		return s.mapIte(b, func(x *Term) *Term { return s.AShr(a, x) })
	}
	return s.bin(OAShr, a, b)
}

// nonneg: the top bit is syntactically zero
func (s *TS) nonneg(a *Term) bool {
	if a.nn == 0 {
		a.nn = 2
		if s.nonneg1(a) {
			a.nn = 1
		}
	}
	return a.nn == 1
}

func (s *TS) nonneg1(a *Term) bool {
	switch a.op {
	case OConst:
		return a.val.Bit(a.sort.W-1) == 0
	case OZExt:
		return true
	case OConcat:
		return s.nonneg(a.args[0])
	case OIte:
		return s.nonneg(a.args[1]) && s.nonneg(a.args[2])
	case OBAnd:
		return s.nonneg(a.args[0]) || s.nonneg(a.args[1])
	case OBOr:
		return s.nonneg(a.args[0]) && s.nonneg(a.args[1])
	}
	return false
}

// umax gives an upper bound of the unsigned value
func (s *TS) umax(a *Term) *big.Int {
	if a.mx == nil {
		a.mx = s.umax1(a)
	}
	return a.mx
}

func (s *TS) umax1(a *Term) *big.Int {
	switch a.op {
	case OConst:
		return a.val
	case OZExt:
		return s.umax(a.args[0])
	case OIte:
		x, y := s.umax(a.args[1]), s.umax(a.args[2])
		if x.Cmp(y) > 0 {
			return x
		}
		return y
	case OConcat:
		h := s.umax(a.args[0])
		wl := uint(a.args[1].sort.W)
		return new(big.Int).Or(new(big.Int).Lsh(h, wl), mask(int(wl)))
	}
	return mask(a.sort.W)
}

func (s *TS) umin(a *Term) *big.Int {
	if a.mn == nil {
		a.mn = s.umin1(a)
	}
	return a.mn
}

func (s *TS) umin1(a *Term) *big.Int {
	switch a.op {
	case OConst:
		return a.val
	case OZExt:
		return s.umin(a.args[0])
	case OIte:
		x, y := s.umin(a.args[1]), s.umin(a.args[2])
		if x.Cmp(y) < 0 {
			return x
		}
		return y
	case OConcat:
		return new(big.Int).Lsh(s.umin(a.args[0]), uint(a.args[1].sort.W))
	}
	return new(big.Int)
}

func (s *TS) cmp(op Op, a, b *Term) *Term {
	if a.isC() && isIteLits(b) {
		return s.mapIte(b, func(x *Term) *Term { return s.cmpx(op, a, x) })
	}
	if b.isC() && isIteLits(a) {
		return s.mapIte(a, func(x *Term) *Term { return s.cmpx(op, x, b) })
	}
	return s.raw(&Term{op: op, sort: BoolS, args: []*Term{a, b}})
}
func (s *TS) cmpx(op Op, a, b *Term) *Term {
	switch op {
	case OULt:
		return s.ULt(a, b)
	case OULe:
		return s.ULe(a, b)
	case OSLt:
		return s.SLt(a, b)
	}
	return s.SLe(a, b)
}

func (s *TS) ULt(a, b *Term) *Term {
	if a == b {
		return s.F
	}
	if a.isC() && b.isC() {
		return s.Bool(a.val.Cmp(b.val) < 0)
	}
	if s.umax(a).Cmp(s.umin(b)) < 0 {
		return s.T
	}
	if s.umin(a).Cmp(s.umax(b)) >= 0 {
		return s.F
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].sort == b.args[0].sort {
		return s.ULt(a.args[0], b.args[0])
	}
	return s.cmp(OULt, a, b)
}
func (s *TS) ULe(a, b *Term) *Term {
	if a == b {
		return s.T
	}
	if a.isC() && b.isC() {
		return s.Bool(a.val.Cmp(b.val) <= 0)
	}
	if s.umax(a).Cmp(s.umin(b)) <= 0 {
		return s.T
	}
	if s.umin(a).Cmp(s.umax(b)) > 0 {
		return s.F
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].sort == b.args[0].sort {
		return s.ULe(a.args[0], b.args[0])
	}
	return s.cmp(OULe, a, b)
}
func (s *TS) SLt(a, b *Term) *Term {
	if a == b {
		return s.F
	}
	if a.isC() && b.isC() {
		return s.Bool(a.sval().Cmp(b.sval()) < 0)
	}
	if s.nonneg(a) && s.nonneg(b) {
		return s.ULt(a, b)
	}
	return s.cmp(OSLt, a, b)
}
func (s *TS) SLe(a, b *Term) *Term {
	if a == b {
		return s.T
	}
	if a.isC() && b.isC() {
		return s.Bool(a.sval().Cmp(b.sval()) <= 0)
	}
	if s.nonneg(a) && s.nonneg(b) {
		return s.ULe(a, b)
	}
	return s.cmp(OSLe, a, b)
}

func (s *TS) Concat(a, b *Term) *Term {
	w := a.sort.W + b.sort.W
	if a.isC() && b.isC() {
		return s.BigC(new(big.Int).Or(new(big.Int).Lsh(a.val, uint(b.sort.W)), b.val), w)
	}
	if a.isZero() {
		return s.ZExt(b, w)
	}
	if a.op == OZExt {
		return s.ZExt(s.Concat(a.args[0], b), w)
	}
	// re-associate to the right: (x . y) . z = x . (y . z)
	if a.op == OConcat {
		return s.Concat(a.args[0], s.Concat(a.args[1], b))
	}
	// adjacent extracts
	if a.op == OExtract {
		if b.op == OExtract && a.args[0] == b.args[0] && a.b == b.a+1 {
			return s.Extract(a.args[0], a.a, b.b)
		}
		if b.op == OConcat && b.args[0].op == OExtract && b.args[0].args[0] == a.args[0] && a.b == b.args[0].a+1 {
			return s.Concat(s.Extract(a.args[0], a.a, b.args[0].b), b.args[1])
		}
		if b.sort == b.sort && a.args[0] == b { // never adjacent
			_ = b
		}
	}
	if a.isC() && b.op == OConcat && b.args[0].isC() {
		return s.Concat(s.Concat(a, b.args[0]), b.args[1])
	}
	return s.raw(&Term{op: OConcat, sort: BV(w), args: []*Term{a, b}})
}

func (s *TS) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if lo == 0 && hi == a.sort.W-1 {
		return a
	}
	switch a.op {
	case OConst:
		return s.BigC(new(big.Int).Rsh(a.val, uint(lo)), w)
	case OExtract:
		return s.Extract(a.args[0], a.b+hi, a.b+lo)
	case OZExt:
		iw := a.args[0].sort.W
		if hi < iw {
			return s.Extract(a.args[0], hi, lo)
		}
		if lo >= iw {
			return s.C(0, w)
		}
		return s.ZExt(s.Extract(a.args[0], iw-1, lo), w)
	case OSExt:
		iw := a.args[0].sort.W
		if hi < iw {
			return s.Extract(a.args[0], hi, lo)
		}
		if lo < iw {
			return s.SExt(s.Extract(a.args[0], iw-1, lo), w)
		}
	case OConcat:
		wl := a.args[1].sort.W
		if hi < wl {
			return s.Extract(a.args[1], hi, lo)
		}
		if lo >= wl {
			return s.Extract(a.args[0], hi-wl, lo-wl)
		}
		return s.Concat(s.Extract(a.args[0], hi-wl, 0), s.Extract(a.args[1], wl-1, lo))
	case OBAnd, OBOr, OBXor:
		x, y := s.Extract(a.args[0], hi, lo), s.Extract(a.args[1], hi, lo)
		switch a.op {
		case OBAnd:
			return s.BAnd(x, y)
		case OBOr:
			return s.BOr(x, y)
		}
		return s.BXor(x, y)
	case OBNot:
		return s.BNot(s.Extract(a.args[0], hi, lo))
	case OIte:
		if isIteLits(a) {
			return s.mapIte(a, func(x *Term) *Term { return s.Extract(x, hi, lo) })
		}
	case OAdd:
		if lo == 0 && a.args[1].isC() {
			return s.Add(s.Extract(a.args[0], hi, 0), s.Extract(a.args[1], hi, 0))
		}
	}
	return s.raw(&Term{op: OExtract, sort: BV(w), args: []*Term{a}, a: hi, b: lo})
}

func (s *TS) ZExt(a *Term, w int) *Term {
	if w == a.sort.W {
		return a
	}
	if a.isC() {
		return s.BigC(a.val, w)
	}
	if a.op == OZExt {
		return s.ZExt(a.args[0], w)
	}
	if isIteLits(a) {
		return s.mapIte(a, func(x *Term) *Term { return s.ZExt(x, w) })
	}
	return s.raw(&Term{op: OZExt, sort: BV(w), args: []*Term{a}, a: w - a.sort.W})
}
func (s *TS) SExt(a *Term, w int) *Term {
	if w == a.sort.W {
		return a
	}
	if a.isC() {
		return s.BigC(a.sval(), w)
	}
	if s.nonneg(a) {
		return s.ZExt(a, w)
	}
	if a.op == OSExt {
		return s.SExt(a.args[0], w)
	}
	return s.raw(&Term{op: OSExt, sort: BV(w), args: []*Term{a}, a: w - a.sort.W})
}

func (s *TS) Select(arr, idx *Term) *Term {
	switch arr.op {
	case OConstArr:
		return arr.args[0]
	case OStore:
		e := s.Eq(arr.args[1], idx)
		if e.isTrue() {
			return arr.args[2]
		}
		if e.isFalse() {
			return s.Select(arr.args[0], idx)
		}
	case OIte:
		return s.Ite(arr.args[0], s.Select(arr.args[1], idx), s.Select(arr.args[2], idx))
	case OUF:
		if arr.name == "bytesOf" {
			return s.StrAt(arr.args[0], idx)
		}
	}
	if isIteLits(idx) {
		return s.mapIte(idx, func(x *Term) *Term { return s.Select(arr, x) })
	}
	return s.raw(&Term{op: OSelect, sort: arr.sort.Elem, args: []*Term{arr, idx}})
}
func (s *TS) Store(arr, idx, v *Term) *Term {
	return s.raw(&Term{op: OStore, sort: arr.sort, args: []*Term{arr, idx, v}})
}
func (s *TS) ConstArr(so *Sort, v *Term) *Term {
	return s.raw(&Term{op: OConstArr, sort: so, args: []*Term{v}})
}

// ---- strings ----

func isCat(t *Term) bool { return t.op == OUF && t.name == "strCat" }

func (s *TS) StrLen(a *Term) *Term {
	switch a.op {
	case OStrLit:
		return s.Int(int64(len(a.name)))
	case OIte:
		if isIteLits(a) {
			return s.mapIte(a, s.StrLen)
		}
	case OUF:
		switch a.name {
		case "strOf":
			return a.args[2]
		case "strCat":
			return s.Add(s.StrLen(a.args[0]), s.StrLen(a.args[1]))
		case "substr":
			return s.Sub(a.args[2], a.args[1])
		}
	}
	return s.UF("strlen", BV(64), 0, a)
}
func (s *TS) StrAt(a, i *Term) *Term {
	switch a.op {
	case OStrLit:
		if i.isC() && i.val.IsInt64() && i.val.Int64() < int64(len(a.name)) {
			return s.C(int64(a.name[i.val.Int64()]), 8)
		}
		if len(a.name) > 0 && len(a.name) <= 300 && !i.isC() {
			r := s.C(0, 8)
			for k := len(a.name) - 1; k >= 0; k-- {
				r = s.Ite(s.Eq(i, s.Int(int64(k))), s.C(int64(a.name[k]), 8), r)
			}
			return r
		}
	case OIte:
		return s.Ite(a.args[0], s.StrAt(a.args[1], i), s.StrAt(a.args[2], i))
	case OUF:
		switch a.name {
		case "strOf":
			return s.Select(a.args[0], s.Add(a.args[1], i))
		case "strCat":
			l := s.StrLen(a.args[0])
			return s.Ite(s.SLt(i, l), s.StrAt(a.args[0], i), s.StrAt(a.args[1], s.Sub(i, l)))
		case "substr":
			return s.StrAt(a.args[0], s.Add(a.args[1], i))
		}
	}
	return s.UF("strat", BV(8), 0, a, i)
}
func (s *TS) StrCat(a, b *Term) *Term {
	if a.op == OStrLit && b.op == OStrLit {
		return s.StrLit(a.name + b.name)
	}
	if a.op == OStrLit && a.name == "" {
		return b
	}
	if b.op == OStrLit && b.name == "" {
		return a
	}
	return s.UF("strCat", StrS, 0, a, b)
}
func (s *TS) Substr(a, lo, hi *Term) *Term {
	if a.op == OStrLit && lo.isC() && hi.isC() {
		l, h := lo.i64(), hi.i64()
		if l >= 0 && l <= h && h <= int64(len(a.name)) {
			return s.StrLit(a.name[l:h])
		}
	}
	if lo.isZero() && hi == s.StrLen(a) {
		return a
	}
	if isIteLits(a) {
		return s.mapIte(a, func(x *Term) *Term { return s.Substr(x, lo, hi) })
	}
	if a.op == OUF && a.name == "strOf" {
		return s.StrOf(a.args[0], s.Add(a.args[1], lo), s.Sub(hi, lo))
	}
	return s.UF("substr", StrS, 0, a, lo, hi)
}
func (s *TS) StrOf(arr, off, n *Term) *Term {
	if n.isZero() {
		return s.StrLit("")
	}
	if arr.op == OUF && arr.name == "bytesOf" && off.isZero() && n == s.StrLen(arr.args[0]) {
		return arr.args[0]
	}
	return s.UF("strOf", StrS, 0, arr, off, n)
}

// ---- substitution ----

func (s *TS) Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		if len(s.rw) > 0 {
			if q, ok := s.rw[t]; ok {
				return q
			}
		}
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = s.Subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = s.Rebuild(t, args)
	} else if len(s.rw) > 0 {
		if q, ok := s.rw[t]; ok {
			r = q
		}
	}
	memo[t] = r
	return r
}

func (s *TS) Rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return s.Not(a[0])
	case OAnd:
		return s.And(a...)
	case OOr:
		return s.Or(a...)
	case OIte:
		return s.Ite(a[0], a[1], a[2])
	case OEq:
		return s.Eq(a[0], a[1])
	case OAdd:
		return s.Add(a[0], a[1])
	case OSub:
		return s.Sub(a[0], a[1])
	case OMul:
		return s.Mul(a[0], a[1])
	case OUDiv, OURem, OSDiv, OSRem:
		return s.DivRem(t.op, a[0], a[1])
	case OBAnd:
		return s.BAnd(a[0], a[1])
	case OBOr:
		return s.BOr(a[0], a[1])
	case OBXor:
		return s.BXor(a[0], a[1])
	case OBNot:
		return s.BNot(a[0])
	case OShl:
		return s.Shl(a[0], a[1])
	case OLShr:
		return s.LShr(a[0], a[1])
	case OAShr:
		return s.AShr(a[0], a[1])
	case OULt:
		return s.ULt(a[0], a[1])
	case OULe:
		return s.ULe(a[0], a[1])
	case OSLt:
		return s.SLt(a[0], a[1])
	case OSLe:
		return s.SLe(a[0], a[1])
	case OConcat:
		return s.Concat(a[0], a[1])
	case OExtract:
		return s.Extract(a[0], t.a, t.b)
	case OZExt:
		return s.ZExt(a[0], t.sort.W)
	case OSExt:
		return s.SExt(a[0], t.sort.W)
	case OSelect:
		return s.Select(a[0], a[1])
	case OStore:
		return s.Store(a[0], a[1], a[2])
	case OConstArr:
		return s.ConstArr(t.sort, a[0])
	case OUF:
		switch t.name {
		case "strlen":
			return s.StrLen(a[0])
		case "strat":
			return s.StrAt(a[0], a[1])
		case "strCat":
			return s.StrCat(a[0], a[1])
		case "substr":
			return s.Substr(a[0], a[1], a[2])
		case "strOf":
			return s.StrOf(a[0], a[1], a[2])
		}
		return s.UF(t.name, t.sort, t.a, a...)
	}
	return s.raw(&Term{op: t.op, sort: t.sort, args: a, val: t.val, name: t.name, a: t.a, b: t.b})
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		return t.sval().String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONil:
		return "nil"
	case OSym, OForall:
		return t.name
	case OAlloc:
		return fmt.Sprintf("new@%d", t.a)
	case OGlobal:
		return "&" + t.name
	case OStrLit:
		return strconv.Quote(t.name)
	}
	n := opNames[t.op]
	if t.op == OUF {
		n = t.name
	}
	switch t.op {
	case OExtract:
		n = fmt.Sprintf("[%d:%d]", t.a, t.b)
	case OZExt:
		n = "zext"
	case OSExt:
		n = "sext"
	case OConstArr:
		n = "constarr"
	}
	if d == 0 {
		return "(" + n + " ..)"
	}
	var b strings.Builder
	b.WriteString("(" + n)
	for _, a := range t.args {
		b.WriteString(" " + a.str(d-1))
	}
	return b.String() + ")"
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }
func Unsupported(f string, a ...interface{}) unsupported {
	return unsupported{fmt.Sprintf(f, a...)}
}
