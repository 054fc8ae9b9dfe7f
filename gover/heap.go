package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---- values ----

type Val interface{}

type SliceV struct{ ref, off, len, cap *Term }

type PathEl struct {
	f   int   // field index, or constant array index
	idx *Term // symbolic array index, when not nil
}

type PtrV struct {
	ref, idx *Term
	elem     types.Type // element type of the region it points into
	path     []PathEl
	asStr    bool // a *[]byte read as a *string
}

type StructV struct{ f []Val } // structs and arrays

type IfaceV struct{ tag, ref *Term }

type TupleV []Val

type IterV struct { // map or string iterator
	isStr bool
	m     *Term
	mt    *types.Map
	str   *Term
	// ghost: visited keys
	visited *HNode
	pos     *Term
	heap    map[string]*HNode
}

// ---- types ----

type Leaf struct {
	path string
	sort *Sort
	zero int // kind of zero value, by sort
}

func isGvN(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "N" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == gvPath
}

func isGvSeq(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Seq" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == gvPath
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return types.TypeString(n, nil)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return u.Name()
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeKey(u.Elem()))
	case *types.Map:
		return "map[" + typeKey(u.Key()) + "]" + typeKey(u.Elem())
	case *types.Interface:
		return "iface"
	case *types.Signature:
		return "func"
	case *types.Struct:
		return types.TypeString(u, nil)
	case *types.Chan:
		return "chan"
	}
	return t.String()
}

var leafCache = map[string][]Leaf{}

func basicSort(b *types.Basic) *Sort {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return BoolS
	case types.String, types.UntypedString:
		return StrS
	case types.Int8, types.Uint8:
		return BV(8)
	case types.Int16, types.Uint16:
		return BV(16)
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return BV(32)
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return BV(64)
	case types.UnsafePointer:
		return RefS
	case types.UntypedNil:
		return RefS
	case types.Complex64:
		return BV(64)
	case types.Complex128:
		return BV(128)
	}
	panic(Unsupported("basic type %s", b))
}

func (x *Engine) leaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	if l, ok := x.leafMemo[t]; ok {
		return l
	}
	l := x.leaves1(t)
	x.leafMemo[t] = l
	return l
}

func (x *Engine) leaves1(t types.Type) []Leaf {
	if isGvN(t) {
		return []Leaf{{"", BV(128), 0}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []Leaf{{"", basicSort(u), 0}}
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return []Leaf{{".p", RefS, 0}}
		}
		return []Leaf{{".p", RefS, 0}, {".i", BV(64), 0}}
	case *types.Slice:
		return []Leaf{{".p", RefS, 0}, {".o", BV(64), 0}, {".l", BV(64), 0}, {".c", BV(64), 0}}
	case *types.Map, *types.Chan:
		return []Leaf{{".m", RefS, 0}}
	case *types.Interface:
		return []Leaf{{".t", BV(32), 0}, {".b", RefS, 0}}
	case *types.Signature:
		return []Leaf{{".f", BV(32), 0}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range x.leaves(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.path, l.sort, 0})
			}
		}
		return out
	case *types.Array:
		if u.Len() > 64 {
			panic(Unsupported("large array value %s", t))
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range x.leaves(u.Elem()) {
				out = append(out, Leaf{fmt.Sprintf("[%d]%s", i, l.path), l.sort, 0})
			}
		}
		return out
	}
	panic(Unsupported("type %s", t))
}

func (x *Engine) flatten(v Val) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case SliceV:
		return []*Term{v.ref, v.off, v.len, v.cap}
	case PtrV:
		if len(v.path) != 0 {
			panic(Unsupported("interior pointer stored in memory"))
		}
		if _, ok := v.elem.Underlying().(*types.Struct); ok {
			if !v.idx.isZero() && v.ref != x.ts.Nil {
				panic(Unsupported("pointer to a slice element stored in memory"))
			}
			return []*Term{v.ref}
		}
		return []*Term{v.ref, v.idx}
	case IfaceV:
		return []*Term{v.tag, v.ref}
	case StructV:
		var out []*Term
		for _, f := range v.f {
			out = append(out, x.flatten(f)...)
		}
		return out
	case nil:
		panic(Unsupported("undefined value"))
	}
	panic(Unsupported("flatten %T", v))
}

func (x *Engine) unflatten(t types.Type, ts []*Term) (Val, []*Term) {
	t = types.Unalias(t)
	if isGvN(t) {
		return ts[0], ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Map, *types.Chan, *types.Signature:
		return ts[0], ts[1:]
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return PtrV{ref: ts[0], idx: x.ts.Int(0), elem: u.Elem()}, ts[1:]
		}
		return PtrV{ref: ts[0], idx: ts[1], elem: u.Elem()}, ts[2:]
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Interface:
		return IfaceV{ts[0], ts[1]}, ts[2:]
	case *types.Struct:
		s := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = x.unflatten(u.Field(i).Type(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Array:
		s := StructV{}
		for i := int64(0); i < u.Len(); i++ {
			var v Val
			v, ts = x.unflatten(u.Elem(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	}
	panic(Unsupported("unflatten %s", t))
}

func (x *Engine) zeroTerm(s *Sort) *Term {
	switch s.K {
	case KBool:
		return x.ts.F
	case KBV:
		return x.ts.C(0, s.W)
	case KRef:
		return x.ts.Nil
	case KStr:
		return x.ts.StrLit("")
	}
	panic("zero of " + s.name)
}

func (x *Engine) zeroVal(t types.Type) Val {
	var ts []*Term
	for _, l := range x.leaves(t) {
		ts = append(ts, x.zeroTerm(l.sort))
	}
	v, _ := x.unflatten(t, ts)
	return v
}

// mergeVal is (c ? a : b)
func (x *Engine) mergeVal(c *Term, a, b Val) Val {
	if a == nil || b == nil {
		return nil
	}
	switch a := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		if !ok {
			return nil
		}
		if a.sort != bt.sort {
			return nil
		}
		return x.ts.Ite(c, a, bt)
	case SliceV:
		b, ok := b.(SliceV)
		if !ok {
			return nil
		}
		return SliceV{x.ts.Ite(c, a.ref, b.ref), x.ts.Ite(c, a.off, b.off), x.ts.Ite(c, a.len, b.len), x.ts.Ite(c, a.cap, b.cap)}
	case IfaceV:
		b, ok := b.(IfaceV)
		if !ok {
			return nil
		}
		return IfaceV{x.ts.Ite(c, a.tag, b.tag), x.ts.Ite(c, a.ref, b.ref)}
	case PtrV:
		b, ok := b.(PtrV)
		if !ok {
			return nil
		}
		if a.ref == x.ts.Nil && len(a.path) == 0 {
			a.path, a.elem, a.idx = b.path, b.elem, b.idx
		}
		if b.ref == x.ts.Nil && len(b.path) == 0 {
			b.path, b.elem, b.idx = a.path, a.elem, a.idx
		}
		if len(a.path) != len(b.path) || typeKey(a.elem) != typeKey(b.elem) {
			return poison{"pointers of different shape merged"}
		}
		p := make([]PathEl, len(a.path))
		for i := range p {
			if a.path[i].idx == nil && b.path[i].idx == nil {
				if a.path[i].f != b.path[i].f {
					return poison{"pointers to different fields merged"}
				}
				p[i] = a.path[i]
			} else {
				ia, ib := a.path[i].idx, b.path[i].idx
				if ia == nil {
					ia = x.ts.Int(int64(a.path[i].f))
				}
				if ib == nil {
					ib = x.ts.Int(int64(b.path[i].f))
				}
				p[i] = PathEl{idx: x.ts.Ite(c, ia, ib)}
			}
		}
		return PtrV{x.ts.Ite(c, a.ref, b.ref), x.ts.Ite(c, a.idx, b.idx), a.elem, p, a.asStr}
	case StructV:
		b, ok := b.(StructV)
		if !ok || len(a.f) != len(b.f) {
			return nil
		}
		s := StructV{f: make([]Val, len(a.f))}
		for i := range a.f {
			s.f[i] = x.mergeVal(c, a.f[i], b.f[i])
		}
		return s
	case TupleV:
		b, ok := b.(TupleV)
		if !ok || len(a) != len(b) {
			return nil
		}
		s := make(TupleV, len(a))
		for i := range a {
			s[i] = x.mergeVal(c, a[i], b[i])
		}
		return s
	case IterV:
		b, ok := b.(IterV)
		if ok && a.m == b.m && a.str == b.str && a.visited == b.visited && a.pos == b.pos {
			return a
		}
		if ok && a.m == b.m && a.str == b.str && a.isStr == b.isStr {
			a.pos = x.ts.Ite(c, a.pos, b.pos)
			if !a.isStr {
				a.visited = x.mergeNode(c, a.visited, b.visited)
			}
			return a
		}
		return nil
	case poison:
		return a
	}
	return nil
}

type poison struct{ msg string }

func sameVal(a, b Val) bool {
	switch a := a.(type) {
	case *Term:
		return a == b
	case SliceV:
		b, ok := b.(SliceV)
		return ok && a == b
	case IfaceV:
		b, ok := b.(IfaceV)
		return ok && a == b
	case PtrV:
		b, ok := b.(PtrV)
		if !ok || a.ref != b.ref || a.idx != b.idx || len(a.path) != len(b.path) || a.elem != b.elem {
			return false
		}
		for i := range a.path {
			if a.path[i] != b.path[i] {
				return false
			}
		}
		return true
	case StructV:
		b, ok := b.(StructV)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !sameVal(a.f[i], b.f[i]) {
				return false
			}
		}
		return true
	case TupleV:
		b, ok := b.(TupleV)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Engine) substVal(v Val, m, memo map[*Term]*Term) Val {
	f := func(t *Term) *Term { return x.ts.Subst(t, m, memo) }
	switch v := v.(type) {
	case *Term:
		return f(v)
	case SliceV:
		return SliceV{f(v.ref), f(v.off), f(v.len), f(v.cap)}
	case IfaceV:
		return IfaceV{f(v.tag), f(v.ref)}
	case PtrV:
		p := append([]PathEl(nil), v.path...)
		for i := range p {
			if p[i].idx != nil {
				p[i].idx = f(p[i].idx)
			}
		}
		return PtrV{f(v.ref), f(v.idx), v.elem, p, v.asStr}
	case StructV:
		s := StructV{f: make([]Val, len(v.f))}
		for i := range v.f {
			s.f[i] = x.substVal(v.f[i], m, memo)
		}
		return s
	case TupleV:
		s := make(TupleV, len(v))
		for i := range v {
			s[i] = x.substVal(v[i], m, memo)
		}
		return s
	}
	return v
}

// ---- heap ----

type HKind uint8

const (
	HBase HKind = iota
	HWrite
	HAlloc
	HObj
	HCopy
	HHavoc
	HMerge
	HObjAt // object ref is a copy of object sref in src
)

type HNode struct {
	kind  HKind
	reg   *Region
	prev  *HNode
	ref   *Term
	idx   *Term
	val   *Term // write value, alloc zero value, obj array
	n     *Term // copy length
	src   *HNode
	sref  *Term
	soff  *Term
	cond  *Term // merge
	alt   *HNode
	tick  int    // havoc: objects born at or after
	name  string // base / havoc array name
	mods  []*Term
	all   bool
	memo  map[[2]*Term]*Term
	smemo map[*Term]*Term
	rwgen int
	ctick int
	cgen  int
	c     [7]*Term
	cmods []*Term
	depth int
	join  *HNode  // of a merge: the nearest node both sides come from
	jrefs []*Term // references written on either side since
	jbad  bool    // something else than writes to known references happened
}

// skip is the next older node, past merges
func (n *HNode) skip() *HNode {
	if n.kind == HMerge {
		n.joined()
		return n.join
	}
	return n.prev
}

func (n *HNode) level() int {
	if n.depth == 0 {
		// iterative: chains are long
		var st []*HNode
		m := n
		for m != nil && m.depth == 0 {
			st = append(st, m)
			m = m.skip()
		}
		d := 0
		if m != nil {
			d = m.depth
		}
		for i := len(st) - 1; i >= 0; i-- {
			d++
			st[i].depth = d
		}
	}
	return n.depth
}

func (n *HNode) joined() {
	if n.join != nil || n.kind != HMerge {
		return
	}
	set := map[*Term]bool{}
	note := func(m *HNode) {
		switch m.kind {
		case HWrite, HAlloc, HObj, HObjAt, HCopy:
			set[m.ref] = true
		case HMerge:
			m.joined()
			if m.jbad {
				n.jbad = true
			}
			for _, r := range m.jrefs {
				set[r] = true
			}
		default:
			n.jbad = true
		}
	}
	a, b := n.prev, n.alt
	for a != b {
		if a.level() >= b.level() {
			note(a)
			a = a.skip()
		} else {
			note(b)
			b = b.skip()
		}
		if a == nil || b == nil {
			panic("heap histories do not meet")
		}
	}
	n.join = a
	for r := range set {
		n.jrefs = append(n.jrefs, r)
	}
	sort.Slice(n.jrefs, func(i, j int) bool { return n.jrefs[i].id < n.jrefs[j].id })
	if len(n.jrefs) > 64 {
		n.jbad = true
		n.jrefs = nil
	}
}

// untouched: the object was written on neither side of the merge
func (x *Engine) untouched(n *HNode, ref *Term) bool {
	n.joined()
	if n.jbad {
		return false
	}
	for _, r := range n.jrefs {
		if !x.refEq(ref, x.norm(r)).isFalse() {
			return false
		}
	}
	return true
}

// norml brings the terms of a node up to date with the known equalities
func (x *Engine) norml(n *HNode) {
	if n.cgen == x.gen+1 {
		return
	}
	n.cgen = x.gen + 1
	for i, t := range [7]*Term{n.ref, n.idx, n.val, n.n, n.sref, n.soff, n.cond} {
		if t != nil {
			n.c[i] = x.norm(t)
		}
	}
	n.cmods = n.cmods[:0]
	for _, m := range n.mods {
		n.cmods = append(n.cmods, x.norm(m))
	}
}

// refEq compares a reference being read with one that was written (hence not nil)
func (x *Engine) refEq(ref, w *Term) *Term {
	if w.op == OIte && ref != w {
		return x.refEqIn(ref, w, map[*Term]*Term{})
	}
	if ref.op == OSym && ref.b > 0 && x.ts.epoch(w) < ref.b {
		return x.ts.F
	}
	if w.op == OSym && w.b > 0 && x.ts.epoch(ref) < w.b {
		return x.ts.F
	}
	return x.ts.Eq(ref, w)
}

func (x *Engine) refEqIn(ref, w *Term, seen map[*Term]*Term) *Term {
	if w.op != OIte || ref == w {
		return x.refEq(ref, w)
	}
	if t, ok := seen[w]; ok {
		return t
	}
	t := x.ts.Ite(w.args[0], x.refEqIn(ref, w.args[1], seen), x.refEqIn(ref, w.args[2], seen))
	seen[w] = t
	return t
}

type Region struct {
	key       string
	idx, elem *Sort
}

func (x *Engine) region(key string, idx, elem *Sort) *Region {
	if r, ok := x.regions[key]; ok {
		if r.elem != elem || r.idx != idx {
			panic(Unsupported("region %s used at two sorts", key))
		}
		return r
	}
	r := &Region{key, idx, elem}
	x.regions[key] = r
	return r
}

func (x *Engine) baseNode(r *Region) *HNode {
	if n, ok := x.base[r.key]; ok {
		return n
	}
	n := &HNode{kind: HBase, reg: r, name: "H0:" + r.key, tick: x.startTick}
	x.base[r.key] = n
	return n
}

func (x *Engine) node(h map[string]*HNode, r *Region) *HNode {
	if n, ok := h[r.key]; ok {
		return n
	}
	return x.baseNode(r)
}

func (x *Engine) mergeNode(c *Term, a, b *HNode) *HNode {
	if a == b || c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	return &HNode{kind: HMerge, reg: a.reg, cond: c, prev: a, alt: b}
}

// born: the object was allocated at tick t or later
func (x *Engine) born(ref *Term, t int) *Term {
	switch ref.op {
	case OAlloc:
		return x.ts.Bool(ref.a >= t)
	case OGlobal, ONil:
		return x.ts.F
	case OIte:
		return x.ts.Ite(ref.args[0], x.born(ref.args[1], t), x.born(ref.args[2], t))
	}
	if ref.op == OSym && ref.b >= t && ref.b > 0 {
		return x.ts.T
	}
	if x.ts.epoch(ref) < t {
		return x.ts.F
	}
	return x.ts.Not(x.ts.ULt(x.ts.UF("birth", BV(32), 0, ref), x.ts.C(int64(t), 32)))
}

func (x *Engine) read(n *HNode, ref, idx *Term) *Term {
	if ref.op == OIte {
		if ref.args[1] == x.ts.Nil {
			return x.read(n, ref.args[2], idx)
		}
		if ref.args[2] == x.ts.Nil {
			return x.read(n, ref.args[1], idx)
		}
		return x.ts.Ite(ref.args[0], x.read(n, ref.args[1], idx), x.read(n, ref.args[2], idx))
	}
	if n.rwgen != x.gen {
		n.memo, n.smemo, n.rwgen = nil, nil, x.gen
	}
	k := [2]*Term{ref, idx}
	if r, ok := n.memo[k]; ok {
		return r
	}
	r := x.read1(n, ref, idx)
	if n.memo == nil {
		n.memo = map[[2]*Term]*Term{}
	}
	n.memo[k] = r
	return r
}

func (x *Engine) inInitHeap(n *HNode, ref *Term) *HNode {
	if n != x.base[n.reg.key] {
		return nil
	}
	if (ref.op == OAlloc && ref.a < x.startTick) || (ref.op == OGlobal && x.frozen[ref.name]) {
		return x.initHeap[n.reg.key]
	}
	return nil
}

func (x *Engine) read1(n *HNode, ref, idx *Term) *Term {
	ts := x.ts
	for {
		x.norml(n)
		nref, nidx, nval, nn, nsref, nsoff, ncond := n.c[0], n.c[1], n.c[2], n.c[3], n.c[4], n.c[5], n.c[6]
		switch n.kind {
		case HBase:
			if in := x.inInitHeap(n, ref); in != nil {
				return x.read(in, ref, idx)
			}
			return ts.Select(ts.UF(n.name, ArrS(n.reg.idx, n.reg.elem), n.tick, ref), idx)
		case HWrite:
			e := ts.And(x.refEq(ref, nref), ts.Eq(idx, nidx))
			if e.isTrue() {
				return nval
			}
			if e.isFalse() {
				n = n.prev
				continue
			}
			return ts.Ite(e, nval, x.read(n.prev, ref, idx))
		case HAlloc:
			e := x.refEq(ref, nref)
			if e.isTrue() {
				return nval
			}
			if e.isFalse() {
				n = n.prev
				continue
			}
			return ts.Ite(e, nval, x.read(n.prev, ref, idx))
		case HObj:
			e := x.refEq(ref, nref)
			if e.isFalse() {
				n = n.prev
				continue
			}
			v := ts.Select(nval, idx)
			if e.isTrue() {
				return v
			}
			return ts.Ite(e, v, x.read(n.prev, ref, idx))
		case HObjAt:
			e := x.refEq(ref, nref)
			if e.isFalse() {
				n = n.prev
				continue
			}
			v := x.read(n.src, nsref, idx)
			if e.isTrue() {
				return v
			}
			return ts.Ite(e, v, x.read(n.prev, ref, idx))
		case HCopy:
			e := x.refEq(ref, nref)
			if e.isFalse() {
				n = n.prev
				continue
			}
			d := ts.Sub(idx, nidx)
			e = ts.And(e, ts.ULt(d, nn))
			if e.isFalse() {
				n = n.prev
				continue
			}
			v := x.read(n.src, nsref, ts.Add(nsoff, d))
			return ts.Ite(e, v, x.read(n.prev, ref, idx))
		case HHavoc:
			c := x.changed(n, ref, idx)
			if c.isFalse() {
				n = n.prev
				continue
			}
			v := ts.Select(ts.UF(n.name, ArrS(n.reg.idx, n.reg.elem), n.ctick, ref), idx)
			return ts.Ite(c, v, x.read(n.prev, ref, idx))
		case HMerge:
			if ncond.isTrue() {
				n = n.prev
				continue
			}
			if ncond.isFalse() {
				n = n.alt
				continue
			}
			if x.untouched(n, ref) {
				n = n.join
				continue
			}
			return ts.Ite(ncond, x.read(n.prev, ref, idx), x.read(n.alt, ref, idx))
		}
	}
}

func (x *Engine) changed(n *HNode, ref, idx *Term) *Term {
	if n.all {
		return x.ts.T
	}
	cs := []*Term{x.ts.F}
	cs = append(cs, x.born(ref, n.tick))
	for _, m := range n.cmods {
		cs = append(cs, x.refEq(ref, m))
	}
	return x.ts.Or(cs...)
}

// snap is the content of one object as an array value
func (x *Engine) snap(n *HNode, ref *Term) *Term {
	ts := x.ts
	if ref.op == OIte {
		if ref.args[1] == ts.Nil {
			return x.snap(n, ref.args[2])
		}
		if ref.args[2] == ts.Nil {
			return x.snap(n, ref.args[1])
		}
		return ts.Ite(ref.args[0], x.snap(n, ref.args[1]), x.snap(n, ref.args[2]))
	}
	if n.rwgen != x.gen {
		n.memo, n.smemo, n.rwgen = nil, nil, x.gen
	}
	if r, ok := n.smemo[ref]; ok {
		return r
	}
	r := x.snap1(n, ref)
	if n.smemo == nil {
		n.smemo = map[*Term]*Term{}
	}
	n.smemo[ref] = r
	return r
}

func (x *Engine) snap1(n *HNode, ref *Term) *Term {
	ts := x.ts
	so := ArrS(n.reg.idx, n.reg.elem)
	for {
		x.norml(n)
		nref, nidx, nval, nn, nsref, nsoff, ncond := n.c[0], n.c[1], n.c[2], n.c[3], n.c[4], n.c[5], n.c[6]
		switch n.kind {
		case HBase:
			if in := x.inInitHeap(n, ref); in != nil {
				return x.snap(in, ref)
			}
			return ts.UF(n.name, so, n.tick, ref)
		case HWrite, HAlloc, HObj, HCopy, HObjAt:
			e := x.refEq(ref, nref)
			if e.isFalse() {
				n = n.prev
				continue
			}
			var v *Term
			switch n.kind {
			case HWrite:
				v = ts.Store(x.snap(n.prev, ref), nidx, nval)
			case HAlloc:
				v = ts.ConstArr(so, nval)
			case HObj:
				v = nval
			case HObjAt:
				v = x.snap(n.src, nsref)
			case HCopy:
				a, b := x.snap(n.prev, ref), x.snap(n.src, nsref)
				v = ts.UF("arrCopy:"+so.Elem.name, so, max(ts.epoch(a), ts.epoch(b)), a, nidx, nn, b, nsoff)
			}
			if e.isTrue() {
				return v
			}
			return ts.Ite(e, v, x.snap(n.prev, ref))
		case HHavoc:
			c := x.changed(n, ref, nil)
			if c.isFalse() {
				n = n.prev
				continue
			}
			v := ts.UF(n.name, so, n.ctick, ref)
			if c.isTrue() {
				return v
			}
			return ts.Ite(c, v, x.snap(n.prev, ref))
		case HMerge:
			if x.untouched(n, ref) {
				n = n.join
				continue
			}
			return ts.Ite(ncond, x.snap(n.prev, ref), x.snap(n.alt, ref))
		}
	}
}

// ---- typed memory access ----

func (x *Engine) elemRegions(t types.Type) []*Region {
	if r, ok := x.erMemo[t]; ok {
		return r
	}
	k := typeKey(t)
	var out []*Region
	for _, l := range x.leaves(t) {
		out = append(out, x.region(k+l.path, BV(64), l.sort))
	}
	x.erMemo[t] = out
	return out
}

// subLeaves: for a path inside type t, offset of the first leaf and the type there.
// Symbolic array indices are reported as alternatives.
type leafAlt struct {
	cond  *Term
	first int
}

func (x *Engine) resolvePath(t types.Type, path []PathEl) ([]leafAlt, types.Type) {
	alts := []leafAlt{{x.ts.T, 0}}
	for _, p := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			off := 0
			for i := 0; i < p.f; i++ {
				off += len(x.leaves(u.Field(i).Type()))
			}
			for i := range alts {
				alts[i].first += off
			}
			t = u.Field(p.f).Type()
		case *types.Array:
			sz := len(x.leaves(u.Elem()))
			if p.idx == nil || p.idx.isC() {
				k := p.f
				if p.idx != nil {
					k = int(p.idx.i64())
				}
				for i := range alts {
					alts[i].first += k * sz
				}
			} else {
				var na []leafAlt
				for _, a := range alts {
					for k := int64(0); k < u.Len(); k++ {
						na = append(na, leafAlt{x.ts.And(a.cond, x.ts.Eq(p.idx, x.ts.Int(k))), a.first + int(k)*sz})
					}
				}
				alts = na
			}
			t = u.Elem()
		default:
			panic(Unsupported("path into %s", t))
		}
	}
	return alts, t
}

func (x *Engine) loadPtr(h map[string]*HNode, p PtrV) (Val, types.Type) {
	if isOpaque(p.elem) {
		panic(Unsupported("load through opaque pointer %s", p.elem))
	}
	alts, t := x.resolvePath(p.elem, p.path)
	regs := x.elemRegions(p.elem)
	n := len(x.leaves(t))
	out := make([]*Term, n)
	for j := n - 1; j >= 0; j-- {
		var v *Term
		for i := len(alts) - 1; i >= 0; i-- {
			r := regs[alts[i].first+j]
			y := x.read(x.node(h, r), p.ref, p.idx)
			if v == nil {
				v = y
			} else {
				v = x.ts.Ite(alts[i].cond, y, v)
			}
		}
		out[j] = v
	}
	v, _ := x.unflatten(t, out)
	return v, t
}

func isOpaque(t types.Type) bool { return t == nil }

func (x *Engine) storePtr(st *State, p PtrV, v Val) {
	alts, t := x.resolvePath(p.elem, p.path)
	regs := x.elemRegions(p.elem)
	n := len(x.leaves(t))
	tv := x.flatten(v)
	if len(tv) != n {
		panic(Unsupported("store of %d leaves into %s (%d)", len(tv), t, n))
	}
	for _, a := range alts {
		for j := 0; j < n; j++ {
			r := regs[a.first+j]
			w := tv[j]
			if !a.cond.isTrue() {
				w = x.ts.Ite(a.cond, w, x.read(x.node(st.heap, r), p.ref, p.idx))
			}
			x.write(st, r, p.ref, p.idx, w)
		}
	}
}

// write is the single place where memory cells change one at a time
func (x *Engine) write(st *State, r *Region, ref, idx, v *Term) {
	x.noteWrite(st, r, ref)
	st.heap[r.key] = &HNode{kind: HWrite, reg: r, prev: x.node(st.heap, r), ref: ref, idx: idx, val: v}
}

func (x *Engine) allocObj(st *State, elem types.Type) *Term {
	x.tick++
	ref := x.ts.Alloc(x.tick)
	for _, r := range x.elemRegions(elem) {
		st.heap[r.key] = &HNode{kind: HAlloc, reg: r, prev: x.node(st.heap, r), ref: ref, val: x.zeroTerm(r.elem)}
		x.touched(r)
	}
	return ref
}

func (x *Engine) copyRange(st *State, elem types.Type, dst, doff, n *Term, h map[string]*HNode, src, soff *Term) {
	for _, r := range x.elemRegions(elem) {
		x.noteWrite(st, r, dst)
		sn := x.node(h, r)
		if n.isC() && n.i64() >= 0 && n.i64() <= 32 {
			// expand short copies: simpler terms
			var vs []*Term
			for i := int64(0); i < n.i64(); i++ {
				vs = append(vs, x.read(sn, src, x.ts.Add(soff, x.ts.Int(i))))
			}
			for i := int64(0); i < n.i64(); i++ {
				st.heap[r.key] = &HNode{kind: HWrite, reg: r, prev: x.node(st.heap, r), ref: dst, idx: x.ts.Add(doff, x.ts.Int(i)), val: vs[i]}
			}
			continue
		}
		st.heap[r.key] = &HNode{kind: HCopy, reg: r, prev: x.node(st.heap, r), ref: dst, idx: doff, n: n, src: sn, sref: src, soff: soff}
	}
}

// ---- maps ----

type mapRegs struct {
	dom, ln *Region
	val     []*Region
	kt, vt  types.Type
}

func (x *Engine) mapRegions(m *types.Map) mapRegs {
	k := typeKey(m)
	kl := x.leaves(m.Key())
	if len(kl) != 1 {
		if _, ok := m.Key().Underlying().(*types.Interface); !ok {
			panic(Unsupported("map key type %s", m.Key()))
		}
		panic(Unsupported("map key type %s", m.Key()))
	}
	ks := kl[0].sort
	r := mapRegs{kt: m.Key(), vt: m.Elem()}
	r.dom = x.region(k+"#dom", ks, BoolS)
	r.ln = x.region(k+"#len", BV(64), BV(64))
	for _, l := range x.leaves(m.Elem()) {
		r.val = append(r.val, x.region(k+"#v"+l.path, ks, l.sort))
	}
	return r
}

func (x *Engine) mapGet(h map[string]*HNode, m *types.Map, ref, key *Term) (Val, *Term) {
	r := x.mapRegions(m)
	nonnil := x.ts.Not(x.ts.Eq(ref, x.ts.Nil))
	ok := x.ts.And(nonnil, x.read(x.node(h, r.dom), ref, key))
	var ts []*Term
	for _, v := range r.val {
		ts = append(ts, x.read(x.node(h, v), ref, key))
	}
	v, _ := x.unflatten(m.Elem(), ts)
	return v, ok
}

func (x *Engine) mapLen(h map[string]*HNode, m *types.Map, ref *Term) *Term {
	r := x.mapRegions(m)
	n := x.read(x.node(h, r.ln), ref, x.ts.Int(0))
	return x.ts.Ite(x.ts.Eq(ref, x.ts.Nil), x.ts.Int(0), n)
}

func (x *Engine) mapPut(st *State, m *types.Map, ref, key *Term, v Val) {
	r := x.mapRegions(m)
	had := x.read(x.node(st.heap, r.dom), ref, key)
	n := x.read(x.node(st.heap, r.ln), ref, x.ts.Int(0))
	x.write(st, r.ln, ref, x.ts.Int(0), x.ts.Ite(had, n, x.ts.Add(n, x.ts.Int(1))))
	x.write(st, r.dom, ref, key, x.ts.T)
	for i, t := range x.flatten(v) {
		x.write(st, r.val[i], ref, key, t)
	}
}

func (x *Engine) mapDelete(st *State, m *types.Map, ref, key *Term) {
	r := x.mapRegions(m)
	had := x.read(x.node(st.heap, r.dom), ref, key)
	n := x.read(x.node(st.heap, r.ln), ref, x.ts.Int(0))
	x.write(st, r.ln, ref, x.ts.Int(0), x.ts.Ite(had, x.ts.Sub(n, x.ts.Int(1)), n))
	x.write(st, r.dom, ref, key, x.ts.F)
}

func (x *Engine) newMap(st *State, m *types.Map) *Term {
	x.tick++
	ref := x.ts.Alloc(x.tick)
	r := x.mapRegions(m)
	for _, g := range append([]*Region{r.dom, r.ln}, r.val...) {
		st.heap[g.key] = &HNode{kind: HAlloc, reg: g, prev: x.node(st.heap, g), ref: ref, val: x.zeroTerm(g.elem)}
		x.touched(g)
	}
	return ref
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = strings.Join
