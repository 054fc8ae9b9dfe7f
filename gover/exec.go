package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type edge struct {
	from, to *ssa.BasicBlock
	succ     int // which successor of from
	st       *State
}

func predIndex(e edge) int {
	// the k-th edge from e.from to e.to
	k := 0
	for i := 0; i < e.succ; i++ {
		if e.from.Succs[i] == e.to {
			k++
		}
	}
	for i, p := range e.to.Preds {
		if p == e.from {
			if k == 0 {
				return i
			}
			k--
		}
	}
	panic("pred")
}

// ---- values ----

func (x *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		if _, ok := types.Unalias(t).(*types.TypeParam); ok {
			panic(Unsupported("type parameter"))
		}
		return x.zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.ts.Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return x.ts.StrLit(constant.StringVal(c.Value))
			}
		case u.Info()&types.IsInteger != 0:
			s := basicSort(u)
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return x.ts.C(i, s.W)
			}
			if i, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
				return x.ts.UC(i, s.W)
			}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if basicSort(u).W == 32 {
				return x.ts.UC(uint64(math.Float32bits(float32(f))), 32)
			}
			return x.ts.UC(math.Float64bits(f), 64)
		}
	}
	panic(Unsupported("constant %s", c))
}

func globalName(g *ssa.Global) string { return g.Pkg.Pkg.Path() + "." + g.Name() }

func (x *Engine) globalPtr(g *ssa.Global) PtrV {
	t := g.Type().(*types.Pointer).Elem()
	if a, ok := t.Underlying().(*types.Array); ok {
		t = a.Elem()
	}
	return PtrV{ref: x.ts.Global(globalName(g)), idx: x.ts.Int(0), elem: t}
}

func (x *Engine) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		x.ensureInit(v)
		return x.globalPtr(v)
	case *ssa.Function:
		return x.fid(FuncV{fn: v})
	case *ssa.Builtin:
		return nil
	}
	r, ok := st.env[v]
	if !ok {
		panic(Unsupported("value %s of %s is not available", v.Name(), fr.fn))
	}
	if p, ok := r.(poison); ok {
		panic(Unsupported("%s", p.msg))
	}
	if r == nil {
		panic(Unsupported("value %s of %s could not be merged", v.Name(), fr.fn))
	}
	return x.normVal(r)
}

func (x *Engine) term(fr *Frame, st *State, v ssa.Value) *Term {
	t, ok := x.val(fr, st, v).(*Term)
	if !ok {
		panic(Unsupported("scalar expected for %s", v))
	}
	return t
}

func (x *Engine) simpVal(p *PC, v Val) Val {
	if p.parent == nil {
		return v
	}
	l := x.pcLits(p)
	return x.substVal(v, l, p.memo)
}

// ---- merging ----

func (x *Engine) mergeState(a, b *State) *State {
	anc := common(a.pc, b.pc)
	ca, cb := x.norm(x.above(a.pc, anc)), x.norm(x.above(b.pc, anc))
	var pc *PC
	if p := x.sib[[2]*PC{a.pc, b.pc}]; p != nil {
		pc = p // the two sides of one branch
	} else {
		pc = x.push(anc, x.ts.Or(ca, cb))
	}
	if pc == nil {
		// both dead; keep one
		return a
	}
	// choose the shorter condition
	c := ca
	n := &State{pc: pc, heap: make(map[string]*HNode, len(a.heap)), env: make(map[ssa.Value]Val, len(a.env))}
	for k, va := range a.env {
		vb, ok := b.env[k]
		if !ok {
			continue
		}
		if sameVal(va, vb) {
			n.env[k] = va
			continue
		}
		na, nb := x.normVal(va), x.normVal(vb)
		n.env[k] = x.mergeVal(c, na, nb)
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for k := range keys {
		r := x.regions[k]
		n.heap[k] = x.mergeNode(c, x.node(a.heap, r), x.node(b.heap, r))
	}
	return n
}

func (x *Engine) mergeEdges(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	var sts []*State
	for _, e := range es {
		pi := predIndex(e)
		st := e.st
		var vals []Val
		var phis []*ssa.Phi
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
			var v Val
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
						v = poison{fmt.Sprint(r)}
					}
				}()
				v = x.val(fr, st, p.Edges[pi])
			}()
			vals = append(vals, v)
		}
		if len(phis) > 0 {
			if len(es) > 1 || true {
				ns := st.clone()
				st = ns
			}
			for i, p := range phis {
				st.env[p] = vals[i]
			}
		}
		sts = append(sts, st)
	}
	return x.mergeAll(sts)
}

func (x *Engine) mergeAll(sts []*State) *State {
	// merge deepest first: neighbours share the longest prefix
	for len(sts) > 1 {
		bi, bj, bd := 0, 1, -1
		for i := 0; i < len(sts); i++ {
			for j := i + 1; j < len(sts); j++ {
				d := common(sts[i].pc, sts[j].pc).depth
				if d > bd || d == bd && x.sib[[2]*PC{sts[i].pc, sts[j].pc}] != nil && x.sib[[2]*PC{sts[bi].pc, sts[bj].pc}] == nil {
					bi, bj, bd = i, j, d
				}
			}
		}
		m := x.mergeState(sts[bi], sts[bj])
		ns := append([]*State{}, sts[:bi]...)
		ns = append(ns, m)
		ns = append(ns, sts[bi+1:bj]...)
		ns = append(ns, sts[bj+1:]...)
		sts = ns
	}
	return sts[0]
}

// ---- control flow ----

func (x *Engine) runBlocks(fr *Frame, li *loopInfo, set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, start *State) (exits, backs []edge) {
	in := map[*ssa.BasicBlock][]edge{}
	first := true
	deliver := func(e edge) {
		if e.to == header && set != nil {
			backs = append(backs, e)
			return
		}
		if set != nil && !set[e.to] {
			exits = append(exits, e)
			return
		}
		in[e.to] = append(in[e.to], e)
	}
	for _, b := range li.rpo {
		if set != nil && !set[b] {
			continue
		}
		var st *State
		if b == header && first {
			first = false
			st = start
		} else {
			es := in[b]
			if len(es) == 0 {
				continue
			}
			delete(in, b)
			if l := li.loops[b]; l != nil {
				for _, e := range x.runLoop(fr, li, l, es) {
					deliver(e)
				}
				continue
			}
			st = x.mergeEdges(fr, b, es)
		}
		for _, e := range x.execBlock(fr, b, st) {
			deliver(e)
		}
	}
	return
}

func (x *Engine) runFunc(fr *Frame, st *State) (*State, Val) {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		panic(Unsupported("no body for %s", fn))
	}
	li := x.P.loops(fn)
	if li.irreduc {
		panic(Unsupported("irreducible control flow in %s", fn))
	}
	b0 := fn.Blocks[0]
	if l := li.loops[b0]; l != nil {
		panic(Unsupported("loop at the entry of %s", fn))
	}
	x.runBlocks(fr, li, nil, b0, st)
	if len(fr.rets) == 0 {
		return nil, nil
	}
	var sts []*State
	for _, r := range fr.rets {
		r.st.env = map[ssa.Value]Val{}
		if r.val != nil {
			r.st.env[retKey] = r.val
		}
		sts = append(sts, r.st)
	}
	m := x.mergeAll(sts)
	v := m.env[retKey]
	return m, v
}

var retKey ssa.Value = &ssa.Const{}

// ---- loops ----

const unrollCap = 300

func (x *Engine) findInv(fr *Frame, l *loop) *Inv {
	var r *Inv
	for _, iv := range x.P.invs[fr.fn] {
		if iv.ord != l.ord {
			continue
		}
		if iv.only != "" {
			if x.h != nil && (x.h.name == iv.only || strings.HasSuffix(x.h.name, "."+iv.only)) {
				return iv
			}
			continue
		}
		r = iv
	}
	return r
}

func (x *Engine) runLoop(fr *Frame, li *loopInfo, l *loop, es []edge) []edge {
	st := x.mergeEdges(fr, l.header, es)
	if iv := x.findInv(fr, l); iv != nil && !x.inInit {
		return x.invLoop(fr, li, l, iv, st)
	}
	var exits []edge
	if !x.inInit && x.ranges(fr, st, l) {
		return x.invLoop(fr, li, l, nil, st) // nothing is known of what it changes
	}
	for it := 0; ; it++ {
		if it > unrollCap {
			panic(Unsupported("loop at %s in %s needs an invariant", x.position(loopPos(l)), fnName(fr.fn)))
		}
		if it > 0 && it%20 == 0 && it >= 20 {
			if !x.feasible(st) {
				break
			}
		}
		e, backs := x.runBlocks(fr, li, l.blocks, l.header, st)
		exits = append(exits, e...)
		if len(backs) == 0 {
			break
		}
		st = x.mergeEdges(fr, l.header, backs)
	}
	return exits
}

// ranges says that a loop goes over the elements of a slice or string of so many elements that it cannot be unrolled; it
// ends by itself.
func (x *Engine) ranges(fr *Frame, st *State, l *loop) bool {
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var n *Term
		if p.Comment == "rangeindex" {
			if v := rangeLen(l, p); v != nil {
				n, _ = x.val(fr, st, v).(*Term)
			}
		} else if v, ok := counter(l, p); ok && v != nil {
			if sv, ok := x.val(fr, st, v).(SliceV); ok {
				n = sv.len
			}
		}
		if n == nil {
			continue
		}
		pc := x.push(st.pc, x.simp(st.pc, x.norm(x.ts.SLt(x.ts.Int(unrollCap), n))))
		if pc == nil {
			continue
		}
		t := st.clone()
		t.pc = pc
		if !x.pcTerm(pc).isFalse() && x.feasible(t) {
			return true
		}
	}
	return false
}

// ---- invariants ----

type bindSrc struct {
	phi   *ssa.Phi
	plus1 bool
	less1 bool
	val   ssa.Value
	load  ssa.Value // address to load
	ghost Val       // parameter of the contract only
	t     types.Type
	entry bool
}

// rangeLen is the length that a range index is compared with at the head of its loop
func rangeLen(l *loop, p *ssa.Phi) ssa.Value {
	for _, u := range *p.Referrers() {
		add, ok := u.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.Block() != l.header {
			continue
		}
		for _, w := range *add.Referrers() {
			lt, ok := w.(*ssa.BinOp)
			if !ok || lt.Op != token.LSS || lt.X != ssa.Value(add) || lt.Block() != l.header {
				continue
			}
			if in, ok := lt.Y.(ssa.Instruction); ok && !l.blocks[in.Block()] {
				return lt.Y
			}
		}
	}
	return nil
}

// counter says that p counts the rounds of the loop from 0: it is increased by 1 at the end of each, after the head of
// the loop has compared it with a bound; bound is the slice or string whose length that is, if it stays the same.
func counter(l *loop, p *ssa.Phi) (bound ssa.Value, ok bool) {
	if !types.Identical(p.Type(), types.Typ[types.Int]) || len(l.header.Instrs) == 0 {
		return nil, false
	}
	in := 0
	for k, e := range p.Edges {
		if !l.blocks[l.header.Preds[k]] {
			c, ok := e.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.ExactString() != "0" {
				return nil, false
			}
			continue
		}
		add, ok := e.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.X != ssa.Value(p) || add.Block() == l.header || !l.blocks[add.Block()] {
			return nil, false
		}
		if c, ok := add.Y.(*ssa.Const); !ok || c.Value == nil || c.Value.ExactString() != "1" {
			return nil, false
		}
		in++
	}
	last, isIf := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !isIf || in == 0 {
		return nil, false
	}
	lt, isOp := last.Cond.(*ssa.BinOp)
	if !isOp || lt.Op != token.LSS || lt.X != ssa.Value(p) || lt.Block() != l.header || !l.blocks[l.header.Succs[0]] || l.blocks[l.header.Succs[1]] {
		return nil, false
	}
	if call, isCall := lt.Y.(*ssa.Call); isCall {
		if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
			v := call.Call.Args[0]
			switch v.Type().Underlying().(type) {
			case *types.Slice, *types.Basic:
				switch d := v.(type) {
				case *ssa.Parameter:
					return v, true
				case ssa.Instruction:
					if !l.blocks[d.Block()] {
						return v, true
					}
				}
			}
		}
	}
	return nil, true
}

// bindParams finds what each parameter of an invariant function denotes at the loop header
func (x *Engine) bindParams(fr *Frame, l *loop, iv *Inv, st *State) []bindSrc {
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	used := map[*ssa.Phi]bool{}
	out := make([]bindSrc, len(iv.fn.Params))
	found := make([]bool, len(iv.fn.Params))
	// all debug refs of the function by variable name
	type dref struct {
		v    ssa.Value
		addr bool
		b    *ssa.BasicBlock
		i    int
	}
	refs := map[string][]dref{}
	for _, b := range fr.fn.Blocks {
		for i, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && d.Object() != nil {
				refs[d.Object().Name()] = append(refs[d.Object().Name()], dref{d.X, d.IsAddr, b, i})
			}
		}
	}
	// range index phis: name of the key variable
	rangeName := map[*ssa.Phi]string{}
	for _, p := range phis {
		if p.Comment != "rangeindex" {
			continue
		}
		for _, u := range *p.Referrers() {
			bo, ok := u.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD {
				continue
			}
			for name, rs := range refs {
				for _, r := range rs {
					if r.v == ssa.Value(bo) {
						rangeName[p] = name
					}
				}
			}
		}
	}
	for i, prm := range iv.fn.Params {
		name := prm.Name()
		want := name
		entry := false
		if strings.HasSuffix(name, "0") {
			for _, q := range fr.fn.Params {
				if q.Name() == strings.TrimSuffix(name, "0") {
					entry, want = true, q.Name()
				}
			}
		}
		if entry {
			for _, q := range fr.fn.Params {
				if q.Name() == want {
					out[i], found[i] = bindSrc{val: q}, true
				}
			}
			continue
		}
		for _, p := range phis {
			if p.Comment == name && !used[p] && types.Identical(p.Type().Underlying(), prm.Type().Underlying()) {
				out[i], found[i] = bindSrc{phi: p}, true
				used[p] = true
				break
			}
			if rangeName[p] == name && !used[p] {
				out[i], found[i] = bindSrc{phi: p, plus1: true}, true
				used[p] = true
				break
			}
		}
		if found[i] {
			continue
		}
		for _, q := range fr.fn.Params {
			if q.Name() == name {
				out[i], found[i] = bindSrc{val: q}, true
			}
		}
		for _, q := range fr.fn.FreeVars {
			if q.Name() == name {
				if _, isPtr := q.Type().Underlying().(*types.Pointer); isPtr && !types.Identical(q.Type(), prm.Type()) {
					out[i], found[i] = bindSrc{load: q}, true
				} else {
					out[i], found[i] = bindSrc{val: q}, true
				}
			}
		}
		if name == "outerindex" {
			if b, ok := outerIndex(l); ok {
				out[i], found[i] = b, true
				continue
			}
		}
		// latest dominating reference
		var best *dref
		for k := range refs[name] {
			r := &refs[name][k]
			if r.b != l.header && !r.b.Dominates(l.header) {
				continue
			}
			if l.blocks[r.b] {
				continue
			}
			if _, ok := st.env[r.v]; !ok {
				switch r.v.(type) {
				case *ssa.Const, *ssa.Global, *ssa.Function:
				default:
					continue
				}
			}
			if best == nil || best.b.Dominates(r.b) && (best.b != r.b || best.i < r.i) {
				best = r
			}
		}
		if best != nil {
			if best.addr {
				out[i], found[i] = bindSrc{load: best.v}, true
			} else {
				out[i], found[i] = bindSrc{val: best.v}, true
			}
		}
		if !found[i] {
			// variables kept in memory
			for _, rs := range refs[name] {
				if rs.addr {
					if _, ok := st.env[rs.v]; ok {
						out[i], found[i] = bindSrc{load: rs.v}, true
					}
				}
			}
		}
	}
	// fall back on ghosts of the contract, then on types
	for i, prm := range iv.fn.Params {
		if found[i] {
			continue
		}
		if fr.parent != nil && fr.parent.h == x.h && fr.parent.mode == mVerify {
			for _, in := range x.inputs {
				if in.name == prm.Name() && types.Identical(in.t, prm.Type()) {
					out[i], found[i] = bindSrc{ghost: in.v}, true
				}
			}
			if found[i] {
				continue
			}
		}
		var cands []bindSrc
		if prm.Name() == "rangeindex" { // the loop counts by itself now
			for _, p := range phis {
				if _, ok := counter(l, p); ok && !used[p] {
					cands = append(cands, bindSrc{phi: p, less1: true})
				}
			}
		}
		for _, p := range phis {
			if used[p] || len(cands) > 0 && prm.Name() == "rangeindex" {
				continue
			}
			if types.Identical(p.Type().Underlying(), prm.Type().Underlying()) {
				cands = append(cands, bindSrc{phi: p, plus1: p.Comment == "rangeindex"})
			}
		}
		if len(cands) == 0 {
			// range index written as another integer type, or a name that moved: any value of the type that is in scope
			for v := range st.env {
				if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && in.Block().Dominates(l.header) && !l.blocks[in.Block()] {
					if types.Identical(v.Type(), prm.Type()) {
						cands = append(cands, bindSrc{val: v})
					}
				}
			}
			for _, q := range fr.fn.Params {
				if types.Identical(q.Type(), prm.Type()) {
					cands = append(cands, bindSrc{val: q})
				}
			}
		}
		if len(cands) == 1 {
			out[i] = cands[0]
			if cands[0].phi != nil {
				used[cands[0].phi] = true
			}
			continue
		}
		panic(Unsupported("loop invariant %s: no variable %s at the loop of %s", iv.name, prm.Name(), fnName(fr.fn)))
	}
	return out
}

// outerIndex is the index of the current element of the loop around l
func outerIndex(l *loop) (bindSrc, bool) {
	for b := l.header.Idom(); b != nil; b = b.Idom() {
		back := false // is b the header of a loop around l
		for _, p := range b.Preds {
			if b.Dominates(p) && reaches(l.header, p, b) {
				back = true
			}
		}
		if !back {
			continue
		}
		var ints []*ssa.Phi
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if p.Comment == "rangeindex" {
				return bindSrc{phi: p, plus1: true}, true
			}
			if types.Identical(p.Type(), types.Typ[types.Int]) {
				ints = append(ints, p)
			}
		}
		if len(ints) == 1 {
			return bindSrc{phi: ints[0]}, true
		}
		return bindSrc{}, false
	}
	return bindSrc{}, false
}

// reaches: is there a path from a to b that does not pass stop
func reaches(a, b, stop *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{stop: true}
	todo := []*ssa.BasicBlock{a}
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if n == b {
			return true
		}
		if seen[n] {
			continue
		}
		seen[n] = true
		todo = append(todo, n.Succs...)
	}
	return false
}

func (x *Engine) bindVals(fr *Frame, st *State, bs []bindSrc) []Val {
	var out []Val
	for _, b := range bs {
		switch {
		case b.ghost != nil:
			out = append(out, b.ghost)
		case b.phi != nil:
			v := x.val(fr, st, b.phi)
			if b.plus1 {
				v = x.ts.Add(v.(*Term), x.ts.Int(1))
			}
			if b.less1 {
				v = x.ts.Sub(v.(*Term), x.ts.Int(1))
			}
			out = append(out, v)
		case b.load != nil:
			p := x.val(fr, st, b.load).(PtrV)
			v, t := x.loadPtr(st.heap, p)
			x.wf(v, t)
			out = append(out, v)
		default:
			out = append(out, x.val(fr, st, b.val))
		}
	}
	return out
}

// minborn marks ref symbols known to be nil or born at or after a tick
func (x *Engine) bornOK(ref *Term, t int) bool {
	switch ref.op {
	case ONil:
		return true
	case OAlloc:
		return ref.a >= t
	case OIte:
		return x.bornOK(ref.args[1], t) && x.bornOK(ref.args[2], t)
	case OSym:
		return ref.b > 0 && ref.b >= t
	}
	return false
}

func refLeaves(x *Engine, v Val, t types.Type) []*Term {
	var out []*Term
	for i, l := range x.leaves(t) {
		if l.sort == RefS {
			out = append(out, x.flatten(v)[i])
		}
	}
	return out
}

func (x *Engine) invLoop(fr *Frame, li *loopInfo, l *loop, iv *Inv, st *State) []edge {
	if iv != nil {
		x.invUsed[iv] = true
	}
	x.depth++
	defer func() { x.depth-- }()
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	var bs []bindSrc
	if iv != nil {
		bs = x.bindParams(fr, l, iv, st)
	}
	// invariant holds at entry
	x.runInv(fr, l.header, st, iv, x.bindVals(fr, st, bs), mInvCheck, "inv-init", nil)

	entry := x.vframeEntry()
	// guesses: these references are nil or created since the function under verification began
	guess := map[*ssa.Phi]bool{}
	for _, p := range phis {
		v := x.val(fr, st, p)
		if _, ok := v.(IterV); ok {
			continue
		}
		rl := refLeaves(x, v, p.Type())
		if len(rl) == 0 {
			continue
		}
		g := true
		for _, r := range rl {
			if !x.bornOK(x.simp(st.pc, r), entry) {
				g = false
			}
		}
		guess[p] = g
	}
	ws := &writeSet{refs: map[string]map[*Term]bool{}, any: map[string]bool{}, touched: map[string]bool{}, born: map[string]int{}}
	mk := func() (*State, *writeSet) {
		h := st.clone()
		x.tick++
		t0 := x.tick
		for _, p := range phis {
			old := x.val(fr, st, p)
			if it, ok := old.(IterV); ok {
				h.env[p] = x.havocIter(it)
				continue
			}
			var tv []*Term
			for _, lf := range x.leaves(p.Type()) {
				nm := p.Comment
				if nm == "" {
					nm = p.Name()
				}
				s := x.symTerm(nm+lf.path, lf.sort)
				if lf.sort == RefS && guess[p] {
					s = x.ts.raw(&Term{op: OSym, sort: RefS, name: s.name, a: s.a, b: entry})
				}
				tv = append(tv, s)
			}
			v, _ := x.unflatten(p.Type(), tv)
			// pointers keep their index when they point to whole objects
			if pv, ok := v.(PtrV); ok {
				if po, ok := old.(PtrV); ok && len(po.path) == 0 && po.idx.isZero() && isStructPtr(p.Type()) {
					pv.idx = x.ts.Int(0)
					v = pv
				}
			}
			x.wf(v, p.Type())
			h.env[p] = v
		}
		// a range index never falls below -1
		for _, p := range phis {
			if n, ok := counter(l, p); ok { // a counter is between 0 and the length it is compared with
				t := h.env[p].(*Term)
				x.fact([]*Term{t}, x.ts.SLe(x.ts.Int(0), t))
				if n != nil {
					if sv, ok := x.val(fr, h, n).(SliceV); ok {
						x.fact([]*Term{t}, x.ts.SLe(t, sv.len))
					}
				}
			}
			if p.Comment == "rangeindex" {
				x.fact([]*Term{h.env[p].(*Term)}, x.ts.SLe(x.ts.C(-1, 64), h.env[p].(*Term)))
				if n := rangeLen(l, p); n != nil { // nor reaches the length, which is taken once, before the loop
					if t, ok := h.env[n].(*Term); ok {
						x.fact([]*Term{h.env[p].(*Term)}, x.ts.Implies(x.ts.SLe(x.ts.Int(0), t), x.ts.SLt(h.env[p].(*Term), t)))
						x.fact([]*Term{h.env[p].(*Term)}, x.ts.SLe(h.env[p].(*Term), x.ts.C(maxLen, 64)))
					}
				}
			}
		}
		// iterators advanced inside the loop
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					if it, ok := h.env[nx.Iter].(IterV); ok {
						h.env[nx.Iter] = x.havocIter(it)
					}
				}
			}
		}
		for k := range ws.touched {
			r := x.regions[k]
			x.tick++
			n := &HNode{kind: HHavoc, reg: r, prev: x.node(st.heap, r), tick: t0, name: fmt.Sprintf("HL%d:%s", x.tick, k)}
			n.ctick = x.tick
			if ws.any[k] {
				n.all = true
			}
			if b, ok := ws.born[k]; ok {
				n.tick = b
			}
			var refs []*Term
			for t := range ws.refs[k] {
				refs = append(refs, t)
			}
			sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
			n.mods = refs
			h.heap[k] = n
		}
		return h, &writeSet{tick: t0, refs: map[string]map[*Term]bool{}, any: map[string]bool{}, touched: map[string]bool{}, born: map[string]int{}}
	}
	sub := func(a, b *writeSet) bool { // a within b
		for k := range a.touched {
			if !b.touched[k] {
				return false
			}
		}
		for k := range a.any {
			if !b.any[k] {
				return false
			}
		}
		for k, v := range a.born {
			w, ok := b.born[k]
			if !b.any[k] && (!ok || w > v) {
				return false
			}
		}
		for k, m := range a.refs {
			for t := range m {
				if !b.refs[k][t] && !b.any[k] {
					return false
				}
			}
		}
		return true
	}
	join := func(a, b *writeSet) {
		for k := range a.touched {
			b.touched[k] = true
		}
		for k := range a.any {
			b.any[k] = true
		}
		for k, v := range a.born {
			if w, ok := b.born[k]; !ok || v < w {
				b.born[k] = v
			}
		}
		for k, m := range a.refs {
			if b.refs[k] == nil {
				b.refs[k] = map[*Term]bool{}
			}
			for t := range m {
				b.refs[k][t] = true
			}
		}
	}
	checkGuess := func(backs []edge) bool {
		ok := true
		for _, p := range phis {
			if !guess[p] {
				continue
			}
			for _, e := range backs {
				v := x.val(fr, e.st, p.Edges[predIndex(e)])
				for _, r := range refLeaves(x, v, p.Type()) {
					if !x.bornOK(x.simp(e.st.pc, r), entry) {
						guess[p] = false
						ok = false
					}
				}
			}
		}
		return ok
	}
	for round := 0; ; round++ {
		if round > 12 {
			panic(Unsupported("the write set of the loop in %s does not stabilise", fnName(fr.fn)))
		}
		h, w := mk()
		x.mute++
		nrets := len(fr.rets)
		na, nh := len(x.assumes), len(x.hints)
		mf := x.minFresh
		if mf == 0 {
			x.minFresh = w.tick
		}
		x.ws = append(x.ws, w)
		x.invTick = w.tick
		x.runInv(fr, l.header, h, iv, x.bindVals(fr, h, bs), mInvAssume, "", nil)
		_, backs := x.runBlocks(fr, li, l.blocks, l.header, h)
		for _, e := range backs {
			if e.st.pc == nil {
				continue
			}
		}
		ok := checkGuess(backs)
		x.ws = x.ws[:len(x.ws)-1]
		x.mute--
		fr.rets = fr.rets[:nrets]
		x.assumes, x.hints = x.assumes[:na], x.hints[:nh]
		x.minFresh = mf
		if ok && sub(w, ws) {
			break
		}
		join(w, ws)
	}
	// the real run
	h, w := mk()
	x.ws = append(x.ws, w)
	x.invTick = w.tick
	vals := x.bindVals(fr, h, bs)
	var meas *Term
	x.runInv(fr, l.header, h, iv, vals, mInvAssume, "", &meas)
	exits, backs := x.runBlocks(fr, li, l.blocks, l.header, h)
	for _, e := range backs {
		ns := x.mergeEdges(fr, l.header, []edge{e})
		m := meas
		x.runInv(fr, l.header, ns, iv, x.bindVals(fr, ns, bs), mInvCheck, "inv-preserve", &m)
	}
	if !checkGuess(backs) || !sub(w, ws) {
		panic(Unsupported("loop analysis of %s is not stable", fnName(fr.fn)))
	}
	x.ws = x.ws[:len(x.ws)-1]
	for _, o := range x.ws { // outer loops see these writes too
		_ = o
	}
	return exits
}

func isStructPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return ok
}

func (x *Engine) vframeEntry() int {
	if x.vframe != nil {
		return x.vframe.entry
	}
	return x.startTick
}

func (x *Engine) runInv(fr *Frame, header *ssa.BasicBlock, st *State, iv *Inv, vals []Val, mode fmode, label string, meas **Term) {
	if iv == nil {
		return
	}
	nf := &Frame{fn: iv.fn, mode: mode, spec: true, parent: fr, label: "(" + label + ")", useTick: x.invTick, pc0: st.pc}
	nf.invMeas = meas
	for _, in := range header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if it, ok := x.val(fr, st, n.Iter).(IterV); ok && !it.isStr {
				nf.iter = &it
			}
		}
	}
	s := &State{pc: st.pc, heap: map[string]*HNode{}, env: map[ssa.Value]Val{}}
	for k, v := range st.heap {
		s.heap[k] = v
	}
	for i, p := range iv.fn.Params {
		s.env[p] = vals[i]
	}
	x.runFunc(nf, s)
}

func (x *Engine) havocIter(it IterV) IterV {
	n := it
	if it.isStr {
		n.pos = x.symTerm("strpos", BV(64))
		return n
	}
	x.tick++
	n.visited = &HNode{kind: HHavoc, all: true, reg: it.visited.reg, prev: it.visited, tick: x.tick, ctick: x.tick, name: fmt.Sprintf("HV%d", x.tick)}
	return n
}

// ---- blocks ----

func (x *Engine) execBlock(fr *Frame, b *ssa.BasicBlock, st *State) []edge {
	fr.block = b
	for _, in := range b.Instrs {
		if p := in.Pos(); p.IsValid() {
			x.curPos = p
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], 0, st}}
		case *ssa.If:
			c := x.simp(st.pc, x.norm(x.term(fr, st, in.Cond)))
			if c.isTrue() {
				return []edge{{b, b.Succs[0], 0, st}}
			}
			if c.isFalse() {
				return []edge{{b, b.Succs[1], 1, st}}
			}
			pt, pf := x.push(st.pc, c), x.push(st.pc, x.ts.Not(c))
			if pt != nil && pf != nil {
				x.sib[[2]*PC{pt, pf}] = st.pc
				x.sib[[2]*PC{pf, pt}] = st.pc
			}
			var out []edge
			if pt != nil {
				s := st
				if pf != nil {
					s = st.clone()
				}
				s.pc = pt
				out = append(out, edge{b, b.Succs[0], 0, s})
			}
			if pf != nil {
				st.pc = pf
				out = append(out, edge{b, b.Succs[1], 1, st})
			}
			return out
		case *ssa.Return:
			var v Val
			switch len(in.Results) {
			case 0:
			case 1:
				v = x.val(fr, st, in.Results[0])
			default:
				tv := TupleV{}
				for _, r := range in.Results {
					tv = append(tv, x.val(fr, st, r))
				}
				v = tv
			}
			fr.rets = append(fr.rets, retState{st, v})
			return nil
		case *ssa.Panic:
			if !fr.spec {
				x.oblige(st, "safety", "no panic in "+fnName(fr.fn), in.Pos(), x.ts.F)
			}
			return nil
		default:
			ns := x.execInstr(fr, st, in)
			if ns == nil {
				return nil
			}
			st = ns
		}
	}
	return nil
}

func (x *Engine) nonNil(fr *Frame, st *State, p PtrV, pos token.Pos) {
	if p.ref.op == OAlloc || p.ref.op == OGlobal {
		return
	}
	x.safe(fr, st, "nil dereference", pos, x.ts.Not(x.ts.Eq(p.ref, x.ts.Nil)))
}

func (x *Engine) arrOf(p PtrV) (*types.Array, bool) {
	// p points at an array kept inside a region of whole arrays
	_, t := x.resolvePath(p.elem, p.path)
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

func (x *Engine) execInstr(fr *Frame, st *State, in ssa.Instruction) *State {
	ts := x.ts
	x.steps++
	set := func(v ssa.Value, r Val) { st.env[v] = r }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok && (isSliced(in) || a.Len() > 16) {
			ref := x.allocObj(st, a.Elem())
			set(in, PtrV{ref: ref, idx: ts.Int(0), elem: a.Elem()})
			return st
		}
		ref := x.allocObj(st, t)
		if keptLocal(in) {
			ts.local[ref.a] = true
		}
		set(in, PtrV{ref: ref, idx: ts.Int(0), elem: t})
	case *ssa.FieldAddr:
		p := x.val(fr, st, in.X).(PtrV)
		x.nonNil(fr, st, p, in.Pos())
		if p.elem == nil {
			panic(Unsupported("field of opaque pointer"))
		}
		np := PtrV{p.ref, p.idx, p.elem, append(append([]PathEl{}, p.path...), PathEl{f: in.Field}), false}
		set(in, np)
	case *ssa.Field:
		s, ok := x.val(fr, st, in.X).(StructV)
		if !ok {
			panic(Unsupported("field of %s", in.X))
		}
		set(in, s.f[in.Field])
	case *ssa.IndexAddr:
		idx := x.simp(st.pc, x.intIdx(fr, st, in.Index))
		switch xt := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.simpVal(st.pc, x.val(fr, st, in.X)).(SliceV)
			x.safe(fr, st, "index in range", in.Pos(), ts.And(ts.SLe(ts.Int(0), idx), ts.SLt(idx, s.len)))
			set(in, PtrV{ref: s.ref, idx: ts.Add(s.off, idx), elem: xt.Elem()})
		case *types.Pointer:
			p := x.val(fr, st, in.X).(PtrV)
			at := xt.Elem().Underlying().(*types.Array)
			x.nonNil(fr, st, p, in.Pos())
			x.safe(fr, st, "index in range", in.Pos(), ts.And(ts.SLe(ts.Int(0), idx), ts.SLt(idx, ts.Int(at.Len()))))
			if a, ok := x.arrOf(p); ok && typeKey(a) == typeKey(at) {
				el := PathEl{idx: idx}
				if idx.isC() {
					el = PathEl{f: int(idx.i64())}
				}
				set(in, PtrV{p.ref, p.idx, p.elem, append(append([]PathEl{}, p.path...), el), false})
			} else {
				set(in, PtrV{ref: p.ref, idx: ts.Add(p.idx, idx), elem: p.elem})
			}
		default:
			panic(Unsupported("IndexAddr on %s", xt))
		}
	case *ssa.Index:
		idx := x.simp(st.pc, x.intIdx(fr, st, in.Index))
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			s := x.term(fr, st, in.X)
			x.wfStr(s)
			x.safe(fr, st, "string index in range", in.Pos(), ts.And(ts.SLe(ts.Int(0), idx), ts.SLt(idx, ts.StrLen(s))))
			set(in, ts.StrAt(s, idx))
			return st
		}
		a := x.val(fr, st, in.X).(StructV)
		x.safe(fr, st, "index in range", in.Pos(), ts.And(ts.SLe(ts.Int(0), idx), ts.SLt(idx, ts.Int(int64(len(a.f))))))
		if idx.isC() {
			if k := idx.i64(); k >= 0 && k < int64(len(a.f)) {
				set(in, a.f[k])
				return st
			}
			return nil
		}
		r := a.f[len(a.f)-1]
		for k := len(a.f) - 2; k >= 0; k-- {
			r = x.mergeVal(ts.Eq(idx, ts.Int(int64(k))), a.f[k], r)
		}
		set(in, r)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				x.ensureInit(g)
				if at, ok := in.Type().Underlying().(*types.Array); ok {
					p := x.globalPtr(g)
					set(in, x.loadArr(st, p, at))
					return st
				}
			}
			p, ok := x.simpVal(st.pc, x.val(fr, st, in.X)).(PtrV)
			if !ok {
				panic(Unsupported("load of %s", in.X))
			}
			x.nonNil(fr, st, p, in.Pos())
			if at, ok := in.Type().Underlying().(*types.Array); ok {
				if a, ok := x.arrOf(p); !ok || typeKey(a) != typeKey(at) {
					set(in, x.loadArr(st, p, at))
					return st
				}
			}
			v, t := x.loadPtr(st.heap, p)
			v = x.simpVal(st.pc, v)
			x.wf(v, t)
			if p.asStr {
				v = x.bytesToStr(st, v.(SliceV))
			}
			set(in, v)
		case token.SUB:
			v := x.term(fr, st, in.X)
			if isFloat(in.X.Type()) {
				set(in, ts.UF("fneg", v.sort, 0, v))
			} else {
				set(in, ts.Neg(v))
			}
		case token.NOT:
			set(in, ts.Not(x.term(fr, st, in.X)))
		case token.XOR:
			set(in, ts.BNot(x.term(fr, st, in.X)))
		default:
			panic(Unsupported("%s", in))
		}
	case *ssa.Store:
		p, ok := x.simpVal(st.pc, x.val(fr, st, in.Addr)).(PtrV)
		if !ok {
			panic(Unsupported("store to %s", in.Addr))
		}
		v := x.val(fr, st, in.Val)
		x.nonNil(fr, st, p, in.Pos())
		if at, ok := in.Val.Type().Underlying().(*types.Array); ok {
			if a, ok := x.arrOf(p); !ok || typeKey(a) != typeKey(at) {
				for k, e := range v.(StructV).f {
					x.storePtr(st, PtrV{ref: p.ref, idx: ts.Add(p.idx, ts.Int(int64(k))), elem: p.elem}, e)
				}
				return st
			}
		}
		x.storePtr(st, p, x.simpVal(st.pc, v))
	case *ssa.BinOp:
		set(in, x.binop(fr, st, in))
	case *ssa.ChangeType:
		set(in, x.val(fr, st, in.X))
	case *ssa.ChangeInterface:
		set(in, x.val(fr, st, in.X))
	case *ssa.Convert:
		set(in, x.convert(fr, st, in))
	case *ssa.MakeInterface:
		set(in, x.box(st, x.val(fr, st, in.X), in.X.Type()))
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, in)
	case *ssa.Extract:
		tv, ok := x.val(fr, st, in.Tuple).(TupleV)
		if !ok {
			panic(Unsupported("extract of %s", in.Tuple))
		}
		set(in, tv[in.Index])
	case *ssa.MakeSlice:
		n := x.simp(st.pc, x.intIdx(fr, st, in.Len))
		c := x.simp(st.pc, x.intIdx(fr, st, in.Cap))
		x.safe(fr, st, "make: length in range", in.Pos(), ts.And(ts.SLe(ts.Int(0), n), ts.SLe(n, c), ts.SLe(c, ts.Int(maxLen*4))))
		et := in.Type().Underlying().(*types.Slice).Elem()
		ref := x.allocObj(st, et)
		set(in, SliceV{ref, ts.Int(0), n, c})
	case *ssa.Slice:
		return x.slice(fr, st, in)
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			s := x.term(fr, st, in.X)
			idx := x.simp(st.pc, x.intIdx(fr, st, in.Index))
			x.wfStr(s)
			x.safe(fr, st, "string index in range", in.Pos(), ts.And(ts.SLe(ts.Int(0), idx), ts.SLt(idx, ts.StrLen(s))))
			set(in, ts.StrAt(s, idx))
			return st
		}
		mt := in.X.Type().Underlying().(*types.Map)
		m := x.simp(st.pc, x.term(fr, st, in.X))
		k := x.mapKey(fr, st, in.Index)
		v, ok := x.mapGet(st.heap, mt, m, k)
		ok = x.simp(st.pc, ok)
		x.wf(v, mt.Elem())
		v = x.mergeVal(ok, v, x.zeroVal(mt.Elem()))
		if in.CommaOk {
			set(in, TupleV{v, ok})
		} else {
			set(in, v)
		}
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		m := x.simp(st.pc, x.term(fr, st, in.Map))
		x.safe(fr, st, "write to nil map", in.Pos(), ts.Not(ts.Eq(m, ts.Nil)))
		x.mapPut(st, mt, m, x.mapKey(fr, st, in.Key), x.val(fr, st, in.Value))
	case *ssa.MakeMap:
		set(in, x.newMap(st, in.Type().Underlying().(*types.Map)))
	case *ssa.Range:
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			r := x.mapRegions(mt)
			x.tick++
			it := IterV{m: x.term(fr, st, in.X), mt: mt}
			it.visited = &HNode{kind: HAlloc, reg: r.dom, prev: nil, ref: it.m, val: ts.F}
			it.heap = map[string]*HNode{}
			for k, v := range st.heap {
				it.heap[k] = v
			}
			set(in, it)
		} else {
			set(in, IterV{isStr: true, str: x.term(fr, st, in.X), pos: ts.Int(0)})
		}
	case *ssa.Next:
		return x.next(fr, st, in)
	case *ssa.MakeClosure:
		f := FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bindings = append(f.bindings, x.val(fr, st, b))
		}
		set(in, x.fid(f))
	case *ssa.Call:
		ns, v := x.call(fr, st, &in.Call, in)
		if ns == nil {
			return nil
		}
		if v != nil {
			ns.env[in] = v
		}
		return ns
	case *ssa.Defer:
		fr.defers = append(fr.defers, deferred{in: in, pc: st.pc})
		// arguments are evaluated now
		d := &fr.defers[len(fr.defers)-1]
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(fr, st, a))
		}
		if !in.Call.IsInvoke() {
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				d.fv = x.val(fr, st, in.Call.Value)
			}
		} else {
			d.fv = x.val(fr, st, in.Call.Value)
		}
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if common(d.pc, st.pc) != d.pc {
				panic(Unsupported("conditional defer in %s", fr.fn))
			}
			ns, _ := x.callWith(fr, st, &d.in.Call, d.in, d.fv, d.args)
			if ns == nil {
				return nil
			}
			st = ns
		}
		return st
	case *ssa.SliceToArrayPointer:
		panic(Unsupported("%s", in))
	default:
		panic(Unsupported("instruction %T in %s", in, fr.fn))
	}
	return st
}

type deferred struct {
	in   *ssa.Defer
	pc   *PC
	fv   Val
	args []Val
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// keptLocal: the address is used for loads and stores of the variable and its fields only, so nothing else refers to it
func keptLocal(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Val == v {
				return false
			}
		case *ssa.FieldAddr:
			if !keptLocal(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isSliced(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Slice:
			return true
		case *ssa.DebugRef:
			_ = r
		}
	}
	return false
}

func (x *Engine) loadArr(st *State, p PtrV, at *types.Array) Val {
	s := StructV{}
	for k := int64(0); k < at.Len(); k++ {
		v, t := x.loadPtr(st.heap, PtrV{ref: p.ref, idx: x.ts.Add(p.idx, x.ts.Int(k)), elem: p.elem})
		x.wf(v, t)
		s.f = append(s.f, v)
	}
	return s
}

// intIdx widens an index expression to 64 bits
func (x *Engine) intIdx(fr *Frame, st *State, v ssa.Value) *Term {
	t := x.term(fr, st, v)
	if t.sort.W == 64 {
		return t
	}
	if isSigned(v.Type()) {
		return x.ts.SExt(t, 64)
	}
	return x.ts.ZExt(t, 64)
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (x *Engine) mapKey(fr *Frame, st *State, v ssa.Value) *Term {
	k, ok := x.simpVal(st.pc, x.val(fr, st, v)).(*Term)
	if !ok {
		panic(Unsupported("map key %s", v.Type()))
	}
	return k
}

func (x *Engine) binop(fr *Frame, st *State, in *ssa.BinOp) Val {
	ts := x.ts
	switch in.Op {
	case token.EQL, token.NEQ:
		a, b := x.val(fr, st, in.X), x.val(fr, st, in.Y)
		e := x.eqVal(st.heap, x.simpVal(st.pc, a), x.simpVal(st.pc, b), in.X.Type())
		if in.Op == token.NEQ {
			return ts.Not(e)
		}
		return e
	}
	a, b := x.term(fr, st, in.X), x.term(fr, st, in.Y)
	if isFloat(in.X.Type()) {
		switch in.Op {
		case token.LSS, token.LEQ:
			return ts.UF("f"+in.Op.String(), BoolS, 0, a, b)
		case token.GTR:
			return ts.UF("f<", BoolS, 0, b, a)
		case token.GEQ:
			return ts.UF("f<=", BoolS, 0, b, a)
		}
		return ts.UF("f"+in.Op.String(), a.sort, 0, a, b)
	}
	if a.sort == StrS {
		switch in.Op {
		case token.ADD:
			x.wfStr(a)
			x.wfStr(b)
			return ts.StrCat(a, b)
		case token.LSS:
			return ts.UF("strlt", BoolS, 0, a, b)
		case token.GTR:
			return ts.UF("strlt", BoolS, 0, b, a)
		case token.LEQ:
			return ts.Not(ts.UF("strlt", BoolS, 0, b, a))
		case token.GEQ:
			return ts.Not(ts.UF("strlt", BoolS, 0, a, b))
		}
	}
	sg := isSigned(in.X.Type())
	switch in.Op {
	case token.SHL, token.SHR:
		w := a.sort.W
		sb := isSigned(in.Y.Type())
		if sb {
			x.safe(fr, st, "shift count not negative", in.Pos(), ts.SLe(ts.C(0, b.sort.W), b))
		}
		// bring the count to the width of the value, saturating
		var c *Term
		switch {
		case b.sort.W == w:
			c = b
		case b.sort.W < w:
			c = ts.ZExt(b, w)
		default:
			big := ts.Not(ts.ULt(b, ts.C(int64(w), b.sort.W)))
			c = ts.Ite(big, ts.BigC(mask(w), w), ts.Extract(b, w-1, 0))
			if w < 8 {
				panic(Unsupported("shift of narrow value"))
			}
		}
		c = x.simp(st.pc, c)
		if in.Op == token.SHL {
			return ts.Shl(a, c)
		}
		if sg {
			return ts.AShr(a, c)
		}
		return ts.LShr(a, c)
	case token.ADD:
		return ts.Add(a, b)
	case token.SUB:
		return ts.Sub(a, b)
	case token.MUL:
		return ts.Mul(a, b)
	case token.QUO, token.REM:
		x.safe(fr, st, "division by zero", in.Pos(), ts.Not(ts.Eq(b, ts.C(0, b.sort.W))))
		op := OUDiv
		switch {
		case in.Op == token.QUO && sg:
			op = OSDiv
		case in.Op == token.REM && sg:
			op = OSRem
		case in.Op == token.REM:
			op = OURem
		}
		if sg && b.isC() && b.sval().Sign() > 0 && ts.nonneg(a) {
			if op == OSDiv {
				op = OUDiv
			} else {
				op = OURem
			}
		}
		return ts.DivRem(op, a, b)
	case token.AND:
		if a.sort == BoolS {
			return ts.And(a, b)
		}
		return ts.BAnd(a, b)
	case token.OR:
		if a.sort == BoolS {
			return ts.Or(a, b)
		}
		return ts.BOr(a, b)
	case token.XOR:
		return ts.BXor(a, b)
	case token.AND_NOT:
		return ts.BAnd(a, ts.BNot(b))
	case token.LSS:
		if sg {
			return ts.SLt(a, b)
		}
		return ts.ULt(a, b)
	case token.LEQ:
		if sg {
			return ts.SLe(a, b)
		}
		return ts.ULe(a, b)
	case token.GTR:
		if sg {
			return ts.SLt(b, a)
		}
		return ts.ULt(b, a)
	case token.GEQ:
		if sg {
			return ts.SLe(b, a)
		}
		return ts.ULe(b, a)
	}
	panic(Unsupported("operator %s", in.Op))
}

func (x *Engine) convert(fr *Frame, st *State, in *ssa.Convert) Val {
	ts := x.ts
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	v := x.val(fr, st, in.X)
	fb, fIsB := from.(*types.Basic)
	tb, tIsB := to.(*types.Basic)
	if tIsB && tb.Kind() == types.UnsafePointer {
		return v
	}
	if fIsB && fb.Kind() == types.UnsafePointer {
		// *(*string)(unsafe.Pointer(&b)) reads the bytes of b as a string
		p, ok := v.(PtrV)
		pt, ok2 := to.(*types.Pointer)
		if ok && ok2 && p.elem != nil && len(p.path) == 0 && typeKey(p.elem) == "[]uint8" && typeKey(pt.Elem()) == "string" {
			x.notes["a byte slice is read as a string through unsafe.Pointer; its bytes must not change afterwards"] = true
			p.asStr = true
			return p
		}
		panic(Unsupported("unsafe conversion %s -> %s", in.X.Type(), in.Type()))
	}
	if fIsB && tIsB {
		t := v.(*Term)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			w := basicSort(tb).W
			switch {
			case w == t.sort.W:
				return t
			case w < t.sort.W:
				return ts.Extract(t, w-1, 0)
			case isSigned(in.X.Type()):
				return ts.SExt(t, w)
			}
			return ts.ZExt(t, w)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return t
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return ts.UF("runeStr", StrS, 0, ts.ZExt(t, max(64, t.sort.W)))
		case fb.Info()&types.IsFloat != 0 || tb.Info()&types.IsFloat != 0:
			return ts.UF("conv_"+fb.Name()+"_"+tb.Name(), basicSort(tb), 0, t)
		}
	}
	if tIsB && tb.Info()&types.IsString != 0 {
		if sl, ok := from.(*types.Slice); ok && typeKey(sl.Elem()) == "uint8" {
			s := x.simpVal(st.pc, v).(SliceV)
			return x.bytesToStr(st, s)
		}
	}
	if fIsB && fb.Info()&types.IsString != 0 {
		if sl, ok := to.(*types.Slice); ok && typeKey(sl.Elem()) == "uint8" {
			s := x.simp(st.pc, v.(*Term))
			return x.strToBytes(st, s, sl.Elem())
		}
	}
	if _, ok := to.(*types.Basic); ok {
		panic(Unsupported("conversion %s -> %s", in.X.Type(), in.Type()))
	}
	return v
}

func (x *Engine) bytesToStr(st *State, s SliceV) *Term {
	r := x.region("uint8", BV(64), BV(8))
	if s.len.isC() && s.len.i64() <= 64 {
		// literal when all bytes are known
		var b []byte
		for i := int64(0); i < s.len.i64(); i++ {
			t := x.read(x.node(st.heap, r), s.ref, x.ts.Add(s.off, x.ts.Int(i)))
			if !t.isC() {
				b = nil
				break
			}
			b = append(b, byte(t.u64()))
		}
		if int64(len(b)) == s.len.i64() {
			return x.ts.StrLit(string(b))
		}
	}
	t := x.ts.StrOf(x.snap(x.node(st.heap, r), s.ref), s.off, s.len)
	x.wfStr(t)
	return t
}

func (x *Engine) strToBytes(st *State, s *Term, et types.Type) SliceV {
	x.wfStr(s)
	n := x.ts.StrLen(s)
	ref := x.allocObj(st, et)
	r := x.elemRegions(et)[0]
	var arr *Term
	if s.op == OUF && s.name == "strOf" && s.args[1].isZero() {
		arr = s.args[0]
	} else {
		arr = x.ts.UF("bytesOf", ArrS(BV(64), BV(8)), 0, s)
	}
	st.heap[r.key] = &HNode{kind: HObj, reg: r, prev: x.node(st.heap, r), ref: ref, val: arr}
	return SliceV{ref, x.ts.Int(0), n, n}
}

func (x *Engine) slice(fr *Frame, st *State, in *ssa.Slice) *State {
	ts := x.ts
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.simp(st.pc, x.intIdx(fr, st, v))
	}
	switch xt := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := x.simp(st.pc, x.term(fr, st, in.X))
		x.wfStr(s)
		n := ts.StrLen(s)
		lo, hi := get(in.Low, ts.Int(0)), get(in.High, n)
		x.safe(fr, st, "slice bounds", in.Pos(), ts.And(ts.SLe(ts.Int(0), lo), ts.SLe(lo, hi), ts.SLe(hi, n)))
		st.env[in] = ts.Substr(s, lo, hi)
		return st
	case *types.Slice:
		s := x.simpVal(st.pc, x.val(fr, st, in.X)).(SliceV)
		lo, hi := get(in.Low, ts.Int(0)), get(in.High, s.len)
		mx := get(in.Max, s.cap)
		c := ts.And(ts.SLe(ts.Int(0), lo), ts.SLe(lo, hi), ts.SLe(hi, mx), ts.SLe(mx, s.cap))
		x.safe(fr, st, "slice bounds", in.Pos(), c)
		if in.High != nil && !fr.spec {
			x.safe(fr, st, "reslicing within the length (restriction of the model)", in.Pos(), ts.SLe(hi, s.len))
		}
		st.env[in] = SliceV{s.ref, ts.Add(s.off, lo), ts.Sub(hi, lo), ts.Sub(mx, lo)}
		return st
	case *types.Pointer:
		at := xt.Elem().Underlying().(*types.Array)
		p := x.val(fr, st, in.X).(PtrV)
		if a, ok := x.arrOf(p); ok && typeKey(a) == typeKey(at) {
			panic(Unsupported("slice of an array inside an object"))
		}
		n := ts.Int(at.Len())
		lo, hi := get(in.Low, ts.Int(0)), get(in.High, n)
		mx := get(in.Max, n)
		x.safe(fr, st, "slice bounds", in.Pos(), ts.And(ts.SLe(ts.Int(0), lo), ts.SLe(lo, hi), ts.SLe(hi, mx), ts.SLe(mx, n)))
		st.env[in] = SliceV{p.ref, ts.Add(p.idx, lo), ts.Sub(hi, lo), ts.Sub(mx, lo)}
		return st
	}
	panic(Unsupported("slice of %s", in.X.Type()))
}

func (x *Engine) implements(tag *Term, it *types.Interface) *Term {
	ts := x.ts
	tags := map[uint64]bool{}
	if constTags(tag, tags) {
		return ts.mapIte(tag, func(t *Term) *Term {
			k := t.u64()
			if k == 0 {
				return ts.F
			}
			return ts.Bool(types.Implements(x.tagT[k], it))
		})
	}
	return ts.And(ts.Not(ts.Eq(tag, ts.C(0, 32))), ts.UF("impl_"+types.TypeString(it, nil), BoolS, 0, tag))
}

func (x *Engine) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) *State {
	ts := x.ts
	v := x.simpVal(st.pc, x.val(fr, st, in.X)).(IfaceV)
	if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		c := x.implements(v.tag, it)
		if it.NumMethods() == 0 {
			c = ts.Not(ts.Eq(v.tag, ts.C(0, 32)))
		}
		if in.CommaOk {
			z := IfaceV{ts.C(0, 32), ts.Nil}
			st.env[in] = TupleV{x.mergeVal(c, v, z), c}
			return st
		}
		x.safe(fr, st, "type assertion", in.Pos(), c)
		st.env[in] = v
		return st
	}
	c := x.simp(st.pc, ts.Eq(v.tag, x.tagOf(in.AssertedType)))
	u := x.unbox(st.heap, v, in.AssertedType)
	if !c.isFalse() {
		x.wf(u, in.AssertedType)
	}
	if in.CommaOk {
		st.env[in] = TupleV{x.mergeVal(c, u, x.zeroVal(in.AssertedType)), c}
		return st
	}
	x.safe(fr, st, "type assertion", in.Pos(), c)
	if c.isFalse() {
		return nil
	}
	st.env[in] = u
	return st
}

func (x *Engine) next(fr *Frame, st *State, in *ssa.Next) *State {
	ts := x.ts
	it := x.val(fr, st, in.Iter).(IterV)
	if it.isStr {
		panic(Unsupported("range over string"))
	}
	// literal key sets are not enumerated: an arbitrary unvisited key
	r := x.mapRegions(it.mt)
	ok := x.symTerm("next.ok", BoolS)
	kt := x.leaves(it.mt.Key())[0]
	key := x.symTerm("next.key", kt.sort)
	if kt.sort == StrS {
		x.wfStr(key)
	}
	dom := x.node(st.heap, r.dom)
	present := ts.And(ts.Not(ts.Eq(it.m, ts.Nil)), x.read(dom, it.m, key), ts.Not(x.read(it.visited, it.m, key)))
	x.fact([]*Term{ok}, ts.Implies(ok, present))
	// when the iteration ends, every present key was visited
	x.iterDone = append(x.iterDone, iterDone{ok: ok, dom: dom, m: it.m, visited: it.visited, sort: kt.sort})
	v, _ := x.mapGet(st.heap, it.mt, it.m, key)
	x.wf(v, it.mt.Elem())
	n := it
	n.visited = &HNode{kind: HWrite, reg: r.dom, prev: it.visited, ref: it.m, idx: key, val: ts.T}
	// the iterator is a mutable object: record its new state under the Range instruction and its phi copies
	st.env[in.Iter] = n
	st.env[in] = TupleV{ok, key, v}
	return st
}

type iterDone struct {
	ok      *Term
	dom     *HNode
	m       *Term
	visited *HNode
	sort    *Sort
}

// ---- calls ----

func (x *Engine) call(fr *Frame, st *State, c *ssa.CallCommon, site ssa.Instruction) (*State, Val) {
	var fv Val
	var args []Val
	if c.IsInvoke() {
		fv = x.val(fr, st, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = x.val(fr, st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.simpVal(st.pc, x.val(fr, st, a)))
	}
	return x.callWith(fr, st, c, site, fv, args)
}

func (x *Engine) callWith(fr *Frame, st *State, c *ssa.CallCommon, site ssa.Instruction, fv Val, args []Val) (*State, Val) {
	ts := x.ts
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, c, args, site)
	}
	type target struct {
		cond *Term
		fn   *ssa.Function
		bind []Val
		args []Val
	}
	var tgts []target
	// the call a contract of an interface's method or a function type is about
	abs := absOf(c)
	if abs != nil && fr.h != nil && fr.h.abs == abs && !fr.called && fr.mode == mUse {
		fr.called = true
		return x.useResult(fr, st, c.Signature(), abs.Name(), site)
	}
	if c.IsInvoke() {
		iv := x.simpVal(st.pc, fv).(IfaceV)
		tags := map[uint64]bool{}
		if !constTags(iv.tag, tags) {
			if h := x.P.absContracts[abs]; h != nil {
				x.safe(fr, st, "method call on nil interface", site.Pos(), ts.Not(ts.Eq(iv.tag, ts.C(0, 32))))
				return x.useContract(fr, st, h, nil, append([]Val{iv}, args...), site)
			}
			ks := x.closedWorld(c.Method)
			if len(ks) == 0 {
				return x.invokeUnknown(fr, st, c, iv, args, site)
			}
			// only types of its own package can have an unexported method
			tags = map[uint64]bool{0: true}
			any := []*Term{ts.Eq(iv.tag, ts.C(0, 32))}
			for _, k := range ks {
				tags[uint64(k)] = true
				any = append(any, ts.Eq(iv.tag, ts.C(int64(k), 32)))
			}
			pc := x.push(st.pc, ts.Or(any...))
			if pc == nil {
				return nil, nil
			}
			st.pc = pc
		}
		if tags[0] {
			x.safe(fr, st, "method call on nil interface", site.Pos(), ts.Not(ts.Eq(iv.tag, ts.C(0, 32))))
		}
		var ks []int
		for k := range tags {
			if k != 0 {
				ks = append(ks, int(k))
			}
		}
		sort.Ints(ks)
		for _, k := range ks {
			t := x.tagT[k]
			m := x.P.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				continue
			}
			cond := ts.Eq(iv.tag, ts.C(int64(k), 32))
			rv := x.unbox(st.heap, iv, t)
			tgts = append(tgts, target{cond, m, nil, append([]Val{rv}, args...)})
		}
	} else {
		t := x.simp(st.pc, fv.(*Term))
		ids := map[uint64]bool{}
		if !constTags(t, ids) {
			if h := x.P.absContracts[abs]; h != nil {
				x.safe(fr, st, "call of nil function", site.Pos(), ts.Not(ts.Eq(t, ts.C(0, 32))))
				return x.useContract(fr, st, h, nil, append([]Val{t}, args...), site)
			}
			panic(Unsupported("call of an unknown function value in %s", fr.fn))
		}
		if ids[0] {
			x.safe(fr, st, "call of nil function", site.Pos(), ts.Not(ts.Eq(t, ts.C(0, 32))))
		}
		var ks []int
		for k := range ids {
			if k != 0 {
				ks = append(ks, int(k))
			}
		}
		sort.Ints(ks)
		for _, k := range ks {
			f := x.fids[k]
			tgts = append(tgts, target{ts.Eq(t, ts.C(int64(k), 32)), f.fn, f.bindings, args})
		}
	}
	if len(tgts) == 1 {
		st2 := st
		if !tgts[0].cond.isTrue() {
			pc := x.push(st.pc, tgts[0].cond)
			if pc == nil {
				return nil, nil
			}
			st2.pc = pc
		}
		return x.callFn(fr, st2, tgts[0].fn, tgts[0].args, tgts[0].bind, site)
	}
	var outs []*State
	for _, t := range tgts {
		pc := x.push(st.pc, t.cond)
		if pc == nil {
			continue
		}
		s := st.clone()
		s.pc = pc
		ns, v := x.callFn(fr, s, t.fn, t.args, t.bind, site)
		if ns == nil {
			continue
		}
		if v != nil {
			ns.env[retKey] = v
		}
		outs = append(outs, ns)
	}
	if len(outs) == 0 {
		return nil, nil
	}
	m := x.mergeAll(outs)
	v := m.env[retKey]
	delete(m.env, retKey)
	return m, v
}

// absOf is the interface method or the named function type of a call
func absOf(c *ssa.CallCommon) types.Object {
	if c.IsInvoke() {
		return c.Method
	}
	if n, ok := c.Value.Type().(*types.Named); ok {
		return n.Obj()
	}
	return nil
}

func (x *Engine) callFn(fr *Frame, st *State, fn *ssa.Function, args, bind []Val, site ssa.Instruction) (*State, Val) {
	if fn.Origin() != nil && fn.Origin() != fn {
		// instance of a generic function: has its own body
	}
	// gv vocabulary
	if o := fn.Origin(); o != nil && o != fn && o.Pkg != nil && o.Pkg.Pkg.Path() == gvPath {
		if f, ok := gvFuncs[o.Name()]; ok {
			return f(x, fr, st, fn, args, site)
		}
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == gvPath {
		if f, ok := gvFuncs[fn.Name()]; ok {
			return f(x, fr, st, fn, args, site)
		}
	}
	if f, ok := intrinsics[fn.String()]; ok {
		ns, v := f(x, fr, st, args, site)
		x.trusted[fn.String()] = true
		return ns, v
	}
	if fn.Synthetic == "package initializer" {
		return st, nil
	}
	// the call being verified
	if fr.h != nil && fn == fr.h.target && !fr.called {
		if fr.mode == mUse {
			fr.called = true
			return x.useResult(fr, st, fn.Signature, fn.Name(), site)
		}
		if fr.mode == mVerify {
			fr.called = true
			fr.entry = x.freshTick()
			if !strings.HasPrefix(fr.h.kind, "trusted") {
				x.vframe = fr
				ns, v := x.inlineCall(fr, st, fn, args, bind, false, site)
				x.vframe = nil
				fr.entered = true
				return ns, v
			}
		}
	}
	if h := x.P.lemmas[fn]; h != nil && !(x.h == h && fr.parent == nil && fr.h == nil) {
		return x.useLemma(fr, st, h, fn, args, site)
	}
	if x.P.rec[fn] || x.P.abstract[fn] || x.opaque(fn) {
		return st, x.recCall(fr, st, fn, args)
	}
	if h := x.P.contracts[fn]; h != nil && !x.inInit && !x.P.inlineContract(x.h, fn) {
		return x.useContract(fr, st, h, fn, args, site)
	}
	spec := fr.spec
	return x.inlineCall(fr, st, fn, args, bind, spec, site)
}

func (x *Engine) inlineCall(fr *Frame, st *State, fn *ssa.Function, args, bind []Val, spec bool, site ssa.Instruction) (*State, Val) {
	if len(fn.Blocks) == 0 {
		return x.externCall(fr, st, fn, args)
	}
	if !x.inlineOK(fn) {
		return x.externCall(fr, st, fn, args)
	}
	d := 0
	for f := fr; f != nil; f = f.parent {
		d++
		if f.fn == fn && !spec {
			k := 0
			for g := f; g != nil; g = g.parent {
				if g.fn == fn {
					k++
				}
			}
			if k > 40 {
				panic(Unsupported("unbounded recursion in %s", fn))
			}
		}
	}
	if d > 120 {
		panic(Unsupported("call depth in %s", fn))
	}
	nf := &Frame{fn: fn, mode: mBody, parent: fr, spec: spec}
	if spec && !strings.HasPrefix(fnName(fn), "verifgv") {
		nf.mode = mSpec
	}
	if !spec && fn.Pkg != nil {
		x.inlined[fnName(fn)] = true
	}
	saved := st.env
	s := &State{pc: st.pc, heap: st.heap, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		s.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		s.env[f] = bind[i]
	}
	pos := x.curPos
	ns, v := x.runFunc(nf, s)
	x.curPos = pos
	if ns == nil {
		return nil, nil
	}
	ns.env = make(map[ssa.Value]Val, len(saved))
	for k, v := range saved {
		ns.env[k] = v
	}
	if p, ok := v.(poison); ok {
		panic(Unsupported("%s", p.msg))
	}
	return ns, v
}

var inlinePkgs = map[string]bool{
	"net": true, "encoding/binary": true, "math/bits": true, "bytes": true, "errors": true, "sort": true, "slices": true, "cmp": true,
	"internal/bytealg": true, "internal/byteorder": true, "strings": true, "unicode/utf8": true, "strconv": true, "math": true, "internal/itoa": true, "math/big": true, "net/netip": true, "internal/stringslite": true, "iter": true, "reflect": false,
}

func (x *Engine) inlineOK(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil {
		if fn.Origin() != nil {
			p = fn.Origin().Pkg
		} else if fn.Object() != nil && fn.Object().Pkg() != nil {
			path := fn.Object().Pkg().Path()
			return strings.HasPrefix(path, modPath) || inlinePkgs[path]
		}
	}
	if p == nil {
		return true // wrappers, thunks
	}
	path := p.Pkg.Path()
	return strings.HasPrefix(path, modPath) || inlinePkgs[path]
}

// externCall: no model
func (x *Engine) externCall(fr *Frame, st *State, fn *ssa.Function, args []Val) (*State, Val) {
	panic(Unsupported("no contract or model for %s called in %s", fn, fnName(fr.fn)))
}

// closedWorld lists the tags of all types that can be behind an interface with an unexported method.
func (x *Engine) closedWorld(m *types.Func) []int {
	if m.Exported() || m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), modPath) {
		return nil
	}
	it, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	sc := m.Pkg().Scope()
	var ks []int
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Interface); ok {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if types.Implements(t, it) {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					return nil
				}
				k := x.tagOf(t)
				ks = append(ks, int(k.u64()))
			}
		}
	}
	return ks
}

func (x *Engine) invokeUnknown(fr *Frame, st *State, c *ssa.CallCommon, iv IfaceV, args []Val, site ssa.Instruction) (*State, Val) {
	ts := x.ts
	x.safe(fr, st, "method call on nil interface", site.Pos(), ts.Not(ts.Eq(iv.tag, ts.C(0, 32))))
	sig := c.Method.Type().(*types.Signature)
	if c.Method.Name() == "Error" && sig.Params().Len() == 0 {
		t := ts.UF("errString", StrS, 0, iv.tag, iv.ref)
		x.wfStr(t)
		return st, t
	}
	panic(Unsupported("call of unknown method %s in %s", c.Method.Name(), fr.fn))
}

// useContract: a call judged by the callee's contract
func (x *Engine) useContract(fr *Frame, st *State, h *Harness, fn *ssa.Function, args []Val, site ssa.Instruction) (*State, Val) {
	x.used[h.name] = true
	nf := &Frame{fn: h.fn, mode: mUse, h: h, parent: fr, spec: true, callerSpec: fr.spec, site: site}
	d := 0
	for f := fr; f != nil; f = f.parent {
		d++
	}
	if d > 120 {
		panic(Unsupported("contract nesting at %s", h.targetN))
	}
	saved := st.env
	s := &State{pc: st.pc, heap: st.heap, env: map[ssa.Value]Val{}}
	if len(h.fn.Params) != len(args) {
		panic(Unsupported("contract %s does not take the parameters of %s", h.name, h.targetN))
	}
	for i, p := range h.fn.Params {
		s.env[p] = args[i]
	}
	pos := x.curPos
	ns, _ := x.runFunc(nf, s)
	x.curPos = pos
	if ns == nil {
		return nil, nil
	}
	if !nf.called {
		panic(Unsupported("contract %s did not call its function", h.name))
	}
	ns.env = make(map[ssa.Value]Val, len(saved))
	for k, v := range saved {
		ns.env[k] = v
	}
	if nf.result == nil {
		return ns, nil
	}
	return ns, x.normVal(nf.result)
}

// useLemma: its preconditions are proved and its conclusions assumed; used in its own proof, its measure must decrease
func (x *Engine) useLemma(fr *Frame, st *State, h *Harness, fn *ssa.Function, args []Val, site ssa.Instruction) (*State, Val) {
	f := ctxFrame(fr)
	if f == nil || f.mode == mUse || f.mode == mBody {
		return st, nil // the proof of what is used here is elsewhere
	}
	if h != x.h {
		x.used[h.name] = true
	}
	nf := &Frame{fn: h.fn, mode: mUse, h: h, parent: fr, spec: true, site: site, useTick: -1}
	if h == x.h {
		nf.selfMeas = f.measure
		nf.inductive = true
	}
	saved := st.env
	s := &State{pc: st.pc, heap: st.heap, env: map[ssa.Value]Val{}}
	for i, p := range h.fn.Params {
		s.env[p] = args[i]
	}
	pos := x.curPos
	x.curPos = site.Pos()
	ns, _ := x.runFunc(nf, s)
	x.curPos = pos
	if ns == nil {
		return nil, nil
	}
	if nf.inductive && !nf.measured {
		panic(Unsupported("lemma %s is used in its own proof without a decreasing measure", h.name))
	}
	ns.env = make(map[ssa.Value]Val, len(saved))
	for k, v := range saved {
		ns.env[k] = v
	}
	return ns, nil
}

// useResult: what is known after the call, before the postconditions
func (x *Engine) useResult(fr *Frame, st *State, sig *types.Signature, fname string, site ssa.Instruction) (*State, Val) {
	x.tick++
	t0 := x.tick
	fr.useTick = t0
	fr.pc0 = st.pc
	// modified objects
	for i, m := range fr.mods {
		x.havocMod(st, x.normVal(m), fr.modT[i], t0)
	}
	res := sig.Results()
	mk := func(i int, name string) Val {
		v := x.symVal(name, res.At(i).Type())
		if pv, ok := v.(PtrV); ok && isStructPtr(res.At(i).Type()) {
			pv.idx = x.ts.Int(0)
			v = pv
		}
		x.wf(v, res.At(i).Type())
		return v
	}
	switch res.Len() {
	case 0:
		return st, nil
	case 1:
		fr.result = mk(0, fname)
	default:
		tv := TupleV{}
		for i := 0; i < res.Len(); i++ {
			tv = append(tv, mk(i, fmt.Sprintf("%s.%d", fname, i)))
		}
		fr.result = tv
	}
	return st, fr.result
}

func (x *Engine) havocMod(st *State, v Val, t types.Type, t0 int) {
	if v == nil { // everything
		panic(Unsupported("modifies everything"))
	}
	ref := refOf(v)
	for _, r := range x.modRegions(v, t) {
		x.noteWrite(st, r, ref)
		x.tick++
		st.heap[r.key] = &HNode{kind: HHavoc, reg: r, prev: x.node(st.heap, r), tick: 1 << 50, ctick: x.tick, mods: []*Term{ref}, name: fmt.Sprintf("HU%d:%s", x.tick, r.key)}
	}
}

// ---- builtins ----

func (x *Engine) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, site ssa.Instruction) (*State, Val) {
	ts := x.ts
	switch b.Name() {
	case "len":
		switch t := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return st, args[0].(SliceV).len
		case *types.Basic:
			s := args[0].(*Term)
			x.wfStr(s)
			return st, ts.StrLen(s)
		case *types.Map:
			n := x.mapLen(st.heap, t, args[0].(*Term))
			if !n.isC() && !x.wfDone[n] {
				x.wfDone[n] = true
				x.fact([]*Term{n}, ts.And(ts.SLe(ts.Int(0), n), ts.SLe(n, ts.Int(maxLen))))
			}
			return st, n
		case *types.Array:
			return st, ts.Int(t.Len())
		case *types.Pointer:
			return st, ts.Int(t.Elem().Underlying().(*types.Array).Len())
		}
	case "cap":
		if s, ok := args[0].(SliceV); ok {
			return st, s.cap
		}
	case "append":
		return x.appendSlice(fr, st, c, args)
	case "copy":
		dst := args[0].(SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if s, ok := args[1].(*Term); ok { // from a string
			x.wfStr(s)
			sl := x.strToBytes(st, s, et)
			args[1] = sl
		}
		src := args[1].(SliceV)
		n := x.simp(st.pc, ts.Ite(ts.SLt(dst.len, src.len), dst.len, src.len))
		if !n.isZero() {
			h := map[string]*HNode{}
			for k, v := range st.heap {
				h[k] = v
			}
			x.copyRange(st, et, dst.ref, dst.off, n, h, src.ref, src.off)
		}
		return st, n
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m := args[0].(*Term)
		k, ok := args[1].(*Term)
		if !ok {
			break
		}
		// deleting from a nil map is a no-op
		if m == ts.Nil {
			return st, nil
		}
		x.mapDelete(st, mt, m, k)
		return st, nil
	case "panic":
		if !fr.spec {
			x.oblige(st, "safety", "no panic in "+fnName(fr.fn), site.Pos(), ts.F)
		}
		return nil, nil
	case "print", "println":
		return st, nil
	case "min", "max":
		r := args[0].(*Term)
		sg := isSigned(c.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if sg {
				lt = ts.SLt(t, r)
			} else {
				lt = ts.ULt(t, r)
			}
			if b.Name() == "max" {
				lt = ts.Not(lt)
			}
			r = ts.Ite(lt, t, r)
		}
		return st, r
	case "ssa:wrapnilchk":
		p := args[0].(PtrV)
		x.nonNil(fr, st, p, site.Pos())
		return st, p
	case "recover":
		return st, IfaceV{ts.C(0, 32), ts.Nil}
	}
	panic(Unsupported("builtin %s in %s", b.Name(), fr.fn))
}

func (x *Engine) appendSlice(fr *Frame, st *State, c *ssa.CallCommon, args []Val) (*State, Val) {
	ts := x.ts
	s := args[0].(SliceV)
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if t, ok := args[1].(*Term); ok { // append([]byte, string...)
		x.wfStr(t)
		args[1] = x.strToBytes(st, t, et)
	}
	a := args[1].(SliceV)
	k := a.len
	if k.isZero() {
		return st, s
	}
	n := ts.Add(s.len, k)
	src := map[string]*HNode{}
	for kk, v := range st.heap {
		src[kk] = v
	}
	fits := x.simp(st.pc, ts.SLe(n, s.cap))
	if s.ref == ts.Nil {
		// nothing fits into nil, except nothing
		fits = ts.SLe(k, ts.Int(0))
	}
	out := SliceV{s.ref, s.off, n, s.cap}
	if !fits.isTrue() {
		// a new array: modelled as a copy of the old one at the same offset, what lies outside the slice is
		// out of reach (reslicing up to the capacity is not supported)
		x.tick++
		ref := ts.Alloc(x.tick)
		for _, r := range x.elemRegions(et) {
			x.touched(r)
			if s.ref == ts.Nil {
				st.heap[r.key] = &HNode{kind: HAlloc, reg: r, prev: x.node(st.heap, r), ref: ref, val: x.zeroTerm(r.elem)}
			} else {
				nd := x.node(st.heap, r)
				st.heap[r.key] = &HNode{kind: HObjAt, reg: r, prev: nd, ref: ref, src: nd, sref: s.ref}
			}
		}
		cp := x.symTerm("cap", BV(64))
		x.fact([]*Term{cp}, ts.And(ts.SLe(n, cp), ts.SLe(cp, ts.Int(maxLen*4))))
		out.ref, out.cap = ts.Ite(fits, s.ref, ref), ts.Ite(fits, s.cap, cp)
		if s.ref == ts.Nil {
			out.off = ts.Int(0)
		}
	}
	x.copyRange(st, et, out.ref, ts.Add(out.off, s.len), k, src, a.ref, a.off)
	return st, out
}

var _ = os.Stderr
