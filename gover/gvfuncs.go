package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type gvFn func(x *Engine, fr *Frame, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) (*State, Val)

func ctxFrame(fr *Frame) *Frame {
	for f := fr; f != nil; f = f.parent {
		switch f.mode {
		case mVerify, mUse, mInvAssume, mInvCheck:
			return f
		case mBody:
			return f
		}
	}
	return nil
}

var gvFuncs map[string]gvFn

func oblName(x *Engine, fr *Frame, site ssa.Instruction) string {
	return fmt.Sprintf("%s in %s", "clause", fnName(fr.fn))
}

func (x *Engine) clauseAt(fr *Frame, site ssa.Instruction) string {
	f := ctxFrame(fr)
	p := x.position(site.Pos())
	i := strings.LastIndex(p.Filename, "/")
	return fmt.Sprintf("%s%s %s:%d", fnName(f.fn), f.label, strings.TrimPrefix(p.Filename[i+1:], "zz_gv_"), p.Line)
}

func init() {
	b1 := func(f func(x *Engine, a, b *Term) *Term) gvFn {
		return func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			return st, f(x, a[0].(*Term), a[1].(*Term))
		}
	}
	gvFuncs = map[string]gvFn{
		"Requires": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			f := ctxFrame(fr)
			c := x.simp(st.pc, x.norm(a[0].(*Term)))
			switch f.mode {
			case mVerify:
				if st.pc.parent != nil && st.pc != f.pc0 {
					x.assume(st, c, -1)
				} else {
					x.assume(st, c, 0)
				}
				// execution continues only where it holds
				pc := x.push(st.pc, c)
				if pc == nil {
					return nil, nil
				}
				if st.pc.parent != nil {
					st.pc = pc
				}
				x.reqs = append(x.reqs, c)
			case mUse:
				if f.callerSpec {
					f.reqs = append(f.reqs, c)
				} else {
					x.obligeReq(st, f, x.clauseAt(fr, site), c)
					x.assume(st, c, -1)
				}
			}
			return st, nil
		},
		"Ensures": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			f := ctxFrame(fr)
			c := x.norm(a[0].(*Term))
			switch f.mode {
			case mVerify:
				x.oblige(st, "ensures", x.clauseAt(fr, site), site.Pos(), c)
			case mUse:
				if len(f.reqs) > 0 {
					c = x.ts.Implies(x.ts.And(f.reqs...), c)
				}
				x.assumeUse(f, st, x.simp(st.pc, c))
			}
			return st, nil
		},
		"Assert": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			f := ctxFrame(fr)
			c := x.norm(a[0].(*Term))
			switch f.mode {
			case mVerify:
				x.oblige(st, "assert", x.clauseAt(fr, site), site.Pos(), c)
				x.assume(st, c, -1)
			case mInvCheck:
				x.oblige(st, "assert", x.clauseAt(fr, site), site.Pos(), c)
				x.assume(st, c, -1)
			}
			return st, nil
		},
		"Inv": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			f := ctxFrame(fr)
			c := x.norm(a[0].(*Term))
			switch f.mode {
			case mInvAssume:
				x.assumeUse(f, st, c)
			case mInvCheck:
				k := "inv"
				x.oblige(st, k, x.clauseAt(fr, site), site.Pos(), c)
				x.assume(st, c, -1)
			}
			return st, nil
		},
		"Decreases": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			f := ctxFrame(fr)
			m := a[0].(*Term)
			switch f.mode {
			case mVerify:
				if f.measure == nil {
					f.measure = m
				}
			case mUse:
				if f.inductive && f.selfMeas != nil {
					f.measured = true
					x.oblige(st, "decreases", x.clauseAt(fr, site), x.curPos, x.ts.And(x.ts.SLe(x.ts.Int(0), m), x.ts.SLt(m, f.selfMeas)))
				}
			case mInvAssume:
				if f.invMeas != nil {
					*f.invMeas = m
				}
			case mInvCheck:
				if f.invMeas != nil && *f.invMeas != nil {
					x.oblige(st, "decreases", x.clauseAt(fr, site), site.Pos(), x.ts.And(x.ts.SLe(x.ts.Int(0), *f.invMeas), x.ts.SLt(m, *f.invMeas)))
				}
			}
			return st, nil
		},
		"DecreasesN": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			f := ctxFrame(fr)
			m := a[0].(*Term)
			switch f.mode {
			case mInvAssume:
				if f.invMeas != nil {
					*f.invMeas = m
				}
			case mInvCheck:
				if f.invMeas != nil && *f.invMeas != nil {
					x.oblige(st, "decreases", x.clauseAt(fr, site), site.Pos(), x.ts.ULt(m, *f.invMeas))
				}
			}
			return st, nil
		},
		"Cases": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			f := ctxFrame(fr)
			if f.mode != mVerify || f.h != x.h {
				return st, nil
			}
			sl := a[1].(SliceV)
			r := x.elemRegions(types.Typ[types.Int])[0]
			var vals []*Term
			for i := int64(0); i < sl.len.i64(); i++ {
				vals = append(vals, x.read(x.node(st.heap, r), sl.ref, x.ts.Add(sl.off, x.ts.Int(i))))
			}
			t := x.simp(st.pc, x.norm(a[0].(*Term)))
			k := x.decide(len(vals), func(k int) string { return fmt.Sprintf("%s=%s", t, vals[k]) })
			if k == 0 {
				var or []*Term
				for _, v := range vals {
					or = append(or, x.ts.Eq(t, v))
				}
				x.oblige(st, "cases", x.clauseAt(fr, site), site.Pos(), x.ts.Or(or...))
			}
			c := x.ts.Eq(t, vals[k])
			if c.isFalse() {
				return nil, nil
			}
			x.assume(st, c, 0)
			return st, nil
		},
		"Split": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			f := ctxFrame(fr)
			if f.mode != mVerify || f.h != x.h {
				return st, nil
			}
			t := x.simp(st.pc, x.norm(a[0].(*Term)))
			if t.isTrue() || t.isFalse() {
				return st, nil
			}
			k := x.decide(2, func(k int) string { return fmt.Sprintf("split%d", k) })
			if k == 1 {
				t = x.ts.Not(t)
			}
			x.assume(st, t, 0)
			return st, nil
		},
		"Inst": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			x.hints = append(x.hints, a[0].(*Term))
			return st, nil
		},
		"Witness": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			if f := ctxFrame(fr); f != nil && (f.mode == mInvCheck || f.mode == mVerify) {
				f.witness = append(f.witness, a[0].(*Term))
			}
			return st, nil
		},
		"Modifies": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			f := ctxFrame(fr)
			for _, e := range x.ifaceArgs(st, a[0]) {
				k := e.tag
				if !k.isC() {
					panic(Unsupported("Modifies of unknown type"))
				}
				t := x.tagT[k.u64()]
				f.mods = append(f.mods, x.unbox(st.heap, e, t))
				f.modT = append(f.modT, t)
			}
			return st, nil
		},
		"Fresh": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			f := ctxFrame(fr)
			e := a[0].(IfaceV)
			if !e.tag.isC() {
				panic(Unsupported("Fresh of unknown type"))
			}
			var ref *Term
			if e.tag.isZero() {
				return st, x.ts.T
			}
			t := x.tagT[e.tag.u64()]
			ref = x.simp(st.pc, refOf(x.unbox(st.heap, e, t)))
			var tick int
			switch f.mode {
			case mUse:
				tick = f.useTick
				if ref.op == OSym && ref.a >= tick && ref.b == 0 && len(f.reqs) == 0 && st.pc == f.pc0 {
					nr := x.ts.raw(&Term{op: OSym, sort: RefS, name: ref.name, a: ref.a, b: tick})
					x.setRW(ref, nr)
					return st, x.ts.T
				}
			case mVerify:
				tick = f.entry
			default:
				tick = x.vframeEntry()
			}
			if x.bornOK(ref, tick) {
				return st, x.ts.T
			}
			return st, x.ts.Or(x.ts.Eq(ref, x.ts.Nil), x.born(ref, tick))
		},
		"Disjoint": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			var rs []*Term
			for i := 0; i < 2; i++ {
				e := a[i].(IfaceV)
				if e.tag.isZero() {
					return st, x.ts.T
				}
				rs = append(rs, refOf(x.unbox(st.heap, e, x.tagT[e.tag.u64()])))
			}
			return st, x.ts.Or(x.ts.Eq(rs[0], x.ts.Nil), x.ts.Not(x.ts.Eq(rs[0], rs[1])))
		},
		"Same": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			var s []SliceV
			var fs []*Term
			for i := 0; i < 2; i++ {
				e := a[i].(IfaceV)
				switch v := x.unbox(st.heap, e, x.tagT[e.tag.u64()]).(type) {
				case SliceV:
					s = append(s, v)
				case *Term:
					fs = append(fs, v)
				}
			}
			ts := x.ts
			if len(fs) == 2 {
				return st, ts.Eq(fs[0], fs[1])
			}
			return st, ts.And(ts.Eq(s[0].len, s[1].len), ts.Or(ts.Eq(s[0].len, ts.Int(0)), ts.And(ts.Eq(s[0].ref, s[1].ref), ts.Eq(s[0].off, s[1].off))))
		},
		"Forall": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			return st, x.forall(fr, st, a[0].(*Term), a[1].(*Term), a[2].(*Term), false)
		},
		"Exists": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			return st, x.ts.Not(x.forall(fr, st, a[0].(*Term), a[1].(*Term), a[2].(*Term), true))
		},
		"ForallKey": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			return st, x.forallKey(fr, st, fn.Signature.Params().At(0).Type().Underlying().(*types.Map), a[0].(*Term), a[1].(*Term))
		},
		"Seen": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			f := ctxFrame(fr)
			if f == nil || f.iter == nil {
				panic(Unsupported("Seen outside of a loop over a map"))
			}
			return st, x.read(f.iter.visited, f.iter.m, a[0].(*Term))
		},
		"Implies": b1(func(x *Engine, a, b *Term) *Term { return x.ts.Implies(a, b) }),
		"Iff":     b1(func(x *Engine, a, b *Term) *Term { return x.ts.Eq(a, b) }),
		"Clone": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			return x.cloneSlice(st, a[0].(SliceV), types.Typ[types.Uint8])
		},
		"CloneStrs": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			return x.cloneSlice(st, a[0].(SliceV), types.Typ[types.String])
		},
		"Nat": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			return st, x.nat(st, a[0].(SliceV))
		},
		"U": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			return st, x.ts.ZExt(a[0].(*Term), 128)
		},
		"I": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			return st, x.ts.ZExt(a[0].(*Term), 128)
		},
		"Low": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			return st, x.ts.Extract(a[0].(*Term), 63, 0)
		},
		"Add": b1(func(x *Engine, a, b *Term) *Term { return x.ts.Add(a, b) }),
		"Sub": b1(func(x *Engine, a, b *Term) *Term { return x.ts.Sub(a, b) }),
		"And": b1(func(x *Engine, a, b *Term) *Term { return x.ts.BAnd(a, b) }),
		"Or":  b1(func(x *Engine, a, b *Term) *Term { return x.ts.BOr(a, b) }),
		"Xor": b1(func(x *Engine, a, b *Term) *Term { return x.ts.BXor(a, b) }),
		"Not": func(x *Engine, fr *Frame, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) (*State, Val) {
			return st, x.ts.BNot(a[0].(*Term))
		},
		"Shl": b1(func(x *Engine, a, b *Term) *Term { return x.ts.Shl(a, x.ts.ZExt(b, 128)) }),
		"Shr": b1(func(x *Engine, a, b *Term) *Term { return x.ts.LShr(a, x.ts.ZExt(b, 128)) }),
		"Lt":  b1(func(x *Engine, a, b *Term) *Term { return x.ts.ULt(a, b) }),
		"Le":  b1(func(x *Engine, a, b *Term) *Term { return x.ts.ULe(a, b) }),
	}
}

// assumeUse assumes a postcondition or an invariant of f
func (x *Engine) assumeUse(f *Frame, st *State, c *Term) {
	if fr := x.freshAt(f, st); fr >= 0 || f.useTick < 0 || st.pc.parent == nil {
		x.assume(st, c, fr)
		return
	}
	x.assume(st, c, -1)
	if fr := f.useTick; !c.isTrue() {
		if fr < x.minFresh {
			fr = x.minFresh
		}
		x.conds = append(x.conds, condFact{x.above(st.pc, common(st.pc, f.pc0)), c, fr})
		x.bump()
	}
}

// freshAt is the tick whose later symbols what is assumed at st may rewrite: none where it is assumed on some paths only
func (x *Engine) freshAt(f *Frame, st *State) int {
	if f.pc0 == nil || st.pc == f.pc0 {
		return f.useTick
	}
	return -1
}

func (x *Engine) setRW(k, v *Term) {
	if _, ok := x.ts.rw[k]; ok {
		return
	}
	x.ts.rw[k] = v
	x.rwLog = append(x.rwLog, [2]*Term{k, v})
	x.bump()
}

func (x *Engine) bump() {
	x.genC++
	x.gen = x.genC
}

func (x *Engine) obligeReq(st *State, f *Frame, clause string, c *Term) {
	x.oblige(st, "requires", clause, x.curPos, c)
}

func (x *Engine) decide(n int, note func(int) string) int {
	if x.decPos >= len(x.decisions) {
		x.decisions = append(x.decisions, 0)
		x.decMax = append(x.decMax, n)
	}
	for len(x.decMax) <= x.decPos {
		x.decMax = append(x.decMax, n)
	}
	x.decMax[x.decPos] = n
	k := x.decisions[x.decPos]
	x.decPos++
	x.decNote = append(x.decNote, note(k))
	return k
}

func (x *Engine) ifaceArgs(st *State, v Val) []IfaceV {
	sl := v.(SliceV)
	var out []IfaceV
	it := types.NewInterfaceType(nil, nil)
	for i := int64(0); i < sl.len.i64(); i++ {
		r, _ := x.loadPtr(st.heap, PtrV{ref: sl.ref, idx: x.ts.Add(sl.off, x.ts.Int(i)), elem: it})
		out = append(out, r.(IfaceV))
	}
	return out
}

func (x *Engine) cloneSlice(st *State, s SliceV, et types.Type) (*State, Val) {
	if s.ref == x.ts.Nil {
		return st, s
	}
	x.tick++
	ref := x.ts.Alloc(x.tick)
	for _, r := range x.elemRegions(et) {
		prev := x.node(st.heap, r)
		st.heap[r.key] = &HNode{kind: HObjAt, reg: r, prev: prev, ref: ref, src: prev, sref: s.ref}
	}
	nilc := x.ts.Eq(s.ref, x.ts.Nil)
	return st, SliceV{x.ts.Ite(nilc, x.ts.Nil, ref), s.off, s.len, s.len}
}

func (x *Engine) nat(st *State, s SliceV) *Term {
	s = x.simpVal(st.pc, s).(SliceV)
	r := x.region("uint8", BV(64), BV(8))
	n := x.node(st.heap, r)
	ts := x.ts
	val := func(k int64) *Term {
		v := ts.C(0, 128)
		for i := int64(0); i < k; i++ {
			b := x.read(n, s.ref, ts.Add(s.off, ts.Int(i)))
			v = ts.BOr(ts.Shl(v, ts.C(8, 128)), ts.ZExt(b, 128))
		}
		return x.simp(st.pc, v)
	}
	if s.len.isC() {
		k := s.len.i64()
		if k >= 0 && k <= 16 {
			return val(k)
		}
		return x.symTerm("nat", BV(128))
	}
	return ts.Ite(ts.Eq(s.len, ts.Int(4)), val(4), ts.Ite(ts.Eq(s.len, ts.Int(16)), val(16), ts.UF("natOf", BV(128), 0, x.snap(n, s.ref), s.off, s.len)))
}

// callBool evaluates a closure of specification code on a copy of the state
func (x *Engine) callSpec(fr *Frame, st *State, fn *Term, args []Val) Val {
	if !fn.isC() {
		panic(Unsupported("unknown specification closure"))
	}
	f := x.fids[fn.u64()]
	s := st.clone()
	nf := &Frame{fn: f.fn, mode: mSpec, parent: fr, spec: true}
	s.env = map[ssa.Value]Val{}
	for i, p := range f.fn.Params {
		s.env[p] = args[i]
	}
	for i, p := range f.fn.FreeVars {
		s.env[p] = f.bindings[i]
	}
	ns, v := x.runFunc(nf, s)
	if ns == nil {
		panic(Unsupported("specification closure does not return"))
	}
	return v
}

func (x *Engine) forall(fr *Frame, st *State, lo, hi, fn *Term, neg bool) *Term {
	ts := x.ts
	lo, hi = x.simp(st.pc, x.norm(lo)), x.simp(st.pc, x.norm(hi))
	one := func(i *Term) *Term {
		t := x.callSpec(fr, st, fn, []Val{i}).(*Term)
		if neg {
			t = ts.Not(t)
		}
		return x.simp(st.pc, t)
	}
	if lo.isC() && hi.isC() {
		n := hi.i64() - lo.i64()
		if n <= 0 {
			return ts.T
		}
		if n <= 40 {
			var cs []*Term
			for i := lo.i64(); i < hi.i64(); i++ {
				cs = append(cs, one(ts.Int(i)))
			}
			return ts.And(cs...)
		}
	}
	return x.newQuant(&quant{lo: lo, hi: hi, fn: fn, neg: neg}, fr, st)
}

func (x *Engine) forallKey(fr *Frame, st *State, mt *types.Map, m, fn *Term) *Term {
	m = x.simp(st.pc, x.norm(m))
	if m == x.ts.Nil {
		return x.ts.T
	}
	return x.newQuant(&quant{m: m, mt: mt, fn: fn}, fr, st)
}

func (x *Engine) newQuant(q *quant, fr *Frame, st *State) *Term {
	ts := x.ts
	q.id, q.fr, q.insts = len(x.qAll), fr, map[*Term]*Term{}
	q.st = &State{pc: st.pc, heap: map[string]*HNode{}, env: map[ssa.Value]Val{}}
	for k, v := range st.heap {
		q.st.heap[k] = v
	}
	x.tick++
	q.tick = x.tick
	x.qAll = append(x.qAll, q)
	q.p = ts.raw(&Term{op: OForall, sort: BoolS, name: fmt.Sprintf("forall!%d", q.id), a: x.tick})
	return q.p
}
