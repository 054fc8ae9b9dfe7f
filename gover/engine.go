package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- path conditions ----

type PC struct {
	parent *PC
	lit    *Term
	depth  int
	term   *Term
	lits   map[*Term]*Term
	memo   map[*Term]*Term
	gen    int
}

func (x *Engine) pcTerm(p *PC) *Term {
	if p.parent == nil {
		return x.ts.T
	}
	if p.term == nil || p.gen != x.gen {
		p.term = x.ts.And(x.pcTerm(p.parent), p.lit)
	}
	return p.term
}

// addLit records that t holds, in m
func (x *Engine) addLit(m map[*Term]*Term, t *Term) {
	ts := x.ts
	put := func(k, v *Term) {
		if !k.isLit() && k != v {
			m[k] = v
		}
	}
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			x.addLit(m, a)
		}
		put(t, ts.T)
	case ONot:
		put(t.args[0], ts.F)
		put(t, ts.T)
		if t.args[0].op == OOr {
			for _, a := range t.args[0].args {
				x.addLit(m, ts.Not(a))
			}
		}
	case OEq:
		a, b := t.args[0], t.args[1]
		if b.isLit() {
			a, b = b, a
		}
		put(t, ts.T)
		if a.isLit() {
			put(b, a)
		}
	case OSLt, OULt:
		put(t, ts.T)
		a, b := t.args[0], t.args[1]
		if t.op == OSLt {
			put(ts.SLt(b, a), ts.F)
			put(ts.SLe(a, b), ts.T)
			put(ts.SLe(b, a), ts.F)
		} else {
			put(ts.ULt(b, a), ts.F)
			put(ts.ULe(a, b), ts.T)
			put(ts.ULe(b, a), ts.F)
		}
		put(ts.Eq(a, b), ts.F)
	case OSLe, OULe:
		put(t, ts.T)
		a, b := t.args[0], t.args[1]
		if t.op == OSLe {
			put(ts.SLt(b, a), ts.F)
		} else {
			put(ts.ULt(b, a), ts.F)
		}
	default:
		put(t, ts.T)
	}
}

func (x *Engine) pcLits(p *PC) map[*Term]*Term {
	if p.parent == nil {
		return nil
	}
	if p.lits == nil || p.gen != x.gen {
		m := map[*Term]*Term{}
		for k, v := range x.pcLits(p.parent) {
			m[k] = v
		}
		x.addLit(m, x.norm(p.lit))
		x.addConds(m)
		p.lits, p.memo, p.gen, p.term = m, map[*Term]*Term{}, x.gen, nil
	}
	return p.lits
}

// condFact is a fact about fresh symbols, assumed where cond holds
type condFact struct {
	cond, t *Term
	fresh   int
}

func (x *Engine) addConds(m map[*Term]*Term) {
	var memo map[*Term]*Term
	for _, c := range x.conds {
		if memo == nil {
			memo = map[*Term]*Term{}
		}
		if x.ts.Subst(x.norm(c.cond), m, memo).isTrue() {
			n := len(m)
			x.literals(x.norm(c.t), c.fresh, func(k, v *Term) {
				if _, ok := m[k]; !ok {
					m[k] = v
				}
			})
			if len(m) != n {
				memo = nil
			}
		}
	}
}

// simp rewrites t under the literals of the path condition
func (x *Engine) simp(p *PC, t *Term) *Term {
	if p.parent == nil {
		return t
	}
	l := x.pcLits(p)
	return x.ts.Subst(t, l, p.memo)
}

func (x *Engine) push(p *PC, c *Term) *PC {
	c = x.simp(p, x.norm(c))
	if c.isTrue() {
		return p
	}
	if c.isFalse() {
		return nil
	}
	if c.op == OAnd {
		for _, a := range c.args {
			p = &PC{parent: p, lit: a, depth: p.depth + 1}
		}
		return p
	}
	return &PC{parent: p, lit: c, depth: p.depth + 1}
}

// split returns the literals of p above the ancestor anc
func (x *Engine) above(p, anc *PC) *Term {
	var ls []*Term
	for p != anc {
		ls = append(ls, p.lit)
		p = p.parent
	}
	return x.ts.And(ls...)
}

func common(a, b *PC) *PC {
	for a != b {
		if a.depth >= b.depth {
			a = a.parent
		} else {
			b = b.parent
		}
	}
	return a
}

// ---- state ----

type State struct {
	pc   *PC
	heap map[string]*HNode
	env  map[ssa.Value]Val
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, heap: make(map[string]*HNode, len(s.heap)), env: make(map[ssa.Value]Val, len(s.env))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

type fmode int

const (
	mBody      fmode = iota // ordinary code
	mVerify                 // harness under verification
	mUse                    // harness used at a call site
	mInvAssume              // invariant function, assumed
	mInvCheck               // invariant function, checked
	mSpec                   // specification code: no safety obligations
)

type Frame struct {
	witness    []*Term // instances for the quantifiers of this frame
	fn         *ssa.Function
	mode       fmode
	h          *Harness
	parent     *Frame
	env        map[ssa.Value]Val // as of the latest call out of this frame
	rets       []retState
	spec       bool
	entry      int // tick at entry
	mods       []Val
	modT       []types.Type
	measure    *Term
	dead       bool
	called     bool
	entered    bool
	result     Val
	useTick    int
	pc0        *PC // where what is assumed holds on every path
	defers     []deferred
	reqs       []*Term
	callerSpec bool
	invMeas    **Term
	iter       *IterV // of the map the loop ranges over
	site       ssa.Instruction
	block      *ssa.BasicBlock
	label      string
	selfMeas   *Term
	inductive  bool
	measured   bool
}

type retState struct {
	st  *State
	val Val
}

type Obl struct {
	name    string
	kind    string
	pos     token.Position
	cond    *Term // path condition
	goal    *Term
	nassume int
	nrw     int
	nq      int
	nhint   int
	nreq    int
	// results
	status  string // valid, failed, unknown
	backend string
	secs    float64
	out     string
	model   string
	trivial bool
	insts   int
	parts   int
	harness string
	cas     string
}

type quant struct {
	id     int
	lo, hi *Term
	fn     *Term
	neg    bool
	st     *State
	fr     *Frame
	insts  map[*Term]*Term
	skol   *Term
	skBody *Term
	p      *Term
	tick   int
	m      *Term // quantifies over the keys of this map, nil: over lo <= i < hi
	mt     *types.Map
	pats   []pattern
	patGen int
}

type writeSet struct {
	tick    int
	refs    map[string]map[*Term]bool // region -> loop invariant refs
	any     map[string]bool
	touched map[string]bool
	born    map[string]int
}

type Engine struct {
	P         *Prog
	ts        *TS
	h         *Harness
	gen       int
	tick      int
	startTick int
	regions   map[string]*Region
	base      map[string]*HNode
	initHeap  map[string]*HNode
	frozen    map[string]bool
	initSeen  map[string]bool
	leafMemo  map[types.Type][]Leaf
	erMemo    map[types.Type][]*Region
	obls      []*Obl
	assumes   []*Term
	mute      int
	inInit    bool
	ws        []*writeSet
	reqs      []*Term
	qAll      []*quant
	rwLog     [][2]*Term
	rwPos     int
	rwReplay  bool
	recFn     map[string]recFnInfo
	genC      int
	iterDone  []iterDone
	recDef    map[*Term]*recInfo
	initTick  int
	minFresh  int
	conds     []condFact
	sib       map[[2]*PC]*PC // the two sides of a branch, and where it was taken
	invTick   int
	facts     []fact
	fids      []FuncV
	fidIdx    map[string]*Term
	tags      map[string]int
	tagT      []types.Type
	quants    []*quant
	covers    []*Obl
	decisions []int
	decPos    int
	decMax    []int
	decNote   []string
	normMemo  map[*Term]*Term
	normGen   int
	depth     int
	vframe    *Frame
	used      map[string]bool // contracts used
	inlined   map[string]bool
	trusted   map[string]bool
	interior  map[*Term]PtrV
	assumed   map[string]bool
	invUsed   map[*Inv]bool
	hints     []*Term
	wfDone    map[*Term]bool
	recDone   map[*Term]int
	steps     int
	inputs    []inputVal
	notes     map[string]bool
	solverQ   int
	curPos    token.Pos
}

type inputVal struct {
	name string
	t    types.Type
	v    Val
}

type FuncV struct {
	fn       *ssa.Function
	bindings []Val
	recv     Val // bound method receivers
}

func NewEngine(p *Prog, h *Harness) *Engine {
	x := &Engine{P: p, ts: NewTS(), h: h, startTick: 1 << 20,
		regions: map[string]*Region{}, base: map[string]*HNode{}, initHeap: map[string]*HNode{}, frozen: map[string]bool{}, initSeen: map[string]bool{}, recDef: map[*Term]*recInfo{}, sib: map[[2]*PC]*PC{}, recFn: map[string]recFnInfo{},
		leafMemo: map[types.Type][]Leaf{}, erMemo: map[types.Type][]*Region{}, fidIdx: map[string]*Term{}, tags: map[string]int{},
		normMemo: map[*Term]*Term{}, interior: map[*Term]PtrV{}, used: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, assumed: map[string]bool{}, invUsed: map[*Inv]bool{},
		wfDone: map[*Term]bool{}, recDone: map[*Term]int{}, notes: map[string]bool{}}
	x.tick = x.startTick
	x.initTick = 1
	x.fids = []FuncV{{}} // 0 is nil
	x.tagT = []types.Type{nil}
	return x
}

func (x *Engine) norm(t *Term) *Term {
	if x.gen == 0 {
		return t
	}
	if x.normGen != x.gen {
		x.normMemo, x.normGen = map[*Term]*Term{}, x.gen
	}
	return x.ts.Subst(t, nil, x.normMemo)
}

func (x *Engine) normVal(v Val) Val {
	if x.gen == 0 {
		return v
	}
	if x.normGen != x.gen {
		x.normMemo, x.normGen = map[*Term]*Term{}, x.gen
	}
	return x.substVal(v, nil, x.normMemo)
}

func (x *Engine) refresh(st *State) {
	for k, v := range st.env {
		st.env[k] = x.normVal(v)
	}
}

func (x *Engine) freshTick() int { x.tick++; return x.tick }

func (x *Engine) symTerm(name string, s *Sort) *Term {
	x.tick++
	return x.ts.Sym(fmt.Sprintf("%s!%d", name, x.tick), s, x.tick)
}

// symVal makes an unconstrained value of type t (well formedness is assumed separately)
func (x *Engine) symVal(name string, t types.Type) Val {
	var ts []*Term
	for _, l := range x.leaves(t) {
		ts = append(ts, x.symTerm(name+l.path, l.sort))
	}
	v, _ := x.unflatten(t, ts)
	return v
}

const maxLen = int64(1) << 40

// wf assumes what the Go runtime guarantees of any value of type t
func (x *Engine) wf(v Val, t types.Type) {
	t = types.Unalias(t)
	if isGvN(t) {
		return
	}
	ts := x.ts
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			x.wfStr(v.(*Term))
		}
	case *types.Slice:
		s := v.(SliceV)
		if s.len.isC() && s.cap.isC() && s.off.isC() {
			return
		}
		if s.len.op == OIte || s.ref.op == OIte {
			return // parts were checked when they were made
		}
		if x.wfDone[s.len] && x.wfDone[s.cap] && x.wfDone[s.ref] && x.wfDone[s.off] {
			return
		}
		x.wfDone[s.len], x.wfDone[s.cap], x.wfDone[s.ref], x.wfDone[s.off] = true, true, true, true
		z := ts.Int(0)
		x.fact([]*Term{s.len, s.cap, s.off, s.ref}, ts.And(ts.SLe(z, s.len), ts.SLe(s.len, s.cap), ts.SLe(s.cap, ts.Int(maxLen)), ts.SLe(z, s.off), ts.SLe(s.off, ts.Int(maxLen)),
			ts.Implies(ts.Eq(s.ref, ts.Nil), ts.And(ts.Eq(s.cap, z), ts.Eq(s.len, z)))))
	case *types.Pointer:
	case *types.Struct:
		s := v.(StructV)
		for i, f := range s.f {
			x.wf(f, u.Field(i).Type())
		}
	case *types.Array:
		for _, f := range v.(StructV).f {
			x.wf(f, u.Elem())
		}
	}
}

func (x *Engine) wfStr(t *Term) {
	if t.op == OStrLit || t.op == OIte || x.wfDone[t] {
		return
	}
	x.wfDone[t] = true
	l := x.ts.StrLen(t)
	x.fact([]*Term{l}, x.ts.And(x.ts.SLe(x.ts.Int(0), l), x.ts.SLe(l, x.ts.Int(maxLen))))
}

// fact is true of every execution; it is used where one of its keys occurs
type fact struct {
	keys []*Term
	t    *Term
}

func (x *Engine) fact(keys []*Term, t *Term) {
	if !t.isTrue() {
		x.facts = append(x.facts, fact{keys, t})
	}
}

func (x *Engine) assumeRaw(t *Term) {
	if !t.isTrue() {
		x.assumes = append(x.assumes, t)
	}
}

// assume adds t under the path condition of st. fresh: symbols born at or after this tick may be rewritten
func (x *Engine) assume(st *State, t *Term, fresh int) {
	if t.isTrue() {
		return
	}
	x.assumes = append(x.assumes, x.ts.Implies(x.pcTerm(st.pc), t))
	root := st.pc.parent == nil
	if root {
		fresh = 0
	}
	if fresh >= 0 && fresh < x.minFresh {
		fresh = x.minFresh
	}
	if fresh >= 0 {
		if x.install(t, fresh) {
			x.bump()
		}
	}
}

func isAtom(t *Term) bool {
	switch t.op {
	case OSym, OSelect, OUF:
		return true
	}
	return false
}

func (x *Engine) install(t *Term, fresh int) bool {
	ch := false
	x.literals(t, fresh, func(k, v *Term) {
		if _, ok := x.ts.rw[k]; !ok {
			x.ts.rw[k] = v
			x.rwLog = append(x.rwLog, [2]*Term{k, v})
			ch = true
		}
	})
	return ch
}

// literals gives the rewrites that a fact allows of symbols born at or after fresh
func (x *Engine) literals(t *Term, fresh int, set func(k, v *Term)) {
	ts := x.ts
	put := func(k, v *Term) {
		if k.isLit() || k == v || k.op == OForall {
			return
		}
		if k.tmax < fresh {
			return
		}
		set(k, v)
	}
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			x.literals(a, fresh, set)
		}
	case ONot:
		put(t.args[0], ts.F)
	case OEq:
		a, b := t.args[0], t.args[1]
		if b.isLit() {
			a, b = b, a
		}
		switch {
		case a.isLit() && b.op != OForall:
			put(b, a)
		case isAtom(a) && a.tmax > b.tmax && !occurs(a, b):
			put(a, b)
		case isAtom(b) && b.tmax > a.tmax && !occurs(b, a):
			put(b, a)
		default:
			put(t, ts.T)
		}
	case OSLt, OSLe, OULt, OULe:
		m := map[*Term]*Term{}
		x.addLit(m, t)
		var ks []*Term
		for k := range m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			put(k, m[k])
		}
	case OOr:
	case OForall:
	default:
		put(t, ts.T)
	}
}

func occurs(a, in *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == a {
			return true
		}
		if seen[t] || t.tmax < a.tmax {
			return false
		}
		seen[t] = true
		for _, y := range t.args {
			if f(y) {
				return true
			}
		}
		return false
	}
	return f(in)
}

func (x *Engine) position(p token.Pos) token.Position {
	return x.P.prog.Fset.Position(p)
}

// oblige records a proof obligation
func (x *Engine) oblige(st *State, kind, name string, pos token.Pos, goal *Term) {
	if x.inInit {
		return
	}
	goal = x.norm(goal)
	goal = x.simp(st.pc, goal)
	if x.mute > 0 {
		return
	}
	o := &Obl{name: name, kind: kind, pos: x.position(pos), cond: x.pcTerm(st.pc), goal: goal, nassume: len(x.assumes), nrw: len(x.rwLog), nq: len(x.qAll), nhint: len(x.hints)}
	if goal.isTrue() || o.cond.isFalse() {
		o.trivial = true
	}
	x.obls = append(x.obls, o)
}

// safety obligations: then the condition is assumed
func (x *Engine) safe(fr *Frame, st *State, kind string, pos token.Pos, goal *Term) {
	goal = x.norm(goal)
	if goal.isTrue() {
		if !fr.spec && !x.inInit && x.mute == 0 {
			x.obls = append(x.obls, &Obl{name: kind, kind: "safety", pos: x.position(pos), cond: x.ts.T, goal: goal, trivial: true, nassume: len(x.assumes)})
		}
		return
	}
	if fr.spec {
		return
	}
	x.oblige(st, "safety", kind+" in "+fnName(fr.fn), pos, goal)
	x.assume(st, goal, -1)
}

func fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/qiniu/uip/", "")
	return s
}

// noteWrite is called for every change of an object that may have existed before
func (x *Engine) noteWrite(st *State, r *Region, ref *Term) {
	if x.inInit {
		return
	}
	ref = x.simp(st.pc, x.norm(ref))
	for _, w := range x.ws {
		x.noteLoop(w, r, ref)
	}
	if x.vframe != nil && x.vframe.h.kind == "contract" {
		x.frameCheck(st, r, ref)
	}
}

func (x *Engine) frameCheck(st *State, r *Region, ref *Term) {
	if x.mute > 0 {
		return
	}
	for _, m := range x.vframe.mods {
		if m == nil { // everything
			return
		}
	}
	fresh := x.born(ref, x.vframe.entry)
	if fresh.isTrue() {
		return
	}
	cs := []*Term{fresh, x.ts.Eq(ref, x.ts.Nil)}
	for i, m := range x.vframe.mods {
		if !x.modHas(x.normVal(m), x.vframe.modT[i], r) {
			continue
		}
		cs = append(cs, x.ts.Eq(ref, refOf(x.normVal(m))))
	}
	x.oblige(st, "frame", "write to "+r.key, x.curPos, x.ts.Or(cs...))
}

// modRegions are the parts of memory that a listed object lives in
func (x *Engine) modRegions(v Val, t types.Type) []*Region {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return x.elemRegions(u.Elem())
	case *types.Pointer:
		if p, ok := v.(PtrV); ok && len(p.path) > 0 {
			var out []*Region
			alts, et := x.resolvePath(p.elem, p.path)
			rs := x.elemRegions(p.elem)
			for _, a := range alts {
				out = append(out, rs[a.first:a.first+len(x.leaves(et))]...)
			}
			return out
		}
		return x.elemRegions(u.Elem())
	case *types.Map:
		r := x.mapRegions(u)
		return append([]*Region{r.dom, r.ln}, r.val...)
	}
	panic(Unsupported("modifies %s", t))
}

func (x *Engine) modHas(v Val, t types.Type, r *Region) bool {
	for _, q := range x.modRegions(v, t) {
		if q == r {
			return true
		}
	}
	return false
}

func refOf(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case SliceV:
		return v.ref
	case PtrV:
		return v.ref
	case IfaceV:
		return v.ref
	}
	panic(Unsupported("reference of %T", v))
}

func (x *Engine) noteLoop(w *writeSet, r *Region, ref *Term) {
	w.touched[r.key] = true
	if ref.op == OIte {
		x.noteLoop(w, r, ref.args[1])
		x.noteLoop(w, r, ref.args[2])
		return
	}
	if ref.op == OAlloc && ref.a >= w.tick {
		return
	}
	if ref == x.ts.Nil {
		return
	}
	if ref.tmax < w.tick {
		if w.refs[r.key] == nil {
			w.refs[r.key] = map[*Term]bool{}
		}
		w.refs[r.key][ref] = true
		return
	}
	if x.born(ref, w.tick).isTrue() {
		return
	}
	if e := x.vframeEntry(); x.bornOK(ref, e) || x.born(ref, e).isTrue() {
		if o, ok := w.born[r.key]; !ok || e < o {
			w.born[r.key] = e
		}
		return
	}
	w.any[r.key] = true
	if os.Getenv("GV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "loop writes anything in %s: %s at %s\n", r.key, ref, x.position(x.curPos))
	}
}

func (x *Engine) touched(r *Region) {
	for _, w := range x.ws {
		w.touched[r.key] = true
	}
}

// ---- interfaces ----

func (x *Engine) tagOf(t types.Type) *Term {
	k := types.TypeString(t, nil)
	if n, ok := x.tags[k]; ok {
		return x.ts.C(int64(n), 32)
	}
	n := len(x.tagT)
	x.tags[k] = n
	x.tagT = append(x.tagT, t)
	return x.ts.C(int64(n), 32)
}

func (x *Engine) boxRegions(t types.Type) []*Region {
	var out []*Region
	k := "box:" + types.TypeString(t, nil)
	for _, l := range x.leaves(t) {
		out = append(out, x.region(k+l.path, BV(64), l.sort))
	}
	return out
}

func (x *Engine) box(st *State, v Val, t types.Type) IfaceV {
	x.tick++
	ref := x.ts.Alloc(x.tick)
	if pv, ok := v.(PtrV); ok && len(pv.path) > 0 {
		x.interior[ref] = pv // seen again only through this very box
		return IfaceV{x.tagOf(t), ref}
	}
	tv := x.flatten(v)
	for i, r := range x.boxRegions(t) {
		st.heap[r.key] = &HNode{kind: HAlloc, reg: r, prev: x.node(st.heap, r), ref: ref, val: tv[i]}
		x.touched(r)
	}
	return IfaceV{x.tagOf(t), ref}
}

func (x *Engine) unbox(h map[string]*HNode, v IfaceV, t types.Type) Val {
	var ts []*Term
	if pv, ok := x.interior[v.ref]; ok {
		return pv
	}
	if len(x.interior) > 0 && v.ref.op == OIte {
		for r := range x.interior {
			if iteHas(v.ref, r) {
				panic(Unsupported("interior pointer in one of several interface values"))
			}
		}
	}
	for _, r := range x.boxRegions(t) {
		ts = append(ts, x.read(x.node(h, r), v.ref, x.ts.Int(0)))
	}
	r, _ := x.unflatten(t, ts)
	return r
}

func iteHas(t, leaf *Term) bool {
	return t == leaf || t.op == OIte && (iteHas(t.args[1], leaf) || iteHas(t.args[2], leaf))
}

// constTags enumerates the literal leaves of a tag term
func constTags(t *Term, out map[uint64]bool) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t.isC() {
			out[t.u64()] = true
			return true
		}
		if t.op == OIte {
			if seen[t] {
				return true
			}
			seen[t] = true
			return f(t.args[1]) && f(t.args[2])
		}
		return false
	}
	return f(t)
}

func (x *Engine) ifaceEq(h map[string]*HNode, a, b IfaceV) *Term {
	ts := x.ts
	te := ts.Eq(a.tag, b.tag)
	if te.isFalse() {
		return te
	}
	if a == b {
		return ts.T
	}
	tags := map[uint64]bool{}
	if !constTags(a.tag, tags) {
		tags = map[uint64]bool{}
		if !constTags(b.tag, tags) {
			u := ts.UF("ifaceEq", BoolS, 0, a.tag, a.ref, b.tag, b.ref)
			return ts.And(te, ts.Or(ts.Eq(a.ref, b.ref), u))
		}
	}
	r := ts.F
	var ks []int
	for k := range tags {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		c := ts.And(te, ts.Eq(a.tag, ts.C(int64(k), 32)))
		if c.isFalse() {
			continue
		}
		if k == 0 {
			r = ts.Or(r, c)
			continue
		}
		t := x.tagT[k]
		e := x.eqVal(h, x.unbox(h, a, t), x.unbox(h, b, t), t)
		r = ts.Or(r, ts.And(c, ts.Or(ts.Eq(a.ref, b.ref), e)))
	}
	return r
}

func (x *Engine) eqVal(h map[string]*HNode, a, b Val, t types.Type) *Term {
	ts := x.ts
	if isGvN(t) {
		return ts.Eq(a.(*Term), b.(*Term))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			return ts.UF("floatEq", BoolS, 0, a.(*Term), b.(*Term))
		}
		return ts.Eq(a.(*Term), b.(*Term))
	case *types.Map, *types.Signature, *types.Chan:
		return ts.Eq(a.(*Term), b.(*Term))
	case *types.Pointer:
		p, q := a.(PtrV), b.(PtrV)
		if p.ref == ts.Nil || q.ref == ts.Nil {
			return ts.Eq(p.ref, q.ref)
		}
		if len(p.path) != len(q.path) {
			panic(Unsupported("comparison of interior pointers"))
		}
		e := ts.And(ts.Eq(p.ref, q.ref), ts.Or(ts.Eq(p.ref, ts.Nil), ts.Eq(p.idx, q.idx)))
		for i := range p.path {
			if p.path[i] != q.path[i] {
				if p.path[i].idx == nil && q.path[i].idx == nil {
					return ts.F
				}
				panic(Unsupported("comparison of interior pointers"))
			}
		}
		return e
	case *types.Interface:
		return x.ifaceEq(h, a.(IfaceV), b.(IfaceV))
	case *types.Struct:
		p, q := a.(StructV), b.(StructV)
		r := ts.T
		for i := range p.f {
			r = ts.And(r, x.eqVal(h, p.f[i], q.f[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		p, q := a.(StructV), b.(StructV)
		r := ts.T
		for i := range p.f {
			r = ts.And(r, x.eqVal(h, p.f[i], q.f[i], u.Elem()))
		}
		return r
	case *types.Slice: // only against nil
		p, q := a.(SliceV), b.(SliceV)
		return ts.Eq(p.ref, q.ref)
	}
	panic(Unsupported("equality on %s", t))
}

// ---- functions as values ----

func (x *Engine) fid(f FuncV) *Term {
	if len(f.bindings) == 0 && f.recv == nil {
		k := f.fn.String()
		if t, ok := x.fidIdx[k]; ok {
			return t
		}
		x.fids = append(x.fids, f)
		t := x.ts.C(int64(len(x.fids)-1), 32)
		x.fidIdx[k] = t
		return t
	}
	x.fids = append(x.fids, f)
	return x.ts.C(int64(len(x.fids)-1), 32)
}
