package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---- collecting what an obligation needs ----

type pattern struct {
	op   Op
	name string
	arg  int
	off  *Term // index = k + off
	so   *Sort
	head *Term
}

type recInfo struct {
	app  *Term
	def  *Term
	deps []*Term
}

type vc struct {
	x       *Engine
	o       *Obl
	asserts []*Term
	seen    map[*Term]int // polarity bits already visited
	queue   []*Term
	pos     map[*quant]bool
	neg     map[*quant]bool
	skDone  map[*quant]bool
	inst    map[*quant]map[*Term]bool
	facts   map[int]bool
	assumeI map[int]bool
	recSeen map[*Term]int
	terms   []*Term
	ninst   int
	iters   map[int]map[*Term]bool
	strEq   map[*Term]bool
	fuel    int
	gen     int // of the terms being added
	tgen    map[*Term]int
	maxGen  int
}

// visit walks an asserted formula; pol: 1 positive, 2 negative, 3 both
func (v *vc) visit(t *Term, pol int) {
	if t.sort != BoolS {
		pol = 3
	}
	if v.seen[t]&pol == pol {
		return
	}
	first := v.seen[t] == 0
	v.seen[t] |= pol
	if first {
		v.terms = append(v.terms, t)
		if v.gen > 0 {
			v.tgen[t] = v.gen
		}
	}
	switch t.op {
	case ONot:
		v.visit(t.args[0], (pol>>1)|((pol&1)<<1))
	case OAnd, OOr:
		for _, a := range t.args {
			v.visit(a, pol)
		}
	case OIte:
		v.visit(t.args[0], 3)
		v.visit(t.args[1], pol)
		v.visit(t.args[2], pol)
	case OForall:
		q := v.x.quantOf(t)
		if q == nil {
			return
		}
		if pol&1 != 0 && v.pos != nil {
			v.pos[q] = true
		}
		if pol&2 != 0 {
			v.neg[q] = true
		}
	default:
		for _, a := range t.args {
			v.visit(a, 3)
		}
	}
}

func (x *Engine) quantOf(t *Term) *quant {
	var id int
	if _, err := fmt.Sscanf(t.name, "forall!%d", &id); err != nil {
		return nil
	}
	return x.qAll[id]
}

func (v *vc) add(t *Term) {
	if t.isTrue() {
		return
	}
	v.asserts = append(v.asserts, t)
	v.visit(t, 1)
}

func (q *quant) sort(x *Engine) *Sort {
	if q.m == nil {
		return BV(64)
	}
	return x.leaves(q.mt.Key())[0].sort
}

// guard says that i is among the values q ranges over
func (x *Engine) guard(q *quant, i *Term) *Term {
	if q.m == nil {
		return x.ts.And(x.ts.SLe(x.norm(q.lo), i), x.ts.SLt(i, x.norm(q.hi)))
	}
	_, ok := x.mapGet(q.st.heap, q.mt, x.norm(q.m), i)
	return x.norm(ok)
}

// qbody evaluates the body of a quantifier at an index; side conditions of the evaluation are collected too
func (x *Engine) qbody(q *quant, i *Term) (*Term, []*Term) {
	na := len(x.assumes)
	mf := x.minFresh
	x.minFresh = 1 << 60
	fn := x.norm(q.fn)
	b := x.callSpec(q.fr, q.st, fn, []Val{i}).(*Term)
	x.minFresh = mf
	if q.neg {
		b = x.ts.Not(b)
	}
	side := append([]*Term{}, x.assumes[na:]...)
	x.assumes = x.assumes[:na]
	return b, side
}

func (x *Engine) qpats(q *quant) []pattern {
	if q.pats != nil && q.patGen == x.gen {
		return q.pats
	}
	so := q.sort(x)
	k := x.ts.Sym(fmt.Sprintf("bound!%d", q.id), so, x.tick)
	x.mute++
	b, side := x.qbody(q, k)
	x.mute--
	q.pats = []pattern{}
	q.patGen = x.gen
	seen := map[*Term]bool{}
	has := map[string]bool{}
	var walk func(t *Term)
	var offOf func(t *Term) *Term
	offOf = func(t *Term) *Term {
		if t == k {
			if so == BV(64) {
				return x.ts.Int(0)
			}
			return x.ts.StrLit("")
		}
		if t.op == OAdd {
			for i := 0; i < 2; i++ {
				if o := offOf(t.args[i]); o != nil && !occurs(k, t.args[1-i]) {
					return x.ts.Add(o, t.args[1-i])
				}
			}
		}
		return nil
	}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OForall {
			q2 := x.quantOf(t)
			if q2 != nil && q2.tick > q.tick && q2 != q {
				x.mute++
				b2, _ := x.qbody(q2, x.ts.Sym(fmt.Sprintf("bound!%d", q2.id), q2.sort(x), x.tick))
				x.mute--
				walk(b2)
				if q2.m == nil {
					walk(q2.lo)
					walk(q2.hi)
				}
			}
		}
		for i, a := range t.args {
			walk(a)
			if a.sort != so {
				continue
			}
			if t.op != OSelect && t.op != OUF {
				continue
			}
			if o := offOf(a); o != nil {
				p := pattern{op: t.op, name: t.name, arg: i, off: o, so: t.sort}
				if t.op == OSelect {
					p.head = t.args[0]
					p.name = headName(t.args[0])
				}
				key := fmt.Sprint(p.op, p.name, p.arg, p.off.id, t.sort.name)
				if !has[key] {
					has[key] = true
					q.pats = append(q.pats, p)
				}
			}
		}
	}
	walk(b)
	for _, s := range side {
		walk(s)
	}
	return q.pats
}

func headName(t *Term) string {
	switch t.op {
	case OUF, OSym:
		return t.name
	case OStore:
		return headName(t.args[0])
	}
	return fmt.Sprint(t.op)
}

var maxInst = 1500
var dbgInst = os.Getenv("GV_INST") != ""

func (x *Engine) buildVC(o *Obl, gen int) *vc {
	x.replayRW(o.nrw)
	v := &vc{x: x, o: o, seen: map[*Term]int{}, pos: map[*quant]bool{}, neg: map[*quant]bool{}, skDone: map[*quant]bool{}, inst: map[*quant]map[*Term]bool{}, facts: map[int]bool{}, recSeen: map[*Term]int{}, iters: map[int]map[*Term]bool{}, strEq: map[*Term]bool{}, fuel: 2, tgen: map[*Term]int{}, maxGen: 3}
	if f, ok := x.h.opts["gen"]; ok {
		fmt.Sscan(f, &v.maxGen)
	}
	if gen < v.maxGen {
		v.maxGen = gen
	}
	if f, ok := x.h.opts["fuel"]; ok {
		fmt.Sscan(f, &v.fuel)
	}
	ts := x.ts
	for _, c := range conj(o.cond) {
		v.add(c)
	}
	v.add(ts.Not(o.goal))
	for _, a := range x.assumes[:o.nassume] {
		v.add(a)
	}
	hints := x.hints[:o.nhint]
	for round := 0; round < 5; round++ {
		before := len(v.asserts)
		// facts
		for i, f := range x.facts {
			if v.facts[i] {
				continue
			}
			for _, k := range f.keys {
				if v.seen[k] != 0 {
					v.facts[i] = true
					v.gen = v.tgen[k]
					v.add(f.t)
					v.gen = 0
					break
				}
			}
		}
		// recursive specification functions
		for _, t := range append([]*Term{}, v.terms...) {
			if t.op == OUF && strings.HasPrefix(t.name, "rec:") {
				d := v.recSeen[t]
				if d < 0 || d >= v.fuel {
					continue
				}
				v.recSeen[t] = -1
				def, side := x.unfold(t)
				if def == nil {
					continue
				}
				n := len(v.terms)
				v.gen = v.tgen[t]
				v.add(ts.Eq(t, def))
				for _, s := range side {
					v.add(s)
				}
				v.gen = 0
				for _, u := range v.terms[n:] {
					if u.op == OUF && strings.HasPrefix(u.name, "rec:") && v.recSeen[u] == 0 {
						v.recSeen[u] = d + 1
					}
				}
			}
		}
		// quantifiers
		var qs []*quant
		for q := range v.neg {
			qs = append(qs, q)
		}
		sort.Slice(qs, func(i, j int) bool { return qs[i].id < qs[j].id })
		for _, q := range qs {
			if v.skDone[q] {
				continue
			}
			v.skDone[q] = true
			if q.skol == nil {
				x.tick++
				q.skol = ts.Sym(fmt.Sprintf("sk!%d", q.id), q.sort(x), x.tick)
			}
			b, side := x.qbody(q, q.skol)
			v.add(ts.Or(q.p, ts.Not(x.norm(x.pcTerm(q.st.pc))), ts.And(x.guard(q, q.skol), ts.Not(b))))
			for _, s := range side {
				v.add(s)
			}
		}
		qs = qs[:0]
		if v.maxGen == 0 {
			v.pos = nil
		}
		for q := range v.pos {
			qs = append(qs, q)
		}
		sort.Slice(qs, func(i, j int) bool { return qs[i].id < qs[j].id })
		// candidate applications by head
		apps := map[string][]*Term{}
		for _, t := range v.terms {
			switch t.op {
			case OSelect:
				apps["s"+headName(t.args[0])+t.sort.name] = append(apps["s"+headName(t.args[0])+t.sort.name], t)
			case OUF:
				apps["u"+t.name+t.sort.name] = append(apps["u"+t.name+t.sort.name], t)
			}
		}
		var skolems []*Term // of the goal
		for _, t := range v.terms {
			if t.op == OSym && strings.HasPrefix(t.name, "k!") {
				skolems = append(skolems, t)
			}
		}
		for _, q := range qs {
			if v.inst[q] == nil {
				v.inst[q] = map[*Term]bool{}
			}
			var cands []*Term
			cgen := map[*Term]int{}
			for _, p := range x.qpats(q) {
				key := "u" + p.name + p.so.name
				if p.op == OSelect {
					key = "s" + p.name + p.so.name
				}
				for _, t := range apps[key] {
					if p.arg < len(t.args) && t.args[p.arg].sort == p.off.sort {
						if p.op == OSelect && !compatHead(x, p.head, t.args[0]) {
							continue
						}
						g := v.tgen[t]
						if g >= v.maxGen {
							continue
						}
						c := x.norm(t.args[p.arg])
						if p.off.sort == BV(64) {
							c = x.norm(ts.Sub(t.args[p.arg], p.off))
						}
						if o, ok := cgen[c]; !ok || g < o {
							cgen[c] = g
						}
						cands = append(cands, c)
					}
				}
			}
			cands = append(cands, hints...)
			if f := ctxFrame(q.fr); f != nil {
				cands = append(cands, f.witness...)
			}
			cands = append(cands, skolems...)
			for _, c := range cands {
				c = x.norm(c)
				if strings.Contains(c.name, "bound!") || hasBound(c) {
					continue
				}
				if v.inst[q][c] || v.ninst > maxInst {
					continue
				}
				if c.sort != q.sort(x) {
					continue
				}
				v.inst[q][c] = true
				g := x.guard(q, c)
				if g.isFalse() {
					continue
				}
				v.ninst++
				if dbgInst {
					fmt.Fprintf(os.Stderr, "  inst q%d at %s\n", q.id, c)
				}
				b, side := x.qbody(q, c)
				v.gen = cgen[c] + 1
				v.add(ts.Or(ts.Not(q.p), ts.Not(x.norm(x.pcTerm(q.st.pc))), ts.Not(g), b))
				for _, s := range side {
					v.add(s)
				}
				v.gen = 0
			}
		}
		// finished map iterations
		for i, d := range x.iterDone {
			if v.seen[d.ok] == 0 {
				continue
			}
			if v.iters[i] == nil {
				v.iters[i] = map[*Term]bool{}
			}
			m := x.norm(d.m)
			for _, t := range append([]*Term{}, v.terms...) {
				if t.op != OSelect || t.args[1].sort != d.sort {
					continue
				}
				k := t.args[1]
				if v.iters[i][k] || len(v.iters[i]) > 60 {
					continue
				}
				v.iters[i][k] = true
				dom := ts.And(ts.Not(ts.Eq(m, ts.Nil)), x.read(d.dom, m, k))
				v.add(ts.Or(d.ok, ts.Not(dom), x.read(d.visited, m, k)))
			}
		}
		// equality with string literals
		for _, t := range append([]*Term{}, v.terms...) {
			if t.op != OEq || t.args[0].sort != StrS || v.strEq[t] {
				continue
			}
			v.strEq[t] = true
			a, b := t.args[0], t.args[1]
			if b.op == OStrLit {
				a, b = b, a
			}
			if a.op != OStrLit || len(a.name) > 32 {
				continue
			}
			c := []*Term{ts.Eq(ts.StrLen(b), ts.Int(int64(len(a.name))))}
			for j := 0; j < len(a.name); j++ {
				c = append(c, ts.Eq(ts.StrAt(b, ts.Int(int64(j))), ts.C(int64(a.name[j]), 8)))
			}
			v.add(ts.Eq(t, ts.And(c...)))
		}
		if len(v.asserts) == before {
			break
		}
	}
	o.insts = v.ninst
	if dbgInst {
		fmt.Fprintf(os.Stderr, "VC %s %s: %d insts, %d asserts, %d terms %d total terms, %s\n", o.kind, o.name, v.ninst, len(v.asserts), len(v.terms), x.ts.n, time.Now().Format("05.0"))
	}
	return v
}

func hasBound(t *Term) bool {
	if t.op == OSym && strings.HasPrefix(t.name, "bound!") {
		return true
	}
	for _, a := range t.args {
		if hasBound(a) {
			return true
		}
	}
	return false
}

func compatHead(x *Engine, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == OUF && b.op == OUF && a.name == b.name && len(a.args) > 0 && len(a.args) == len(b.args) && a.args[0].sort == RefS {
		return !x.ts.Eq(a.args[0], b.args[0]).isFalse()
	}
	return true
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func (x *Engine) replayRW(n int) {
	if x.rwPos == n && x.rwReplay {
		return
	}
	x.rwReplay = true
	x.rwPos = n
	m := map[*Term]*Term{}
	for _, e := range x.rwLog[:n] {
		m[e[0]] = e[1]
	}
	x.ts.rw = m
	x.bump()
}

// ---- printing ----

type printer struct {
	b     *bytes.Buffer
	names map[*Term]string
	cnt   map[*Term]int
	decl  map[string]bool
	refs  []*Term // literal refs
	strs  []*Term
	allR  []*Term
	lens  []*Term
}

func quoteSym(s string) string {
	s = strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, s)
	return "|" + s + "|"
}

func (p *printer) count(t *Term) {
	p.cnt[t]++
	if p.cnt[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
	switch t.op {
	case OAlloc, OGlobal, ONil:
		p.refs = append(p.refs, t)
	case OStrLit:
		p.strs = append(p.strs, t)
	}
	if t.sort == RefS {
		p.allR = append(p.allR, t)
	}
}

func (p *printer) declare(name string, args []*Sort, so *Sort) {
	if p.decl[name] {
		return
	}
	p.decl[name] = true
	var as []string
	for _, a := range args {
		as = append(as, a.name)
	}
	fmt.Fprintf(p.b, "(declare-fun %s (%s) %s)\n", name, strings.Join(as, " "), so.name)
}

func bvLit(v *big.Int, w int) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*s", w/4, v.Text(16))
	}
	return fmt.Sprintf("#b%0*s", w, v.Text(2))
}

func ufName(t *Term) string {
	n := t.name
	for _, a := range t.args {
		_ = a
	}
	return quoteSym(n + "/" + fmt.Sprint(len(t.args)) + sortSuffix(t))
}

func sortSuffix(t *Term) string {
	if strings.HasPrefix(t.name, "H") || strings.HasPrefix(t.name, "rec:") {
		return ""
	}
	s := ""
	for _, a := range t.args {
		s += "," + a.sort.name
	}
	return s + ":" + t.sort.name
}

func (p *printer) expr(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var s string
	switch t.op {
	case OConst:
		return bvLit(t.val, t.sort.W)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONil:
		p.declare("nil!", nil, RefS)
		return "nil!"
	case OSym, OForall:
		n := quoteSym(t.name)
		p.declare(n, nil, t.sort)
		return n
	case OAlloc:
		n := fmt.Sprintf("new!%d", t.a)
		p.declare(n, nil, RefS)
		return n
	case OGlobal:
		n := quoteSym("&" + t.name)
		p.declare(n, nil, RefS)
		return n
	case OStrLit:
		n := fmt.Sprintf("str!%d", t.id)
		p.declare(n, nil, StrS)
		return n
	}
	args := make([]string, len(t.args))
	for i, a := range t.args {
		args[i] = p.expr(a)
	}
	j := strings.Join(args, " ")
	switch t.op {
	case OUF:
		n := ufName(t)
		var as []*Sort
		for _, a := range t.args {
			as = append(as, a.sort)
		}
		p.declare(n, as, t.sort)
		if len(args) == 0 {
			s = n
		} else {
			s = "(" + n + " " + j + ")"
		}
	case OExtract:
		s = fmt.Sprintf("((_ extract %d %d) %s)", t.a, t.b, j)
	case OZExt:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.a, j)
	case OSExt:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.a, j)
	case OConstArr:
		s = fmt.Sprintf("((as const %s) %s)", t.sort.name, j)
	default:
		n, ok := opNames[t.op]
		if !ok {
			panic(fmt.Sprintf("print op %d", t.op))
		}
		s = "(" + n + " " + j + ")"
	}
	if p.cnt[t] > 1 {
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(p.b, "(define-fun %s () %s %s)\n", n, t.sort.name, s)
		p.names[t] = n
		return n
	}
	return s
}

func (v *vc) smt() string {
	x := v.x
	p := &printer{b: &bytes.Buffer{}, names: map[*Term]string{}, cnt: map[*Term]int{}, decl: map[string]bool{}}
	for _, a := range v.asserts {
		p.count(a)
	}
	// axioms over refs
	var extra []*Term
	ts := x.ts
	save := ts.rw
	ts.rw = nil
	birth := false
	for t := range p.cnt {
		if t.op == OUF && t.name == "birth" {
			birth = true
		}
	}
	if birth || len(p.refs) > 1 {
		var rs []*Term
		for _, t := range p.allR {
			if t.op != OIte {
				rs = append(rs, t)
			}
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for _, t := range rs {
			bt := ts.UF("birth", BV(32), 0, t)
			switch t.op {
			case OAlloc:
				extra = append(extra, ts.raw(&Term{op: OEq, sort: BoolS, args: []*Term{bt, ts.C(int64(t.a), 32)}}))
			case ONil, OGlobal:
				extra = append(extra, ts.raw(&Term{op: OEq, sort: BoolS, args: []*Term{bt, ts.C(0, 32)}}))
			default:
				e := ts.epoch(t)
				if e < 1<<31 {
					extra = append(extra, ts.raw(&Term{op: OULe, sort: BoolS, args: []*Term{bt, ts.C(int64(e), 32)}}))
				}
				if t.op == OSym && t.b > 0 {
					extra = append(extra, ts.raw(&Term{op: OOr, sort: BoolS, args: []*Term{ts.raw(&Term{op: OEq, sort: BoolS, args: []*Term{t, ts.Nil}}), ts.raw(&Term{op: OULe, sort: BoolS, args: []*Term{ts.C(int64(t.b), 32), bt}})}}))
				}
			}
		}
	}
	for _, t := range p.strs {
		extra = append(extra, ts.raw(&Term{op: OEq, sort: BoolS, args: []*Term{ts.UF("strlen", BV(64), 0, t), ts.Int(int64(len(t.name)))}}))
	}
	ts.rw = save
	for _, a := range extra {
		p.count(a)
	}
	var body []string
	for _, a := range v.asserts {
		body = append(body, "(assert "+p.expr(a)+")")
	}
	for _, a := range extra {
		body = append(body, "(assert "+p.expr(a)+")")
	}
	distinct := func(ts []*Term) {
		if len(ts) < 2 {
			return
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		var ns []string
		for _, t := range ts {
			ns = append(ns, p.expr(t))
		}
		body = append(body, "(assert (distinct "+strings.Join(ns, " ")+"))")
	}
	distinct(p.refs)
	distinct(p.strs)
	var out bytes.Buffer
	out.WriteString("(set-logic ALL)\n")
	out.WriteString("(declare-sort Ref 0)\n(declare-sort Str 0)\n")
	out.Write(p.b.Bytes())
	out.WriteString(strings.Join(body, "\n"))
	out.WriteString("\n(check-sat)\n")
	return out.String()
}

// ---- solvers ----

type solverSpec struct {
	name string
	args []string
}

var solverSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, sp solverSpec, file string, timeout time.Duration) (string, float64) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	c, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(c, sp.name, append(append([]string{}, sp.args...), file)...)
	out, _ := cmd.CombinedOutput()
	d := time.Since(t0).Seconds()
	s := strings.TrimSpace(string(out))
	line := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		line = s[:i]
	}
	switch line {
	case "sat", "unsat":
		return line, d
	}
	if strings.Contains(s, "error") && !strings.Contains(s, "interrupted") && !strings.Contains(s, "timeout") {
		return "error: " + s, d
	}
	return "unknown", d
}

func solvers(t int) []solverSpec {
	return []solverSpec{
		{"z3-new", []string{fmt.Sprintf("-T:%d", t)}},
		{"cvc5", []string{fmt.Sprintf("--tlimit=%d", t*1000)}},
		{"z3", []string{fmt.Sprintf("-T:%d", t)}},
		{"z3-new", []string{fmt.Sprintf("-T:%d", t), "smt.random_seed=7", "sat.random_seed=7", "smt.arith.solver=2"}},
	}
}

var slowLimit = 60

// solve decides satisfiability of the file: first a quick attempt, then a portfolio
//
// files are ever stronger sets of hypotheses for one obligation; only for the last does "sat" mean anything
func solve(files []string, quick, slow int) (res, backend string, secs float64, note string) {
	for i, f := range files {
		r, d := runSolver(context.Background(), solvers(quick)[0], f, time.Duration(quick)*time.Second)
		secs += d
		if r == "unsat" || r == "sat" && i == len(files)-1 {
			return r, "z3-5.3.2", secs, ""
		}
		note = r
	}
	if slow <= 0 {
		return "unknown", "", secs, note
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res1 struct {
		r, n string
		d    float64
	}
	ch := make(chan res1, 16)
	sps := solvers(slow)
	names := []string{"z3-5.3.2", "cvc5-1.1.2", "z3-4.8.12", "z3-5.3.2"}
	n := 0
	run := func(i int, f string, last bool) {
		n++
		go func() {
			r, d := runSolver(ctx, sps[i], f, time.Duration(slow)*time.Second)
			if r == "sat" && !last {
				r = "unknown"
			}
			ch <- res1{r, names[i], d}
		}()
	}
	if len(files) > 1 {
		run(0, files[0], false)
	}
	if len(files) > 2 {
		run(0, files[1], false)
	}
	for i := range sps {
		run(i, files[len(files)-1], true)
	}
	for ; n > 0; n-- {
		q := <-ch
		secs += q.d
		if q.r == "sat" || q.r == "unsat" {
			return q.r, q.n, secs, note
		}
		if strings.HasPrefix(q.r, "error") {
			note = q.n + ": " + q.r
		}
	}
	return "unknown", "", secs, note
}

func (x *Engine) feasible(st *State) bool {
	if x.inInit {
		return true
	}
	x.mute++
	defer func() { x.mute-- }()
	o := &Obl{cond: x.pcTerm(st.pc), goal: x.ts.F, nassume: len(x.assumes), nrw: len(x.rwLog), nhint: len(x.hints)}
	rp := x.rwReplay
	v := x.buildVC(o, 99)
	x.rwReplay = rp
	f := tmpFile(v.smt())
	defer os.Remove(f)
	r, _, _, _ := solve([]string{f}, 5, 0)
	x.solverQ++
	return r != "unsat"
}

var tmpDir string
var tmpN int
var tmpMu sync.Mutex

func tmpFile(s string) string {
	tmpMu.Lock()
	tmpN++
	n := tmpN
	tmpMu.Unlock()
	f := fmt.Sprintf("%s/q%d.smt2", tmpDir, n)
	os.WriteFile(f, []byte(s), 0o644)
	return f
}
