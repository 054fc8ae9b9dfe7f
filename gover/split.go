package main

import "fmt"

// ---- splitting an obligation into parts that are easier to decide ----
//
// cond => a and b                      becomes  cond => a,  cond => b
// cond => forall i in [lo,hi): P(i)    becomes  cond and lo<=k<hi => P(k) for a new k; where P(k) distinguishes
//                                      k = t from the rest, it becomes P(t) and P(k) for k != t

func (x *Engine) splitObl(o *Obl) []*Obl {
	var out []*Obl
	x.splitGoal(o, o.cond, o.goal, 0, &out)
	if len(out) > 80 {
		return []*Obl{o}
	}
	return out
}

func (x *Engine) sub(o *Obl, cond, goal *Term) *Obl {
	n := *o
	n.cond, n.goal = cond, goal
	return &n
}

func (x *Engine) splitGoal(o *Obl, cond, goal *Term, d int, out *[]*Obl) {
	ts := x.ts
	if goal.isTrue() || cond.isFalse() {
		return
	}
	if d > 6 {
		*out = append(*out, x.sub(o, cond, goal))
		return
	}
	switch goal.op {
	case OAnd:
		var bytes []*Term
		for _, g := range goal.args {
			if g.op == OEq && g.args[0].sort == BV(8) {
				bytes = append(bytes, g) // parts of one number
				continue
			}
			x.splitGoal(o, cond, g, d, out)
		}
		if len(bytes) > 0 {
			*out = append(*out, x.sub(o, cond, ts.And(bytes...)))
		}
		return
	case OOr:
		// a => (b and c): at most one conjunction among the disjuncts
		for i, a := range goal.args {
			if a.op == OAnd || a.op == OForall {
				var rest []*Term
				for j, b := range goal.args {
					if j != i {
						rest = append(rest, ts.Not(b))
					}
				}
				x.splitGoal(o, ts.And(append(rest, cond)...), a, d+1, out)
				return
			}
		}
	case OForall:
		q := x.quantOf(goal)
		if q == nil {
			break
		}
		pc := x.norm(x.pcTerm(q.st.pc))
		x.tick++
		k := ts.Sym(fmt.Sprintf("k!%d.%d", q.id, x.tick), q.sort(x), x.tick)
		part := func(i *Term, extra *Term) {
			b, side := x.qbody(q, i)
			if i != k {
				extra = ts.T
			}
			c := ts.And(append(append([]*Term{cond, pc, x.guard(q, i)}, side...), extra)...)
			if !extra.isTrue() {
				m := map[*Term]*Term{}
				for _, l := range conj(extra) {
					x.addLit(m, l)
				}
				b = ts.Subst(b, m, map[*Term]*Term{})
			}
			x.splitGoal(o, c, b, d+1, out)
		}
		b, _ := x.qbody(q, k)
		var ne []*Term
		for _, t := range splitAt(b, k) {
			part(t, ts.And(ne...))
			ne = append(ne, ts.Not(ts.Eq(k, t)))
		}
		part(k, ts.And(ne...))
		return
	}
	*out = append(*out, x.sub(o, cond, goal))
}

// splitAt finds values t such that the condition k = t decides something in b
func splitAt(b, k *Term) []*Term {
	seen := map[*Term]bool{}
	var found []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(found) > 2 {
			return
		}
		seen[t] = true
		if t.op == OEq && t.args[0].sort == k.sort {
			for i := 0; i < 2; i++ {
				if t.args[i] == k && !t.args[1-i].isC() && !occurs(k, t.args[1-i]) {
					for _, f := range found {
						if f == t.args[1-i] {
							return
						}
					}
					found = append(found, t.args[1-i])
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(b)
	return found
}
