package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// Result of verifying one harness
type Result struct {
	Harness  string
	Kind     string
	Target   string
	Cases    int
	Obls     []*Obl
	Err      string // the engine could not generate the obligations
	Vacuous  bool
	GenSecs  float64
	Secs     float64
	Used     map[string]bool
	Inlined  map[string]bool
	Trusted  map[string]bool
	Assumed  map[string]bool
	Notes    map[string]bool
	Inputs   []string
	CoverSat int
	CoverN   int
}

func (r *Result) failed() []*Obl {
	var out []*Obl
	for _, o := range r.Obls {
		if o.status != "valid" {
			out = append(out, o)
		}
	}
	return out
}

type Config struct {
	quick, slow int
	deadline    time.Time
	keep        bool
}

var lastStack string

// verifyCase runs the symbolic execution for one vector of case decisions
func verifyCase(P *Prog, h *Harness, dec []int) (x *Engine, err error) {
	x = NewEngine(P, h)
	x.decisions = dec
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", u.Error())
			} else {
				err = fmt.Errorf("internal: %v", r)
				if os.Getenv("GV_DEBUG") != "" {
					panic(r)
				}
			}
			err = fmt.Errorf("%v (near %s)", err, x.position(x.curPos))
		}
	}()
	st := &State{pc: &PC{}, heap: map[string]*HNode{}, env: nil}
	st.env = envMap()
	fr := &Frame{fn: h.fn, mode: mVerify, h: h, spec: true}
	fr.entry = x.startTick
	for _, p := range h.fn.Params {
		v := x.symVal(p.Name(), p.Type())
		x.wf(v, p.Type())
		st.env[p] = v
		x.inputs = append(x.inputs, inputVal{p.Name(), p.Type(), v})
	}
	// whether the preconditions can be met is asked at the end
	ns, _ := x.runFunc(fr, st)
	if ns == nil {
		// no way through: an obligation must have failed, or the case is impossible
		x.covers = append(x.covers, &Obl{name: "end reachable", kind: "cover", cond: x.ts.F, goal: x.ts.F, nassume: len(x.assumes), nrw: len(x.rwLog), nhint: len(x.hints)})
		return x, nil
	}
	if h.target != nil && !fr.called {
		return x, fmt.Errorf("the harness does not call %s on any path", h.targetN)
	}
	x.covers = append(x.covers, &Obl{name: "end reachable", kind: "cover", cond: x.pcTerm(ns.pc), goal: x.ts.F, nassume: len(x.assumes), nrw: len(x.rwLog), nhint: len(x.hints)})
	return x, nil
}

func Verify(P *Prog, h *Harness, cfg Config) *Result {
	t0 := time.Now()
	r := &Result{Harness: h.name, Kind: h.kind, Target: h.targetN, Used: map[string]bool{}, Inlined: map[string]bool{}, Trusted: map[string]bool{}, Assumed: map[string]bool{}, Notes: map[string]bool{}}
	var dec []int
	var wg sync.WaitGroup
	var mu sync.Mutex
	for {
		g0 := time.Now()
		x, err := verifyCase(P, h, dec)
		r.GenSecs += time.Since(g0).Seconds()
		r.Cases++
		if err != nil {
			r.Err = err.Error()
			if len(x.decNote) > 0 {
				r.Err += " [" + strings.Join(x.decNote, " ") + "]"
			}
			break
		}
		merge := func(a, b map[string]bool) {
			for k := range b {
				a[k] = true
			}
		}
		merge(r.Used, x.used)
		merge(r.Inlined, x.inlined)
		merge(r.Trusted, x.trusted)
		merge(r.Assumed, x.assumed)
		merge(r.Notes, x.notes)
		cas := strings.Join(x.decNote, " ")
		// identical obligations are proved once
		type key struct {
			c, g *Term
			n    int
		}
		seen := map[key]*Obl{}
		for _, o := range x.obls {
			o.harness, o.cas = h.name, cas
			r.Obls = append(r.Obls, o)
			if o.trivial {
				o.status, o.backend = "valid", "simplifier"
				continue
			}
			k := key{o.cond, o.goal, o.nassume}
			if seen[k] != nil {
				o.status, o.backend = "valid", "duplicate" // stands or falls with the first
				continue
			}
			seen[k] = o
			if time.Now().After(cfg.deadline) {
				o.status, o.out = "unknown", "out of time"
				continue
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						if os.Getenv("GV_DEBUG") != "" {
							panic(e)
						}
						o.status = "unknown"
						o.out = fmt.Sprint(e)
					}
				}()
				parts := []*Obl{o}
				if o.kind != "safety" {
					parts = x.splitObl(o)
				}
				o.parts = len(parts)
				if os.Getenv("GV_SPLIT") != "" {
					for _, p := range parts {
						fmt.Fprintf(os.Stderr, "part of %s %s: %s\n", o.kind, o.name, p.goal)
					}
				}
				o.status, o.backend = "valid", "simplifier"
				for pi, po := range parts {
					var fs []string
					for _, g := range []int{0, 1, 99} {
						n := po.insts
						v := x.buildVC(po, g)
						if g > 0 && po.insts == n {
							continue // nothing new
						}
						fs = append(fs, tmpFile(v.smt()))
					}
					if po.insts > o.insts {
						o.insts = po.insts
					}
					f := fs[len(fs)-1]
					wg.Add(1)
					go func(o *Obl, pi int) {
						defer wg.Done()
						slow := cfg.slow
						if left := int(time.Until(cfg.deadline).Seconds()); slow > left {
							slow = left
						}
						res, be, secs, note := solve(fs, cfg.quick, slow)
						mu.Lock()
						defer mu.Unlock()
						o.secs += secs
						if os.Getenv("GV_SPLIT") != "" {
							fmt.Fprintf(os.Stderr, "part %d of %s %s: %s %.1fs %v\n", pi, o.kind, o.name, res, secs, fs)
						}
						if o.status == "valid" {
							o.backend = be
							o.model = f
						}
						switch res {
						case "unsat":
						case "sat":
							o.status, o.out = "failed", "sat"
							o.backend = be
							o.model = f
						default:
							if o.status == "valid" {
								o.status, o.out = "unknown", note
							}
						}
						for _, g := range fs {
							if (res == "unsat" || g != f) && !cfg.keep {
								os.Remove(g)
							}
						}
					}(o, pi)
				}
			}()
		}
		for _, o := range x.covers {
			if o.cond.isFalse() {
				r.CoverN++
				continue
			}
			v := x.buildVC(o, 99)
			f := tmpFile(v.smt())
			wg.Add(1)
			go func() {
				defer wg.Done()
				res, _, _, _ := solve([]string{f}, cfg.quick, 0)
				mu.Lock()
				r.CoverN++
				if res != "unsat" {
					r.CoverSat++
				}
				mu.Unlock()
				if !cfg.keep {
					os.Remove(f)
				}
			}()
		}
		// next vector of decisions
		dec = append([]int{}, x.decisions[:x.decPos]...)
		mx := x.decMax
		for len(dec) > 0 && dec[len(dec)-1]+1 >= mx[len(dec)-1] {
			dec = dec[:len(dec)-1]
		}
		if len(dec) == 0 {
			break
		}
		dec[len(dec)-1]++
		if r.Cases > 4000 {
			r.Err = "too many cases"
			break
		}
	}
	wg.Wait()
	if r.Err == "" && r.CoverSat == 0 {
		r.Vacuous = true
	}
	r.Secs = time.Since(t0).Seconds()
	return r
}

func sortedSet(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
