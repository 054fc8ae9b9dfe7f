package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ensureInit evaluates the initialiser of a global that only initialisation writes
func (x *Engine) ensureInit(g *ssa.Global) {
	name := globalName(g)
	if _, ok := x.initSeen[name]; ok {
		return
	}
	if !x.P.isFrozen(g) {
		x.initSeen[name] = true
		return
	}
	x.initSeen[name] = true
	x.frozen[name] = true
	init := g.Pkg.Func("init")
	if init == nil {
		return
	}
	// the value is computed at ticks before the start
	saveTick, saveInit, saveMute := x.tick, x.inInit, x.mute
	x.tick, x.inInit = x.initTick, true
	x.mute++
	defer func() {
		x.initTick = x.tick
		x.tick, x.inInit, x.mute = saveTick, saveInit, saveMute
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			// no known value: any value of the type
			x.frozen[name] = false
			x.notes["value of "+name+" is left unknown"] = true
		}
	}()
	st := &State{pc: &PC{}, heap: x.initHeap, env: map[ssa.Value]Val{}}
	p := x.globalPtr(g)
	t := g.Type().(*types.Pointer).Elem()
	n := int64(1)
	if a, ok := t.Underlying().(*types.Array); ok {
		n = a.Len()
	}
	_ = n
	for _, r := range x.elemRegions(p.elem) {
		st.heap[r.key] = &HNode{kind: HAlloc, reg: r, prev: x.node(st.heap, r), ref: p.ref, val: x.zeroTerm(r.elem)}
	}
	need := map[ssa.Instruction]bool{}
	var addVal func(v ssa.Value)
	addInstr := func(in ssa.Instruction) {}
	addInstr = func(in ssa.Instruction) {
		if in == nil || need[in] {
			return
		}
		need[in] = true
		var ops [10]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if *o != nil {
				addVal(*o)
			}
		}
		if v, ok := in.(ssa.Value); ok {
			switch in.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
				for _, r := range *v.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == v {
							addInstr(r)
						}
					case *ssa.MapUpdate:
						if r.Map == v {
							addInstr(r)
						}
					case *ssa.IndexAddr, *ssa.FieldAddr:
						addInstr(r)
					}
				}
			}
		}
	}
	addVal = func(v ssa.Value) {
		if in, ok := v.(ssa.Instruction); ok {
			addInstr(in)
		}
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if rootGlobal(in.Addr, 0) == g {
					addInstr(in)
				}
			case *ssa.MapUpdate:
				if rootGlobal(in.Map, 0) == g {
					addInstr(in)
				}
			}
		}
	}
	fr := &Frame{fn: init, mode: mSpec, spec: true}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if !need[in] {
				continue
			}
			switch in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Phi:
				panic(Unsupported("branching initialiser"))
			}
			ns := x.execInstr(fr, st, in)
			if ns == nil {
				panic(Unsupported("initialiser"))
			}
			if len(ns.heap) > 0 {
				for k, v := range ns.heap {
					x.initHeap[k] = v
				}
			}
			st = &State{pc: ns.pc, heap: x.initHeap, env: ns.env}
		}
	}
}
