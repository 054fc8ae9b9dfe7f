package main

import (
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// recursive and abstract specification functions are uninterpreted functions of their (deep, scalar) arguments

func (x *Engine) recArgs(st *State, fn *ssa.Function, args []Val) []*Term {
	var out []*Term
	for i, p := range fn.Params {
		out = append(out, x.recArg(st, args[i], p.Type())...)
	}
	return out
}

func (x *Engine) recArg(st *State, v Val, t types.Type) []*Term {
	if isGvN(t) {
		return []*Term{v.(*Term)}
	}
	v = x.simpVal(st.pc, v)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(SliceV)
		out := []*Term{s.off, s.len}
		for _, r := range x.elemRegions(u.Elem()) {
			out = append(out, x.snap(x.node(st.heap, r), s.ref))
		}
		return out
	case *types.Basic, *types.Signature:
		return []*Term{v.(*Term)}
	case *types.Map:
		// as for what an interface refers to, its identity
		return []*Term{v.(*Term)}
	case *types.Interface:
		return []*Term{v.(IfaceV).tag, v.(IfaceV).ref}
	case *types.Struct:
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.recArg(st, v.(StructV).f[i], u.Field(i).Type())...)
		}
		return out
	case *types.Pointer:
		p := v.(PtrV)
		s, ok := u.Elem().Underlying().(*types.Struct)
		if !ok || len(p.path) > 0 {
			break
		}
		sv, _ := x.loadPtr(st.heap, p)
		var out []*Term
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type().Underlying()
			switch ft.(type) {
			case *types.Slice, *types.Basic:
				out = append(out, x.recArg(st, sv.(StructV).f[i], s.Field(i).Type())...)
			}
		}
		return out
	}
	panic(Unsupported("argument type %s of a recursive specification function", t))
}

// pointersIn: does a value of type t lead to memory that recArg does not pass
func pointersIn(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface, *types.Chan, *types.Slice:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointersIn(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointersIn(u.Elem())
	}
	return false
}

// deepSlice: does recArg pass the elements of a slice that lead to more memory
func deepSlice(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return pointersIn(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if deepSlice(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Pointer:
		if s, ok := u.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if deepSlice(s.Field(i).Type()) {
					return true
				}
			}
		}
	}
	return false
}

// opaque: is fn a specification function of which the contract under verification needs no more than that it is a function
func (x *Engine) opaque(fn *ssa.Function) bool {
	return x.h != nil && x.h.opaque[fn.Name()] && fn.Signature.Results().Len() == 1 && x.P.specFile(fn)
}

// specFile: is fn declared among the contracts
func (P *Prog) specFile(fn *ssa.Function) bool {
	return fn.Pos().IsValid() && strings.HasPrefix(filepath.Base(P.prog.Fset.Position(fn.Pos()).Filename), "zz_gv_")
}

func (x *Engine) recCall(fr *Frame, st *State, fn *ssa.Function, args []Val) Val {
	for _, p := range fn.Params {
		if deepSlice(p.Type()) && !x.P.abstract[fn] {
			// what its elements point to is read as it was when the function under verification was entered
			if !x.P.recEntry[fn] {
				panic(Unsupported("%s follows pointers and is not declared to read the entry state", fnName(fn)))
			}
			for f := fr; f != nil; f = f.parent {
				if f.mode == mUse {
					panic(Unsupported("%s reads the entry state and cannot be used by callers", fnName(fn)))
				}
			}
		}
	}
	ts := x.recArgs(st, fn, args)
	rt := fn.Signature.Results().At(0).Type()
	lv := x.leaves(rt)
	var out []*Term
	for _, l := range lv {
		if x.opaque(fn) {
			out = append(out, x.ts.UF("opaque:"+fnName(fn)+l.path, l.sort, 0, ts...))
			continue
		}
		t := x.ts.UF("rec:"+fnName(fn)+l.path, l.sort, 0, ts...)
		x.recFn[t.name] = recFnInfo{fn, l.path}
		out = append(out, t)
	}
	v, _ := x.unflatten(rt, out)
	return v
}

type recFnInfo struct {
	fn   *ssa.Function
	path string
}

// unfold gives the definition of an application
func (x *Engine) unfold(app *Term) (*Term, []*Term) {
	info, ok := x.recFn[app.name]
	if !ok || x.P.abstract[info.fn] {
		return nil, nil
	}
	fn := info.fn
	st := &State{pc: &PC{}, heap: map[string]*HNode{}, env: map[ssa.Value]Val{}}
	ts := app.args
	for _, p := range fn.Params {
		var v Val
		v, ts = x.recParam(st, p.Type(), ts)
		st.env[p] = v
	}
	fr := &Frame{fn: fn, mode: mSpec, spec: true}
	na := len(x.assumes)
	mf := x.minFresh
	x.minFresh = 1 << 60
	x.mute++
	ns, v := x.runFunc(fr, st)
	x.mute--
	x.minFresh = mf
	side := append([]*Term{}, x.assumes[na:]...)
	x.assumes = x.assumes[:na]
	if ns == nil {
		return nil, nil
	}
	rt := fn.Signature.Results().At(0).Type()
	for i, l := range x.leaves(rt) {
		if l.path == info.path {
			return x.flatten(v)[i], side
		}
	}
	return nil, nil
}

func (x *Engine) recParam(st *State, t types.Type, ts []*Term) (Val, []*Term) {
	if isGvN(t) {
		return ts[0], ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x.tick++
		ref := x.ts.Alloc(x.tick)
		s := SliceV{ref, ts[0], ts[1], ts[1]}
		ts = ts[2:]
		for _, r := range x.elemRegions(u.Elem()) {
			st.heap[r.key] = &HNode{kind: HObj, reg: r, prev: x.node(st.heap, r), ref: ref, val: ts[0]}
			ts = ts[1:]
		}
		return s, ts
	case *types.Basic, *types.Signature:
		return ts[0], ts[1:]
	case *types.Interface:
		return IfaceV{ts[0], ts[1]}, ts[2:]
	case *types.Struct:
		sv := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = x.recParam(st, u.Field(i).Type(), ts)
			sv.f = append(sv.f, v)
		}
		return sv, ts
	case *types.Pointer:
		s := u.Elem().Underlying().(*types.Struct)
		ref := x.allocObj(st, u.Elem())
		p := PtrV{ref: ref, idx: x.ts.Int(0), elem: u.Elem()}
		for i := 0; i < s.NumFields(); i++ {
			switch s.Field(i).Type().Underlying().(type) {
			case *types.Slice, *types.Basic:
				var v Val
				v, ts = x.recParam(st, s.Field(i).Type(), ts)
				x.storePtr(st, PtrV{ref: p.ref, idx: p.idx, elem: p.elem, path: []PathEl{{f: i}}}, v)
			}
		}
		return p, ts
	}
	panic(Unsupported("parameter type %s", t))
}
