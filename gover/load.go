package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/qiniu/uip"
const gvPath = modPath + "/verifgv"

// Harness is a contract, a lemma or a specification function
type Harness struct {
	kind    string // contract, also, trusted, lemma, spec
	name    string // package.function
	fn      *ssa.Function
	target  *ssa.Function
	targetN string
	abs     types.Object // an interface's method or a function type, instead of a target
	props   []string
	inline  map[string]bool // contracts not used while verifying this harness
	opts    map[string]string
	opaque  map[string]bool // specification functions kept as symbols
	pkg     string
	file    string
}

type Inv struct {
	fn     *ssa.Function
	target *ssa.Function
	ord    int
	only   string // harness name, when restricted
	name   string
}

type nofit struct {
	pos token.Pos
	why string
}

type Prog struct {
	nofit         []nofit
	prog          *ssa.Program
	pkgs          []*packages.Package
	spkgs         map[string]*ssa.Package
	harnesses     []*Harness
	contracts     map[*ssa.Function]*Harness
	lemmas        map[*ssa.Function]*Harness
	rec           map[*ssa.Function]bool
	abstract      map[*ssa.Function]bool
	recEntry      map[*ssa.Function]bool
	absContracts  map[types.Object]*Harness
	invs          map[*ssa.Function][]*Inv
	mu            sync.Mutex
	loopsC        map[*ssa.Function]*loopInfo
	frozenC       map[*ssa.Global]bool
	errs          []string
	contractFiles []string
}

// Dropped is a declaration of a contract file that no longer fits the code
type Dropped struct {
	pkg, name, target string
	kind              string
	why               string
}

// Overlay is the set of contract files laid over the repository
type Overlay struct {
	repo    string
	src     map[string]string // path in the repository -> file in /verif
	text    map[string][]byte
	dropped []Dropped
}

func newOverlay(repo, contracts string) (*Overlay, error) {
	o := &Overlay{repo: repo, src: map[string]string{}, text: map[string][]byte{}}
	err := filepath.Walk(contracts, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(contracts, path)
		dir, base := filepath.Dir(rel), filepath.Base(rel)
		dst := filepath.Join(repo, dir, "zz_gv_"+base)
		if dir == "gv" {
			dst = filepath.Join(repo, "verifgv", base)
		} else if dir == "gv/std" {
			dst = filepath.Join(repo, "verifgv", "std", "zz_gv_"+base)
		} else if dir == "gv/native" {
			dst = filepath.Join(repo, "verifgv", "native", base)
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		o.src[dst], o.text[dst] = path, b
		return nil
	})
	return o, err
}

// drop blanks the declaration around a line of a contract file, so that the rest can still be used
func (o *Overlay) drop(file string, line int, why string) bool {
	text := o.text[file]
	if text == nil || !strings.Contains(filepath.Base(file), "zz_gv_") {
		return false
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, text, parser.ParseComments)
	if err != nil {
		return false
	}
	blank := func(from, to token.Pos) {
		t := append([]byte{}, text...)
		for i := fset.Position(from).Offset; i < fset.Position(to).Offset; i++ {
			if t[i] != '\n' {
				t[i] = ' '
			}
		}
		o.text[file] = t
	}
	for _, d := range f.Decls {
		if line < fset.Position(d.Pos()).Line || line > fset.Position(d.End()).Line {
			continue
		}
		switch d := d.(type) {
		case *ast.FuncDecl:
			dr := Dropped{pkg: strings.TrimPrefix(filepath.Dir(file), o.repo+"/"), name: d.Name.Name, why: why}
			from := d.Pos()
			if d.Doc != nil {
				from = d.Doc.Pos()
				for _, c := range d.Doc.List {
					if w := strings.Fields(strings.TrimPrefix(c.Text, "//gv:")); strings.HasPrefix(c.Text, "//gv:") && len(w) > 0 {
						switch w[0] {
						case "contract", "also", "trusted", "inv":
							dr.kind = w[0]
							if len(w) > 1 {
								dr.target = w[1]
							}
						case "lemma", "spec":
							dr.kind = w[0]
						}
					}
				}
			}
			o.dropped = append(o.dropped, dr)
			blank(from, d.End())
			return true
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				if line < fset.Position(sp.Pos()).Line || line > fset.Position(sp.End()).Line {
					continue
				}
				if im, ok := sp.(*ast.ImportSpec); ok {
					t := append([]byte{}, text...)
					i := fset.Position(im.Path.Pos()).Offset
					name := ""
					if im.Name != nil {
						i = fset.Position(im.Name.Pos()).Offset
						name = im.Name.Name
						for j := range name {
							t[i+j] = ' '
						}
						t[i] = '_'
					} else {
						t = append(t[:i], append([]byte("_ "), t[i:]...)...)
					}
					if name == "_" {
						return false
					}
					o.text[file] = t
					return true
				}
			}
			o.dropped = append(o.dropped, Dropped{pkg: strings.TrimPrefix(filepath.Dir(file), o.repo+"/"), name: "declaration", why: why})
			blank(d.Pos(), d.End())
			return true
		}
	}
	return false
}

// dropFunc drops a named harness of a package
func (o *Overlay) dropFunc(fset *token.FileSet, pos token.Pos, why string) bool {
	p := fset.Position(pos)
	return o.drop(p.Filename, p.Line, why)
}

// Load loads packages with the contracts; what does not fit the code any more is dropped and noted
func Load(o *Overlay, pkgs []string) (*Prog, error) {
	for try := 0; ; try++ {
		P, again, err := load1(o, pkgs)
		if err == nil || !again || try > 40 {
			return P, err
		}
	}
}

func load1(o *Overlay, pkgs []string) (*Prog, bool, error) {
	overlay := map[string][]byte{}
	for dst, b := range o.text {
		if !strings.HasSuffix(dst, "_test.go") {
			overlay[dst] = b
		}
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     o.repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off"),
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, modPath+"/"+p)
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, false, err
	}
	var msgs []string
	dropped := false
	packages.Visit(initial, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				w := strings.Split(e.Pos, ":")
				if len(w) >= 2 {
					line, _ := strconv.Atoi(w[1])
					if o.drop(w[0], line, e.Msg) {
						dropped = true
						continue
					}
				}
				msgs = append(msgs, e.Error())
			}
		}
	})
	if dropped {
		return nil, true, fmt.Errorf("contracts dropped")
	}
	if len(msgs) > 0 {
		return nil, false, fmt.Errorf("the tree does not type check: %s", strings.Join(msgs, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.GlobalDebug|ssa.InstantiateGenerics)
	P := &Prog{prog: prog, pkgs: initial, spkgs: map[string]*ssa.Package{}, contracts: map[*ssa.Function]*Harness{}, lemmas: map[*ssa.Function]*Harness{}, rec: map[*ssa.Function]bool{},
		abstract: map[*ssa.Function]bool{}, recEntry: map[*ssa.Function]bool{}, absContracts: map[types.Object]*Harness{}, invs: map[*ssa.Function][]*Inv{}, loopsC: map[*ssa.Function]*loopInfo{}, frozenC: map[*ssa.Global]bool{}}
	for _, sp := range prog.AllPackages() {
		P.spkgs[sp.Pkg.Path()] = sp
	}
	prog.Build()
	seen := map[string]bool{}
	var all []*packages.Package
	packages.Visit(initial, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			all = append(all, p)
		}
	})
	sort.Slice(all, func(i, j int) bool { return all[i].PkgPath < all[j].PkgPath })
	for _, p := range all {
		for i, f := range p.Syntax {
			_ = i
			fname := prog.Fset.Position(f.Pos()).Filename
			if !strings.Contains(filepath.Base(fname), "zz_gv_") || seen[fname] {
				continue
			}
			seen[fname] = true
			P.contractFiles = append(P.contractFiles, fname)
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				P.directives(p, fd, fname)
			}
		}
	}
	for _, n := range P.nofit {
		if o.dropFunc(prog.Fset, n.pos, n.why) {
			dropped = true
		}
	}
	if dropped {
		return nil, true, fmt.Errorf("contracts dropped")
	}
	P.lemmaOrder()
	if len(P.errs) > 0 {
		return nil, false, fmt.Errorf("contracts do not match the code: %s", strings.Join(P.errs, "; "))
	}
	return P, false, nil
}

func (P *Prog) fnOf(p *packages.Package, fd *ast.FuncDecl) *ssa.Function {
	obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
	if obj == nil {
		return nil
	}
	return P.prog.FuncValue(obj)
}

// lookup finds a function by name: "NextIP", "Range.Join", "(*Range).Join", "net.IP.To4", "strings.Join"
func (P *Prog) lookup(pkg *types.Package, name string) *ssa.Function {
	name = strings.Trim(name, " ")
	name = strings.NewReplacer("(", "", ")", "", "*", "").Replace(name)
	parts := strings.Split(name, ".")
	sp := P.spkgs[pkg.Path()]
	try := func(sp *ssa.Package, parts []string) *ssa.Function {
		if sp == nil {
			return nil
		}
		if len(parts) == 1 {
			return sp.Func(parts[0])
		}
		if len(parts) == 2 {
			t := sp.Type(parts[0])
			if t == nil {
				return nil
			}
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if obj, _, _ := types.LookupFieldOrMethod(ty, true, sp.Pkg, parts[1]); obj != nil {
					if f, ok := obj.(*types.Func); ok {
						return P.prog.FuncValue(f)
					}
				}
			}
		}
		return nil
	}
	if f := try(sp, parts); f != nil {
		return f
	}
	if len(parts) > 1 {
		for path, q := range P.spkgs {
			if path == parts[0] || strings.HasSuffix(path, "/"+parts[0]) && strings.HasPrefix(path, modPath) {
				if f := try(q, parts[1:]); f != nil {
					return f
				}
			}
		}
		if i := strings.LastIndex(name, "/"); i >= 0 { // encoding/json.Unmarshal
			j := i + strings.Index(name[i:], ".")
			if q := P.spkgs[name[:j]]; q != nil {
				if f := try(q, strings.Split(name[j+1:], ".")); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// lookupAbs finds an interface's method ("inf.Query.Query") or a function type ("inf.Find")
func (P *Prog) lookupAbs(pkg *types.Package, name string) types.Object {
	parts := strings.Split(strings.TrimSpace(name), ".")
	pkgs := []*types.Package{pkg}
	for path, q := range P.spkgs {
		if len(parts) > 1 && (path == parts[0] || strings.HasSuffix(path, "/"+parts[0]) && strings.HasPrefix(path, modPath)) {
			pkgs = append(pkgs, q.Pkg)
		}
	}
	for i, q := range pkgs {
		ps := parts
		if i > 0 {
			ps = parts[1:]
		}
		t, ok := q.Scope().Lookup(ps[0]).(*types.TypeName)
		if !ok {
			continue
		}
		switch u := t.Type().Underlying().(type) {
		case *types.Interface:
			for k := 0; len(ps) == 2 && k < u.NumMethods(); k++ {
				if u.Method(k).Name() == ps[1] {
					return u.Method(k)
				}
			}
		case *types.Signature:
			if len(ps) == 1 {
				return t
			}
		}
	}
	return nil
}

func (P *Prog) directives(p *packages.Package, fd *ast.FuncDecl, fname string) {
	h := &Harness{pkg: strings.TrimPrefix(p.PkgPath, modPath+"/"), file: fname, inline: map[string]bool{}, opaque: map[string]bool{}, opts: map[string]string{}}
	h.name = h.pkg + "." + fd.Name.Name
	fn := P.fnOf(p, fd)
	h.fn = fn
	for _, c := range fd.Doc.List {
		t := c.Text
		if !strings.HasPrefix(t, "//gv:") {
			continue
		}
		t = strings.TrimPrefix(t, "//gv:")
		w := strings.Fields(t)
		arg := strings.TrimSpace(strings.TrimPrefix(t, w[0]))
		switch w[0] {
		case "contract", "also", "trusted":
			h.kind = w[0]
			h.targetN = arg
			h.target = P.lookup(p.Types, arg)
			if h.target == nil && w[0] == "trusted" {
				if h.abs = P.lookupAbs(p.Types, arg); h.abs != nil {
					P.absContracts[h.abs] = h
					break
				}
			}
			if h.target == nil {
				P.nofit = append(P.nofit, nofit{fd.Name.Pos(), "no function " + arg})
				return
			}
			if w[0] != "also" {
				if o := P.contracts[h.target]; o != nil {
					P.errs = append(P.errs, "two contracts for "+arg)
				}
				P.contracts[h.target] = h
			}
		case "bounded":
			h.kind = "bounded"
			h.targetN = arg
		case "lemma":
			h.kind = "lemma"
			P.lemmas[fn] = h
		case "spec":
			h.kind = "spec"
			if w := strings.Fields(arg); len(w) > 0 && w[0] == "rec" {
				P.rec[fn] = true
				P.recEntry[fn] = len(w) > 1 && w[1] == "entry"
			}
			if arg == "abstract" {
				P.abstract[fn] = true
			}
		case "inv":
			if len(w) < 2 {
				P.errs = append(P.errs, "inv needs a function: "+h.name)
				return
			}
			iv := &Inv{fn: fn, name: h.name}
			iv.target = P.lookup(p.Types, w[1])
			if iv.target == nil {
				P.nofit = append(P.nofit, nofit{fd.Name.Pos(), "no function " + w[1]})
				return
			}
			if len(w) > 2 {
				iv.ord, _ = strconv.Atoi(w[2])
			}
			if len(w) > 3 {
				iv.only = w[3]
			}
			P.invs[iv.target] = append(P.invs[iv.target], iv)
			return
		case "props":
			h.props = strings.Split(strings.ReplaceAll(arg, " ", ""), ",")
		case "inline":
			for _, a := range w[1:] {
				h.inline[a] = true
			}
		case "opaque":
			for _, a := range w[1:] {
				h.opaque[a] = true
			}
		case "opt":
			if len(w) > 1 {
				v := "1"
				if len(w) > 2 {
					v = w[2]
				}
				h.opts[w[1]] = v
			}
		default:
			P.errs = append(P.errs, "unknown directive "+w[0])
		}
	}
	if h.kind == "" {
		return
	}
	P.harnesses = append(P.harnesses, h)
}

func (P *Prog) inlineContract(h *Harness, f *ssa.Function) bool {
	if h == nil {
		return false
	}
	for n := range h.inline {
		if n == "all" || f.Name() == n || strings.HasSuffix(fnName(f), n) {
			return true
		}
	}
	return false
}

// ---- loops ----

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

type loopInfo struct {
	rpo     []*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]*loop
	irreduc bool
}

func (P *Prog) loops(fn *ssa.Function) *loopInfo {
	P.mu.Lock()
	defer P.mu.Unlock()
	if l, ok := P.loopsC[fn]; ok {
		return l
	}
	li := &loopInfo{loops: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	pos := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		pos[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if pos[s] <= pos[b] {
				if !s.Dominates(b) {
					li.irreduc = true
					continue
				}
				l := li.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.loops[s] = l
				}
				var back func(x *ssa.BasicBlock)
				back = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, q := range x.Preds {
						back(q)
					}
				}
				back(b)
			}
		}
	}
	var hs []*loop
	for _, l := range li.loops {
		hs = append(hs, l)
	}
	// ordinals follow source position, so that helper blocks do not disturb them
	sort.Slice(hs, func(i, j int) bool {
		pi, pj := loopPos(hs[i]), loopPos(hs[j])
		if pi != pj {
			return pi < pj
		}
		return pos[hs[i].header] < pos[hs[j].header]
	})
	for i, l := range hs {
		l.ord = i
	}
	// inner loops must come out after their outer header: the order of rpo must keep loops contiguous
	P.loopsC[fn] = li
	return li
}

func loopPos(l *loop) token.Pos {
	best := token.Pos(1 << 30)
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && p < best {
				if _, ok := in.(*ssa.DebugRef); !ok {
					best = p
				}
			}
		}
	}
	return best
}

// frozen: the global is only written by package initialisation
func (P *Prog) isFrozen(g *ssa.Global) bool {
	P.mu.Lock()
	defer P.mu.Unlock()
	if b, ok := P.frozenC[g]; ok {
		return b
	}
	ok := true
	scan := func(sp *ssa.Package) {
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if !ok || f == nil {
				return
			}
			isInit := f.Name() == "init"
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if isInit {
						continue
					}
					switch in := in.(type) {
					case *ssa.Store:
						if rootGlobal(in.Addr, 0) == g {
							ok = false
						}
					case *ssa.MapUpdate:
						if rootGlobal(in.Map, 0) == g {
							ok = false
						}
					case *ssa.Call:
						if bi, isB := in.Call.Value.(*ssa.Builtin); isB && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") && rootGlobal(in.Call.Args[0], 0) == g {
							ok = false
						} else if !isB {
							for _, a := range in.Call.Args {
								if a == ssa.Value(g) {
									ok = false
								}
							}
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				visit(a)
			}
		}
		for _, m := range sp.Members {
			if f, isF := m.(*ssa.Function); isF {
				visit(f)
			}
			if t, isT := m.(*ssa.Type); isT {
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := P.prog.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						visit(P.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	scan(g.Pkg)
	for path, sp := range P.spkgs {
		if strings.HasPrefix(path, modPath) && sp != g.Pkg {
			scan(sp)
		}
	}
	P.frozenC[g] = ok
	return ok
}

func rootGlobal(v ssa.Value, d int) *ssa.Global {
	if d > 8 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Global:
		return v
	case *ssa.IndexAddr:
		return rootGlobal(v.X, d+1)
	case *ssa.FieldAddr:
		return rootGlobal(v.X, d+1)
	case *ssa.UnOp:
		return rootGlobal(v.X, d+1)
	case *ssa.Slice:
		return rootGlobal(v.X, d+1)
	}
	return nil
}

// lemmaOrder: a lemma may use itself on a smaller instance, and other lemmas without a circle
func (P *Prog) lemmaOrder() {
	state := map[*ssa.Function]int{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		state[f] = 1
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || g == f || P.lemmas[g] == nil {
					continue
				}
				if state[g] == 1 {
					P.errs = append(P.errs, "lemmas prove each other: "+P.lemmas[g].name)
				}
				if state[g] == 0 {
					visit(g)
				}
			}
		}
		state[f] = 2
	}
	for f := range P.lemmas {
		if state[f] == 0 {
			visit(f)
		}
	}
}
