package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/gcexportdata"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/leftmike/maho"

type World struct {
	impMu    sync.Mutex
	impCache map[*types.Package]map[*types.Package]bool
	prog     *ssa.Program
	pkgs     []*ssa.Package // repository packages and vs, dependencies first
	byPath   map[string]*ssa.Package
	tpkgs    map[string]*types.Package
	fset     *token.FileSet
	repo     string
	cdir     string
	Dropped  []string
	hs       []*Harness
	byFn     map[*ssa.Function]*Harness // contract of a function
	byExt    map[string][]*Harness      // model of an external function or interface method
	unfolds  map[string]*Harness
	byHF     map[*ssa.Function]*Harness // harness function itself
	recs     map[*ssa.Function]*RecInfo
	mutGlob  map[*ssa.Global]bool // assigned after initialisation
	mutCont  map[*ssa.Global]bool // a map changed after initialisation
	monitors []*Monitor
	guards   []guard

	mu    sync.Mutex
	li    map[*ssa.Function]*LoopInfo
	lv    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	lines int
}

type RecInfo struct {
	fn   *ssa.Function
	fuel int
}

type Harness struct {
	Name    string
	Kind    string // contract, trusted, model, iface, lemma, theorem
	Target  string
	Props   []string
	fn      *ssa.Function
	target  *ssa.Function
	opts    map[string]string
	File    string
	Missing string
}

type listPkg struct {
	ImportPath string
	Export     string
	Standard   bool
	Dir        string
	GoFiles    []string
	Imports    []string
	Module     *struct{ Main bool }
	ImportMap  map[string]string
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	return env
}

type expImporter struct {
	exports map[string]string
	pkgs    map[string]*types.Package
	src     map[string]*types.Package
	fset    *token.FileSet
}

func (e *expImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := e.src[path]; ok {
		return p, nil
	}
	if p, ok := e.pkgs[path]; ok && p.Complete() {
		return p, nil
	}
	f, ok := e.exports[path]
	if !ok {
		return nil, fmt.Errorf("no export data for %s", path)
	}
	fd, err := os.Open(f)
	if err != nil {
		return nil, err
	}
	defer fd.Close()
	r, err := gcexportdata.NewReader(fd)
	if err != nil {
		return nil, err
	}
	return gcexportdata.Read(r, e.fset, e.pkgs, path)
}

// inlinedStd: the packages of the standard library whose functions are executed like the
// repository's own where no model says what they do.
var inlinedStd = map[string]bool{"slices": true, "cmp": true}

// LoadWorld reads the repository's packages with the contract files laid over.
func LoadWorld(repo, cdir string) (*World, error) {
	w := &World{repo: repo, cdir: cdir, byPath: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{},
		byFn: map[*ssa.Function]*Harness{}, byExt: map[string][]*Harness{}, byHF: map[*ssa.Function]*Harness{},
		recs: map[*ssa.Function]*RecInfo{}, li: map[*ssa.Function]*LoopInfo{},
		lv: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Standard,Dir,GoFiles,Imports,Module,ImportMap", "./...")
	cmd.Dir = repo
	cmd.Env = goEnv()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, eb.String())
	}
	var mine, std []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Module != nil && p.Module.Main {
			if strings.HasSuffix(p.ImportPath, "/testutil") || strings.HasSuffix(p.ImportPath, "/storage/test") {
				continue
			}
			mine = append(mine, p)
		} else if p.Export != "" {
			exports[p.ImportPath] = p.Export
			if inlinedStd[p.ImportPath] {
				std = append(std, p)
			}
		}
	}
	fset := token.NewFileSet()
	w.fset = fset
	imp := &expImporter{exports: exports, pkgs: map[string]*types.Package{}, src: map[string]*types.Package{}, fset: fset}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w.prog = prog

	type loaded struct {
		path  string
		tp    *types.Package
		files []*ast.File
		info  *types.Info
	}
	var ls []loaded
	newInfo := func() *types.Info {
		return &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	}
	check := func(path, name string, files, cfiles []string, ver string) error {
		var keep []*ast.File
		for _, f := range files {
			a, err := parser.ParseFile(fset, f, nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			keep = append(keep, a)
		}
		var cs []*ast.File
		for _, f := range cfiles {
			a, err := parser.ParseFile(fset, f, nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			cs = append(cs, a)
		}
		isC := map[string]bool{}
		for _, f := range cfiles {
			isC[f] = true
		}
		for round := 0; ; round++ {
			var errs []types.Error
			conf := types.Config{Importer: imp, GoVersion: ver, Error: func(err error) {
				if te, ok := err.(types.Error); ok && !te.Soft {
					errs = append(errs, te)
				} else if ok && te.Soft && !isC[fset.Position(te.Pos).Filename] {
					errs = append(errs, te)
				}
			}}
			info := newInfo()
			tp, _ := conf.Check(path, fset, append(append([]*ast.File{}, keep...), cs...), info)
			if len(errs) == 0 {
				imp.src[path] = tp
				ls = append(ls, loaded{path, tp, append(append([]*ast.File{}, keep...), cs...), info})
				return nil
			}
			if round > 3000 {
				return errs[0]
			}
			dropped := false
			for _, e := range errs {
				p := fset.Position(e.Pos)
				if !isC[p.Filename] {
					continue
				}
				for _, a := range cs {
					for i, d := range a.Decls {
						if d.Pos() <= e.Pos && e.Pos < d.End() {
							nm := p.String()
							if fd, ok := d.(*ast.FuncDecl); ok {
								nm = fd.Name.Name
								hs := parseDoc(fd)
								if hs != nil {
									hs.Name = nm
									hs.Missing = e.Msg
									hs.File = filepath.Base(p.Filename)
									w.hs = append(w.hs, hs)
								}
							}
							w.Dropped = append(w.Dropped, nm+": "+e.Msg)
							a.Decls = append(a.Decls[:i:i], a.Decls[i+1:]...)
							dropped = true
							break
						}
					}
				}
				if dropped {
					break // positions of the others may be consequences
				}
			}
			if !dropped {
				return errs[0]
			}
		}
	}
	// the ghost package
	if err := check("vs", "vs", []string{filepath.Join(cdir, "vs", "vs.go")}, nil, "go1.21"); err != nil {
		return nil, fmt.Errorf("vs: %v", err)
	}
	for _, p := range std {
		var files []string
		for _, f := range p.GoFiles {
			files = append(files, filepath.Join(p.Dir, f))
		}
		if err := check(p.ImportPath, "", files, nil, ""); err != nil {
			return nil, fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	nstd := len(ls)
	for _, p := range mine {
		var files []string
		for _, f := range p.GoFiles {
			files = append(files, filepath.Join(p.Dir, f))
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		var cf []string
		if rel != "" {
			cf, _ = filepath.Glob(filepath.Join(cdir, rel, "zz_*.go"))
		}
		if err := check(p.ImportPath, "", files, cf, "go1.20"); err != nil {
			return nil, fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	// all imported packages must be known to ssa
	created := map[*types.Package]bool{}
	mineT := map[*types.Package]bool{}
	for _, l := range ls {
		mineT[l.tp] = true
	}
	var create func(p *types.Package)
	create = func(p *types.Package) {
		if created[p] || mineT[p] {
			return
		}
		created[p] = true
		for _, q := range p.Imports() {
			create(q)
		}
		prog.CreatePackage(p, nil, nil, true)
	}
	for _, l := range ls {
		for _, q := range l.tp.Imports() {
			create(q)
		}
	}
	// packages reached only through export data of others
	for _, p := range imp.pkgs {
		create(p)
	}
	for i, l := range ls {
		sp := prog.CreatePackage(l.tp, l.files, l.info, true)
		if l.path != "vs" && i < nstd {
			continue
		}
		w.pkgs = append(w.pkgs, sp)
		w.byPath[l.path] = sp
		w.tpkgs[l.path] = l.tp
	}
	prog.Build()
	for i, l := range ls {
		for _, f := range l.files {
			if l.path != "vs" && i < nstd {
				continue
			}
			if l.path != "vs" && !strings.HasPrefix(filepath.Base(fset.Position(f.Pos()).Filename), "zz_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				h := parseDoc(fd)
				if h == nil {
					continue
				}
				h.Name = fd.Name.Name
				h.File = filepath.Base(fset.Position(f.Pos()).Filename)
				h.fn = w.byPath[l.path].Func(fd.Name.Name)
				if err := w.attach(h); err != nil {
					return nil, err
				}
			}
		}
	}
	w.findMutable()
	sort.Slice(w.hs, func(i, j int) bool { return w.hs[i].Name < w.hs[j].Name })
	return w, nil
}

func parseDoc(fd *ast.FuncDecl) *Harness {
	if fd.Doc == nil {
		return nil
	}
	h := &Harness{opts: map[string]string{}}
	for _, c := range fd.Doc.List {
		if !strings.HasPrefix(c.Text, "//vs:") {
			continue
		}
		t := strings.TrimPrefix(c.Text, "//vs:")
		k, rest, _ := strings.Cut(t, " ")
		rest = strings.TrimSpace(rest)
		switch k {
		case "contract", "trusted", "model", "iface", "lemma", "theorem", "axiom", "rec", "monitor", "unfold":
			h.Kind = k
			h.Target = rest
		case "prop":
			h.Props = append(h.Props, strings.Fields(rest)...)
		default:
			h.opts[k] = rest
			if rest == "" {
				h.opts[k] = "1"
			}
		}
	}
	if h.Kind == "" {
		return nil
	}
	return h
}

func shortName(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

func (w *World) attach(h *Harness) error {
	w.byHF[h.fn] = h
	w.hs = append(w.hs, h)
	if g := strings.Fields(h.opts["guarded"]); len(g) == 3 {
		w.guards = append(w.guards, guard{g[0], g[1], g[2]})
	}
	switch h.Kind {
	case "rec":
		fuel := 3
		if h.opts["fuel"] != "" {
			fmt.Sscan(h.opts["fuel"], &fuel)
		}
		w.recs[h.fn] = &RecInfo{fn: h.fn, fuel: fuel}
	case "contract", "trusted":
		t := w.findFunc(h.Target)
		if t == nil {
			h.Missing = "no function " + h.Target
			return nil
		}
		h.target = t
		if w.byFn[t] != nil {
			return fmt.Errorf("two contracts for %s", h.Target)
		}
		w.byFn[t] = h
	case "unfold":
		if w.unfolds == nil {
			w.unfolds = map[string]*Harness{}
		}
		w.unfolds[typeStr(h.fn.Params[1].Type())] = h
	case "monitor":
		w.addMonitor(h)
	case "model", "iface":
		for _, n := range strings.Fields(h.Target) {
			w.byExt[n] = append(w.byExt[n], h)
		}
	}
	return nil
}

func (w *World) findFunc(name string) *ssa.Function {
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				if shortName(x) == name {
					return x
				}
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := w.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" && shortName(f) == name {
							return f
						}
					}
				}
			}
		}
	}
	return nil
}

// findMutable: globals of the repository changed outside package initialisers.
func (w *World) findMutable() {
	w.mutGlob, w.mutCont = map[*ssa.Global]bool{}, map[*ssa.Global]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(s.Addr); g != nil {
						w.mutGlob[g] = true
					}
				}
				if s, ok := in.(*ssa.MapUpdate); ok {
					if g := rootGlobal(s.Map); g != nil {
						w.mutCont[g] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						if g := rootGlobal(c.Common().Args[0]); g != nil {
							w.mutCont[g] = true
						}
					}
					for _, a := range c.Common().Args {
						if g, ok := a.(*ssa.Global); ok && !isMutex(g) {
							w.mutGlob[g] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				if x.Name() == "init" || strings.HasPrefix(x.Name(), "init#") || w.byHF[x] != nil {
					continue
				}
				visit(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						visit(w.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
}

func isMutex(g *ssa.Global) bool {
	return strings.Contains(g.Type().String(), "sync.")
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
}

var _ = rootGlobal

// ---- loops

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[int]bool
}

type LoopInfo struct {
	rpo    []int
	header []*Loop
}

func (w *World) loops(fn *ssa.Function) *LoopInfo {
	w.mu.Lock()
	defer w.mu.Unlock()
	if li, ok := w.li[fn]; ok {
		return li
	}
	n := len(fn.Blocks)
	li := &LoopInfo{rpo: make([]int, n), header: make([]*Loop, n)}
	seen := make([]bool, n)
	var post []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b.Index] {
			return
		}
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			dfs(b.Succs[i])
		}
		post = append(post, b.Index)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil {
		dfs(fn.Recover)
	}
	for i := range li.rpo {
		li.rpo[i] = n + i
	}
	for i, b := range post {
		li.rpo[b] = len(post) - i
	}
	for _, b := range fn.Blocks {
		if !seen[b.Index] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := li.header[s.Index]
				if L == nil {
					L = &Loop{head: s, blocks: map[int]bool{s.Index: true}}
					li.header[s.Index] = L
				}
				// blocks reaching b without passing s
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if L.blocks[x.Index] {
						continue
					}
					L.blocks[x.Index] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// inner blocks first: give loop bodies precedence over loop exits
	order := make([]int, 0, n)
	for _, b := range post {
		order = append(order, b)
	}
	sort.SliceStable(order, func(i, j int) bool { return li.rpo[order[i]] < li.rpo[order[j]] })
	w.li[fn] = li
	return li
}

func (w *World) liveIn(fn *ssa.Function, blk *ssa.BasicBlock) map[ssa.Value]bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	m, ok := w.lv[fn]
	if !ok {
		m = map[*ssa.BasicBlock]map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			m[b] = map[ssa.Value]bool{}
		}
		for changed := true; changed; {
			changed = false
			for i := len(fn.Blocks) - 1; i >= 0; i-- {
				b := fn.Blocks[i]
				live := map[ssa.Value]bool{}
				for _, s := range b.Succs {
					idx := -1
					for k, p := range s.Preds {
						if p == b {
							idx = k
						}
					}
					phis := map[ssa.Value]bool{}
					for _, in := range s.Instrs {
						if p, ok := in.(*ssa.Phi); ok {
							phis[p] = true
							live[p.Edges[idx]] = true
						}
					}
					for v := range m[s] {
						if !phis[v] {
							live[v] = true
						}
					}
				}
				for k := len(b.Instrs) - 1; k >= 0; k-- {
					in := b.Instrs[k]
					if v, ok := in.(ssa.Value); ok {
						if _, ok := in.(*ssa.Phi); !ok {
							delete(live, v)
						}
					}
					if _, ok := in.(*ssa.Phi); ok {
						continue
					}
					for _, op := range in.Operands(nil) {
						if *op != nil {
							live[*op] = true
						}
					}
				}
				// phis of b are live-in at b (set on the edge)
				for _, in := range b.Instrs {
					if p, ok := in.(*ssa.Phi); ok {
						live[p] = true
					}
				}
				if len(live) != len(m[b]) {
					m[b] = live
					changed = true
				}
			}
		}
		w.lv[fn] = m
	}
	return m[blk]
}

func (w *World) valueType(ctor string) types.Type {
	tp := w.tpkgs[modPath+"/types"]
	for n, k := range valueCtors {
		if k == ctor {
			return tp.Scope().Lookup(n).Type()
		}
	}
	return nil
}

func (w *World) namedType(pkg, name string) types.Type {
	tp := w.tpkgs[modPath+"/"+pkg]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
